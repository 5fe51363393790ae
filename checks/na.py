"""Properties this family cannot decide here, with the reason."""

NA = {
    "N01": dict(
        title="Commitments, range proofs and signatures verify exactly when they are valid",
        statement="A range proof, a kernel signature and a sum of commitments are accepted if and only if they are mathematically valid for the values they speak about.",
        over=["inputs"], qtext="every proof, signature, commitment and blinding factor",
        why="Acceptance is an equation over a curve of about 2^256 points; tests sample a handful of values.",
        files=["src/Crypto/Pedersen.cpp", "src/Crypto/Bulletproofs.cpp", "src/Crypto/AggSig.cpp"],
        mechanism=[("Pedersen, Bulletproofs, AggSig", "src/Crypto")],
        reason="The truth of the property is field and curve arithmetic inside libsecp256k1 (not even built in this sandbox); no dataflow, typestate or type argument bounds it. What is decidable about the callers (results checked, every proof passed to the verifier) is claimed in C02, C03, C19."),
    "N02": dict(
        title="A proof of work is accepted exactly when it is a cycle of the header's graph",
        statement="The proof-of-work verifier accepts a nonce list if and only if it is a simple cycle of the required length in the graph its header defines.",
        over=["inputs"], qtext="every header and every list of nonces",
        why="The graph is defined by a keyed hash of 2^29 or more edges; a test checks one known solution.",
        files=["src/PoW/Cuckaroo.cpp", "src/PoW/Cuckatoo.cpp", "src/PoW/PoWValidator.cpp"],
        mechanism=[("Cuckaroo, Cuckarood, Cuckaroom, Cuckarooz, Cuckatoo validators", "src/PoW")],
        reason="Equivalence of the edge-matching loops with 'is a simple cycle' is a functional-correctness statement over arrays indexed by computed values (slot chains, xor accumulators); no sound static abstraction in reach proves it. That the verdict is consulted and obeyed is claimed in C01."),
    "N03": dict(
        title="The Merkle mountain range root is a function of the leaves alone",
        statement="After any history of appends, removals, rewinds and compactions, the root and the unpruned leaves of every Merkle mountain range equal those of a fresh one built from the surviving leaves.",
        over=["histories"], qtext="every sequence of append, remove, rewind, compact, commit and rollback",
        why="Positions, shifts and peaks depend on the whole history; tests build a few small trees.",
        files=["src/PMMR/Common/MMRUtil.cpp", "src/PMMR/Common/PruneList.cpp", "src/PMMR/Common/PruneableMMR.h"],
        mechanism=[("MMR index arithmetic and prune-list shifts", "src/PMMR/Common")],
        reason="The property is arithmetic on unbounded positions (peak maps, shift caches over a bitmap); it needs an inductive numeric proof or execution, not a static rule. The structural half, that all files and bitmaps of a range move together, is claimed in C06 and C28."),
    "N04": dict(
        title="Concurrent readers always see one consistent chain state",
        statement="Every answer given while blocks are being applied corresponds to the state before or after some whole block, never to a mixture.",
        over=["schedules"], qtext="every interleaving of readers with block processing",
        why="Needs an interleaving between two stores' commits that no test schedules.",
        files=["src/BlockChain/BlockChainImpl.cpp", "src/BlockChain/ChainState.cpp"],
        mechanism=[("ChainState and its stores", "src/BlockChain")],
        reason="Linearizability quantifies over interleavings of operations on several separately locked stores; lock-set rules (C26) show absence of unlocked access, not that multi-lock reads form a snapshot, and the code takes the locks one at a time by design."),
    "N05": dict(
        title="A crash during a commit never leaves the stores disagreeing",
        statement="After a crash at any instruction of a commit, restarting finds the block database, the chain files and the transaction set describing the same chain.",
        over=["crash_points"], qtext="every instruction and every partial disk write during a commit",
        why="Requires stopping the process between two particular writes.",
        files=["src/BlockChain/ChainState.cpp", "src/Core/File/AppendOnlyFile.cpp", "src/PMMR/TxHashSetImpl.cpp"],
        mechanism=[("ChainState::Commit over its members", "src/BlockChain/ChainState.cpp")],
        reason="The stores are committed one after another without a common journal, so the property needs reasoning about recovery code over partial on-disk states (runtime bytes). What is structurally decidable (write-then-rename, sync before rename, commit order within a store) is claimed in C06 and C22."),
    "N06": dict(
        title="The node eventually catches up with the best reachable chain",
        statement="As long as one honest peer with more work stays connected, the node eventually adopts that peer's chain.",
        over=["schedules", "fault_sequences"], qtext="every mix of honest, slow and failing peers",
        why="A liveness statement over unbounded runs.",
        files=["src/P2P/Sync/Syncer.cpp", "src/P2P/Sync/HeaderSyncer.cpp", "src/P2P/Sync/BlockSyncer.cpp", "src/P2P/Sync/StateSyncer.cpp"],
        mechanism=[("Syncer loop", "src/P2P/Sync")],
        reason="Liveness under timing and peer behaviour depends on timeouts, clocks and message arrival; static analysis can show that the loop survives failures (C12) but not that it makes progress."),
    "N07": dict(
        title="The wallet's balance equals what the chain lets it spend",
        statement="After a refresh, the wallet's spendable total equals the sum of the values of its outputs that are unspent and mature on the node's chain.",
        over=["histories"], qtext="every history of sends, receives, cancellations, reorganisations and refreshes",
        why="Depends on the joint history of wallet database and chain.",
        files=["src/Wallet/WalletRefresher.cpp", "src/Wallet/WalletImpl.cpp"],
        mechanism=[("WalletRefresher", "src/Wallet/WalletRefresher.cpp")],
        reason="Equality of two sums over runtime collections held in different stores; a static rule can decide each status transition (C20) but not the resulting totals."),
}
