"""State archives: the unspent-output set received from a peer replaces ours only after complete validation."""

PROPERTY = dict(
    title="A downloaded state archive is installed only after complete validation",
    statement="The output set, range proofs and kernels unpacked from a peer's state archive become the node's state only if, for the named header, all sizes, internal hashes and roots match, "
              "the kernel root of every header in the chain is reproduced, the kernel sums balance against the total emission, and every unspent output's range proof and every kernel's signature verify. "
              "An archive failing any check leaves the confirmed chain and block database as they were, and the peer that served it is penalised.",
    over=["inputs", "fault_sequences"], qtext="every archive a peer can send and every header it can be requested for",
    why="The tests contain no forged archive; a dropped check, an off-by-one batch, or a result that is ignored leaves every test green.",
    files=["src/PMMR/TxHashSetValidator.cpp", "src/BlockChain/Processors/TxHashSetProcessor.cpp", "src/PMMR/TxHashSetManager.cpp", "src/P2P/Pipeline/TxHashSetPipe.cpp"],
    mechanism=[("TxHashSetValidator::Validate", "src/PMMR/TxHashSetValidator.cpp"), ("TxHashSetProcessor::ProcessTxHashSet", "src/BlockChain/Processors/TxHashSetProcessor.cpp")],
    technique="must-fact dataflow with batched-collection summaries (every element of a batch loop passed the batch verifier) on the accepting exits and on the install call sites",
)


def run(c):
    V = "TxHashSetValidator::Validate"
    O = "$0.m_pOutputPMMR.GetAt(i[LeafIndex::At(0)..{hi}))"
    K = "$0.m_pKernelMMR.GetKernelAt(i[LeafIndex::At(0)..{khi}))"

    def ok(v):
        return v not in ("null", "std::unique_ptr{}")
    c.rule("archive-validation")
    H = "m_blockChain.GetBlockHeaderByHeight(i[0..($1.m_height + 1)), 0)"

    def hashes(m):
        I = "i[Index::At(0)..$0.%s.GetSize())" % m
        P, L, R = ["$0.%s.GetHashAt(%s%s)" % (m, I, x) for x in ("", ".GetLeftChild()", ".GetRightChild()")]
        E = "MMRHashUtil::HashParentWithIndex(%s, %s, %s.m_position)" % (L, R, I)
        return ("any", I + ".IsLeaf()", "!has(%s)" % P, "!has(%s)" % L, "!has(%s)" % R, "%s == %s" % (P, E), "%s == %s" % (E, P))
    c.exit(V, [
        ("any", "$0.m_pKernelMMR.GetSize() == $1.m_kernelMMRSize", "$1.m_kernelMMRSize == $0.m_pKernelMMR.GetSize()"),
        ("any", "$0.m_pOutputPMMR.GetSize() == $1.m_outputMMRSize", "$1.m_outputMMRSize == $0.m_pOutputPMMR.GetSize()"),
        ("any", "$0.m_pRangeProofPMMR.GetSize() == $1.m_outputMMRSize", "$1.m_outputMMRSize == $0.m_pRangeProofPMMR.GetSize()"),
        hashes("m_pKernelMMR"), hashes("m_pOutputPMMR"), hashes("m_pRangeProofPMMR"),
        "$0.ValidateRoots($1)",
        "has(%s)" % H,
        ("any", "$0.m_pKernelMMR.Root(%s.m_kernelMMRSize) == %s.m_kernelRoot" % (H, H), "%s.m_kernelRoot == $0.m_pKernelMMR.Root(%s.m_kernelMMRSize)" % (H, H)),
        "ev KernelSumValidator::ValidateKernelSums(std::vector{}, coll(std::vector{}; {o}.m_commitment if has({o})), coll(std::vector{}; {k}.m_excessCommitment if has({k})), (-60000000000~$1.m_height - 60000000000), $1.m_totalKernelOffset, std::nullopt)".replace("{o}", "$0.m_pOutputPMMR.GetAt(i[LeafIndex::At(0)..$1.GetNumOutputs()))").replace("{k}", "$0.m_pKernelMMR.GetKernelAt(i[LeafIndex::At(0)..$1.GetNumKernels()))"),
    ], ret=ok)
    if c.tier:
        P = "i[LeafIndex::At(0)..pos(GetPosition, $0.m_pOutputPMMR.GetSize()))"
        N = "i[LeafIndex::At(0)..$0.m_pKernelMMR.GetNumKernels())"
        c.exit(V, [
            ("any", *["Crypto::VerifyRangeProofs(coll(std::vector{}; *$0.m_pOutputPMMR.GetAt(%s).m_commitment, $0.m_pRangeProofPMMR.GetAt(%s)* if %s))" % (i, i, g) for i in (P, "i[LeafIndex::At(0)..$1.GetNumOutputs())")
                     for g in ("has($0.m_pOutputPMMR.GetAt(%s))" % i, "has($0.m_pOutputPMMR.GetAt(%s)) & has($0.m_pRangeProofPMMR.GetAt(%s))" % (i, i))]),
            ("any", "!has($0.m_pOutputPMMR.GetAt(%s))" % P, "has($0.m_pRangeProofPMMR.GetAt(%s))" % P),
            "has($0.m_pKernelMMR.GetKernelAt(%s))" % N,
            ("any", "KernelSignatureValidator::BatchVerify(coll(std::vector{}; $0.m_pKernelMMR.GetKernelAt(%s)))" % N,
             "KernelSignatureValidator::BatchVerify(coll(std::vector{}; $0.m_pKernelMMR.GetKernelAt(%s) if has($0.m_pKernelMMR.GetKernelAt(%s))))" % (N, N)),
        ], ret=ok)

    c.rule("install")
    P = "TxHashSetProcessor::ProcessTxHashSet"
    HD = "m_pChainState.Read().GetBlockHeaderByHash($0)"
    Z = "TxHashSetManager::LoadFromZip(*, $1, %s)" % HD
    need = ["has(%s)" % HD, "has(%s)" % Z, "has(%s.ValidateTxHashSet(%s, m_blockChain, $2))" % (Z, HD)]
    c.before(P, r"SetTxHashSet$", need)
    c.before(P, r"AddBlockSums$", need)
    c.before(P, r"SaveOutputPositions$", need)
    c.before(P, r"::Commit$", need + ["ev *.SetTxHashSet(%s)" % Z, "ev *AddBlockSums(%s.m_proofOfWork.m_hash, %s.ValidateTxHashSet(%s, *))" % (HD, Z, HD),
             "ev *SaveOutputPositions(*m_pCandidateChain, *GetBlockDB())",
             ("any", "*m_pCandidateChain.GetByHeight(%s.m_height).m_hash == %s.m_proofOfWork.m_hash" % (HD, HD), "%s.m_proofOfWork.m_hash == *" % HD),
             "ev *m_pConfirmedChain.Rewind(*FindCommonIndex(0, 1).m_height)"])
    c.before(P, r"^Chain::AddBlock$", ["ev *m_pConfirmedChain.Rewind(*FindCommonIndex(0, 1).m_height)"])
    c.before(P, r"^Chain::Rewind$", need)
    c.exit(P, need + ["ev m_pChainState.BatchWrite().Commit()"], ret="true")
    c.callers_only("TxHashSetManager::SetTxHashSet", {"TxHashSetProcessor::ProcessTxHashSet"})
    c.callers_only("ITxHashSet::ValidateTxHashSet", {"TxHashSetProcessor::ProcessTxHashSet"})
    c.returns("TxHashSet::ValidateTxHashSet", ["TxHashSetValidator{*}.Validate(this, $0, $2)", "null"])

    c.rule("load")
    L = "TxHashSetManager::LoadFromZip"
    want = []
    for m, n in (("KernelMMR", "Kernels"), ("OutputPMMR", "Outputs"), ("RangeProofPMMR", "Outputs")):
        want += ["ev %s::Load(*).Rewind($2.GetNum%s()*)" % (m, n), "ev %s::Load(*).Commit()" % m]
    c.exit(L, ["TxHashSetZip{*}.Extract($1, $2)"] + want, ret=lambda v: v.startswith("TxHashSet{"))
    c.returns(L, ["null", "TxHashSet{KernelMMR::Load(*), OutputPMMR::Load(*), RangeProofPMMR::Load(*), $2}"])

    c.rule("peer")
    c.exit("BlockChain::ProcessTransactionHashSet", ["TxHashSetProcessor{*}.ProcessTxHashSet($0, $1, $2)"], ret=lambda v: v == "0")
    inv = c.enum("EBlockChainStatus::INVALID")
    c.exit("TxHashSetPipe::Thread_ProcessTxHashSet", [
        ("any", ("not", "*ProcessTransactionHashSet(*"), "*.ProcessTransactionHashSet($3, *) != %d" % inv, "ev $1.BanPeer(%d)" % c.enum("EBanReason::BadTxHashSet"))])
    c.returns("BlockChain::ProcessTransactionHashSet", ["0", str(inv)])
