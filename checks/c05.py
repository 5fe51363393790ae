"""Branch choice: both chains follow the most accumulated work and nothing else moves them."""

PROPERTY = dict(
    title="The node follows the branch with the most work and only that",
    statement="A competing branch of headers replaces the candidate chain, and a competing branch of blocks replaces the confirmed chain, only if every member was validated from the fork point and the branch's total difficulty strictly exceeds the current chain's; "
              "the chain and all state derived from it are first rewound to exactly the fork point, and every block of the branch is applied in order. "
              "A branch that does not win, or fails validation, leaves chain, header commitment structure, output set and transaction pool as they were.",
    over=["histories", "inputs"], qtext="every order of arrival of blocks and headers on any tree of branches",
    why="Tests replay at most one reorganisation; the equal-work, invalid-tail and sync-chunk cases depend on the arrival history.",
    files=["src/BlockChain/Processors/BlockProcessor.cpp", "src/BlockChain/Processors/BlockHeaderProcessor.cpp", "src/BlockChain/Chain.cpp", "src/BlockChain/ChainState.cpp"],
    mechanism=[("BlockProcessor::HandleReorg", "src/BlockChain/Processors/BlockProcessor.cpp"), ("BlockHeaderProcessor::ProcessOrphan / ProcessSyncHeaders", "src/BlockChain/Processors/BlockHeaderProcessor.cpp"), ("Chain::Rewind / AddBlock", "src/BlockChain/Chain.cpp")],
    technique="interprocedural must-fact dataflow: comparison, rewind and validation facts required at every chain-mutating and committing call site",
)


def run(c):
    from engine import show
    S = "m_pChainState.BatchWrite()"
    CAND = S + ".GetChainStore().m_pCandidateChain"
    CONF = S + ".GetChainStore().m_pConfirmedChain"

    c.rule("headers")
    for q in ("BlockHeaderProcessor::ProcessSingleHeader", "BlockHeaderProcessor::ProcessSyncHeaders"):
        single = q.endswith("SingleHeader")
        # whatever is committed either extends the tip directly or beat (or was rolled back to) the previous total
        rec, _ = c.before(q, r"^ChainState::Commit$", [])
        for r in rec:
            ls = r[3]
            from spec import holds
            tip = holds(ls, ("any", "at({m}.m_pCandidateChain.m_indices, *).m_hash == $0.m_previousBlockHash", "$0.m_previousBlockHash == at({m}.m_pCandidateChain.m_indices, *).m_hash"))
            new = "{b}.m_totalDifficulty"
            last = ("$0", "*.back()") if single else ("*.back()",)
            worse = holds(ls, ("any", *["%s.m_totalDifficulty <= %s.GetTotalDifficulty(0)" % (b, S) for b in last]))
            better = holds(ls, ("any", *["%s.GetTotalDifficulty(0) < %s.m_totalDifficulty" % (S, b) for b in last]))
            rolled = holds(ls, "ev %s.GetHeaderMMR().Rollback()" % S) and holds(ls, "ev %s.Rollback()" % CAND)
            c.ob(tip and single or better or (worse and rolled), "a committed header state extends the tip, has strictly more total difficulty, or had its chain and header structure rolled back",
                 c.at(r[1], r[0]), key="%s commit" % q, detail="\n    ".join(ls))
            c.ob(not (better and not worse) or not rolled, "the winning branch is kept", c.at(r[1], r[0]), key="%s keeps" % q)
        RW = ["ev BlockHeaderValidator*.Validate(*)"]
        for sink, rw in ((r"^Chain::Rewind$", None),):
            rec, _ = c.before(q, sink, [], match=lambda x: "m_pCandidateChain" in show(x["obj"]))
            for r in rec:
                a = show(r[5]["args"][0])
                c.ob(a.endswith(".m_height - 1)") and ".front()" in a and not (single and a.startswith("(coll(")), "the candidate chain is rewound to the parent of the branch's first header", c.at(r[1], r[0]), key=q + " rewind chain", detail=a)
        # the header structure keeps exactly the headers below the branch's first one
        rec, _ = c.before(q, r"IHeaderMMR::Rewind$", [])
        for r in rec:
            a = show(r[5]["args"][0])
            c.ob(a.endswith(".m_height") and ".front()" in a and not (single and a.startswith("coll(")), "the header structure is rewound to the branch's first header", c.at(r[1], r[0]), key=q + " rewind structure", detail=a)
        # every header of a branch is validated against its predecessor before it is added anywhere
        V = "ev BlockHeaderValidator*.Validate(@0, *)"
        c.before(q, r"IHeaderMMR::AddHeader$", [V])
        c.before(q, r"IBlockDB::AddBlockHeader$", [V])
        c.before(q, r"^Chain::AddBlock$", ["ev BlockHeaderValidator*.Validate({h}, *)"], match=lambda x: True)
        rec, _ = c.before(q, r"^Chain::AddBlock$", [])
        for r in rec:
            h, n = [show(x) for x in r[5]["args"]]
            c.ob(h.endswith(".m_proofOfWork.m_hash") and n == h[:-len(".m_proofOfWork.m_hash")] + ".m_height" and holds(r[3], "ev BlockHeaderValidator*.Validate(%s, *)" % lit(h[:-len(".m_proofOfWork.m_hash")])),
                 "the header added to the candidate chain is the validated one, at its own height", c.at(r[1], r[0]), key=q + " add", detail=h + " " + n)
            if not holds(r[3], ("any", "at(*m_pCandidateChain.m_indices, *).m_hash == $0.m_previousBlockHash", "$0.m_previousBlockHash == at(*m_pCandidateChain.m_indices, *).m_hash")):
                c.ob(holds(r[3], "ev %s.Rewind(*)" % CAND) and holds(r[3], "ev %s.GetHeaderMMR().Rewind(*)" % S), "a branch is added only after rewinding chain and header structure", c.at(r[1], r[0]), key=q + " rewound")
    c.rule("sync-batch")
    c.before("BlockHeaderProcessor::ProcessSyncHeaders", r"^Chain::Rewind$", [
        "%s.IsOnChain((*.m_height - 1), *.m_previousBlockHash)" % CAND,
        "*BAD_BLOCKS*each($0)*"])

    c.rule("blocks")
    P = "BlockProcessor::ProcessBlock"
    rec, _ = c.before(P, r"^ChainState::Commit$", [])
    n = 0
    for r in rec:
        ls = r[3]
        tip = holds(ls, ("any", "at(%s.m_indices, *).m_hash == $0.m_pBlockHeader.m_previousBlockHash" % CONF, "$0.m_pBlockHeader.m_previousBlockHash == at(%s.m_indices, *).m_hash" % CONF))
        better = holds(ls, "%s.GetTotalDifficulty(1) < {b}.back().m_pBlockHeader.m_totalDifficulty" % S) or holds(ls, "%s.GetTotalDifficulty(1) < $0.m_pBlockHeader.m_totalDifficulty" % S)
        c.ob(tip or better, "the confirmed chain is committed only when extending the tip or with strictly more total difficulty", c.at(r[1], r[0]), key="confirmed commit", detail="\n    ".join(ls))
        if not tip:
            n += 1
            for need in ("ev %s.GetTxHashSetManager().m_pTxHashSet.Rewind(%s.GetBlockDB(), %s.GetBlockDB().GetBlockHeader({b}.front().m_pBlockHeader.m_previousBlockHash))" % (S, S, S),
                         "ev %s.Rewind(({b}.front().m_pBlockHeader.m_height - 1))" % CONF,
                         "ev %s.AddBlock(each({b}).m_pBlockHeader.m_proofOfWork.m_hash, each({b}).m_pBlockHeader.m_height)" % CONF,
                         "%s.GetTxHashSetManager().m_pTxHashSet.ApplyBlock(%s.GetBlockDB(), each({b}))" % (S, S)):
                need = need.replace("{b}", "reverse{b}")
                c.ob(holds(ls, need), "before the reorganised chain is committed: " + need, c.at(r[1], r[0]), key="reorg " + need, detail="\n    ".join(ls))
    c.ob(n >= 1, "a winning branch of blocks is committed", P, key="reorg possible")
    c.before(P, r"ITransactionPool::ReconcileBlock$", [("any", "ev %s.AddBlock(@2.m_pBlockHeader.m_proofOfWork.m_hash, @2.m_pBlockHeader.m_height)" % CONF)])
    c.before(P, r"^Chain::Rewind$", ["%s.GetTotalDifficulty(1) < *.m_totalDifficulty" % S])
    # the chain's own difficulty is read before it is rewound
    rec, _ = c.before(P, r"^ChainState::GetTotalDifficulty$", [], forbid=[r"Chain::Rewind", r"Chain::AddBlock"])
    for q in ("BlockHeaderProcessor::ProcessSingleHeader", "BlockHeaderProcessor::ProcessSyncHeaders"):
        c.before(q, r"^ChainState::GetTotalDifficulty$", [], forbid=[r"^Chain::Rewind$", r"^Chain::AddBlock$"])
    rec, o = c.before(P, r"IBatchable::Commit$", ["ev %s.Rollback()" % S])
    c.rule("total-difficulty")
    c.returns("ChainState::GetTotalDifficulty", ["0", "*GetBlockDB().GetBlockHeader(*GetChain($0)*).m_totalDifficulty", "this.GetTipBlockHeader($0).m_totalDifficulty"])
    c.rule("chain")
    A = c.find("Chain::AddBlock")
    W, o = c.run(A)
    for s, v in o.ret:
        from spec import lits
        ls = lits(s)
        c.ob(holds(ls, ("any", "$1 == (m_height + 1)", "(m_height + 1) == $1")), "blocks are appended at the next height only", c.at(A), key="next height", detail="\n    ".join(ls))
        c.ob(holds(ls, "ev *m_dataFileWriter*AddData(*)"), "every appended block is written to the chain file", c.at(A), key="chain file")
    c.exit("Chain::Rewind", ["$0 <= m_height"])
    R = c.find("Chain::Rewind")
    W, o = c.run(R)
    for s, v in o.ret:
        ls = lits(s)
        c.ob(holds(ls, ("any", "m_height == $0", "m_height <= $0", "$0 == m_height", "ev m_dataFileWriter*.Rewind(($0 + 1))")), "the chain file is cut at the height rewound to", c.at(R), key="rewind file", detail="\n    ".join(ls))


def lit(x):
    return x.replace("*", "~").replace("{", "\x01").replace("}", "\x02")
