"""A block changes the confirmed state only after every block rule has been checked on it."""
PROPERTY = dict(
    title="A block changes chain state only after complete validation",
    statement="A full block is applied to the confirmed chain only after its header is accepted, its weight, sorting, cut-through, range proofs, kernel signatures, coinbase rule "
              "and lock heights are checked, its inputs spend existing unspent and mature outputs without creating duplicates, its resulting roots and sizes match the header, and its kernel sums balance. "
              "The same checks guard every route (next block, orphan, reorganisation), and no accepted path skips one for any subset of the inputs, outputs or kernels.",
    over=["inputs", "histories"], qtext="every block and every chain state it arrives at, over all routes to the confirmed chain",
    why="A unit test tries a few malformed blocks; a rule skipped for one route, one element of a list, or one combination of flags passes all of them.",
    files=["src/BlockChain/Validators/BlockValidator.cpp", "src/Core/Validation/TxBodyValidator.cpp", "include/Core/Validation/KernelSumValidator.h", "src/PMMR/TxHashSetImpl.cpp", "src/BlockChain/Processors/BlockProcessor.cpp"],
    mechanism=[("BlockValidator", "src/BlockChain/Validators"), ("TxBodyValidator and KernelSumValidator", "src/Core/Validation"), ("TxHashSet::ApplyBlock / ValidateRoots", "src/PMMR/TxHashSetImpl.cpp"), ("BlockProcessor", "src/BlockChain/Processors")],
    technique="interprocedural must-fact dataflow (universally quantified facts over loops) at every accepting exit and every state-changing call site",
)


OUTC = "each($0.m_outputs).m_commitment"


def kernel_sums(c):
    c.rule("sum-equation")
    q = "KernelSumValidator::ValidateKernelSums"
    K = "Crypto::AddCommitments($2<-push_back($5.m_kernelSum), *)"
    K0 = "Crypto::AddCommitments($2, *)"

    def lhs(ov, sums):
        o = "$1" + ("<-push_back(Crypto::CommitTransparent($3))" if ov == "+" else "") + ("<-push_back($5.m_outputSum)" if sums else "")
        i = "$0" + ("<-push_back(Crypto::CommitTransparent((-1~$3)))" if ov == "-" else "")
        return "Crypto::AddCommitments(%s, %s)" % (o, i)
    cases = []
    for sums in (1, 0):
        k = K if sums else K0
        for ov in "+-0":
            sign = {"+": ["$3 >= 1"], "-": ["$3 < 0"], "0": ["$3 < 1", "$3 >= 0"]}[ov]
            base = sign + [("has($5)" if sums else "!has($5)")]
            for off in (0, 1):
                if off:
                    eq = [lhs(ov, sums) + " == Crypto::AddCommitments(std::vector\x01" + k + ", Crypto::CommitBlinded(0, $4)\x02, *)"]
                    eq.append("Crypto::AddCommitments(std::vector\x01" + k + ", Crypto::CommitBlinded(0, $4)\x02, *) == " + lhs(ov, sums))
                    o = "$4 != *"
                else:
                    eq = [lhs(ov, sums) + " == " + k, k + " == " + lhs(ov, sums)]
                    o = "$4 == *"
                cases.append(("all", *base, o, ("any", *eq)))
    c.exit(q, [("any", *cases)], nparams=6)
    f = c.find(q, 6)
    c.returns(f, ["BlockSums\x01Crypto::AddCommitments(*), Crypto::AddCommitments($2*)\x02"])
    c.returns(q, "KernelSumValidator::ValidateKernelSums(coll(*; each($0.m_inputs).m_commitment), coll(*; each($0.m_outputs).m_commitment), coll(*; each($0.m_kernels).m_excessCommitment), $1, $2, $3)",
              nparams=4, expand=["FunctionalUtil::map"])


def body_rules(c):
    c.rule("body-rules")
    c.exit("TxBodyValidator::Validate", [
        "Consensus::IsSorted($0.m_inputs)",
        "Consensus::IsSorted($0.m_outputs)",
        "Consensus::IsSorted($0.m_kernels)",
        ("any", "end($0.m_inputs) == std::adjacent_find(begin($0.m_inputs), end($0.m_inputs))", "std::adjacent_find(begin($0.m_inputs), end($0.m_inputs)) == end($0.m_inputs)", "$0.GetInput((i[1..size($0.m_inputs)) - 1)) != $0.GetInput(i[1..size($0.m_inputs)))",
         "at($0.m_inputs, (i[1..size($0.m_inputs)) - 1)) != at($0.m_inputs, i[1..size($0.m_inputs)))",
         "$0.GetInput(i[0..(size($0.m_inputs) - 1))) != $0.GetInput((i[0..(size($0.m_inputs) - 1)) + 1))"),
        ("any", "end($0.m_outputs) == std::adjacent_find(begin($0.m_outputs), end($0.m_outputs))", "std::adjacent_find(begin($0.m_outputs), end($0.m_outputs)) == end($0.m_outputs)", "$0.GetOutput((i[1..size($0.m_outputs)) - 1)) != $0.GetOutput(i[1..size($0.m_outputs)))",
         "at($0.m_outputs, (i[1..size($0.m_outputs)) - 1)) != at($0.m_outputs, i[1..size($0.m_outputs)))"),
        "!has(found(coll(*; each($0.m_outputs).m_commitment), each($0.m_inputs).m_commitment))",
        ("any", "Crypto::VerifyRangeProofs(coll(*; tuple([each($0.m_outputs).m_commitment, each($0.m_outputs).m_rangeProof])))",
         "Crypto::VerifyRangeProofs(coll(*; std::pair\x01each($0.m_outputs).m_commitment, each($0.m_outputs).m_rangeProof\x02))"),
        "KernelSignatureValidator::BatchVerify($0.m_kernels)",
    ])
    c.exit("KernelSignatureValidator::BatchVerify", [
        ("any", "size($0) == 0",
         "Crypto::VerifyKernelSignatures(coll(*; each($0).m_excessSignature), coll(*; each($0).m_excessCommitment), coll(*GetSignatureMessage()*))")],
        ret="true")
    c.exit("Consensus::IsSorted", [("any", "*(begin(*) + 1)*", "*.GetHash() <= *.GetHash()", "!*.GetHash() > *", "*")], ret="true") if False else None


def run(c):
    c.rule("self-consistency")
    EXC = "coll(*; each($0.m_transactionBody.m_kernels).m_excessCommitment if each($0.m_transactionBody.m_kernels).IsCoinbase())"
    OUT = "coll(*; each($0.m_transactionBody.m_outputs).m_commitment if each($0.m_transactionBody.m_outputs).IsCoinbase())"
    c.exit("BlockValidator::VerifySelfConsistent", [
        ("any", "$0.m_validated", ("all",
         "$0.CalcWeight() < 40001",
         "each($0.m_transactionBody.m_kernels).m_lockHeight <= $0.m_pBlockHeader.m_height",
         "ev TxBodyValidator*.Validate($0.m_transactionBody)",
         ("any", "Crypto::AddCommitments(" + EXC + ", *) == Crypto::AddCommitments(" + OUT + ", std::vector*Crypto::CommitTransparent(($0.GetTotalFees() + 60000000000))*)",
          "Crypto::AddCommitments(" + OUT + ", std::vector*Crypto::CommitTransparent(($0.GetTotalFees() + 60000000000))*) == Crypto::AddCommitments(" + EXC + ", *)"),
         ))])
    # a block is only ever marked as validated by the validator itself, after the rules above
    c.before("BlockValidator::VerifySelfConsistent", r"MarkAsValidated$", [
        "$0.CalcWeight() < 40001",
        "each($0.m_transactionBody.m_kernels).m_lockHeight <= $0.m_pBlockHeader.m_height",
        "ev TxBodyValidator*.Validate($0.m_transactionBody)",
        "Crypto::AddCommitments(*) == Crypto::AddCommitments(*)"])
    c.callers_only("FullBlock::MarkAsValidated", {"BlockValidator::VerifySelfConsistent", "BlockDB::GetBlock", "IBlockDB::GetBlock"})
    body_rules(c)
    kernel_sums(c)

    c.rule("utxo-rules")
    A = "TxHashSet::ApplyBlock"
    IN = "each($1.m_transactionBody.m_inputs)"
    ON = "each($1.m_transactionBody.m_outputs)"
    POS = "$0.GetOutputPosition(%s.m_commitment)" % IN
    OPOS = "$0.GetOutputPosition(%s.m_commitment)" % ON
    c.before(A, r"::Remove$", [
        "has(%s)" % POS,
        ("any", "!m_pOutputPMMR.GetAt(%s.m_leafIndex).IsCoinbase()" % POS,
         "%s.m_blockHeight <= Consensus::GetMaxCoinbaseHeight($1.m_pBlockHeader.m_height)" % POS)], min_sites=1)
    c.before(A, r"::Append$|AddOutputPosition$", [
        ("any", "!has(%s)" % OPOS, "!m_pOutputPMMR.IsUnpruned(%s.m_leafIndex)" % OPOS)], min_sites=2)
    c.exit(A, [
        "ev m_pOutputPMMR.Remove(%s.m_leafIndex)" % POS,
        "ev m_pRangeProofPMMR.Remove(%s.m_leafIndex)" % POS,
        "ev $0.AddSpentPositions($1.m_pBlockHeader.m_proofOfWork.m_hash, coll(*; SpentOutput*%s.m_commitment, %s*))" % (IN, POS),
        "ev m_pOutputPMMR.Append(OutputIdentifier::FromOutput(%s))" % ON,
        "ev m_pRangeProofPMMR.Append(%s.m_rangeProof)" % ON,
        "ev $0.AddOutputPosition(%s.m_commitment, OutputLocation*LeafIndex::AtPos(m_pOutputPMMR.GetSize()), $1.m_pBlockHeader.m_height*)" % ON,
        "ev $0.RemoveOutputPositions($1.GetInputCommitments())",
        "ev m_pKernelMMR.ApplyKernel(each($1.m_transactionBody.m_kernels))",
    ], ret="true")
    R = "TxHashSet::ValidateRoots"
    OR = "m_pOutputPMMR.Root($0.m_outputMMRSize)"

    def eq(a, b):
        return ("any", "%s == %s" % (a, b), "%s == %s" % (b, a))
    c.exit(R, [
        eq("$0.m_kernelRoot", "m_pKernelMMR.Root($0.m_kernelMMRSize)"),
        eq("$0.m_rangeProofRoot", "m_pRangeProofPMMR.Root($0.m_outputMMRSize)"),
        ("any", ("all", "$0.m_version < 3", eq("$0.m_outputRoot", OR)),
         ("all", "$0.m_version >= 3", eq("$0.m_outputRoot", "MMRHashUtil::HashParentWithIndex(%s, m_pOutputPMMR.UBMTRoot($0.GetNumOutputs()), $0.m_outputMMRSize)" % OR))),
    ], ret="true")

    c.rule("block-paths")
    B = "BlockProcessor::ProcessBlock"
    for sink, n in ((r"IBlockDB::AddBlockSums$", 2),):
        c.before(B, sink, [
            "Consensus::GetHorizonHeight(m_pChainState.Read().GetHeight(0)) < $0.m_pBlockHeader.m_height",
            "ev BlockHeaderProcessor*.ProcessSingleHeader($0.m_pBlockHeader)",
            "has(*GetBlockDB().GetBlockHeader($0.m_pBlockHeader.m_proofOfWork.m_hash))",
            ("any", "has(*GetBlockDB().GetBlockHeader($0.m_pBlockHeader.m_previousBlockHash))",
             "has(*GetBlockDB().GetBlockHeader(each(*).m_pBlockHeader.m_previousBlockHash))"),
        ], min_sites=1)
    # the facts established about the very block whose sums are stored
    for blk in ("$0", "each({x})"):
        m = (lambda k: (lambda x: show0(x).startswith(k)))("$0" if blk == "$0" else "each(")
        c.before(B, r"IBlockDB::AddBlockSums$", [
            "*GetTxHashSet*ApplyBlock(*, %s)" % blk if False else "*.m_pTxHashSet.ApplyBlock(*, %s)" % blk,
            ("any", "ev BlockValidator::VerifySelfConsistent(%s)" % blk, "%s.m_validated" % blk),
            "*.m_pTxHashSet.ValidateRoots(%s.m_pBlockHeader)" % blk,
            "has(*GetBlockSums(%s.m_pBlockHeader.m_previousBlockHash))" % blk,
            "ev KernelSumValidator::ValidateKernelSums(%s.m_transactionBody, -60000000000, %s.m_pBlockHeader.m_totalKernelOffset, *GetBlockSums(%s.m_pBlockHeader.m_previousBlockHash)*)" % (blk, blk, blk),
        ], match=m)
    # a block reaches the confirmed chain (and a commit) only after its state transition was validated
    c.before(B, r"^Chain::AddBlock$|ChainState::Commit$", [
        "ev *.AddBlockSums(*, KernelSumValidator::ValidateKernelSums(*))",
        ("any", "ev BlockValidator::VerifySelfConsistent(*)", "*.m_validated")], min_sites=2,
        match=lambda x: "m_pConfirmedChain" in show0(x, True) or x["q"].endswith("Commit"))


def show0(x, obj=False):
    from engine import show
    if obj:
        return show(x["obj"]) if x["obj"] is not None else ""
    return show(x["args"][0]) if x["args"] else ""
