"""Header acceptance: every consensus rule is enforced on every path that stores a header."""
PROPERTY = dict(
    title="A header extends the chain only if it satisfies every consensus rule",
    statement="A block header is added to the header chain only if its version is the one scheduled for its height, its height, previous-hash link, "
              "timestamp (strictly later than its parent's and not beyond the future limit), previous-root commitment, edge bits, proof of work, total difficulty "
              "and secondary scaling are exactly what the consensus rules require given the headers before it. "
              "This holds on every route by which a header arrives: with a block, as a single announced header, in a sync batch, or from a side branch. "
              "The required difficulty and scaling are those of the published retargeting formulas.",
    over=["inputs", "histories"], qtext="every header received, every chain it could extend, and every acceptance route",
    why="The tests validate a couple of mined headers; a header that violates exactly one rule, on one route, needs real proof of work to construct and is never sampled.",
    files=["src/BlockChain/Validators/BlockHeaderValidator.cpp", "src/PoW/PoWValidator.cpp", "src/PoW/DifficultyCalculator.cpp", "src/BlockChain/Processors/BlockHeaderProcessor.cpp"],
    mechanism=[("HeaderValidator::Validate", "src/BlockChain/Validators"), ("PoWValidator / DifficultyCalculator", "src/PoW"), ("BlockHeaderProcessor", "src/BlockChain/Processors")],
    technique="interprocedural must-fact dataflow over the Clang AST: on every accepting path of the validator each rule's comparison must be established, and every acceptance sink must be dominated by a successful validation",
)



def run(c):
    c.rule("header-rules")
    V = "BlockHeaderValidator::Validate"
    c.exit(V, [
        "$0.m_height == ($1.m_height + 1)",
        "$0.m_previousBlockHash == $1.m_proofOfWork.m_hash",
        "$0.m_version == Consensus::GetHeaderVersion($0.m_height)",
        "$1.m_timestamp < $0.m_timestamp",
        ("any", "$0.m_timestamp <= *Consensus::GetMaxBlockTime(std::chrono::system_clock::now())*",
         "$0.m_timestamp < *Consensus::GetMaxBlockTime(std::chrono::system_clock::now())*"),
        ("any", "Global::IsAutomatedTesting()", "PoWValidator{m_pBlockDB}.IsPoWValid($0, $1)"),
        "$0.m_previousRoot == m_pHeaderMMR.Root(($0.m_height - 1))",
    ])

    c.rule("pow-rules")
    P = "PoWValidator::IsPoWValid"
    D = "($0.m_totalDifficulty + -1~$1.m_totalDifficulty)"
    N = "DifficultyCalculator{m_pBlockDB}.CalculateNextDifficulty($0)"
    E29 = "$0.m_proofOfWork.m_edgeBits == 29"
    N29 = "$0.m_proofOfWork.m_edgeBits != 29"
    c.exit(P, [
        "$1.m_totalDifficulty < $0.m_totalDifficulty",
        # only graphs of the network's sizes count
        ("any", E29, "$0.m_proofOfWork.m_edgeBits >= 31", "$0.m_proofOfWork.m_edgeBits > 30", "$0.m_proofOfWork.IsPrimary()"),
        D + " == " + N + ".m_difficulty",
        "$0.m_scalingDifficulty == " + N + ".m_secondaryScaling",
        ("any",
         ("all", N29, "Cuckatoo::Validate($0)"),
         ("all", E29, "$0.m_version == 1", "Cuckaroo::Validate($0)"),
         ("all", E29, "$0.m_version == 2", "Cuckarood::Validate($0)"),
         ("all", E29, "$0.m_version == 3", "Cuckaroom::Validate($0)"),
         ("all", E29, "$0.m_version != 1", "$0.m_version != 2", "$0.m_version != 3", "Cuckarooz::Validate($0)")),
        # the claimed work is bounded by what the proof's hash actually represents
        ("any",
         ("all", E29, D + " <= op/(op<<($0.m_scalingDifficulty, 64), *)*"),
         ("all", N29, D + " <= op/(op<<(Consensus::GraphWeight($0.m_height, $0.m_proofOfWork.m_edgeBits), 64), *)*"),
         # the quotient does not fit in 64 bits: saturated at the largest difficulty
         ("all", E29, "op/(op<<($0.m_scalingDifficulty, 64), *) >= 18446744073709551615"),
         ("all", N29, "op/(op<<(Consensus::GraphWeight($0.m_height, $0.m_proofOfWork.m_edgeBits), 64), *) >= 18446744073709551615")),
    ], ret="true", cap=60, expand=["BlockHeader::IsPrimaryPoW", "BlockHeader::IsSecondaryPoW", "ProofOfWork::IsPrimary", "ProofOfWork::IsSecondary"])

    c.rule("difficulty-formulas")
    L = "DifficultyLoader{m_pBlockDB}.LoadDifficultyData($0)"
    c.exit("DifficultyCalculator::CalculateNextDifficulty", ["$0.m_version < 5"], ret="*" + L + "*")
    c.exit("DifficultyCalculator::CalculateNextDifficulty", ["$0.m_version >= 5"], ret="*GetBlockHeader($0.m_previousBlockHash).m_totalDifficulty*")
    LH = "m_pBlockDB.GetBlockHeader($0.m_previousBlockHash)"
    PH = "m_pBlockDB.GetBlockHeader(" + LH + ".m_previousBlockHash)"
    c.returns("DifficultyCalculator::NextWTEMA",
              "HeaderInfo::FromDiffAndScaling(max(/((14400~%s.m_totalDifficulty + -14400~%s.m_totalDifficulty), (%s.m_timestamp + -1~%s.m_timestamp + 14340)), Consensus::min_wtema_graph_weight()), 0)" % (LH, PH, LH, PH))
    S = "std::vector\x01(begin(%s) + 1), end(%s)\x02" % (L, L)
    ts = "(-1~at(%s, 0).m_timestamp + at(%s, 60).m_timestamp)" % (L, L)
    tc = "(-60~min(/($0.m_height, 11648), 90) + 5400)"
    c.returns("DifficultyCalculator::NextDMA",
              ["HeaderInfo::FromDiffAndScaling(max(/((60~sum(0; each(%s).m_difficulty)), Consensus::Clamp(Consensus::Damp(%s, 3600, 3), 3600, 2)), 3), *max(/(*sum(0; each(%s).m_secondaryScaling)*, max(1, Consensus::Clamp(Consensus::Damp(*sum(0; 1 if each(%s).m_secondary)*, *, 13), *, 2))), 13)*)" % (S, ts, S, S)])

    c.rule("acceptance-paths")
    for q, n in (("BlockHeaderProcessor::ProcessSingleHeader", 2), ("BlockHeaderProcessor::ProcessSyncHeaders", 1)):
        for sink in (r"AddBlockHeader$", r"IHeaderMMR::AddHeader$"):
            c.before(q, sink, ["ev BlockHeaderValidator{*}.Validate(@0, *)"], min_sites=n)
        # a header enters the candidate chain only after validation, under its own hash and height
        c.before(q, r"^Chain::AddBlock$", ["ev BlockHeaderValidator{*}.Validate({h}, *)"], min_sites=n,
                 match=None)
    c.before("BlockHeaderProcessor::ProcessSingleHeader", r"AddHeader$|AddBlockHeader$|^Chain::AddBlock$",
             ["!has(found(BAD_BLOCKS, $0.m_proofOfWork.m_hash))"], min_sites=3)
    c.before("BlockHeaderProcessor::ProcessSyncHeaders", r"AddHeader$|AddBlockHeader$|^Chain::AddBlock$",
             ["!has(found(BAD_BLOCKS, each($0).m_proofOfWork.m_hash))"], min_sites=3)
