"""Transactions: nothing enters the pool, and nothing is built for the network, without validation."""
PROPERTY = dict(
    title="Only valid, relayable transactions enter and leave the pool",
    statement="A transaction is admitted to the transaction pool only if it is not already there, pays the minimum fee for its weight, is within the weight limit, has no coinbase output or kernel, has kernels unlocked at the next height, "
              "valid proofs, signatures and sums, and spends existing, mature, unspent outputs without duplicating any. "
              "Transactions handed on for relay are aggregated only from transactions that are jointly valid against the confirmed tip, and a confirmed block reconciles both pools.",
    over=["inputs", "histories"], qtext="every submitted transaction, pool content and confirmed tip",
    why="Rules hold for each element of each list and for every combination of pool and chain state; tests admit a few hand-built transactions.",
    files=["src/TxPool/TransactionPoolImpl.cpp", "src/TxPool/Pool.cpp", "src/TxPool/ValidTransactionFinder.cpp", "src/Core/Validation/TransactionValidator.cpp", "src/PMMR/TxHashSetImpl.cpp"],
    mechanism=[("TransactionPool::AddTransaction", "src/TxPool/TransactionPool.cpp"), ("TransactionValidator::Validate", "src/Core/Validation"), ("ValidTransactionFinder", "src/TxPool"), ("TxHashSet::IsValid", "src/PMMR/TxHashSetImpl.cpp")],
    technique="interprocedural must-fact dataflow with quantified loop facts at admission and relay call sites",
)



def run(c):
    c.rule("tx-rules")
    c.exit("TransactionValidator::Validate", [
        ("any", "($0.m_transactionBody.CalcWeight($1) + 24) < 40001", "$0.m_transactionBody.CalcWeight($1) < 39977"),
        "ev TxBodyValidator*.Validate($0.m_transactionBody)",
        "!each($0.m_transactionBody.m_outputs).IsCoinbase()",
        "!each($0.m_transactionBody.m_kernels).IsCoinbase()",
        "ev KernelSumValidator::ValidateKernelSums($0.m_transactionBody, {f}, $0.m_offset, std::nullopt)",
        ("any", "ev *ValidateKernelSums(*, sum(0; each($0.m_transactionBody.m_kernels).m_fee.m_fee), *)",
         "ev *ValidateKernelSums(*, $0.CalcFee(), *)"),
    ])
    import c02
    c02.body_rules(c)
    c02.kernel_sums(c)

    c.rule("utxo-view")
    IN = "$0.GetOutputPosition(each($1.m_transactionBody.m_inputs).m_commitment)"
    AT = "m_pOutputPMMR.GetAt(%s.m_leafIndex)" % IN
    ON = "$0.GetOutputPosition(each($1.m_transactionBody.m_outputs).m_commitment)"
    OAT = "m_pOutputPMMR.GetAt(%s.m_leafIndex)" % ON

    def ne(a, b):
        return ("any", "%s != %s" % (a, b), "%s != %s" % (b, a))
    c.exit("TxHashSet::IsValid", [
        "has(%s)" % IN, "has(%s)" % AT,
        ("any", "each($1.m_transactionBody.m_inputs).m_commitment == %s.m_commitment" % AT,
         "%s.m_commitment == each($1.m_transactionBody.m_inputs).m_commitment" % AT),
        ("any", "!%s.IsCoinbase()" % AT, "%s.m_blockHeight <= Consensus::GetMaxCoinbaseHeight((m_pBlockHeader.m_height + 1))" % IN),
        ("any", "!has(%s)" % ON, "!has(%s)" % OAT, ne("each($1.m_transactionBody.m_outputs).m_commitment", OAT + ".m_commitment")),
    ], ret="true")

    c.rule("admission")
    A = "TransactionPool::AddTransaction"
    H = "($4.m_height + 1)"
    need = ["$2.FeeMeetsMinimum(%s)" % H,
            "each($2.m_transactionBody.m_kernels).m_lockHeight <= " + H,
            "ev TransactionValidator*.Validate($2, %s)" % H,
            "has($1)", "$1.IsValid($0, $2)"]
    c.before(A, r"^Pool::AddTransaction$", need, min_sites=2)
    c.before(A, r"^Pool::AddTransaction$", ["!m_memPool.ContainsTransaction($2)"], min_sites=1,
             match=lambda x: _o(x) == "m_memPool")
    c.exit(A, need, ret=_added)
    MIN = "<<(~(Global::GetConfig().GetFeeBase(), m_transactionBody.CalcWeight($0)), this.GetFeeShift()) <= this.CalcFee()"
    c.exit("Transaction::FeeMeetsMinimum", [MIN], ret="true")
    c.returns("TransactionBody::GetFeeShift", "maxof(0, each(m_kernels).m_fee.m_shift)")
    c.returns("TransactionBody::CalcFee", "sum(0; each(m_kernels).m_fee.m_fee)")

    c.rule("aggregate-validation")
    V = "ValidTransactionFinder::FindValidTransactions"
    c.before(V, r"ITxHashSet::IsValid$", [("any", "ev TransactionValidator*.Validate(@1, ($1.GetFlushedBlockHeader().m_height + 1))", "ev TransactionValidator*.Validate(@1, ($1.m_pBlockHeader*.m_height + 1))")])
    c.returns(V, "coll(std::vector*; *IsValid($0, TransactionUtil::Aggregate(*each($2)*))*)")
    f = c.find(V)
    W, o = c.run(f)
    from engine import show
    for s, v in o.ret:
        ins = v.a[1] if v.op == "coll" else ()
        c.ob(bool(ins) and all(x.op == "when" and show(x.a[1]) == "each($2)" and any("$1.IsValid($0, TransactionUtil::Aggregate(" in show(g) and not show(g).startswith("!") for g in x.a[0]) for x in ins),
             "a transaction is selected only if it is valid together with those selected before it", c.at(f), key="selected")
    for q, st in (("TransactionPool::GetTransactionToStem", 0), ("TransactionPool::GetTransactionToFluff", 2)):
        c.returns(q, ["null", "TransactionUtil::Aggregate(ValidTransactionFinder::FindValidTransactions($0, $1, m_stemPool.FindTransactionsByStatus(%d), m_memPool.Aggregate()))" % st])
    c.returns("TransactionUtil::Aggregate", ["$0.front()", "Transaction*Crypto::AddBlindingFactors(coll(*; each($0).m_offset), std::vector*), TransactionBody*sorted(out0(*each(each($0).m_transactionBody.m_inputs)*sorted(out1(*each(each($0).m_transactionBody.m_outputs)*sorted(coll(*; each(each($0).m_transactionBody.m_kernels)))*"])

    c.rule("block-reconciliation")
    R = "TransactionPool::ReconcileBlock"
    c.exit(R, ["ev m_memPool.ReconcileBlock($0, $1, $2, null)", "ev m_stemPool.ReconcileBlock($0, $1, $2, m_memPool.Aggregate())"])
    c.before("BlockProcessor::ProcessBlock", r"::ReconcileBlock$", ["ev *GetBlockDB().AddBlockSums(*)"])
    c.before("Pool::ReconcileBlock", r"^ValidTransactionFinder::FindValidTransactions$", [])

    c.rule("chain-entry")
    c.before("BlockChain::AddTransaction", r"ITransactionPool::AddTransaction$", [
        "has(m_pChainState.Read().GetTipBlockHeader(1))"])
    rec, _ = c.before("BlockChain::AddTransaction", r"ITransactionPool::AddTransaction$", [])
    for r in rec:
        a = [show(x) for x in r[5]["args"]]
        c.ob(len(a) == 5 and a[2] == "$0" and a[3] == "$1" and a[4] == "m_pChainState.Read().GetTipBlockHeader(1)" and "GetTxHashSet" in a[1],
             "the pool checks against the confirmed tip and its unspent output set", c.at(r[1], r[0]), key="entry args", detail=str(a))
    c.exit("BlockChain::AddTransaction", ["*.AddTransaction(*) == 0"], ret="0")


def _o(x):
    from engine import show
    return show(x["obj"]) if x["obj"] is not None else ""


def _added(v):
    return v == "0"
