"""Finalizing: what the sender checks before the transaction leaves the wallet."""
import re
from engine import show
from spec import lits, holds, abbreviate
from terms import Abbr, strip

PROPERTY = dict(
    title="A payment is finalized once, on the sender's own terms, only if it verifies",
    statement="A reply is finalized only for a payment this wallet started and has neither finalized nor cancelled, with the amount, fee, kernel features, lock height and coins recorded when it was sent, whatever the reply says. "
              "The transaction is returned only if every partial signature, the aggregate signature, the kernel and the whole transaction verify and, where a payment proof was requested, the reply carries the named receiver's valid signature over the amount, the final excess and the sender. "
              "The transaction and the finalized state are committed together before it is returned.",
    over=["inputs", "histories", "crash_points"], qtext="every reply, every wallet history and a stop at any point",
    why="The reply comes from the other party: trusting its terms, finalizing twice or skipping one verification loses money or the proof that it was paid.",
    files=["src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp", "src/Wallet/SlateBuilder/SignatureUtil.h", "src/Wallet/SlateBuilder/TransactionBuilder.h", "src/Wallet/Wallet.cpp", "include/Wallet/Models/Slate/Slate.h"],
    mechanism=[("FinalizeSlateBuilder", "src/Wallet/SlateBuilder/FinalizeSlateBuilder.cpp"), ("SignatureUtil", "src/Wallet/SlateBuilder/SignatureUtil.h"), ("TransactionBuilder", "src/Wallet/SlateBuilder/TransactionBuilder.h"), ("Wallet", "src/Wallet/Wallet.cpp")],
    technique="symbolic value tracking (each verified or recorded term compared with the term signed) and must-fact dataflow over every path that returns",
)
TERMS = ("amount", "fee", "kernelFeatures", "featureArgsOpt", "ttl")
AB = Abbr(("m_pWallet.GetSlateContext($0.slateId)", "CTX"), ("m_pWallet.GetTransactionBySlateId($0.slateId, 5)", "WTX"), ("m_pWallet.GetSlate($0.slateId, SlateStage{0})", "SENT"),
          ("?loop", "X"), ("$0.offset.IsNull()", "NOOFFSET"), ("$0", "X"),
          ("SENT.kernelFeatures", "X.kernelFeatures"), ("SENT.fee", "X.fee"), ("SENT.amount", "X.amount"), ("SENT.GetLockHeight()", "X.GetLockHeight()"),
          ("TransactionKernel::GetSignatureMessage(X.kernelFeatures, X.fee, X.GetLockHeight())", "MSG"),
          ("Crypto::ToCommitment(X.CalculateTotalExcess())", "EXCESS"),
          ("SignatureUtil::AggregateSignatures(X)", "AGG"),
          ("TransactionKernel{X.kernelFeatures, X.fee, X.GetLockHeight(), EXCESS, AGG}", "KERNEL"),
          ("TransactionBuilder::BuildTransaction(X.GetInputs(), X.GetOutputs(), KERNEL, X.offset)", "TX"),
          ("m_pWallet.m_walletDB.BatchWrite()", "DB"))


def run(c):
    f = c.find("FinalizeSlateBuilder::Finalize")
    rec = []
    names = r"(AddTransaction|SaveSlate|CalculatePartialSignature|CalculateTotalExcess|CalculateTotalNonce|::AddInput|Slate::AddOutput|ED25519::VerifySignature|push_back|::Commit|SetType|SetTransaction|GetSlateContext|GetTransactionBySlateId|Wallet::GetSlate|AggregateSignatures|GetSignatureMessage|TransactionValidator::Validate)$"

    def w(x):
        if re.search(names, x["q"]):
            rec.append(x)
    W, o = c.run(f, watch=w, maxterm=100000, cap=200)
    F = lambda x: abbreviate(lits(x["state"]), AB)
    arg = lambda x, i: AB(show(x["args"][i]))

    def every(n, fn, what, key, some=True):
        xs = [x for x in rec if re.search(n, x["q"])]
        bad = [x for x in xs if not fn(x)]
        c.sites += len(xs)
        c.ob((bool(xs) or not some) and not bad, what, c.at(bad[0]["fn"], bad[0]["e"].get("l")) if bad else c.at(f), key=key, detail=AB(show(bad[0]["term"]))[:1500] if bad else "")

    c.rule("own payment")
    every("Wallet::GetTransactionBySlateId$", lambda x: AB(show(x["term"])) == "WTX", "the entry finalized is a payment started, not finalized or cancelled", "entry")
    every("Wallet::GetSlateContext$", lambda x: AB(show(x["term"])) == "CTX", "the secrets are those of the same payment", "context")
    every("Wallet::GetSlate$", lambda x: AB(show(x["term"])) == "SENT", "the terms are those of the offer recorded", "offer")
    for n in ("CalculatePartialSignature", "SaveSlate", "AddTransaction"):
        every(n + "$", lambda x: holds(F(x), "ev WTX"), "%s only for a payment waiting to be finalized" % n, "waiting " + n)
    c.exit("Wallet::GetTransactionBySlateId", ["has(some({T}).m_slateIdOpt)", "some(*).m_slateIdOpt == $0", "some(*).m_type == $1"], nparams=2)
    c.returns("Wallet::GetTransactionBySlateId", ["some(m_walletDB.Read().GetTransactions(m_master_seed))"], nparams=2)
    c.returns("Wallet::GetSlate", ["m_walletDB.Read().LoadSlate(m_master_seed, $0, $1)"])

    c.rule("own terms")
    for s, v in o.ret:
        env = {}
        for k, x in s.env.items():
            if not isinstance(k, tuple):
                m = re.fullmatch(r"(\$0|\?loop)\.(\w+)", strip(show(k)))
                if m:
                    env.setdefault(m.group(2), []).append(strip(show(x)).replace("m_pWallet.GetSlate($0.slateId, SlateStage{0})", "SENT"))
        for n in TERMS:
            c.ob(env.get(n) == ["SENT." + n], "the %s is the one recorded" % n, c.at(f), key="terms " + n, detail=str(env.get(n)))
        c.ob(env.get("stage") == ["SlateStage{2}"], "the result is marked as finalized", c.at(f), key="stage")
        off = env.get("offset", [])
        ls = abbreviate(lits(s), AB)
        c.ob(not off or (holds(ls, "NOOFFSET") and [AB(x) for x in off] == ["WTX.m_transactionOpt.m_offset"]), "the offset is the reply's, or the recorded one when it has none", c.at(f), key="offset", detail=str(off))
        c.ob(set(env) <= set(TERMS) | {"stage", "offset", "sigs"}, "nothing else of the reply is replaced", c.at(f), key="others", detail=str(set(env)))
        for r in ("ev X.AddInput(each(CTX.m_inputs).m_output.m_features, each(CTX.m_inputs).m_output.m_commitment)",
                  "ev X.AddOutput(each(CTX.m_outputs).m_output.m_features, each(CTX.m_outputs).m_output.m_commitment, each(CTX.m_outputs).m_output.m_rangeProof)"):
            c.ob(holds(ls, r), "every coin recorded for the payment is in the transaction", c.at(f), key=r, detail="\n    ".join(ls))
    c.ob(bool(o.ret), "a payment can be finalized", c.at(f), key="returns")

    c.rule("verified")
    every("GetSignatureMessage$", lambda x: AB(show(x["term"])) == "MSG", "what is signed are the finalized terms", "message")
    every("CalculatePartialSignature$", lambda x: [arg(x, i) for i in range(5)] == ["CTX.m_secretKey", "CTX.m_secretNonce", "X.CalculateTotalExcess()", "X.CalculateTotalNonce()", "MSG"],
          "the sender's share is signed with the secrets of this payment", "partial")
    every("push_back$", lambda x: not re.search(r"SlateSignature", show(x["term"])) or "SlateSignature{CTX.CalcExcess(), CTX.CalcNonce(), std::nullopt}" in show(x["term"]).replace("m_pWallet.GetSlateContext($0.slateId)", "CTX"), "the share added is the sender's own", "share", some=False)
    PROOF = ["has(X.proofOpt)", "X.proofOpt.m_receiverAddress == WTX.m_paymentProofOpt.m_receiverAddress", "X.proofOpt.m_senderAddress == WTX.m_paymentProofOpt.m_senderAddress",
             "has(X.proofOpt.m_receiverSignatureOpt)"]
    every("ED25519::VerifySignature$", lambda x: arg(x, 0) in ("X.proofOpt.m_receiverAddress", "WTX.m_paymentProofOpt.m_receiverAddress") and arg(x, 1) == "X.proofOpt.m_receiverSignatureOpt" and message(show(x["args"][2])),
          "the proof checked is the receiver's over the amount, the final excess and the sender", "proof message")
    PROOF.append("ED25519::VerifySignature(*, X.proofOpt.m_receiverSignatureOpt, *)")
    for s, v in o.ret:
        ls = abbreviate(lits(s), AB)
        for r in PROOF:
            c.ob(holds(ls, ("any", "!has(WTX.m_paymentProofOpt)", r)), "a requested payment proof was given: " + r, c.at(f), key="proof " + r, detail="\n    ".join(ls))
        for r in ("SignatureUtil::VerifyPartialSignatures(X.sigs, MSG)", "Crypto::VerifyAggregateSignature(AGG, X.CalculateTotalExcess(), MSG)", "KernelSignatureValidator::Verify(KERNEL)",
                  "ev TransactionValidator{}.Validate(TX, (m_pNode.GetChainHeight() + 1))", "ev WTX.SetType(7)", "ev WTX.SetTransaction(TX)", "ev DB.SaveSlate(m_pWallet.m_master_seed, X, *)",
                  "ev DB.AddTransaction(m_pWallet.m_master_seed, WTX)", "ev DB.Commit()"):
            c.ob(holds(ls, r), "before the transaction is returned: " + r, c.at(f), key="return " + r, detail="\n    ".join(ls))
        c.ob(AB(show(v)) == "std::pair{X, TX}", "what is returned is what was verified", c.at(f), key="result", detail=AB(show(v)))
    for n in ("AddTransaction", "SaveSlate"):
        every(n + "$", lambda x: all(holds(F(x), r) for r in ("SignatureUtil::VerifyPartialSignatures(X.sigs, MSG)", "Crypto::VerifyAggregateSignature(AGG, X.CalculateTotalExcess(), MSG)", "ev TransactionValidator{}.Validate(TX, *)")),
              "%s only after the transaction verified" % n, "verified " + n)
    every("AddTransaction$", lambda x: holds(F(x), "ev WTX.SetType(7)") and holds(F(x), "ev WTX.SetTransaction(TX)"), "the entry written is marked finalized and carries the transaction", "entry written")
    every("::Commit$", lambda x: holds(F(x), "ev DB.SaveSlate(m_pWallet.m_master_seed, X, *)") and holds(F(x), "ev DB.AddTransaction(m_pWallet.m_master_seed, WTX)"), "transaction and state are committed together", "together")

    c.rule("aggregate")
    g = c.find("SignatureUtil::AggregateSignatures")
    W, o2 = c.run(g)
    for s, v in o2.ret:
        c.ob(show(v) == "Crypto::AggregateSignatures(coll(std::vector{}; each($0.sigs).partialOpt if has(each($0.sigs).partialOpt)), $0.CalculateTotalNonce())", "every share given is aggregated", c.at(g), key="aggregated", detail=show(v))
        c.ob(holds(lits(s), "has(Crypto::AggregateSignatures(*))"), "a failed aggregation is not used", c.at(g), key="agg failed")
    S = "Crypto::AddPublicKeys(coll(std::vector{}; each(sigs).%s))"
    for q, n in (("Slate::CalculateTotalExcess", "excess"), ("Slate::CalculateTotalNonce", "nonce")):
        c.returns(q, ["Crypto::AddPublicKeys(coll(std::vector*; each(sigs).%s))" % n, "Crypto::AddPublicKeys(coll(out0(std::back_inserter(std::vector{})); each(sigs).%s))" % n])
    T = c.find("TransactionBuilder::BuildTransaction")
    W, o3 = c.run(T)
    for s, v in o3.ret:
        got = strip(show(v)).replace("sorted(", "(")
        c.ob(got in ("Transaction{BlindingFactor{$3}, TransactionBody{($0), ($1), (std::vector{$2})}}", "Transaction{$3, TransactionBody{($0), ($1), (std::vector{$2})}}"), "the transaction holds exactly these coins, this kernel and this offset", c.at(T), key="built", detail=got)


def message(s):
    """(amount | excess | sender) appended in this order to one serializer"""
    for o in ("$0", "?loop", "$0.proofOpt", "?loop.proofOpt"):
        s = strip(s, o)
    for a, b in AB.pairs:
        s = s.replace(a, b)
    return s in ("out0(EXCESS.Serialize(Serializer{1}<-Append(X.amount)))<-AppendBigInteger(%s.m_senderAddress.bytes).m_serialized" % z for z in ("X.proofOpt", "WTX.m_paymentProofOpt"))
