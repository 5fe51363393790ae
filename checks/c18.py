"""Receiving: what a wallet signs and records for a payment offered to it."""
import re
from engine import show
from spec import lits, holds, abbreviate
from terms import Abbr, strip

PROPERTY = dict(
    title="A payment offer is accepted once, signed for its own terms, and fully recorded",
    statement="An offer already accepted by this wallet is refused unless that earlier receipt was cancelled (or the entry is this wallet's own send), before any key, signature or record is made for it. "
              "The new coin is worth exactly the offered amount under a freshly derived key, and the partial signature covers the offered fee, kernel features and lock height with the offer's and the receiver's shares, verified before it is used. "
              "A requested payment proof is signed with the key of the address the offer names over the amount, the final excess and the sender; coin, history entry and reply are committed together before the reply is handed out.",
    over=["inputs", "histories", "crash_points"], qtext="every offer, every wallet history and a stop at any point",
    why="Accepting twice, signing other terms than those offered or replying before recording gives away a signature for a transaction the wallet cannot account for.",
    files=["src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp", "src/Wallet/SlateBuilder/SignatureUtil.h", "src/Wallet/SlateBuilder/SlateUtil.h", "src/Wallet/WalletImpl.cpp", "include/Wallet/Models/Slate/Slate.h"],
    mechanism=[("ReceiveSlateBuilder", "src/Wallet/SlateBuilder/ReceiveSlateBuilder.cpp"), ("SignatureUtil", "src/Wallet/SlateBuilder/SignatureUtil.h"), ("WalletImpl", "src/Wallet/WalletImpl.cpp")],
    technique="symbolic value tracking through the builder (the arguments of each signature and record as terms over the offer) and must-fact dataflow for the order of checks, writes and the commit",
)

B = "$0.Write().m_walletDB.BatchWrite()"
AB = Abbr((B, "DB"),
          ("$0.Write().m_walletDB.Read().GetTransactions($1)", "TXS"), ("DB.GetTransactions($1)", "TXS"),
          ("$0.Write().CreateBlindedOutput($1, $2.amount, DB.GetNextChildPath($0.Write().m_userPath), DB.GetNextTransactionId(), 1)", "OUT"),
          ("BlindingFactor{CSPRNG::GenerateRandom32()}", "RANDOM"),
          ("SlateUtil::CalculateSigningKeys(std::vector{}, std::vector{OUT}, RANDOM)", "KEYS"),
          ("TransactionKernel::GetSignatureMessage($2.kernelFeatures, $2.fee, $2.GetLockHeight())", "MSG"),
          ("$0.Write().FindAddressIndex($1, $2.proofOpt.m_receiverAddress, DB.GetCurrentAddressIndex(KeyChainPath::FromString(\"m/0/0\")))", "INDEX"),
          ("KeyChain::FromSeed($1).DeriveED25519Key(KeyChainPath::FromString(\"m/0/1\").GetChild(INDEX))", "PROOFKEY"))
FRESH = ("any", "!has(each(TXS).m_slateIdOpt)", "$2.slateId != each(TXS).m_slateIdOpt", "each(TXS).m_type == 4", "each(TXS).m_type == 5")


def receive(c):
    f = c.find("ReceiveSlateBuilder::AddReceiverData")
    rec = []
    names = r"(CreateBlindedOutput|AddOutputs|AddTransaction|SaveSlate|ED25519::Sign|CalculatePartialSignature|CalculateSigningKeys|CalculateTotalExcess|CalculateTotalNonce|Slate::AddOutput|VerifyPartialSignatures|push_back|AddSignature|::Commit|Serializer::Append|Serialize|AppendBigInteger)$"

    def w(x):
        if re.search(names, x["q"]):
            rec.append(x)
    W, o = c.run(f, watch=w, maxterm=100000, cap=200)

    def sites(n):
        return [x for x in rec if re.search(n, x["q"])]

    def every(n, fn, what, key, some=True):
        xs = sites(n)
        bad = [x for x in xs if not fn(x)]
        c.sites += len(xs)
        c.ob((bool(xs) or not some) and not bad, what, c.at(bad[0]["fn"], bad[0]["e"].get("l")) if bad else c.at(f), key=key, detail=AB(show(bad[0]["term"]))[:1500] if bad else "")
    F = lambda x: abbreviate(lits(x["state"]), AB)
    arg = lambda x, i: AB(show(x["args"][i]))

    c.rule("accepted once")
    for n in ("CreateBlindedOutput", "CalculatePartialSignature", "ED25519::Sign", "AddOutputs", "AddTransaction", "SaveSlate"):
        every(n + "$", lambda x: holds(F(x), FRESH), "%s only for an offer not accepted before" % n, "fresh " + n)

    c.rule("own share")
    every("CreateBlindedOutput$", lambda x: AB(show(x["term"])) == "OUT", "the coin is worth the amount offered, under the next unused key of the wallet", "coin")
    every("CalculateSigningKeys$", lambda x: AB(show(x["term"])) == "KEYS", "the signing key is the new coin's, less a random offset", "keys")
    offs = {AB(show(v)) for s, v0 in o.ret for k, v in s.env.items() if not isinstance(k, tuple) and AB(show(k)) == "$2.offset"}
    c.ob(bool(o.ret) and offs == {"Crypto::AddBlindingFactors(std::vector{$2.offset, RANDOM}, std::vector{})"} or offs == {"Crypto::AddBlindingFactors(std::vector{RANDOM, $2.offset}, std::vector{})"},
         "the offset returned is the offered offset plus the one taken from the key", c.at(f), key="offset", detail=str(offs)[:800])
    every("Slate::AddOutput$", lambda x: [arg(x, i) for i in range(3)] == ["OUT.m_output.m_features", "OUT.m_output.m_commitment", "OUT.m_output.m_rangeProof"] and strip(show(x["obj"])) == "$2",
          "the reply carries the new coin", "reply coin")

    c.rule("signature")
    SIG = "<-push_back(SlateSignature{KEYS.public_key, KEYS.public_nonce, std::nullopt})"

    def shares(x):
        s = show(x["obj"])
        for a, b in AB.pairs:
            s = s.replace(a, b)
        return s.startswith("$2" + SIG) and not any(not isinstance(k, tuple) and show(k).endswith(".sigs") for k in x["state"].env)
    every("CalculateTotal(Excess|Nonce)$", shares, "sums are over the shares in the offer and the receiver's", "shares")
    every("CalculatePartialSignature$", lambda x: [arg(x, i) for i in range(5)] == ["KEYS.secret_key", "KEYS.secret_nonce", "$2.CalculateTotalExcess()", "$2.CalculateTotalNonce()", "MSG"],
          "the signature is made with the new key over the offered terms", "partial")
    VER = "SignatureUtil::VerifyPartialSignatures($2.sigs, MSG)"
    for n in ("AddOutputs", "AddTransaction", "SaveSlate", "::Commit"):
        every(n + "$", lambda x: VER in F(x), "%s only after every signature was verified" % n, "verified " + n)
    PS = "Crypto::CalculatePartialSignature(KEYS.secret_key, KEYS.secret_nonce, $2.CalculateTotalExcess(), $2.CalculateTotalNonce(), MSG)"
    c.ob(all(any(re.fullmatch(r"\$2\.sigs(\.back\(\)|\[.*\])\.partialOpt", AB(show(k))) and AB(show(v)) == PS for k, v in s.env.items() if not isinstance(k, tuple)) for s, _ in o.ret),
         "the signature is put in the receiver's share", c.at(f), key="placed")

    c.rule("payment proof")
    every("ED25519::Sign$", lambda x: arg(x, 0) == "PROOFKEY.secret_key", "the proof is signed with the key of the address named in the offer", "proof key")
    every("ED25519::Sign$", lambda x: holds(F(x), "has($0.Write().m_torAddressOpt)"), "only a wallet with an address signs a proof", "proof addr")
    every("ED25519::Sign$", lambda x: message(show(x["args"][1])), "the proof covers the amount, the final excess and the sender", "proof message")
    every("AddSignature$", lambda x: re.fullmatch(r"ED25519::Sign\(PROOFKEY\.secret_key, .*\)", arg(x, 0)) and strip(show(x["obj"])) == "$2.proofOpt", "the proof is attached to the reply", "proof attached")
    for s, v in o.ret:
        ls = abbreviate(lits(s), AB)
        c.ob(holds(ls, ("any", "!has($2.proofOpt)", "ev ED25519::Sign(PROOFKEY.secret_key, *)")), "a requested proof is signed", c.at(f), key="proof signed")
    every("Serializer::Append$", lambda x: arg(x, 0) == "$2.amount", "amount in the proof", "proof amount", some=False)
    c.returns("WalletImpl::FindAddressIndex", ["*"])
    addr = "ED25519::CalculatePubKey(*).bytes"
    c.exit("WalletImpl::FindAddressIndex", [("any", "$1 == *DeriveED25519Key(KeyChainPath::FromString(\"m/0/1\").GetChild(*)).public_key", "$1.bytes == *DeriveED25519Key(KeyChainPath::FromString(\"m/0/1\").GetChild(*)).public_key.bytes")])

    c.rule("recorded")
    every("AddOutputs$", lambda x: arg(x, 1) == "std::vector{OUT}", "the coin recorded is the one offered back", "record coin")
    every("AddTransaction$", lambda x: re.match(r"WalletTx\{DB\.GetNextTransactionId\(\), 6, \$2\.slateId, (\$3\.ToString\(\)|std::nullopt|\?\w+), std::nullopt, .*, \$2\.amount, 0, \$2\.fee, std::nullopt, \$2\.proofOpt\}$", arg(x, 1)),
          "the history entry shows the offer's terms", "record tx")
    every("SaveSlate$", lambda x: arg(x, 1) == "$2", "the reply is recorded", "record slate")
    need = ["ev DB.AddOutputs($1, std::vector{OUT})", "ev DB.AddTransaction($1, *)", "ev DB.SaveSlate($1, $2, *)"]
    every("::Commit$", lambda x: all(holds(F(x), r) for r in need) and AB(show(x["obj"])) == "DB", "coin, history entry and reply are written before the one commit", "commit last")
    for s, v in o.ret:
        c.ob(all(holds(abbreviate(lits(s), AB), r) for r in need + ["ev DB.Commit()"]), "the reply is handed out only once everything is committed", c.at(f), key="committed")
        c.ob(strip(show(v)) == "$2", "the reply is the offer with this wallet's share", c.at(f), key="reply")
        st = {AB(show(x)) for k, x in s.env.items() if not isinstance(k, tuple) and AB(show(k)) == "$2.stage"}
        c.ob(st == {"SlateStage{1}"}, "the reply is marked as received", c.at(f), key="stage", detail=str(st))


def message(s):
    """(amount | excess | sender) appended in this order to one serializer"""
    s = strip(strip(s, "$2"), "$2.proofOpt")
    for a, b in AB.pairs:
        s = s.replace(a, b)
    EX = "Crypto::ToCommitment($2.CalculateTotalExcess())"
    return s == "out0(%s.Serialize(Serializer{1}<-Append($2.amount)))<-AppendBigInteger($2.proofOpt.m_senderAddress.bytes).m_serialized" % EX


def verify(c):
    c.rule("share verification")
    f = c.find("SignatureUtil::VerifyPartialSignatures")
    PK = "Crypto::AddPublicKeys(coll(std::vector{}; each($0).excess))"
    NO = "Crypto::AddPublicKeys(coll(std::vector{}; each($0).nonce))"
    c.exit(f, [("any", "!has(each($0).partialOpt)", "Crypto::VerifyPartialSignature(each($0).partialOpt, each($0).excess, %s, %s, $1)" % (PK, NO))], ret="true")


def run(c):
    receive(c)
    verify(c)
