"""Secrets the program makes up come from the operating system's generator, or not at all."""
import re
from engine import show
from spec import lits, holds, callers, sname, _walk as walk

PROPERTY = dict(
    title="Secrets are drawn fresh from the operating system's generator or not at all",
    statement="Wallet seeds, session keys, kernel offsets, signing nonces, signing randomness and the keys that encrypt messages are each drawn anew from the operating system's generator, and a failed or short read yields an error, never a value. "
              "No such value is kept in a variable that outlives the operation it was drawn for, and no secret is taken from a statistical generator, whose output only ever picks peers, delays, identifiers and paths. "
              "Nothing is signed or proven unless blinding the signing context with fresh randomness succeeded.",
    over=["inputs", "fault_sequences", "histories"], qtext="every operation, every failure of the generator",
    why="A predictable or repeated nonce or seed hands the coins to whoever notices.",
    files=["src/Crypto/CSPRNG.cpp", "src/Crypto/AggSig.cpp", "src/Crypto/Bulletproofs.cpp", "src/Crypto/Age.cpp", "src/Wallet/SessionManager.cpp", "src/Wallet/WalletManagerImpl.cpp"],
    mechanism=[("CSPRNG", "src/Crypto/CSPRNG.cpp"), ("AggSig", "src/Crypto/AggSig.cpp"), ("SlateUtil", "src/Wallet/SlateBuilder/SlateUtil.h"), ("SessionManager", "src/Wallet/SessionManager.cpp")],
    technique="symbolic value tracking: the term of every secret at the point it is used is a fresh draw; must-fact dataflow for the reads and the blinding; whole-program call-graph and storage-duration query for the other generators",
    note="The quality of /dev/urandom and the native signing code are not analysed. Whether two draws in a loop are distinct is decided by where they are drawn, not by the values.",
)

R32 = r"(?:\w+\{)?CSPRNG::GenerateRandom32\(\)\}?"
WEAK = re.compile(r"^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|random_device|minstd_rand0?|mt19937(_64)?|default_random_engine|discard_block_engine|shuffle_order_engine|ranlux\d+|knuth_b|independent_bits_engine)\b")
WEAKFN = {"rand", "std::rand", "srand", "std::srand", "random", "srandom", "drand48", "lrand48", "mrand48", "erand48", "rand_r"}
SECRET = re.compile(r"\b(secret_key_t|SecretKey|BlindingFactor|SecureVector|SecureString|ed25519_secret_key_t|x25519_secret_key_t|ed25519_keypair_t|x25519_keypair_t)\b|secure_allocator")


def generator(c):
    c.rule("generator")
    f = c.find("CSPRNG::GenerateRandomBytes")
    W, o = c.run(f)
    c.ob(bool(o.ret), "bytes are returned", c.at(f), key="returns")
    for s, v in o.ret:
        r = show(v)
        c.ob(r == "std::vector{$0}" and holds(lits(s), ('any', '$0 == read(open("/dev/urandom", *), std::vector{$0}.data(), $0)', '$0 == read(open("/dev/urandom", *), std::vector{$0}.data(), size(std::vector{$0}))', 'size(std::vector{$0}) == read(open("/dev/urandom", *), std::vector{$0}.data(), size(std::vector{$0}))')),
             "bytes are returned only when all of them were read from the system generator", c.at(f), key="full read", detail=r + "\n    " + "\n    ".join(lits(s)))
    c.returns("CSPRNG::GenerateRandom32", ["CBigInteger{CSPRNG::GenerateRandomBytes(32).data()}"])


def signing(c):
    c.rule("signing")
    g = c.find("AggSig::GenerateSecureNonce")
    W, o = c.run(g)
    c.ob(bool(o.ret), "a nonce is returned", c.at(g), key="nonce returned")
    for s, v in o.ret:
        m = re.fullmatch(r"\w+\{CBigInteger\{(.*)\}\}", show(v))
        ok = m and any(re.fullmatch(r"secp256k1_aggsig_export_secnonce_single\(m_pContext, %s\.data\(\), %s\.data\(\)\) == 1" % (re.escape(re.sub(r"\.data\(\)$", "", m.group(1))), R32), l) for l in lits(s))
        c.ob(ok, "a signing nonce is what the library derived from a fresh seed", c.at(g), key="nonce", detail=show(v) + "\n    " + "\n    ".join(lits(s)))
    c.returns("Crypto::GenerateSecureNonce", ["AggSig::GetInstance().GenerateSecureNonce()"])
    k = c.find("SlateUtil::CalculateSigningKeys")
    W, o = c.run(k, maxterm=100000)
    for s, v in o.ret:
        a = [x if isinstance(x, str) else show(x) for x in flat(v)]
        c.ob("Crypto::GenerateSecureNonce()" in a, "the nonce of a payment is fresh", c.at(k), key="payment nonce", detail=show(v)[-500:])
        c.ob("Crypto::CalculatePublicKey(Crypto::GenerateSecureNonce())" in a, "the public nonce is that nonce's", c.at(k), key="public nonce", detail=show(v)[-500:])
    seen = 0
    for sink, pos in (("secp256k1_aggsig_sign_single", 9), ("secp256k1_bulletproof_rangeproof_prove", None)):
        for f, e in callers(c.F).get(sink, ()):
            rec = []
            W, o = c.run(f, watch=lambda x: rec.append(x) if x["q"] == sink else None)
            for x in rec:
                seen += 1
                ls = lits(x["state"])
                ctx = show(x["args"][0])
                rs = [m.group(1) for l in ls for m in [re.fullmatch(r"secp256k1_context_randomize\(%s, (%s)\.data\(\)\) == 1" % (re.escape(ctx), R32), l)] if m]
                c.ob(bool(rs), "%s signs only in a context blinded afresh" % sname(f["q"]), c.at(x["fn"], x["e"].get("l")), key="blinded " + sname(f["q"]), detail="\n    ".join(ls))
                if pos is not None:
                    a = show(x["args"][pos])
                    c.ob(re.fullmatch(R32 + r"\.data\(\)", a), "%s seeds the signature afresh" % sname(f["q"]), c.at(x["fn"], x["e"].get("l")), key="seed " + sname(f["q"]), detail=a)
    c.ob(seen >= 3, "signing sites analysed", "src/Crypto", key="sites")
    f = c.find("secp256k1::Context::Randomized")
    W, o = c.run(f)
    for s, v in o.ret:
        c.ob(any(re.fullmatch(r"secp256k1_context_randomize\(%s, %s\.data\(\)\) == 1" % (re.escape(show(v)), R32), l) for l in lits(s)), "a context handed out as blinded was blinded", c.at(f), key="context", detail="\n    ".join(lits(s)))


def flat(v):
    for x in getattr(v, "a", ()):
        if isinstance(x, tuple):
            yield from x
        else:
            yield x


def term(c, q, sink, want, what, key, arg=None, n=1, nparams=None):
    """every call of `sink` reached from q has `want` (regex) as argument"""
    f = c.find(q, nparams)
    rec = []
    W, o = c.run(f, watch=lambda x: rec.append(x) if re.search(sink, x["q"]) else None, maxterm=100000)
    c.ob(len(rec) >= n, "%s: found" % what, c.at(f), key=key + " site")
    for x in rec:
        v = show(x["args"][arg]) if isinstance(arg, int) and arg < len(x["args"]) else show(x["term"])
        c.ob(re.fullmatch(want, v) is not None, what, c.at(x["fn"], x["e"].get("l")), key=key, detail=v[:600])
    return f, rec, o


def secrets(c):
    c.rule("secrets")
    term(c, "WalletManager::InitializeNewWallet", r"SeedEncrypter::EncryptWalletSeed$", r"CSPRNG::GenerateRandomBytes\(.*\)", "a new wallet's seed is drawn", "seed", 0)
    c.returns("KeyChain::FromRandom", ["KeyChain::FromSeed(secret_key_t{CSPRNG::GenerateRandom32()}.GetSecure())", "KeyChain::FromSeed(CSPRNG::GenerateRandomBytes(32))"])
    c.returns("SlatepackAddress::Random", ["SlatepackAddress{ED25519::CalculateKeypair(secret_key_t{CSPRNG::GenerateRandom*}).public_key}"])
    f = c.find("SessionManager::Login", ptype="secure_allocator<unsigned char>")
    W, o = c.run(f)
    for s, v in o.ret:
        m = re.fullmatch(r"SessionToken\{.*, (CSPRNG::GenerateRandomBytes\(size\(.*\)\))\}", show(v))
        c.ob(m is not None, "a session's key is drawn, as long as the seed it hides", c.at(f), key="session", detail=show(v)[:400])
    term(c, "SendSlateBuilder::Build", r"SlateUtil::CalculateSigningKeys$", R32, "a payment's offset is drawn", "send offset", 2) if c.find("SendSlateBuilder::Build", optional=True) else None
    term(c, "ReceiveSlateBuilder::AddReceiverData", r"SlateUtil::CalculateSigningKeys$", R32, "the receiver's offset is drawn", "receive offset", 2)
    for g, e in callers(c.F).get("SlateUtil::CalculateSigningKeys", ()):
        rec = []
        c.run(g, watch=lambda x: rec.append(x) if x["q"] == "SlateUtil::CalculateSigningKeys" else None, maxterm=100000)
        for x in rec:
            v = show(x["args"][2])
            c.ob(re.fullmatch(R32, v) is not None or re.fullmatch(r"\$\d", v) is not None and g.get("acc") in (1, 2), "the offset of %s is drawn" % sname(g["q"]), c.at(x["fn"], x["e"].get("l")), key="offset " + sname(g["q"]), detail=v)
    # age: one file key, one nonce, drawn apart
    f = c.find("Age::Encrypt")
    rec, draws = [], set()

    def w(x):
        if x["q"] == "KDF::HKDF" and x["fn"]["u"] == f["u"]:
            rec.append(x)
        if x["q"] == "CSPRNG::GenerateRandomBytes":
            draws.add((x["fn"]["q"], x["e"].get("l"), x["e"].get("c")))
    c.run(f, watch=w, maxterm=100000)
    c.ob(len(rec) >= 2, "message keys are derived", c.at(f), key="age sites")
    for x in rec:
        c.ob(re.fullmatch(r"CBigInteger\{CSPRNG::GenerateRandomBytes\(16\)(\.data\(\))?\}\.m_data", show(x["args"][2])) is not None, "a message's keys are derived from a fresh file key", c.at(x["fn"], x["e"].get("l")), key="file key", detail=show(x["args"][2]))
        salt = show(x["args"][0])
        if "payload" in show(x["args"][1]):
            c.ob("CSPRNG::GenerateRandomBytes(16)" in salt, "a message's payload key is salted afresh", c.at(x["fn"], x["e"].get("l")), key="salt", detail=salt)
    c.ob(len(draws) == 2, "file key and nonce are drawn apart", c.at(f), key="age draws", detail=str(draws))
    c.exit("X25519::GenerateEphemeralKeypair", ["crypto_kx_keypair({p}.data(), {s}.data()) == 0"])
    h = c.find("Age::BuildRecipientLines")
    loops, rec = [], []
    W, o = c.run(h, watch=lambda x: rec.append(x) if x["q"] == "X25519::GenerateEphemeralKeypair" else None)

    def inside(n, l, lp):
        return any(isinstance(y, dict) and y.get("k") == "call" and any(z.get("k") in ("mem", "ref", "fref") and (z.get("q") or z.get("n") or "").endswith("GenerateEphemeralKeypair") for z in walk(y)) for y in walk(n))
    if rec and rec[0]["fn"]["u"] == h["u"]:
        loops = [n for n in walk(h["body"]) if n.get("k") in ("For", "FR", "While", "Do")]
        inl = any(x["e"] is y for x in rec for n in loops for y in walk(n.get("b"))) or any(y.get("l") == x["e"].get("l") for x in rec for n in loops for y in walk(n.get("b")) if y.get("k") == "call")
        lam = any(y.get("k") == "lambda" for y in walk(h["body"]))
        c.ob(inl or lam, "each recipient gets a key of its own", c.at(h, rec[0]["e"].get("l")), key="ephemeral")
    c.ob(bool(rec), "ephemeral keys are generated", c.at(h), key="ephemeral site")


def weak(c):
    c.rule("statistical generators")
    n = 0
    for f in c.F.fns.values():
        if not f.get("body"):
            continue
        for e in walk(f["body"]):
            k = e.get("k")
            t = None
            if k == "ctor":
                t = e.get("t") or e.get("cls") or ""
                t = t if WEAK.match(t) else None
            elif k == "call":
                q = e.get("fn") or e.get("n") or ""
                t = q if q in WEAKFN else None
            elif k == "fref":
                t = e.get("fn") if e.get("fn") in WEAKFN else None
            if t:
                n += 1
                c.ob(sname(f["q"]) == "CSPRNG::GenerateRandom" or only_from(c, f, "CSPRNG::GenerateRandom"), "%s uses no statistical generator" % sname(f["q"]), c.at(f, e.get("l")), key="weak " + sname(f["q"]), detail=t)
    c.ob(n >= 1, "the statistical generator was found", "src/Crypto/CSPRNG.cpp", key="weak sites")
    c.sites += n
    c.callers_only("CSPRNG::GenerateRandom", {"BlockSyncer::RequestBlocks", "CompactBlockFactory::CreateCompactBlock", "ConnectionManager::GetMostWorkPeer", "Dandelion::ProcessStemPhase", "KeyChainPath::GetRandomChild",
                                              "PeerManager::GetPeersWithCapability", "SessionManager::SessionManager", "TransactionPool::AddTransaction", "TransactionPool::GetExpiredTransactions"})


def only_from(c, f, q, seen=()):
    cs = callers(c.F).get(sname(f["q"]), ())
    return bool(cs) and all(sname(g["q"]) == q or (g["u"] not in seen and only_from(c, g, q, seen + (f["u"],))) for g, _ in cs)


def kept(c):
    c.rule("storage")
    draw = re.compile(r"CSPRNG::GenerateRandom(Bytes|32)$|GenerateSecureNonce$|X25519::GenerateEphemeralKeypair$")
    n = 0
    for f in c.F.fns.values():
        if not f.get("body"):
            continue
        for d in walk(f["body"]):
            if d.get("k") == "D":
                for v in d["v"]:
                    n += 1
                    if v.get("static"):
                        bad = any(draw.search(e.get("fn") or "") for e in walk(v.get("i"))) or SECRET.search(v.get("t") or "")
                        c.ob(not bad, "no drawn secret is kept in a static variable", c.at(f, d.get("l")), key="static %s %s" % (sname(f["q"]), v["n"]))
    for q, vs in c.F.vars.items():
        for v in vs:
            bad = SECRET.search(v.get("t") or "") or any(draw.search(e.get("fn") or "") for e in walk(v.get("i")) if isinstance(e, dict))
            if bad:
                c.ob(False, "no secret is kept in the global %s" % q, str(v.get("file") or q), key="global " + q)
    c.sites += n


def run(c):
    generator(c)
    signing(c)
    secrets(c)
    weak(c)
    kept(c)
