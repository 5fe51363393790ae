"""Secrets leave memory only encrypted."""
import re
from engine import sname, show
from spec import callers, lits, _walk
from taint import Taint, S, nodes
import c14

PROPERTY = dict(
    title="Seeds, keys and slate secrets are stored and sent only encrypted",
    statement="No password, seed, recovery phrase or private key is written to a file or database, or sent over a network, other than encrypted; what the wallet encrypts at rest is encrypted under a key derived from the wallet's seed or password, with an initialisation vector that is fresh and random each time and stored beside it. "
              "Decryption of a stored record derives the key in the same way, and the seed is released only when its authentication code matches the password. "
              "Memory that held a secret is cleared before it is given back.",
    over=["inputs", "histories"], qtext="every wallet, password, record and point at which something is stored or sent",
    why="A reused initialisation vector or a secret stored in clear works perfectly in every test; only someone with the disk notices.",
    files=["src/Wallet/WalletDB/WalletEncryptionUtil.cpp", "src/Wallet/Keychain/SeedEncrypter.cpp", "src/Wallet/WalletDB/Sqlite", "include/Common/Secure.h", "include/Crypto/Models/SecretKey.h", "include/Wallet/WalletDB/Models/EncryptedSeed.h"],
    mechanism=[("WalletEncryptionUtil", "src/Wallet/WalletDB/WalletEncryptionUtil.cpp"), ("SeedEncrypter", "src/Wallet/Keychain/SeedEncrypter.cpp"), ("secure_allocator", "include/Common/Secure.h")],
    technique="whole-program taint analysis (secret types to storage and network sinks, encryption as the only exit); symbolic provenance of keys and initialisation vectors; must-fact dataflow",
    note="Hand-overs by design are not sinks: the key of an onion service goes to the local Tor process's control port, and the replies of create_wallet and get_wallet_seed show the recovery phrase to their caller.",
)

TOR = re.compile(r"^TorControl")


def sinks():
    def sink(e):
        fn = sname(e.get("fn") or "")
        a = e.get("a", ())
        if e.get("k") == "ctor" and fn in ("TextParameter::TextParameter", "BlobParameter::BlobParameter"):
            return [("a wallet database", i) for i in range(len(a))]
        if fn in ("SqliteDB::Execute", "SqliteDB::Update", "SqliteDB::Query") or fn.startswith("sqlite3_bind_") or fn == "sqlite3_exec":
            return [("a wallet database", i) for i in range(len(a))]
        if fn in ("FileUtil::SafeWriteToFile", "FileUtil::WriteTextToFile", "AppendOnlyFile::Append", "fwrite", "write"):
            return [("a file", i) for i in range(len(a))]
        if re.match(r"rocksdb::(StackableDB|Transaction|WriteBatch|DB)::Put$", fn):
            return [("a database", i) for i in range(len(a))]
        if e.get("k") == "op" and e.get("op") == "<<" and len(a) == 2 and "fstream" in base_t(a[0]):
            return [("a file", 1)]
        if e.get("k") == "call" and fn == "std::basic_ostream::write" and "fstream" in base_t(e.get("o") or {}):
            return [("a file", 0)]
        if fn in ("asio::write", "asio::async_write", "asio::buffer", "asio::const_buffer"):
            return [("the network", i) for i in range(len(a))]
        return []
    return sink


def base_t(e):
    """declared type of the stream at the root of a chain of insertions"""
    while isinstance(e, dict):
        if e.get("k") == "op" and e.get("op") == "<<" and e.get("a"):
            e = e["a"][0]
        elif e.get("k") in ("cast", "un") and e.get("e"):
            e = e["e"]
        else:
            return str(e.get("t"))
    return ""


def run(c):
    F = c.F
    c.rule("clear text")
    sk = sinks()
    # vectors and salts are random, not secret
    T = Taint(F, c14.secret, c14.oneway, sk, back=c14.back, mute=lambda e: (e.get("fn") or "").endswith("::Deserialize"),
              skip=lambda f: f["q"] == "PrivateExtKey::Create", public=lambda t: re.match(r"(const )?CBigInteger<(8|16),", t) is not None, cut=lambda e: sname(e.get("fn") or "") == "RPCMethod::Handle")
    T.solve()
    c.fns |= {f["q"] for f in T.fns}
    c.sites += T.sites
    say = {}
    for f in T.fns:
        if c.rel(f).startswith(("src/", "include/")):
            for e in nodes([f.get("body"), [i.get("e") for i in f.get("inits", ())]]):
                if sk(e):
                    say.setdefault(f["u"], []).append(e)
    hit = {}
    for (u, l, what), f in T.hits.items():
        if what != "the message of an exception" and not (what == "the network" and TOR.match(f["q"])):
            hit.setdefault(u, []).append((l, what, f))
    for u in sorted(set(say) | set(hit), key=lambda u: (F.fns[u]["file"], F.fns[u]["l"])):
        f = F.fns[u]
        h = hit.get(u)
        c.ob(not h, "%s puts no unencrypted secret into %s" % (f["q"], " or ".join(sorted({w for _, w, _ in h})) if h else "storage or the network"),
             c.at(f, h[0][0] if h else None), key="clear " + sname(f["q"]), detail="a value of a secret type flows here without passing through encryption")
    n = sum(len(v) for v in say.values())
    c.ob(n > 60, "the storage and network calls were found", "src", key="sinks", detail=str(n))

    c.rule("encryption")
    C = callers(F)
    enc, dec = {}, {}
    for q, tab in (("AES256::Encrypt", enc), ("AES256::Decrypt", dec)):
        todo = [f for f, e in C.get(q, ())]
        done = set()
        while todo:
            f = todo.pop()
            if f["u"] in done:
                continue
            done.add(f["u"])
            rec = []
            # helpers that take key or vector as arguments are judged in their callers
            c.run(f, expand=lambda g: any(g["u"] == F.fns[u]["u"] for u in done if u != f["u"]), watch=lambda x: rec.append(x) if x["q"] == q else None)
            if any(re.fullmatch(r"\$\d+", show(x["args"][2])) or re.fullmatch(r"\$\d+", show(x["args"][1])) for x in rec) and C.get(sname(f["q"])):
                todo += [g for g, e in C[sname(f["q"])]]
                continue
            for x in rec:
                tab.setdefault(sname(f["q"]), []).append((f, x))
    c.ob(len(enc) >= 4 and len(dec) >= 4, "the places that encrypt and decrypt were found", "src/Wallet", key="sites", detail="%s / %s" % (sorted(enc), sorted(dec)))
    keys = {}
    for q in sorted(enc):
        for f, x in enc[q]:
            data, key, iv = (show(a) for a in x["args"])
            c.ob(re.fullmatch(r"CBigInteger\{CSPRNG::GenerateRandomBytes\(16\)(\.data\(\))?\}|CSPRNG::GenerateRandom\w*\(.*\)", iv) is not None, "%s encrypts with a fresh random vector" % q, c.at(x["fn"], x["e"].get("l")), key="iv " + q, detail=iv[:300])
            fromseed = re.search(r"Hasher::(Blake2b|SHA256)\(.*(\$\d)", key) and secret_param(f, key)
            frompw = re.match(r"KDF::PBKDF\((\$\d), ", key)
            odd = set(re.findall(r"<-(\w+)\(", key)) - {"AppendByteVector", "AppendVarStr", "AppendStr", "Append", "AppendBigInteger", "data", "insert"}
            c.ob(bool(fromseed or frompw) and not odd, "%s derives its key from the seed or the password" % q, c.at(x["fn"], x["e"].get("l")), key="key " + q, detail=key[:400])
            if fromseed:
                n = norm(key, f)
                c.ob('"' in n or re.search(r"<(?!seed)", n) is not None, "%s binds the key to what it protects" % q, c.at(x["fn"], x["e"].get("l")), key="bound " + q, detail=n[:400])
            draws = []
            c.run(f, watch=lambda z: draws.append((z["fn"]["q"], z["e"].get("l"), z["e"].get("c"))) if show(z["term"]) in iv and z["q"].startswith("CSPRNG::") else None)
            c.ob(len(set(draws)) == 1, "%s draws one vector" % q, c.at(x["fn"], x["e"].get("l")), key="draw " + q, detail=str(set(draws)))
            if frompw:
                c.ob("CSPRNG::GenerateRandomBytes(8)" in key, "%s salts the password freshly" % q, c.at(x["fn"], x["e"].get("l")), key="salt " + q, detail=key[:400])
            keys.setdefault(norm(key, f), set()).add(q)
            static = [v for v in nodes_st(f) if v.get("static") and v.get("i")]
            c.ob(not static, "%s keeps nothing between calls" % q, c.at(f), key="static " + q)
    for q in sorted(dec):
        for f, x in dec[q]:
            key = show(x["args"][1])
            if key.startswith("KDF::PBKDF("):
                c.ob(re.fullmatch(r"KDF::PBKDF\(\$\d, \$\d\.m_salt\.m_data, \$\d\.m_scryptParameters\)", key) is not None and show(x["args"][2]).endswith(".m_iv") and show(x["args"][0]).endswith(".m_encryptedSeedBytes"),
                     "%s decrypts with the stored salt, cost and vector" % q, c.at(x["fn"], x["e"].get("l")), key="decrypt " + q, detail=key)
                continue
            c.ob(norm(key, f) in keys, "%s derives the key as the encryption does" % q, c.at(x["fn"], x["e"].get("l")), key="same key " + q, detail=key[:400] + "\n" + "\n".join(keys)[:1200])
    # distinct uses have distinct keys
    own = [k for k in keys if len(keys[k]) > 1]
    c.ob(not own, "no two kinds of record share a key", "src/Wallet", key="distinct", detail=str(own)[:400])
    # what is stored with a record is the vector it was encrypted with
    for q in sorted(enc):
        for f, x in enc[q]:
            iv = show(x["args"][2])
            rec = []
            W, o = c.run(f, watch=lambda z: rec.append(z) if re.search(r"BlobParameter::New$", z["q"]) else None)
            stored = {show(z["args"][0]) for z in rec}
            rets = [show(v) for s, v in o.ret]
            ok = (iv + ".m_data") in stored or (bool(rets) and all(iv in r.replace(show(x["term"]), "") for r in rets))
            c.ob(ok, "%s stores the vector it used" % q, c.at(f), key="stored iv " + q, detail=str(sorted(stored))[:500] + str(rets)[:500])

    c.rule("seed")
    D = "AES256::Decrypt($0.m_encryptedSeedBytes, KDF::PBKDF($1, $0.m_salt.m_data, $0.m_scryptParameters), $0.m_iv)"
    c.exit("SeedEncrypter::DecryptWalletSeed", ["*%s*Hasher::HMAC_SHA256(*" % D])
    f = c.find("SeedEncrypter::DecryptWalletSeed")
    W, o = c.run(f)
    for s, v in o.ret:
        sv = show(v)
        ok = any(" == " in l and "Hasher::HMAC_SHA256(" in l and sv + ".data()" in l and "KDF::PBKDF($1, " in l.split("HMAC_SHA256(")[1] for l in lits(s))
        c.ob(ok, "the seed released is the one whose authentication code was checked", c.at(f), key="hmac", detail="\n    ".join(lits(s))[:900])
    f = c.find("SeedEncrypter::EncryptWalletSeed")
    rec = []
    W, o = c.run(f, watch=lambda x: rec.append(x) if x["q"] == "AES256::Encrypt" else None)
    c.ob(bool(rec) and all(re.search(r"each\(\$0\)", show(x["args"][0])) and "Hasher::HMAC_SHA256($0.data(), size($0), KDF::PBKDF($1, " in show(x["args"][0]) for x in rec),
         "the seed is stored with its authentication code", c.at(f), key="hmac stored", detail="; ".join(show(x["args"][0])[:300] for x in rec))
    cost = {m.groups() for x in rec for m in [re.search(r"ScryptParameters\{(\d+), (\d+), (\d+)\}", show(x["args"][1]))] if m}
    c.ob(bool(cost) and all(int(a) >= 32768 and int(b) >= 8 and int(p) >= 1 for a, b, p in cost), "deriving the key of the seed is expensive", c.at(f), key="cost", detail=str(cost))
    c.ob(all("{%s, " % show(x["args"][2]) in show(v) and "CSPRNG::GenerateRandomBytes(8)" in show(v) for x in rec for s, v in o.ret) and bool(o.ret), "the salt and vector stored are those used", c.at(f), key="seed stored")

    c.rule("memory")
    ds = [f for f in F.fns.values() if f.get("body") and re.fullmatch(r"secure_allocator<.*>::deallocate", f["q"])]
    c.ob(bool(ds), "the allocator of secrets was found", "include/Common/Secure.h", key="allocator")
    for f in ds:
        c.before(f, r"allocator(<.*>)?::deallocate$", [("any", "ev SecureMem::Cleanse($0, *$1*)", "$0 == *0*", "$0 == null", "!$0")])
        rec, _ = c.before(f, r"SecureMem::Cleanse$", [])
        size = 1
        m = re.search(r"secure_allocator<(.*)>", f["q"])
        size = {"unsigned char": 1, "char": 1, "unsigned short": 2, "unsigned int": 4, "unsigned long": 8}.get(m.group(1), None)
        for r in rec:
            a = show(r[5]["args"][1])
            good = {"$1"} if size == 1 else set()
            good |= {"($1 * %s)" % size, "(%s * $1)" % size, "%s*$1" % size, "$1*%s" % size, "(%s*$1)" % size}
            c.ob(a in good or size is None, "all of a secret's memory is cleared", c.at(r[1], r[0]), key="cleanse size", detail=a)
    cl = c.find("SecureMem::Cleanse")
    clears = [e for e in _walk(cl["body"]) if e.get("k") == "call" and e.get("n") in ("memset", "memory_cleanse", "OPENSSL_cleanse", "SecureZeroMemory", "RtlSecureZeroMemory", "sodium_memzero", "explicit_bzero", "memset_s")]
    W, o = c.run(cl, watch=None)
    c.ob(bool(clears), "clearing memory overwrites it", c.at(cl), key="cleanse")
    for e in clears:
        a = e.get("a", ())
        full = any((z.get("n") == cl["ps"][1]["n"]) for z in a if z.get("k") in ("ref", "cast")) or any(y.get("n") == cl["ps"][1]["n"] for z in a for y in _walk(z) if y.get("k") == "ref")
        c.ob(full, "clearing memory covers its whole length", c.at(cl, e.get("l")), key="cleanse length")
    for f in [f for f in F.fns.values() if re.fullmatch(r"secret_key_t<\d+>::~secret_key_t(<.*>)?", f["q"])]:
        es = [e for e in _walk(f.get("body")) if e.get("k") == "call" and e.get("n") == "erase"]
        c.ob(bool(es), "%s clears the key" % f["q"], c.at(f), key="dtor")


def norm(key, f):
    """a key's derivation with parameters known by their type only"""
    ps = f["ps"]

    def p(m):
        i = int(m.group(1))
        t = ps[i]["t"] if i < len(ps) else ""
        if c14.secret(t):
            return "<seed>"
        return "<id>" if "uuid" in t or m.group(2) else "<%s>" % re.sub(r"const | &|&", "", t)
    return re.sub(r"\$(\d+)(\.\w+)?", p, key)


def secret_param(f, key):
    return any(c14.secret(f["ps"][int(i)]["t"]) for i in re.findall(r"\$(\d+)", key) if int(i) < len(f["ps"]))


def nodes_st(f):
    for e in _walk(f.get("body")):
        if e.get("k") == "D":
            for v in e.get("v", ()):
                if isinstance(v, dict):
                    yield v
