"""No password, seed or private key reaches a log or an error message."""
import re
from engine import sname, show
from spec import lits, holds
from taint import Taint, S, EMPTY, nodes

PROPERTY = dict(
    title="Passwords, seeds and private keys never reach a log or an error message",
    statement="No password, wallet seed, recovery phrase or private key, in any encoding, is written to a log or becomes part of an exception's message. "
              "Requests and responses of the local API are logged verbatim only for methods that carry none of them.",
    over=["inputs", "histories"], qtext="every request, every wallet and every point at which something is logged",
    why="Log files are attached to bug reports and kept for weeks; a test sees one method's log line, never all of them, and nobody reads what an error path prints.",
    files=["include/Net/Servers/RPC/RPCServer.h", "include/Net/Servers/RPC/RPCMethod.h", "src/API/Wallet/Owner/Handlers", "src/Wallet/SessionManager.cpp", "src/Common/Logger.cpp", "include/Common/Logger.h"],
    mechanism=[("RPCServer", "include/Net/Servers/RPC/RPCServer.h"), ("Logger", "src/Common/Logger.cpp"), ("secure containers", "include/Common/Secure.h")],
    technique="whole-program taint analysis with function summaries (secret types to log and exception sinks); must-fact dataflow on the request log",
    note="Session tokens are out of scope: they appear in the request log by design, and die with the session.  What a secret decides (whether a password is right, how long it is) is not tracked, only its value.",
)

KEYS = re.compile(r"(basic_string|vector)<[^<>]*(<[^<>]*>)?, secure_allocator|(basic_string|vector)<[^>]*secure_allocator|\bsecret_key_t<|(ed|x)25519_secret_key_t")
ONEWAY = re.compile(r"^(CSPRNG|Crypto|Hasher|ED25519|X25519|Pedersen|AggSig|Bulletproofs|PublicKeys|WalletEncryptionUtil|AES|ChaCha\w*|KDF|HKDF|CryptoUtil|Curve25519\w*|secp256k1\w*)::|::Deserialize$|^secp256k1|^ed25519_|^crypto_|::Encrypt$")


def secret(ty):
    return bool(KEYS.search(ty))


def oneway(e):
    return bool(ONEWAY.search(sname(e.get("fn") or "")))


def back(ty):
    return "basic_string" in ty and "secure_allocator" in ty


def logsink(e):
    fn = sname(e.get("fn") or "")
    n = len(e.get("a", ()))
    if fn.startswith("LoggerAPI::Log"):
        return [("the log", i) for i in range(n)]
    if e.get("k") == "call" and e.get("o") is not None and re.match(r"spdlog::", fn):
        return [("the log", i) for i in range(n)]
    if e.get("k") == "call" and fn in ("printf", "fprintf", "puts", "fputs", "perror", "syslog"):
        return [("standard output", i) for i in range(n)]
    if e.get("k") == "op" and e.get("op") == "<<" and n == 2 and std_stream(e["a"][0]):
        return [("standard output", 1)]
    return []


def reply(e):
    """error replies of the API are logged even where requests are not"""
    fn = sname(e.get("fn") or "")
    if re.fullmatch(r"RPC::(Request|Response)::BuildError", fn):
        return [("an error reply", i) for i, a in enumerate(e.get("a", ())) if i or "Request" in fn]
    return []


def std_stream(e):
    while isinstance(e, dict):
        if e.get("k") == "ref":
            return e.get("n") in ("cout", "cerr", "clog")
        if e.get("k") in ("op", "call") and (e.get("a") or e.get("o")):
            e = e.get("o") or e["a"][0]
        elif e.get("k") in ("cast", "un"):
            e = e.get("e")
        else:
            return False
    return False


# Decrypted wallet records (outputs, transactions) have the types of secrets; that a record is malformed may be said.
# PrivateExtKey::Create keeps the private key in a field its base class uses for public ones; the key is in m_privateKey, too.
def solve(F, sink):
    return Taint(F, secret, oneway, lambda e: sink(e) or reply(e), back=back, mute=lambda e: (e.get("fn") or "").endswith("::Deserialize"), skip=lambda f: f["q"] == "PrivateExtKey::Create", cut=lambda e: sname(e.get("fn") or "") == "RPCMethod::Handle").solve()


def run(c):
    F = c.F
    c.rule("secret values")
    T = solve(F, logsink)
    c.fns |= {f["q"] for f in T.fns}
    c.sites += T.sites
    # one obligation per function that logs or throws
    say = {}
    for f in T.fns:
        if c.rel(f).startswith(("src/", "include/")):
            for e in nodes([f.get("body"), [i.get("e") for i in f.get("inits", ())]]):
                if e.get("k") == "throw" or logsink(e) or reply(e):
                    say.setdefault(f["u"], []).append(e)
    hit = {}
    for (u, l, what), f in T.hits.items():
        hit.setdefault(u, []).append((l, what, f))
    for u in sorted(set(say) | set(hit), key=lambda u: (F.fns[u]["file"], F.fns[u]["l"])):
        f = F.fns[u]
        h = hit.get(u)
        c.ob(not h, "%s puts no secret into %s" % (f["q"], " or ".join(sorted({w for _, w, _ in h})) if h else "a log or error message"),
             c.at(f, h[0][0] if h else None), key="secret " + sname(f["q"]), detail="a value of a secret type flows here")
    n = sum(1 for f in T.fns for e in say.get(f["u"], ()) if logsink(e))
    c.ob(n > 300, "the program's log calls were found", "include/Common/Logger.h", key="log calls", detail=str(n))
    n = sum(1 for f in T.fns for e in say.get(f["u"], ()) if reply(e))
    c.ob(n >= 10, "the error replies were found", "src/API", key="error replies", detail=str(n))
    src = [f for f in T.fns if S in T.summary(f["u"])[0]]
    c.ob(len(src) > 20, "the functions that return secrets were found", "include/Common/Secure.h", key="sources", detail=str(len(src)))

    c.rule("verbatim requests")
    # which methods take or give out a secret
    handlers = [f for f in F.fns.values() if f.get("n") == "Handle" and f.get("body") and any(base(F, f.get("cls"), "RPCMethod") for _ in (0,))]
    c.ob(len(handlers) >= 30, "the API methods were found", "src/API", key="handlers", detail=str(len(handlers)))
    carry = 0
    for f in sorted(handlers, key=lambda f: f["q"]):
        ret, this, out, sinks, keep = T.summary(f["u"])
        takes, gives = ("p", 0) in keep, S in ret
        if not takes and not gives:
            continue
        carry += 1
        g = [x for x in F.byname.get(f["cls"] + "::ContainsSecrets", []) if x.get("body")]
        ok = bool(g)
        for x in g:
            W, o = c.run(x)
            ok = ok and bool(o.ret) and all(show(v) in ("1", "true") for s, v in o.ret)
        c.ob(ok, "%s %s a secret and says so" % (f["cls"], "takes" if takes else "returns"), c.at(f), key="carries " + f["cls"])
    c.ob(carry >= 5, "the methods with secrets were found", "src/API/Wallet/Owner", key="carriers", detail=str(carry))

    # the request log
    f = c.find("RPCServer::Handle", optional=True)
    srv = [g for g in F.fns.values() if g.get("body") and g["file"].endswith("RPCServer.h") and any(whole(e) for e in nodes(g["body"]))]
    c.ob(bool(srv), "the request log was found", "include/Net/Servers/RPC/RPCServer.h", key="request log")
    seen = set()
    for g in srv:
        rec = []
        c.run(g, watch=lambda x: rec.append(x) if whole(x["e"]) else None)
        seen |= {x["e"].get("l") for x in rec}
        for x in rec:
            if not any(re.search(r"RPC::Re(quest|sponse)$", re.sub(r"^const | [&*]$", "", str((z.get("o") or {}).get("t")))) for z in nodes(x["e"]) if whole_rpc(z)):
                continue
            c.ob(holds(lits(x["state"]), "!*.ContainsSecrets()"), "a request or response is written out only for methods without secrets", c.at(x["fn"], x["e"].get("l")),
                 key="guard " + sname(x["fn"]["q"]), detail="\n    ".join(lits(x["state"]))[:800])
    c.ob(len(seen) >= 1, "the request log is reachable", "include/Net/Servers/RPC/RPCServer.h", key="request log reach", detail=str(seen))


def base(F, cls, want, depth=0):
    r = F.recs.get(cls or "")
    if not r or depth > 5:
        return False
    return any(b == want or base(F, b, want, depth + 1) for b in r.get("bases", ()))


def whole_rpc(e):
    return e.get("k") == "call" and e.get("n") in ("ToString", "ToJSON", "toStyledString") and bool(re.search(r"RPC::(Request|Response|Error)$", re.sub(r"^const | [&*]$", "", str((e.get("o") or {}).get("t")))))


def whole(e):
    """a log call that prints a request or response"""
    return bool(logsink(e)) and any(whole_rpc(z) for a in e.get("a", ()) for z in nodes(a))
