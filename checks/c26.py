"""Locks: no deadlock between any threads, no lost guard around shared state."""
import re
import locks
from effects import nodes
from flow import Flow
from spec import sname, callers

PROPERTY = dict(
    title="Threads never wait in a circle; shared state is touched only under its lock",
    statement="No thread ever waits for a lock it already holds, and no set of threads can end up waiting for each other's locks, or for each other to end, in a circle: every order in which locks are taken anywhere in the program is part of one order without circles. "
              "State that several threads share is read and written only while its lock is held, exclusively where it is written, and no reference into it outlives the lock. "
              "A lock taken is released on every way out, whether or not something failed.",
    over=["schedules", "programs"], qtext="every interleaving of the node's threads and of its API callers",
    why="A deadlock silently stops the node or a wallet; unguarded state is corrupted memory in a process that holds keys.",
    files=["include/Core/Traits/Lockable.h", "src/BlockChain/BlockChainImpl.cpp", "src/P2P/ConnectionManager.cpp", "src/P2P/Connection.cpp", "src/TxPool/TransactionPoolImpl.cpp", "src/Wallet/ForeignController.cpp", "src/Wallet/SessionManager.cpp", "src/Net/Tor/TorProcess.cpp", "include/Common/ConcurrentQueue.h"],
    mechanism=[("Locked / Reader / Writer / MultiLocker", "include/Core/Traits/Lockable.h"), ("everything that takes a lock", "src")],
    technique="whole-program lock-order graph and must-held lock sets over the resolved call graph, threads and joins included; typestate over the guard classes",
    note="Two objects of one class are one lock. Start-up (the functions that build the chain before anything else can reach it) is left out of the order, and an obligation keeps those functions from being called from elsewhere. Waiting for network peers or for a condition variable is not modelled.",
)

START = {"BlockChain::Create", "ChainState::Create"}

# state -> the functions that may use it without its lock (building and destroying the object, where it has no other users)
GUARDED = {
    "TransactionPool::m_memPool": ((), ()),
    "TransactionPool::m_stemPool": ((), ()),
    "ConcurrentQueue<*>::m_deque": ((), ()),
    "SharedQueue<*>::queue_": ((), ()),
    "BulletProofsCache::m_bulletproofsCache": ((), ()),
    "ForeignController::m_contextsByUsername": (("ForeignController::~ForeignController",), ()),
    "Logger::m_threadNamesById": ((), ()),
    "RateCounter::m_sent": ((), ()),
    "RateCounter::m_received": ((), ()),
    "TorProcess::m_activeServices": ((), ()),
    "TorProcess::m_pControl": ((), ()),
    "TorProcess::m_controlPort": ((), ()),
    "TorProcess::m_socksPort": ((), ()),
    # the buffer a connection reads into: nothing reads before the connection's thread starts the first read
    "Connection::m_received": (("Connection::Thread_Connect",), ()),
    "MappedFile::m_mmap": ((), ()),
    # signing and committing re-randomise the context; parsing and serialising do not look at what that changes
    "Pedersen::m_pContext": ((), ()),
    "PublicKeys::m_pContext": ((), ()),
    "Bulletproofs::m_pContext": ((), ()),
    "AggSig::m_pContext": ((), ("secp256k1_ecdsa_signature_parse_compact", "secp256k1_ecdsa_signature_serialize_compact")),
}
READS = {"size", "empty", "begin", "end", "cbegin", "cend", "find", "count", "contains", "at", "front", "back", "data", "get", "operator->", "operator*", "has_value", "value", "value_or", "c_str", "is_open", "mapped_length", "length"}


def lockname(f):
    return f["q"].rsplit("::", 1)[0]


def order(c, L):
    c.rule("reacquire")
    skip = L.only_from(START)
    E = L.order(skip)
    edges = [(a, b, E[a][b]) for a in sorted(E) for b in sorted(E[a])]
    c.ob(len(edges) >= 150, "the lock-order graph is as large as this program's", key="edges", detail=str(len(edges)))
    G = {}
    at = lambda f, l: c.at(f, l) if f else ""
    for a, b, (f, l, w) in edges:
        same = a[0] == b[0]
        c.ob(not same, "nothing waits for %s while it holds it" % a[0], at(f, l),
             key="%s %s -> %s" % (a[0], a[1], b[1]) if same else "edge %s %s -> %s %s" % (a + b),
             detail="%s holds %s (%s) and takes it again (%s) through %s" % (f["q"], a[0], a[1], b[1], L.chain(w) or "itself") if same else "")
        if not same:
            G.setdefault(a[0], set()).add(b[0])
    c.rule("order")
    reach = {}
    for x in G:
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            for z in G.get(y, ()):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        reach[x] = seen
    for a, b, (f, l, w) in edges:
        if a[0] == b[0]:
            continue
        bad = a[0] in reach.get(b[0], ())
        c.ob(not bad, "waiting for %s while holding %s is no part of a circle" % (b[0], a[0]), at(f, l), key="%s %s -> %s %s" % (a + b),
             detail="circle through %s; %s holds %s (%s) and takes %s (%s) through %s" % (", ".join(sorted(x for x in reach[a[0]] if a[0] in reach.get(x, ()))), f["q"], a[0], a[1], b[0], b[1], L.chain(w) or "itself") if bad else "")
    c.sites += len(L.sites)
    c.rule("startup")
    c.callers_only("BlockChain::Create", {"BlockChainAPI::OpenBlockChain"})
    c.callers_only("ChainState::Create", {"BlockChain::Create"})
    c.callers_only("BlockChainAPI::OpenBlockChain", {"DefaultNodeClient::Create"})
    # stored blocks carry their inputs' features, so reading one never asks the chain for them
    c.rule("stored format")
    n = 0
    for f in L.fns.values():
        for e in nodes(f["body"]):
            if e.get("k") == "call" and re.match(r"RocksDB::Get", e.get("fn") or ""):
                n += 1
                pv = [a for a in e.get("a", ()) if "EProtocolVersion" in (a.get("t") or "")]
                ok = all(not any(x.get("k") == "enumc" and not x["q"].endswith(("::V1", "::V2")) for x in nodes(a)) and not any(x.get("k") in ("ref", "mem", "call") for x in nodes(a)) for a in pv)
                c.ob(ok or f["q"].startswith("RocksDB::Get"), "stored records are read in their stored format", c.at(f, e["l"]), key="stored format " + sname(f["q"]))
    c.sites += n


def covers(q, pat):
    return re.fullmatch(re.escape(pat).replace(r"\*", ".*"), q) is not None


def parents(root):
    out = {}
    todo = [root]
    while todo:
        x = todo.pop()
        for v in (x.values() if isinstance(x, dict) else x):
            if isinstance(v, (dict, list)):
                out[id(v)] = x
                todo.append(v)
    return out


def written(F, node, up):
    """whether the use of a member may change it"""
    x, p = node, up.get(id(node))
    while p is not None:
        if isinstance(p, list):
            x, p = p, up.get(id(p))
            continue
        k = p.get("k")
        if k in ("cast", "paren", "mat") or k == "op" and p.get("op") in ("*", "->") or k == "mem":
            x, p = p, up.get(id(p))
            continue
        if k == "call":
            if p.get("o") is not None and (p["o"] is x or any(y is node for y in nodes(p["o"]))):
                g = F.fns.get(p.get("u"))
                return not g.get("const") if g else p.get("n") not in READS
            return p.get("n") == "secp256k1_context_randomize" or "bullet_proof_scratch" in (p.get("n") or "")
        if k in ("op", "bin"):
            a0 = p["a"][0]
            return p.get("op") in ("=", "+=", "-=", "++", "--") and any(y is node for y in nodes(a0)) or p.get("op") == "[]" and "map" in (a0.get("t") or "")
        if k == "un":
            return p.get("op") in ("++", "--")
        return False
    return False


def guarded(c, L):
    c.rule("guarded")
    F = c.F
    fields, mut = {}, {}
    for r in F.recs.values():
        ms = [m["q"] for m in r.get("fields", ()) if "mutex" in (m.get("t") or "")]
        for m in r.get("fields", ()):
            pat = [p for p in GUARDED if covers(m["q"], p)]
            if pat:
                fields[m["q"]] = pat[0]
                mut[m["q"]] = {x for x in ms}
    for p in GUARDED:
        c.ob(p in fields.values(), "%s is still there to be guarded" % p, key="field " + p)
    for q in sorted(fields):
        c.ob(bool(mut[q]), "%s has a lock beside it" % q, key="lock of " + q)
    acc = L.accesses(set(fields))
    ups = {}
    seen = set()
    for e, f, held in acc:
        q = e["q"]
        skip, calls = GUARDED[fields[q]]
        own = q.rsplit("::", 1)[0]
        name = sname(own)
        base = re.sub(r"<.*$", "", own).split("::")[-1]
        if f["q"] in skip or (f.get("cls") or lockname(f)) == own and (f["n"] == base or f["n"].startswith("~") or f.get("kind") in ("ctor", "dtor") or f["n"] == re.sub(r"<.*$", "", f["n"]) == base):
            continue
        if f["u"] not in ups:
            ups[f["u"]] = parents(f)
        up = ups[f["u"]]
        if calls:
            x = e
            while x is not None and not (isinstance(x, dict) and x.get("k") == "call"):
                x = up.get(id(x))
            if x is not None and x.get("n") in calls:
                continue
        have = {m for l, m in held if l in mut[q]}
        # two locks for two fields: the one named after the field
        if len(mut[q]) > 1:
            near = {l for l in mut[q] if q.split("::")[-1].lower() in l.lower()}
            have = {m for l, m in held if l in (near or mut[q])}
        w = written(F, e, up)
        ok = "x" in have or have and not w
        seen.add(q)
        c.ob(bool(ok), "%s is %s only under its lock" % (q, "changed" if w else "read"), c.at(f, e["l"]),
             key="%s in %s" % (q, sname(f["q"])), detail="%s holds %s there" % (f["q"], sorted(held) or "nothing"))
    c.sites += len(acc)
    # the lock-guarded state is reached through Locked<> only: no reference into it is kept
    c.rule("escape")
    out, n = L.escapes()
    c.ob(n >= 300, "references and loops looked at", key="escapes examined", detail=str(n))
    for f, l, what, g in out:
        c.ob(False, "%s in %s refers into %s, whose guard is gone by then" % (what, f["q"], g), c.at(f, l), key="escape %s %s" % (sname(f["q"]), g))
    c.sites += n


def guards(c):
    """the guard classes themselves"""
    c.rule("guards")
    F = c.F
    kinds = {}

    def every(rx):
        r = [f for f in F.fns.values() if f.get("body") and "Lockable.h" in f["file"] and re.fullmatch(rx, f["q"])]
        c.ob(bool(r), "%s is there" % rx, key="guard " + rx)
        return r

    def ops(f, init=0):
        """balance of lock operations at every exit of f: set of (ops done, conditions)"""
        def step(e, y):
            if e.get("k") == "call" and e.get("o") is not None and e.get("n") in ("lock", "unlock", "lock_shared", "unlock_shared", "try_lock", "try_lock_shared") and ("mutex" in (e["o"].get("t") or "") or "utex" in str(locks.mutex_of(e["o"]) or "")):
                return y + (e["n"],)
            if e.get("k") == "call" and e.get("n") in ("Commit", "Rollback", "OnEndWrite", "OnInitWrite"):
                return y + (e["n"],)
            if e.get("k") == "Decl" and (e["v"].get("t") or "").startswith("MutexUnlocker"):
                return y + ("unlocker",)
            return y

        def branch(cnd, y):
            q = locks.strip(cnd)
            if q.get("k") in ("ref", "mem"):
                n = q.get("n")
                return [y + (n,)], [y + ("!" + n,)]
            return None
        r = Flow(step, branch=branch).run(f, ())
        return r["end"] | r["ret"]

    for f in every(r"Reader<.*>::InnerReader<.*>::InnerReader"):
        p = f["ps"][2]["n"]
        r = ops(f)
        c.ob(r == {(p, "lock_shared"), ("!" + p,)}, "a reader takes the lock shared", c.at(f), key="InnerReader ctor", detail=str(r))
        init = {i.get("f", "").split("::")[-1]: locks.strip(i.get("e") or {}).get("n") for i in f.get("inits", ())}
        c.ob(init.get("m_unlock") == f["ps"][3]["n"], "a reader remembers to release", c.at(f), key="InnerReader unlock flag", detail=str(init))
    for f in every(r"Reader<.*>::InnerReader<.*>::~InnerReader"):
        r = ops(f)
        c.ob(r == {("m_unlock", "unlock_shared"), ("!m_unlock",)}, "a reader releases the lock", c.at(f), key="InnerReader dtor", detail=str(r))
    for f in every(r"Writer<.*>::InnerWriter<.*>::InnerWriter"):
        p = f["ps"][3]["n"]
        r = ops(f)
        c.ob(r == {(p, "lock", "OnInitWrite"), ("!" + p, "OnInitWrite")}, "a writer takes the lock before it looks at the object", c.at(f), key="InnerWriter ctor", detail=str(r))
    for f in every(r"Writer<.*>::InnerWriter<.*>::~InnerWriter"):
        r = ops(f)
        good = all(("unlocker" in x and not set(x[:x.index("unlocker")]) & {"Commit", "Rollback", "OnEndWrite"}) or x == () for x in r)
        ends = {tuple(y for y in x if y != "unlocker") for x in r if x}
        c.ob(good and ends <= {("m_batched", "Rollback", "OnEndWrite"), ("!m_batched", "Commit", "OnEndWrite")} and len(ends) == 2,
             "a writer ends what it began, and releases the lock after that and however that ends", c.at(f), key="InnerWriter dtor", detail=str(r))
    for f in every(r"MutexUnlocker::~MutexUnlocker"):
        r = ops(f)
        c.ob(r == {("unlock",)}, "the unlocker unlocks", c.at(f), key="unlocker", detail=str(r))
    for n, op in (("lock", "lock_shared"), ("unlock", "unlock_shared"), ("try_lock", "try_lock_shared")):
        for f in every(r"MultiLocker::SharedOnlyMutex::" + n):
            r = ops(f)
            c.ob(r == {(op,)}, "a shared mutex is only locked shared", c.at(f), key="shared only " + n, detail=str(r))
    for q, want in (("Read", "1, 1"), ("Write", "0"), ("BatchWrite", "1")):
        for f in every(r"Locked<.*>::" + q):
            adopt = bool(f["ps"])
            if q == "Read":
                w = ["Reader::Create(m_pObject, m_pMutex, %d, 1)" % (not adopt)]
            else:
                w = ["Writer::Create(%s, m_pObject, m_pMutex, %d)" % (want, not adopt)]
            c.returns(f, w)
    for f in every(r"Reader<.*>::Create"):
        c.returns(f, ["*InnerReader{$0, $1, $2, $3}*", "Reader::InnerReader{$0, $1, $2, $3}"])
    for f in every(r"Writer<.*>::Create"):
        mk = [x["i"] for x in nodes(f["body"]) if x.get("k") == "new" and "InnerWriter<" in (x.get("at") or "")]
        got = [[next((y.get("id") for y in nodes(a) if y.get("k") == "ref" and y.get("d") == "param"), None) for a in x["a"]] for x in mk]
        c.ob(got == [[p["id"] for p in f["ps"]]], "a writer is made with what was asked for", c.at(f), key="writer create", detail=str(got))
    for f in every(r"MultiLocker::(Lock|BatchLock|LockShared|LockShared_)<.*>"):
        ps = [p["id"] for p in f["ps"]]
        cs = [e for e in nodes(f["body"]) if e.get("k") == "call" and (e.get("fn") or "").startswith(("std::lock", "MultiLocker::LockShared_"))]
        ok = len(cs) == 1 and len(cs[0]["a"]) == len(ps)
        got = [[x.get("id") for x in nodes(a) if x.get("k") == "ref" and x.get("d") == "param"] for a in cs[0]["a"]] if cs else []
        c.ob(ok and [g[:1] for g in got] == [[p] for p in ps], "all the locks are taken at once", c.at(f), key="all at once " + sname(f["q"]), detail=str(got))
    for f in every(r"MultiLocker::Get(Writer|BatchWriter|Reader)<.*>"):
        w = {"GetWriter": "Write", "GetBatchWriter": "BatchWrite", "GetReader": "Read"}[re.sub(r"<.*", "", f["n"])]
        c.returns(f, ["$0.%s(std::adopt_lock)" % w])


def manual(c, L):
    """locks taken by hand are released on every way out"""
    c.rule("release")
    n = 0
    for f in L.fns.values():
        for e in nodes(f["body"]):
            if e.get("k") == "call" and e.get("n") in ("lock", "lock_shared", "try_lock") and e.get("o") is not None and "mutex" in (e["o"].get("t") or "") and "Lockable.h" not in f["file"]:
                n += 1
                c.ob(False, "a lock is held by a guard, which releases it on every way out", c.at(f, e["l"]), key="by hand " + sname(f["q"]))
    k = [1 for f, l, x, m in L.sites]
    c.ob(len(k) > 100, "locks are taken through guards", key="guards used", detail=str(len(k)))


def run(c):
    guards(c)
    L = locks.Locks(c.F)
    order(c, L)
    manual(c, L)
    guarded(c, L)
