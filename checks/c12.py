"""Background work survives the failure of one piece of it."""
import re
from engine import sname
from effects import nodes, is_this, self_callees, body_of
from escape import Escape, entries, callable_of, clean
from flow import Flow

PROPERTY = dict(
    title="A failing task, request or peer never takes down the node or ends a worker",
    statement="No error raised while a background thread, network callback or HTTP request handler does its work leaves it, so the process is not terminated by it, and the endless loop of every worker continues with its next round until shutdown. "
              "Destructors raise no error, and every thread a component starts is waited for or detached before the object that holds it is destroyed or reused.",
    over=["fault_sequences", "schedules", "inputs"], qtext="every error the analysed code raises explicitly, in every thread, callback and handler the code registers, and every path between the start of a thread and its end",
    why="An error that leaves the entry function of a thread terminates the whole node, whatever it was about; one that ends a loop silently stops syncing, relaying, pinging or banning for good. Both need a fault at a particular point that no test injects.",
    files=["src/P2P/Pipeline/BlockPipe.cpp", "src/P2P/Pipeline/TransactionPipe.cpp", "src/P2P/Pipeline/TxHashSetPipe.cpp", "src/P2P/ConnectionManager.cpp", "src/P2P/Dandelion.cpp", "src/P2P/Sync/Syncer.cpp", "src/P2P/Seed/Seeder.cpp", "src/Net/Tor/TorProcess.cpp", "src/Server/Node/NodeRestServer.cpp", "src/PMMR/TxHashSetManager.cpp", "src/Wallet/WalletDB/Sqlite/SqliteTransaction.h"],
    mechanism=[("thread entry functions", "src/P2P"), ("HTTP handlers", "src/Server/Node/API"), ("RPCServer::APIHandler", "include/Net/Servers/RPC/RPCServer.h"), ("ThreadUtil::Join", "include/Common/Util/ThreadUtil.h")],
    technique="whole-program exception-escape analysis over the call graph (overriders, lambdas, handlers by type) plus typestate of thread objects on every path",
    note="Errors raised inside external libraries and memory exhaustion are not modelled; formatting a log line, hashing and the process-wide context are taken not to fail.",
)

# not modelled as failing: formatting of a message, the result of a hash function, the process-wide context
QUIET = ("StringUtil::Format", "Global::LockContext", "Hasher::", "LoggerAPI::")


def also(e):
    fn = e.get("fn") or ""
    if e.get("nx"):
        return None
    if re.match(r"std::(__cxx11::)?sto(i|l|ll|ul|ull|d|f|ld)$", fn):
        return "std::invalid_argument"
    return None


def run(c):
    F = c.F
    X = Escape(F, also)
    for f in F.fns.values():
        if f["q"].startswith(QUIET):
            X.memo[id(f)] = {}
    rel = lambda p: re.sub(r"/(?:\S*/)?((?:src|include)/)", r"\1", p)

    def path(p):
        return " -> ".join(rel(x) for x in p)

    def escapes(cl, f):
        if cl.get("k") == "lambda":
            r = {}
            X.st(cl.get("body"), r, f, {})
            return r, cl.get("body")
        g = F.fns.get(cl.get("u"))
        if g is None or not g.get("body"):
            return None, None
        return X.fn(g), g.get("body")

    c.rule("escape")
    n, loops, done = {}, 0, set()
    for kind, f, e, cl in entries(F):
        name = cl.get("fn") or "the task %s starts" % f["q"]
        key = (kind, name, cl.get("l") if cl.get("k") == "lambda" else 0)
        if key in done:
            continue
        done.add(key)
        r, body = escapes(cl, f)
        if r is None:
            continue
        n[kind] = n.get(kind, 0) + 1
        where = c.at(f, e.get("l"))
        if not r:
            c.ob(True, "%s lets no error escape" % name, where, key="escape %s" % name)
        for cls, p in sorted(r.items()):
            c.ob(False, "no %s leaves %s, the entry of a %s" % (cls, name, kind), where, key="escape %s %s" % (name, cls), detail=path(p))
        if kind != "thread":
            continue
        # the endless loop of a worker goes on after a failed round
        g = F.fns.get(cl.get("u")) or f
        for s in nodes(body):
            if s.get("k") in ("While", "For", "Do") and s.get("c") and any(is_stop(x) for x in nodes(s["c"])):
                loops += 1
                r = {}
                X.st(s.get("b"), r, g, {})
                c.ob(not r, "the loop of %s continues after any error" % name, c.at(g, s.get("l")), key="loop %s" % name, detail="\n".join(cls + ": " + path(p) for cls, p in r.items()))
                out = [x.get("l") for x in leaves(s.get("b"))]
                c.ob(not out, "the loop of %s ends only when the node stops" % name, c.at(g, s.get("l")), key="loop end %s" % name, detail="left at line %s" % out)
    for kind, least in (("thread", 14), ("asio", 6), ("http", 16)):
        c.ob(n.get(kind, 0) >= least, "%s entries found" % kind, "src", key="entries " + kind, detail="%s of %d" % (n.get(kind, 0), least))
    c.ob(loops >= 5, "worker loops found", "src", key="loops", detail=str(loops))

    ids = set(X.memo)
    c.fns |= {f["u"] for f in F.fns.values() if id(f) in ids}
    c.rule("destructor")
    for f in F.fns.values():
        if "::~" in f["q"] and f.get("body"):
            r = X.fn(f)
            if not r:
                c.ob(True, "%s raises no error" % f["q"], c.at(f), key="dtor " + sname(f["q"]))
            for cls, p in sorted(r.items()):
                c.ob(False, "%s raises no %s" % (f["q"], cls), c.at(f), key="dtor " + sname(f["q"]), detail=path(p))

    c.rule("join")
    threads = {}
    for r in F.recs.values():
        for x in r.get("fields", ()):
            if re.search(r"\bstd::thread\b(?!::id)", x.get("t", "")):
                threads[x["q"]] = (r, x)
    assigned = {}
    for f in F.fns.values():
        for e in nodes(body_of(f)):
            m = None
            if e.get("k") == "op" and e.get("op") == "=" and e["a"] and e["a"][0].get("k") == "mem" and e["a"][0].get("q") in threads:
                m = e["a"][0]
            elif e.get("k") == "call" and e.get("n") in ("push_back", "emplace_back") and (e.get("o") or {}).get("q") in threads:
                m = e["o"]
            if m:
                assigned.setdefault(m["q"], []).append((f, e, m))
    for q, (r, x) in sorted(threads.items()):
        if q not in assigned:
            continue            # never started
        d = [f for f in F.fns.values() if f.get("cls") == r["q"] and "::~" in f["q"]]
        ok = bool(d) and all(ends_thread(F, f, q) for f in d)
        c.ob(ok, "the destructor of %s waits for %s" % (r["q"], x["n"]), c.at(d[0]) if d else r["q"], key="join " + q)
        for f, e, m in assigned[q]:
            if e.get("n") in ("push_back", "emplace_back"):
                continue
            fresh = not (m.get("b") is None or is_this(m.get("b")))
            if fresh or f["q"].split("::")[-1] == f["q"].split("::")[-2:-1][0]:
                continue        # a factory or constructor: the object is new
            fl = Flow(lambda y, s, q=q, e=e: ended(y, s, q, e))
            fl.run(f, "?")
            c.ob(("bad" not in BAD), "a running %s is waited for before it is replaced" % x["n"], c.at(f, e.get("l")), key="replace " + q)
            BAD.clear()
    c.ob(len(assigned) >= 9, "thread members found", "src", key="thread members", detail=str(sorted(assigned)))

    c.rule("local")
    k = 0
    for f in list(F.fns.values()):
        if not f.get("body"):
            continue
        for s in nodes(f["body"]):
            if s.get("k") != "D":
                continue
            for v in s.get("v", ()):
                ty = clean((v or {}).get("t"))
                if not re.fullmatch(r"std::thread|std::vector<std::thread.*>", ty or "") or (v.get("t") or "").rstrip().endswith("&"):
                    continue
                k += 1
                check_local(c, F, X, f, v, ty)
    c.ob(k >= 4, "local threads found", "src", key="local threads", detail=str(k))


BAD = set()


def ended(y, s, q, e):
    if y is e:
        if s != "joined":
            BAD.add("bad")
        return "?"
    if ends_node(y, q):
        return "joined"
    return s


def is_stop(x):
    n = (x.get("n") or "") + " " + (x.get("fn") or "")
    return "erminate" in n or "IsRunning" in n or "m_stop" in n


def leaves(b):
    """statements that leave the loop b belongs to other than by its condition"""
    def go(s, depth):
        if isinstance(s, list):
            for x in s:
                yield from go(x, depth)
            return
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "lambda":
            return
        if k == "Ret" or (k == "Break" and depth == 0):
            yield s
            return
        d = depth + (1 if k in ("While", "For", "FR", "Do", "Switch") else 0)
        for v in s.values():
            if isinstance(v, (dict, list)):
                yield from go(v, d)
    return [x for x in go(b, 0) if not guarded(b, x)]


def guarded(b, x):
    """the leaving statement sits under a test of the same stop condition"""
    for s in nodes(b):
        if s.get("k") == "If" and any(is_stop(y) for y in nodes(s.get("c"))) and any(y is x for y in nodes([s.get("t"), s.get("e")])):
            return True
    return False


def ends_node(y, q):
    """the expression waits for or detaches the thread member q"""
    if y.get("k") != "call":
        return False
    has = lambda e: e is not None and any(z.get("k") == "mem" and z.get("q") == q for z in nodes(e))
    if y.get("n") in ("Join", "JoinAll", "Detach") and any(has(a) for a in y.get("a", ())):
        return True
    return y.get("n") in ("join", "detach") and has(y.get("o"))


def ends_thread(F, f, q, seen=None):
    seen = seen or set()
    if id(f) in seen:
        return False
    seen.add(id(f))
    for y in nodes(body_of(f)):
        if ends_node(y, q):
            return True
        if y.get("k") == "FR" and any(z.get("q") == q for z in nodes(y.get("r"))) and any(z.get("k") == "call" and z.get("n") in ("join", "Join") for z in nodes(y.get("b"))):
            return True
    return any(ends_thread(F, g, q, seen) for g in self_callees(F, f))


def check_local(c, F, X, f, v, ty):
    i = v.get("id")
    vec = ty.startswith("std::vector")

    def ref(e):
        return e is not None and any(z.get("k") == "ref" and z.get("id") == i for z in nodes(e))

    def step(e, s):
        k = e.get("k")
        if k == "Decl" and e["v"].get("id") == i:
            return "live" if (not vec and e["v"].get("i") and not (e["v"]["i"].get("k") == "ctor" and not e["v"]["i"].get("a"))) else "none"
        if k == "call":
            n = e.get("n")
            if n in ("push_back", "emplace_back") and ref(e.get("o")):
                return "live"
            if n in ("Join", "JoinAll", "Detach", "move") and any(ref(a) for a in e.get("a", ())):
                return "done"
            if n in ("join", "detach") and ref(e.get("o")):
                return "done"
            if n == "for_each" and any(ref(a) for a in e.get("a", ())) and any(a.get("k") == "lambda" and joins(a.get("body"), {}) for a in nodes(e.get("a", ()))):
                return "done"
        if k == "op" and e.get("op") == "=" and e["a"] and e["a"][0].get("k") == "ref" and e["a"][0].get("id") == i:
            return "live"
        return s

    class L(Flow):
        def s_FR(self, s, cur):
            # a loop over the whole collection that joins each element
            if vec and ref(s.get("r")) and joins(s.get("b"), (s.get("v") or {})):
                return self.out({"done" if y in ("live", "none") else y for y in self.ex(s.get("r"), cur)})
            return Flow.s_FR(self, s, cur)

        def s_If(self, s, cur):
            # `if (t.joinable()) ...`: a thread that cannot be joined has ended
            cc = s.get("c") or {}
            if cc.get("k") == "call" and cc.get("n") == "joinable" and ref(cc.get("o")):
                a = self.st(s.get("t"), cur)
                b = self.st(s.get("e"), {"done"} if cur else set())
                return {n: a[n] | b[n] for n in a}
            return Flow.s_If(self, s, cur)

    def throws(e):
        if e.get("k") not in ("call", "ctor", "op", "new") or X.defers(e):
            return None
        r = {}
        for g in X.targets(e) + X.made(e):
            r.update(X.fn(g))
        return sorted(r)

    fl = L(step, throws=throws, isa=lambda a, h: X.isa(a, h))
    o = fl.run(f, "none")
    bad = [s for n in ("end", "ret") for s in o[n] if s == "live"]
    c.ob(not bad, "%s waits for, or detaches, the threads it starts" % f["q"], c.at(f, v.get("l")), key="local %s" % f["q"])
    thr = sorted({str(cls) for cls, s in o["throw"] if s == "live"})
    c.ob(not thr, "no error leaves %s while a thread it started runs" % f["q"], c.at(f, v.get("l")), key="local throw %s" % f["q"], detail=", ".join(thr))


def joins(b, v):
    for y in nodes(b):
        if y.get("k") == "call" and (y.get("n") in ("join", "detach") or y.get("n") in ("Join", "Detach")):
            return True
    return False
