"""Lock discipline over the whole program: which locks each function may take (directly or through anything
it calls), which locks are held at each call site, and hence which lock may be waited for while which other
is held.  A thread is modelled as a resource its own code holds for as long as it runs and a join waits for,
so that waiting for a thread under a lock the thread needs is a cycle like any other.

A hold is (lock, mode, origin): lock is the protected type for Locked<T>, the member's name for a mutex, and
"thread:C" for the threads class C starts; mode is 'x' (exclusive) or 's' (shared); origin says how long it
lasts: ("v", id) a local, ("t",) a temporary, ("m", member) an owner's writer kept in a member."""
import re
from effects import nodes
from flow import Flow

GUARDS = re.compile(r"^std::(unique_lock|lock_guard|scoped_lock|shared_lock)<")
LOCKED = re.compile(r"^Locked<(.*)>::(Read|Write|BatchWrite)$")
HOLDER = re.compile(r"^(?:const )?(Reader|Writer)<(.*)>$")
SMART = re.compile(r"std::(?:shared_ptr|unique_ptr|weak_ptr)<(?:const )?([\w:<>]+)")
CONTROL = {"thread", "async"}


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren", "mat", "conv") or (isinstance(e, dict) and e.get("k") == "ctor" and (e.get("cm") or len(e.get("a", ())) == 1 and e["a"][0].get("t") == e.get("t"))):
        n = e.get("e") or (e.get("a") or [None])[0]
        if n is None:
            return e
        e = n
    return e


def mutex_of(e):
    """the mutex an expression names"""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e.get("k") == "mem":
        return e["q"]
    if e.get("k") == "ref":
        return e.get("q") or e.get("n")
    if e.get("k") in ("op", "un") and e.get("op") in ("*", "->"):
        return mutex_of((e.get("a") or [e.get("e")])[0])
    return None


def hold_type(t):
    m = HOLDER.match(t or "")
    return (m.group(2), "s" if m.group(1) == "Reader" else "x") if m else None


class Locks:
    def __init__(self, F, skip=lambda f: False):
        self.F = F
        self.fns = {u: f for u, f in F.fns.items() if f.get("body") and "Lockable.h" not in (f.get("file") or "") and not skip(f)}
        self.calls = 0
        self.sites = []                  # (fn, line, lock, mode) of every direct acquisition
        self._targets = {}
        self.derived = {}
        for r in F.recs.values():
            for b in r.get("bases", ()):
                n = b if isinstance(b, str) else b.get("t") or b.get("q")
                self.derived.setdefault(n, set()).add(r["q"])
        self.dtors = {}
        for f in F.fns.values():
            if f["n"].startswith("~") and f.get("body"):
                self.dtors.setdefault(f["q"].rsplit("::", 1)[0], f["u"])
        self.servers = set()             # classes whose objects run threads until they are destroyed
        self.threads = self.find_threads()
        self.handed = self.find_handover()
        self._df, self._owned, self._local = {}, {}, {}
        self.acq = {}                    # usr -> {(lock, mode, guard): witness chain}
        self.final = {}                  # usr of T::OnInitWrite... -> member holds of T
        self.owned = self.member_holds()
        self.solve()

    # -- program structure
    def subtypes(self, t):
        out, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += self.derived.get(x, ())
        return out

    def targets(self, u, virt=True):
        r = self._targets.get(u)
        if r is None:
            out, todo = set(), [u]
            while todo:
                x = todo.pop()
                if x in out:
                    continue
                out.add(x)
                if virt:
                    todo += self.F.overriders.get(x, ())
            r = self._targets[u] = [x for x in out if x in self.fns]
        return r

    def batch_hooks(self, t, names):
        """what making or ending a writer of T runs"""
        out = []
        for c in self.subtypes(t):
            for n in names:
                out += [f["u"] for f in self.F.byname.get(c + "::" + n, []) if f["u"] in self.fns]
        return out

    def find_threads(self):
        """thread resource -> functions it runs; a resource is the member a thread is kept in, or else the class"""
        out = {}
        for f in self.fns.values():
            kept = {}
            for e in nodes(f.get("body")):
                if e.get("k") == "op" and e.get("op") == "=" and e["a"][0].get("k") == "mem" and e["a"][0].get("t") == "std::thread":
                    for x in nodes(e["a"][1:]):
                        if x.get("k") == "ctor" and x.get("cls") == "std::thread":
                            kept[id(x)] = "thread:" + e["a"][0]["q"]
            for e in nodes([f.get("body"), [i.get("e") for i in f.get("inits", ())]]):
                if e.get("k") == "call" and e.get("n") == "AddMethod" and f.get("cls"):
                    # a server's own threads run the methods it is given
                    for x in nodes(e.get("a")):
                        t = x.get("at") if x.get("k") == "new" else (re.search(r"make_(?:shared|unique)<(?:class )?([\w:]+)", x.get("fn") or "") or [None, None])[1]
                        for c in self.subtypes(t) if t else ():
                            for h in self.F.byname.get(c + "::Handle", ()):
                                if h["u"] in self.fns:
                                    out.setdefault("thread:" + f["cls"], set()).add(h["u"])
                                    self.servers.add(f["cls"])
                if e.get("k") == "call" and e.get("n") == "AddListener" and f.get("cls") and not self.F.byname.get(f["cls"] + "::AddMethod"):
                    for x in nodes(e.get("a")):
                        if x.get("k") == "fref" and x.get("u") in self.fns:
                            out.setdefault("thread:" + f["cls"], set()).add(x["u"])
                            self.servers.add(f["cls"])
                if e.get("k") == "ctor" and e.get("cls") == "std::thread":
                    own = kept.get(id(e)) or "thread:" + (f.get("cls") or f["q"])
                    for x in nodes(e.get("a")):
                        if x.get("k") == "fref" and x.get("u") in self.fns:
                            out.setdefault(own, set()).add(x["u"])
        return out

    def find_handover(self):
        """(function, thread member) -> flag: the join follows `if (flag.exchange(true)) return`, so the thread
        it waits for has already cleared the flag, and only what it does after that matters"""
        out = {}
        for f in self.fns.values():
            joins = [strip(e["a"][0])["q"] for e in nodes(f.get("body")) if e.get("k") == "call" and e.get("fn") == "ThreadUtil::Join" and strip(e["a"][0]).get("k") == "mem"]
            if not joins:
                continue
            flagvars, top = {}, (f.get("body") or {}).get("s", ())
            won = None
            for st in top:
                if st.get("k") == "D":
                    for v in st["v"]:
                        x = strip(v.get("i") or {})
                        if isinstance(x, dict) and x.get("k") == "call" and x.get("n") == "exchange" and x["o"].get("k") == "mem" and str(strip(x["a"][0]).get("cv")) in ("1", "true"):
                            flagvars[v["id"]] = x["o"]["q"]
                elif st.get("k") == "If" and not st.get("e"):
                    c = strip(st.get("c"))
                    q = flagvars.get(c.get("id")) if c.get("k") == "ref" else c["o"]["q"] if c.get("k") == "call" and c.get("n") == "exchange" and c["o"].get("k") == "mem" and str(strip(c["a"][0]).get("cv")) in ("1", "true") else None
                    t = st.get("t") or {}
                    last = (t.get("s") or [t])[-1]
                    if q and last.get("k") in ("Ret",) or q and (last.get("e") or {}).get("k") == "throw":
                        won = q
                elif won:
                    for e in nodes(st):
                        if e.get("k") == "call" and e.get("fn") == "ThreadUtil::Join" and strip(e["a"][0]).get("k") == "mem":
                            out[(f["u"], strip(e["a"][0])["q"])] = won
        return out

    def tail(self, u, flag):
        """what a thread function may take once it has cleared the flag"""
        out = {}
        L = self
        f = self.fns[u]
        ev = {id(e): es for e, g, es in self.ev[u]}

        class W(Flow):
            def __init__(s):
                super().__init__(s.go)

            def go(s, e, y):
                if e.get("k") in ("op", "bin") and e.get("op") == "=" and strip(e["a"][0]).get("q") == flag and str(strip(e["a"][1]).get("cv")) in ("0", "false"):
                    return 1
                if y and id(e) in ev:
                    for kk, w in L.callee_acq(f, e, ev[id(e)]).items():
                        out.setdefault(kk, w)
                return y
        W().run(f, 0)
        return out

    def member_holds(self):
        """T -> locks its OnInitWrite leaves in members for the writer's lifetime"""
        out = {}
        for f in self.fns.values():
            if f["n"] != "OnInitWrite":
                continue
            T = f["q"].rsplit("::", 1)[0]
            for e in nodes(f["body"]):
                if e.get("k") == "op" and e.get("op") == "=" and e["a"][0].get("k") == "mem":
                    h = hold_type(e["a"][0].get("t"))
                    if h:
                        out.setdefault(T, {})[e["a"][0]["q"]] = h
        return out

    # -- held regions
    def holds_for(self, t, mode, origin):
        """taking Locked<T>: the lock itself, and what the object takes along with a writer"""
        hs = {(t, mode, origin)}
        if mode == "x":
            for c in self.subtypes(t):
                for m, (t2, m2) in self.owned.get(c, {}).items():
                    hs.add((t2, m2, ("m", m, origin)))
        return hs

    def taken(self, e):
        """(lock, mode, waits) an expression acquires itself"""
        k = e.get("k")
        if k == "call":
            m = LOCKED.match(e.get("fn") or "")
            if m and not any("adopt_lock" in (x.get("t") or "") for x in e.get("a", ())):
                return m.group(1), "s" if m.group(2) == "Read" else "x"
            o = e.get("o")
            if o is not None and "mutex" in (o.get("t") or "") and e.get("n") in ("lock", "lock_shared", "try_lock"):
                q = mutex_of(o)
                return (q, "s" if e["n"] == "lock_shared" else "x") if q else None
        if k == "ctor" and GUARDS.match(e.get("cls") or "") and e.get("a") and len(e["a"]) == 1:
            q = mutex_of(e["a"][0])
            if q:
                return q, "s" if "shared_lock" in e["cls"] else "x"
        return None

    def multi(self, e):
        """(lock, mode) of every lock a MultiLocker call takes at once"""
        if e.get("k") == "call" and re.match(r"MultiLocker::(Lock|BatchLock|LockShared)<", e.get("fn") or ""):
            return [(T, "s" if kind == "Reader" else "x") for kind, T in re.findall(r"\b(Reader|Writer)<((?:[^<>]|<[^<>]*>)*)>", e.get("t") or "")]
        return []

    def waited(self, f, e):
        """threads an expression waits for"""
        if e.get("k") == "call":
            n, fn = e.get("n"), e.get("fn") or ""
            if fn in ("ThreadUtil::Join", "ThreadUtil::JoinAll") or fn == "std::thread::join":
                x = strip((e.get("a") or [e.get("o")])[0] if fn != "std::thread::join" else e.get("o"))
                if isinstance(x, dict) and x.get("k") == "mem":
                    for c in ("thread:" + x["q"], "thread:" + x["q"].rsplit("::", 1)[0]):
                        if c in self.threads:
                            flag = self.handed.get((f["u"], x["q"]))
                            return {c + "/" + flag} if flag else {c}
        return set()

    def stopped(self, e):
        """server threads that what the expression destroys waits for"""
        out = set()
        for c in self.destroyed(e):
            self.dtor_fns(c)
            out |= {"thread:" + x for x in self._owned.get(c, ()) if x in self.servers}
        return out

    def destroyed(self, e):
        """classes whose destructor an expression may run"""
        k = e.get("k")
        t = None
        if k == "call" and e.get("o") is not None and e.get("n") in ("erase", "clear", "reset", "pop_back", "pop_front", "resize", "pop"):
            o = strip(e["o"])
            # a local container holds copies of what somebody else owns
            if not (o.get("k") == "ref" and o.get("d") == "local" and o.get("id") not in self.refs) and not (
                    e["n"] == "erase" and len(e.get("a", ())) == 1 and {x.get("id") for x in nodes(e["a"]) if x.get("k") == "ref"} & self.emptied):
                t = e["o"].get("t")
        elif k == "op" and e.get("op") == "=" and e.get("a") and strip(e["a"][0]).get("k") == "mem":
            t = e["a"][0].get("t")
        elif k == "del":
            t = (e.get("e") or {}).get("t")
        return self.classes_in(t)

    def classes_in(self, t):
        out = set()
        for x in SMART.findall((t or "").replace("weak_ptr<", "")):
            while x.count(">") > x.count("<"):
                x = x[:x.rindex(">")]
            if not re.match(r"I[A-Z]\w*$", x):      # a service of the application outlives what refers to it
                out |= self.subtypes(x)
        return out

    def callee_acq(self, f, e, es=None):
        """(lock, mode, guard) -> chain, for everything the expression may take, directly or in callees"""
        out = {}
        self.look_at(f)
        t = self.taken(e)
        if t:
            out[(t[0], t[1], None)] = ()
        for l, m in self.multi(e):
            out[(l, m, None)] = ()
        for x in self.waited(f, e) | self.stopped(e):
            out[(x, "x", None)] = ()
        for u in self.edges_of(e) if es is None else es:
            for kk, w in self.acq.get(u, {}).items():
                out.setdefault(kk, (u,) + w)
        return out

    # -- fixpoint over functions
    def solve(self):
        self.ev = {u: self.events(f) for u, f in self.fns.items()}
        callers = {}
        for u, evs in self.ev.items():
            for e, g, es in evs:
                for v in es:
                    callers.setdefault(v, set()).add(u)
        self.callers = callers
        work = set(self.fns)
        n = 0
        while work:
            u = work.pop()
            new = self.summary(self.fns[u])
            old = self.acq.get(u)
            if old is None:
                self.acq[u] = old = {}
            grew = False
            for k, w in new.items():
                if k not in old:
                    old[k] = w
                    grew = True
            if grew:
                work |= callers.get(u, set())
            n += 1
        self.rounds = n

    def edges_of(self, e):
        """functions an expression may run"""
        k = e.get("k")
        r = []
        if k in ("call", "op", "conv") and e.get("u"):
            r = list(self.targets(e["u"]))
            if k == "call":
                m = LOCKED.match(e.get("fn") or "")
                for T in [m.group(1)] if m and m.group(2) != "Read" else [T for T, mo in self.multi(e) if mo == "x"]:
                    r += self.batch_hooks(T, ("OnInitWrite", "Commit", "Rollback", "OnEndWrite"))
                if e.get("n") in ("make_shared", "make_unique"):
                    m = SMART.search(e.get("t") or "")
                    if m:
                        r += [x["u"] for x in self.F.byname.get(m.group(1) + "::" + m.group(1).split("::")[-1], []) if x["u"] in self.fns]
        elif k == "ctor" and e.get("u") in self.fns:
            r = [e["u"]]
        for c in self.destroyed(e):
            r += self.dtor_fns(c)
        return r

    def dtor_fns(self, c):
        """destructors that destroying a C runs: its own and those of what it owns"""
        if c not in self._df:
            out, seen, todo = [], set(), [c]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if self.dtors.get(x) in self.fns:
                    out.append(self.dtors[x])
                for m in (self.F.recs.get(x) or {}).get("fields", ()):
                    t = m.get("t") or ""
                    if not m.get("isref") and "&" not in t:
                        todo += self.classes_in(t) | ({t} & set(self.F.recs))
            self._df[c] = out
            self._owned[c] = seen
        return self._df[c]

    def look_at(self, f):
        r = self._local.get(f["u"])
        if r is None:
            # iterators whose element was moved out before it is erased
            emptied = {y.get("id") for x in nodes(f.get("body")) if x.get("k") == "call" and x.get("fn", "").startswith("std::move") and not x.get("o")
                       for y in nodes(x.get("a")) if y.get("k") == "ref" and y.get("d") == "local" and "iterator" in (y.get("t") or "")}
            refs = {v.get("id") for d in nodes(f.get("body")) if d.get("k") == "D" for v in d.get("v", ()) if v.get("isref")}
            r = self._local[f["u"]] = refs, emptied
        self.refs, self.emptied = r

    def events(self, f):
        """expressions of f that matter, with the null-writer guard they are under"""
        out = []
        self.look_at(f)

        def visit(x, guard):
            if isinstance(x, list):
                for y in x:
                    visit(y, guard)
                return
            if not isinstance(x, dict):
                return
            k = x.get("k")
            if k == "If":
                g = self.null_guard(x.get("c"))
                for kk in ("init", "cvar", "c", "e"):
                    visit(x.get(kk), guard)
                visit(x.get("t"), g or guard)
                return
            if k == "ctor" and x.get("cls") == "std::thread":
                for y in x.get("a", ()):
                    if y.get("k") == "lambda" or any(z.get("k") == "lambda" for z in nodes(y)):
                        visit(y, guard)
                return                   # a function handed over runs elsewhere: see find_threads
            es = self.edges_of(x)
            if es or self.taken(x) or self.multi(x) or self.waited(f, x) or self.stopped(x):
                out.append((x, guard, es))
            for y in x.values():
                if isinstance(y, (dict, list)):
                    visit(y, guard)
        visit(f.get("body"), None)
        for i in f.get("inits", ()):
            visit(i.get("e"), None)
        return out

    def summary(self, f):
        out = {}
        for e, guard, es in self.ev[f["u"]]:
            for kk, w in self.callee_acq(f, e, es).items():
                if kk[2] == "proto" and self.old_format(f):
                    continue
                if f["n"].startswith("~") and kk[0].rsplit("::", 1)[0] == f["q"].rsplit("::", 1)[0]:
                    continue             # nobody else can hold the lock of an object being destroyed
                out.setdefault((kk[0], kk[1], guard if guard == "proto" else kk[2] or guard), w)
        return out

    def old_format(self, f):
        """stored blocks are read in the format that carries the output features (checked separately)"""
        return f["q"].startswith("RocksDB::Get")

    def null_guard(self, c):
        """member m of a condition `m.IsNull()`"""
        c = strip(c)
        if isinstance(c, dict) and c.get("k") == "bin" and c.get("op") == ">=" and strip(c["a"][0]).get("n") == "GetProtocolVersion" and strip(c["a"][1]).get("q") == "EProtocolVersion::V3":
            return "proto"
        if isinstance(c, dict) and c.get("k") == "call" and c.get("n") == "IsNull" and isinstance(c.get("o"), dict) and c["o"].get("k") == "mem":
            return c["o"]["q"]
        return None

    def only_from(self, names):
        """the named functions and the helpers nothing else calls"""
        out = {u for u, f in self.fns.items() if f["q"] in names}
        run = {u for us in self.threads.values() for u in us}
        while True:
            new = {u for u in self.fns if u not in out and u not in run and self.callers.get(u) and self.callers[u] <= out and not self.F.overriders.get(u) and not self.fns[u].get("virt")}
            if not new:
                return out
            out |= new

    # -- what is waited for while what is held
    def order(self, skip=()):
        """{(held, mode) -> {(wanted, mode): (fn, line, chain)}} over every function"""
        self.edges = {}
        self.evid = {id(e): es for evs in self.ev.values() for e, g, es in evs}
        for u, f in self.fns.items():
            if self.acq.get(u) and u not in skip:
                self.walk(f)
        for (fu, m), flag in self.handed.items():
            c = "thread:" + m if "thread:" + m in self.threads else "thread:" + m.rsplit("::", 1)[0]
            for u in self.threads.get(c, ()):
                for (l, mo, g), w in self.tail(u, flag).items():
                    self.edges.setdefault((c + "/" + flag, "x"), {}).setdefault((l, mo), (self.fns[u], self.fns[u].get("l"), (u,) + w))
        # a thread holds itself while its code runs
        for t, us in self.threads.items():
            for u in us:
                for (l, m, g), w in self.acq.get(u, {}).items():
                    if not l.startswith("thread:"):
                        self.edges.setdefault((t, "x"), {}).setdefault((l, m), (self.fns[u], self.fns[u].get("l"), (u,) + w))
        return self.edges

    def walk(self, f, start=frozenset(), body=None):
        L = self

        class W(Flow):
            def __init__(s):
                super().__init__(s.go, leave=s.scope)
                s.d = 0

            def drop(s, cur):
                return {frozenset(h for h in y if h[2][0] != "t" and not (h[2][0] == "m" and h[2][2][0] == "t")) for y in cur}

            def s_E(s, x, cur):
                return s.out(s.drop(s.ex(x.get("e"), cur)))

            def s_Ret(s, x, cur):
                o = s.out()
                o["ret"] = s.drop(s.ex(x.get("e"), cur))
                return o

            def split(s, c, cur):
                s.d += 1
                r = Flow.split(s, c, cur)
                s.d -= 1
                return r if s.d else (s.drop(r[0]), s.drop(r[1]))

            def s_D(s, x, cur):
                r = Flow.s_D(s, x, cur)
                return s.out(s.drop(r["fall"]))

            def s_FR(s, x, cur):
                cur = s.drop(s.ex(x.get("r"), cur))
                return Flow.s_FR(s, dict(x, r=None), cur)

            def s_If(s, x, cur):
                o = Flow.s_If(s, x, cur)
                ids = s.declared([x.get("init"), x.get("cvar")])
                return {n: {s.without(y, ids) for y in v} for n, v in o.items()} if ids else o

            def declared(s, xs):
                ids = set()
                for x in xs:
                    if isinstance(x, dict):
                        for v in x.get("v", ()) if x.get("k") == "D" else [x] if "id" in x else ():
                            ids.add(v.get("id"))
                return ids

            def without(s, y, ids):
                if not y:
                    return y
                return frozenset(h for h in y if not (h[2][0] == "v" and h[2][1] in ids or h[2][0] == "m" and h[2][2][0] == "v" and h[2][2][1] in ids))

            def scope(s, x, y):
                if x.get("k") != "C":
                    return y
                ids = s.declared(x.get("s", ()))
                return s.without(y, ids) if ids else y

            def go(s, e, y):
                k = e.get("k")
                if L.watch and k == "mem" and e.get("q") in L.watch:
                    d = L.seen.setdefault(id(e), [e, f, None])
                    h = frozenset((x[0], x[1]) for x in y)
                    d[2] = h if d[2] is None else d[2] & h
                if k == "Decl":
                    v = e["v"]
                    h = hold_type(v.get("t"))
                    if h:
                        out = set()
                        src = strip(v.get("i") or {})
                        copied = None
                        if isinstance(src, dict) and src.get("k") == "ref":
                            copied = src.get("id")
                        for x in y:
                            o = x[2]
                            if o[0] == "t" and x[0] == h[0]:
                                out.add((x[0], x[1], ("v", v.get("id"))))
                            elif o[0] == "m" and o[2][0] == "t":
                                out.add((x[0], x[1], ("m", o[1], ("v", v.get("id")))))
                            else:
                                out.add(x)
                            if copied is not None and o == ("v", copied):
                                out.add((x[0], x[1], ("v", v.get("id"))))
                        return frozenset(out)
                    if GUARDS.match(v.get("t") or ""):
                        return frozenset((x[0], x[1], ("v", v.get("id"))) if x[2] == ("t", "g") else x for x in y)
                    if (v.get("t") or "").startswith("std::tuple<") and re.search(r"\b(Reader|Writer)<", v["t"]):
                        out = set(y)
                        for kind, T in re.findall(r"\b(Reader|Writer)<((?:[^<>]|<[^<>]*>)*)>", v["t"]):
                            out |= L.holds_for(T, "s" if kind == "Reader" else "x", ("v", v.get("id")))
                        return frozenset(out)
                    return y
                if k == "ForEach":
                    return y
                if k == "lambda":
                    L.walk(f, frozenset(y), e.get("body"))
                    return y
                # an obligation: nothing taken here may be held in a conflicting way
                if L.calling is not None and k in ("call", "op") and e.get("u") in L.calling:
                    h = frozenset((x[0], x[1]) for x in y)
                    own = L.fns[e["u"]].get("cls")
                    base = re.sub(r"<.*$", "", own or "?").split("::")[-1]
                    if not (own and f.get("cls") == own and (f["n"].startswith("~") or f["n"] == base)):
                        L.calling[e["u"]].append((f["u"], h))        # nobody else has an object being built or destroyed
                if id(e) not in L.evid:
                    return y if k != "op" and k != "call" else s.move(e, y)
                got = L.callee_acq(f, e, L.evid[id(e)])
                if got:
                    L.calls += 1
                for (l, m, g), w in got.items():
                    if g and any(h[2][0] == "m" and h[2][1] == g for h in y):
                        continue         # the owner already has it for this writer
                    for h in y:
                        if h[0] == l and (h[1] == "s" and m == "s" or "recursive" in L.kind(l)):
                            continue
                        L.edges.setdefault((h[0], h[1]), {}).setdefault((l, m), (f, e.get("l"), w))
                for l, m in L.multi(e):
                    L.sites.append((f, e.get("l"), l, m))
                t = L.taken(e)
                if t:
                    L.sites.append((f, e.get("l"), t[0], t[1]))
                    if k == "ctor":
                        return y | {(t[0], t[1], ("t", "g"))}
                    if LOCKED.match(e.get("fn") or ""):
                        return frozenset(y | L.holds_for(t[0], t[1], ("t",)))
                    return y | {(t[0], t[1], ("x", t[0]))}
                if k in ("call", "op") and (h := hold_type(e.get("t"))) and e.get("repo") and not (e.get("fn") or "").startswith(("Locked<", "std::")):
                    # a helper that returns the hold
                    return frozenset(y | L.holds_for(h[0], h[1], ("t",)))
                return s.move(e, y)

            def move(s, e, y):
                k = e.get("k")
                if k == "call" and e.get("o") is not None:
                    o = strip(e["o"])
                    if e.get("n") in ("unlock", "Clear", "unlock_shared", "release") and isinstance(o, dict):
                        if o.get("k") == "ref":
                            return s.without(y, {o.get("id")})
                        q = mutex_of(o)
                        return frozenset(h for h in y if not (h[2] == ("x", q) or h[2][0] == "mw" and h[2][1] == q))
                if k == "op" and e.get("op") == "=" and e.get("a") and e["a"][0].get("k") == "ref" and hold_type(e["a"][0].get("t")):
                    y = s.without(y, {e["a"][0].get("id")})
                    i = e["a"][0].get("id")
                    return frozenset((x[0], x[1], ("v", i)) if x[2][0] == "t" else x for x in y)
                return y

        w = W()
        if body is not None:
            w.st(body, {frozenset(start)})
        else:
            w.run(f, frozenset(start))

    watch, calling = None, None

    def accesses(self, fields):
        """[(node, function, locks certainly held)] for every use of the fields; a function that is not public
        is entered with what every call of it holds"""
        self.edges, self.evid = {}, {id(e): es for evs in self.ev.values() for e, g, es in evs}
        use = {}
        for u, f in self.fns.items():
            if any(e.get("k") == "mem" and e.get("q") in fields for e in nodes([f.get("body"), [i.get("e") for i in f.get("inits", ())]])):
                use[u] = f
        # private helpers, and what reaches them
        todo, priv = list(use), set()
        while todo:
            u = todo.pop()
            if u in priv or self.fns[u].get("acc", 0) == 0 and self.fns[u].get("cls") or u in self.threads:
                continue
            priv.add(u)
            todo += [v for v in self.callers.get(u, ()) if v not in priv]
        entry = {u: None for u in priv}
        todo = None
        for _ in range(12):
            self.calling = {u: [] for u in priv}
            self.seen, self.watch = {}, set(fields)
            fs = {v for u in priv for v in self.callers.get(u, ())} | set(use)
            for u in fs:
                f = self.fns[u]
                h = entry.get(u) or frozenset()
                self.walk(f, frozenset((l, m, ("entry",)) for l, m in h))
            new = {}
            for u in priv:
                hs = [h for v, h in self.calling[u]]
                new[u] = frozenset.intersection(*hs) if hs else frozenset()
            if new == entry:
                break
            entry = new
        self.watch = self.calling = None
        return [(e, f, h) for e, f, h in self.seen.values()]

    def kind(self, l):
        if not hasattr(self, "_kind"):
            self._kind = {}
            for r in self.F.recs.values():
                for m in r.get("fields", ()):
                    if "mutex" in (m.get("t") or ""):
                        self._kind[m["q"]] = m["t"]
        return self._kind.get(l, "")

    def chain(self, w):
        return " -> ".join(self.fns[u]["q"] for u in w if u in self.fns)

    # -- what is reached through a guard stays under it
    def escapes(self):
        """[(fn, line, text, lock)] references into what a temporary guard protects that outlive the guard"""
        out = []

        def guarded(e, depth=0):
            """the lock of a temporary guard that e refers into"""
            while isinstance(e, dict) and depth < 12:
                depth += 1
                k = e.get("k")
                if k == "call":
                    m = LOCKED.match(e.get("fn") or "")
                    if m:
                        return m.group(1)
                    if e.get("n") in ("GetShared", "get", "operator->", "operator*") or refret(e):
                        e = e.get("o")
                        continue
                    return None
                if k == "op" and e.get("op") in ("*", "->", "[]"):
                    e = e["a"][0]
                elif k == "un" and e.get("op") in ("*", "&"):
                    e = e.get("e") or e["a"][0]
                elif k == "mem":
                    e = e.get("b")
                elif k in ("cast", "paren", "mat", "conv"):
                    e = e.get("e") or e.get("o")
                elif k == "ctor" and (e.get("cm") or "shared_ptr" in (e.get("cls") or "") or "Reader" in (e.get("cls") or "")):
                    return None          # a copy
                else:
                    return None
            return None

        def refret(e):
            rs = {self.F.fns[u].get("ret") or "" for u in self.targets(e["u"])} if e.get("u") else set()
            r = self.F.fns.get(e.get("u"))
            if r:
                rs.add(r.get("ret") or "")
            if rs:
                return any(t.rstrip().endswith(("&", "*")) for t in rs)
            return e.get("o") is not None and e.get("n") in ("front", "back", "at", "begin", "end", "cbegin", "cend", "find", "data", "value")

        n = 0
        for f in self.fns.values():
            for x in nodes(f.get("body")):
                e = None
                if x.get("k") == "D":
                    for v in x.get("v", ()):
                        if v.get("isref") or (v.get("t") or "").rstrip().endswith(("&", "*")) or "iterator" in (v.get("t") or ""):
                            n += 1
                            g = guarded(v.get("i"))
                            if g:
                                out.append((f, x.get("l") or v["i"].get("l"), v.get("n"), g))
                elif x.get("k") == "FR":
                    n += 1
                    g = guarded(x.get("r"))
                    if g and not (x["r"].get("k") == "ctor"):
                        out.append((f, x.get("l") or x["r"].get("l"), "the range of a loop", g))
                elif x.get("k") == "Ret" and (f.get("ret") or "").rstrip().endswith(("&", "*")):
                    n += 1
                    g = guarded(x.get("e"))
                    if g:
                        out.append((f, x.get("l"), "what is returned", g))
        return out, n
