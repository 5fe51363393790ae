"""Which exceptions may leave a function: whole-program, flow-insensitive over each body, precise about
try blocks and handler types.  Explicit `throw` expressions of the analysed sources are the sources;
calls propagate to every possible target (overriders, lambdas called or handed to a call, constructors
run by make_shared/make_unique)."""
import re
from engine import sname
from effects import nodes

STD = {"std::runtime_error": "std::exception", "std::logic_error": "std::exception", "std::bad_alloc": "std::exception",
       "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
       "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
       "std::underflow_error": "std::runtime_error", "std::system_error": "std::runtime_error", "std::bad_optional_access": "std::exception",
       "std::bad_variant_access": "std::exception", "std::bad_cast": "std::exception", "std::bad_function_call": "std::exception",
       "ghc::filesystem::filesystem_error": "std::system_error", "std::filesystem::filesystem_error": "std::system_error",
       "std::ios_base::failure": "std::system_error", "Json::Exception": "std::exception", "Json::RuntimeError": "Json::Exception", "Json::LogicError": "Json::Exception"}


def clean(t):
    return re.sub(r"^const |\s*[&*]+$|\s*const$", "", (t or "").strip()).strip()


class Escape:
    def __init__(self, F, also=None):
        self.F = F
        self.also = also or (lambda e: None)       # external calls that throw: e -> class or None
        self.memo, self.stack = {}, {}
        self.lams = {}

    def bases(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            r = self.F.recs.get(x)
            if r:
                todo += list(r.get("bases", ()))
            if x in STD:
                todo.append(STD[x])
        return out

    def isa(self, c, h):
        h = clean(h)
        return h in ("", "...") or h in self.bases(c)

    def targets(self, e):
        F, u, r = self.F, e.get("u"), []
        f = F.fns.get(u)
        if f is not None and (f.get("body") or f.get("inits")):
            r.append(f)
        if e.get("virt") or (u in F.methods and F.methods[u][1].get("virt")) or u in F.overriders:
            todo, seen = [u], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                g = F.fns.get(x)
                if g is not None and g is not f and g.get("body"):
                    r.append(g)
                todo += list(F.overriders.get(x, ()))
        if not r and e.get("repo") and e.get("fn"):
            r += [g for g in F.byname.get(e["fn"], ()) if g.get("body") and len(g.get("ps", ())) == len(e.get("a", ()))]
        return r

    def made(self, e):
        """constructors run by make_shared<T>(...) / make_unique<T>(...) / emplace..."""
        if e.get("n") not in ("make_shared", "make_unique"):
            return []
        m = re.match(r"(?:std::)?(?:shared_ptr|unique_ptr)<(.*?)(?:, std::default_delete<.*)?>$", re.sub(r"^const ", "", e.get("t", "")))
        if not m:
            return []
        c = clean(m.group(1))
        short = sname(c).split("::")[-1]
        return [g for g in self.F.byname.get(c + "::" + short, ()) if len(g.get("ps", ())) >= len(e.get("a", ()))]

    def fn(self, f):
        """{class: (path...)} exceptions leaving f"""
        i = id(f)
        if i in self.memo:
            return self.memo[i]
        if f.get("nothrow_std"):
            return {}
        # fixpoint over recursion
        self.memo[i] = {}
        while True:
            lam = {}
            r = {}
            for ini in f.get("inits", ()):
                self.ex(ini.get("e"), r, f, lam)
            self.st(f.get("body"), r, f, lam)
            if set(r) == set(self.memo[i]):
                break
            self.memo[i] = r
            if not self.recursive(f):
                break
        return self.memo[i]

    def recursive(self, f):
        return f["q"] in {e.get("fn") for e in nodes(f.get("body")) if e.get("k") == "call"}

    def add(self, r, c, path):
        if c not in r:
            r[c] = path

    def st(self, s, r, f, lam, cur=None):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.st(x, r, f, lam, cur)
            return
        if not isinstance(s, dict):
            return
        if s.get("k") == "Try":
            inner = {}
            self.st(s.get("b"), inner, f, lam, cur)
            for h in s["h"]:
                got = {c: p for c, p in inner.items() if self.isa(c, h.get("t") or "")}
                inner = {c: p for c, p in inner.items() if c not in got}
                # what a handler for a base class may hold: `throw;` passes it on
                self.st(h.get("b"), r, f, lam, got or ({clean(h.get("t")) or "...": (self.at(f, h.get("b") or {}),)}))
            for c, p in inner.items():
                self.add(r, c, p)
            return
        if s.get("k") in EXPR:
            self.ex(s, r, f, lam, cur)
            return
        if s.get("k") == "D":
            for v in s.get("v", ()):
                if isinstance(v, dict) and isinstance(v.get("i"), dict):
                    l = v["i"]
                    while l.get("k") == "cast" or (l.get("k") in ("ctor", "conv") and len(l.get("a", ())) == 1):
                        l = l["e"] if l.get("k") == "cast" else l["a"][0]
                    if l.get("k") == "lambda":
                        lam[v.get("id")] = l
                        continue
                    self.ex(v["i"], r, f, lam, cur)
            return
        for k, v in s.items():
            if isinstance(v, (dict, list)):
                self.st(v, r, f, lam, cur)

    def at(self, f, e):
        return "%s (%s:%s)" % (f["q"], f.get("file", f.get("f", "?")), e.get("l", f.get("l")))

    def ex(self, e, r, f, lam, cur=None):
        if e is None:
            return
        if isinstance(e, list):
            for x in e:
                self.ex(x, r, f, lam, cur)
            return
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k == "lambda":
            return            # runs where it is called
        if k == "throw":
            if e.get("e"):
                c = clean(e["e"].get("cls") or e["e"].get("t"))
                self.add(r, c, (self.at(f, e),))
                self.ex(e["e"], r, f, lam, cur)
            else:
                for c, p in (cur or {}).items():
                    self.add(r, c, p)
            return
        if k in ("call", "ctor", "op", "new"):
            deferred = self.defers(e)
            if not deferred:
                for g in (self.targets(e) + self.made(e)) if (e.get("u") or e.get("n")) else []:
                    for c, p in self.fn(g).items():
                        self.add(r, c, (self.at(f, e),) + p)
                x = self.also(e)
                if x:
                    self.add(r, x, ("%s: %s" % (self.at(f, e), e.get("fn") or e.get("n")),))
                # lambdas handed to the call, or the lambda being called
                for a in list(e.get("a", ())) + ([e["o"]] if isinstance(e.get("o"), dict) else []):
                    l = a
                    while isinstance(l, dict) and (l.get("k") == "cast" or l.get("k") in ("ctor", "conv") and len(l.get("a", ())) == 1):
                        l = l["e"] if l.get("k") == "cast" else l["a"][0]
                    if isinstance(l, dict) and l.get("k") == "ref" and l.get("id") in lam:
                        l = lam[l["id"]]
                    if isinstance(l, dict) and l.get("k") == "lambda":
                        self.st(l.get("body"), r, f, lam, cur)
        for kk, v in e.items():
            if isinstance(v, (dict, list)):
                self.ex(v, r, f, lam, cur)

    def defers(self, e):
        """the callable handed over runs later, on another stack"""
        if e.get("k") == "ctor":
            return bool(re.match(r"(std::thread|std::function|asio::)", e.get("cls", "")))
        n = e.get("n", "")
        if e.get("k") == "call" and n in ("emplace_back", "push_back", "emplace") and "std::thread" in ((e.get("o") or {}).get("t") or ""):
            return True
        return e.get("k") == "call" and (n.startswith("async_") or n in ("bind", "post", "dispatch", "defer", "ref", "cref"))


EXPR = {"call", "op", "ctor", "new", "mem", "ref", "bin", "un", "cast", "cond", "sub", "lambda", "throw", "str", "lit", "enumc", "ilist", "conv", "this", "fref", "mref", "flt", "null", "zero", "other", "del", "typeid"}


def callable_of(e, f=None):
    """functions or lambdas a callable expression designates"""
    l = e
    while isinstance(l, dict) and l.get("k") in ("cast", "un", "conv") or (isinstance(l, dict) and l.get("k") == "ctor" and len(l.get("a", ())) == 1):
        l = l.get("e") if l.get("e") is not None else (l.get("a") or [None])[0]
    if not isinstance(l, dict):
        return []
    if l.get("k") in ("lambda", "fref"):
        return [l]
    if l.get("k") == "call" and l.get("n") == "bind" and l.get("a"):
        return callable_of(l["a"][0])
    if l.get("k") == "ref" and f is not None:
        for d in nodes(f.get("body")):
            if d.get("k") == "D":
                for v in d.get("v", ()):
                    if isinstance(v, dict) and v.get("id") == l.get("id") and isinstance(v.get("i"), dict):
                        return callable_of(v["i"], None)
    return []


def entries(F):
    """(kind, registering function, node, callable node) for everything that starts on a fresh stack"""
    for f in list(F.fns.values()):
        for e in nodes([f.get("body"), [i.get("e") for i in f.get("inits", ())]]):
            k = e.get("k")
            if k == "ctor" and e.get("cls") == "std::thread" and e.get("a"):
                for cl in callable_of(e["a"][0], f):
                    yield "thread", f, e, cl
            elif k == "call" and e.get("n") in ("emplace_back", "push_back") and "vector<std::thread" in ((e.get("o") or {}).get("t") or "") and e.get("a"):
                for cl in callable_of(e["a"][0], f):
                    yield "thread", f, e, cl
            elif k == "call" and (e.get("n", "").startswith("async_") or e.get("n") in ("post", "dispatch", "defer") and "asio" in e.get("fn", "")):
                for a in e.get("a", ()):
                    for cl in callable_of(a, f):
                        yield "asio", f, e, cl
            elif k == "call" and e.get("n") in ("mg_set_request_handler", "AddListener"):
                for a in e.get("a", ()):
                    for cl in callable_of(a, f):
                        yield "http", f, e, cl
            elif k == "call" and e.get("fn") in ("signal", "std::signal"):
                for a in e.get("a", ())[1:]:
                    for cl in callable_of(a, f):
                        yield "signal", f, e, cl
