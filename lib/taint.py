"""Where secret values may flow: whole-program, flow-insensitive within a function, with function
summaries (result, object and reference arguments in terms of the parameters).  A value is secret when
its type says so; it stays secret through copies, encodings and containers, and stops being secret only
through the functions listed as one-way."""
import re
from engine import sname
from effects import nodes, is_this
from escape import clean

S = "S"
THIS = "this"
ARITH = re.compile(r"^(const )?(volatile )?(unsigned |signed )?(int|long|short|long long|bool|float|double|size_t|uint\d+_t|int\d+_t|unsigned|void|std::chrono::.*|std::thread.*|std::nullptr_t|std::_Ios.*)$")
EMPTY = frozenset()
PTR = re.compile(r"(?:const )?(?:std::)?(?:shared|unique)_ptr<(?:const )?([^<>]*(?:<.*>)?)>$")


def kls(ty):
    """the class of an object or of what a pointer to it points to"""
    c = clean(ty or "")
    m = PTR.match(c)
    return clean(m.group(1)) if m else c
CMP = {"==", "!=", "<", ">", "<=", ">=", "-"}
# plain data: a value of such a type may hold (an encoding of) a secret.  Other classes hold secrets field by field.
DATA = re.compile(r"\bchar\b|basic_string|Json::Value|\bSerializer\b|\bByteBuffer\b|CBigInteger|BlindingFactor|basic_[io]?stringstream|basic_[io]?stream|\bfmt::|uint8_t|std::byte|RPC::(Response|Request|Error)|JSONReader|\bpath\b|\w+Exception\b|std::(exception\b|\w+_error\b|invalid_argument|out_of_range)|GrinStr|std::initializer_list|void \*")


class Taint:
    def __init__(self, F, secret, oneway, sink, back=None, skip=None, cut=None, mute=None, public=None):
        """secret(type) -> bool; oneway(call) -> bool: the result is public; sink(call) -> [(what, argument index or 'o')]
        back(type): a value put into such a type was secret before, too"""
        self.F, self.secret_t, self.oneway, self.sink = F, secret, oneway, sink
        self.back = back or (lambda t: False)
        self.public = public or (lambda t: False)
        self.mute = mute or (lambda e: False)
        self.cut = cut or (lambda e: False)
        self.skip = skip or (lambda f: False)
        self.sum = {}           # usr -> summary
        self.hits = {}          # (function, line, what) -> text
        self.sites = 0
        self._st, self._dt, self._bs = {}, {}, {}
        self.cur, self.spec = None, {}
        self.fns = [f for f in F.fns.values() if (f.get("body") or f.get("inits")) and not self.skip(f)]
        self.recf = {}
        self.fieldS = set()     # fields of other classes that hold a secret
        self.readers = {}
        for r in F.recs.values():
            for x in r.get("fields", ()):
                self.recf[x["q"]] = x
        for f in self.fns:
            for e in nodes([f.get("body"), [i.get("e") for i in f.get("inits", ())]]):
                if e.get("k") == "mem":
                    self.readers.setdefault(e["q"], set()).add(f["u"])

    def sec(self, ty):
        r = self._st.get(ty)
        if r is None:
            r = self._st[ty] = bool(ty) and self.secret_t(ty) and not re.search(r"\b(pair|\w*map|deque|tuple|_Node\w*|_Rb_tree\w*|ConcurrentQueue)<", ty)
        return r

    def targets(self, e):
        F, u, r = self.F, e.get("u"), []
        f = F.fns.get(u)
        if f is not None and (f.get("body") or f.get("inits")):
            r.append(f)
        if e.get("virt") or u in F.overriders:
            todo, seen = [u], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                g = F.fns.get(x)
                if g is not None and g is not f and g.get("body"):
                    r.append(g)
                todo += list(F.overriders.get(x, ()))
        return [g for g in r if not self.skip(g)]

    def solve(self):
        self.deps = {}
        todo = [(f["u"], ()) for f in self.fns]
        self.inq, self.todo = set(todo), todo
        self.by = {f["u"]: f for f in self.fns}
        n = 0
        while todo:
            key = todo.pop(0)
            self.inq.discard(key)
            n += 1
            self.again = set()
            new = self.function(self.by[key[0]], key[1])
            for u in self.again:
                for k in [k for k in list(self.sum) + [(u, ())] if k[0] == u]:
                    self.push(k)
            if new != self.sum.get(key):
                self.sum[key] = new
                for c in self.deps.get(key, ()):
                    self.push(c)
        self.steps = n
        return self

    def push(self, k):
        if k not in self.inq and k[0] in self.by:
            self.inq.add(k)
            self.todo.append(k)

    def bases(self, c):
        r = self._bs.get(c)
        if r is None:
            r = self._bs[c] = [c]
            for b in (self.F.recs.get(c) or {}).get("bases", ()):
                r += [x for x in self.bases(b) if x not in r]
        return r

    def narrow(self, T, c):
        """of the bodies a virtual call may run, those for an object of class c"""
        d = [g for g in T if c in self.bases(g.get("cls") or "")]
        if not any(g.get("cls") == c for g in d):
            for b in self.bases(c)[1:]:
                x = [g for g in T if g.get("cls") == b]
                if x:
                    d += x
                    break
        return d or T

    def through(self, e):
        while isinstance(e, dict):
            if e.get("k") in ("cast", "un", "paren"):
                e = e.get("e") or {}
            elif e.get("k") == "op" and e.get("op") in ("->", "*") and len(e.get("a", ())) == 1:
                e = e["a"][0]
            elif e.get("k") == "call" and e.get("n") == "get" and e.get("o") is not None and PTR.match(clean(e["o"].get("t") or "")):
                e = e["o"]
            elif e.get("k") == "ctor" and len(e.get("a", ())) == 1 and PTR.match(clean(e.get("t") or "")) and PTR.match(clean(e["a"][0].get("t") or "")):
                e = e["a"][0]
            else:
                break
        return e if isinstance(e, dict) else {}

    def klass(self, e):
        """the most specific class known for an object expression"""
        x = self.through(e)
        if x.get("k") == "this":
            return self.spec.get(THIS) or clean(self.f.get("cls") or "")
        if x.get("k") == "ref" and self.pidx.get(x.get("id")) in self.spec:
            return self.spec[self.pidx[x["id"]]]
        c = kls(e.get("t") or "")
        d = kls(x.get("t") or "")
        return d if c != d and c in self.bases(d) else c

    def specialise(self, g, o, args, isct):
        """the class of the object and of arguments passed as one of their bases"""
        r = []
        if o is not None and not isct and not g.get("static"):
            c, b = self.klass(o), clean(g.get("cls") or "")
            if c != b and b in self.bases(c):
                r.append((THIS, c))
        for i, p in enumerate(g["ps"]):
            b = kls(p["t"])
            if i < len(args) and b in self.F.recs and (p["t"].rstrip().endswith(("&", "*")) or PTR.match(clean(p["t"]))) and isinstance(args[i], dict):
                c = self.klass(args[i])
                if c != b and b in self.bases(c):
                    r.append((i, c))
        return tuple(r)

    def holds_t(self, ty):
        return self.secret_t(re.sub(r"\b(pair|map|unordered_map|multimap|deque|queue|tuple)<", "x<", ty))

    def data(self, ty):
        r = self._dt.get(ty)
        if r is None:
            r = self._dt[ty] = bool(ty) and not self.public(ty) and not ARITH.match(ty) and bool(DATA.search(ty))
        return r

    def summary(self, u, spec=()):
        k = (u, spec)
        if k not in self.sum and spec:
            self.push(k)
        if self.cur is not None:
            self.deps.setdefault(k, set()).add(self.cur)
        return self.sum.get(k) or (EMPTY, EMPTY, (), EMPTY, EMPTY)

    # -- one function
    def function(self, f, spec=()):
        self.f = f
        self.cur, self.spec = (f["u"], spec), dict(spec)
        self.env = {}
        self.pidx = {p["id"]: i for i, p in enumerate(f["ps"])}
        self.pt = [p["t"] for p in f["ps"]]
        self.thisout, self.ret, self.sinks, self.keep = set(), set(), set(), set()
        for _ in range(6):
            before = (repr(sorted((k, sorted(map(str, v))) for k, v in self.env.items())), len(self.thisout), len(self.ret), len(self.sinks), len(self.keep))
            for i in f.get("inits", ()):
                L = self.ev(i.get("e"))
                x = self.recf.get(i.get("f") or "")
                if L and x:
                    self.field(x["q"], x["t"], L)
                elif L and not x:
                    self.thisout |= L
            self.st(f.get("body"))
            if before == (repr(sorted((k, sorted(map(str, v))) for k, v in self.env.items())), len(self.thisout), len(self.ret), len(self.sinks), len(self.keep)):
                break
        out = tuple(frozenset(self.env.get(p["id"], ())) - {("p", i)} for i, p in enumerate(f["ps"]))
        return (frozenset(self.ret), frozenset(self.thisout) - {THIS}, out, frozenset(self.sinks), frozenset(self.keep))

    def st(self, s):
        if isinstance(s, list):
            for x in s:
                self.st(x)
            return
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "Ret":
            if s.get("e"):
                self.ret |= self.ev(s["e"])
            return
        if k == "D":
            for v in s.get("v", ()):
                if isinstance(v, dict) and v.get("i"):
                    self.bind(v, self.ev(v["i"]))
            return
        if k == "Try":
            self.st(s.get("b"))
            for h in s.get("h", ()):
                for v in h.values():
                    if isinstance(v, (dict, list)):
                        self.st(v)
            return
        if k == "FR":
            L = self.ev(s.get("r"))
            v = s.get("v")
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict):
                    self.bind(x, L)
            self.st(s.get("b"))
            return
        if "t" in s and isinstance(s["t"], str) and k not in ("If",):
            self.ev(s)
            return
        for key, v in s.items():
            if isinstance(v, (dict, list)):
                self.st(v)

    def bind(self, v, L):
        if v.get("id") is not None and L and (v.get("bind") or self.data(v.get("t")) or v.get("t") is None):
            self.env.setdefault(v["id"], set()).update(L)
        for x in v.get("bind", ()) or v.get("bs", ()) or ():
            if isinstance(x, dict):
                self.bind(x, L)

    def field(self, q, ty, L):
        """a value stored in a field of this"""
        if self.sec(ty) or not L:
            return
        if self.data(self.f.get("cls") or ""):
            self.thisout |= L
        elif self.data(ty):
            self.store(q, L)

    def store(self, q, L):
        if self.public(q.rsplit("::", 1)[0]):
            return
        if S in L and q not in self.fieldS:
            self.fieldS.add(q)
            self.again |= self.readers.get(q, set())
        for x in L:
            if x != S and x != THIS:
                self.thisout.add(("F", q, x))

    # -- expressions
    def root(self, e):
        """what an lvalue stores into: ("v", variable) | ("f", field, type) | ("this",) | None"""
        while isinstance(e, dict):
            k = e.get("k")
            if k == "ref":
                return ("v", e)
            if k == "this":
                return ("this",)
            if k == "mem":
                if self.sec(e.get("t")):
                    return None
                own = e["q"].rsplit("::", 1)[0]
                if not self.data(own) and self.F.recs.get(own) is not None:
                    return ("f", e["q"], e.get("t"))
                e = e.get("b")
            elif k in ("cast", "conv", "un", "paren", "mat"):
                e = e.get("e") if e.get("e") is not None else e.get("o") if e.get("o") is not None else (e.get("a") or [None])[0]
            elif k in ("sub", "op"):
                e = (e.get("a") or [None])[0]
            elif k == "call" and e.get("o") is not None:
                e = e["o"]
            elif k == "call" and e.get("a") and e.get("n") in ("move", "forward", "back_inserter", "ref", "inserter", "get"):
                e = e["a"][0]
            elif k == "ctor" and len(e.get("a", ())) == 1:
                e = e["a"][0]
            else:
                return None
        return None

    def taint(self, e, L):
        if not L:
            return
        r = self.root(e)
        if r is None:
            return
        if r[0] == "this":
            if self.data(self.f.get("cls") or ""):
                self.thisout |= L
        elif r[0] == "f":
            if self.data(r[2]):
                self.store(r[1], L)
        elif r[1].get("id") is not None and self.data(r[1].get("t")):
            self.env.setdefault(r[1]["id"], set()).update(L)

    def ev(self, e):
        if not isinstance(e, dict):
            return EMPTY
        L = self.ev1(e)
        ty = e.get("t")
        if isinstance(ty, str):
            if self.sec(ty) and e.get("k") not in ("ctor",):
                L = frozenset(L) | {S}
            elif e.get("k") in ("cast", "bin", "un", "cond", "sub", "op") and ARITH.match(ty) and "bool" not in ty and e.get("op") not in CMP:
                pass    # a byte on its way through an expression; variables of such types are not followed
            elif not self.data(ty) and (not L or not (self.data(self.klass(e)) or self.sec(self.klass(e)))):
                return EMPTY
        return frozenset(L)

    def ev1(self, e):
        k = e.get("k")
        if k == "ref":
            r = set(self.env.get(e.get("id"), ()))
            i = self.pidx.get(e.get("id")) if e.get("d") == "param" else None
            if i is not None:
                r.add(("p", i))
            return r
        if k == "this":
            return {THIS}
        if k == "mem":
            b = self.ev(e.get("b"))
            if self.sec(e.get("t")) or e["q"] in self.fieldS:
                return {S}
            if e.get("n") in ("first", "second") and self.holds_t(str((e.get("b") or {}).get("t"))):
                return EMPTY    # the other half of the pair is the secret
            return b
        if k in ("lit", "str", "enumc", "fref", "null", "zero", "flt"):
            return EMPTY
        if k == "cond":
            self.ev(e["a"][0])
            return self.ev(e["a"][1]) | self.ev(e["a"][2])
        if k == "bin":
            a, b = self.ev(e["a"][0]), self.ev(e["a"][1])
            if e.get("op", "").endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
                self.taint(e["a"][0], b)
            return a | b
        if k in ("cast", "un", "del"):
            return self.ev(e.get("e"))
        if k == "lambda":
            self.st(e.get("body"))
            return EMPTY
        if k == "throw":
            if e.get("e"):
                c = e["e"]
                self.check(e, "the message of an exception", self.shown(c, self.ev(c)))
            return EMPTY
        if k == "new":
            return self.ev(e.get("i"))
        if k == "ilist":
            rec = self.F.recs.get(clean(e.get("t")))
            r = set()
            for i, a in enumerate(e.get("a", ())):
                L = self.ev(a)
                fs = rec.get("fields", ()) if rec else ()
                if rec and i < len(fs) and self.sec(fs[i]["t"]):
                    continue
                r |= L
            return r
        if k in ("call", "ctor", "op", "conv"):
            return self.call(e)
        r = set()
        for v in e.values():
            if isinstance(v, dict):
                r |= self.ev(v) if isinstance(v.get("t"), str) else EMPTY
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and isinstance(x.get("t"), str):
                        r |= self.ev(x)
        return r | (self.ev(e["a"][1]) if k == "sub" and len(e.get("a", ())) > 1 else EMPTY)

    def shown(self, e, L):
        """what formatting the value shows: for the program's own classes, what their Format writes"""
        c = clean((e or {}).get("t") or "")
        rec = self.F.recs.get(c)
        if rec is None:
            return L
        for g in self.F.byname.get(c + "::Format", ()):
            if not g.get("ps"):
                r = self.summary(g["u"])[0]
                L = L | (r - {THIS})
        return L

    def check(self, e, what, L):
        if S in L:
            self.hits.setdefault((self.f["u"], e.get("l"), what), self.f)
        for x in L:
            if x != S:
                self.sinks.add((x, what))

    def call(self, e):
        f, k = self.f, e["k"]
        args = e.get("a", ())
        o = e.get("o")
        if k == "op" and e.get("repo") and args and e.get("fn", "").split("::operator")[0] == clean(args[0].get("t") or ""):
            o, args = args[0], args[1:]
        AL = [self.ev(a) for a in args]
        # a lambda handed to an algorithm contributes its results
        for a in args:
            for l in nodes(a):
                if l.get("k") == "lambda":
                    for r in nodes(l.get("body")):
                        if r.get("k") == "Ret" and r.get("e"):
                            AL.append(self.ev(r["e"]))
                    break
        OL = self.ev(o) if o is not None else EMPTY
        for what, i in self.sink(e) or ():
            self.sites += 1
            if i == "o":
                self.check(e, what, self.shown(o, OL))
            elif i < len(args):
                self.check(e, what, self.shown(args[i], AL[i]))
        if k == "ctor" and self.back(e.get("t") or e.get("cls") or "") or k != "ctor" and False:
            for a, L in zip(args, AL):
                self.keepback(a, L)
        T = self.targets(e)
        if len(T) > 1 and o is not None:
            T = self.narrow(T, self.klass(o))
        one = self.oneway(e)
        if T:
            r = set()
            for g in T:
                ret, this, out, sinks, keep = self.summary(g["u"], self.specialise(g, o, args, k == "ctor"))

                def inst(Ls):
                    z = set()
                    for x in Ls:
                        if x[0] == "F":
                            for y in inst([x[2]]):
                                self.store(x[1], {y})
                        elif x == S:
                            z.add(S)
                        elif x == THIS:
                            z |= OL
                        elif x[1] < len(AL):
                            z |= AL[x[1]]
                    return z
                isct = k == "ctor"
                r |= inst(this) if isct else inst(ret)
                if not isct and o is not None:
                    self.taint(o, inst(this))
                for i, L in enumerate(out):
                    if i < len(args) and L and i < len(e.get("pm", "")) and e["pm"][i] == "m":
                        self.taint(args[i], inst(L))
                for x, what in () if self.mute(e) else sinks:
                    if x == THIS:
                        if not isct:
                            self.check(e, what, OL)
                    elif x[0] == "F":
                        self.check(e, what, inst([x]))
                    elif x[1] < len(AL):
                        self.check(e, what, self.shown(args[x[1]], AL[x[1]]) if x[1] < len(args) else AL[x[1]])
                for x in () if self.cut(e) else keep:
                    if x != THIS and x[0] == "p" and x[1] < len(args):
                        self.keepback(args[x[1]], AL[x[1]])
            return EMPTY if one or self.cut(e) else r
        L = set(OL)
        for a, x in zip(list(args) + [None] * 9, AL):
            L |= self.shown(a, x) if a is not None and e.get("n") in FORMATTERS else x
        if k == "op" and e.get("op") in ("=", "+=", "<<", "|=", "^=") and args:
            self.taint(args[0], set().union(*AL[1:]) if len(AL) > 1 else EMPTY)
        elif k == "call" and o is not None and not e.get("cst"):
            self.taint(o, set().union(*AL) if AL else EMPTY)
        elif k == "call" and e.get("n") in OUTFIRST and args:
            self.taint(args[0], set().union(*AL[1:]) if len(AL) > 1 else EMPTY)
        elif k == "call" and e.get("n") in ("copy", "copy_n", "transform", "reverse_copy", "copy_if", "move") and len(args) >= 3:
            self.taint(args[2], L)
        if k == "ctor":
            rec = self.F.recs.get(clean(e.get("t") or ""))
            if rec is not None and rec.get("fields") and args and not e.get("cm"):
                pass
            if self.sec(e.get("t")):
                # an empty secret container holds nothing yet, but what it will hold is secret
                return {S}
        return EMPTY if one else L

    def keepback(self, a, L):
        """a value that becomes a secret was one already"""
        r = self.root(a)
        if r is not None and r[0] == "v" and r[1].get("id") is not None and self.data(r[1].get("t")):
            self.env.setdefault(r[1]["id"], set()).add(S)
        for x in L:
            if x != S:
                self.keep.add(x)


FORMATTERS = {"Format", "format", "to_string", "str"}
OUTFIRST = {"memcpy", "memmove", "strcpy", "strncpy", "swap"}
