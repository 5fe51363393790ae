"""A must-fact dataflow analysis over the extracted, resolved syntax trees.

The analysis walks a function's structured body (conditionals, loops, switch, try, early exits),
forward-substitutes locals, and keeps, per abstract state, the set of *facts* that hold on every
path described by that state: outcomes of comparisons and boolean calls, and calls that have been
made.  It looks through private / file-local / newly introduced helpers (by walking their bodies
with the arguments bound), through getters, copies, moves, casts, smart pointers and optionals, and
turns loops and <algorithm> calls over a container into facts about every element.

Nothing is executed and no solver is involved: values are syntactic terms, joins are set
intersections, and a requirement is met only if the required fact is present in every state that
reaches the program point in question."""
import re, sys
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------------------------ terms

_tab = {}


class T:
    __slots__ = ("op", "a", "_s", "_el", "_sz", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return show(self) < show(o)


def t(op, *a):
    k = (op,) + a
    r = _tab.get(k)
    if r is None:
        r = T()
        r.op = op
        r.a = a
        r._s = None
        r._el = None
        r._sz = None
        _tab[k] = r
    return r


THIS = t("this")
NULL = t("null")
TRUE = t("c", 1)
FALSE = t("c", 0)
ZERO = FALSE
_unk = [0]


def unk(tag=""):
    _unk[0] += 1
    return t("unk", tag, _unk[0])


def const(v):
    return t("c", int(v))


def is_c(x):
    return x.op == "c"


def size_of(x):
    """Number of nodes of a term (cached)."""
    if x._sz is None:
        x._sz = 1 + sum(size_of(y) for y in x.a if isinstance(y, T)) + \
            sum(sum(size_of(z) for z in y if isinstance(z, T)) for y in x.a if isinstance(y, tuple))
    return x._sz


MAXTERM = 400


def kids(x):
    """immediate sub-terms, those of linear forms included"""
    for y in x.a:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, T):
                    yield z
                elif isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, T):
                            yield w


def subterms(x):
    yield x
    for y in kids(x):
        yield from subterms(y)


def loopsyms(x):
    """elem()/iv symbols mentioned."""
    if x._el is None:
        s = frozenset()
        if x.op in ("elem", "iv"):
            s = frozenset([x])
        for y in kids(x):
            s = s | loopsyms(y)
        x._el = s
    return x._el


def subst(x, m):
    if x in m:
        return m[x]
    if x.op == "lin":
        r, ch = const(x.a[0]), False
        for k, v in x.a[1]:
            z = subst(k, m)
            ch = ch or z is not k
            r = add(r, z, v)
        return r if ch else x
    ch = False
    na = []
    for y in x.a:
        if isinstance(y, T):
            z = subst(y, m)
            ch = ch or z is not y
            na.append(z)
        elif isinstance(y, tuple):
            z = tuple(subst(w, m) if isinstance(w, T) else w for w in y)
            ch = ch or z != y
            na.append(z)
        else:
            na.append(y)
    return t(x.op, *na) if ch else x


def show(x):
    if x._s is None:
        x._s = _show(x)
    return x._s


def sname(q):
    """function name without template arguments"""
    out, d = [], 0
    i = 0
    while i < len(q):
        ch = q[i]
        if ch == "<" and not q[:i].endswith("operator") and not q[:i].endswith("operator<"):
            d += 1
        elif ch == ">" and d > 0 and q[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out)


def _show(x):
    o, a = x.op, x.a
    if o == "p":
        return "$%d" % a[0]
    if o == "this":
        return "this"
    if o == "c":
        return str(a[0])
    if o == "str":
        return '"%s"' % a[0]
    if o == "null":
        return "null"
    if o == "unk":
        return "?" + a[0]
    if o == "fld":
        return ("" if a[0].op == "this" else show(a[0]) + ".") + a[1]
    if o == "glob":
        return a[0]
    if o == "lin":
        s = " + ".join((show(v) if k == 1 else "%d*%s" % (k, show(v))) for v, k in a[1])
        if a[0]:
            s += " %s %d" % ("+" if a[0] > 0 else "-", abs(a[0]))
        return "(%s)" % s
    if o == "call":
        f = a[0]
        ar = ", ".join(show(y) for y in a[2])
        if a[1] is not None:
            return "%s.%s(%s)" % (show(a[1]), f.split("::")[-1] if "operator" not in f else f, ar)
        return "%s(%s)" % (f, ar)
    if o == "ev":
        return "ev " + show(a[0])
    if o in ("eq", "lt"):
        return "%s %s %s" % (show(a[0]), "==" if o == "eq" else "<", show(a[1]))
    if o == "nn":
        return "has(%s)" % show(a[0])
    if o == "new":
        return "%s{%s}" % (a[0], ", ".join(show(y) for y in a[1]))
    if o == "upd":
        return "%s<-%s(%s)" % (show(a[0]), a[1], ", ".join(show(y) for y in a[2]))
    if o == "elem":
        return "each(%s)" % show(a[0])
    if o == "some":
        return "some(%s)" % show(a[0])
    if o == "iv":
        return "i[%s..%s)" % (show(a[0]), show(a[1]))
    if o == "ivs":
        return "is[%s..%s)" % (show(a[0]), show(a[1]))
    if o == "size":
        return "size(%s)" % show(a[0])
    if o == "alt":
        return "alt(%s)" % " | ".join(show(y) for y in a)
    if o == "conj":
        return " & ".join(show(y) for y in a)
    if o == "acc":
        return "acc%d(%s)" % (a[1], show(a[0]))
    if o == "sum":
        return "sum(%s; %s)" % (show(a[0]), ", ".join(show(y) for y in a[1]))
    if o == "coll":
        return "coll(%s; %s)" % (show(a[0]), ", ".join(show(y) for y in a[1]))
    if o == "lam":
        return "<lambda>"
    if o == "when":
        return "%s if %s" % (show(a[1]), " & ".join(show(y) for y in a[0]))
    if o == "not":
        return showlit(a[0], False)
    if o == "out":
        return "out%d(%s)" % (a[1], show(a[0]))
    return "%s(%s)" % (o, ", ".join(show(y) if isinstance(y, T) else
                                  ("[" + ", ".join(show(z) for z in y) + "]" if isinstance(y, tuple) else str(y)) for y in a))


def showlit(x, v):
    s = show(x)
    if x.op == "eq" and not v:
        return "%s != %s" % (show(x.a[0]), show(x.a[1]))
    if x.op == "lt" and not v:
        return "%s <= %s" % (show(x.a[1]), show(x.a[0])) if x.a[1].op != "c" else "%s >= %s" % (show(x.a[0]), show(x.a[1]))
    return s if v else "!" + s


# -------------------------------------------------------------------------- arithmetic normal form

def lin_parts(x):
    if x.op == "c":
        return x.a[0], {}
    if x.op == "lin":
        return x.a[0], dict(x.a[1])
    return 0, {x: 1}


def mk_lin(c, m):
    m = {k: v for k, v in m.items() if v}
    if not m:
        return const(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            return k
    return t("lin", c, tuple(sorted(m.items(), key=lambda kv: show(kv[0]))))


def add(a, b, s=1):
    ca, ma = lin_parts(a)
    cb, mb = lin_parts(b)
    for k, v in mb.items():
        ma[k] = ma.get(k, 0) + s * v
    return mk_lin(ca + s * cb, ma)


COMM = {"*", "&", "|", "^"}


def arith(op, a, b):
    if op == "+":
        return add(a, b)
    if op == "-":
        return add(a, b, -1)
    if is_c(a) and is_c(b):
        x, y = a.a[0], b.a[0]
        try:
            if op == "*": return const(x * y)
            if op == "/" and y: return const(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            if op == "%" and y and x >= 0: return const(x % y)
            if op == "<<" and 0 <= y < 64: return const(x << y)
            if op == ">>" and 0 <= y < 64: return const(x >> y)
            if op == "&": return const(x & y)
            if op == "|": return const(x | y)
            if op == "^": return const(x ^ y)
        except Exception:
            pass
    if op == "*":
        if is_c(b): a, b = b, a
        if is_c(a):
            c, m = lin_parts(b)
            if b.op == "lin":
                return mk_lin(c * a.a[0], {k: v * a.a[0] for k, v in m.items()})
            return mk_lin(0, {b: a.a[0]})
    if op in COMM and show(b) < show(a):
        a, b = b, a
    return t(op, a, b)


def mk_eq(a, b):
    """-> (term, polarity)"""
    if is_c(a) and is_c(b):
        return (TRUE, a.a[0] == b.a[0])
    if a is b and a.op != "unk":
        return (TRUE, True)
    if a.op == "null": a, b = b, a
    if b.op == "null":
        return (t("nn", a), False)
    # find(...) == end(...)
    for x, y in ((a, b), (b, a)):
        if y.op == "end" and x.op in ("found",):
            return (t("nn", x), False)
    if is_c(a) or (not is_c(b) and show(b) < show(a)):
        a, b = b, a
    if b is ZERO and a.op == "count":
        return (t("nn", t("found", *a.a)), False)
    return (t("eq", a, b), True)


def whole_range(v):
    """the collection an algorithm is given both ends of; otherwise some part of it"""
    if v[0].op == "begin" and len(v) > 1 and v[1].op == "end":
        return v[0].a[0]
    if v[0].op == "begin" and not v[0].a[0] in subterms(v[1]):
        return v[0].a[0]
    return t("part", v[0], v[1]) if len(v) > 1 else v[0]


UNSIGNED = set()        # truncated values that cannot be negative


def unsigned(ty):
    return bool(re.match(r"(const )?(unsigned|(std::)?(uint\d+_t|size_t))\b", ty)) and not ty.endswith(("*", "]"))


def promoted_from(e, w):
    """the width of the widest value a promoted integer expression can hold, if below w"""
    if e["k"] == "cast" and e.get("fw") and e.get("tw") and e["fw"] <= e["tw"] and e["t"] != "bool":
        return promoted_from(e["e"], min(w, e["fw"]))
    if e["k"] == "cond":
        return max(promoted_from(e["a"][1], w), promoted_from(e["a"][2], w))
    if e["k"] == "lit" and "cv" in e and int(e["cv"]) >= 0:
        return min(w, int(e["cv"]).bit_length())
    return min(w, {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32}.get(e.get("t", "").replace("const ", ""), w))


def nonneg(x):
    return x.op == "size" or x in UNSIGNED


def mk_lt(a, b):
    """a < b -> (term, polarity); constants end up on the right"""
    if is_c(a) and is_c(b):
        return (TRUE, a.a[0] < b.a[0])
    if is_c(a):
        # c < b  ==  !(b < c+1)
        if a.a[0] == 0 and nonneg(b):
            return (t("eq", b, ZERO), False)
        if a.a[0] == 0 and b.op == "count":
            return (t("nn", t("found", *b.a)), True)
        return (t("lt", b, const(a.a[0] + 1)), False)
    if is_c(b) and b.a[0] == 1 and nonneg(a):
        return (t("eq", a, ZERO), True)
    if is_c(b) and b.a[0] == 1 and a.op == "count":
        return (t("nn", t("found", *a.a)), False)
    return (t("lt", a, b), True)


# ------------------------------------------------------------------------------------- states

class State:
    __slots__ = ("env", "alias", "facts", "may", "locks")

    def __init__(self, env=None, alias=None, facts=None, may=frozenset()):
        self.env = env if env is not None else {}
        self.alias = alias if alias is not None else {}
        self.facts = facts if facts is not None else {}
        self.may = may

    def copy(self):
        return State(dict(self.env), self.alias, dict(self.facts), self.may)

    def assume(self, x, v):
        """new state with the literal added, or None if contradictory"""
        if x is TRUE:
            return self if v else None
        if x is FALSE:
            return None if v else self
        if x.op == "not":
            return self.assume(x.a[0], not v)
        if x.op == "and" and v:
            s = self
            for y in x.a:
                s = s and s.assume(y, True)
            return s
        if x.op == "or" and not v:
            s = self
            for y in x.a:
                s = s and s.assume(y, False)
            return s
        c = self.facts.get(x)
        if c is not None:
            return self if c == v else None
        if x.op == "nn" and show(x.a[0]) in ("std::nullopt", "null"):
            return None if v else self
        if x.op == "eq" and v and is_c(x.a[1]):
            # x == c contradicts x == c2 / refines inequalities
            for y, w in self.facts.items():
                if y.op == "eq" and w and y.a[0] is x.a[0] and is_c(y.a[1]) and y.a[1] is not x.a[1]:
                    return None
                if y.op == "lt" and y.a[0] is x.a[0] and is_c(y.a[1]) and (x.a[1].a[0] < y.a[1].a[0]) != w:
                    return None
        if x.op == "lt" and v and self.facts.get(t("lt", x.a[1], x.a[0])):
            return None
        if x.op == "lt" and is_c(x.a[1]):
            for y, w in self.facts.items():
                if y.op == "eq" and w and y.a[0] is x.a[0] and is_c(y.a[1]) and (y.a[1].a[0] < x.a[1].a[0]) != v:
                    return None
        n = self.copy()
        n.facts[x] = v
        return n

    def known(self, x):
        if x is TRUE:
            return True
        if x is FALSE:
            return False
        if x.op == "not":
            k = self.known(x.a[0])
            return None if k is None else not k
        k = self.facts.get(x)
        if k is None and x.op == "nn" and show(x.a[0]) in ("std::nullopt", "null"):
            return False
        if k is None and x.op == "eq" and is_c(x.a[1]):
            for y, w in self.facts.items():
                if y.op == "eq" and w and y.a[0] is x.a[0] and is_c(y.a[1]) and y.a[1] is not x.a[1]:
                    return False
        return k


def join2(a, b):
    env = {}
    for k, v in a.env.items():
        w = b.env.get(k)
        if w is None:
            continue
        env[k] = v if v is w else (v if v is w else t("phi", *sorted({v, w} | set(), key=show)) if size_of(v) + size_of(w) < 60 else unk("join"))
    facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
    alias = a.alias if a.alias is b.alias else {k: v for k, v in a.alias.items() if b.alias.get(k) == v}
    return State(env, alias, facts, a.may | b.may)


def merge_lossless(states):
    """merge states that differ only in one literal with opposite polarity"""
    changed = True
    states = list(states)
    while changed and len(states) > 1:
        changed = False
        n = len(states)
        for i in range(n):
            for j in range(i + 1, n):
                a, b = states[i], states[j]
                if a.env != b.env or abs(len(a.facts) - len(b.facts)) > 0 and not _subset(a, b):
                    continue
                d1 = [k for k, v in a.facts.items() if b.facts.get(k) != v]
                d2 = [k for k, v in b.facts.items() if a.facts.get(k) != v]
                if (not d1 or not d2) or (len(d1) == 1 and len(d2) == 1 and d1[0] is d2[0]):
                    states[i] = join2(a, b)
                    del states[j]
                    changed = True
                    break
            if changed:
                break
    return states


def _subset(a, b):
    return True


MAXSTATES = 40


def reduce_states(states, cap=None):
    cap = cap or MAXSTATES
    if len(states) <= 1:
        return states
    states = merge_lossless(states)
    while len(states) > cap:
        best = None
        for i in range(len(states)):
            fi = states[i].facts
            for j in range(i + 1, len(states)):
                fj = states[j].facts
                d = sum(1 for k, v in fi.items() if fj.get(k) != v) + sum(1 for k, v in fj.items() if fi.get(k) != v)
                d += 3 * sum(1 for k, v in states[i].env.items() if states[j].env.get(k) is not v)
                if best is None or d < best[0]:
                    best = (d, i, j)
        _, i, j = best
        states[i] = join2(states[i], states[j])
        del states[j]
        states = merge_lossless(states)
    return states


class Out:
    __slots__ = ("norm", "brk", "cont", "ret", "thr")

    def __init__(self, norm=None):
        self.norm = norm or []
        self.brk = []
        self.cont = []
        self.ret = []   # (state, term)
        self.thr = []   # (state, class)


# --------------------------------------------------------------------------------- the walker

PASS_FN = re.compile(r"^(std::move|std::forward|std::cref|std::ref|std::as_const|std::static_pointer_cast|"
                     r"std::dynamic_pointer_cast|std::const_pointer_cast|std::make_optional|std::addressof)\b")
SMART = re.compile(r"^(const )?(std::(shared_ptr|unique_ptr|optional|weak_ptr|function|reference_wrapper|__shared_ptr_access|__shared_ptr|_Optional_base)|Reader|Writer|Locked|Locked::\w+)\b")
DEREF_M = {"get", "value", "lock", "GetShared"}
ACCESSOR = {"front", "back", "at", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "find", "get", "value", "c_str", "str", "top", "count", "size"}
CONTAINER_ADD = {"push_back", "emplace_back", "insert", "emplace", "push_front", "push", "add"}
NOEV = re.compile(r"^(std::|LoggerAPI::|StringUtil::|fmt::|__|operator|spdlog|Logger::|boost::|asio::(?!.*async_))")


HOLE = t("hole")


class Walker:
    """expand: predicate(fn record) -> look through the call. watch: callback(site dict)."""

    def __init__(self, F, expand=None, watch=None, baseline=None, depth=6, opaque=None, only=None, watch_throw=None):
        self.F = F
        self.expand_extra = expand or (lambda f: False)
        self.watch = watch
        self.watch_throw = watch_throw
        self.on_eval = None     # callback(expression, [(state, value)], function), only with a watch
        self.baseline = baseline
        self.maxdepth = depth
        self.opaque = opaque or (lambda f: False)
        self.frames = 0
        self.stack = []
        self.trystack = []
        self.looplvl = 0
        self.walked = set()
        self.vty = {}

    # ---- entry
    def run(self, fn, args=None):
        self.root = fn
        st = State()
        UNSIGNED.clear()
        for i, p in enumerate(fn["ps"]):
            if unsigned(p.get("t", "")):
                UNSIGNED.add(args[i] if args else t("p", i))
        self.frames += 1
        fr = self.frames
        for i, p in enumerate(fn["ps"]):
            st.env[("v", fr, p["id"])] = args[i] if args else t("p", i)
        return self.body(fn, fr, [st], THIS)

    def body(self, fn, fr, states, this):
        self.stack.append((fn, fr, this))
        self.walked.add(fn["u"])
        o = Out(states)
        if fn.get("kind") == "ctor":
            for i in fn.get("inits", ()):
                ns = []
                for s in o.norm:
                    if i.get("e") is None:
                        ns.append(s)
                        continue
                    for s2, v in self.ev(i["e"], s):
                        if i.get("f"):
                            s2 = s2.copy()
                            s2.env[t("fld", this, i["f"].split("::")[-1])] = v
                        ns.append(s2)
                o.norm = ns
        r = self.stmt(fn.get("body"), o.norm) if fn.get("body") else o
        self.stack.pop()
        for s in r.norm:
            r.ret.append((s, t("void")))
        r.norm = []
        r.ret = self.reduce_ret(r.ret)
        return r

    def reduce_ret(self, rets):
        by = {}
        for s, v in rets:
            by.setdefault(v, []).append(s)
        out = []
        for v, ss in by.items():
            for s in reduce_states(ss):
                out.append((s, v))
        return out

    # ---- statements
    def stmt(self, s, states):
        if s is None or not states:
            return Out(states)
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            return Out(states)
        o = m(s, states)
        o.norm = reduce_states(o.norm)
        return o

    def merge_out(self, o, p):
        o.brk += p.brk
        o.cont += p.cont
        o.ret += p.ret
        o.thr += p.thr

    def s_C(self, s, states):
        o = Out(states)
        for x in s["s"]:
            if not o.norm:
                break
            p = self.stmt(x, o.norm)
            o.norm = p.norm
            self.merge_out(o, p)
        if o.norm:
            self.drop_locals(s, o.norm)
        return o

    def drop_locals(self, s, states):
        ids = []
        for x in s["s"]:
            if x and x["k"] == "D":
                ids += [v["id"] for v in x["v"]]
        if not ids:
            return
        fr = self.stack[-1][1]
        for i, st in enumerate(states):
            n = st.copy()
            for d in ids:
                n.env.pop(("v", fr, d), None)
            states[i] = n

    def s_N(self, s, states):
        return Out(states)

    s_Other = s_N

    def s_LamBody(self, s, states):
        o = Out()
        for st in states:
            q = self.call_lambda(s["lam"], [s["el"]], st)
            o.norm += [x for x, _ in q.ret]
            o.thr += q.thr
        return o

    def s_Label(self, s, states):
        return self.stmt(s["s"], states)

    def s_E(self, s, states):
        o = Out()
        for st in states:
            o.norm += self.collect(o, lambda: [x for x, _ in self.ev(s["e"], st)])
        return o

    def collect(self, o, f):
        """evaluate with a place for throws from expressions to go"""
        self.trystack.append([])
        r = f()
        o.thr += self.trystack.pop()
        return r

    def s_D(self, s, states):
        o = Out()
        cur = states
        for v in s["v"]:
            nxt = []
            for st in cur:
                nxt += self.collect(o, lambda: self.decl(v, st))
            cur = reduce_states(nxt)
        o.norm = cur
        return o

    def decl(self, v, st):
        fr = self.stack[-1][1]
        key = ("v", fr, v["id"])
        self.vty[key] = v["t"]
        if v.get("static"):
            n = st.copy()
            n.env[key] = t("glob", "static " + v["n"])
            return [n]
        i = v.get("i")
        if i is None:
            n = st.copy()
            n.env[key] = t("undef", v["t"])
            return [n]
        res = []
        isref = v.get("isref")
        if isref:
            lk = self.lv(i, st)
            if lk is not None:
                # keep side effects of evaluating the initialiser
                for s2, x in self.ev(i, st):
                    n = s2.copy()
                    n.alias = dict(n.alias)
                    n.alias[key] = lk
                    res.append(n)
                return res
        for s2, x in self.evb(i, st, v["t"]):
            n = s2.copy()
            n.env[key] = x
            for bi, b in enumerate(v.get("bind", ())):
                n.env[("v", fr, b["id"])] = t("fld", x, "#%d" % bi)
            res.append(n)
        return res

    def evb(self, e, st, ty):
        """evaluate; a bool-typed value splits into a true and a false state"""
        if ty in ("bool", "const bool") and not self.isconst(e):
            tr, fa = self.evc(e, st)
            return [(x, TRUE) for x in tr] + [(x, FALSE) for x in fa]
        return self.ev(e, st)

    def isconst(self, e):
        return "cv" in e

    def s_If(self, s, states):
        o = Out()
        if s.get("init"):
            p = self.stmt(s["init"], states)
            self.merge_out(o, p)
            states = p.norm
        T_, F_ = [], []
        for st in states:
            def go(st=st):
                ss = [st]
                if s.get("cvar"):
                    ss = self.decl(s["cvar"], st)
                a, b = [], []
                for x in ss:
                    p, q = self.evc(s["c"], x)
                    a += p
                    b += q
                return a, b
            a, b = self.collect(o, go)
            T_ += a
            F_ += b
        p = self.stmt(s["t"], reduce_states(T_))
        self.merge_out(o, p)
        o.norm = list(p.norm)
        if s.get("e"):
            q = self.stmt(s["e"], reduce_states(F_))
            self.merge_out(o, q)
            o.norm += q.norm
        else:
            o.norm += F_
        return o

    def s_Ret(self, s, states):
        o = Out()
        fn = self.stack[-1][0]
        for st in states:
            if s.get("e") is None:
                o.ret.append((st, t("void")))
                continue
            ty = fn.get("ret", "")
            for s2, v in self.collect(o, lambda: self.evb(s["e"], st, ty)):
                o.ret.append((s2, v))
        return o

    def s_Break(self, s, states):
        o = Out()
        o.brk = list(states)
        return o

    def s_Continue(self, s, states):
        o = Out()
        o.cont = list(states)
        return o

    def s_Switch(self, s, states):
        o = Out()
        if s.get("init"):
            p = self.stmt(s["init"], states)
            self.merge_out(o, p)
            states = p.norm
        # flatten the body into (labels, stmts) groups
        groups, default_seen = [], False
        body = s["b"]["s"] if s["b"] and s["b"]["k"] == "C" else [s["b"]]
        for x in body:
            labels = []
            while x and x["k"] in ("Case", "Default"):
                labels.append(x.get("v") if x["k"] == "Case" else "default")
                x = x["s"]
            if labels:
                groups.append((labels, [x] if x else []))
            elif groups and x:
                groups[-1][1].append(x)
        allconst = []
        for ls, _ in groups:
            for l in ls:
                if l != "default":
                    allconst.append(l)
        fall = []
        covered = []
        for st in states:
            covered += self.collect(o, lambda: self.ev(s["c"], st))
        has_default = any("default" in ls for ls, _ in groups)
        for labels, stmts in groups:
            entry = list(fall)
            for st, v in covered:
                for l in labels:
                    if l == "default":
                        n = st
                        for c in allconst:
                            if n is None:
                                break
                            ct = self.ev(c, n)[0][1]
                            x, pol = mk_eq(v, ct)
                            n = n.assume(x, not pol)
                        if n is not None:
                            entry.append(n)
                    else:
                        ct = self.ev(l, st)[0][1]
                        x, pol = mk_eq(v, ct)
                        n = st.assume(x, pol)
                        if n is not None:
                            entry.append(n)
            cur = reduce_states(entry)
            for x in stmts:
                p = self.stmt(x, cur)
                cur = p.norm
                o.norm += p.brk
                o.cont += p.cont
                o.ret += p.ret
                o.thr += p.thr
                if not cur:
                    break
            fall = cur
        o.norm += fall
        if not has_default:
            for st, v in covered:
                n = st
                for c in allconst:
                    if n is None:
                        break
                    ct = self.ev(c, n)[0][1]
                    x, pol = mk_eq(v, ct)
                    n = n.assume(x, not pol)
                if n is not None:
                    o.norm.append(n)
        return o

    def s_Try(self, s, states):
        o = Out()
        p = self.stmt(s["b"], states)
        o.norm, o.brk, o.cont, o.ret = p.norm, p.brk, p.cont, p.ret
        handlers = s["h"]
        # implicit throws: anything may throw anywhere; only facts at try entry are certain, and
        # everything the block may have done may have happened
        may = frozenset()
        for x in p.norm + p.brk + p.cont + [r[0] for r in p.ret] + [q[0] for q in p.thr]:
            may |= x.may
        base = []
        for x in states:
            n = x.copy()
            n.may = n.may | may
            once = self.assigned_once(s["b"])
            alts = [n]
            for k in self.assigned(s["b"]):
                kk = ("v", self.stack[-1][1], k)
                if kk not in n.env:
                    continue
                new = {q.env.get(kk) for q in p.norm}
                if k in once and len(new) == 1 and None not in new and len(alts) < 4:
                    # old or new value, depending on where it was thrown
                    more = []
                    for y in alts:
                        z = y.copy()
                        z.env[kk] = next(iter(new))
                        more.append(z)
                    alts += more
                    continue
                for y in alts:
                    y.env[kk] = unk("try")
            base += alts
        caught = [[] for _ in handlers]
        for st, cls in p.thr:
            for i, h in enumerate(handlers):
                if h["t"] == "..." or self.isa(cls, h["t"]):
                    caught[i].append(st)
                    break
            else:
                o.thr.append((st, cls))
        for i, h in enumerate(handlers):
            ty = re.sub(r"^(const|volatile) |\s*[&*]+$", "", h["t"]).strip()
            hs = [x for x in (y.assume(t("caught", ty), True) for y in reduce_states(base + caught[i])) if x is not None]
            q = self.stmt(h["b"], hs)
            o.norm += q.norm
            o.brk += q.brk
            o.cont += q.cont
            o.ret += q.ret
            o.thr += q.thr
        return o

    def assigned_once(self, b):
        """locals the block assigns in a single plain top-level statement"""
        cnt, plain = {}, set()
        for x in b.get("s", ()) if b.get("k") == "C" else [b]:
            a = self.assigned(x) if isinstance(x, dict) else ()
            for d in a:
                cnt[d] = cnt.get(d, 0) + 1
            e = x.get("e") if x.get("k") == "E" else None
            if isinstance(e, dict) and (e.get("k") == "op" and e.get("op") == "=" or e.get("k") == "bin" and e.get("op") == "=") and e["a"][0].get("k") == "ref":
                plain.add(e["a"][0].get("id"))
        return {d for d, n in cnt.items() if n == 1 and d in plain}

    def isa(self, cls, caught):
        c = re.sub(r"^const |\s*&$", "", caught).strip()
        seen, todo = set(), [cls]
        while todo:
            x = todo.pop()
            if x == c:
                return True
            if x in seen:
                continue
            seen.add(x)
            r = self.F.recs.get(x)
            if r:
                todo += [b for b in r["bases"]]
            elif x.startswith("std::") and c == "std::exception":
                return True
        return False

    # ---- loops
    def assigned(self, s):
        r = s.get("_asg") if isinstance(s, dict) else None
        if r is not None:
            return r
        out = set()

        def lvid(e):
            while isinstance(e, dict):
                if e["k"] == "ref" and e.get("d") in ("local", "param", "binding"):
                    out.add(e["id"])
                    return
                if e["k"] == "mem":
                    if e.get("arrow"):
                        return
                    e = e["b"]
                elif e["k"] == "sub":
                    e = e["a"][0]
                elif e["k"] == "op" and e["op"] in ("[]",):
                    e = e["a"][0]
                elif e["k"] == "un":
                    e = e["e"]
                elif e["k"] == "cast":
                    e = e["e"]
                else:
                    return

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
                return
            if not isinstance(x, dict):
                return
            k = x.get("k")
            if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                lvid(x["a"][0])
            elif k == "un" and x["op"] in ("++", "--"):
                lvid(x["e"])
            elif k == "op" and (x["op"] in ("=", "++", "--") or (x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="))):
                if x["a"]:
                    lvid(x["a"][0])
            elif k == "call":
                o = x.get("o")
                if o is not None and not x.get("cst") and not self.is_arrow(o) and not (not x.get("repo") and x.get("n") in ACCESSOR):
                    g = self.F.fns.get(x.get("u")) if not x.get("a") else None
                    if g is None or g["ps"] or not self.getter(g):
                        lvid(o)
                pm = x.get("pm", "")
                for i, y in enumerate(x.get("a", ())):
                    if i < len(pm) and pm[i] == "m":
                        lvid(y)
                        if y.get("k") == "un" and y["op"] == "&":
                            lvid(y["e"])
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v)
        go(s)
        if isinstance(s, dict):
            s["_asg"] = out
        return out

    def is_arrow(self, o):
        ty = o.get("t", "")
        return ty.endswith("*") or (o.get("k") == "op" and o.get("op") in ("->", "*"))

    def loop(self, states, body, elem_bind, cond=None, inc=None, havoc_from=(), post_cond=False, whole=True):
        """Common loop treatment. elem_bind(state)->states at body entry. whole: the loop visits
        every element/index of its universal symbol unless left early."""
        o = Out()
        fr = self.stack[-1][1]
        asg = set()
        for x in havoc_from:
            if x:
                asg |= self.assigned(x)
        after = []
        for st in states:
            # variables changed by the loop
            h = st.copy()
            flags = {}
            colls = {}
            for d in asg:
                k = ("v", fr, d)
                k = st.alias.get(k, k)
                if k in h.env:
                    v = h.env[k]
                    num = self.is_num(self.vty.get(k, ""))
                    if v in (TRUE, FALSE) and not num:
                        flags[k] = v
                    else:
                        colls[k] = v
                        h.env[k] = t("acc", v, len(colls)) if num else self.loopval(v)
            self.looplvl += 1
            entry = self.collect(o, lambda: elem_bind(h))
            own = frozenset()
            for x in entry:
                for k, v in x.env.items():
                    if isinstance(v, T) and h.env.get(k) is not v:
                        own |= frozenset(y for y in loopsyms(v) if y in (v,) or v.op in ("elem", "iv", "fld", "tuple", "call"))
            # indexing by a full-range counter denotes the element itself
            own |= frozenset(self.elem(y.a[1].a[0]) for y in own if y.op == "iv" and y.a[0] is ZERO and y.a[1].op == "size")
            ex = []
            if cond is not None and not post_cond:
                tr = []
                for x in entry:
                    a, b = self.collect(o, lambda: self.evc(cond, x))
                    tr += a
                    ex += b
                entry = tr
            p = self.stmt(body, reduce_states(entry))
            self.looplvl -= 1
            end = p.norm + p.cont
            if cond is not None and post_cond:
                nend = []
                for x in end:
                    a, b = self.collect(o, lambda: self.evc(cond, x))
                    nend += a + b
                    ex += b
                end = nend
            entry_syms = frozenset()
            for f_ in st.facts:
                entry_syms |= loopsyms(f_)
            for v in st.env.values():
                if isinstance(v, T):
                    entry_syms |= loopsyms(v)

            def existential(x):
                m = {}
                for f_ in list(x.facts) + [v for v in x.env.values() if isinstance(v, T)]:
                    for y in loopsyms(f_):
                        if y not in entry_syms or y in own:
                            m[y] = t("some", y.a[0]) if y.op == "elem" else t("ivs", *y.a)
                if not m:
                    return x
                n = x.copy()
                n.facts = {(k if k in st.facts else subst(k, m)): v for k, v in x.facts.items()}
                n.env = {k: (subst(v, m) if isinstance(v, T) and st.env.get(k) is not v else v) for k, v in x.env.items()}
                return n

            for s2, v in p.ret:
                n = existential(s2)
                m = {}
                for y in loopsyms(v):
                    if y not in entry_syms or y in own:
                        m[y] = t("some", y.a[0]) if y.op == "elem" else t("ivs", *y.a)
                o.ret.append((n, subst(v, m) if m else v))
            o.thr += [(existential(s2), c) for s2, c in p.thr]
            brk = [existential(x) for x in p.brk]

            # state when the loop runs to completion
            def finish(flagvals, ends, universal):
                n = st.copy()
                mays = frozenset()
                for x in p.norm + p.cont + p.brk + [r[0] for r in p.ret]:
                    mays |= x.may
                n.may = n.may | mays
                fin = {}
                for k, v in colls.items():
                    n.env[k] = self.after_coll(k, v, h.env[k], end + p.brk, st.facts)
                    fin[h.env[k]] = n.env[k]
                for k, v in flagvals.items():
                    n.env[k] = v
                # fields assigned in the loop
                for x in end:
                    for k, v in x.env.items():
                        if isinstance(k, T) and st.env.get(k) is not v:
                            n.env[k] = unk("loop")
                if universal and ends:
                    common = None
                    for x in ends:
                        f = {a: b for a, b in x.facts.items() if ((loopsyms(a) - entry_syms) or (loopsyms(a) & own)) and a not in st.facts}
                        common = f if common is None else {a: b for a, b in common.items() if f.get(a) == b}
                    n.facts.update(common)
                    self.alternatives(n, ends, common, lambda a: ((loopsyms(a) - entry_syms) or (loopsyms(a) & own)) and a not in st.facts)
                if cond is not None and ex and not brk:
                    common = None
                    for x in ex:
                        f = {a: b for a, b in x.facts.items() if a not in st.facts and not (loopsyms(a) - entry_syms) and not (loopsyms(a) & own)}
                        common = f if common is None else {a: b for a, b in common.items() if f.get(a) == b}
                    for a, b in (common or {}).items():
                        n.facts.setdefault(subst(a, fin), b)
                return n

            if flags:
                vals = {}
                for x in end:
                    key = tuple(x.env.get(k) for k in flags)
                    vals.setdefault(key, []).append(x)
                init = tuple(flags[k] for k in flags)
                mono = True
                if any(k != init for k in vals):
                    # do flags ever come back to their initial value?
                    for key in list(vals):
                        if key == init:
                            continue
                        h2 = h.copy()
                        for kk, vv in zip(flags, key):
                            h2.env[kk] = vv if vv is not None else unk("flag")
                        sw, self.watch = self.watch, None
                        swt, self.watch_throw = self.watch_throw, None
                        self.looplvl += 1
                        self.trystack.append([])
                        en = elem_bind(h2)
                        if cond is not None and not post_cond:
                            en = [y for x in en for y in self.evc(cond, x)[0]]
                        q = self.stmt(body, reduce_states(en))
                        self.trystack.pop()
                        self.looplvl -= 1
                        self.watch, self.watch_throw = sw, swt
                        for x in q.norm + q.cont:
                            if tuple(x.env.get(k) for k in flags) == init:
                                mono = False
                            else:
                                vals.setdefault(tuple(x.env.get(k) for k in flags), []).append(x)
                if mono:
                    after.append(finish(dict(flags), vals.get(init, []), whole))
                    for key, xs in vals.items():
                        if key != init:
                            n = finish({k: (v if v is not None else unk("flag")) for k, v in zip(flags, key)}, [], False)
                            after.append(n)
                else:
                    after.append(finish({k: unk("flag") for k in flags}, end, whole))
            else:
                after.append(finish({}, end, whole))
            after += brk
        o.norm = after
        return o

    def alternatives(self, n, ends, common, keep):
        """every element satisfies one of these conjunctions"""
        if not 2 <= len(ends) <= 5:
            return
        alts = set()
        for x in ends:
            c = tuple(sorted((a if b else t("not", a) for a, b in x.facts.items()
                              if a not in common and a.op not in ("ev", "alt") and keep(a)), key=show))
            if not c:
                return
            alts.add(c)
        if len(alts) > 1:
            n.facts[t("alt", *[t("conj", *c) for c in sorted(alts, key=lambda c: [show(y) for y in c])])] = True

    NUM = re.compile(r"(const )?(volatile )?(unsigned|signed|int|long|short|char|size_t|ssize_t|u?int(8|16|32|64)_t|std::u?int\d+_t|std::size_t)\b[^*&<>]*$")

    def is_num(self, ty):
        return bool(self.NUM.match(ty)) and not ty.endswith("bool")

    def loopval(self, v):
        if v.op in ("new", "coll", "undef", "ilist", "loopin", "upd", "sorted", "elem"):
            return t("loopin", v)
        return unk("loop")

    def maxfold(self, k, head, ends):
        """the loop keeps the largest of the elements' values"""
        vals = {x.env.get(k) for x in ends}
        if None in vals:
            return None
        o = vals - {head}
        if len(o) != 1:
            return None
        v, = o
        if v.op == "max" and len(v.a) == 2 and head in v.a and vals == {v}:
            w = [y for y in v.a if y is not head]
            return w[0] if w else None
        if len(vals) == 2 and not any(y is head for y in subterms(v)):
            for x in ends:
                up = x.facts.get(mk_lt(head, v)[0])
                ge = x.facts.get(mk_lt(v, head)[0])
                if x.env[k] is v and not (up is True or ge is False):
                    return None
                if x.env[k] is head and not (up is False or ge is True):
                    return None
            return v
        return None

    def after_coll(self, k, before, head, ends, pre=()):
        """value after a loop of a container that the body only inserts into"""
        ins = set()
        if head.op == "acc":
            m = self.maxfold(k, head, ends)
            if m is not None:
                return t("maxof", before, m)
            for x in ends:
                v = x.env.get(k)
                if v is None:
                    return unk("loop")
                g = tuple(sorted((f if b else t("not", f) for f, b in x.facts.items()
                                  if f not in pre and f.op not in ("ev", "alt")), key=show))
                while True:
                    c, m = lin_parts(v)
                    inner = [y for y in m if y.op == "sum" and m[y] == 1 and y.a[0].op in ("acc", "sum")]
                    d = None
                    if m.get(head) == 1:
                        d = add(v, head, -1)
                    elif inner:
                        # an inner loop added to it
                        y = inner[0]
                        ins.update(y.a[1])
                        v = add(add(v, y, -1), y.a[0])
                        continue
                    if d is None or any(y is head for y in subterms(d)):
                        return unk("loop")
                    break
                if d is not ZERO:
                    ins.add(t("when", g, d) if g else d)
            return t("sum", before, tuple(sorted(ins, key=show))) if ins else before
        if head.op != "loopin":
            return unk("loop")
        drained = None
        batch = any((x.env.get(k) or ZERO).op == "upd" and x.env[k].a[1].split("::")[-1] == "clear" for x in ends)
        for x in ends:
            v = x.env.get(k)
            n = 0
            g = tuple(sorted((f if b else t("not", f) for f, b in x.facts.items()
                              if f not in pre and f.op not in ("ev", "alt") and not (batch and any(y is head for y in subterms(f)))), key=show))
            if v is not None and v.op == "upd" and v.a[1].split("::")[-1] == "clear" and not v.a[2]:
                # a batch: processed as a whole, then emptied
                w = v.a[0]
                q = {subst(f, {w: HOLE}) for f, b in x.facts.items() if b and f.op != "ev" and f not in pre and any(y is w for y in f.a + sum((z for z in f.a if isinstance(z, tuple)), ()))}
                drained = q if drained is None else drained & q
                v = w
            while v is not None and v is not head:
                if v.op == "coll":
                    ins.update(t("when", g, y) if g else y for y in v.a[1])
                    v = v.a[0]
                    continue
                if v.op == "upd" and v.a[1].split("::")[-1] in CONTAINER_ADD and v.a[2]:
                    ins.add(t("when", g, v.a[2][-1]) if g else v.a[2][-1])
                    v = v.a[0]
                    n += 1
                else:
                    return unk("loop")
            if v is None:
                return unk("loop")
        if not ins:
            return before
        r = t("coll", before, tuple(sorted(ins, key=show)))
        if drained is not None:
            if before.op == "new" and not before.a[1] or before.op == "undef":
                return t("rest", r, tuple(sorted(drained, key=show)))
            return unk("loop")
        return r

    def elem(self, x):
        if x.op == "coll" and len(x.a[1]) == 1 and x.a[0].op in ("new", "undef", "ilist") and not (x.a[0].op == "new" and x.a[0].a[1]):
            return x.a[1][0]
        return t("elem", x)

    def s_FR(self, s, states):
        o = Out()
        fr = self.stack[-1][1]
        out = []
        for st in states:
            for s2, r in self.collect(o, lambda: self.ev(s["r"], st)):
                out.append((s2, r))
        for s2, r in out:
            def bind(x, r=r):
                n = x.copy()
                v = s["v"]
                e = self.elem(r)
                n.env[("v", fr, v["id"])] = e
                for bi, b in enumerate(v.get("bind", ())):
                    n.env[("v", fr, b["id"])] = t("fld", e, "#%d" % bi)
                n.alias = {k: w for k, w in n.alias.items() if k != ("v", fr, v["id"])}
                return [n]
            p = self.loop([s2], s["b"], bind, havoc_from=[s["b"]])
            self.merge_out(o, p)
            o.norm += p.norm
        return o

    def s_For(self, s, states):
        o = Out()
        fr = self.stack[-1][1]
        p = self.stmt(s["init"], states) if s.get("init") else Out(states)
        self.merge_out(o, p)
        states = p.norm
        iv = self.induction(s)
        cur = []
        for st in states:
            if iv:
                vid, lo_e, hi_e, op, kind = iv
                lo = st.env.get(("v", fr, vid))
                if kind == "iter":
                    hs = self.ev(hi_e, st)
                    hi = hs[0][1]
                    if lo is not None and lo.op == "begin" and hi.op == "end" and lo.a[0] is hi.a[0]:
                        def bind(x, lo=lo):
                            n = x.copy()
                            n.env[("v", fr, vid)] = self.elem(lo.a[0])
                            return [n]
                        q = self.loop([st], s["b"], bind, havoc_from=[s["b"]])
                        self.merge_out(o, q)
                        cur += q.norm
                        continue
                elif lo is not None:
                    hs = self.ev(hi_e, st)
                    hi = hs[0][1]
                    if op == "<=":
                        hi = add(hi, const(1))
                    if op.endswith("<") and op != "<":
                        hi = t("pos", op[:-1], hi)

                    def bind(x, lo=lo, hi=hi):
                        n = x.copy()
                        n.env[("v", fr, vid)] = t("iv", lo, hi)
                        return [n]
                    q = self.loop([st], s["b"], bind, havoc_from=[s["b"]])
                    self.merge_out(o, q)
                    cur += q.norm
                    continue
            hv = [s["b"], s.get("inc"), s.get("c")]
            q = self.loop([st], s["b"], lambda x: [x], cond=s.get("c"), havoc_from=[h for h in hv if h], whole=False)
            self.merge_out(o, q)
            cur += q.norm
        o.norm = cur
        return o

    def induction(self, s):
        """(var id, lo, hi expr, op, kind) of a canonical counting or iterator loop"""
        init, c, inc = s.get("init"), s.get("c"), s.get("inc")
        if not init or not c or not inc or init["k"] != "D" or not init["v"]:
            return None
        v = init["v"][0]
        ids = {x["id"]: x for x in init["v"]}

        def isref(e):
            return e["k"] == "ref" and e.get("id") in ids
        # ++i / i++ / i += 1
        if inc["k"] in ("un",) and inc["op"] == "++" and isref(inc["e"]):
            vid = inc["e"]["id"]
        elif inc["k"] == "op" and inc["op"] == "++" and isref(inc["a"][0]):
            vid = inc["a"][0]["id"]
        elif inc["k"] == "bin" and inc["op"] == "+=" and isref(inc["a"][0]) and inc["a"][1].get("cv") == "1":
            vid = inc["a"][0]["id"]
        else:
            return None
        v = ids[vid]
        if vid in self.assigned(s["b"]):
            return None
        if c["k"] == "op" and c["op"] == "<" and c["a"][0]["k"] == "ref" and c["a"][0].get("id") == vid and "iterator" not in (v.get("t") or "iterator"):
            return (vid, v.get("i"), c["a"][1], "<", "cls")
        if c["k"] == "bin" and c["op"] == "<" and c["a"][0]["k"] == "call" and (c["a"][0].get("o") or {}).get("id") == vid and not c["a"][0]["a"]:
            return (vid, v.get("i"), c["a"][1], c["a"][0]["n"] + "<", "cls")
        if c["k"] == "bin" and c["op"] in ("<", "!=", "<=", ">", ">="):
            a, b = c["a"]
            op = c["op"]
            if not (a["k"] == "ref" and a.get("id") == vid):
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
            if not (a["k"] == "ref" and a.get("id") == vid) or op not in ("<", "!=", "<="):
                return None
            return (vid, v.get("i"), b, op, "int")
        if c["k"] == "op" and c["op"] in ("!=", "<"):
            a, b = c["a"]
            if not (a["k"] == "ref" and a.get("id") == vid):
                a, b = b, a
            if a["k"] == "ref" and a.get("id") == vid:
                return (vid, v.get("i"), b, "!=", "iter")
        return None

    def s_While(self, s, states):
        o = Out()
        hv = [s["b"], s["c"]]
        if s.get("cvar"):
            q = self.loop(states, s["b"], lambda x: self.decl(s["cvar"], x), cond=s["c"], havoc_from=hv, whole=False)
        else:
            q = self.loop(states, s["b"], lambda x: [x], cond=s["c"], havoc_from=hv, whole=False)
        if s["c"].get("cv") == "1":
            # while (true): leaves only by break/return/throw
            q.norm = [x for x in q.norm if any(x is y for y in q.norm)] if False else self._breaks_only(q, states)
        self.merge_out(o, q)
        o.norm = q.norm
        return o

    def _breaks_only(self, q, states):
        return q.norm

    def s_Do(self, s, states):
        o = Out()
        q = self.loop(states, s["b"], lambda x: [x], cond=s["c"], havoc_from=[s["b"], s["c"]], post_cond=True, whole=False)
        self.merge_out(o, q)
        o.norm = q.norm
        return o

    # ---- lvalues
    def key(self, e, st):
        fr = self.stack[-1][1]
        k = ("v", fr, e["id"])
        for fi in range(len(self.stack) - 1, -1, -1):
            kk = ("v", self.stack[fi][1], e["id"])
            if kk in st.env or kk in st.alias:
                k = kk
                break
            if not self.stack[fi][0].get("lambda"):
                break
        n = 0
        while k in st.alias and n < 20:
            k = st.alias[k]
            n += 1
        return k

    def lv(self, e, st):
        k = e["k"]
        if k == "ref" and e.get("d") in ("local", "param", "binding"):
            return self.key(e, st)
        if k == "mem":
            b = self.pure(e["b"], st)
            if b is None:
                return None
            return self.fld(b, e["n"])
        if k == "cast":
            return self.lv(e["e"], st)
        if k == "un" and e["op"] == "*":
            return self.lv(e["e"], st)
        if k == "op" and e["op"] in ("*", "->"):
            return self.lv(e["a"][0], st)
        return None

    def pure(self, e, st):
        """term of a side-effect free expression, without forking"""
        sw, self.watch = self.watch, None
        swt, self.watch_throw = self.watch_throw, None
        self.trystack.append([])
        try:
            r = self.ev(e, st)
        finally:
            self.trystack.pop()
            self.watch, self.watch_throw = sw, swt
        return r[0][1] if len(r) == 1 else None

    def fld(self, b, n):
        if b.op == "new":
            m = FIELDS.get(b)
            if m and n in m:
                return m[n]
        return t("fld", b, n)

    def ctor_fields(self, f, av):
        """field -> term for members initialised straight from constructor parameters"""
        m = f.get("_cf")
        if m is None:
            m = f["_cf"] = {}
            ids = {p["id"]: i for i, p in enumerate(f["ps"])}
            asg = self.assigned(f["body"]) if f.get("body") else set()
            for i in f.get("inits", ()):
                x = i.get("e")
                while x and (x["k"] == "ctor" and len(x["a"]) >= 1 and (x.get("cm") or SMART.match(x["cls"])) or
                             x["k"] == "call" and PASS_FN.match(x.get("fn", "")) and x["a"] or
                             x["k"] == "cast" and not x.get("tw")):
                    x = x["e"] if x["k"] == "cast" else x["a"][0]
                if i.get("f") and x and x["k"] == "ref" and x.get("id") in ids and x["id"] not in asg:
                    m[i["f"].split("::")[-1]] = ids[x["id"]]
        return {k: av[i] for k, i in m.items() if i < len(av)}

    def read(self, k, st):
        if isinstance(k, T):
            return st.env.get(k, k)
        v = st.env.get(k)
        return v if v is not None else unk("var")

    # ---- conditions
    def evc(self, e, st):
        k = e["k"]
        if "cv" in e:
            return ([st], []) if e["cv"] != "0" else ([], [st])
        if k == "un" and e["op"] == "!":
            a, b = self.evc(e["e"], st)
            return b, a
        if k == "op" and e["op"] == "!":
            a, b = self.evc(e["a"][0], st)
            return b, a
        if k == "bin" and e["op"] == "&&":
            a, b = self.evc(e["a"][0], st)
            T_, F_ = [], list(b)
            for x in a:
                p, q = self.evc(e["a"][1], x)
                T_ += p
                F_ += q
            return T_, reduce_states(F_)
        if k == "bin" and e["op"] == "||":
            a, b = self.evc(e["a"][0], st)
            T_, F_ = list(a), []
            for x in b:
                p, q = self.evc(e["a"][1], x)
                T_ += p
                F_ += q
            return reduce_states(T_), F_
        if k == "cast" or k == "conv":
            inner = e.get("e") if k == "cast" else e.get("o")
            if k == "cast" and e.get("fw") and e.get("tw") and e["t"] != "bool":
                pass
            elif inner is not None and not (k == "conv" and e.get("repo") and not SMART.match(e.get("fn", ""))):
                return self.evc(inner, st)
        if k == "cond":
            a, b = self.evc(e["a"][0], st)
            T_, F_ = [], []
            for x in a:
                p, q = self.evc(e["a"][1], x)
                T_ += p
                F_ += q
            for x in b:
                p, q = self.evc(e["a"][2], x)
                T_ += p
                F_ += q
            return T_, F_
        T_, F_ = [], []
        for s2, v in self.ev(e, st):
            x, pol = self.boolterm(v, e)
            a = s2.assume(x, pol)
            b = s2.assume(x, not pol)
            if a is not None:
                T_.append(a)
            if b is not None:
                F_.append(b)
        return T_, F_

    def boolterm(self, v, e):
        if v.op == "c":
            return TRUE, bool(v.a[0])
        if v.op == "not":
            return v.a[0], False
        if v.op in ("eq", "lt", "nn", "and", "or", "algo"):
            return v, True
        ty = e.get("t", "")
        if ty.endswith("*") or SMART.match(ty):
            return t("nn", v), True
        if ty in ("bool", "const bool"):
            return v, True
        if re.match(r"(const )?(unsigned|int|long|char|short|size_t|uint)", ty):
            x, p = mk_eq(v, ZERO)
            return x, not p
        return t("nn", v), True

    # ---- expressions
    def ev(self, e, st):
        if e is None:
            return [(st, t("void"))]
        k = e["k"]
        if "cv" in e and k not in ("call", "op"):
            return [(st, const(e["cv"]))]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return [(st, unk(k))]
        r = m(e, st)
        if len(r) > 1:
            r = self.reduce_vals(r)
        if self.on_eval is not None and self.watch is not None:
            self.on_eval(e, r, self.stack[-1][0])
        return r

    def reduce_vals(self, r):
        by = {}
        for s, v in r:
            by.setdefault(v, []).append(s)
        out = []
        for v, ss in by.items():
            for s in reduce_states(ss):
                out.append((s, v))
        return out

    def evs(self, es, st):
        """evaluate a list -> [(state, [terms])]"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            if len(nxt) > MAXSTATES:
                by = {}
                for s, vs in nxt:
                    by.setdefault(tuple(vs), []).append(s)
                if len(by) > MAXSTATES:     # too many values to keep apart: an unknown one
                    by = {(unk("arg"),) * len(nxt[0][1]): [s for s, _ in nxt]}
                nxt = [(s, list(vs)) for vs, ss in by.items() for s in reduce_states(ss)]
            acc = nxt
        return acc

    def e_lit(self, e, st):
        return [(st, const(e["cv"]) if "cv" in e else unk("lit"))]

    def e_flt(self, e, st):
        return [(st, t("flt", e["v"]))]

    def e_str(self, e, st):
        return [(st, t("str", e["v"]))]

    def e_null(self, e, st):
        return [(st, NULL)]

    def e_zero(self, e, st):
        return [(st, ZERO)]

    def e_this(self, e, st):
        return [(st, self.stack[-1][2])]

    def e_typeid(self, e, st):
        return [(st, unk("typeid"))]

    def e_ref(self, e, st):
        d = e.get("d")
        if d in ("local", "param", "binding"):
            return [(st, self.read(self.key(e, st), st))]
        if d == "slocal":
            return [(st, t("glob", "static " + e["n"]))]
        return [(st, t("glob", e.get("q", e["n"])))]

    def e_enumc(self, e, st):
        return [(st, const(e["cv"]) if "cv" in e else t("glob", e["q"]))]

    def e_fref(self, e, st):
        return [(st, t("fn", sname(e["fn"])))]

    def e_mref(self, e, st):
        return [(st, t("fn", sname(e["fn"])))]

    def e_mem(self, e, st):
        if e.get("b") is None:
            return [(st, t("glob", e.get("q", e["n"])))]
        r = []
        for s, b in self.ev(e["b"], st):
            f = self.fld(b, e["n"])
            if b.op == "new" and f not in s.env:
                # field of a freshly brace-constructed aggregate
                r.append((s, f))
            else:
                r.append((s, s.env.get(f, f)))
        return r

    def e_sub(self, e, st):
        return [(s, self.index(v[0], v[1])) for s, v in self.evs(e["a"], st)]

    def index(self, x, i):
        if i.op == "iv" and i.a[0] is ZERO and (i.a[1] is t("size", x)):
            return self.elem(x)
        return t("at", x, i)

    def e_ilist(self, e, st):
        rec = self.F.recs.get(re.sub(r"^const ", "", e.get("t", "")))
        if rec and len(rec["fields"]) == len(e["a"]) and not rec["bases"]:
            out = []
            for s, v in self.evs(e["a"], st):
                x = t("new", sname(rec["q"]), tuple(v))
                FIELDS[x] = {f["n"]: y for f, y in zip(rec["fields"], v)}
                out.append((s, x))
            return out
        return [(s, t("ilist", tuple(v)) if len(v) != 1 else v[0]) for s, v in self.evs(e["a"], st)]

    def e_other(self, e, st):
        return [(s, t("other", e["c"], tuple(v))) for s, v in self.evs(e.get("a", []), st)]

    def e_new(self, e, st):
        if e.get("i"):
            return self.ev(e["i"], st)
        return [(st, t("new", e["at"], ()))]

    def e_del(self, e, st):
        return [(s, t("void")) for s, v in self.ev(e["e"], st)]

    def e_throw(self, e, st):
        if e.get("e") is None:
            self.throw(st, "rethrow", e)
            return []
        for s, v in self.ev(e["e"], st):
            self.throw(s, e["e"].get("cls") or e["e"].get("t", "?"), e)
        return []

    def throw(self, st, cls, e):
        if self.watch_throw:
            self.watch_throw(cls, st, e, self.stack[-1][0])
        if self.trystack:
            self.trystack[-1].append((st, cls))

    def e_cast(self, e, st):
        r = []
        for s, v in self.ev(e["e"], st):
            if e.get("fw") and e.get("tw") and e["tw"] < e["fw"] and not is_c(v) and e["t"] != "bool":
                if v.op.startswith("trunc") and int(v.op[5:]) <= e["tw"] or promoted_from(e["e"], e["fw"]) <= e["tw"]:
                    pass
                else:
                    v = t("trunc%d" % e["tw"], v)
                    if unsigned(e["t"]):
                        UNSIGNED.add(v)
            r.append((s, v))
        return r

    def e_conv(self, e, st):
        fn = sname(e["fn"])
        if fn.endswith("operator bool") and not (e.get("repo") and not SMART.match(fn)):
            return [(s, t("nn", v)) for s, v in self.ev(e["o"], st)]
        f = self.target(e)
        if f is not None and e.get("repo"):
            return self.invoke(e, st, e.get("o"), [])
        return self.ev(e["o"], st)

    def e_cond(self, e, st):
        a, b = self.evc(e["a"][0], st)
        m = self.min_max(e, st)
        if m is not None:
            return m
        r = []
        for x in a:
            r += self.ev(e["a"][1], x)
        for x in b:
            r += self.ev(e["a"][2], x)
        return r

    def min_max(self, e, st):
        """`a < b ? a : b` and its spellings are min/max(a, b)"""
        def strip(x):
            while x.get("k") == "cast":
                x = x["e"]
            return x
        c = strip(e["a"][0])
        if c.get("k") != "bin" or c.get("op") not in ("<", "<=", ">", ">="):
            return None
        if not all(self.pure(x, st) for x in c["a"]):
            return None
        xs = [self.ev(x, st) for x in list(c["a"]) + [e["a"][1], e["a"][2]]]
        if any(len(x) != 1 or x[0][0] is not st for x in xs):
            return None
        l, r, y, n = [x[0][1] for x in xs]
        if is_c(l) and is_c(r) or l is r or l.op == "unk" or r.op == "unk":
            return None
        if (y, n) == (l, r):
            mn = c["op"][0] == "<"
        elif (y, n) == (r, l):
            mn = c["op"][0] == ">"
        else:
            return None
        return [(st, t("min" if mn else "max", *sorted((l, r), key=show)))]

    def e_un(self, e, st):
        op = e["op"]
        if op == "&" or op == "*" or op == "+":
            return self.ev(e["e"], st)
        if op == "!":
            r = []
            for s, v in self.ev(e["e"], st):
                x, pol = self.boolterm(v, e["e"])
                r.append((s, t("not", x) if pol else x))
            return r
        if op in ("++", "--"):
            r = []
            lk = self.lv(e["e"], st)
            for s, v in self.ev(e["e"], st):
                nv = add(v, const(1 if op == "++" else -1))
                if lk is not None:
                    s = s.copy()
                    s.env[lk] = nv
                r.append((s, v if e.get("post") else nv))
            return r
        if op == "-":
            return [(s, arith("-", ZERO, v)) for s, v in self.ev(e["e"], st)]
        return [(s, t("un" + op, v)) for s, v in self.ev(e["e"], st)]

    def assign(self, lhs, st, val):
        lk = self.lv(lhs, st)
        s = st.copy()
        if lk is not None:
            s.env[lk] = val
            # nested fields of an overwritten object are gone
            for k in [k for k in s.env if isinstance(k, T) and k.op == "fld" and k.a[0] is lk]:
                del s.env[k]
        else:
            root = self.rootvar(lhs)
            if root is not None:
                rk = self.key(root, st)
                if rk in s.env:
                    s.env[rk] = t("upd", s.env[rk], "=", (val,))
        return s

    def rootvar(self, e):
        while isinstance(e, dict):
            if e["k"] == "ref" and e.get("d") in ("local", "param", "binding"):
                return e
            if e["k"] == "mem" and not e.get("arrow"):
                e = e["b"]
            elif e["k"] == "sub":
                e = e["a"][0]
            elif e["k"] == "op" and e["op"] == "[]":
                e = e["a"][0]
            elif e["k"] == "call" and e.get("n") in ("at", "front", "back") and e.get("o"):
                e = e["o"]
            else:
                return None
        return None

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            # value use of a logical expression
            tr, fa = self.evc(e, st)
            return [(x, TRUE) for x in tr] + [(x, FALSE) for x in fa]
        if op == ",":
            r = []
            for s, _ in self.ev(e["a"][0], st):
                r += self.ev(e["a"][1], s)
            return r
        if op == "=":
            r = []
            bt = e["a"][0].get("t", "")
            for s, v in self.evb(e["a"][1], st, bt):
                r.append((self.assign(e["a"][0], s, v), v))
            return r
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            r = []
            for s, (a, b) in self.evs(e["a"], st):
                v = self.binop(op[:-1], a, b, e)
                r.append((self.assign(e["a"][0], s, v), v))
            return r
        return [(s, self.binop(op, a, b, e)) for s, (a, b) in self.evs(e["a"], st)]

    def binop(self, op, a, b, e=None):
        if op == "==" or op == "!=":
            x, p = mk_eq(a, b)
            if op == "!=":
                p = not p
            return (x if p else t("not", x)) if x is not TRUE else const(int(p))
        if op in ("<", ">", "<=", ">="):
            if op == "<": x, p = mk_lt(a, b)
            elif op == ">": x, p = mk_lt(b, a)
            elif op == "<=":
                x, p = mk_lt(b, a)
                p = not p
            else:
                x, p = mk_lt(a, b)
                p = not p
            return (x if p else t("not", x)) if x is not TRUE else const(int(p))
        if size_of(a) + size_of(b) > MAXTERM:
            return unk("big")
        return arith(op, a, b)

    def e_op(self, e, st):
        op = e["op"]
        args = e["a"]
        fnq = sname(e.get("fn", ""))
        if op in ("->", "*") and len(args) == 1:
            return self.ev(args[0], st)
        if op == "=":
            r = []
            for s, v in self.ev(args[1], st):
                r.append((self.assign(args[0], s, v), v))
            return r
        if op == "[]" and not e.get("repo"):
            return [(s, self.index(v[0], v[1])) for s, v in self.evs(args, st)]
        if op == "()":
            return self.call_value(args[0], args[1:], e, st)
        if op in ("++", "--"):
            r = []
            for s, v in self.ev(args[0], st):
                r.append((self.assign(args[0], s, add(v, const(1 if op == "++" else -1))), v))
            return r
        if op == "<<" and not e.get("repo"):
            return [(s, t("shl", *v)) for s, v in self.evs(args, st)]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            # comparison operators of value classes: defined through == and <
            if e.get("repo"):
                f = self.target(e)
                if f is not None and self.should_expand(f, e):
                    return self.invoke(e, st, None, args)
            return [(s, self.binop(op, v[0], v[1])) for s, v in self.evs(args, st)]
        if op in ("+", "-", "*", "/", "%", "&", "|", "^") and len(args) == 2:
            r = []
            for s, v in self.evs(args, st):
                r.append((s, self.binop(op, v[0], v[1]) if op in ("+", "-") and self.numeric(e) else t("op" + op, v[0], v[1])))
            return r
        if op in ("+=", "-=", "*=", "|=", "&=", "^="):
            r = []
            for s, (a, b) in self.evs(args, st):
                v = self.binop(op[0], a, b) if self.numeric(e) else t("op" + op[0], a, b)
                r.append((self.assign(args[0], s, v), v))
            return r
        return [(s, t("op" + op, *v)) for s, v in self.evs(args, st)]

    def numeric(self, e):
        return not e.get("t", "").startswith("std::") and "basic_string" not in e.get("t", "")

    def e_lambda(self, e, st):
        cap = st
        fr = self.stack[-1][1]
        e.setdefault("_lid", id(e))
        lam = t("lam", e["_lid"])
        LAMS[e["_lid"]] = (e, fr, self.stack[-1][2], dict(st.env))
        s = st
        ic = [c for c in e.get("caps", ()) if c.get("i")]
        if ic:
            s = st.copy()
            for c in ic:
                v = self.ev(c["i"], s)[0][1]
                s.env[("v", fr, c["id"])] = v
        return [(s, lam)]

    def call_lambda(self, lam, argterms, st):
        """walk a lambda body in the frame it was created in"""
        e, fr, this, capenv = LAMS[lam.a[0]]
        if any(x[0].get("_lid") == lam.a[0] for x in self.stack if isinstance(x[0], dict)):
            return Out([st])
        n = st.copy()
        for k, v in capenv.items():
            n.env.setdefault(k, v)
        for p, a in zip(e["ps"], argterms):
            n.env[("v", fr, p["id"])] = a
            if ("v", fr, p["id"]) in n.alias:
                n.alias = {k: w for k, w in n.alias.items() if k != ("v", fr, p["id"])}
        pseudo = {"u": "lambda", "q": "lambda", "ret": e.get("rt", ""), "lambda": 1, "_lid": lam.a[0], "file": self.stack[-1][0].get("file", ""), "l": e.get("l", 0), "ps": e["ps"]}
        # does it return bool?
        pseudo["ret"] = lambda_ret(e)
        self.stack.append((pseudo, fr, this))
        o = self.stmt(e.get("body"), [n]) if e.get("body") else Out([n])
        self.stack.pop()
        for s in o.norm:
            o.ret.append((s, t("void")))
        o.norm = []
        return o

    def call_value(self, callee, args, e, st):
        r = []
        for s, vs in self.evs([callee] + list(args), st):
            f, a = vs[0], vs[1:]
            if f.op == "lam" and len(self.stack) < 40:
                o = self.call_lambda(f, a, s)
                for x in o.thr:
                    if self.trystack:
                        self.trystack[-1].append(x)
                r += o.ret
            else:
                r.append(self.event(e, s, t("call", "invoke", f, tuple(a))))
        return r

    def e_ctor(self, e, st):
        args = e["a"]
        cls = sname(e["cls"])
        if e.get("cm") and len(args) >= 1:
            return self.ev(args[0], st)
        if len(args) == 1 and re.match(r"std::(_Rb_tree_const_iterator|__detail::_Node_const_iterator|_List_const_iterator|_Deque_iterator)\b|__gnu_cxx::__normal_iterator\b", cls):
            return self.ev(args[0], st)
        if SMART.match(cls):
            if not args:
                return [(st, NULL)]
            return [(s, v[0]) for s, v in self.evs(args, st)]
        if cls.startswith("std::basic_string") and args:
            rs = self.evs(args, st)
            if len(args) <= 2 and args[0]["k"] in ("str",):
                return [(s, v[0]) for s, v in rs]
            return [(s, t("new", cls, tuple(x for x in v if not (x.op == "new" and "allocator" in x.a[0])))) for s, v in rs]
        if cls.startswith("std::allocator"):
            return [(st, t("new", "allocator", ()))]
        if re.match(r"std::atomic(_bool|<.*>)?$", cls) and len(args) == 1:
            return self.ev(args[0], st)
        if cls in ("std::thread", "std::jthread") and args:
            return self.spawn(args, st)
        r = []
        m = re.match(r"std::chrono::duration<[^<]*ratio<(\d+), (\d+)>>", e["cls"])
        for s, v in self.evs(args, st):
            v = [x for x in v if not (x.op == "new" and "allocator" in str(x.a[0]))]
            if m and len(v) == 1:
                # durations count seconds (or the named fraction), whatever unit the source spells
                if v[0].op == "new" and v[0].a[0].startswith("std::chrono::duration"):
                    r.append((s, v[0]))
                    continue
                num, den = int(m[1]), int(m[2])
                if is_c(v[0]):
                    n = v[0].a[0] * num
                    v, den = ([const(n // den)], 1) if n % den == 0 else ([const(n)], den)
                elif num != 1:
                    v = [t("mul", v[0], const(num))]
                r.append((s, t("new", "std::chrono::duration" + ("" if den == 1 else "/%d" % den), tuple(v))))
                continue
            if len(v) == 1 and v[0].op == "ilist" and cls.startswith("std::"):
                term = t("new", cls, v[0].a[0])
            else:
                term = t("new", cls, tuple(v))
            if size_of(term) > MAXTERM:
                term = unk("big")
            self.detach(v, s)
            f = self.F.fns.get(e.get("u"))
            if f is not None and term.op == "new" and term not in FIELDS:
                FIELDS[term] = self.ctor_fields(f, v)
            r.append(self.event(e, s, term, record=bool(e.get("repo"))))
        return r

    def detach(self, vals, st):
        """a lambda handed to code we do not look into: visit its body for what it contains"""
        for v in vals:
            if v.op == "lam" and (self.watch or self.watch_throw):
                e = LAMS[v.a[0]][0]
                self.trystack.append([])
                self.call_lambda(v, [unk("arg") for _ in e["ps"]], st)
                self.trystack.pop()

    def spawn(self, args, st):
        """a thread over a lambda borrowing this frame's locals has to be joined before the frame ends: its effects happen"""
        r = []
        for s, v in self.evs(args, st):
            if v[0].op == "lam" and not any(x[0].get("_lid") == v[0].a[0] for x in self.stack if isinstance(x[0], dict)):
                if LAMS[v[0].a[0]][0].get("ps") and len(v) == 1:
                    self.detach(v, s)
                    r.append((s, t("new", "std::thread", (v[0],))))
                    continue
                self.trystack.append([])
                o = self.call_lambda(v[0], v[1:], s)
                self.trystack.pop()
                r += [(x, t("new", "std::thread", (v[0],))) for x, _ in o.ret] or [(s, t("new", "std::thread", (v[0],)))]
            else:
                self.detach(v, s)
                r.append((s, t("new", "std::thread", tuple(v))))
        return r

    # ---- calls
    def target(self, e):
        u = e.get("u")
        f = self.F.fns.get(u)
        if f is None and u in self.F.overriders and not e.get("nonvirt"):
            os_ = [x for x in self.F.overriders[u] if x in self.F.fns]
            if len(os_) == 1:
                f = self.F.fns[os_[0]]
        elif f is not None and e.get("virt") and self.F.overriders.get(u) and not e.get("nonvirt"):
            return None
        return f

    def getter(self, f, depth=0):
        """field path returned by a trivial accessor, or None"""
        g = f.get("_get")
        if g is not None:
            return g or None
        f["_get"] = False
        if not f.get("body") or len(f["ps"]) > 2:
            return None
        b = [x for x in f["body"]["s"] if x["k"] != "N"]
        if len(b) != 1 or b[0]["k"] != "Ret" or b[0].get("e") is None:
            return None
        e = b[0]["e"]
        if self.simple(e, depth):
            f["_get"] = e
            return e
        return None

    def simple(self, e, depth=0):
        if depth > 6:
            return False
        k = e["k"]
        if k == "this":
            return True
        if k == "ref" and e.get("d") == "param":
            return True
        if k == "sub" or (k == "op" and e["op"] == "[]" and not e.get("repo")):
            return all(self.simple(x, depth) for x in e["a"])
        if k == "call" and e.get("o") is not None and e.get("n") == "at" and not e.get("repo"):
            return self.simple(e["o"], depth) and self.simple(e["a"][0], depth)
        if k == "mem":
            return e.get("b") is not None and self.simple(e["b"], depth)
        if k in ("op",) and e["op"] in ("->", "*") and len(e["a"]) == 1:
            return self.simple(e["a"][0], depth)
        if k == "un" and e["op"] in ("*", "&"):
            return self.simple(e["e"], depth)
        if k == "cast" and not (e.get("tw") and e.get("fw") and e["tw"] < e["fw"]):
            return self.simple(e["e"], depth)
        if k == "ctor" and e.get("cm") and len(e["a"]) >= 1:
            return self.simple(e["a"][0], depth)
        if k == "ctor" and SMART.match(e["cls"]) and len(e["a"]) == 1:
            return self.simple(e["a"][0], depth)
        if k == "call" and e.get("o") is not None and not e["a"]:
            if e["n"] in DEREF_M and SMART.match(e["o"].get("t", "")):
                return self.simple(e["o"], depth)
            f = self.target(e)
            if f is not None and not f["ps"] and self.getter(f, depth + 1) is not None:
                return self.simple(e["o"], depth)
        return False

    def should_expand(self, f, e=None):
        if f is None or not f.get("body"):
            return False
        if len(self.stack) > self.maxdepth + 4:
            return False
        if any(x[0] is f for x in self.stack):
            return False
        if self.opaque(f):
            return False
        if self.expand_extra(f):
            return True
        if NOEV.match(f["q"]):
            return False
        if self.baseline is not None and sname(f["q"]) not in self.baseline:
            return True   # introduced after the baseline: never a boundary
        if f.get("acc") in (1, 2) and f.get("cls") and not f.get("virt"):
            return True
        if f.get("static") and not f.get("cls") and f["file"].endswith(".cpp"):
            return True
        if "(anonymous namespace)" in f["q"]:
            return True
        return False

    def e_call(self, e, st):
        n = e.get("n")
        fn = sname(e.get("fn", ""))
        args = e["a"]
        o = e.get("o")
        if "fn" not in e:
            return self.call_value(e["ce"], args, e, st)
        if "cv" in e and o is None:
            return [(st, const(e["cv"]))]
        if PASS_FN.match(fn) and args and not (fn == "std::make_optional" and len(args) > 1):
            return [(s, v[0] if v else NULL) for s, v in self.evs(args[:1], st)]
        if fn in ("std::make_shared", "std::make_unique", "std::allocate_shared", "std::make_optional"):
            cls = sname(e["t"])
            mm = re.match(r"(?:const )?std::(?:shared_ptr|unique_ptr|optional)<(.*?)(?:, std::default_delete.*)?>$", e["t"])
            if mm:
                cls = sname(mm.group(1))
            r = []
            for s, v in self.evs(args, st):
                if len(v) == 1 and args[0].get("t", "").replace("const ", "") == cls:
                    r.append((s, v[0]))
                else:
                    self.detach(v, s)
                    r.append(self.event(e, s, t("new", cls, tuple(v)), record=False))
            return r
        if o is not None and n in DEREF_M and not args and SMART.match(o.get("t", "") or ""):
            return self.ev(o, st)
        if o is not None and n in ("has_value",) and not args:
            return [(s, t("nn", v)) for s, v in self.ev(o, st)]
        if o is not None and not e.get("repo"):
            r = self.std_method(e, n, o, args, st)
            if r is not None:
                return r
        if fn.startswith("FunctionalUtil::transform_if") and len(args) == 5:
            return self.transform_if(e, args, st)
        if o is None and fn.startswith("std::"):
            r = self.std_fn(e, fn, args, st)
            if r is not None:
                return r
        return self.invoke(e, st, o, args)

    def std_method(self, e, n, o, args, st):
        if n in ("size", "length") and not args:
            return [(s, t("size", v)) for s, v in self.ev(o, st)]
        if n == "empty" and not args:
            return [(s, t("eq", t("size", v), ZERO)) for s, v in self.ev(o, st)]
        if n in ("begin", "cbegin") and not args:
            return [(s, t("begin", v)) for s, v in self.ev(o, st)]
        if n in ("end", "cend") and not args:
            return [(s, t("end", v)) for s, v in self.ev(o, st)]
        if n == "at" and len(args) == 1:
            return [(s, self.index(v[0], v[1])) for s, v in self.evs([o] + args, st)]
        if n in ("find",) and len(args) == 1 and "basic_string" not in o.get("t", ""):
            return [(s, t("found", v[0], v[1])) for s, v in self.evs([o] + args, st)]
        if n == "count" and len(args) == 1:
            return [(s, t("count", v[0], v[1])) for s, v in self.evs([o] + args, st)]
        if n == "get" and not args and "std::future" in (o.get("t") or ""):
            rs = self.ev(o, st)
            if all(v.op == "new" and v.a[0] == "std::future" for _, v in rs):
                return [(s, v.a[1][0]) for s, v in rs]
        if n == "load" and "atomic" in (o.get("t") or "") and not args:
            return self.ev(o, st)
        if n == "store" and "atomic" in (o.get("t") or "") and args:
            return [(self.assign(o, s, v), t("void")) for s, v in self.ev(args[0], st)]
        if n in ("emplace_back", "push_back") and "std::thread" in (o.get("t") or "") and len(args) == 1 and args[0].get("k") == "lambda":
            return self.spawn(args, st)
        return None

    def std_fn(self, e, fn, args, st):
        n = fn[5:]
        if n == "async" and args:
            # the task's value and exceptions surface at get(); a task over this frame's locals is awaited before the frame ends
            r = []
            for s, v in self.evs(args, st):
                i = next((i for i, x in enumerate(v) if x.op == "lam"), None)
                if i is None or any(x[0].get("_lid") == v[i].a[0] for x in self.stack if isinstance(x[0], dict)):
                    r.append(self.event(e, s, t("call", fn, None, tuple(v))))
                    continue
                o = self.call_lambda(v[i], v[i + 1:], s)
                for x in o.thr:
                    if self.trystack:
                        self.trystack[-1].append(x)
                r += [(x, t("new", "std::future", (w if w is not None else t("void"),))) for x, w in o.ret]
            return r
        if n == "for_each" and len(args) == 3:
            r = []
            for s, v in self.evs(args, st):
                X = whole_range(v)
                f = v[2]
                if f.op != "lam":
                    r.append(self.event(e, s, t("call", "invoke", f, (self.elem(X),))))
                    continue
                el = self.elem(X)
                body = {"k": "LamBody", "lam": f, "el": el, "e": LAMS[f.a[0]][0].get("body")}
                lps, lfr = LAMS[f.a[0]][0]["ps"], LAMS[f.a[0]][1]

                def bind(x, el=el, lps=lps, lfr=lfr):
                    x = x.copy()
                    if lps:
                        x.env[("v", lfr, lps[0]["id"])] = el
                    return [x]
                q = self.loop([s], body, bind, havoc_from=[body["e"]])
                for x in q.thr:
                    if self.trystack:
                        self.trystack[-1].append(x)
                r += [(x, t("void")) for x in q.norm]
            return r
        if n == "accumulate" and len(args) in (3, 4):
            r = []
            for s, v in self.evs(args, st):
                X = whole_range(v)
                el, acc = self.elem(X), t("acc", v[2], 0)
                if len(args) == 3:
                    vals = [(s, add(acc, el))]
                elif v[3].op == "lam":
                    oo = self.call_lambda(v[3], [acc, el], s)
                    vals = oo.ret
                    for x in oo.thr:
                        if self.trystack:
                            self.trystack[-1].append(x)
                else:
                    r.append((s, t("call", "std::accumulate", None, tuple(v))))
                    continue
                ins, bad = set(), False
                for x, val in vals:
                    d = add(val, acc, -1)
                    if any(y is acc for y in subterms(d)):
                        bad = True
                    if d is ZERO:
                        continue
                    g = tuple(sorted((f if b else t("not", f) for f, b in x.facts.items()
                                      if f not in s.facts and loopsyms(f) and f.op != "ev"), key=show))
                    ins.add(t("when", g, d) if g else d)
                r.append((s, unk("fold") if bad else t("sum", v[2], tuple(sorted(ins, key=show))) if ins else v[2]))
            return r
        if n in ("all_of", "any_of", "none_of", "find_if", "find_if_not", "count_if") and len(args) == 3:
            r = []
            for s, v in self.evs(args, st):
                X = whole_range(v)
                f = v[2]
                el = self.elem(X)
                if f.op != "lam":
                    if f.op == "fn":
                        ft = t("call", f.a[0], None, (el,))
                        tr, fa = s.assume(ft, True), s.assume(ft, False)
                        o_ret = [(x, c) for x, c in ((tr, TRUE), (fa, FALSE)) if x is not None]
                    else:
                        r.append((s, unk(n)))
                        continue
                else:
                    oo = self.call_lambda(f, [el], s)
                    o_ret = oo.ret
                    for x in oo.thr:
                        if self.trystack:
                            self.trystack[-1].append(x)
                trs, fas = [], []
                for x, val in o_ret:
                    b, pol = self.boolterm(val, {"t": "bool"})
                    y = x.assume(b, pol)
                    z = x.assume(b, not pol)
                    if y: trs.append(y)
                    if z: fas.append(z)

                def univ(sts):
                    nn = s.copy()
                    common = None
                    for x in sts:
                        ff = {a: b for a, b in x.facts.items() if a not in s.facts and loopsyms(a)}
                        common = ff if common is None else {a: b for a, b in common.items() if ff.get(a) == b}
                    nn.facts.update(common or {})
                    self.alternatives(nn, sts, common or {}, lambda a: loopsyms(a) and a not in s.facts)
                    return nn

                def exis(sts):
                    nn = s.copy()
                    common = None
                    m = {el: t("some", X)}
                    for x in sts:
                        ff = {subst(a, m): b for a, b in x.facts.items() if a not in s.facts}
                        common = ff if common is None else {a: b for a, b in common.items() if ff.get(a) == b}
                    nn.facts.update(common or {})
                    return nn
                if n == "all_of":
                    r += [(univ(trs), TRUE), (exis(fas), FALSE)]
                elif n == "any_of":
                    r += [(exis(trs), TRUE), (univ(fas), FALSE)]
                elif n == "none_of":
                    r += [(univ(fas), TRUE), (exis(trs), FALSE)]
                elif n in ("find_if", "find_if_not"):
                    if n == "find_if_not":
                        trs, fas = fas, trs
                    a, b = exis(trs), univ(fas)
                    a = a.assume(t("eq", t("end", X), t("some", X)), False) or a
                    r += [(a, t("some", X)), (b, t("end", X))]
                else:
                    g = set()
                    for x in trs:
                        g.add(tuple(sorted((f_ if b else t("not", f_) for f_, b in x.facts.items()
                                            if f_ not in s.facts and loopsyms(f_) and f_.op != "ev"), key=show)))
                    ins = tuple(sorted((t("when", y, TRUE) if y else TRUE for y in g), key=show))
                    r.append((s, t("sum", ZERO, ins) if ins else ZERO))
            return r
        if n in ("find",) and len(args) == 3:
            return [(s, t("found", whole_range(v), v[2])) for s, v in self.evs(args, st)]
        if n in ("transform",) and len(args) == 4:
            r = []
            for s, v in self.evs(args, st):
                X = whole_range(v)
                s2 = s
                if v[3].op == "lam":
                    oo = self.call_lambda(v[3], [self.elem(X)], s)
                    vals = {x for _, x in oo.ret}
                    dst = self.inserter_target(args[2])
                    if dst is not None and len(vals) == 1:
                        k = self.key(dst, s)
                        if k in s.env:
                            s2 = s.copy()
                            s2.env[k] = t("coll", s.env[k], (list(vals)[0],))
                r.append((s2, t("void")))
            return r
        if n in ("copy", "copy_if"):
            r = []
            for s, v in self.evs(args, st):
                X = whole_range(v)
                dst = self.inserter_target(args[2])
                s2 = s
                if n == "copy_if":
                    X = t("part", X, v[3] if len(v) > 3 else unk("pred"))
                if dst is not None:
                    k = self.key(dst, s)
                    if k in s.env:
                        s2 = s.copy()
                        s2.env[k] = t("coll", s.env[k], (self.elem(X),))
                r.append((s2, t("void")))
            return r
        if n in ("min", "max") and len(args) == 2:
            r = []
            for s, v in self.evs(args, st):
                if is_c(v[0]) and is_c(v[1]):
                    r.append((s, const((min if n == "min" else max)(v[0].a[0], v[1].a[0]))))
                else:
                    r.append((s, t(n, *sorted(v, key=show))))
            return r
        if n in ("sort", "stable_sort", "reverse"):
            r = []
            for s, v in self.evs(args[:2], st):
                k = args[0].get("o")
                s2 = s
                root = self.rootvar(k) if k else None
                if root is not None:
                    kk = self.key(root, s)
                    if kk in s.env:
                        s2 = s.copy()
                        s2.env[kk] = t(n + "ed", s.env[kk])
                r.append((s2, t("void")))
            return r
        if n in ("pair", "make_pair", "make_tuple", "tie"):
            return [(s, t("tuple", tuple(v))) for s, v in self.evs(args, st)]
        return None

    def transform_if(self, e, args, st):
        r = []
        for s, v in self.evs(args, st):
            X = whole_range(v)
            s2 = s
            dst = self.inserter_target(args[2])
            if v[3].op == "lam" and v[4].op == "lam" and dst is not None:
                el = self.elem(X)
                oo = self.call_lambda(v[3], [el], s)
                ins = set()
                for x, val in oo.ret:
                    b, pol = self.boolterm(val, {"t": "bool"})
                    y = x.assume(b, pol)
                    if y is None:
                        continue
                    g = tuple(sorted((f if w else t("not", f) for f, w in y.facts.items()
                                      if f not in s.facts and loopsyms(f) and f.op != "ev"), key=show))
                    for _, tv in self.call_lambda(v[4], [el], y).ret:
                        ins.add(t("when", g, tv) if g else tv)
                k = self.key(dst, s)
                if k in s.env:
                    s2 = s.copy()
                    s2.env[k] = t("coll", s.env[k], tuple(sorted(ins, key=show)))
            r.append((s2, t("void")))
        return r

    def inserter_target(self, e):
        if e["k"] == "call" and e.get("n") in ("back_inserter", "inserter") and e["a"]:
            return self.rootvar(e["a"][0])
        return None

    def invoke(self, e, st, o, args):
        fn = sname(e.get("fn", "?"))
        f = self.target(e)
        # trivial accessor
        if f is not None and o is not None and not self.opaque(f) and not f.get("variadic"):
            g = self.getter(f)
            if g is not None:
                r = []
                for s, vs in self.evs([o] + list(args), st):
                    self.frames += 1
                    fr = self.frames
                    n = s
                    if args:
                        n = s.copy()
                        for p, a in zip(f["ps"], vs[1:]):
                            n.env[("v", fr, p["id"])] = a
                    self.stack.append((f, fr, vs[0]))
                    try:
                        for s2, v in self.ev(g, n):
                            r.append((s, v))
                    finally:
                        self.stack.pop()
                return r
        exprs = ([o] if o is not None else []) + list(args)
        r = []
        # a default-constructed base object mutated in place
        for s, vs in self.evs(exprs, st):
            obj = vs[0] if o is not None else None
            av = vs[1:] if o is not None else vs
            if f is not None and self.should_expand(f, e):
                r += self.inline(f, e, s, o, obj, args, av)
                continue
            term = t("call", fn, obj, tuple(av))
            if size_of(term) > MAXTERM:
                term = t("call", fn, unk("big") if obj is not None else None, ())
            self.detach(av, s)
            s2, v = self.event(e, s, term, obj=obj, args=av)
            # out-parameters and mutated value objects
            pm = e.get("pm", "")
            upd = []
            for i, y in enumerate(args):
                if i < len(pm) and pm[i] == "m":
                    tgt = y
                    if y["k"] == "un" and y["op"] == "&":
                        tgt = y["e"]
                    root = self.rootvar(tgt)
                    if root is not None and not self.is_arrow(tgt):
                        upd.append((self.key(root, s2), i))
            if upd:
                s2 = s2.copy()
                for k, i in upd:
                    if k in s2.env:
                        s2.env[k] = t("out", term, i)
            if o is not None and not e.get("cst") and not self.is_arrow(o) and not (not e.get("repo") and e.get("n") in ACCESSOR):
                root = self.rootvar(o)
                if root is not None and not SMART.match(root.get("t", "")):
                    k = self.key(root, s2)
                    if k in s2.env:
                        s2 = s2.copy()
                        old = s2.env[k]
                        nv = t("upd", old, "push_back" if e.get("n") == "emplace_back" and len(av) == 1 else e.get("n", fn), tuple(av))
                        if e.get("n") in ("insert", "assign") and len(av) >= 2 and av[-2].op == "begin" and av[-1].op == "end" and av[-2].a[0] is av[-1].a[0]:
                            nv = t("coll", old, (self.elem(av[-1].a[0]),))
                        elif nv.a[1] == "push_back" and len(av) == 1 and old.op == "new" and old.a[0] == "std::vector":
                            nv = t("new", "std::vector", tuple(old.a[1]) + tuple(av))
                        s2.env[k] = nv if size_of(nv) < MAXTERM else unk("big")
            if e.get("noret"):
                continue
            r.append((s2, v))
        return r

    def event(self, e, s, term, record=True, obj=None, args=None):
        """note the call in the state and tell the watcher"""
        q = term.a[0] if term.op in ("call", "new") else "?"
        if self.watch:
            self.watch({"q": q, "term": term, "state": s, "e": e, "fn": self.stack[-1][0], "stack": [x[0] for x in self.stack],
                        "obj": obj, "args": args, "loop": self.looplvl})
        if not record or NOEV.match(q):
            return s, term
        n = s.copy()
        if term.op == "call":
            n.facts[t("ev", term)] = True
        n.may = n.may | {q}
        return n, term

    def inline(self, f, e, s, o, obj, args, av):
        self.frames += 1
        fr = self.frames
        n = s.copy()
        n.alias = dict(n.alias)
        for p, a, ae in zip(f["ps"], av, args):
            k = ("v", fr, p["id"])
            if p["t"].endswith("&") or p["t"].endswith("*"):
                tgt = ae["e"] if ae["k"] == "un" and ae["op"] == "&" else ae
                lk = self.lv(tgt, s)
                if lk is not None and not (isinstance(lk, T)):
                    n.alias[k] = lk
                    continue
                if lk is not None and isinstance(lk, T):
                    n.alias[k] = lk
                    continue
            n.env[k] = a
        out = self.body(f, fr, [n], obj if obj is not None else (self.stack[-1][2] if o is None and f.get("cls") else THIS))
        for x in out.thr:
            if self.trystack:
                self.trystack[-1].append(x)
        r = []
        for s2, v in out.ret:
            m = s2.copy()
            m.env = {k: w for k, w in s2.env.items() if not (isinstance(k, tuple) and k[1] == fr)}
            m.alias = s.alias
            r.append((m, v))
        return r


LAMS = {}
FIELDS = {}


def lambda_ret(e):
    """'bool' if every return expression of the lambda is boolean"""
    kinds = set()

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            if x.get("k") == "lambda" and x is not e:
                return
            if x.get("k") == "Ret" and x.get("e"):
                kinds.add(x["e"].get("t"))
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v)
    go(e.get("body"))
    return "bool" if kinds and kinds <= {"bool", "const bool"} else ""
