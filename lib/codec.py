"""Wire grammar of serialisers and parsers.  Each Serialize/Deserialize pair is reduced to the set of
byte layouts it can write or accept (integer widths, byte order, fixed and variable byte strings,
repeated groups), per protocol version and per value of the enumerations its branches test, together
with the field each item carries."""
import re
from engine import sname
from effects import nodes, is_this

CAP = 3000
INTW = {"unsigned char": 1, "signed char": 1, "char": 1, "bool": 1, "unsigned short": 2, "short": 2, "unsigned int": 4, "int": 4,
        "unsigned long": 8, "long": 8, "unsigned long long": 8, "long long": 8}


class TooBig(Exception):
    pass


def ty(t):
    return re.sub(r"[&*]+$", "", re.sub(r"\bconst\b", "", t or "")).strip().rstrip("&").strip()


def objkey(v):
    return tuple(sorted((a, tuple(sorted(b.pos))) for a, b in v.obj.items())) if v.obj else ()


class St:
    __slots__ = ("items", "labs", "env", "ret", "stop", "hints")

    def __init__(s, items=(), labs=(), env=None, ret=None, stop=None, hints=()):
        s.items, s.labs, s.env, s.ret, s.stop, s.hints = items, labs, env or {}, ret, stop, hints

    def cp(s, **kw):
        n = St(s.items, s.labs, s.env, s.ret, s.stop, s.hints)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def add(s, item, lab=frozenset()):
        return s.cp(items=s.items + (item,), labs=s.labs + (frozenset(lab),))

    def bind(s, i, v):
        e = dict(s.env)
        e[i] = v
        return s.cp(env=e)


class V:
    """abstract value: positions of the wire items it depends on, own fields it depends on, constant, object fields"""
    __slots__ = ("pos", "flds", "cv", "obj", "stream", "isnull")

    def __init__(self, pos=frozenset(), flds=frozenset(), cv=None, obj=None, stream=False):
        self.pos, self.flds, self.cv, self.obj, self.stream = pos, flds, cv, obj, stream

    def join(self, o):
        return V(self.pos | o.pos, self.flds | o.flds)


N = V()


class Codec:
    def __init__(self, F, version, tags, opaque=()):
        self.F, self.version, self.tags, self.opaque = F, version, tags, opaque
        self.touched = set()
        self.seen = set()
        self.calls = []     # argument lists with several reads (order of evaluation)
        self.stack = []
        self.enumv = {}
        es = F.enums.values() if isinstance(F.enums, dict) else F.enums
        for e in es:
            self.enumv[e["q"]] = [int(c["v"]) for c in e["c"]]
        self.tested = set()
        self.usedver = False

    def stackq(self):
        return {self.F.fns[u]["q"] for u in self.stack}

    # -- entry
    def trace(self, f, stream_param, this=None, args=None):
        st = St(env={("f", p["id"]): N for p in f["ps"]})
        return self.fn(f, St(), args if args is not None else [V(stream=True) if i == stream_param else V() for i in range(len(f["ps"]))], this)

    def fn(self, f, st, args, this=None):
        """runs f in a fresh frame on the stream state; returns states with ret set"""
        key = f["u"]
        if key in self.stack or len(self.stack) > 12:
            return [st.cp(ret=N)]
        self.stack.append(key)
        self.seen.add(f["q"])
        try:
            env = {}
            for p, a in zip(f["ps"], args):
                env[p["id"]] = a
            env["this"] = this if this is not None else V()
            s0 = St(st.items, st.labs, env, None, None, st.hints)
            ss = [s0]
            if f.get("kind") == "ctor":
                for i in f.get("inits", ()):
                    if i.get("e") is not None:
                        nxt = []
                        for s in ss:
                            for s2, v in self.ev(i["e"], s):
                                fn = i.get("f") or i.get("n") or i.get("field")
                                t = s2.env["this"]
                                o = dict(t.obj or {})
                                if fn:
                                    o[fn] = V(v.pos, v.flds)
                                elif i.get("base") and v.obj:
                                    o.update(v.obj)
                                nxt.append(s2.bind("this", V(t.pos | v.pos, t.flds, None, o)))
                        ss = nxt
            ss = self.stmt(f.get("body"), ss)
            out = []
            for s in ss:
                if s.stop in ("throw",):
                    continue
                r = s.ret or N
                if f.get("kind") == "ctor":
                    r = s.env["this"]
                out.append((St(s.items, s.labs, st.env, None, None, s.hints), r))
            return self.dedupe2(out)
        finally:
            self.stack.pop()

    def dedupe2(self, out):
        d = {}
        for s, v in out:
            k = (s.items, s.labs, v.pos, v.flds, v.cv, tuple(sorted((a, b.pos) for a, b in v.obj.items())) if v.obj else None, v.stream)
            d.setdefault(k, (s, v))
        if len(d) > CAP:
            raise TooBig()
        return list(d.values())

    def dedupe(self, ss):
        d = {}
        for s in ss:
            k = (s.items, s.labs, s.stop, tuple(sorted((str(i), tuple(sorted(v.pos)), str(v.cv), v.stream, tuple(sorted(v.flds)), objkey(v)) for i, v in s.env.items() if isinstance(v, V))), s.ret and s.ret.pos)
            d.setdefault(k, s)
        if len(d) > CAP:
            raise TooBig()
        return list(d.values())

    # -- statements
    def stmt(self, x, ss):
        if x is None:
            return ss
        live = [s for s in ss if s.stop is None]
        done = [s for s in ss if s.stop is not None]
        if not live:
            return ss
        k = x["k"]
        if k == "C":
            for y in x["s"]:
                live = self.stmt(y, live)
            return self.dedupe(done + live)
        if k == "E":
            return done + self.dedupe([s for s0 in live for s, v in self.ev(x["e"], s0)])
        if k == "D":
            for d in x["v"]:
                if d.get("i") is None:
                    live = [s.bind(d["id"], V(obj={})) for s in live]
                else:
                    live = [s.bind(d["id"], v) for s0 in live for s, v in self.ev(d["i"], s0)]
                live = self.dedupe(live)
            return done + live
        if k == "Ret":
            if x.get("e") is None:
                return done + [s.cp(stop="ret") for s in live]
            return done + [s.cp(stop=s.stop or "ret", ret=v) for s0 in live for s, v in self.ev(x["e"], s0)]
        if k == "If":
            if x.get("init"):
                live = self.stmt(x["init"], live)
            out = []
            for s0 in live:
                if x.get("cvar"):
                    vs = [(s.bind(x["cvar"]["id"], v), v) for s, v in (self.ev(x["cvar"]["i"], s0) if x["cvar"].get("i") else [(s0, N)])]
                else:
                    vs = self.ev(x["c"], s0)
                for s, v in vs:
                    if s.stop:
                        out.append(s)
                        continue
                    if v.cv is None or v.cv:
                        out += self.stmt(x["t"], [s])
                    if v.cv is None or not v.cv:
                        out += self.stmt(x.get("e"), [s]) if x.get("e") else [s]
            return self.dedupe(done + out)
        if k in ("For", "FR", "While", "Do"):
            return self.dedupe(done + [r for s in live for r in self.loop(x, s)])
        if k == "Switch":
            if x.get("init"):
                live = self.stmt(x["init"], live)
            out = []
            for s0 in live:
                for s, v in self.ev(x["c"], s0):
                    out += self.switch(x, s, v)
            return self.dedupe(done + out)
        if k in ("Case", "Default", "Label"):
            return done + self.stmt(x["s"], live)
        if k == "Break":
            return done + [s.cp(stop="break") for s in live]
        if k == "Continue":
            return done + [s.cp(stop="cont") for s in live]
        if k == "Try":
            out = self.stmt(x["b"], live)
            return done + out
        return ss

    def switch(self, x, s, v):
        body = x["b"]["s"] if x["b"]["k"] == "C" else [x["b"]]
        entries, dflt = [], None
        flat = []
        for y in body:
            while y["k"] in ("Case", "Default"):
                if y["k"] == "Case":
                    entries.append((y["v"], len(flat)))
                else:
                    dflt = len(flat)
                y = y["s"]
            flat.append(y)
        starts = []
        if v.cv is not None:
            for ce, i in entries:
                r = self.ev(ce, s)
                if r and r[0][1].cv == v.cv:
                    starts = [i]
                    break
            else:
                starts = [dflt if dflt is not None else len(flat)]
        else:
            starts = sorted({i for _, i in entries} | {dflt if dflt is not None else len(flat)})
        out = []
        for i in starts:
            ss = [s]
            for y in flat[i:]:
                ss = self.stmt(y, ss)
            out += [r.cp(stop=None) if r.stop == "break" else r for r in ss]
        return out

    def has_stream(self, x, s):
        """does this tree touch the stream at all (syntactically, through helpers)?"""
        return True

    def loop(self, x, s):
        k = x["k"]
        pre = [s]
        bound = N
        if k == "For":
            pre = self.stmt(x.get("init"), pre)
        out = []
        for s1 in pre:
            if k == "FR":
                hs = self.ev(x["r"], s1)
            elif x.get("c") is not None and k == "For":
                hs = self.ev(x["c"], s1)
            else:
                hs = [(s1, N)]
            for s2, v in hs:
                base = len(s2.items)
                b0 = St(s2.items, s2.labs, dict(s2.env), None, None, ())
                if k == "FR":
                    b0 = b0.bind(x["v"]["id"], V(v.pos, v.flds))
                bs = [b0]
                if k in ("While",) and x.get("c") is not None:
                    bs = [a for s3 in bs for a, _ in self.ev(x["c"], s3)]
                bs = self.stmt(x["b"], bs)
                if k == "For" and x.get("inc"):
                    bs = [a if a.stop else a2 for a in bs for a2, _ in ([(a, N)] if a.stop else self.ev(x["inc"], a))]
                traces = {b.items[base:] for b in bs if b.stop in (None, "cont", "break")}
                exits = [b for b in bs if b.stop == "ret"]
                some = any(traces) or any(b.items[base:] for b in exits)
                rep = frozenset([base])

                def cl(ps):
                    return frozenset(q if q < base else base for q in ps)
                env = dict(s2.env)
                for b in bs:
                    if b.stop == "throw":
                        continue
                    for i, w in b.env.items():
                        if isinstance(w, V) and i in env:
                            o = env[i]
                            obj = self.jobj(o, V(obj={a: V(cl(c.pos), c.flds) for a, c in (w.obj or {}).items()} if w.obj is not None else None))
                            env[i] = V(o.pos | cl(w.pos), o.flds | w.flds, o.cv if o.cv == w.cv else None, obj or o.obj, o.stream)
                if not some:
                    out.append(s2.cp(env=env))
                    continue
                labs = set(v.flds)
                for b in bs:
                    for l in b.labs[base:]:
                        labs |= l
                n = s2.add(("rep", frozenset(t for t in traces if t)), labs)
                out.append(n.cp(env=env, hints=n.hints + ((v.pos, base),)))
        return out

    def jobj(self, a, b):
        d = dict(a.obj or {})
        for k, v in (b.obj or {}).items():
            d[k] = V(v.pos | (d[k].pos if k in d else frozenset()), v.flds | (d[k].flds if k in d else frozenset()))
        return d

    # -- expressions: list of (state, value)
    def seq(self, es, st):
        """evaluate in order, collecting values"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
            if len(res) > CAP:
                raise TooBig()
        return res

    def tag(self, t):
        t = ty(t)
        if t == "EProtocolVersion":
            return None
        if t in self.tags:
            return self.tags[t]
        if t in self.enumv:
            self.tested.add(t)
        return None

    def ev(self, e, st):
        if st.stop:
            return [(st, N)]
        k = e.get("k")
        if k == "throw":
            r = self.seq([e["e"]] if e.get("e") else [], st)
            return [(s.cp(stop="throw"), N) for s, _ in r][:1]
        if e.get("cv") is not None and k != "call":
            try:
                return [(st, V(cv=int(e["cv"])))]
            except ValueError:
                return [(st, N)]
        if k == "this":
            return [(st, st.env.get("this", N))]
        if k == "ref":
            v = st.env.get(e.get("id"))
            if v is None:
                v = N
            if v.cv is None:
                c = self.tag(e.get("t"))
                if c is not None:
                    v = V(v.pos, v.flds, c, v.obj, v.stream)
            return [(st, v)]
        if k == "mem":
            out = []
            for s, b in self.ev(e["b"], st) if e.get("b") else [(st, N)]:
                if b.obj and e["n"] in b.obj:
                    v = b.obj[e["n"]]
                elif e.get("b") and is_this(e["b"]) and len(self.stack) == self.depth:
                    v = V(frozenset(), frozenset([e["n"]]))
                else:
                    v = V(b.pos, b.flds)
                c = self.tag(e.get("t"))
                if c is not None and v.cv is None:
                    v = V(v.pos, v.flds, c, v.obj, v.stream)
                out.append((s, v))
            return out
        if k == "cast":
            out = []
            for s, v in self.ev(e["e"], st):
                c = v.cv
                if c is None:
                    c = self.tag(e.get("t"))
                out.append((s, V(v.pos, v.flds, c, v.obj, v.stream)))
            return out
        if k in ("paren", "mat", "conv", "del"):
            return self.ev(e.get("e") or e.get("o"), st)
        if k == "cond":
            out = []
            for s, v in self.ev(e["a"][0], st):
                if v.cv is None or v.cv:
                    out += self.ev(e["a"][1], s)
                if v.cv is None or not v.cv:
                    out += self.ev(e["a"][2], s)
            return out
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                out = []
                for s, v in self.ev(e["a"][0], st):
                    if v.cv is not None:
                        if bool(v.cv) == (op == "||"):
                            out.append((s, V(cv=int(bool(v.cv)))))
                        else:
                            out += self.ev(e["a"][1], s)
                    else:
                        for s2, w in self.ev(e["a"][1], s):
                            if w.cv is not None and bool(w.cv) == (op == "||"):
                                out.append((s2, V(cv=int(bool(w.cv)))))
                            else:
                                out.append((s2, v.join(w)))
                return out
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                out = []
                for s, v in self.ev(e["a"][1], st):
                    out.append((self.assign(e["a"][0], v, s, op != "="), v))
                return out
            out = []
            for s, (a, b) in self.seq(e["a"], st):
                c = None
                if a.cv is not None and b.cv is not None:
                    try:
                        c = {"==": a.cv == b.cv, "!=": a.cv != b.cv, "<": a.cv < b.cv, ">": a.cv > b.cv, "<=": a.cv <= b.cv, ">=": a.cv >= b.cv,
                             "+": a.cv + b.cv, "-": a.cv - b.cv, "*": a.cv * b.cv, "&": a.cv & b.cv, "|": a.cv | b.cv}.get(op)
                    except Exception:
                        c = None
                j = a.join(b)
                out.append((s, V(j.pos, j.flds, int(c) if c is not None else None)))
            return out
        if k == "un":
            x = e.get("e") or (e.get("a") or [None])[0]
            if x is None:
                return [(st, N)]
            out = []
            for s, v in self.ev(x, st):
                if e.get("op") == "!":
                    out.append((s, V(v.pos, v.flds, None if v.cv is None else int(not v.cv))))
                elif e.get("op") in ("*", "&", "+"):
                    out.append((s, v))
                else:
                    out.append((s, V(v.pos, v.flds)))
            return out
        if k == "lambda":
            return [(st, N)]
        if k in ("sub", "ilist"):
            out = []
            for s, vs in self.seq(e["a"], st):
                v = N
                for w in vs:
                    v = v.join(w)
                out.append((s, v))
            return out
        if k == "new":
            return self.ev(e["i"], st) if e.get("i") is not None else [(st, N)]
        if k in ("call", "op", "ctor"):
            return self.call(e, st)
        return [(st, N)]

    def assign(self, lhs, v, s, acc=False):
        x = lhs
        while x.get("k") in ("cast", "paren", "mat", "sub") or (x.get("k") == "op" and x.get("op") == "[]") or (x.get("k") == "un" and x.get("op") == "*"):
            if x["k"] in ("sub", "op"):
                acc = True
                x = x["o"] if x.get("o") is not None else x["a"][0]
            else:
                x = x.get("e") or x["a"][0]
        if x.get("k") == "ref":
            o = s.env.get(x.get("id"), N)
            return s.bind(x["id"], V(v.pos | o.pos, v.flds | o.flds) if acc else V(v.pos, v.flds, v.cv, v.obj))
        if x.get("k") == "mem" and x.get("b"):
            b = x["b"]
            while b.get("k") in ("cast", "paren", "mat", "un") or (b.get("k") == "op" and b.get("op") in ("->", "*")):
                b = b.get("e") or b["a"][0]
            i = b.get("id") if b.get("k") == "ref" else ("this" if b.get("k") == "this" else None)
            if i is not None and i in s.env:
                o = s.env[i]
                d = dict(o.obj or {})
                d[x["n"]] = V(v.pos | (d[x["n"]].pos if acc and x["n"] in d else frozenset()), v.flds)
                return s.bind(i, V(o.pos | v.pos, o.flds, None, d, o.stream))
        return s

    def item(self, e, s, obj, args):
        """wire effect of a Serializer/ByteBuffer member; None if it is none"""
        fn, n = e["fn"], e["n"]
        pos = frozenset([len(s.items)])
        lab = frozenset().union(*[a.flds for a in args]) if args else frozenset()
        if fn.startswith("Serializer::"):
            m = re.match(r"Serializer::Append(LittleEndian)?<([^,>]+)(, void)?>$", fn)
            if m and ty(m.group(2)) in INTW:
                return s.add(("int", INTW[ty(m.group(2))], "le" if m.group(1) else "be"), lab), obj
            if n == "AppendBigInteger" or (n == "Append" and re.match(r"Serializer::Append<\d+UL>$", fn)):
                return s.add(("bytes", int(re.search(r"<(\d+)UL", fn).group(1))), lab), obj
            if n in ("AppendVarStr", "AppendStr", "AppendByteVector") or (n == "Append" and len(e["a"]) == 2):
                ln = 2
                if n == "AppendVarStr":
                    pre = 8
                else:
                    c = args[1].cv if len(args) > 1 else None
                    vals = {}
                    es = self.F.enums.values() if isinstance(self.F.enums, dict) else self.F.enums
                    for en in es:
                        if en["q"] == "ESerializeLength":
                            vals = {int(x["v"]): x["n"] for x in en["c"]}
                    pre = {"U32": 4, "U64": 8, "NONE": 0}.get(vals.get(c), 0)
                lab = args[0].flds
                if pre:
                    s = s.add(("int", pre, "be"), lab)
                return s.add(("var",), lab), obj
            if n == "AppendLength":
                return s, obj
            return None
        if fn.startswith("ByteBuffer::"):
            m = re.match(r"ByteBuffer::Read(Big|Little)Endian<(.*)>$", fn)
            if m:
                s2 = s.add(("int", INTW.get(ty(m.group(2)), 0), "be" if m.group(1) == "Big" else "le"))
                return self.assign(e["a"][0], V(pos), s2), N
            m = re.match(r"ByteBuffer::Read<(.*), void>$", fn)
            if m:
                if ty(m.group(1)) in INTW:
                    return s.add(("int", INTW[ty(m.group(1))], "be")), V(pos)
                return None
            m = re.match(r"ByteBuffer::Read(U?)(8|16|32|64)(_LE)?$", fn)
            if m:
                return s.add(("int", int(m.group(2)) // 8, "le" if m.group(3) else "be")), V(pos)
            if n in ("ReadBigInteger", "ReadArray"):
                return s.add(("bytes", int(re.search(r"<(\d+)UL", fn).group(1)))), V(pos)
            if n == "ReadVarStr":
                p = len(s.items)
                return s.add(("int", 8, "be")).add(("var",)), V(frozenset([p, p + 1]))
            if n in ("ReadVector", "ReadString", "ReadRemainingBytes"):
                h = ((args[0].pos, len(s.items)),) if args else ()
                if args and args[0].cv is not None:
                    return s.add(("bytes", args[0].cv)), V(pos)
                r = s.add(("var",))
                return r.cp(hints=r.hints + h), V(pos)
        return None

    def call(self, e, st):
        k = e["k"]
        out = []
        es = ([e["o"]] if e.get("o") is not None else []) + list(e.get("a", ()))
        for s, vs in self.seq(es, st):
            if s.stop:
                out.append((s, N))
                continue
            obj = vs[0] if e.get("o") is not None else None
            args = vs[1:] if e.get("o") is not None else vs
            fn = e.get("fn") or ""
            n = e.get("n")
            if fn.endswith("::GetProtocolVersion") and obj is not None:
                self.usedver = True
                out.append((s, V(cv=self.version)))
                continue
            if obj is not None and obj.stream:
                r = self.item(e, s, obj, args)
                if r is not None:
                    s2, v = r
                    out.append((s2, obj if fn.startswith("Serializer::") else v))
                    continue
                m = re.match(r"ByteBuffer::Read<(.*), void>$", fn)
                if m or (fn.startswith("Serializer::Append") and args):
                    # nested object
                    if m:
                        g = self.method(ty(m.group(1)), "Deserialize")
                        if g and g["cls"] in self.opaque:
                            out.append((s.add(("obj", g["cls"])), V(frozenset([len(s.items)]))))
                            continue
                        if g:
                            base = len(s.items)
                            for s2, v in self.sub(g, s, [V(stream=True)]):
                                out.append((s2, V(frozenset(range(base, len(s2.items))))))
                            continue
                    else:
                        t = e["a"][0]
                        while t.get("k") in ("cast", "mat", "paren"):
                            t = t["e"]
                        cls = ty(t.get("t"))
                        mm = re.match(r"std::shared_ptr<(?:const )?(.*?)>$", cls)
                        cls = ty(mm.group(1)) if mm else cls
                        g = self.method(cls, "Serialize")
                        if g and g["cls"] in self.opaque:
                            out.append((s.add(("obj", g["cls"]), args[0].flds), obj))
                            continue
                        if g:
                            out += [(self.relabel(s, s2, args[0].flds), obj) for s2, v in self.sub(g, s, [V(stream=True)], N)]
                            continue
                    out.append((s.add(("unknown", fn)), obj))
                    continue
                out.append((s, N))
                continue
            if re.match(r"std::(shared|unique)_ptr<.*::(shared|unique)_ptr", fn) and k == "ctor" and args:
                out.append((s, args[0]))
                continue
            # the stream passed on
            si = [i for i, a in enumerate(args) if a.stream]
            g = self.F.fns.get(e.get("u"))
            allv = N
            for v in ([obj] if obj is not None else []) + args:
                allv = allv.join(v)
            if any(x.get("k") == "lambda" for x in e.get("a", ())):
                # a library algorithm applying a lambda to every element
                r = self.algorithm(e, s, args, allv)
                if r is not None:
                    out += r
                    continue
            if si:
                if g is not None and not g.get("body") and e.get("virt"):
                    g = None
                if g is not None and g.get("virt") and obj is not None and e.get("o"):
                    o = e["o"]
                    while o.get("k") in ("cast", "mat", "paren"):
                        o = o["e"]
                    g2 = self.method(ty(o.get("t")), n)
                    g = g2 or g
                if g is None or not g.get("body"):
                    out.append((s.add(("unknown", fn)), N))
                    continue
                base = len(s.items)
                if g["n"] in ("Serialize", "Deserialize") and g.get("cls") in self.opaque and g["q"] not in self.stackq() and not (obj is not None and e.get("o") is not None and is_this(e["o"])):
                    if g["n"] == "Serialize":
                        out.append((s.add(("obj", g["cls"]), allv.flds), N))
                    else:
                        out.append((s.add(("obj", g["cls"])), V(frozenset([base]))))
                    continue
                writer = any("Serializer" in p["t"] for p in g["ps"])
                own = obj is not None and e.get("o") is not None and is_this(e["o"])
                if own:
                    rs = self.fn(g, s, args, s.env.get("this"))
                    out += rs
                    continue
                for s2, v in self.sub(g, s, args, N if obj is None else V()):
                    if writer:
                        out.append((self.relabel(s, s2, allv.flds), N))
                    elif g["n"] == "Deserialize" or sname(g.get("cls") or "") not in self.selfcls:
                        out.append((s2, V(frozenset(range(base, len(s2.items))), cv=None)))
                    else:
                        out.append((s2, v))
                continue
            # ordinary calls
            if k == "ctor" and g is not None and sname(e.get("cls") or "") in self.selfcls:
                if e.get("a") and len(args) == 1 and args[0].obj is not None and ty(e["a"][0].get("t")) == ty(e.get("t")):
                    out.append((s, args[0]))
                    continue
                if g.get("body") or g.get("inits"):
                    for s2, v in self.fn(g, s, args, V(obj={})):
                        out.append((s2, V(allv.pos | v.pos, allv.flds, None, v.obj)))
                    continue
                if len(args) == 1:
                    out.append((s, args[0]))
                    continue
            if k == "ctor" and g is not None and (g.get("body") or g.get("inits")) and g.get("repo") is None and len(args) > 1 and self.small(g):
                for s2, v in self.fn(g, s, args, V(obj={})):
                    out.append((s2, V(allv.pos | v.pos, allv.flds | v.flds, None, v.obj)))
                continue
            if fn.startswith(("std::make_shared<", "std::make_unique<", "std::make_optional<")):
                cls = re.match(r"std::make_\w+<(?:const )?([^,>]+)", fn).group(1).strip()
                if sname(cls) in self.selfcls:
                    c = [x for x in self.F.fns.values() if x.get("kind") == "ctor" and x.get("cls") == cls and len(x["ps"]) == len(args) and (x.get("inits") or x.get("body"))]
                    if len(args) == 1 and args[0].obj:
                        out.append((s, args[0]))
                        continue
                    if c:
                        for s2, v in self.fn(c[0], s, args, V(obj={})):
                            out.append((s2, V(allv.pos | v.pos, allv.flds, None, v.obj)))
                        continue
            if len(args) == 1 and (k == "ctor" or fn.startswith(("std::move", "std::forward"))):
                out.append((s, args[0]))
                continue
            if g is not None and g.get("body") and self.simple(g):
                # a getter or a predicate: look through it
                th = obj
                own = e.get("o") is not None and is_this(e["o"])
                d = self.depth
                if own:
                    self.depth = len(self.stack) + 1
                try:
                    rs = self.fn(g, s, args, s.env.get("this") if own else (obj if obj is not None else N))
                finally:
                    self.depth = d
                for s2, v in rs:
                    cv = v.cv if v.cv is not None else self.tag(e.get("t"))
                    extra = allv if not own else N
                    out.append((s2, V(v.pos | extra.pos, v.flds | extra.flds, cv, v.obj)))
                continue
            # mutation of a local by a call
            s2 = s
            if obj is not None and args and not e.get("cst") and e.get("o") is not None:
                s2 = self.mutate(e["o"], allv, s)
            for a, p in zip(e.get("a", ()), e.get("pm", "")):
                if p == "r":
                    s2 = self.mutate(a, allv, s2)
            if re.match(r"std::(copy|reverse_copy|transform|move|copy_n|copy_backward)(_n)?<", fn) and len(args) > 2:
                d = e["a"][2]
                while d.get("k") in ("cast", "mat", "paren") or (d.get("k") == "call" and d.get("n") in ("begin", "data", "end")) or d.get("k") == "ctor" and len(d.get("a", ())) == 1:
                    d = d["o"] if d.get("k") == "call" else (d.get("e") or d["a"][0])
                s2 = self.mutate(d, allv, s2)
            if k == "op" and e.get("op", "").endswith("=") and e["op"] not in ("==", "!=", "<=", ">=") and len(e["a"]) == 2:
                s2 = self.assign(e["a"][0], args[1], s, e["op"] != "=")
                out.append((s2, args[1]))
                continue
            cv = self.tag(e.get("t"))
            o2 = None
            if k == "op" and e.get("op") in ("->", "*") and args:
                o2 = args[0].obj
                if args[0].cv is not None:
                    cv = None
            if n in ("get", "value", "operator->") and obj is not None:
                o2 = obj.obj
            out.append((s2, V(allv.pos, allv.flds, cv, o2)))
        return self.dedupe2(out)

    def algorithm(self, e, s, args, allv):
        lams = [x for x in e["a"] if x.get("k") == "lambda"]
        for lam in lams:
            if not lam.get("body"):
                continue
            env = dict(s.env)
            rng = N
            for v in args:
                rng = rng.join(v)
            for p in lam["ps"]:
                env[p["id"]] = V(rng.pos, rng.flds)
            bs = self.stmt(lam["body"], [St((), (), env)])
            tr = frozenset(b.items for b in bs if b.stop != "throw" and b.items)
            if tr:
                labs = set(rng.flds)
                for b in bs:
                    for l in b.labs:
                        labs |= l
                return [(s.add(("rep", tr), labs), N)]
        return None

    def mutate(self, x, v, s):
        while x.get("k") in ("cast", "mat", "paren") or (x.get("k") == "op" and x.get("op") in ("->", "*")) or (x.get("k") == "ctor" and len(x.get("a", ())) == 1) \
                or (x.get("k") == "call" and x.get("fn", "").startswith(("std::back_inserter", "std::inserter")) and x.get("a")):
            x = x.get("e") or x["a"][0]
        if x.get("k") == "ref" and x.get("id") in s.env:
            o = s.env[x["id"]]
            if o.stream:
                return s
            return s.bind(x["id"], V(o.pos | v.pos, o.flds | v.flds, None, o.obj))
        if x.get("k") == "mem" and x.get("b"):
            return self.assign(x, v, s, True)
        return s

    def simple(self, g):
        b = g.get("body")
        if g["q"] in self.stack or not b or b.get("k") != "C":
            return False
        return len(b["s"]) == 1 and b["s"][0].get("k") == "Ret" and len(self.stack) < 8

    def small(self, g):
        b = g.get("body")
        return (not b or not b.get("s")) and g.get("kind") == "ctor" and g.get("file", "").startswith(self.F.repo)

    def sub(self, g, s, args, this=N):
        d, sc = self.depth, self.selfcls
        self.depth = -1
        try:
            return self.fn(g, s, args, this)
        finally:
            self.depth, self.selfcls = d, sc

    def relabel(self, s, s2, flds):
        n = len(s.items)
        return s2.cp(labs=s2.labs[:n] + tuple(frozenset(flds) for _ in s2.labs[n:]))

    def method(self, cls, n):
        c = [f for f in self.F.fns.values() if f["n"] == n and f.get("body") and f.get("cls") == cls and len(f["ps"]) == 1]
        if c:
            return c[0]
        r = self.F.recs.get(cls)
        for b in (r or {}).get("bases", ()):
            g = self.method(b, n)
            if g:
                return g
        return None

    def run(self, f, writer):
        self.depth = 1
        cls = f.get("cls") or ""
        self.selfcls = {sname(cls)} | {sname(b) for b in (self.F.recs.get(cls) or {}).get("bases", ())}
        want = "Serializer" if writer else "ByteBuffer"
        args = [V(stream=True) if want in p["t"] else V() for p in f["ps"]]
        return self.fn(f, St(), args, V() if not f.get("static") else N)


def showitem(i):
    if i[0] == "rep":
        return "(%s)*" % "|".join(sorted(showtr(t) for t in i[1]))
    if i[0] == "int":
        return "u%d%s" % (i[1] * 8, "le" if i[2] == "le" and i[1] > 1 else "")
    if i[0] == "bytes":
        return "b%d" % i[1]
    if i[0] == "obj":
        return "<%s>" % i[1]
    return i[0] if i[0] != "unknown" else "?" + i[1]


def norm(i):
    """a byte is a byte however it is spelt"""
    if i[0] == "rep":
        if i[1] == frozenset([(("int", 1, "be"),)]):
            return ("var",)
        return ("rep", frozenset(tuple(norm(x) for x in t) for t in i[1]))
    if i[0] == "int" and i[1] == 1:
        return ("int", 1, "be")
    return i


def showtr(t):
    return " ".join(showitem(i) for i in t)
