"""Field-to-key correspondence of JSON writers and readers.  For a class with a writer and a reader,
the keys each field is written under and the keys each field is restored from (through local
variables, helper methods, getters and constructor initialisers)."""
import re
from spec import _walk, calls_in
from engine import sname
from effects import is_this


def unwrap(x):
    while x is not None and x.get("k") in ("cast", "mat", "paren", "conv"):
        x = x.get("e") or x.get("o")
    return x


def strkey(x):
    """the string literal an expression is built from"""
    x = unwrap(x)
    while x is not None and x.get("k") == "ctor" and x.get("a"):
        x = unwrap(x["a"][0])
    return x.get("v") if x is not None and x.get("k") == "str" else None


def root(x):
    """(local id | 'this', member name | None) an lvalue hangs on"""
    m = None
    while x is not None:
        k = x.get("k")
        if k == "ref":
            return x.get("id"), m
        if k == "this":
            return "this", m
        if k == "mem":
            m = x["n"]
            x = x.get("b")
        elif k in ("cast", "mat", "paren", "conv", "un"):
            x = x.get("e") or (x.get("a") or [None])[0] or x.get("o")
        elif k == "op" and x.get("op") in ("->", "*", "[]"):
            x = x["a"][0] if x.get("a") else x.get("o")
        elif k == "call" and x.get("o") is not None:
            x = x["o"]
        elif k == "sub":
            x = x["a"][0]
        else:
            return None, m
    return None, m


def under(x, cs):
    """every node with the conditions it stands under"""
    if isinstance(x, list):
        for y in x:
            yield from under(y, cs)
    elif isinstance(x, dict):
        yield x, cs
        inner = cs + (x["c"],) if x.get("k") in ("If", "Switch", "While") and isinstance(x.get("c"), dict) else cs
        for n, v in x.items():
            if isinstance(v, (dict, list)):
                yield from under(v, inner)


class Flow:
    """flow-insensitive dependencies of the locals of one function: (keys, own fields, param ids)"""

    def __init__(self, F, f, stack=()):
        self.F, self.f, self.stack = F, f, stack
        self.deps = {}      # local id or (local id, member) -> list of exprs
        self.const = {}
        self.pid = {p["id"]: i for i, p in enumerate(f["ps"])}
        for x, cs in under([f.get("body"), [i.get("e") for i in f.get("inits", ())]], ()):
            k = x.get("k")
            self.cs = cs
            if k == "D":
                for d in x["v"]:
                    if d.get("i") is not None:
                        self.add(d["id"], None, d["i"])
            elif k == "If" and x.get("cvar") and x["cvar"].get("i"):
                self.add(x["cvar"]["id"], None, x["cvar"]["i"])
            elif k == "FR" and x.get("v"):
                self.add(x["v"]["id"], None, x["r"])
            elif (k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=")) or (k == "op" and x.get("op") in ("=", "+=", "|=")):
                a = x["a"] if not x.get("o") else [x["o"]] + x["a"]
                r, m = root(a[0])
                if r is not None:
                    self.add(r, m, a[1])
            elif k == "call" and x.get("o") is not None and x["n"] in ("push_back", "emplace_back", "append", "insert", "emplace", "assign", "Parse", "from_string"):
                r, m = root(x["o"])
                for a in x["a"]:
                    if r is not None:
                        self.add(r, m, a)
            elif k == "call" and x.get("a") and not re.match(r"std::(make_|move|forward)", x.get("fn") or ""):
                # an algorithm writing through an inserter, or an out-parameter
                tgt = [root(y["a"][0]) for a in x["a"] for y in _walk(a) if y.get("k") == "call" and y.get("n") in ("back_inserter", "inserter") and y.get("a")]
                for i, a in enumerate(x["a"]):
                    if i < len(x.get("pm", "")) and x["pm"][i] in "rm" and root(a)[0] is not None:
                        tgt.append(root(a))
                for r, m in tgt:
                    if r is not None:
                        for b in x["a"]:
                            self.add(r, m, b)

    def add(self, i, m, e):
        self.deps.setdefault((i, m), []).extend((e,) + self.cs)

    def of(self, e, seen=frozenset()):
        """(keys, fields, params) an expression depends on"""
        K, Fl, P = set(), set(), set()

        def go(x, seen):
            if isinstance(x, list):
                for y in x:
                    go(y, seen)
                return
            if not isinstance(x, dict):
                return
            k = x.get("k")
            if k == "str":
                K.add(x["v"])
                return
            if k == "ref":
                i = x.get("id")
                if i in self.pid:
                    P.add(self.pid[i])
                if i is not None and i not in seen:
                    for (j, m), es in self.deps.items():
                        if j == i:
                            for y in es:
                                go(y, seen | {i})
                return
            if k == "mem" and x.get("b") is not None:
                if is_this(x["b"]):
                    Fl.add(x["n"])
                    return
                b = unwrap(x["b"])
                if b.get("k") == "ref" and (b.get("id"), x["n"]) in self.deps and (b["id"], x["n"]) not in seen:
                    for y in self.deps[(b["id"], x["n"])] + self.deps.get((b["id"], None), []):
                        go(y, seen | {(b["id"], x["n"])})
                    return
            if k == "lambda":
                go(x.get("body"), seen)
                return
            if k == "call" and x.get("o") is not None and is_this(x["o"]) or k == "call" and x.get("u") and x.get("o") is None and sname((self.F.fns.get(x["u"]) or {}).get("cls") or "?") == sname(self.f.get("cls") or ""):
                g = self.F.fns.get(x.get("u"))
                if g is not None and g.get("body") and g["u"] not in self.stack and len(self.stack) < 6:
                    fl = Flow(self.F, g, self.stack + (self.f["u"],))
                    for y in _walk(g["body"]):
                        if y.get("k") == "Ret" and y.get("e") is not None:
                            k2, f2, p2 = fl.of(y["e"])
                            K.update(k2)
                            Fl.update(f2)
                            for p in p2:
                                if p < len(x["a"]):
                                    go(x["a"][p], seen)
                    return
            for n in ("o", "a", "e", "b", "args", "init"):
                if n in x:
                    go(x[n], seen)
        go(e, seen)
        return K, Fl, P


def helpers(F, f):
    """f and the methods of its class it calls on itself or with its json"""
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in out:
            continue
        out.append(g)
        for e in calls_in(g):
            h = F.fns.get(e.get("u"))
            if h is not None and h.get("body") and sname(h.get("cls") or "?") == sname(f.get("cls") or "") and h.get("kind") not in ("ctor", "dtor") and h["n"] not in ("ToJSON", "FromJSON"):
                todo.append(h)
    return out


def writer(F, f):
    """key -> fields it is computed from"""
    W = {}
    for g in helpers(F, f):
        fl = Flow(F, g)
        for x in _walk(g["body"]):
            if x.get("k") in ("op", "bin") and x.get("op") == "=":
                a = x["a"] if not x.get("o") else [x["o"]] + x["a"]
                l = unwrap(a[0])
                if l.get("k") == "op" and l.get("op") == "[]":
                    la = l["a"] if not l.get("o") else [l["o"]] + l["a"]
                    k = strkey(la[1])
                    if k is not None and "Json::Value" in (l.get("t") or ""):
                        K, Fl, P = fl.of(a[1])
                        W.setdefault(k, set()).update(Fl)
            elif x.get("k") == "call" and x.get("n") == "AddOptionalField" and len(x["a"]) == 3:
                k = strkey(x["a"][1])
                if k is not None:
                    W.setdefault(k, set()).update(fl.of(x["a"][2])[1])
            elif x.get("k") == "call" and x.get("a") and len(x["a"]) == 2 and "Json::Value" in (x["a"][0].get("t") or ""):
                pass
    return W


READ = re.compile(r"^(JsonUtil::(Get\w*|KeyExists))(<|$)|^Json::Value::(get|operator\[\]|isMember)")


def reader(F, f):
    """(field -> keys, required keys, all keys)"""
    R, req, allk = {}, set(), set()
    cls = sname(f.get("cls") or "")
    hs = helpers(F, f)
    for g in hs:
        for e in calls_in(g):
            if READ.match(e["fn"]):
                for a in e["a"]:
                    k = strkey(a)
                    if k is not None:
                        allk.add(k)
                        if "GetRequired" in e["fn"] or re.match(r"JsonUtil::Get(Hash|Commitment|BlindingFactor|PublicKey|Signature|CompactSignature|RangeProof|BigInteger)(<|$)", e["fn"]):
                            req.add(k)
    for g in hs:
        fl = Flow(F, g)
        for x in _walk(g["body"]):
            if x.get("k") in ("ctor", "new") or (x.get("k") == "call" and re.match(r"std::make_(shared|unique|optional)<", x.get("fn") or "")):
                c = x.get("cls") or ""
                args = x.get("a") or []
                if x["k"] == "call":
                    c = re.match(r"std::make_\w+<(?:const )?([^,>]+)", x["fn"]).group(1).strip()
                if sname(c) != cls:
                    continue
                h = F.fns.get(x.get("u")) if x["k"] != "call" else None
                if h is None or h.get("kind") != "ctor":
                    cs = [y for y in F.fns.values() if y.get("kind") == "ctor" and sname(y.get("cls") or "") == cls and len(y["ps"]) == len(args) and y.get("inits")]
                    h = cs[0] if len(cs) == 1 else None
                if h is None or len(h["ps"]) == 1 and sname(re.sub(r"[&\s]|const", "", h["ps"][0]["t"])) == cls:
                    continue
                ak = [fl.of(a)[0] & allk for a in args]
                hf = Flow(F, h)
                for i in h.get("inits", ()):
                    n = i.get("f") or i.get("n") or i.get("field")
                    if n and i.get("e") is not None:
                        for p in hf.of(i["e"])[2]:
                            if p < len(ak):
                                R.setdefault(n, set()).update(ak[p])
            elif x.get("k") == "ilist" and sname(re.sub(r"\bconst\b|\s", "", x.get("t") or "")) == cls:
                r = F.recs.get(x["t"].replace("const ", "").strip()) if hasattr(F, "recs") else None
                if r:
                    for fd, a in zip(r["fields"], x["a"]):
                        R.setdefault(fd["n"], set()).update(fl.of(a)[0] & allk)
        for (i, m), es in fl.deps.items():
            if m is not None:
                for e in es:
                    R.setdefault(m, set()).update(fl.of(e)[0] & allk)
    return R, req, allk
