"""Field effects: which member variables a function reads and writes, directly and through helpers
of the same class.  Purely syntactic over the resolved tree."""
from engine import sname

ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}


def root_fields(e):
    """member variables an lvalue expression designates storage in (value containment only)"""
    k = e.get("k")
    if k == "mem":
        yield e
        if not e.get("arrow") and e.get("b"):
            yield from root_fields(e["b"])
    elif k in ("cast", "paren", "mat", "conv"):
        if e.get("e"):
            yield from root_fields(e["e"])
    elif k == "sub":
        yield from root_fields(e["a"][0])
    elif k == "cond":
        yield from root_fields(e["a"][1])
        yield from root_fields(e["a"][2])
    elif k == "op" and e.get("op") in ("[]",) and e.get("a"):
        yield from root_fields(e["a"][0])
    elif k == "call" and e.get("o") is not None and e.get("n") in ("at", "front", "back", "value", "get", "begin", "end", "data", "find"):
        yield from root_fields(e["o"])
    elif k == "op" and e.get("op") in ("->", "*") and "optional" in e.get("fn", "") and e.get("a"):
        yield from root_fields(e["a"][0])


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from nodes(v)


def body_of(f):
    return [f.get("body"), [i.get("e") for i in f.get("inits", ())]]


def direct(f):
    """[(field node, 'w'|'r')] for one function"""
    r = f.get("_eff")
    if r is not None:
        return r
    out, wr = [], set()
    for e in nodes(body_of(f)):
        k = e.get("k")
        tgt = None
        if k == "bin" and e.get("op") in ASSIGN:
            tgt = e["a"][0]
        elif k == "un" and e.get("op") in ("++", "--"):
            tgt = e.get("e") or (e.get("a") or [None])[0]
        elif k == "op" and (e.get("op") in ASSIGN or e.get("op") in ("++", "--") or (e.get("op") == "[]" and not e.get("cst") and "map" in e.get("fn", "").split("::operator")[0])):
            tgt = e["a"][0]
        elif k == "call" and e.get("o") is not None and not e.get("cst") and not e.get("repo") and e.get("n") not in READERS:
            tgt = e["o"]
        if tgt is not None:
            for m in root_fields(tgt):
                wr.add(id(m))
        if k == "call" and e.get("a"):
            # by non-const reference arguments: pm marks reference kinds ('r')
            for a, p in zip(e["a"], e.get("pm", "")):
                if p == "r":
                    for m in root_fields(a):
                        wr.add(id(m))
    for e in nodes(body_of(f)):
        if e.get("k") == "mem":
            out.append((e, "w" if id(e) in wr else "r"))
    f["_eff"] = out
    return out


READERS = {"size", "empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "count", "at", "front", "back", "get",
           "has_value", "value", "lock", "c_str", "data", "load", "use_count", "str", "joinable", "value_or", "second", "first",
           "is_open", "native_handle", "lock_shared", "unlock", "unlock_shared", "try_lock", "wait", "wait_for", "notify_all", "notify_one"}


def is_this(e):
    return e.get("k") == "this" or (e.get("k") in ("cast", "un") and is_this(e.get("e") or {"k": ""}))


def on_this(m):
    b = m.get("b")
    while b is not None and b.get("k") == "mem":
        b = b.get("b")
    return b is None or is_this(b)


def writes(F, f, seen=None):
    """own member variables written by f or by helpers it calls on this object"""
    seen = seen if seen is not None else set()
    if id(f) in seen:
        return set()
    seen.add(id(f))
    w = {m["q"] for m, k in direct(f) if k == "w" and on_this(m)}
    for g in self_callees(F, f):
        w |= writes(F, g, seen)
    return w


def self_callees(F, f):
    for e in nodes(body_of(f)):
        if e.get("k") == "call" and e.get("o") is not None and is_this(e["o"]):
            g = F.fns.get(e.get("u"))
            if g is not None and g.get("body"):
                yield g


def methods(F, cls):
    """bodies of the non-static members of a class (templates: every instantiation)"""
    for f in F.fns.values():
        if f.get("body") and not f.get("static") and sname(f.get("cls") or "") == cls:
            yield f


def all_bases(F, r, seen=None):
    seen = seen if seen is not None else set()
    for b in r.get("bases", ()):
        if b not in seen:
            seen.add(b)
            br = F.recs.get(b)
            if br:
                all_bases(F, br, seen)
    return seen
