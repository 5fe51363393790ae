"""Typestate over the resolved syntax tree: `step(e, s)` maps the state across one expression node (in
evaluation order), `throws(e)` says whether a call may leave by an exception, `branch(cond, s)` may split
the state on a condition.  States are hashable; every construct is interpreted to a fixpoint, so a fact
that holds in all resulting states holds on every path."""
from effects import nodes

SKIP = {"lambda"}


class Flow:
    def __init__(self, step, throws=None, branch=None, enter=None, leave=None, isa=None):
        self.step, self.throws, self.branch = step, throws or (lambda e: None), branch
        self.enter, self.leave = enter, leave
        self.isa = isa or (lambda c, h: True)
        self.exc = [set()]              # stack of {(class, state)} raised in the enclosing try bodies

    def run(self, f, s0):
        """{'end': states, 'ret': states, 'throw': {(class, state)}}"""
        cur = {s0}
        for i in f.get("inits", ()):
            cur = self.ex(i.get("e"), cur)
        o = self.st(f.get("body"), cur)
        return {"end": o["fall"], "ret": o["ret"], "throw": self.exc[0]}

    # statements -> dict of outcome sets
    def out(self, fall=()):
        return {"fall": set(fall), "cont": set(), "brk": set(), "ret": set()}

    def st(self, s, cur):
        if s is None:
            return self.out(cur)
        k = s.get("k")
        if not cur and k not in ("Case", "Default", "C"):
            return self.out(cur)
        m = getattr(self, "s_" + k, None) if k else None
        if m:
            return m(s, cur)
        return self.out(self.ex(s, cur))

    def s_C(self, s, cur):
        o = self.out()
        scope = []
        for x in s.get("s", ()):
            r = self.st(x, cur)
            for n in ("cont", "brk", "ret"):
                o[n] |= r[n]
            cur = r["fall"]
        o["fall"] = cur
        if self.leave:
            for n in o:
                o[n] = {self.leave(s, y) for y in o[n]}
        return o

    def s_N(self, s, cur):
        return self.out(cur)

    def s_E(self, s, cur):
        return self.out(self.ex(s.get("e"), cur))

    def s_D(self, s, cur):
        for v in s.get("v", ()):
            cur = self.ex(v.get("i"), cur)
            cur = {self.step(dict(k="Decl", v=v), y) for y in cur}
        return self.out(cur)

    def split(self, c, cur):
        if c is None:
            return cur, set()
        k = c.get("k")
        if c.get("cv") is not None and k in ("lit", "cast"):
            return (set(cur), set()) if str(c["cv"]) not in ("0", "false") else (set(), set(cur))
        if k == "un" and c.get("op") == "!":
            a, b = self.split(c.get("e") or c["a"][0], cur)
            return b, a
        if k == "bin" and c.get("op") in ("&&", "||"):
            a, b = self.split(c["a"][0], cur)
            if c["op"] == "&&":
                a2, b2 = self.split(c["a"][1], a)
                return a2, b | b2
            a2, b2 = self.split(c["a"][1], b)
            return a | a2, b2
        if k in ("cast", "paren") and c.get("e"):
            return self.split(c["e"], cur)
        cur = self.ex(c, cur)
        if self.branch:
            t, f = set(), set()
            for y in cur:
                r = self.branch(c, y)
                if r is None:
                    t.add(y)
                    f.add(y)
                else:
                    t |= set(r[0])
                    f |= set(r[1])
            return t, f
        if k == "lit":
            return (set(cur), set()) if str(c.get("cv", "1")) not in ("0", "false") else (set(), set(cur))
        return set(cur), set(cur)

    def s_If(self, s, cur):
        if s.get("init"):
            cur = self.st(s["init"], cur)["fall"]
        if s.get("cvar"):
            cur = self.st(s["cvar"] if s["cvar"].get("k") == "D" else {"k": "D", "v": [s["cvar"]]}, cur)["fall"]
        t, f = self.split(s.get("c"), cur)
        a, b = self.st(s.get("t"), t), self.st(s.get("e"), f)
        return {n: a[n] | b[n] for n in a}

    def loop(self, cur, cond, body, inc):
        seen, todo, o, exits = set(), set(cur), self.out(), set()
        while todo:
            seen |= todo
            t, f = self.split(cond, todo)
            exits |= f
            r = self.st(body, t)
            exits |= r["brk"]
            o["ret"] |= r["ret"]
            todo = self.ex(inc, r["fall"] | r["cont"]) - seen
        o["fall"] = exits
        return o

    def s_While(self, s, cur):
        return self.loop(cur, s.get("c"), s.get("b"), None)

    def s_Do(self, s, cur):
        seen, todo, o, exits = set(), set(cur), self.out(), set()
        while todo:
            seen |= todo
            r = self.st(s.get("b"), todo)
            o["ret"] |= r["ret"]
            exits |= r["brk"]
            t, f = self.split(s.get("c"), r["fall"] | r["cont"])
            exits |= f
            todo = t - seen
        o["fall"] = exits
        return o

    def s_For(self, s, cur):
        if s.get("init"):
            cur = self.st(s["init"], cur)["fall"]
        return self.loop(cur, s.get("c"), s.get("b"), s.get("inc"))

    def s_FR(self, s, cur):
        cur = self.ex(s.get("r"), cur)
        seen, todo, o = set(), set(cur), self.out(cur)
        while todo:
            seen |= todo
            r = self.st(s.get("b"), {self.step(dict(k="ForEach", v=s.get("v"), r=s.get("r")), y) for y in todo})
            o["ret"] |= r["ret"]
            o["fall"] |= r["brk"] | r["fall"] | r["cont"]
            todo = (r["fall"] | r["cont"]) - seen
        return o

    def s_Switch(self, s, cur):
        if s.get("init"):
            cur = self.st(s["init"], cur)["fall"]
        cur = self.ex(s.get("c"), cur)
        self.sw = getattr(self, "sw", [])
        self.sw.append(cur)
        r = self.st(s.get("b"), cur)
        self.sw.pop()
        hasdef = any(x.get("k") == "Default" for x in nodes(s.get("b")))
        o = {"fall": r["fall"] | r["brk"] | (set() if hasdef else cur), "cont": r["cont"], "brk": set(), "ret": r["ret"]}
        return o

    def s_Case(self, s, cur):
        return self.st(s.get("b") or s.get("s"), cur | (self.sw[-1] if getattr(self, "sw", None) else set()))

    s_Default = s_Case

    def s_Try(self, s, cur):
        self.exc.append(set())
        o = self.st(s.get("b"), cur)
        raised = self.exc.pop()
        left = set(raised)
        for h in s.get("h", ()):
            got = {(c, y) for c, y in left if c is None or self.isa(c, h.get("t") or "")}
            # an unknown class may or may not match, unless the handler takes everything
            left -= {(c, y) for c, y in got if c is not None or (h.get("t") or "...") in ("", "...")}
            r = self.st(h.get("b"), {y for c, y in got})
            for n in o:
                o[n] |= r[n]
        self.exc[-1] |= left
        return o

    def s_Ret(self, s, cur):
        o = self.out()
        o["ret"] = self.ex(s.get("e"), cur)
        if self.leave:
            o["ret"] = {self.leave(s, y) for y in o["ret"]}
        return o

    def s_Break(self, s, cur):
        o = self.out()
        o["brk"] = set(cur)
        return o

    def s_Continue(self, s, cur):
        o = self.out()
        o["cont"] = set(cur)
        return o

    # expressions -> states
    def ex(self, e, cur):
        if e is None or not cur:
            return cur
        if isinstance(e, list):
            for x in e:
                cur = self.ex(x, cur)
            return cur
        if not isinstance(e, dict):
            return cur
        k = e.get("k")
        if k in SKIP:
            return {self.step(e, y) for y in cur}
        if k == "cond":
            t, f = self.split(e["a"][0], cur)
            return self.ex(e["a"][1], t) | self.ex(e["a"][2], f)
        if k == "bin" and e.get("op") in ("&&", "||"):
            t, f = self.split(e, cur)
            return t | f
        if k == "throw":
            cur = self.ex(e.get("e"), cur)
            c = ((e.get("e") or {}).get("cls") or (e.get("e") or {}).get("t")) if e.get("e") else None
            self.exc[-1] |= {(c, y) for y in cur}
            return set()
        for kk, v in e.items():
            if kk in ("o", "a", "e", "b", "i") and isinstance(v, (dict, list)):
                cur = self.ex(v, cur)
        th = self.throws(e)
        if th:
            self.exc[-1] |= {(c, y) for c in th for y in cur}
        return {self.step(e, y) for y in cur}
