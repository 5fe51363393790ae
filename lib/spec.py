"""Obligations over the facts the engine establishes, evidence, findings and verdicts."""
import json, os, re, sys, time, traceback
import facts as facts_mod
from facts import AnalysisBroken, VERIF
import engine
from engine import Walker, show, showlit, sname, t, subterms, subst, HOLE

BASE = None


def baseline():
    global BASE
    if BASE is None:
        p = os.path.join(VERIF, "lib", "known_functions.txt")
        BASE = set(open(p).read().split("\n")) if os.path.exists(p) else None
    return BASE


_pc = {}


def compile_pat(p):
    r = _pc.get(p)
    if r is None:
        out, seen = [], set()
        for tok in re.split(r"(\*|\{[A-Za-z]\w*\})", p):
            tok = tok.replace("\x01", "{").replace("\x02", "}") if "\x01" in tok or "\x02" in tok else tok
            if tok == "*":
                out.append(".*")
            elif re.fullmatch(r"\{[A-Za-z]\w*\}", tok):
                n = tok[1:-1]
                out.append("(?P=%s)" % n if n in seen else "(?P<%s>.+?)" % n)
                seen.add(n)
            else:
                # "~" stands for a literal asterisk
                out.append(re.escape(tok.replace("~", "*")))
        r = _pc[p] = re.compile("".join(out), re.S)
    return r


class Lits(list):
    """printed facts of a state; alts: groups of which one alternative holds"""
    alts = ()


def lits(st):
    l = Lits(showlit(k, b) for k, b in st.facts.items())
    for k, b in st.facts.items():
        if not b:
            continue
        for r in {y for y in subterms(k) if y.op == "rest"}:
            # a collection processed in batches: the remainder is empty or passed too, so all of it did
            for q in r.a[1]:
                if k is subst(q, {HOLE: r}) or (k.op == "eq" and t("size", r) in k.a and engine.ZERO in k.a):
                    l.append(show(subst(q, {HOLE: r.a[0]})))
    l.alts = [[[show(x) for x in c.a] for c in k.a] for k, b in st.facts.items() if k.op == "alt" and b]
    return l


def abbreviate(ls, ab):
    """the same facts with long terms named (see terms.Abbr)"""
    if ab is None:
        return ls
    r = Lits(ab(x) for x in ls)
    r.alts = [[[ab(x) for x in c] for c in g] for g in ls.alts]
    return r


def holds(ls, req):
    if holds1(ls, req):
        return True
    alts = getattr(ls, "alts", ())
    for i, g in enumerate(alts):
        ok = True
        for c in g:
            n = Lits(list(ls) + c)
            n.alts = [x for j, x in enumerate(alts) if j > i]
            if not holds(n, req):
                ok = False
                break
        if ok:
            return True
    return False


def holds1(ls, req):
    """req: pattern | ('any', ...) | ('all', ...) | ('if', A, B): wherever A holds, B does"""
    if isinstance(req, tuple):
        if req[0] == "any":
            return any(holds1(ls, x) for x in req[1:])
        if req[0] == "all":
            return all(holds1(ls, x) for x in req[1:])
        if req[0] == "if":
            return not holds1(ls, req[1]) or holds1(ls, req[2])
        if req[0] == "not":
            return not holds1(ls, req[1])
    r = compile_pat(req)
    if any(r.fullmatch(x) for x in ls):
        return True
    for op in (" == ", " != "):
        if req.count(op) == 1 and not req.startswith(("ev ", "!")):
            a, b = req.split(op)
            r = compile_pat(b + op + a)
            return any(r.fullmatch(x) for x in ls)
    return False


def reqstr(r):
    if isinstance(r, tuple):
        j = {"any": " OR ", "all": " AND ", "if": " IMPLIES ", "not": "NOT "}[r[0]]
        return "(" + j.join(reqstr(x) for x in r[1:]) + ")" if r[0] != "not" else "NOT " + reqstr(r[1])
    return r


class Check:
    def __init__(self, pid, F, tier="quick", seed=1):
        self.pid, self.F, self.tier, self.seed = pid, F, tier, seed
        self.t0 = time.time()
        self.obs = 0
        self.ok = 0
        self.viol = []          # (key, message, where)
        self.fns = set()
        self.sites = 0
        self.samples = []
        self.rules = {}
        self.notes = []
        self.cur = ""

    # -- bookkeeping
    def rule(self, name):
        self.cur = name
        self.rules.setdefault(name, [0, 0])

    def ob(self, ok, what, where="", key=None, detail=""):
        """one obligation; key identifies the violating construct across unrelated edits"""
        self.obs += 1
        r = self.rules.setdefault(self.cur or "rule", [0, 0])
        r[0] += 1
        if ok:
            self.ok += 1
            r[1] += 1
            if len(self.samples) < 12 and r[1] <= 2:
                self.samples.append("%s: %s [%s]" % (self.cur, what, where))
        else:
            k = "%s|%s" % (self.cur, key or what)
            if not any(v[0] == k for v in self.viol):
                self.viol.append((k, what, where, detail))
        return ok

    def rel(self, f):
        p = f.get("file", "")
        return p[len(self.F.repo) + 1:] if p.startswith(self.F.repo) else p

    def at(self, f, l=None):
        return "%s:%s %s" % (self.rel(f), l or f.get("l"), sname(f.get("q", "?")))

    def find(self, q, nparams=None, ptype=None, optional=False):
        c = [f for f in self.F.byname.get(q, []) if f.get("body")]
        if not c:
            c = [f for f in self.F.fns.values() if f.get("body") and sname(f["q"]) == q]
        if nparams is not None:
            c = [f for f in c if len(f["ps"]) == nparams]
        if ptype is not None:
            c = [f for f in c if any(ptype in p["t"] for p in f["ps"])]
        if not c:
            if optional:
                return None
            raise AnalysisBroken("function %s not found in the source" % q)
        c.sort(key=lambda f: (f["file"], f["l"]))
        return c[0]

    def walker(self, **kw):
        kw.setdefault("baseline", baseline())
        ex = kw.pop("expand", None)
        if isinstance(ex, (list, tuple, set)):
            names = set(ex)
            kw["expand"] = lambda g: sname(g["q"]) in names or any(n.endswith("*") and sname(g["q"]).startswith(n[:-1]) for n in names)
        elif ex:
            kw["expand"] = ex
        op = kw.pop("opaque", None)
        if isinstance(op, (list, tuple, set)):
            on = set(op)
            kw["opaque"] = lambda g: sname(g["q"]) in on
        elif op:
            kw["opaque"] = op
        return Walker(self.F, **kw)

    def run(self, f, **kw):
        cap = kw.pop("cap", None)       # paths kept apart before they are merged
        old, oldt = engine.MAXSTATES, engine.MAXTERM
        engine.MAXTERM = kw.pop("maxterm", None) or oldt    # terms larger than this are abstracted
        if cap:
            engine.MAXSTATES = max(cap, old)
        try:
            W = self.walker(**kw)
            o = W.run(f)
        finally:
            engine.MAXSTATES, engine.MAXTERM = old, oldt
        self.fns |= W.walked
        return W, o

    # -- obligations
    def exit(self, q, reqs, ret=None, nparams=None, ptype=None, abbr=None, **kw):
        """On every path on which q returns (the given value), each requirement holds."""
        f = q if isinstance(q, dict) else self.find(q, nparams, ptype)
        W, o = self.run(f, **kw)
        n = 0
        rets = []
        for s, v in o.ret:
            sv = show(v)
            if ret in ("true", "false") and sv not in ("0", "1", "true", "false") and v is not None:
                x, pol = W.boolterm(v, {"t": "bool"})
                s = s.assume(x, pol == (ret == "true"))
                if s is not None:
                    rets.append((s, sv))
                continue
            if ret is None or sv == ret or (sv in ("0", "1") and ret == {"0": "false", "1": "true"}[sv]) or (callable(ret) and ret(sv)) or (not callable(ret) and "*" in ret and compile_pat(ret).fullmatch(sv)):
                rets.append((s, sv))
        if not rets:
            self.ob(False, "%s can no longer return %s" % (f["q"], ret), self.at(f), key="noret %s %s" % (f["q"], ret))
            return o
        ls = [abbreviate(lits(s), abbr) for s, _ in rets]
        for r in reqs:
            bad = [l for l in ls if not holds(l, r)]
            self.ob(not bad, "on return%s of %s: %s" % ("" if ret is None else " of " + str(ret) if not callable(ret) else "", f["q"], reqstr(r)),
                    self.at(f), key="%s: %s" % (sname(f["q"]), reqstr(r)),
                    detail="a path returns with only these facts:\n    " + "\n    ".join(bad[0]) if bad else "")
        return o

    def before(self, q, sink, reqs, min_sites=1, nparams=None, ptype=None, match=None, forbid=None, abbr=None, **kw):
        """At every reachable call of sink inside q (looking through helpers) the requirements hold."""
        f = q if isinstance(q, dict) else self.find(q, nparams, ptype)
        sp = re.compile(sink)
        rec = []

        def w(c):
            if sp.search(c["q"]) and (match is None or match(c)):
                rec.append((c["e"]["l"], c["fn"], show(c["term"]), abbreviate(lits(c["state"]), abbr), c["state"].may, c))
        W, o = self.run(f, watch=w, **kw)
        sites = {(r[0], r[1]["q"]) for r in rec}
        self.sites += len(sites)
        self.ob(len(sites) >= min_sites, "%s reaches %d call(s) of %s (expected at least %d)" % (f["q"], len(sites), sink, min_sites),
                self.at(f), key="%s reaches %s" % (sname(f["q"]), sink))
        for r in reqs:
            bad = [x for x in rec if not holds(x[3], self.inst(r, x[5], abbr))]
            self.ob(not bad, "before %s in %s: %s" % (sink, f["q"], reqstr(r)),
                    self.at(bad[0][1], bad[0][0]) if bad else self.at(f),
                    key="%s @ %s: %s" % (sname(f["q"]), sink, reqstr(r)),
                    detail=("call %s with only these facts:\n    " % bad[0][2]) + "\n    ".join(bad[0][3]) if bad else "")
        if forbid:
            for pat in forbid:
                rp = re.compile(pat)
                bad = [x for x in rec if any(rp.search(m) for m in x[4])]
                self.ob(not bad, "no %s may precede %s in %s" % (pat, sink, f["q"]), self.at(bad[0][1], bad[0][0]) if bad else self.at(f),
                        key="%s @ %s: forbid %s" % (sname(f["q"]), sink, pat))
        return rec, o

    def inst(self, r, c, ab=None):
        """@0,@1 in a requirement: the sink's arguments; @o its object"""
        if isinstance(r, tuple):
            return tuple([r[0]] + [self.inst(x, c, ab) for x in r[1:]])
        if "@" not in r:
            return r

        def lit(x):
            return (ab or str)(show(x)).replace("*", "~").replace("{", "\x01").replace("}", "\x02")
        for i, a in enumerate(c["args"] or ()):
            r = r.replace("@%d" % i, lit(a))
        if c["obj"] is not None:
            r = r.replace("@o", lit(c["obj"]))
        return r

    def returns(self, q, want, nparams=None, ptype=None, when=None, **kw):
        """Every value q returns (on paths where `when` holds) is one of the wanted terms."""
        f = q if isinstance(q, dict) else self.find(q, nparams, ptype)
        W, o = self.run(f, **kw)
        want = [want] if isinstance(want, str) else list(want)
        vals = [(show(v), s) for s, v in o.ret if when is None or holds(lits(s), when)]
        bad = [v for v, s in vals if not any(compile_pat(w).fullmatch(v) for w in want)]
        self.ob(bool(vals) and not bad, "%s returns %s%s" % (f["q"], " | ".join(want), " when " + reqstr(when) if when else ""), self.at(f),
                key="%s returns %s when %s" % (sname(f["q"]), want, reqstr(when) if when else ""),
                detail="returns " + "; ".join(sorted(set(bad))[:4]) if bad else "no such return")
        return o

    def callers_only(self, q, allowed, same_file_ok=False):
        """only the allowed functions (or new helpers called only by them) call q"""
        C = callers(self.F)
        base = baseline() or set()

        def bad(name, seen):
            for f, e in C.get(name, ()):
                n = sname(f["q"])
                if n in allowed or n in seen:
                    continue
                new = n not in base and f["q"] not in base or f.get("acc") in (1, 2)
                if new and C.get(n):
                    b = bad(n, seen | {n})
                    if b:
                        return b
                    continue
                return f, e
        b = bad(q, {q})
        self.sites += len(C.get(q, ()))
        self.ob(b is None, "%s is called only by %s" % (q, ", ".join(sorted(allowed))), self.at(b[0], b[1]["l"]) if b else q, key="callers " + q)

    def enum(self, q):
        """value of an enumerator"""
        e, n = q.rsplit("::", 1)
        for x in self.F.enums.values() if isinstance(self.F.enums, dict) else self.F.enums:
            if x["q"] == e:
                for c in x["c"]:
                    if c["n"] == n:
                        return int(c["v"])
        raise AnalysisBroken("enumerator %s not found" % q)

    def const_var(self, q, want):
        v = self.F.vars.get(q)
        if not v:
            raise AnalysisBroken("constant %s not found" % q)
        cv = v[0]["i"].get("cv")
        self.ob(cv is not None and int(cv) == want, "%s is %d (found %s)" % (q, want, cv), "%s:%d" % (self.rel(v[0]), v[0]["l"]), key="const " + q)

    # -- verdict
    def finish(self, level_note=""):
        kf = load_findings()
        known = {x["key"] for x in kf if x["property"] == self.pid and x.get("status", "open") == "open"}
        new = [v for v in self.viol if v[0] not in known]
        old = [v for v in self.viol if v[0] in known]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        d = os.path.join(VERIF, "evidence", "violations")
        for v in old:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, v[1], v[2]))
        if new:
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + ".txt")
            with open(path, "w") as fh:
                for v in new:
                    fh.write("rule: %s\nconstruct: %s\nobligation: %s\n%s\nkey: %s\n\n" % (v[0].split("|")[0], v[2], v[1], v[3], v[0]))
            for v in new[:20]:
                print("  broken: %s  [%s]" % (v[1], v[2]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
              "coverage": {
                  "explanation": "Static analysis of the current source: each obligation is a rule instance (a function exit, a call site, a "
                                 "field, a constant or a pair of codecs) decided by the named rule; a violation names the construct. "
                                 "Functions counted were actually walked in this run.",
                  "obligations": self.obs, "discharged": self.ok,
                  "functions_analysed": len(self.fns), "sites": self.sites,
                  "translation_units": len(self.F.diag.get("files", [])),
                  "functions_in_program": len(self.F.fns),
                  "rules": {k: {"obligations": a, "discharged": b} for k, (a, b) in self.rules.items()},
                  "samples": self.samples, "known_findings_reported": len(old)},
              "wall_s": round(time.time() - self.t0 + self.F.load_s, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        return 1 if new else 0


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"]]



def _walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from _walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from _walk(v)


def calls_in(f):
    """every call or construction in a function's body (lambdas and initialisers included)"""
    r = f.get("_calls")
    if r is None:
        r = [e for e in _walk([f.get("body"), [i.get("e") for i in f.get("inits", ())]]) if e.get("fn") and e.get("k") in ("call", "ctor", "op", "new")]
        f["_calls"] = r
    return r


def callers(F):
    """callee name (templates stripped) -> [(caller, call)]"""
    r = getattr(F, "_callers", None)
    if r is None:
        r = {}
        for f in F.fns.values():
            if f.get("body"):
                for e in calls_in(f):
                    r.setdefault(sname(e["fn"]), []).append((f, e))
        F._callers = r
    return r
