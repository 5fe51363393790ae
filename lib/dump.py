"""Print the facts the analysis establishes for the named functions (development aid)."""
import sys
import facts, engine
from engine import *


def main():
    F = facts.load()
    pats = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = [a[2:] for a in sys.argv if a.startswith("-r")]
    sinks = [a[2:] for a in sys.argv if a.startswith("-s")]
    exp = [a[2:] for a in sys.argv if a.startswith("-x")]
    for p in pats:
        for f in F.byname.get(p, []) or [x for x in F.fns.values() if sname(x["q"]) == p]:
            rec = []
            W = Walker(F, expand=lambda g: any(x in g["q"] for x in exp),
                       watch=(lambda c: rec.append(c) if any(s in c["q"] for s in sinks) else None) if sinks else None)
            o = W.run(f)
            print("==", f["q"], [x["n"] for x in f["ps"]], "%s:%d" % (f["file"][6:], f["l"]), "states", len(o.ret))
            if sinks:
                for c in rec:
                    print(" @", show(c["term"])[:200], "in", c["fn"]["q"], "l", c["e"]["l"])
                    pf(c["state"].facts)
                continue
            by = {}
            for s, v in o.ret:
                by.setdefault(show(v)[:300], []).append(s)
            for v, ss in by.items():
                if only and v not in only:
                    continue
                print("  ret", v, "x%d" % len(ss))
                com = {k: b for k, b in ss[0].facts.items() if all(x.facts.get(k) == b for x in ss)}
                pf(com)
                if len(ss) > 1:
                    for s in ss[:10]:
                        print("    -")
                        pf({k: b for k, b in s.facts.items() if k not in com})
            cl = {}
            for s, c in o.thr:
                cl[c] = cl.get(c, 0) + 1
            print("  throws", cl)


def pf(facts_):
    for k, b in facts_.items():
        if k.op == "ev" and any(k.a[0] in list(subterms(j)) for j in facts_ if j is not k):
            continue
        print("     ", showlit(k, b)[:260])


main()
