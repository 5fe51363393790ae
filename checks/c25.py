"""The network's arithmetic: schedules, weights, retargeting helpers and the shape of a proof."""
import re
from engine import show
from spec import lits, holds
from terms import strip

PROPERTY = dict(
    title="Schedules, weights and retargeting arithmetic are those of the network",
    statement="The header version scheduled for every height, the graph weight of every graph size and height, the weight of a transaction under each set of rules, the maturity and pruning horizons, the damping, clamping and secondary-ratio formulas, "
              "and the window of past headers the difficulty is computed from (the last 61, oldest first, padded before genesis) equal the published consensus rules for every input. "
              "A proof of work counts only if it names 42 strictly ascending edges of the claimed graph and closes a cycle of exactly that length, and its work is scaled by that graph's weight at the header's height.",
    over=["inputs", "configurations", "histories"], qtext="every height, network, graph size, count of inputs, outputs and kernels, and chain of headers",
    why="A node that is off by one at a boundary no test reaches (a fork height, an expiry, a saturated value) leaves the network there, months later.",
    files=["include/Consensus.h", "src/PoW/DifficultyCalculator.cpp", "src/PoW/DifficultyLoader.cpp", "src/PoW/HeaderInfo.h", "src/PoW/PoWValidator.cpp", "src/PoW/Cuckatoo.cpp", "src/PoW/Cuckarooz.cpp", "src/Core/Models/TransactionBody.cpp"],
    mechanism=[("Consensus", "include/Consensus.h"), ("DifficultyCalculator, DifficultyLoader", "src/PoW"), ("Cuckaroo, Cuckarood, Cuckaroom, Cuckarooz, Cuckatoo", "src/PoW"), ("TransactionBody::CalcWeight", "src/Core/Models")],
    technique="abstract evaluation to normal forms: each arithmetic function is reduced to guarded linear and integer terms over its parameters and compared, guard by guard, with the published formula",
)


def version(c):
    """Evaluate the guards of GetHeaderVersion as intervals of the height."""
    c.rule("version schedule")
    f = c.find("Consensus::GetHeaderVersion", nparams=2)
    W, o = c.run(f, cap=60)
    want = {1: (185040, 298080, 552960, 642240), 0: (262080, 524160, 786240, 1048320)}
    got = {}
    for s, v in o.ret:
        lo, hi, net, ok = 0, None, None, True
        for l in lits(s):
            m = re.fullmatch(r"\$1 (<|>=) (\d+)", l)
            if m:
                n = int(m.group(2))
                if m.group(1) == ">=":
                    lo = max(lo, n)
                else:
                    hi = n if hi is None else min(hi, n)
            elif l == "$0 == 1":
                net = 1
            elif l in ("$0 != 1", "$0 == 0", "$0 == 2"):
                net = 0
            elif not l.startswith("ev "):
                ok = False
        vs = show(v)
        if hi is not None and lo >= hi:
            continue
        c.ob(ok and vs.isdigit() and int(vs) in range(1, 6), "the version is a constant on an interval of heights", c.at(f), key="guard " + str((net, lo, hi)), detail="returns %s under %s" % (vs, lits(s)))
        for k in ((0, 1) if net is None else (net,)):
            got.setdefault(k, {}).setdefault(int(vs) if vs.isdigit() else -1, []).append((lo, hi))
    for net, b in want.items():
        ends = (0,) + b + (None,)
        for i in range(5):
            iv = sorted(got.get(net, {}).get(i + 1, []), key=lambda x: x[0])
            m = []
            for lo, hi in iv:
                if m and m[-1][1] is not None and lo <= m[-1][1]:
                    m[-1] = (m[-1][0], None if hi is None else max(hi, m[-1][1]))
                else:
                    m.append((lo, hi))
            c.ob(m == [(ends[i], ends[i + 1])], "version %d from height %s up to %s (%s)" % (i + 1, ends[i], ends[i + 1], "floonet" if net else "mainnet"), c.at(f), key="v%d net%d" % (i + 1, net), detail="found %s" % m)
    c.returns(c.find("Consensus::GetHeaderVersion", nparams=1), ["Consensus::GetHeaderVersion(Global::GetEnv(), $0)"])


def formulas(c):
    c.rule("formulas")
    f = c.find("Consensus::GraphWeight")
    X = ("all", "$1 == 31", ("any", "$0 >= 524160", "$0 > 524159"))
    c.returns(f, ["~(($1 + -1~min($1, (/(($0 - 524160), 10080) + 1))), <<(2, ($1 - 24)))"], when=X)
    c.returns(f, ["~($1, <<(2, ($1 - 24)))"], when=("not", X))
    c.returns("Consensus::Damp", ["/(($0 + ~($1, ($2 - 1))), $2)"])
    c.returns("Consensus::Clamp", ["max(/($1, $2), min($0, ~($1, $2)))"])
    c.returns("Consensus::SecondaryPOWRatio", ["(-1~min(/($0, 11648), 90) + 90)"])
    c.returns("Consensus::min_wtema_graph_weight", ["16384"], when="Global::GetEnv() == 0")
    c.returns("Consensus::min_wtema_graph_weight", ["Consensus::GraphWeight(0, 29)", "7424", "29696"], when="Global::GetEnv() != 0", opaque=["Consensus::GraphWeight"])
    c.returns("Consensus::CalculateWeightV4", ["max((-1~$0 + 4~$1 + $2), 1)"])
    c.returns("Consensus::CalculateWeightV5", ["($0 + 21~$1 + 3~$2)"])
    c.returns("Consensus::GetHorizonHeight", ["(max($0, 10080) - 10080)"])
    f = c.find("TransactionBody::CalcWeight")
    V = "Consensus::GetHeaderVersion(*$0)"
    N = "size(m_inputs), size(m_outputs), size(m_kernels)"
    c.returns(f, ["Consensus::CalculateWeightV4(%s)" % N], when=("any", V + " < 5", V + " <= 4"), opaque=["Consensus::CalculateWeightV4", "Consensus::CalculateWeightV5"])
    c.returns(f, ["Consensus::CalculateWeightV5(%s)" % N], when=("any", V + " >= 5", V + " > 4"), opaque=["Consensus::CalculateWeightV4", "Consensus::CalculateWeightV5"])
    for n, v in (("GRIN_BASE", 10**9), ("REWARD", 60 * 10**9), ("MAX_BLOCK_WEIGHT", 40000), ("COINBASE_MATURITY", 1440), ("CUT_THROUGH_HORIZON", 10080), ("STATE_SYNC_THRESHOLD", 2880),
                 ("DEFAULT_FUTURE_TIME_LIMIT_SEC", 300), ("DIFFICULTY_ADJUST_WINDOW", 60), ("PROOFSIZE", 42), ("DEFAULT_MIN_EDGE_BITS", 31), ("SECOND_POW_EDGE_BITS", 29)):
        if c.F.vars.get("Consensus::" + n):
            c.const_var("Consensus::" + n, v)
    v = c.F.vars.get("Consensus::INITIAL_GRAPH_WEIGHT")
    if v and v[0].get("i"):
        i = v[0]["i"]
        from spec import _walk
        cs = [e for e in _walk(i) if e.get("fn") and e.get("k") == "call"]
        ok = i.get("cv") == "29696" or (len(cs) == 1 and cs[0]["fn"] == "Consensus::GraphWeight" and [a.get("cv") for a in cs[0]["a"]] == ["0", "29"])
        c.ob(ok, "the initial graph weight is that of the secondary graph at height 0", "%s:%d" % (c.rel(v[0]), v[0]["l"]), key="initial graph weight", detail=str(cs)[:300])


def window(c):
    c.rule("difficulty window")
    f = c.find("DifficultyLoader::LoadDifficultyData")
    rec, walked = [], []

    def w(x):
        if re.search(r"vector::(emplace_back|push_back)$", x["q"]):
            rec.append(x)
        if x["q"].endswith("GetBlockHeader"):
            walked.append(x)
    W, o = c.run(f, watch=w, opaque=["DifficultyLoader::PadDifficultyData"], cap=60)
    H = "?loop"
    P = "m_pBlockDB.GetBlockHeader(?loop.m_previousBlockHash)"
    c.ob({show(x["args"][0]) for x in walked} == {"$0.m_previousBlockHash", "?loop.m_previousBlockHash"}, "the headers walked are the ancestors, one after another, from the parent of the header", c.at(f), key="ancestors",
         detail=str({show(x["args"][0]) for x in walked}))
    seen = set()
    for x in rec:
        ls, v = lits(x["state"]), show(x["args"][0])
        sec = "1" if holds(ls, H + ".m_proofOfWork.IsSecondary()") else "0" if holds(ls, "!" + H + ".m_proofOfWork.IsSecondary()") else "?loop.m_proofOfWork.IsSecondary()"
        hp = holds(ls, "has(%s)" % P)
        diff = "(?loop.m_totalDifficulty + -1*%s.m_totalDifficulty)" % P if hp else "?loop.m_totalDifficulty"
        seen.add(hp)
        c.ob(v == "HeaderInfo{?loop.m_timestamp, %s, ?loop.m_scalingDifficulty, %s}" % (diff, sec), "an entry is the header's time, own difficulty, scaling and kind", c.at(f, x["e"].get("l")), key="entry %s %s" % (hp, sec), detail=v)
        c.ob(holds(ls, "has(?loop)") and holds(ls, ("any", "size(*) < 61", "size(*) != 61")), "only while fewer than 61 are collected", c.at(f, x["e"].get("l")), key="count", detail="\n    ".join(ls))
        extra = [l for l in ls if not l.startswith("ev ") and not re.fullmatch(r"size\(.*\) (<|!=) 61|!?has\(.*\)|!?\?loop\.m_proofOfWork\.IsSecondary\(\)", l)]
        c.ob(not extra, "no ancestor is left out for another reason", c.at(f, x["e"].get("l")), key="skipped", detail=str(extra))
    c.ob(seen == {True, False}, "both an ordinary ancestor and the genesis block are collected", c.at(f), key="both")
    c.ob(all(re.match(r"this\.PadDifficultyData\(|DifficultyLoader::PadDifficultyData\(|PadDifficultyData\(", show(v)) for s, v in o.ret), "the collected headers are padded", c.at(f), key="padded", detail="; ".join(show(v)[:80] for s, v in o.ret))
    g = c.find("DifficultyLoader::PadDifficultyData")
    rec = []
    W, o = c.run(g, watch=lambda x: rec.append(x) if re.search(r"vector::(emplace_back|push_back)$", x["q"]) else None)
    PAT = r"HeaderInfo(?:::FromTimeAndDiff\(|\{)\((acc\d+\(\$0\.back\(\)\.m_timestamp\)|\?loop) \+ -1\*min\((.*)\)\), at\(\$0, 0\)\.m_difficulty(?:\)|, Consensus::INITIAL_GRAPH_WEIGHT, 1\})"
    deltas = set()
    for x in rec:
        ls, v = lits(x["state"]), show(x["args"][0])
        m = re.fullmatch(PAT, v)
        d = None
        if m:
            rest = m.group(2)
            for a in ("(at($0, 0).m_timestamp + -1*at($0, 1).m_timestamp)", "60"):
                if rest in (a + ", " + m.group(1), m.group(1) + ", " + a):
                    d = a
        n2 = holds(ls, ("any", "size($0) >= 2", "size($0) > 1", "size($0) != 1"))
        deltas.add(d)
        c.ob(d is not None and (d != "60") == n2, "missing headers are simulated at the latest spacing and difficulty", c.at(g, x["e"].get("l")), key="pad %s" % n2, detail=v)
    c.ob(len(deltas) == 2, "both paddings exist", c.at(g), key="pads", detail=str(deltas))
    for s, v in o.ret:
        c.ob(show(v) in ("reverseed($0)", "reverseed(?loop)") and holds(lits(s), ("any", "size($0) >= 61", "size(?loop) >= 61")), "at least 61 entries, oldest first", c.at(g), key="order", detail=show(v))
    c.returns("HeaderInfo::FromDiffAndScaling", ["HeaderInfo{1, $0, trunc32($1), 1}"])
    c.returns("HeaderInfo::FromTimeAndDiff", ["HeaderInfo{$0, $1, *INITIAL_GRAPH_WEIGHT, 1}", "HeaderInfo{$0, $1, 29696, 1}"])


RANGE = {"verify_cuckaroo": ("at($0, {i}) <= (<<(1, $2) - 1)", "at($0, {i}) < <<(1, $2)"), "verify_cuckatoo": ("at($0, {i}) <= (<<(1, $2) - 1)", "at($0, {i}) < <<(1, $2)"),
         "verify_cuckarood": ("at($0, {i}) < 536870912", "at($0, {i}) <= 536870911"), "verify_cuckaroom": ("at($0, {i}) < 536870912", "at($0, {i}) <= 536870911"), "verify_cuckarooz": ("at($0, {i}) < 536870912", "at($0, {i}) <= 536870911")}


def proofs(c):
    c.rule("proof shape")
    for cls in ("Cuckaroo", "Cuckarood", "Cuckaroom", "Cuckarooz", "Cuckatoo"):
        v = "verify_" + cls.lower()
        f = c.find(v)
        W, o = c.run(f, cap=100)
        oks = [s for s, r in o.ret if show(r) == "0"]
        c.ob(bool(oks), "%s can accept" % v, c.at(f), key=v + " accepts")
        for s in oks:
            ls = lits(s)
            c.ob(holds(ls, ("any",) + tuple(x.replace("{i}", "i[0..42)") for x in RANGE[v])), "every one of 42 edges lies in the graph", c.at(f), key=v + " range", detail="\n    ".join(ls)[:1500])
            c.ob(holds(ls, ("any", "i[0..42) == 0", "at($0, (i[0..42) - 1)) < at($0, i[0..42))")), "the edges are strictly ascending", c.at(f), key=v + " ascending", detail="\n    ".join(ls)[:1500])
            c.ob(holds(ls, ("any", "sum(0; *) == 42", "?loop == 42", "acc*(*) == 42")), "the cycle has 42 edges", c.at(f), key=v + " length", detail="\n    ".join(ls)[:1500])
        N = "$0.m_proofOfWork.m_proofNonces"
        g = c.find(cls + "::Validate")
        c.exit(g, ["size(%s) == 42" % N, v + "(*" + N + "*) == 0"], ret="true", opaque=[v])
        rec = []
        c.run(g, watch=lambda x: rec.append(x) if x["q"] == v else None, opaque=[v])
        for x in rec:
            a = [show(y) for y in x["args"]]
            c.ob(N in a[0] and "Blake2b($0.GetPreProofOfWork())" in a[1] and (len(a) < 3 or a[2] == "$0.m_proofOfWork.m_edgeBits"), "the proof is checked against the graph its header defines", c.at(g, x["e"].get("l")), key=v + " graph", detail=str(a))


def work(c):
    c.rule("scaled work")
    f = c.find("PoWValidator::GetMaximumDifficulty")
    W, o = c.run(f, opaque=["Consensus::GraphWeight", "Consensus::ScalingDifficulty"])
    E = "$0.m_proofOfWork.m_edgeBits"
    n = {}
    for s, v in o.ret:
        ls, vs = lits(s), show(v)
        sec = holds(ls, E + " == 29")
        S = "$0.m_scalingDifficulty" if sec else "Consensus::GraphWeight($0.m_height, %s)" % E
        q = "op/(op<<(%s, 64), *max(1, *" % S
        ok = holds(ls, q + " >= 18446744073709551615") if vs == "18446744073709551615" else holds(ls, "*") and re.match(re.escape("op/(op<<(%s, 64), " % S) + r".*max\(1, ", vs) is not None
        n.setdefault(sec, 0)
        c.ob(ok and (sec or holds(ls, E + " != 29")), "the work of a proof is its graph weight scaled by the proof's hash, saturating", c.at(f), key="work %s" % sec, detail=vs + "\n    " + "\n    ".join(ls))
    c.ob(set(n) == {True, False}, "both kinds of proof", c.at(f), key="kinds")


def run(c):
    version(c)
    formulas(c)
    window(c)
    proofs(c)
    work(c)
