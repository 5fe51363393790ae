"""The committed trees change together, and every root is computed from what they hold."""
import re
from engine import show
from spec import lits, holds, calls_in

PROPERTY = dict(
    title="The output, proof and kernel trees move together and hash what they hold",
    statement="Appending, spending and rewinding treat the output tree and the range proof tree alike, leaf for leaf, and a rewind takes every tree back to exactly the element counts of the target header, restores what the undone blocks spent, and forgets what they created. "
              "Each tree writes the data and the hash of a leaf together, hashes every node with its position and its two children in order, and folds a root from all the peaks of the requested size. "
              "An output is read back only while it is unspent, from its own leaf, and a missing block, spent position or proof aborts the operation instead of being skipped.",
    over=["inputs", "histories"], qtext="every block, every chain of undone blocks, every tree size and every requested leaf",
    why="A tree one leaf out of step yields roots no other node computes, and only on the histories where the two diverge.",
    files=["src/PMMR/TxHashSetImpl.cpp", "src/PMMR/Common/PruneableMMR.h", "src/PMMR/Common/MMRHashUtil.cpp", "src/PMMR/KernelMMR.cpp", "src/PMMR/HeaderMMRImpl.cpp", "src/PMMR/Common/LeafSet.h", "include/Core/File/BitmapFile.h", "include/Core/File/DataFile.h"],
    mechanism=[("TxHashSet", "src/PMMR/TxHashSetImpl.cpp"), ("PruneableMMR", "src/PMMR/Common/PruneableMMR.h"), ("MMRHashUtil", "src/PMMR/Common/MMRHashUtil.cpp"), ("KernelMMR / HeaderMMR", "src/PMMR")],
    technique="must-fact dataflow: the tree operations and their argument terms on every returning path, and the terms hashed, stored and read at every such call",
    note="The position arithmetic (heights, peak positions, leaf counts) is exercised by the existing unit tests and only used here by name; what validation demands of roots is C02, what a commit or rollback covers is C06.",
)

H = "m_pBlockHeader.m_proofOfWork.m_hash"
BLOCK = "$0.GetBlock(%s)" % H
IN = "each(%s.m_transactionBody.m_inputs)" % BLOCK
SPENT = "found($0.GetSpentPositions(%s), %s.m_commitment)" % (H, IN)


def sites(c, q, rx, want, **kw):
    """every call of `rx` in q has one of the argument tuples in `want` (each with its facts), and each of those occurs"""
    f = c.find(q, **{k: kw.pop(k) for k in ("nparams", "ptype") if k in kw})
    rec = []
    one = kw.pop("one", False)              # one element is picked: a search and a loop that stops say the same
    W, o = c.run(f, cap=200, maxterm=20000, watch=lambda x: rec.append(x) if re.search(rx, x["q"]) else None, **kw)
    seen = set()
    for x in rec:
        args = ([show(x["obj"])] if x["obj"] is not None else []) + [show(a) for a in x["args"]]
        ls = lits(x["state"])
        if one:
            args, ls = [a.replace("some(", "each(") for a in args], [l.replace("some(", "each(") for l in ls]
        hit = False
        for i, (a, reqs) in enumerate(want):
            if len(a) == len(args) and all(holds([y], z) for y, z in zip(args, a)) and all(holds(ls, r) for r in reqs):
                hit = True
                seen.add(i)
        c.sites += 1
        n = x["q"].split("::")[-1]
        c.ob(hit, "%s is given the terms prescribed" % n, c.at(x["fn"], x["e"].get("l")), key="%s %s" % (q, n), detail="%s\n    %s" % (", ".join(args), "\n    ".join(ls)))
    for i, (a, reqs) in enumerate(want):
        c.ob(i in seen, "%s calls %s(%s)" % (q, rx.strip("$"), ", ".join(map(str, a))[:120]), c.at(f), key="%s has %d" % (q, i))


def rewind(c):
    c.rule("rewind")
    q = "TxHashSet::Rewind"
    N = "$1.GetNumOutputs()"
    c.exit(q, [("any", "$1 == m_pBlockHeader", "m_pBlockHeader == $1"),
               "ev m_pKernelMMR.Rewind($1.GetNumKernels())",
               "ev m_pOutputPMMR.Rewind(%s, *)" % N, "ev m_pRangeProofPMMR.Rewind(%s, *)" % N], maxterm=20000)
    # the leaves given back: every spent position of every undone input, for both trees
    f = c.find(q)
    rec = []
    c.run(f, cap=200, maxterm=20000, watch=lambda x: rec.append(x) if re.search(r"PruneableMMR(<.*>)?::Rewind$", x["q"]) else None)
    head = "%s.second.m_leafIndex.m_leafIndex" % SPENT
    ok = {"has(%s)" % SPENT, "$1 != m_pBlockHeader", "m_pBlockHeader != $1", "has(%s)" % BLOCK}
    for x in rec:
        m = re.fullmatch(r"coll\(std::vector\{\}(?:<-reserve\(.*?\))?; (.*)\)", show(x["args"][1]))
        parts = re.split(r" if | & ", m.group(1)) if m else [""]
        c.ob(parts[0] == head and all(y in ok for y in parts[1:]), "both trees get back every leaf the undone blocks spent", c.at(f, x["e"].get("l")), key="leaves given back", detail=show(x["args"][1]))
    sites(c, q, r"::RemoveOutputPositions$", [(["$0", "%s.GetOutputCommitments()" % BLOCK], ["has(%s)" % BLOCK])])
    sites(c, q, r"::AddOutputPosition$", [(["$0", IN + ".m_commitment", SPENT + ".second"],
          ["has(%s)" % SPENT, "ev $0.RemoveOutputPositions(%s.GetOutputCommitments())" % BLOCK])])
    # the step to the parent is the end of undoing one block
    sites(c, q, r"::GetBlockHeader$", [(["$0", "m_pBlockHeader.m_previousBlockHash"],
          ["has(%s)" % BLOCK, ("any", "$1 != m_pBlockHeader", "m_pBlockHeader != $1")])])
    f = c.find(q)
    rec = []
    c.run(f, cap=200, maxterm=20000, watch=lambda x: rec.append(x) if re.search(r"::(GetBlock|GetSpentPositions)$", x["q"]) else None)
    for x in rec:
        c.ob([show(a) for a in x["args"]] == [H], "the block undone is the current one", c.at(f, x["e"].get("l")), key="undo own block", detail=str([show(a) for a in x["args"]]))
    # the whole body of the loop is done on every path that goes round
    c.before(q, r"KernelMMR::Rewind$|OutputPMMR|PruneableMMR<.*>::Rewind$|PruneableMMR::Rewind$", [("any", "$1 == m_pBlockHeader", "m_pBlockHeader == $1")], min_sites=3)
    undone(c, f)


def undone(c, f):
    """on every iteration that completes, both database effects happened: seen where the block header is replaced"""
    rec = []
    W, o = c.run(f, cap=200, maxterm=20000, watch=lambda x: rec.append(x) if x["q"].endswith("::GetBlockHeader") else None)
    for x in rec:
        ls = lits(x["state"])
        done = ["ev $0.RemoveOutputPositions(%s.GetOutputCommitments())" % BLOCK,
                "ev $0.AddOutputPosition(%s.m_commitment, %s.second)" % (IN, SPENT)]
        early = [r for r in done if not holds(ls, r)]
        if early:       # the header may be fetched first; then the effects must still follow in the same function, unconditionally
            ok = False
        else:
            ok = True
        c.ob(ok, "a block is undone in the database before the walk moves to its parent", c.at(f, x["e"].get("l")), key="undone before parent", detail="\n    ".join(early))


def roots(c):
    c.rule("candidate-roots")
    q = "TxHashSet::GetRoots"
    P = "$0.GetOutputPosition(each($1.m_inputs).m_commitment)"
    ON = "each($1.m_outputs)"
    KS = "LeafIndex::At((m_pBlockHeader.GetNumKernels() + size($1.m_kernels))).m_nodeIndex.m_position"
    OS = "LeafIndex::At((m_pBlockHeader.GetNumOutputs() + size($1.m_outputs))).m_nodeIndex.m_position"
    c.exit(q, ["ev m_pKernelMMR.ApplyKernel(each($1.m_kernels))", "has(%s)" % P,
               "ev m_pOutputPMMR.Remove(%s.m_leafIndex)" % P, "ev m_pRangeProofPMMR.Remove(%s.m_leafIndex)" % P,
               "ev m_pOutputPMMR.Append(OutputIdentifier::FromOutput(%s))" % ON, "ev m_pRangeProofPMMR.Append(%s.m_rangeProof)" % ON], maxterm=20000)
    c.returns(q, "TxHashSetRoots{MMRInfo{m_pKernelMMR.Root(%s), %s}, MMRInfo{m_pOutputPMMR.Root(%s), %s}, MMRInfo{m_pRangeProofPMMR.Root(%s), %s}}" % (KS, KS, OS, OS, OS, OS), maxterm=20000)
    c.before(q, r"::Root$", ["ev m_pKernelMMR.ApplyKernel(each($1.m_kernels))", "ev m_pOutputPMMR.Append(OutputIdentifier::FromOutput(%s))" % ON, "ev m_pRangeProofPMMR.Append(%s.m_rangeProof)" % ON,
                              "ev m_pOutputPMMR.Remove(%s.m_leafIndex)" % P, "ev m_pRangeProofPMMR.Remove(%s.m_leafIndex)" % P], min_sites=3, maxterm=20000)


def pruneable(c):
    c.rule("pruneable-tree")
    fs = [f for f in c.F.fns.values() if f.get("body") and re.match(r"PruneableMMR<", f["q"])]
    for size, d in (("34", "OutputIdentifier"), ("683", "RangeProof")):
        T = "PruneableMMR<%s, %s>::" % (size, d)
        NEXT = "LeafIndex::From(Index::At((m_pHashFile.GetSize() + m_pPruneList.GetTotalShift())))"
        NEXT2 = "LeafIndex::AtPos((m_pHashFile.GetSize() + m_pPruneList.GetTotalShift()))"
        own = ("any", "ev this.SetDirty(1)", "m_dirty")
        c.exit(T + "Append", [own, ("any", "ev m_pLeafSet.Add(%s)" % NEXT, "ev m_pLeafSet.Add(%s)" % NEXT2, "ev m_pLeafSet.Add(LeafIndex::*(this.GetSize())*)"),
                              "ev m_pDataFile.AddData($0.Serialized(*))", "ev MMRHashUtil::AddHashes(m_pHashFile, $0.Serialized(*), m_pPruneList)"])
        # the leaf number is taken before the tree grows
        for rx in (r"LeafSet::Add$",):
            f = c.find(T + "Append")
            bad = []
            c.run(f, watch=lambda x: bad.append(x) if x["q"].endswith("GetTotalShift") or x["q"].endswith("HashFile::GetSize") or x["q"].endswith("DataFile::GetSize") else None)
            for x in bad:
                c.ob(not any(l.startswith("ev MMRHashUtil::AddHashes(") for l in lits(x["state"])), "the new leaf is numbered before its hashes are added", c.at(x["fn"], x["e"].get("l")), key=T + "numbered first")
        c.exit(T + "Remove", [own, "m_pLeafSet.Contains($0)", "ev m_pLeafSet.Remove($0)"])
        c.before(T + "Remove", r"LeafSet::Remove$", ["m_pLeafSet.Contains($0)"])
        PREV = "(LeafIndex::At($0).m_nodeIndex - 1)"
        c.exit(T + "Rewind", [own, "ev m_pHashFile.Rewind((LeafIndex::At($0).m_nodeIndex.m_position + -1~*m_pPruneList.GetShift(%s)))" % PREV,
                              "ev m_pDataFile.Rewind(($0 + -1~*m_pPruneList.GetLeafShift(%s)))" % PREV, "ev m_pLeafSet.Rewind($0, $1)"])
        D = "m_pDataFile.GetDataAt(($0.m_leafIndex + -1~*m_pPruneList.GetLeafShift($0.m_nodeIndex)))"
        c.returns(T + "GetAt", ["null", d + "::Deserialize(ByteBuffer{%s, 1})" % D])
        f = c.find(T + "GetAt")
        W, o = c.run(f)
        for s, v in o.ret:
            if show(v) != "null":
                c.ob(holds(lits(s), "this.IsUnpruned($0)"), "only an unspent leaf is read back", c.at(f), key=T + "unspent")
        g = c.find(T + "IsUnpruned")
        c.exit(g, ["m_pLeafSet.Contains($0)", ("any", "$0.m_nodeIndex.m_position < this.GetSize()", "$0.m_nodeIndex.m_position < (m_pHashFile.GetSize() + m_pPruneList.GetTotalShift())")], ret="true")
        c.returns(T + "GetSize", "(m_pHashFile.GetSize() + m_pPruneList.GetTotalShift())")
        c.returns(T + "Root", "MMRHashUtil::Root(m_pHashFile, $0, m_pPruneList)")
    c.ob(len(fs) >= 20, "both pruneable trees are analysed", "src/PMMR/Common/PruneableMMR.h", key="instances")
    c.returns("PruneableMMR<34, OutputIdentifier>::UBMTRoot", "m_pLeafSet.Root($0)")
    for m, t in (("Add", "ev m_pBitmap.Set($0.m_leafIndex)"), ("Remove", "ev m_pBitmap.Unset($0.m_leafIndex)"), ("Rewind", "ev m_pBitmap.Rewind($0, $1)")):
        c.exit("LeafSet::" + m, [t])
    c.exit("LeafSet::Contains", ["m_pBitmap.IsSet($0.m_leafIndex)"], ret="true")
    # a bitmap that is rewound: what was spent comes back, what lies beyond goes, in that order
    q = "BitmapFile::Rewind"
    c.exit(q, ["ev this.Set(each($1))", ("any", "ev this.Unset(i[$0..*))")])
    f = c.find(q)
    rec = []
    c.run(f, watch=lambda x: rec.append(x) if x["q"] == "BitmapFile::Unset" else None)
    for x in rec:
        c.ob(holds(lits(x["state"]), "ev this.Set(each($1))"), "leaves beyond the target stay cleared", c.at(f, x["e"].get("l")), key="unset last")
        c.ob(bool(re.match(r"i\[\$0\.\.", show(x["args"][0]))), "clearing starts at the target size", c.at(f, x["e"].get("l")), key="unset from", detail=show(x["args"][0]))


def simple_trees(c):
    c.rule("kernel-and-header-trees")
    K = "KernelMMR::"
    S = "$0.Serialized(*)"
    c.exit(K + "ApplyKernel", ["ev m_pDataFile.AddData(%s)" % S, "ev MMRHashUtil::AddHashes(m_pHashFile, %s, null)" % S])
    c.exit(K + "Rewind", ["ev m_pHashFile.Rewind(LeafIndex::At($0).m_nodeIndex.m_position)", "ev m_pDataFile.Rewind($0)"])
    c.returns(K + "Root", "MMRHashUtil::Root(m_pHashFile, $0, null)")
    c.returns(K + "GetKernelAt", ["null", "TransactionKernel::Deserialize(ByteBuffer{m_pDataFile.GetDataAt($0.m_leafIndex), 1})"])
    q = "HeaderMMR::"
    F = "m_batchDataOpt.hashFile"
    P = "LeafIndex::At($0).m_nodeIndex.m_position"
    c.exit(q + "Rewind", [("any", "ev %s.Rewind(%s)" % (F, P), "%s == %s.GetSize()" % (P, F), "%s.GetSize() == %s" % (F, P))])
    c.before(q + "Rewind", r"::Rewind$", [], min_sites=1)
    c.exit(q + "AddHeader", ["ev MMRHashUtil::AddHashes(%s, out0($0.m_proofOfWork.SerializeCycle(Serializer*)).m_serialized, null)" % F, ("any", "ev this.SetDirty(1)", "m_dirty")])
    R = "LeafIndex::At(($0 + 1)).m_nodeIndex.m_position"
    c.returns(q + "Root", ["MMRHashUtil::Root(%s, %s, null)" % (F, R), "MMRHashUtil::Root(m_pLockedHashFile.Read(), %s, null)" % R])
    f = c.find(q + "Root")
    W, o = c.run(f)
    for s, v in o.ret:
        want = "has(m_batchDataOpt)" if "m_batchDataOpt" in show(v) else "!has(m_batchDataOpt)"
        c.ob(holds(lits(s), want), "a pending header is seen by the root", c.at(f), key="header root file", detail=show(v))
    for n in ("32", "34", "114", "683"):
        D = "DataFile<%s>::" % n
        if n in ("32", "114", "34", "683"):
            c.exit(D + "Rewind", ["m_pFile.Rewind((%s~*$0))" % n, ("any", "ev this.SetDirty(1)", "m_dirty")])
            f = [g for g in c.F.fns.values() if g.get("body") and g["q"] == D + "AddData"]
            for g in f:
                W, o = c.run(g)
                for s, v in o.ret:
                    ls = lits(s)
                    c.ob(holds(ls, ("any", "ev m_pFile.Append($0)", "ev m_pFile.Append($0.m_data)")) and holds(ls, ("any", "ev this.SetDirty(1)", "m_dirty")), "added data is written and pending", c.at(g), key=D + "AddData")
            c.returns(D + "GetDataAt", "out2(m_pFile.Read((%s~*$0), %s, *))" % (n, n))
            c.exit(D + "GetDataAt", ["m_pFile.Read((%s~*$0), %s, *)" % (n, n)])


def hashes(c):
    c.rule("node-hashes")
    M = "MMRHashUtil::"
    c.returns(M + "HashLeafWithIndex", "Hasher::Blake2b(Serializer{*}<-Append($1)<-AppendByteVector($0*).m_serialized)")
    c.returns(M + "HashParentWithIndex", "Hasher::Blake2b(Serializer{*}<-Append($2)<-AppendBigInteger($0)<-AppendBigInteger($1).m_serialized)")
    for n in ("HashLeafWithIndex", "HashParentWithIndex"):
        f = c.find(M + n)
        for e in calls_in(f):
            if re.match(r"Serializer::Append<", e.get("fn") or ""):
                c.ob(e["fn"].startswith("Serializer::Append<unsigned long"), "a node is hashed with its 64-bit position", c.at(f, e.get("l")), key=n + " width", detail=e["fn"])
    LEAF = "Hasher::Blake2b(Serializer{*}<-Append(%s)<-AppendByteVector($1*).m_serialized)"
    SZ, SZ2 = "($0.GetSize() + $2.GetTotalShift())", "$0.GetSize()"
    PAR = "MMRHashUtil::HashParentWithIndex(MMRHashUtil::GetHashAt($0, {x}.GetLeftChild(), $2), MMRHashUtil::GetHashAt($0, {x}.GetRightChild(), $2), {x}.m_position)"
    first = ("any", "ev Index::At((%s + 1))" % SZ[1:-1], "ev Index::At(($0.GetSize() + 1))")
    sites(c, M + "AddHashes", r"DataFile(<\d+>)?::AddData$", [
        (["$0", LEAF % SZ], ["has($2)"]),
        (["$0", LEAF % SZ2], ["!has($2)"]),
        (["$0", PAR], ["has($2)", "!*.IsLeaf()", "ev $0.AddData(%s)" % (LEAF % SZ), "ev Index::At(($0.GetSize() + $2.GetTotalShift() + 1))"]),
        (["$0", PAR], ["!has($2)", "!*.IsLeaf()", "ev $0.AddData(%s)" % (LEAF % SZ2), "ev Index::At(($0.GetSize() + 1))"]),
    ])
    c.exit(M + "AddHashes", [("any", "ev $0.AddData(%s)" % (LEAF % SZ), "ev $0.AddData(%s)" % (LEAF % SZ2)), "*.IsLeaf()"], abbr=None)
    c.returns(M + "GetHashAt", ["*$0.GetDataAt(($1.m_position + -1~*$2.GetShift($1)))*", "*$0.GetDataAt($1.m_position)*"])
    c.exit(M + "GetHashAt", [("any", ("all", "has($2)", "!$2.IsCompacted($1)", "ev $0.GetDataAt(($1.m_position + -1~*$2.GetShift($1)))"), ("all", "!has($2)", "ev $0.GetDataAt($1.m_position)"))])
    # a root: zero for the empty tree, otherwise folded over the peaks of the requested size, right to left
    q = M + "Root"
    f = c.find(q)
    W, o = c.run(f)
    for s, v in o.ret:
        ls = lits(s)
        if holds(ls, "$1 == 0"):
            c.ob(show(v) == "HASH::ZERO", "the empty tree has the zero root", c.at(f), key="empty root", detail=show(v))
        else:
            c.ob(holds(ls, "ev MMRUtil::GetPeakIndices($1)"), "a root covers the peaks of the requested size", c.at(f), key="peaks of size")
    sites(c, q, r"DataFile(<\d+>)?::GetDataAt$", [
        (["$0", ("any", "(-1~*$2.GetShift(Index::At(*)) + Index::At(*).m_position)", "(Index::At(*).m_position + -1~*$2.GetShift(Index::At(*)))")], ["has($2)"]),
        (["$0", "Index::At(*).m_position"], ["!has($2)"])])
    sites(c, q, r"HashParentWithIndex$", [
        (["*$0.GetDataAt(*)*", "*", "$1"], ["*$0.GetDataAt(*)* != HASH::ZERO"])])
    g = c.find(q)
    rec = []
    c.run(g, watch=lambda x: rec.append(x) if x["q"].endswith("HashParentWithIndex") else None)
    for x in rec:
        a = [show(y) for y in x["args"]]
        c.ob("GetDataAt" not in a[1], "the peak goes to the left of what lies to its right", c.at(g, x["e"].get("l")), key="fold order", detail=str(a))


def reading(c):
    c.rule("reading-outputs")
    q = "TxHashSet::GetOutput"
    L = "$0.m_leafIndex"
    c.returns(q, "OutputDTO{0, m_pOutputPMMR.GetAt(%s), $0, m_pRangeProofPMMR.GetAt(%s)}" % (L, L))
    c.exit(q, ["has(m_pOutputPMMR.GetAt(%s))" % L, "has(m_pRangeProofPMMR.GetAt(%s))" % L])
    q = "TxHashSet::SaveOutputPositions"
    HD = "$1.GetBlockHeader($0.GetByHeight(i[0..(m_pBlockHeader.m_height + 1))).m_hash)"
    sites(c, q, r"::AddOutputPosition$", [(["$1", "m_pOutputPMMR.GetAt({i}).m_commitment", "OutputLocation{{i}, %s.m_height}" % HD],
          ["has(m_pOutputPMMR.GetAt(*))", "* < %s.GetNumOutputs()" % HD])])


def run(c):
    rewind(c)
    roots(c)
    pruneable(c)
    simple_trees(c)
    hashes(c)
    reading(c)
