"""State archives: made, sent, received and unpacked whole, and only where they belong."""
import re
from effects import nodes
from engine import show
from spec import lits, holds
from flow import Flow

PROPERTY = dict(
    title="State archives are sent, received and unpacked whole, and stay in their place",
    statement="A downloaded state archive is processed only if exactly the announced number of bytes was received and stored; a broken or failed download is discarded, is never processed, and leaves the node ready for the next one. "
              "Unpacking takes only the fixed set of files, named by the node and not by the archive, into the node's own state directory after its old content was removed, and succeeds only if each of them was present, passed its checksum and was written in full; the structures are then cut back to the sizes in the header. "
              "An archive that is sent is a private copy of the state rewound to the requested header, of the announced size, sent completely and in order, and removed afterwards.",
    over=["inputs", "fault_sequences"], qtext="every archive a peer may send, every interruption and failing file or network operation",
    why="Archives are gigabytes from an untrusted peer: a lost chunk, an ignored checksum or a name chosen by the peer corrupts or overwrites files that no test downloads.",
    files=["src/P2P/Pipeline/TxHashSetPipe.cpp", "src/PMMR/TxHashSetManager.cpp", "src/PMMR/Zip/TxHashSetZip.cpp", "src/PMMR/Zip/ZipFile.cpp", "src/PMMR/Zip/Zipper.cpp"],
    mechanism=[("TxHashSetPipe", "src/P2P/Pipeline/TxHashSetPipe.cpp"), ("TxHashSetZip::Extract", "src/PMMR/Zip/TxHashSetZip.cpp"), ("ZipFile::ExtractFile", "src/PMMR/Zip/ZipFile.cpp"), ("TxHashSetManager::SaveSnapshot / LoadFromZip", "src/PMMR/TxHashSetManager.cpp")],
    technique="typestate analysis of the transfer loops (received/stored, read/sent, broken, cleared) plus must-fact dataflow over the terms of sizes, paths and file names",
    note="What the archive contains is validated by property C04. Time-outs are not bounded.",
)

PIPE = "TxHashSetPipe::Thread_ProcessTxHashSet"
SEND = "TxHashSetPipe::Thread_SendTxHashSet"


def anyof(*a):
    return ("any",) + a


def results(f, names):
    """ids of the variables that (also) hold the result of a call of `names`, and every call that sets one of them"""
    sets = []
    for s in nodes(f["body"]):
        if s.get("k") == "D":
            sets += [(v["id"], bare(v.get("i"))) for v in s["v"]]
        elif s.get("k") in ("bin", "op") and s.get("op") == "=" and len(s.get("a") or ()) == 2:
            sets.append((bare(s["a"][0]).get("id"), bare(s["a"][1])))
    ids = {v for v, i in sets if i.get("k") == "call" and i.get("n") in names}
    return ids, {id(i) for v, i in sets if v in ids}


def bare(e):
    while e and e.get("k") in ("cast", "conv"):
        e = e.get("e") or e.get("o")
    return e or {}


def receive(c):
    f = c.find(PIPE)
    got, sets = results(f, {"ReceiveSync"})
    bad = []
    #  (a chunk was received and not stored, the transfer broke, the archive was processed, ready for the next, file removed)
    P, B, X, C, R = range(5)

    def put(s, **kw):
        s = list(s)
        for k, v in kw.items():
            s["PBXCR".index(k)] = v
        return tuple(s)

    def step(e, s):
        k, n = e.get("k"), e.get("n", e.get("op"))
        if k == "call" and n == "ReceiveSync":
            c.sites += 1
            if s[P]:
                bad.append(("every received chunk is stored before the next one", e.get("l"), "lost"))
            return put(s, P=True, B=None)           # unknown until the result is tested
        if id(e) in sets:
            return put(s, B=None)
        if k == "call" and n == "write":
            c.sites += 1
            if not s[P] or s[B] is not False:
                bad.append(("only received chunks are stored, once", e.get("l"), "twice"))
            return put(s, P=False)
        if k == "call" and n == "ProcessTransactionHashSet":
            c.sites += 1
            if s[P] or s[B] is not False or s[R]:
                bad.append(("a broken download is not processed", e.get("l"), "processed"))
            return put(s, X=True)
        if k == "call" and n == "RemoveFile":
            return put(s, R=True)
        m = None
        if k in ("op", "bin") and n == "=":
            a = e.get("a") or [None, None]
            m, v = a[0], a[1]
        elif k == "call" and n in ("store", "exchange"):
            m, v = e.get("o"), (e.get("a") or [None])[0]
        if m and bare(m).get("k") == "mem" and bare(m).get("n") == "m_processing":
            return put(s, C=str(bare(v).get("cv", bare(v).get("v"))) in ("0", "false", "False"))
        return s

    def branch(e, s):
        e = bare(e)
        if (e.get("k") == "ref" and e.get("id") in got) or (e.get("k") == "call" and e.get("n") == "ReceiveSync"):
            yes, no = [put(s, B=False)], [put(s, B=True, P=False)]
            return (yes, no) if s[B] is None else (yes, []) if s[B] is False else ([], no)
        return None

    def throws(e):
        return "std::exception" if e.get("k") == "call" and not e.get("nx") and e.get("n") in ("ReceiveSync", "ProcessTransactionHashSet") else None
    r = Flow(step, throws=throws, branch=branch, isa=lambda a, b: True).run(f, (False,) * 5)
    for what, l, key in bad:
        c.ob(False, what, c.at(f, l), key="receive " + key)
    outs = r["end"] | r["ret"]
    c.ob(not bad, "chunks are stored one by one", c.at(f), key="receive order")
    c.ob(bool(outs) and all(s[C] for s in outs), "after every outcome the node can take another archive", c.at(f), key="receive cleared")
    c.ob(bool(outs) and all(s[X] or s[R] for s in outs), "an archive that is not processed is removed", c.at(f), key="receive removed")

    from checks.c30 import runs
    f, o, rec = runs(c, PIPE, rx=r"(^|::)(ReceiveSync|write|ProcessTransactionHashSet|RemoveFile|BanPeer)$")
    by = {}
    for x in rec:
        by.setdefault(x["q"].split("::")[-1], []).append(x)
    MIN = (r"min\(\(\$2 \+ -1\*(.+)\), (\d+)\)", r"min\((\d+), \(\$2 \+ -1\*(.+)\)\)")
    ln = None
    for x in by.get("ReceiveSync", []):
        a = [show(y) for y in x["args"]]
        ln = a[1]
        m = re.fullmatch(MIN[0], a[1])
        have, n = (m.group(1), m.group(2)) if m else (None, None)
        if not m:
            m = re.fullmatch(MIN[1], a[1])
            have, n = (m.group(2), m.group(1)) if m else (None, None)
        buf = re.search(r"std::vector\{(\d+)", a[0])
        c.ob(bool(m and buf) and int(n) <= int(buf.group(1)), "no more is requested than is missing and fits", c.at(x["fn"], x["e"].get("l")), key="receive size", detail=str(a))
        c.ob(bool(m) and holds(lits(x["state"]), anyof("%s < $2" % have, "$2 > %s" % have, "%s != $2" % have)), "reception ends with the announced size", c.at(x["fn"], x["e"].get("l")), key="receive end", detail="\n".join(lits(x["state"])))
    c.ob(bool(by.get("ReceiveSync")) and bool(by.get("write")), "the archive is received and stored", c.at(f), key="receive sites")
    for x in by.get("write", []):
        a = [show(y) for y in x["args"]]
        c.ob(len(a) == 2 and a[1] == ln and "ReceiveSync(" in a[0], "what was received is stored", c.at(x["fn"], x["e"].get("l")), key="receive store", detail=str(a))
    path = None
    for x in by.get("ProcessTransactionHashSet", []):
        a = [show(y) for y in x["args"]]
        path = a[1]
        ls = lits(x["state"])
        c.ob(a[0] == "$3", "the archive is processed for the announced block", c.at(x["fn"], x["e"].get("l")), key="receive block", detail=str(a))
        c.ob(holds(ls, anyof("$2 <= *", "* >= $2", "* == $2", "$2 == *")), "all announced bytes were received", c.at(x["fn"], x["e"].get("l")), key="receive all", detail="\n".join(ls))
        c.ob(holds(ls, anyof("!*<-close().fail()", "*<-close().good()", "has(*<-close())", "!*<-close().operator!()")), "the archive was stored without an error", c.at(x["fn"], x["e"].get("l")), key="receive stored", detail="\n".join(ls))
    c.ob(bool(path), "the archive is processed", c.at(f), key="receive processed")
    for x in by.get("write", []):
        c.ob("open(%s, " % path in show(x["obj"]) or "basic_ofstream{%s, " % path in show(x["obj"]), "the archive that is processed is the one that was stored", c.at(x["fn"], x["e"].get("l")), key="receive path", detail=show(x["obj"]))
        fl = {int(y) for y in re.findall(r"(?<![\w.])\d+(?![\w.])", show(x["obj"]).rsplit("2}", 1)[-1])}
        c.ob(1 not in fl and (32 in fl or 8 not in fl), "the file starts empty", c.at(x["fn"], x["e"].get("l")), key="receive truncates", detail=str(fl))
    for x in by.get("RemoveFile", []):
        c.ob(show(x["args"][0]) == path, "the discarded file is the download", c.at(x["fn"], x["e"].get("l")), key="receive discards", detail=show(x["args"][0]))
    f = c.find("TxHashSetPipe::ReceiveTxHashSet")
    c.before("TxHashSetPipe::ReceiveTxHashSet", r"(^|::)DisableReceives$", [anyof("!m_processing.exchange(1*)", "!has(m_processing.exchange(1*))", "*m_processing.compare_exchange*")])


def send(c):
    f = c.find(SEND)
    sent = results(f, {"SendSync"})[0]
    count = results(f, {"gcount"})[0]
    bad = []
    # (announced, a chunk was read and not sent, sending failed)
    A, P, B = range(3)

    def step(e, s):
        k, n = e.get("k"), e.get("n")
        if k != "call":
            return s
        if n == "read":
            c.sites += 1
            if s[P] or s[B]:
                bad.append(("every chunk that was read is sent before the next one", e.get("l"), "order"))
            return (s[A], True, False)
        if n == "SendSync":
            c.sites += 1
            if not s[A]:
                return (True, s[P], s[B])
            if not s[P]:
                bad.append(("a chunk is sent once", e.get("l"), "twice"))
            return (s[A], False, True)
        if n == "DisableSends" and s[A] and (s[P] or s[B]):
            bad.append(("other messages are sent only after the whole archive", e.get("l"), "between"))
        return s

    def branch(e, s):
        e = bare(e)
        if (e.get("k") == "ref" and e.get("id") in sent) or (e.get("k") == "call" and e.get("n") == "SendSync" and s[A]):
            return [(s[A], s[P], False)], [s]
        if e.get("k") in ("bin", "op") and ("gcount" in str(e) or any(bare(x).get("id") in count for x in e.get("a") or () if bare(x).get("k") == "ref")):
            op = e.get("op")
            zero = "'cv': '0'" in str(e) or "'v': 0" in str(e) or "'v': '0'" in str(e)
            no = [(s[A], False, s[B])]
            if op in (">", "!="):
                return [s], no
            if op in ("==", "<=") and zero:
                return no, [s]
        return None

    def throws(e):
        return "std::exception" if e.get("k") == "call" and not e.get("nx") and e.get("n") in ("SendSync", "SnapshotTxHashSet") else None
    r = Flow(step, throws=throws, branch=branch, isa=lambda a, b: True).run(f, (False, False, False))
    for what, l, key in bad:
        c.ob(False, what, c.at(f, l), key="send " + key)
    c.ob(not bad, "the archive is sent chunk by chunk", c.at(f), key="send order")

    from checks.c30 import runs
    f, o, rec = runs(c, SEND, rx=r"(^|::)(SendSync|read|SnapshotTxHashSet|basic_ifstream)$")
    H = "$0.GetBlockHeaderByHash($2)"
    Z = "$0.SnapshotTxHashSet(%s)" % H
    n = [0, 0]
    for x in rec:
        q, a = x["q"], [show(y) for y in x["args"] or ()]
        w = c.at(x["fn"], x["e"].get("l"))
        if q.endswith("Connection::SendSync"):
            n[0] += 1
            c.ob(a[0] == "TxHashSetArchiveMessage{%s.m_proofOfWork.m_hash, %s.m_height, FileUtil::GetFileSize(%s)}" % (H, H, Z), "the archive is announced with its block and its size", w, key="send announce", detail=str(a))
        elif q.endswith("Socket::SendSync"):
            n[1] += 1
            ok = re.fullmatch(r"std::vector\{begin\((.+)\), \(begin\((.+)\) \+ (.+)<-read\((.+)\.data\(\), (\d+)\)\.gcount\(\)\)\}", a[0])
            c.ob(bool(ok) and len({ok.group(1), ok.group(2), ok.group(4)}) == 1 and Z in ok.group(3), "exactly what was read from the archive is sent", w, key="send chunk", detail=str(a))
            c.ob(a[1] in ("0", "false"), "the archive is sent as it is", w, key="send raw", detail=str(a))
        elif q.endswith("::read"):
            m = re.match(r"std::vector\{(\d+)", a[0])
            c.ob(bool(m) and a[1].isdigit() and int(a[1]) <= int(m.group(1)), "a chunk fits its buffer", w, key="send fits", detail=str(a))
    c.ob(min(n) > 0, "the archive is announced and sent", c.at(f), key="send sites", detail=str(n))
    guard = any(s.get("k") == "D" and any("FileRemover" in v["t"] for v in s["v"]) for s in nodes(f["body"]))
    if not guard:
        c.exit(SEND, [("if", "ev %s" % Z, "ev FileUtil::RemoveFile(%s)" % Z)])
    c.exit("FileRemover::~FileRemover", ["ev FileUtil::RemoveFile(m_path)"])


def unpack(c):
    from checks.c30 import runs
    D = "*m_txHashSetPath"
    q = "TxHashSetZip::Extract"
    KN = ["pmmr_data.bin", "pmmr_hash.bin"]
    f, o, rec = runs(c, q, rx=r"(^|::)(ExtractFile|remove_all|remove|rename|RenameFile|ListFiles)$")
    names = {}
    for x in rec:
        n, a = x["q"].split("::")[-1], [show(y) for y in x["args"] or ()]
        w = c.at(x["fn"], x["e"].get("l"))
        if n == "ListFiles":
            c.ob(False, "the archive's own names are not used", w, key="unpack names")
        for t in a[1:] if n == "ExtractFile" else a[:1] if n.startswith("remove") else a:
            c.ob(holds([t], D[1:] + "*") or bool(re.match(r"op/\((op/\()?m_config\S*m_txHashSetPath, ", t)), "only the state directory is touched", w, key="unpack dir", detail=t)
            c.ob("ZipFile" not in t and "$0" not in t and ".." not in t.replace("..[", ""), "no path depends on the archive", w, key="unpack path", detail=t)
        if n == "ExtractFile":
            for fo in ("kernel", "output", "rangeproof"):
                if '"%s' % fo in a[0] and '"%s' % fo in a[1]:
                    names.setdefault(fo, []).append((a[0], a[1]))
    LEAF = ("pmmr_leaf.bin.", "$1.ShortHash()")
    for fo, want in (("kernel", KN), ("output", KN + ["pmmr_prun.bin"]), ("rangeproof", KN + ["pmmr_prun.bin"])):
        t = "\n".join(a + b for a, b in names.get(fo, []))
        c.ob(bool(t) and all('"%s"' % w in t or '/%s"' % w in t for w in want) and (fo == "kernel" or all(y in t for y in LEAF)), "all files of the %s structure are unpacked" % fo, c.at(f), key="unpack set " + fo, detail=t)
        extra = set(re.findall(r"pmmr_\w+\.bin", t)) - {"pmmr_data.bin", "pmmr_hash.bin", "pmmr_prun.bin", "pmmr_leaf.bin"}
        c.ob(not extra, "no other file of the %s structure is unpacked" % fo, c.at(f), key="unpack extra " + fo, detail=str(extra))
    reqs = ["ev ZipFile::Load($0)"]
    for fo in ("kernel", "output", "rangeproof"):
        reqs += ["ev *.ExtractFile(*\"%s*, op/(op/(*m_txHashSetPath, *\"%s\"*), *))" % (fo, fo),
                 anyof("!std::filesystem::exists(op/(*m_txHashSetPath, *\"%s\"*), *)" % fo, "!has(out1(std::filesystem::remove_all(op/(*m_txHashSetPath, *\"%s\"*), *)))" % fo, "ev std::filesystem::remove_all(op/(*m_txHashSetPath, *\"%s\"*))" % fo, "*RemoveFile(op/(*m_txHashSetPath, *\"%s\"*))" % fo)]
        if fo != "kernel":
            reqs.append("ev FileUtil::RenameFile(op/(op/(*m_txHashSetPath, *\"%s\"*), *pmmr_leaf.bin.*$1.ShortHash()*), op/(op/(*m_txHashSetPath, *\"%s\"*), *\"pmmr_leaf.bin\"*))" % (fo, fo))
    c.exit(q, reqs, ret=lambda v: v == "1", cap=400, maxterm=20000)
    c.returns(q, ["0", "1"], cap=400, maxterm=20000)

    q = "ZipFile::ExtractFile"
    OK = ["unzLocateFile(m_unzFile, $0.c_str(), *) == 0", "unzOpenCurrentFile(m_unzFile) == 0", "unzCloseCurrentFile(m_unzFile) == 0",
          anyof("?loop >= 0", "?loop == 0", "unzReadCurrentFile(m_unzFile, *) >= 0", "unzReadCurrentFile(m_unzFile, *) == 0"),
          anyof("!*<-close().fail()", "*<-close().good()", "has(*<-close())")]
    c.exit(q, OK)
    f, o, rec = runs(c, q, rx=r"(^|::)(write|basic_ofstream|unzReadCurrentFile)$")
    f = c.find(q)
    bad = []

    def step(e, s):
        if e.get("k") == "call" and e.get("n") == "unzReadCurrentFile":
            c.sites += 1
            if s == "read":
                bad.append(e.get("l"))
            return "read"
        if e.get("k") == "call" and e.get("n") == "write":
            if s != "read":
                bad.append(e.get("l"))
            return "written"
        return s

    def branch(e, s):
        if e.get("k") in ("bin", "op") and s == "read" and e.get("op") in (">", "!=", "==", "<="):
            return ([s], ["end"]) if e["op"] in (">", "!=") else (["end"], [s])
        return None
    r = Flow(step, branch=branch).run(f, "none")
    c.ob(not bad, "every unpacked chunk is written", c.at(f, bad[0] if bad else None), key="unpack chunk")
    c.ob(r["end"] | r["ret"] == {"end"}, "an entry is unpacked to its end", c.at(f), key="unpack end", detail=str(r["end"] | r["ret"]))
    for x in rec:
        if x["q"].endswith("::write"):
            a = [show(y) for y in x["args"]]
            c.ob("unzReadCurrentFile(" in a[0] + a[1] and "unzReadCurrentFile(" in a[1], "what was unpacked is written", c.at(x["fn"], x["e"].get("l")), key="unpack write", detail=str(a))
    c.before(q, r"::write$", [], min_sites=1)


def load(c):
    q = "TxHashSetManager::LoadFromZip"
    T = "$0*m_txHashSetPath"
    K, O, R = ("%s::Load(%s)" % (n, T) for n in ("KernelMMR", "OutputPMMR", "RangeProofPMMR"))
    c.before(q, r"(KernelMMR|OutputPMMR|RangeProofPMMR)::Load$", ["TxHashSetZip{$0}.Extract($1, $2)"], min_sites=3)
    c.exit(q, ["TxHashSetZip{$0}.Extract($1, $2)",
               "ev %s.Rewind($2.GetNumKernels())" % K, "ev *%s*.Commit()" % K,
               "ev %s.Rewind($2.GetNumOutputs(), *)" % O, "ev *%s*.Commit()" % O,
               "ev %s.Rewind($2.GetNumOutputs(), *)" % R, "ev *%s*.Commit()" % R], ret=lambda v: v not in ("null", "0"))
    c.returns(q, ["null", "TxHashSet{%s*, %s*, %s*, $2}" % (K, O, R)])
    for n, rw in (("KernelMMR", "Rewind($2.GetNumKernels())"), ("PruneableMMR", "Rewind($2.GetNumOutputs(), *)")):
        c.before(q, n + r"::Commit$", ["ev *." + rw])


def save(c):
    from checks.c30 import runs
    q = "TxHashSetManager::SaveSnapshot"
    S = "op/(*, *$1.ShortHash()*)"
    W = r"Zipper::CreateZipFile$"
    LD = "TxHashSet{KernelMMR::Load({s}), OutputPMMR::Load({s}), RangeProofPMMR::Load({s}), m_pTxHashSet*}"
    c.before(q, W, ["ev FileUtil::CopyDirectory(m_config*m_txHashSetPath, *)", "ev " + LD + ".Rewind($0, $1)", "ev TxHashSet{*}*.Commit()"] +
             ["ev FileUtil::RenameFile(op/(op/(*), *\"%s\"*), *\"pmmr_leaf.bin\"*), op/(op/(*), *\"%s\"*), *pmmr_leaf.bin.*$1.ShortHash()*))" % (d, d) for d in ("output", "rangeproof")], maxterm=20000)
    c.before(q, r"TxHashSet::Commit$", ["ev " + LD + ".Rewind($0, $1)"], maxterm=20000)
    f, o, rec = runs(c, q, rx=W + r"|CopyDirectory$|RenameFile$|KernelMMR::Load$")
    copy = zips = None
    for x in rec:
        a = [show(y) for y in x["args"]]
        w = c.at(x["fn"], x["e"].get("l"))
        if x["q"].endswith("CopyDirectory"):
            copy = a[1]
        elif x["q"].endswith("Load"):
            c.ob(a[0] == copy, "the copy is rewound, not the node's own state", w, key="save copy", detail=str(a))
        elif x["q"].endswith("RenameFile"):
            c.ob(all(copy and copy in y for y in a), "only files of the copy are renamed", w, key="save rename", detail=str(a))
        elif x["q"].endswith("CreateZipFile"):
            zips = a
            got = set(re.findall(r'"(kernel|output|rangeproof)"', a[1]))
            c.ob(got == {"kernel", "output", "rangeproof"} and bool(copy) and a[1].count(copy) == 3, "the three structures of the copy are archived", w, key="save set", detail=str(a))
            c.ob("static " in a[0] or "Random" in a[0] or "CSPRNG" in a[0], "every archive has its own file", w, key="save own", detail=str(a))
    c.ob(bool(zips), "an archive is made", c.at(f), key="save zip")
    if zips:
        c.ob(all(show(v) == zips[0] for s, v in o.ret), "the archive that was made is returned", c.at(f), key="save path", detail=str([show(v)[:300] for s, v in o.ret]))
    bad = []

    def step(e, s):
        if e.get("k") == "call" and e.get("n") == "CopyDirectory":
            return "made"
        if e.get("k") == "call" and e.get("n") == "RemoveFile":
            return "gone"
        return s

    def throws(e):
        return "std::exception" if e.get("k") == "call" and e.get("n") in ("CreateZipFile", "CopyDirectory") else None
    r = Flow(step, throws=throws, isa=lambda a, b: True).run(f, "none")
    c.ob(any(s == "gone" for k, s in r["throw"]) and not any(s == "made" for k, s in r["throw"]), "a failed archive is removed", c.at(f), key="save failed")

    q = "Zipper::AddFile"
    SZ = "FileUtil::GetFileSize($1)"
    RD = "*.read(*, %s)" % SZ
    c.exit(q, [anyof(SZ + " == 0", "has(%s)" % RD, SZ + " < 1"), "zipOpenNewFileInZip($0, op/($2, $1.filename())*, *) == 0", "zipWriteInFileInZip($0, *, *%s*) == 0" % SZ, "zipCloseFileInZip($0) == 0"])
    f, o, rec = runs(c, q, rx=r"zipWriteInFileInZip$")
    for x in rec:
        a = [show(y) for y in x["args"]]
        c.ob(bool(re.fullmatch(r"out0\(.*read\(.*\)\)\.data\(\)|\"\"", a[1])), "the whole file is archived", c.at(x["fn"], x["e"].get("l")), key="zip data", detail=str(a))
    c.exit("Zipper::CreateZipFile", ["zipClose(*) == 0", anyof("has(zipOpen($0*, 0))", "zipOpen($0*, 0) != 0", "zipOpen($0*, 0) != null")])
    for q in ("Zipper::CreateZipFile", "Zipper::AddDirectory"):
        f = c.find(q)
        n = [s.get("n") for s in nodes(f["body"]) if s.get("k") == "call" and s.get("fn", "").startswith("Zipper::Add")]
        c.ob("AddFile" in n and "AddDirectory" in n, "%s archives files and directories" % q, c.at(f), key="zip walk " + q, detail=str(n))


def run(c):
    for n, g in (("receive", receive), ("send", send), ("unpack", unpack), ("load", load), ("save", save)):
        c.rule(n)
        g(c)
