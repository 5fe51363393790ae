"""Files that are replaced whole, and read back whole."""
import re
from effects import nodes
from engine import show
from spec import lits, holds
from flow import Flow

PROPERTY = dict(
    title="Replaced files are replaced whole: the old or the new content, never less",
    statement="The wallet seed, the node's configuration, the prune lists and the converted leaf sets are replaced by writing the whole new content to a separate file and renaming it over the old one, only after every byte was written without an error; until then, and whenever that fails, the old content stays in place and the failure is reported. "
              "No other code creates or overwrites these files. A file counts as read only if all of its bytes were read.",
    over=["crash_points", "fault_sequences"], qtext="every point at which the process may stop and every failing file operation",
    why="A full disk or a crash while a password is changed would otherwise leave a truncated seed, which cannot be recovered.",
    files=["src/Common/Util/FileUtil.cpp", "src/Wallet/WalletDB/Sqlite/SqliteStore.cpp", "src/PMMR/Common/PruneList.cpp", "src/PMMR/Common/LeafSet.h", "src/Core/Config.cpp", "src/API/Node/Handlers/UpdateConfigHandler.h"],
    mechanism=[("FileUtil::SafeWriteToFile / RenameFile / ReadFile", "src/Common/Util/FileUtil.cpp")],
    technique="must-fact dataflow over the file primitives (content, target and order of every file operation), a typestate analysis of every output stream in the program (what was written is checked after the close), and a census of the constructs that can create or change a file",
    note="A stop of the process, not of the machine: nothing is synchronised to the disk. The structures that are written in place with their own recovery are property C06.",
)

# where output streams may be: everything else goes through FileUtil
STREAMS = {
    "src/Common/Util/FileUtil.cpp": "the primitives",
    "src/PMMR/Zip/ZipFile.cpp": "archive extraction (C23)",
    "src/P2P/Pipeline/TxHashSetPipe.cpp": "archive download (C23)",
    "include/Core/File/BitmapFile.h": "bitmaps with their own recovery (C06)",
    "src/Core/File/MappedFile_Nix.cpp": "append-only files (C06)",
    "src/Core/File/MappedFile_Win.cpp": "append-only files (C06)",
    "src/Core/Config/TorConfig.h": "torrc, written anew at each start",
}
UNCHECKED = {"src/Core/Config/TorConfig.h"}
OUT = re.compile(r"\bstd::(basic_)?o?fstream\b")
TMP = "*$0.u8string()*"
DST = r"(^|::)(remove|remove_all|rename|copy|copy_file|resize_file|truncate|TruncateFile|RemoveFile|fopen|open|CopyDirectory|basic_ofstream|basic_fstream)$"


def okstream(w):
    """the stream was found good after all was written and closed"""
    return ("any", "!*%s*<-close().fail()" % w, "*%s*<-close().good()" % w, "has(*%s*<-close())" % w, "!*%s*<-close().operator!()" % w)


def streams(c, f):
    """typestate of the output streams of one function: written -> closed -> found good or bad"""
    ids = set()
    for s in nodes(f["body"]):
        if s.get("k") == "D":
            ids |= {v["id"] for v in s["v"] if OUT.search(v["t"]) and not v.get("isref")}

    def on(e):
        e = e or {}
        while e.get("k") in ("cast", "conv", "sub") or (e.get("k") in ("call", "op") and e.get("n", e.get("op")) in ("write", "<<", "put", "seekp")):
            e = e.get("e") or e.get("o") or (e.get("a") or [{}])[0]
        return e.get("id") if e.get("k") == "ref" and e.get("id") in ids else None

    def step(e, s):
        s = dict(s)
        k, n = e.get("k"), e.get("n", e.get("op"))
        if k in ("call", "op"):
            v = on(e.get("o") or (e.get("a") or [None])[0])
            if v is not None:
                c.sites += 1
                if n in ("write", "<<", "put"):
                    s[v] = "written"
                elif n == "exceptions":
                    s[v] = "throws"
                elif n == "close" and s.get(v) == "written":
                    s[v] = "closed"
                elif n in ("fail", "good", "bad", "!", "operator bool", "operator!") and s.get(v) == "closed" and n != "bad":
                    s[v] = "checked"
            elif n == "RemoveFile":              # what was written is discarded
                s = {}
            else:
                for a in e.get("a") or ():
                    if a and a.get("k") == "ref" and a.get("id") in ids:      # a helper writes to it
                        s[a["id"]] = "written"
        elif k == "conv":
            v = on(e.get("o"))
            if v is not None and s.get(v) == "closed":
                s[v] = "checked"
        return tuple(sorted(s.items()))
    r = Flow(step).run(f, ())
    bad = [x for x in r["end"] | r["ret"] if any(y in ("written", "closed") for _, y in x)]
    c.ob(not bad, "what %s writes is checked after the file was closed" % f["q"], c.at(f), key="checked " + f["q"], detail=str(bad[:2]))


def run(c):
    F = c.F
    from checks.c30 import runs
    c.rule("replace")
    q = "FileUtil::SafeWriteToFile"
    c.exit(q, [okstream("write($1.data(), size($1))"), "ev FileUtil::RenameFile(%s, $0)" % TMP])
    c.before(q, r"(^|::)RenameFile$", [okstream("write($1.data(), size($1))")], match=lambda x: True)
    f, o, rec = runs(c, q, rx=DST)
    for x in rec:
        a = [show(y) for y in x["args"] or ()]
        c.ob(not (a and a[0] == "$0") and (len(a) < 2 or a[1] != "$0"), "the file itself is left alone until it is replaced", c.at(x["fn"], x["e"].get("l")), key="alone " + x["q"], detail=", ".join(a)[:200])
    q = "FileUtil::RenameFile"
    c.exit(q, [("any", "!has(out2(std::filesystem::rename($0, $1, *)))", "!out2(std::filesystem::rename($0, $1, *))", "out2(std::filesystem::rename($0, $1, *)) == 0", "out2(std::filesystem::rename($0, $1, *)).value() == 0", "ev std::filesystem::rename($0, $1)")])
    f, o, rec = runs(c, q, rx=DST)
    for x in rec:
        n, a = x["q"].split("::")[-1], [show(y) for y in x["args"] or ()]
        c.ob(n == "rename" and a[:2] == ["$0", "$1"], "renaming replaces the target in one step", c.at(x["fn"], x["e"].get("l")), key="one step " + n, detail=", ".join(a)[:200])

    c.rule("read")
    q = "FileUtil::ReadFile"
    rd = "*<-read($1<-resize(std::filesystem::file_size($0)).data(), std::filesystem::file_size($0))"
    c.exit(q, [("any", "!%s.fail()" % rd, "%s.good()" % rd, "has(%s)" % rd, "has(*.read($1<-resize(std::filesystem::file_size($0)).data(), std::filesystem::file_size($0)))")], ret=lambda v: v == "1")
    used = 0
    for f in F.fns.values():
        if not f.get("body") or not f["file"].startswith(F.repo + "/"):
            continue
        for s in nodes(f["body"]):
            if s.get("k") == "E" and (s.get("e") or {}).get("k") == "call" and s["e"].get("fn") == "FileUtil::ReadFile":
                c.ob(False, "whether a file was read is not ignored", c.at(f, s.get("l")), key="ignored " + f["q"])
            if s.get("k") == "call" and s.get("fn") == "FileUtil::ReadFile":
                used += 1
    c.sites += used
    c.ob(used >= 4, "files are read through the checked primitive", "src/Common/Util/FileUtil.cpp", key="readers", detail=str(used))

    c.rule("writers")
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f["q"]):
        if not f.get("body") or not f["file"].startswith(F.repo + "/") or "/tests/" in f["file"]:
            continue
        where, own = c.rel(f), False
        for s in nodes(f["body"]):
            hit = s.get("k") == "D" and any(OUT.search(v["t"]) and not v.get("isref") for v in s["v"])
            hit = hit or (s.get("k") == "ctor" and OUT.search(s.get("cls", "")))
            hit = hit or (s.get("k") == "call" and s.get("fn") in ("fopen", "open", "creat", "std::fopen", "std::filesystem::resize_file") and not re.search(r"urandom", str(s.get("a"))))
            if hit:
                own = True
                n += 1
                c.ob(where in STREAMS, "only the file primitives open files for writing", c.at(f, s.get("l")), key="opens " + f["q"])
        if own and where in STREAMS and where not in UNCHECKED:
            streams(c, f)
    c.sites += n
    c.ob(n >= 6, "the constructs that open files were found", "src/Common/Util/FileUtil.cpp", key="census", detail=str(n))

    c.rule("users")
    W = r"(^|::)SafeWriteToFile$"
    DIR = "op/(op/(m_walletDirectory, *$0*), *seed.json*)"
    JSON = "*$1.ToJSON().toStyledString()*"
    for q in ("SqliteStore::CreateWallet", "SqliteStore::ChangePassword"):
        f, o, rec = runs(c, q, rx=W)
        ok = [x for x in rec if len(x["args"]) == 2 and holds([show(x["args"][0])], DIR) and holds([show(x["args"][1])], JSON)]
        c.ob(bool(rec) and len(ok) == len(rec), "%s writes the encrypted seed it was given to the user's seed file" % q, c.at(f), key="seed " + q, detail="\n".join(show(a) for x in rec for a in x["args"]))
        c.exit(q, ["ev FileUtil::SafeWriteToFile(%s, *)" % DIR])
    c.before("SqliteStore::CreateWallet", W, ["!FileUtil::Exists(%s)" % DIR])
    c.exit("PruneList::Flush", [("any", "ev FileUtil::SafeWriteToFile(m_filePath, *)", "*getSizeInBytes(*) < 1", "*getSizeInBytes(*) == 0", "*getSizeInBytes(*) <= 0")])
    f, o, rec = runs(c, "PruneList::Flush", rx=W)
    c.ob(bool(rec) and all(show(x["args"][0]) == "m_filePath" and "getSizeInBytes(" in show(x["args"][1]) for x in rec), "the whole prune list is written to its file", c.at(f), key="prune list", detail="\n".join(show(a) for x in rec for a in x["args"]))
    c.before("PruneList::Flush", W, ["ev m_prunedRoots.write(std::vector{m_prunedRoots.getSizeInBytes(*)}.data()*)"])
    c.before("Config::Load", W, [], ptype="path")
    f = c.find("UpdateConfigHandler::Handle")
    bad, n = [], []

    def step(e, s):
        if e.get("k") == "call" and e.get("n") == "SafeWriteToFile":
            n.append(e)
            return True
        if e.get("k") == "call" and e.get("n") == "BuildResult" and not s:
            bad.append(e.get("l"))
        return s
    Flow(step, throws=lambda e: "std::exception" if e.get("n") == "SafeWriteToFile" else None, isa=lambda a, b: True).run(f, False)
    c.sites += len(n)
    c.ob(bool(n) and not bad, "success is reported only for a saved configuration", c.at(f, bad[0] if bad else None), key="config saved")
