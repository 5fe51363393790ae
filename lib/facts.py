"""Extract facts (resolved function bodies, records, enums, globals) from /repo's current
source with the clang-based extractor, and load them.

The extraction covers every .cpp below src/ (platform variants for Windows excepted) plus all
repository headers they include.  Results are cached under /verif/.cache keyed by a hash of the
content of every source and header file, so a stale fact can never be used."""
import hashlib, json, os, subprocess, sys, tempfile, time, gc
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GRIN_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CACHE = os.path.join(VERIF, ".cache")
TOOL_SRC = os.path.join(VERIF, "tool", "gfacts.cpp")

DEFS = ["-DNDEBUG", "-DFMT_HEADER_ONLY=1", "-DUNICODE", "-D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS"]
INCS = ["include", "deps", "deps/stduuid/include", "deps/ghc", "deps/jsoncpp", "deps/cppcodec",
        "deps/scheduler/include", "deps/reproc/reproc++/include", "deps/reproc/reproc++/src",
        "deps/bitcoin/include", "deps/chachapoly", "deps/rfc6234", "src"]
ISOLATE = ("Logger.cpp", "Bulletproofs.cpp", "AggSig.cpp", "PublicKeys.cpp", "TxHashSetPipe.cpp", "WalletEncryptionUtil.cpp",
           "WalletSqlite.cpp")
SKIP = ("MappedFile_Win.cpp",)


def clang_args(repo):
    a = ["-std=c++17", "-include", "cstdint", "-include", "stdexcept", "-w", "-ferror-limit=0",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + DEFS
    for i in INCS:
        a.append("-I" + os.path.join(repo, i))
    a += ["-I" + os.path.join(VERIF, "stubs")]
    return a


class AnalysisBroken(Exception):
    pass


def ensure_tool():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(TOOL_SRC, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "gfacts-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), tmp], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("cannot build the fact extractor: " + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def sources(repo):
    r = []
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if f.endswith(".cpp") and f not in SKIP:
                r.append(os.path.join(d, f))
    return sorted(r)


def tree_hash(repo):
    h = hashlib.sha256()
    h.update(open(TOOL_SRC, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    for top in ("src", "include", "deps"):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".cpp", ".ipp", ".inl")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    h.update(hashlib.sha256(open(p, "rb").read()).digest())
    for d, ds, fs in os.walk(os.path.join(VERIF, "stubs")):
        ds.sort()
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:24]


def run_tool(tool, repo, files, out):
    r = subprocess.run([tool, out, repo] + files + ["--"] + clang_args(repo), capture_output=True, text=True, cwd="/")
    return r


def extract(repo=None, files=None, jobs=8):
    """-> directory holding part-*.jsonl, plus a dict of diagnostics."""
    import fcntl
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)      # concurrent checks extract once
        return extract_locked(repo, files, jobs)


def extract_locked(repo=None, files=None, jobs=8):
    repo = repo or REPO
    tool = ensure_tool()
    key = tree_hash(repo) if files is None else None
    if key:
        d = os.path.join(CACHE, key)
        if os.path.exists(os.path.join(d, "done")):
            return d
    files = files or sources(repo)
    os.makedirs(CACHE, exist_ok=True)
    d = tempfile.mkdtemp(dir=CACHE)
    # Unity groups (several sources in one translation unit) amortise header parsing; a group that
    # does not compile as one unit is analysed file by file instead.
    files = sorted(files)
    total = sum(os.path.getsize(f) + 12000 for f in files if os.path.basename(f) not in ISOLATE)
    ngroups = min(len(files), jobs * 2)
    # sources known to clash with others when compiled together (file-local names, bundled fmt)
    iso = [f for f in files if os.path.basename(f) in ISOLATE]
    groups, cur, acc = [iso[i::4] for i in range(4) if iso[i::4]], [], 0
    files_all, files = files, [f for f in files if f not in set(iso)]
    ngroups += len(groups)
    for f in files:
        cur.append(f)
        acc += os.path.getsize(f) + 12000
        if acc >= total / (ngroups - len(iso[:4])) and len(groups) < ngroups - 1:
            groups.append(cur)
            cur, acc = [], 0
    if cur:
        groups.append(cur)
    errs, single = [], []

    def one(i, part=None, tag=""):
        g = part or groups[i]
        out = os.path.join(d, "part-%03d%s.jsonl" % (i, tag))
        src = g
        if len(g) > 1:
            u = os.path.join(d, "unity-%03d%s.cpp" % (i, tag))
            with open(u, "w") as fh:
                fh.write("".join('#include "%s"\n' % f for f in g))
            src = [u]
        r = run_tool(tool, repo, src, out)
        if r.returncode < 0 or r.returncode > 1:
            raise AnalysisBroken("extractor failed (%d): %s" % (r.returncode, r.stderr[-800:]))
        e = [l for l in r.stderr.splitlines() if "error:" in l]
        if e and len(g) > 1:
            if os.path.exists(out):
                os.unlink(out)
            single.append(i)
            n = min(4, len(g))
            with ThreadPoolExecutor(n) as sub:
                return sum(sub.map(lambda k: one(i, g[k::n], tag + "abcd"[k]), range(n)), [])
        return e

    with ThreadPoolExecutor(jobs) as ex:
        for e in ex.map(one, range(len(groups))):
            errs += e
    json.dump({"errors": errs, "files": files_all, "single": single}, open(os.path.join(d, "diag.json"), "w"))
    open(os.path.join(d, "done"), "w").close()
    if key:
        final = os.path.join(CACHE, key)
        try:
            os.rename(d, final)
            d = final
        except OSError:
            pass
        prune_cache(final)
    return d


def prune_cache(keep):
    ents = [os.path.join(CACHE, x) for x in os.listdir(CACHE)]
    ents = [e for e in ents if os.path.isdir(e) and e != keep]
    ents.sort(key=os.path.getmtime)
    for e in ents[:-6]:
        for f in os.listdir(e):
            try: os.unlink(os.path.join(e, f))
            except OSError: pass
        try: os.rmdir(e)
        except OSError: pass


class Facts:
    def __init__(self):
        self.fns = {}       # usr -> fn
        self.byname = {}    # qualified name (template args stripped at end) -> [fn]
        self.recs = {}
        self.enums = {}
        self.vars = {}
        self.overriders = {}  # usr -> set of overriding usr
        self.methods = {}     # method usr -> (record, method)
        self.diag = {}

    def add(self, o):
        r = o["r"]
        if r == "fn":
            u = o["u"] if not o.get("static") or o.get("cls") else o["u"]
            if u in self.fns:
                return
            self.fns[u] = o
            self.byname.setdefault(o["q"], []).append(o)
            for b in o.get("ov", ()):
                self.overriders.setdefault(b, set()).add(u)
        elif r == "rec":
            self.recs.setdefault(o["q"], o)
        elif r == "enum":
            self.enums.setdefault(o["q"], o)
        elif r == "var":
            self.vars.setdefault(o["q"], []).append(o)


def load(repo=None, files=None):
    gc.disable()
    d = extract(repo, files)
    F = Facts()
    F.repo = repo or REPO
    F.diag = json.load(open(os.path.join(d, "diag.json")))
    seen = set()
    for p in sorted(os.listdir(d)):
        if not p.endswith(".jsonl"):
            continue
        with open(os.path.join(d, p), "rb") as f:
            for line in f:
                h = hash(line)
                if h in seen:
                    continue
                seen.add(h)
                F.add(json.loads(line))
    for rec in F.recs.values():
        for m in rec["methods"]:
            F.methods[m["u"]] = (rec, m)
            for b in m.get("ov", ()):
                F.overriders.setdefault(b, set()).add(m["u"])
    gc.enable()
    return F


if __name__ == "__main__":
    t = time.time()
    F = load()
    print("functions", len(F.fns), "records", len(F.recs), "vars", len(F.vars), "time %.1f" % (time.time() - t))
    for e in F.diag["errors"][:40]:
        print(e)
