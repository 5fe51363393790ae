#!/usr/bin/env python3
"""Development aid: apply one-line source mutations to a scratch copy and see which checks notice.
usage: mut.py FILE_WITH_MUTATIONS [substring]   (entries: (property ids, file, old, new))"""
import os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
pat = sys.argv[2] if len(sys.argv) > 2 else ""
S = tempfile.mkdtemp(prefix="mut")
subprocess.check_call(["bash", "-c", "cd /repo && git ls-files -z | xargs -0 cp --parents -t %s" % S])
env = dict(os.environ, GRIN_REPO=S)
for ids, f, old, new in ns["M"]:
    if pat not in f + ids + old:
        continue
    p = os.path.join(S, f)
    src = open(p).read()
    if src.count(old) < 1:
        print("STALE", ids, f, repr(old)[:60])
        continue
    open(p, "w").write(src.replace(old, new, 1))
    res = []
    for i in ids.split():
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), i], env=env, capture_output=True, text=True)
        res.append("%s:%s" % (i, {0: "MISSED", 1: "caught", 3: "BROKEN"}.get(r.returncode, r.returncode)))
        if r.returncode == 3:
            print(r.stdout[-300:])
    print(" ".join(res), f, repr(new)[:70], flush=True)
    open(p, "w").write(src)
shutil.rmtree(S)
