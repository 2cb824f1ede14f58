#!/usr/bin/env python3
"""mut.py FILE.py [name..] -- for each change of the list M = [(name, file, old, new, [checks])]: make it in a
scratch copy of /repo, run the checks on that copy (VERIF_REPO) and say which of them reported it.
A FILE may also set JOBS."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = sys.argv[2:]
base = tempfile.mkdtemp(prefix="mut.")
def one(m):
    name, f, old, new, checks = m
    edits = f if isinstance(f, list) else [(f, old, new)]
    d = os.path.join(base, name)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "build*"))
    out = []
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            return "%-22s OLD TEXT NOT FOUND" % name
        open(p, "w").write(s.replace(old, new, 1))
    for c in checks:
        r = subprocess.run(["python3", "/verif/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d))
        l = [x for x in r.stdout.splitlines() if x.startswith("  [")]
        out.append("%-22s %s rc=%d %s" % (name, c, r.returncode, (l or r.stdout.splitlines()[-1:] or [""])[0][:170]))
    shutil.rmtree(d)
    return "\n".join(out)
try:
    with ThreadPoolExecutor(ns.get("JOBS", 3)) as ex:
        for o in ex.map(one, [m for m in ns["M"] if not sel or m[0] in sel]):
            print(o, flush=True)
finally:
    shutil.rmtree(base)
