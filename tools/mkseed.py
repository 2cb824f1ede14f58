#!/usr/bin/env python3
"""mkseed.py SPEC.py : create /verif/seeded/<id>/ from a spec defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], SRCS=[...], DEMO (C text), [CXX], [FILES]"""
import os, sys, json, shutil, subprocess, tempfile
ULOG = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "stubs", "ulog.h")).read().replace("void vf_ulog(int prio, const char *fmt, ...)\n\t__attribute__((format(printf, 2, 3)));", "static inline void vf_ulog(int prio, const char *fmt, ...) { (void)prio; (void)fmt; }").replace("Analysis stand-in", "Stand-in").replace("that the analyser treats as opaque: it\n * writes none of the program's objects, but may change errno.", "that does nothing.")
def main(spec):
    g = {"CXX": False, "SRCS": [], "FILES": {}, "LIBS": "-lpthread", "SH": None, "CFLAGS": ""}
    exec(open(spec).read(), g)
    d = os.path.join("/verif/seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in g["EDITS"]:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (g["ID"], f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    ext = "cpp" if g["CXX"] else "c"
    open(d + "/demo." + ext, "w").write(g["DEMO"])
    open(d + "/ulog.h", "w").write(ULOG)
    for k, v in g["FILES"].items():
        open(os.path.join(d, k), "w").write(v)
    cc = "g++ -std=c++11" if g["CXX"] else "gcc -std=gnu11"
    if g["SH"]:
        sh = g["SH"]
    else:
        sh = """#!/bin/bash
# exit 0: the behaviour is right; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
%s -g -w -D_GNU_SOURCE -D_FILE_OFFSET_BITS=64 %s -I include -I "$here" "$here/demo.%s" %s -o "$t/demo" %s || exit 99
cd "$t" && timeout 120 ./demo
""" % (cc, g["CFLAGS"], ext, " ".join(g["SRCS"]), g["LIBS"])
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
for s in sys.argv[1:]:
    main(s)
