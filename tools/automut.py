#!/usr/bin/env python3
"""automut.py FILE COUNT [SEED] -- plant COUNT small random changes (a comparison, a constant, a dropped statement,
an inverted condition, ...) in /repo/FILE, one at a time in scratch copies, keep those that compile to different
code, run the checks anchored in FILE until one reports the change and list the changes none reported."""
import hashlib, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
CHECKS = {
 "varint.c": "V01 V02 V03 V04 G02", "hash.c": "H03 H02 H01 G02", "list.h": "L01 L02", "timetools.c": "T01 T02 T03 T04 G02",
 "systimetools.c": "S07 S03 S01 S02 S04 S06 S05 G02 G01", "random.c": "R09 R01 R03 R07 R06 R05 R08 R02 R04 G01 G02",
 "mbox.c": "M01 M02 G02", "dynmbox.c": "D05 D01 D03 G02 D02 D04", "fdutils.c": "B01 G02", "fs.c": "X01 G02",
 "inotify.c": "I01 G02", "synctools.c": "Y01 G02", "safew.c": "F05 F04 F01 F03 F02 G02", "string.c": "U01 U02 G02",
 "string.cpp": "C01 C02", "fs.cpp": "C03", "futils.h": "G04"}
path, count = sys.argv[1], int(sys.argv[2])
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
src = open("/repo/" + path).read()
lines = src.split("\n")
def code(i):
    l = lines[i].strip()
    return l and not l.startswith(("*", "/*", "//", "#")) and "ULOG" not in l
R = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])", ">="), (r">=(?!=)", ">"), (r"==", "!="), (r"!=", "=="),
     (r"&&", "||"), (r"\|\|", "&&"), (r"(?<!\+)\+(?![+=])", "-"), (r"(?<!-)-(?![->=E\d])", "+"), (r"\b(\d+)\b", lambda m: str(int(m[1]) + 1)),
     (r"\b([1-9]\d*)\b", lambda m: str(int(m[1]) - 1)), (r"\* ", "+ "), (r"return -E\w+;", "return 0;"), (r"return ret;", "return 0;"),
     (r"-E([A-Z]+)", "E\\1"), (r"if \((.*)\)", "if (!(\\1))"), (r"goto \w+;", ";"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"),
     (r"^(\s*)[^\s].*;$", "\\1;"), (r"\+=", "-="), (r"\+=", "="), (r"\|=", "="), (r"(?<!&)&(?![&=\w])", "|"), (r"<<", ">>"), (r">>", "<<"),
     (r"\+\+", "--"), (r"\bprev\b", "next"), (r"\bnext\b", "prev"), (r"\bNULL\b", "((void *)1)"), (r"!(\w)", "\\1"), (r" \+ 1\b", ""),
     (r" - 1\b", ""), (r"%", "/"), (r"\bO_\w+\b", "0")]
cand = []
infn = 0
for i, l in enumerate(lines):
    if not code(i):
        continue
    if not (l.startswith(("\t", " ")) or path.endswith(".h")):
        continue
    for pat, rep in R:
        for m in re.finditer(pat, l):
            n = l[:m.start()] + m.expand(rep) + l[m.end():] if isinstance(rep, str) else l[:m.start()] + rep(m) + l[m.end():]
            if n != l and re.search(r"\bif \(.*\\$", l) is None:
                cand.append((i, l, n))
    if l.rstrip().endswith(";") and i + 1 < len(lines) and lines[i + 1].rstrip().endswith(";") and "\tint " not in l:
        cand.append((i, l + "\n" + lines[i + 1], lines[i + 1] + "\n" + l))
cand = sorted(set(cand))
rnd.shuffle(cand)
base = tempfile.mkdtemp(prefix="amut.")
def comp(d, out):
    f = os.path.join(d, path)
    if path.endswith(".h"):
        tu = {"list.h": "harness/l01.c", "futils.h": "harness/g04.c"}[os.path.basename(path)]
        return None
    cc = ["clang++", "-std=c++11"] if path.endswith("cpp") else ["clang", "-std=gnu11"]
    r = subprocess.run(cc + ["-O1", "-S", "-emit-llvm", "-g0", "-o", "-", "-w", "-D_GNU_SOURCE", "-DBUILD_ULOG", "-I" + d + "/include", "-I/verif/stubs", f],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if r.returncode:
        return False
    t = re.sub(rb"(?m)^(; ModuleID|source_filename).*$", b"", r.stdout)
    return hashlib.sha1(t).hexdigest()
def mk(d):
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "build*", "_build", "tests"))
ref = os.path.join(base, "ref"); mk(ref); refh = comp(ref, None)
seen = {refh}
def one(k):
    i, old, new = picks[k]
    d = os.path.join(base, "m%d" % k)
    mk(d)
    p = os.path.join(d, path)
    nl = list(lines)
    if "\n" in old:
        nl[i:i + 2] = new.split("\n")
    else:
        nl[i] = new
    open(p, "w").write("\n".join(nl))
    try:
        h = comp(d, None)
        if h is False or h is not None and h in seen:
            return None
        if h:
            seen.add(h)
        res = []
        for c in CHECKS[os.path.basename(path)].split():
            r = subprocess.run(["python3", "/verif/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d))
            if r.returncode == 1:
                return ("CAUGHT " + c, i, old, new)
            if r.returncode != 0:
                res.append(c + ":" + str(r.returncode))
        return ("MISSED " + " ".join(res), i, old, new)
    finally:
        shutil.rmtree(d)
picks, n = cand, 0
missed = caught = 0
try:
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        pend, k = [], 0
        for k0 in range(0, len(picks), 12):
            if n >= count:
                break
            for o in ex.map(one, range(k0, min(k0 + 12, len(picks)))):
                if o is None:
                    continue
                n += 1
                if o[0].startswith("MISSED"):
                    missed += 1
                    print("%s %s:%d\n   -%s\n   +%s" % (o[0], path, o[1] + 1, o[2].strip().replace("\n", "\n   -"), o[3].strip().replace("\n", "\n   +")), flush=True)
                else:
                    caught += 1
    print("%s: %d changes, %d caught, %d missed" % (path, n, caught, missed), flush=True)
finally:
    shutil.rmtree(base)
