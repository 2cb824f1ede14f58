"""G03: the public headers, decided by the compilers' front ends (witnesses that must compile) and on the
declarations they find"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
from vsa import build
from vsa.run import check

C = [["clang", "-x", "c", "-std=gnu99"], ["clang", "-x", "c", "-std=gnu11"], ["clang", "-x", "c", "-std=gnu17"],
     ["gcc", "-x", "c", "-std=gnu11"]]
CXX = [["clang++", "-x", "c++", "-std=gnu++11"], ["clang++", "-x", "c++", "-std=gnu++17"],
       ["clang++", "-x", "c++", "-std=gnu++20"], ["g++", "-x", "c++", "-std=gnu++11"]]
USES = os.path.join(build.VERIF, "harness", "headers")


def flags():
    return ["-fsyntax-only", "-w", "-I" + os.path.join(build.REPO, "include")]


def error(out):
    for l in out.splitlines():
        if " error: " in l:
            return l.replace(build.REPO + "/", "")
    return out.strip()[:300]


def compile_(cc, text, d, name):
    f = os.path.join(d, name)
    open(f, "w").write(text)
    r = subprocess.run([build.tool(cc[0])] + cc[1:] + flags() + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, LC_ALL="C"))
    if r.returncode < 0 or " error: " not in r.stdout and r.returncode:
        raise build.Broken("%s: %s" % (" ".join(cc), r.stdout[-500:]))
    return None if r.returncode == 0 else error(r.stdout)


def functions(cc, header, d, only=None):
    """functions declared in the header, from the syntax tree: name -> (symbol, line)"""
    f = os.path.join(d, "ast_%s_%d.c" % (re.sub(r"\W", "_", header), len(cc[0])))
    open(f, "w").write("#include <futils/%s>\n" % header)
    a = ["-Xclang", "-ast-dump=json"] + (["-Xclang", "-ast-dump-filter=" + only] if only else [])
    r = subprocess.run([build.tool(cc[0])] + cc[1:] + flags() + a + [f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    if r.returncode:
        return None
    text = re.sub(r"^Dumping .*:$", "", r.stdout, flags=re.M)
    dec, pos, docs = json.JSONDecoder(), 0, []
    while True:
        while pos < len(text) and text[pos].isspace():
            pos += 1
        if pos >= len(text):
            break
        o, pos = dec.raw_decode(text, pos)
        docs.append(o)
    cur = {"file": None, "line": None}
    out = {}

    def see(loc):
        """locations only say what changed since the one printed before"""
        if not isinstance(loc, dict):
            return
        for k in ("spellingLoc", "expansionLoc"):
            see(loc.get(k))
        if "file" in loc:
            cur["file"] = loc["file"]
        if "line" in loc:
            cur["line"] = loc["line"]

    def walk(n, templ):
        if isinstance(n, list):
            for x in n:
                walk(x, templ)
            return
        if not isinstance(n, dict):
            return
        k = n.get("kind")
        at = None
        for key, v in n.items():
            if key == "loc":
                see(v)
                at = (cur["file"], cur["line"])
            elif key == "range":
                for e in ("begin", "end"):
                    see(v.get(e))
            elif key == "inner":
                walk(v, templ or k == "FunctionTemplateDecl" or k == "ClassTemplateDecl")
        if k == "FunctionDecl" and not templ and n.get("storageClass") != "static" and not n.get("inline") and not n.get("isImplicit") \
                and not n.get("constexpr") and not n.get("explicitlyDeleted"):
            body = any(isinstance(x, dict) and x.get("kind") == "CompoundStmt" for x in n.get("inner", []))
            if not body and (only or at and at[0] and "/futils/" in at[0]):
                out[n["name"]] = (n.get("mangledName", n["name"]), at)
    walk(docs, False)
    return out


@check("G03")
def g03(ctx):
    ctx.rule("every witness program compiles; every function declared without a body has one C symbol in both languages and a definition")
    inc = os.path.join(build.REPO, "include", "futils")
    hs = sorted(os.path.basename(f) for f in glob.glob(inc + "/*.h"))
    hpps = sorted(os.path.basename(f) for f in glob.glob(inc + "/*.hpp"))
    d = tempfile.mkdtemp(prefix="vfh.")
    try:
        body(ctx, hs, hpps, d)
    finally:
        shutil.rmtree(d)


def body(ctx, hs, hpps, d):
    jobs = []      # (identity, location, what it shows, compiler, text)

    def add(cc, order, what, extra="", ident=None):
        text = "".join("#include <futils/%s>\n" % h for h in order) + extra
        jobs.append((ident or what, "include/futils/" + order[-1], what, cc, text))

    def lang(cc):
        return "%s %s" % (cc[0], cc[-1])
    for ccs, heads in ((C, hs), (CXX, hs + hpps)):
        for cc in ccs:
            for h in heads:
                add(cc, [h], "%s alone (%s)" % (h, lang(cc)), ident="%s alone" % h)
    for ccs, heads in ((C, hs), (CXX, hs + hpps)):
        cc = ccs[1 if ccs is C else 0]
        for a in heads:
            for b in heads:
                add(cc, [a, b], ("%s twice (%s)" if a == b else "%s before %s (%s)") % ((a, lang(cc)) if a == b else (a, b, lang(cc))),
                    ident="%s twice" % a if a == b else "%s before %s" % (a, b))
        n = len(heads)
        for cc in (ccs[0], ccs[-1]):
            for k in range(n):
                for o in (heads, heads[::-1]):
                    add(cc, o[k:] + o[:k], "all headers from %s on (%s)" % (o[k], lang(cc)), ident="all headers")
    nuse = 0
    for f in sorted(glob.glob(USES + "/*.c")):
        h = os.path.basename(f)[:-2]
        if h not in hs:
            continue
        text = open(f).read()
        nuse += 1
        allh = "".join("#include <futils/%s>\n" % x for x in hs)
        for cc in (C[1], CXX[0]):
            jobs.append(("use of %s with the others" % h, "include/futils/" + h, "what %s offers, after all headers (%s)" % (h, lang(cc)), cc, allh + text))
            jobs.append(("use of %s with the others" % h, "include/futils/" + h, "what %s offers, before all other headers (%s)" % (h, lang(cc)), cc,
                         "#include <futils/%s>\n" % h + allh + text))
        for cc in C + CXX:
            jobs.append(("use of %s" % h, "include/futils/" + h, "what %s offers, with no other header (%s)" % (h, lang(cc)), cc, text))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        errs = list(ex.map(lambda x: compile_(x[1][3], x[1][4], d, "w%d.c" % x[0]), enumerate(jobs)))
        broken_alone = {j[0].split()[0] for j, e in zip(jobs, errs) if e and j[0].endswith(" alone")}
        for j, e in zip(jobs, errs):
            if not e:
                continue
            # a header that fails alone is reported as such, not once per combination
            names = re.findall(r"futils/([\w.]+)>", j[4])
            if not j[0].endswith(" alone") and broken_alone & set(names):
                continue
            m = re.match(r"(\S+?:\d+)", e)
            ctx.violate(m.group(1) if m and "include/" in m.group(1) else j[1], "%s does not compile: %s" % (j[2], e), kind="witness", ident=j[0])
        ctx.lint_result("witnesses that must compile: each header alone, twice, after every other, all in rotated and reversed order, and "
                        "in use on its own; C (gnu99, gnu11, gnu17) and C++ (gnu++11, 17, 20)", len(jobs), [j[2] for j in jobs[:4]])
        # declarations
        fc = dict(zip(hs, ex.map(lambda h: functions(C[1], h, d), hs)))
        fx = dict(zip(hs, ex.map(lambda h: functions(CXX[0], h, d), hs)))
        fh = dict(zip(hpps, ex.map(lambda h: functions(CXX[0], h, d, only="futils"), hpps)))
    try:
        p = ctx.prog(lib=True, cxx=True)
    except build.Broken:
        if ctx.viol:
            return      # the library does not compile with its own headers; reported above
        raise
    defined = {f for f in p.defined if not p.funcs[f].get("internal")}
    n = 0
    sample = []
    seen = set()
    for h in sorted(hs, key=lambda h: sum('/' + h in (a[1][0] or '') for a in (fc[h] or {}).values()) == 0):
        if fc[h] is None or fx[h] is None:
            continue       # reported above
        for f, (sym, at) in sorted(fc[h].items()):
            n += 1
            if len(sample) < 10:
                sample.append("%s: %s" % (h, f))
            loc = "%s:%s" % (at[0].replace(build.REPO + "/", ""), at[1])
            if f not in fx[h]:
                if ("decl", f) not in seen:
                    ctx.violate(loc, "%s of %s is not declared in C++" % (f, h), kind="linkage", ident="C++ sees " + f)
                seen.add(("decl", f))
            elif fx[h][f][0] != f and ("link", f) not in seen:
                seen.add(("link", f))
                ctx.violate(loc, "%s of %s has C++ linkage when included from C++ (symbol %s), the library defines %s" % (f, h, fx[h][f][0], f),
                            kind="linkage", ident="linkage of " + f)
            if f not in defined and ("def", f) not in seen:
                seen.add(("def", f))
                ctx.violate(loc, "%s is declared in %s but no source file defines it" % (f, h), kind="linkage", ident="definition of " + f)
    for h in hpps:
        for f, (sym, at) in sorted((fh[h] or {}).items()):
            n += 1
            if sym not in defined:
                ctx.violate("include/futils/" + h, "futils::%s is declared (%s) but no source file defines it" % (f, sym), kind="linkage",
                            ident="definition of " + sym)
    ctx.lint_result("functions declared by the headers: one C symbol in both languages, defined by the library", n, sample)
    ctx.lint_result("headers whose macros and functions are used by a witness", nuse, [])
