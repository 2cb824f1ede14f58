"""Front end: compile /repo's current sources (never run) to LLVM IR and load
them as JSON.  Everything is written to a private temporary directory."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
IRDUMP = os.path.join(VERIF, "build", "irdump")


class Broken(Exception):
    """the analysis itself could not be carried out"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise Broken("%s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    return r.stdout


def tool(n):
    for p in ("/usr/bin/" + n, "/usr/bin/" + n + "-18"):
        if os.path.exists(p):
            return p
    return shutil.which(n) or n


def ensure_irdump():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    cfg = shutil.which("llvm-config-18") or shutil.which("llvm-config")
    cxx = [f for f in sh([cfg, "--cxxflags"]).split() if not f.startswith("-std") and f != "-fno-exceptions"]
    ld = sh([cfg, "--ldflags", "--libs", "core", "irreader", "support", "--system-libs"]).split()
    tmp = IRDUMP + ".%d" % os.getpid()
    sh([tool("clang++"), "-O1", "-std=c++17"] + cxx + [src, "-o", tmp] + ld)
    os.replace(tmp, IRDUMP)


CFLAGS = ["-std=gnu17", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-D_FILE_OFFSET_BITS=64",
          "-D__NO_CTYPE", "-w", "-fno-builtin",
          "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=implicit-int",
          "-Wno-error=incompatible-function-pointer-types"]
CXXFLAGS = ["-std=c++11", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-w", "-D__NO_CTYPE",
            "-D_GLIBCXX_ASSERTIONS", "-fno-builtin"]


class Units:
    def __init__(self):
        self.units = []
        self.js = None


def sources():
    c = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    cxx = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if not c:
        raise Broken("no sources under %s/src" % REPO)
    return c, cxx


def load(harness=(), cxx=False, sroa=True, keep=None, defines=(), lib=True):
    """returns (Program, [translation units])"""
    from .engine import Program
    ensure_irdump()
    d = tempfile.mkdtemp(prefix="vsa.")
    try:
        c, cc = sources()
        todo = []
        if lib:
            todo += c
            if cxx:
                todo += cc
        hs = [os.path.join(VERIF, "harness", h) for h in harness]
        todo += hs

        def comp(i, src):
            out = os.path.join(d, "%d.bc" % i)
            cpp = src.endswith(".cpp")
            cmd = [tool("clang++")] + CXXFLAGS if cpp else [tool("clang")] + CFLAGS
            cmd += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "stubs"),
                    "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "src")]
            cmd += ["-D" + x for x in defines] + ["-c", "-emit-llvm", src, "-o", out]
            sh(cmd, cwd=VERIF)        # a directory that is no prefix of the sources: their names stay absolute
            return out
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda a: comp(*a), enumerate(todo)))
        allbc = os.path.join(d, "all.bc")
        sh([tool("llvm-link"), "-o", allbc] + outs)
        passes = []
        if keep:
            passes += ["internalize", "globaldce"]
        if sroa:
            passes.append("sroa")
        if passes:
            out = os.path.join(d, "opt.bc")
            cmd = [tool("opt"), "-passes=" + ",".join(passes), allbc, "-o", out]
            if keep:
                cmd.append("-internalize-public-api-list=" + ",".join(keep))
            sh(cmd)
            allbc = out
        js = sh([IRDUMP, allbc])
        return Program(json.loads(js)), [os.path.relpath(s, REPO) if s.startswith(REPO) else os.path.relpath(s, VERIF) for s in todo]
    finally:
        shutil.rmtree(d, ignore_errors=True)
