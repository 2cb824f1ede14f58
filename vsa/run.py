"""Check context: runs the analyses of one property, writes its evidence and
prints its verdict."""
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
from . import build, dom, engine, libc

VERIF = build.VERIF
CHECKS = {}          # id -> (function, meta)


def check(pid, **meta):
    def d(f):
        CHECKS[pid] = (f, meta)
        return f
    return d


def fmt_cond(c):
    if isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], tuple):
        (k, f), v = c
        op = {"ge": (">= 0", "< 0"), "lt": ("< 0", ">= 0"), "eq": ("== 0", "!= 0"), "ne": ("!= 0", "== 0")}[k]
        return "%r %s" % (f, op[0] if v else op[1])
    return str(c)


def fmt_trace(st):
    out = []
    t = st.trace
    while t is not None and len(out) < 400:
        loc, c = t[1]
        out.append("%s: %s" % (loc, fmt_cond(c)))
        t = t[0]
    out.reverse()
    return out


def fmt_events(st):
    out = []
    for e in st.events()[-60:]:
        out.append(" ".join(str(x)[:100] for x in e))
    return out


def _job(args):
    prog, entry, jargs, init, cfg, opts = args
    t0 = time.time()
    dom.reset()
    dom.CIPHER = bool(cfg.get("cipher"))
    models = libc.M
    if opts.get("models"):
        models = dict(libc.M)
        models.update(opts["models"])
    eng = engine.Engine(prog, models, cfg)
    for k in ("on_end", "loads_hook", "calls_hook", "access_hook"):
        if opts.get(k):
            setattr(eng, k, opts[k])
    err = None
    try:
        eng.run(entry, jargs, init)
    except Exception:
        err = traceback.format_exc()
    viol = []
    seen = {}
    for v in eng.violations:
        key = (v["kind"], v["id"], v["loc"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1:
            continue
        viol.append({"kind": v["kind"], "msg": v["msg"], "id": v["id"], "loc": v["loc"],
                     "stack": v["stack"], "path": fmt_trace(v["state"]),
                     "effects": fmt_events(v["state"]),
                     "ranges": fmt_ranges(v["state"]),
                     "member": {dom.ATOMS[a].name: x for a, x in v["member"].items()} if v["member"] else None})
    return {"entry": opts.get("label", entry), "viol": viol, "stats": eng.stats,
            "fn": sorted(eng.fn_seen), "sites": sorted(eng.sites), "err": err,
            "wall": round(time.time() - t0, 2), "atoms": len(dom.ATOMS),
            "extra": getattr(eng, "extra", None)}


def fmt_ranges(st):
    out = {}
    for a, (lo, hi) in list(st.cs.rng.items())[:60]:
        out[dom.ATOMS[a].name] = "[%s, %s]" % (lo, hi)
    for a, f in list(st.cs.sub.items())[:60]:
        out[dom.ATOMS[a].name] = "= %r" % (f,)
    return out


class Ctx:
    def __init__(self, pid, meta, tier, seed):
        self.pid = pid
        self.meta = meta
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.viol = []
        self.results = []
        self.units = set()
        self.notes = []
        self.rules = []
        self.lint = []           # non-IR rules: (rule, analysed, findings)
        self.progs = {}
        self.jobs = []
        self.thorough = tier == "thorough"

    def rule(self, s):
        self.rules.append(s)

    def prog(self, **kw):
        key = repr(sorted(kw.items()))
        if key not in self.progs:
            p, units = build.load(**kw)
            self.units.update(units)
            self.progs[key] = p
        return self.progs[key]

    def add(self, prog, entry, args=(), init=None, cfg=None, ignore=(), only=None, **opts):
        """queue one abstract interpretation"""
        self.jobs.append((prog, entry, args, init, cfg or {}, dict(opts, ignore=tuple(ignore), only=only)))

    def run(self, budget=600.0):
        jobs, self.jobs = self.jobs, []
        if not jobs:
            return []
        end = time.time() + budget
        global _JOBS
        _JOBS = jobs
        res = []
        n = min(8, len(jobs))
        ctx = mp.get_context("fork")
        with ctx.Pool(n, maxtasksperchild=1) as pool:
            rs = [pool.apply_async(_jobn, (i, budget)) for i in range(len(jobs))]
            for i, r in enumerate(rs):
                try:
                    res.append(r.get(timeout=max(1.0, end + 60 - time.time())))
                except mp.TimeoutError:
                    res.append({"entry": jobs[i][5].get("label", jobs[i][1]), "viol": [], "stats": {}, "fn": [],
                                "sites": [], "err": "timeout", "wall": budget, "atoms": 0, "extra": None})
                except Exception:
                    res.append({"entry": jobs[i][1], "viol": [], "stats": {}, "fn": [], "sites": [],
                                "err": traceback.format_exc(), "wall": 0, "atoms": 0, "extra": None})
        for j, r in zip(jobs, res):
            ign, only = j[5]["ignore"], j[5]["only"]
            for v in r["viol"]:
                if v["kind"] in ign or (only and v["kind"] not in only):
                    continue
                v["entry"] = r["entry"]
                self.viol.append(v)
            self.results.append(r)
        return res

    def violate(self, loc, msg, kind="rule", detail=None, ident=None):
        self.viol.append({"kind": kind, "msg": msg, "id": ident or msg, "loc": loc, "stack": [], "path": [],
                          "effects": detail or [], "ranges": {}, "entry": "rule", "member": None})

    def lint_result(self, rule, analysed, sample=()):
        self.lint.append({"rule": rule, "analysed": analysed, "sample": list(sample)[:12]})


def _jobn(i, budget):
    j = list(_JOBS[i])
    cfg = dict(j[4])
    cfg.setdefault("time", budget)
    j[4] = cfg
    return _job(j)


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                mt = re.match(r"finding:\s*property=(\S+)\s+site=(\S+)\s+kind=(\S+)\s+(.*)", l)
                if mt:
                    out.append(mt.groups())
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    specdir = os.path.join(VERIF, "specs")
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    for f in sorted(os.listdir(specdir)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("specs." + f[:-3])
    if a.pid not in CHECKS:
        print("unknown property", a.pid)
        return 2
    f, meta = CHECKS[a.pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(a.pid, meta, a.tier, seed)
    try:
        f(ctx)
        ctx.run()
    except build.Broken as e:
        print("analysis-broken: %s" % e)
        return 2
    return verdict(ctx, a.v)


def verdict(ctx, verbose):
    pid = ctx.pid
    obl = {}
    dis = {}
    tot = {"paths": 0, "steps": 0, "splits": 0, "choices": 0, "infeasible": 0, "mem_checks": 0, "truncated": 0,
           "joins": 0, "widened": 0, "empty": 0, "undecided": 0, "poly": 0, "eintr_bound": 0}
    uns = {}
    unproven = {}
    ends = {}
    fns = set()
    sites = set()
    errs = []
    for r in ctx.results:
        s = r["stats"]
        for k in tot:
            tot[k] += s.get(k, 0)
        for k, v in s.get("obligations", {}).items():
            obl[k] = obl.get(k, 0) + v
        for k, v in s.get("discharged", {}).items():
            dis[k] = dis.get(k, 0) + v
        for k, v in s.get("unsupported", {}).items():
            uns[k] = uns.get(k, 0) + v
        for k, v in s.get("unproven", {}).items():
            unproven[k] = unproven.get(k, 0) + v
        for k, v in s.get("ends", {}).items():
            ends[k] = ends.get(k, 0) + v
        fns |= set(r["fn"])
        sites |= set(map(tuple, r["sites"]))
        if r["err"]:
            errs.append((r["entry"], r["err"]))
    nob = sum(obl.values()) + tot["mem_checks"] + sum(len(x["analysed"]) if isinstance(x["analysed"], list) else x["analysed"] for x in ctx.lint)
    known = [k for k in known_findings() if k[0] == pid]
    new = []
    listed = []
    for v in ctx.viol:
        fn = v["stack"][0].split(" ")[0] if v["stack"] else "-"
        hit = None
        for k in known:
            site = "%s:%s" % (v["loc"].split(":")[0], fn)
            if k[1] in (site, v["loc"]) and (k[2] == v["kind"] or k[2] == (v["id"] or "").replace(" ", "_")):
                hit = k
        (listed if hit else new).append((v, hit))
    rdir = os.path.join(VERIF, "build", "reports")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".txt")
    rep = []
    for v, h in new:
        rep.append("property %s violated in driver %s\n  kind: %s\n  what: %s\n  where: %s" % (
            pid, v["entry"], v["kind"], v["msg"], v["loc"]))
        for s in v["stack"]:
            rep.append("    in " + s)
        if v["path"]:
            rep.append("  branch decisions of the abstract path:")
            rep += ["    " + p for p in v["path"]]
        if v["effects"]:
            rep.append("  effects on the path:")
            rep += ["    " + p for p in v["effects"]]
        if v["ranges"]:
            rep.append("  abstract values:")
            rep += ["    %s %s" % x for x in v["ranges"].items()]
        if v.get("member"):
            rep.append("  a member of the abstract state: " + ", ".join("%s=%s" % x for x in v["member"].items()))
        rep.append("")
    with open(rpath, "w") as fo:
        fo.write("\n".join(rep) if rep else "no violation\n")
    expl = ctx.meta.get("explanation", "")
    cov = {
        "explanation": expl,
        "rules": ctx.rules,
        "translation_units": sorted(ctx.units),
        "drivers": [{"driver": r["entry"], "partitions": r["stats"].get("paths", 0),
                     "instructions": r["stats"].get("steps", 0), "joins": r["stats"].get("joins", 0),
                     "truncated": r["stats"].get("truncated", 0), "wall_s": r["wall"]} for r in ctx.results],
        "functions_analysed": sorted(f for f in fns),
        "library_call_sites": len(sites),
        "library_call_sites_sample": ["%s at %s" % s for s in sorted(sites)[:40]],
        "obligations": sum(obl.values()),
        "discharged": sum(dis.values()),
        "obligations_by_rule": obl,
        "memory_access_obligations": tot["mem_checks"],
        "abstract_states": tot["paths"],
        "abstract_steps": tot["steps"],
        "partition_splits": tot["splits"] + tot["choices"],
        "infeasible_partitions": tot["infeasible"],
        "widened_partitions": tot["widened"],
        "polyhedra_emptiness_tests": tot["poly"],
        "failing_partitions_found_empty": tot["empty"],
        "failing_partitions_undecided": tot["undecided"],
        "truncated_partitions": tot["truncated"],
        "unproven": unproven,
        "unsupported": uns,
        "path_ends": ends,
        "source_rules": ctx.lint,
        "violations": len(new),
        "known_findings": len(listed),
        "notes": ctx.notes,
        "incomplete_drivers": [e for e, _ in errs],
    }
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.meta.get("level", "other"),
          "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2)}
    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    for k in sorted(set(h for _, h in listed)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    print("%s: %d drivers, %d partitions, %d steps, %d obligations, %d memory obligations, %d truncated, %d unsupported, %.1fs" % (
        pid, len(ctx.results), tot["paths"], tot["steps"], sum(obl.values()), tot["mem_checks"], tot["truncated"],
        sum(uns.values()), time.time() - ctx.t0))
    if verbose:
        for k, v in uns.items():
            print("  unsupported: %s x%d" % (k, v))
        for k, v in unproven.items():
            print("  unproven: %s x%d" % (k, v))
        print("  ends:", ends)
        for r in ctx.results:
            print("  %-30s paths=%d steps=%d trunc=%d %.1fs" % (r["entry"], r["stats"].get("paths", 0), r["stats"].get("steps", 0), r["stats"].get("truncated", 0), r["wall"]))
        for n in ctx.notes:
            print("  note:", n)
    for e in errs:
        print("analysis error in %s:\n%s" % e)
    seen = set()
    for v, h in new:
        key = (v["kind"], v["loc"], v["id"])
        if key in seen:
            continue
        seen.add(key)
        print("  [%s] %s at %s (%s) driver %s" % (v["kind"], v["msg"], v["loc"], v["stack"][0] if v["stack"] else "", v["entry"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        return 1
    if errs and (len(errs) == len(ctx.results) or nob == 0):
        return 2
    if nob == 0:
        print("analysis-broken: no obligation was generated")
        return 2
    return 0
