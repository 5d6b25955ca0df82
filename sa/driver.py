"""Runs a check: spreads the analysed calls over the cores, merges findings,
applies the known-findings file, writes evidence and prints the verdict."""
import gc
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import ast

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("ALGOTOM_EVIDENCE") or os.path.join(VERIF, "evidence")
REPO = os.environ.get("ALGOTOM_REPO", "/repo")


class Finding:
    """A definite violation of a rule at one construct."""

    def __init__(self, rule, construct, where, message, detail=None):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.message = message
        self.detail = detail or {}

    @property
    def key(self):
        return "%s | %s" % (self.rule, self.construct)

    def as_dict(self):
        return {"rule": self.rule, "construct": self.construct,
                "where": self.where, "message": self.message,
                "detail": self.detail}


def src(node, n=90):
    try:
        s = ast.unparse(node)
    except Exception:
        s = "?"
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n - 3] + "..."


def construct_of(ev):
    f = ev.func
    return "%s: %s" % (f.short if f else "?", src(ev.node))


_STATE = {}


def _alarm(signum, frame):
    raise TimeoutError()


def _one(job):
    """Runs in a worker."""
    check, project = _STATE["check"], _STATE["project"]
    t = time.time()
    lim = _STATE["joblimit"]
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(lim)
        out = check.do(project, job)
        signal.alarm(0)
        err = None
    except TimeoutError:
        out, err = ([], {}), "time limit %ds" % lim
    except Exception:
        signal.alarm(0)
        out, err = ([], {}), traceback.format_exc()
    finally:
        signal.alarm(0)
    fs, stats = out
    return (job, [f.as_dict() for f in fs], stats, err,
            round(time.time() - t, 2))


def merge_stats(a, b):
    for k, x in b.items():
        if isinstance(x, (int, float)):
            a[k] = a.get(k, 0) + x
        elif isinstance(x, (set, frozenset)):
            a[k] = a.get(k, set()) | set(x)
        elif isinstance(x, list):
            a.setdefault(k, [])
            for y in x:
                if y not in a[k]:
                    a[k].append(y)
        elif isinstance(x, dict):
            merge_stats(a.setdefault(k, {}), x)


def load_known():
    """known-findings.txt: lines 'known: property=<id> key=<rule | construct>
    what=<text>' and 'fixed: property=<id> <commit> <text>' (documentation)"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for l in open(p, encoding="utf-8"):
        l = l.strip()
        if not l.startswith("known: "):
            continue
        head, _, what = l.partition(" what=")
        head, _, key = head.partition(" key=")
        pid = head.split("property=")[1].strip()
        out.append((pid, key.strip(), what.strip()))
    return out


def main(check, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    elif "thorough" in argv:
        tier = "thorough"
    elif "quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = check.ID
    os.makedirs(EVID, exist_ok=True)
    from .project import Project
    try:
        project = Project(REPO)
    except SyntaxError as e:
        print("cannot parse the sources: %s" % e)
        return 2
    gc.set_threshold(200000, 50, 50)
    gc.freeze()
    jobs = list(check.jobs(project, tier))
    _STATE.update(check=check, project=project,
                  joblimit=60 if tier == "quick" else 240)
    total = {}
    finds = {}
    errs = []
    slow = []
    if len(jobs) > 1:
        # large jobs first
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            for job, fs, stats, err, dt in pool.imap_unordered(
                    _one, jobs, chunksize=1):
                merge_stats(total, stats)
                slow.append((dt, str(job)[:120]))
                if err:
                    errs.append((str(job)[:160], err))
                for f in fs:
                    finds.setdefault("%s | %s" % (
                        f["rule"], f["construct"]), f)
    else:
        for j in jobs:
            job, fs, stats, err, dt = _one(j)
            merge_stats(total, stats)
            if err:
                errs.append((str(job)[:160], err))
            for f in fs:
                finds.setdefault("%s | %s" % (f["rule"], f["construct"]), f)
    if hasattr(check, "finish"):
        for f in check.finish(project, total):
            finds.setdefault(f.key, f.as_dict())
    known = [(k, w) for p, k, w in load_known() if p == pid]
    viol, kf = [], []
    for k in sorted(finds):
        for kk, w in known:
            if k == kk:
                kf.append((k, w))
                break
        else:
            viol.append(finds[k])
    for k, x in list(total.items()):
        if isinstance(x, (set, frozenset)):
            total[k] = len(x)
            total[k + "_list"] = sorted(map(str, x))[:400]
    cov = {"explanation": check.EXPLANATION,
           "jobs": len(jobs), "job_errors": len(errs),
           "rules": getattr(check, "RULES", {}), "counts": {
               k: v for k, v in total.items() if not k.startswith("_")}}
    if errs:
        cov["not_analysed"] = [{"job": j, "why": e.splitlines()[-1]}
                               for j, e in errs[:50]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": getattr(check, "ASSUMPTIONS", []),
          "violations": viol}
    path = os.path.join(EVID, pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %s" % (pid, check.TITLE))
    for k, v in sorted(total.items()):
        if isinstance(v, (int, float)):
            print("  %-40s %s" % (k, v))
    if errs:
        print("  not analysed: %d" % len(errs))
        if "-v" in argv or os.environ.get("SA_VERBOSE"):
            for j, e in errs:
                print(j)
                print(e)
    if "-v" in argv:
        for dt, j in sorted(slow, reverse=True)[:12]:
            print("  %6.1fs %s" % (dt, j))
    print("  wall %.1fs" % (time.time() - t0))
    for k, w in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, w or k))
    if viol:
        for f in viol:
            print("%s  [%s] %s" % (f["where"], f["rule"], f["message"]))
            for a, b in f["detail"].items():
                print("      %s: %s" % (a, b))
        rp = os.path.join(EVID, pid + ".json")
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not jobs or len(errs) * 2 > len(jobs):
        print("analysis failed on most of the code")
        for j, e in errs[:3]:
            print(j, e)
        return 2
    return 0
