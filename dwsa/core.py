"""Check driver: obligations, violations, known findings, evidence."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import cfront

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Enough(BaseException):
    pass


class Report:
    """Obligations discharged and violations found by one job."""

    def __init__(self):
        self.done = {}
        self.viol = []
        self.notes = []
        self.units = set()
        self.start = None

    def ok(self, rule, n=1):
        self.done[rule] = self.done.get(rule, 0) + n
        self.enough()

    def enough(self):
        """A unit already known to be wrong is not analysed for ever."""
        if self.viol and self.start is not None and (len(self.viol) > 400 or time.time() - self.start > 100):
            raise Enough()

    def unit(self, u):
        self.units.add(u)

    def fail(self, rule, where, construct, msg):
        self.done[rule] = self.done.get(rule, 0) + 1
        self.viol.append({"rule": rule, "where": where, "construct": construct, "message": msg})
        self.enough()

    def check(self, cond, rule, where, construct, msg):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, where, construct, msg() if callable(msg) else msg)
        return cond

    def merge(self, o):
        for k, v in o.done.items():
            self.done[k] = self.done.get(k, 0) + v
        self.viol += o.viol
        self.notes += o.notes
        self.units |= o.units


def _work(a):
    fn, args = a
    t = time.time()
    rep = Report()
    rep.start = t
    try:
        try:
            fn(rep, *args)
        except Enough:
            rep.notes.append("stopped after %d violations: %s%s" % (len(rep.viol), fn.__name__, str(args)[:80]))
        rep.start = None
        return ("ok", rep, time.time() - t, fn.__name__, args)
    except Exception as e:                                    # noqa: BLE001
        return ("error", "%s: %s" % (type(e).__name__, e), traceback.format_exc(), fn.__name__, args, rep)


def run_jobs(jobs, procs=None, limit=None):
    """jobs: [(function, args)]; returns (Report, errors)."""
    rep = Report()
    errors = []
    times = []
    jobs = list(jobs)
    n = procs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    if n <= 1 or len(jobs) <= 1:
        res = map(_work, jobs)
        res = list(res)
    else:
        res = []
        t0 = time.time()
        with mp.get_context("fork").Pool(n, maxtasksperchild=None) as pool:
            out = pool.imap_unordered(_work, jobs, chunksize=1)
            while len(res) < len(jobs):
                try:
                    res.append(out.next(timeout=5))
                except mp.TimeoutError:
                    pass
                spent = time.time() - t0
                bad = any(r[1 if r[0] == "ok" else 5].viol for r in res)
                if len(res) < len(jobs) and limit and spent > (limit / 2 if bad else limit):
                    done = set((r[3], repr(r[4])) for r in res)
                    for fn, args in jobs:
                        if (fn.__name__, repr(args)) not in done:
                            res.append(("error", "out of time", "", fn.__name__, args, Report()))
                    pool.terminate()
                    break
    for r in res:
        if r[0] == "ok":
            rep.merge(r[1])
            times.append((r[2], r[3], r[4]))
        else:
            rep.merge(r[5])
            errors.append(r[1:5])
    times.sort(key=lambda x: -x[0])
    return rep, errors, times


def load_known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN))["findings"]


def run_check(pid, jobs, tier, level, floors, explanation, assumptions=(), post=None):
    """Run the jobs of one property and report.  Returns the exit status."""
    t0 = time.time()
    rep, errors, times = run_jobs(jobs, limit=780 if tier == "quick" else None)
    if post:
        post(rep)
    if os.environ.get("DWSA_TIMES"):
        for t in times[:12]:
            print("time %.1fs %s %s" % t)
    ev = os.environ.get("DWSA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    status = 0
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    fresh, seen = [], {}
    for v in rep.viol:
        k = (v["rule"], v["construct"])
        if k in seen:
            seen[k]["count"] += 1
            continue
        v = dict(v, count=1)
        seen[k] = v
        hit = None
        for kf in known:
            if kf["rule"] == v["rule"] and kf["construct"] == v["construct"]:
                hit = kf
        if hit is not None:
            hit["_hit"] = True
        else:
            fresh.append(v)
    for kf in known:
        if kf.get("_hit"):
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    low = []
    for rule, n in floors.items():
        if rep.done.get(rule, 0) < n:
            low.append("%s: %d obligations, expected at least %d" % (rule, rep.done.get(rule, 0), n))
    path = os.path.join(ev, "%s.violations.json" % pid)
    if os.path.exists(path):
        os.remove(path)
    if fresh:
        json.dump({"property": pid, "violations": fresh}, open(path, "w"), indent=1)
        for v in fresh[:40]:
            print("%s: [%s] %s: %s" % (v["where"], v["rule"], v["construct"], v["message"][:600]))
        if len(fresh) > 40:
            print("... and %d more" % (len(fresh) - 40))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    elif low and not any(e[0] == "out of time" for e in errors):
        for e in errors[:5]:
            print("ANALYSIS-ERROR %s in %s%s\n%s" % (e[0], e[2], e[3], e[1][-1500:]))
        for l in low:
            print("ANALYSIS-ERROR too few instances: %s" % l)
        status = 2
    elif errors:
        for e in errors[:8]:
            print("NOT-ANALYSED: %s%s: %s" % (e[2], str(e[3])[:120], e[0][:200]))
    total = sum(rep.done.values())
    cov = {
        "explanation": explanation,
        "obligations": total,
        "discharged": total - len(rep.viol),
        "by_rule": dict(sorted(rep.done.items())),
        "units_analysed": len(rep.units),
        "units": sorted(rep.units)[:200],
        "analysis_errors": [e[0] for e in errors],
    }
    if rep.notes:
        cov["notes"] = rep.notes[:50]
    out = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
        "assumptions": list(assumptions),
        "violations": len(fresh),
    }
    json.dump(out, open(os.path.join(ev, "%s.json" % pid), "w"), indent=1)
    print("%s %s: %d obligations over %d units, %d violations, %.1f s" % (
        pid, {0: "held", 1: "VIOLATED", 2: "NOT ANALYSED"}[status], total, len(rep.units), len(fresh),
        time.time() - t0))
    return status
