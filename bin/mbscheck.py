"""Checks decided on the equations that the Python side generates (see mbs/)."""
import json, os, subprocess, tempfile
from common import VERIF
import vbuild
ASSUME = ["real-number semantics; quantities under a square root and divisors are taken to be positive and nonzero",
          "every lever, angle, mass, inertia, coordinate, velocity and load is free; the topology, the kinds of joints and the number of bodies are those of the listed systems",
          "sin and cos are variables on the unit circle"]
TRUST = ["z3", "exact polynomial arithmetic modulo s*s+c*c=1 and w*w=P (mbs/alg.py)", "reference kinematics and Newton-Euler equations (mbs/model.py)", "the interpreter of the generated assignments (mbs/run.py)"]

def run(rep, spec, tier):
    jobs = list(spec["quick"]) + (list(spec["thorough"]) if tier == "thorough" else [])
    if tier == "thorough": jobs = [[k, a, max(t, 400)] for k, a, t in jobs]
    fd, out = tempfile.mkstemp(suffix=".json"); os.close(fd)
    env = dict(os.environ, MBS_BUDGET=str(spec.get("budget", 120) if tier == "quick" else 780))
    try:
        p = subprocess.run(["python3-vt", os.path.join(VERIF, "mbs", "driver.py"), out], input=json.dumps(jobs), text=True, env=env, capture_output=True)
        if p.returncode: raise RuntimeError("driver failed: " + p.stderr[-2000:])
        res = json.load(open(out))
    finally:
        os.unlink(out)
    tot = dict(checked=0, queries=0, solver_s=0.0); per = {}; und, unrep, samples, outside, harness = [], [], [], [], []
    for (kind, arg, lim), r in zip(jobs, res):
        shown = " ".join([kind] + [str(a) for a in arg])
        for k in tot: tot[k] += r.get(k, 0)
        und += r.get("undecided", []); unrep += r.get("unreproduced", []); samples += r.get("samples", [])
        per[shown] = {"status": r["status"].split("\n")[0][:120], "results": r.get("checked", 0), "wall_s": r.get("wall_s")}
        if r["status"] != "ok": outside.append(shown + ": " + r["status"][:300])
        if r["status"].startswith("harness"): harness.append(shown + ": " + r["status"][-600:]); print("  cannot be judged: " + harness[-1][-400:], flush=True)
        if r.get("signal") in (11, 6, 7, 8):
            rep.finding("%s: the library crashes with signal %d" % (shown, r["signal"]), shown)
        for what, text in r.get("found", []):
            rep.finding(what, "# %s\n%s\n# replay: python3-vt %s/mbs/again.py '%s'\n" % (what, text, VERIF, json.dumps([kind, arg])))
    rep.assumptions += ASSUME
    rep.cov.update(obligations=tot["checked"], discharged=tot["checked"] - len(und) - len(unrep) - len(rep.viol), solver_queries=tot["queries"], solver_s=round(tot["solver_s"], 1),
        checker_cmd="python3-vt mbs/driver.py", trusted_base=TRUST, systems=len({str(a[1:]) for k, a, t in jobs}), jobs=per, undecided=und[:40], counterexamples_not_reproduced=unrep[:20], not_judged=outside,
        functions_encoded_samples=spec.get("functions", []), functions_encoded=len(spec.get("functions", [])), bounds=spec["bounds"], samples=samples[:40],
        exhaustive=not und and not unrep and not outside)
