"""Checks decided by symbolic execution of the instrumented C++ code."""
import json, os, subprocess, re, time
import vbuild
from common import VERIF, REPLAY
ASSUME = ["real-number semantics: variables range over the reals; doubles on a path are exact rationals or folded constants compared to 1e-9",
          "sin, cos and the other transcendental functions are uninterpreted up to parity, pythagorean identity and exact values at fixed points",
          "structural bounds of the listed families; nothing is claimed about larger expressions"]
TRUST = ["LLVM pass and runtime under /verif/engine", "z3", "clang 18 front end", "denotation in /verif/harness/hs.h"]

def functions(so, names):
    r = subprocess.run(["nm", "-C", "--defined-only", so], capture_output=True, text=True).stdout
    out = set()
    for l in r.splitlines():
        p = l.split(" ", 2)
        if len(p) == 3 and p[1] in "tTwW" and any(p[2].startswith("Symbolics::" + n) for n in names):
            out.add(p[2])
    return sorted(out)

def run(rep, spec, tier):
    fams = list(spec["quick"])
    if tier == "thorough":
        fams = [(f[0], max(f[1], 60)) + f[2:] for f in fams] + list(spec.get("thorough", []))
    budget = spec.get("budget", 80) if tier == "quick" else 840
    with vbuild.Lock():
        built = {h: vbuild.harness(h) for h in sorted({spec["harness"]} | {f[0].split("@")[0] for f in fams if "@" in f[0]})}
        vbuild.prune()
    t_end = time.time() + budget
    tot = dict(paths=0, choices=0, branch_queries=0, obligations=0, trivial=0, proved=0, inconclusive=0, counterexamples=0, folded=0, vacuity_checked=0, vacuous=0, solver_s=0.0, exec_s=0.0)
    per, samples, validated, mismatch, unrep, notes = {}, [], 0, [], [], {}
    for fam, lim, *desc in fams:
        shown = fam; h, fam = fam.split("@") if "@" in fam else (spec["harness"], fam)
        so, exe, rt = built[h]
        left = t_end - time.time()
        if left < 3:
            per[shown] = {"skipped": "time budget used up"}; continue
        lim = min(lim, left)
        out = os.path.join(vbuild.BUILD, "out-%s-%s-%d.json" % (rep.pid, fam, os.getpid()))
        r = subprocess.run([rt, so, "-a", fam, "-o", out, "-t", str(lim), "-f", "60", "-j", str(os.cpu_count() or 8)], capture_output=True, text=True)
        if not os.path.exists(out):
            raise RuntimeError("symbolic run failed: " + r.stderr[-500:])
        d = json.load(open(out)); os.unlink(out)
        for k in tot:
            tot[k] += d[k]
        for k, v in d["notes"].items():
            notes[k] = notes.get(k, 0) + v
        per[shown] = {k: d[k] for k in ("complete", "paths", "obligations", "proved", "trivial", "folded", "inconclusive", "counterexamples", "crashes", "path_timeouts", "diverged", "queue_left", "solver_s", "wall_s")}
        if desc: per[shown]["what"] = desc[0]
        per[shown]["inconclusive_samples"] = [i["label"][:200] for i in d["inconclusives"][:3]]
        f = os.path.join(vbuild.BUILD, "rp-%s-%d.txt" % (rep.pid, os.getpid()))
        def replay(body):
            open(f, "w").write(body)
            rr = subprocess.run([exe, "-a", fam, f], capture_output=True, text=True)
            return next((l for l in rr.stdout.splitlines() if l.startswith("REPRODUCED")), None)
        for x in d["findings"]:
            hit = replay(x["body"])
            if not hit:
                unrep.append(x["label"][:300]); continue
            what = re.sub(r"^REPRODUCED trial=\d+ ", "", hit)
            if x["kind"] == 1:
                what = "%s: %s" % (fam, what)
            rep.finding(what, "# %s\n# replay: %s -v -a %s %s\n%s" % (what, exe, fam, "THISFILE", x["body"]))
        for x in d["samples"]:
            hit = replay(x["body"])
            validated += 1
            if hit:
                what = re.sub(r"^REPRODUCED trial=\d+ ", "", hit)
                if not any(what[:40] == w["label"][:40] for w in d["findings"]): mismatch.append(what[:300])
            elif len(samples) < 12 and x["label"]:
                samples.append({"family": shown, "case": x["label"][:300], "inputs": x["body"].strip()[:120]})
        if os.path.exists(f): os.unlink(f)
    so, exe, rt = built[spec["harness"]]
    fs = functions(so, spec["classes"])
    rep.assumptions += ASSUME
    rep.cov.update(states=tot["paths"], transitions=tot["choices"] + tot["branch_queries"], traces_validated_against_impl=validated,
        obligations=tot["obligations"], discharged=tot["trivial"] + tot["proved"], checker_cmd="%s <harness>.so -a <family>" % os.path.basename(rt),
        trusted_base=TRUST, decided_by_solver=tot["proved"], decided_syntactically_by_the_term_rewriter=tot["trivial"], decided_by_constant_folding=tot["folded"],
        inconclusive=tot["inconclusive"], counterexamples=tot["counterexamples"], counterexamples_not_reproduced=unrep[:20], sample_mismatches=mismatch,
        vacuity_checked=tot["vacuity_checked"], vacuous=tot["vacuous"], solver_s=round(tot["solver_s"], 1), execution_s=round(tot["exec_s"], 1),
        families=per, notes=dict(sorted(notes.items(), key=lambda kv: -kv[1])[:30]), functions_encoded=len(fs), functions_encoded_samples=fs[:60], bounds=spec["bounds"], samples=samples,
        exhaustive=all(p.get("complete") for p in per.values()))
