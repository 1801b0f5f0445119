"""developer helper: run one harness family"""
import sys, subprocess, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
name, fam = sys.argv[1:3]
extra = [a for a in sys.argv[3:] if a not in ('-V', '-L')]
so, exe, rt = vbuild.harness(name)
out = "/tmp/sx_%s_%s.json" % (name, fam)
r = subprocess.run([rt, so, "-a", fam, "-o", out] + extra)
d = json.load(open(out))
print({k: v for k, v in d.items() if k in ("complete","paths","obligations","proved","trivial","folded","inconclusive","counterexamples","crashes","queue_left","wall_s","notes","path_timeouts","diverged","vacuous","pinned","overflow")})
for i, f in enumerate(d["findings"][:12]):
    p = "/tmp/sx_replay.txt"; open(p, "w").write(f["body"])
    rr = subprocess.run([exe, "-a", fam, p], capture_output=True, text=True)
    if "NOT-REP" in rr.stdout and "-V" not in sys.argv: print("  (not reproduced)", f["label"][:150]); continue
    print("FIND", f["kind"], f["label"][:300], "|", f["body"].replace("\n", "; ")[:200], "=>", rr.stdout.strip()[:5000 if '-L' in sys.argv else 60])
for f in d["inconclusives"][:12]: 0 and print("INCON", f["label"][:300], f["body"][:100])
