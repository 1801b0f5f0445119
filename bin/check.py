"""check.py <property> : decides one property on /repo's current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, registry

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = registry.CHECKS[pid]
    rep = common.Report(pid, spec["level"], tier)
    if spec["kind"] == "sx":
        import sxcheck
        sxcheck.run(rep, spec, tier)
    else:
        import importlib
        importlib.import_module(spec["module"]).run(rep, spec, tier)
    return rep.done()

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
