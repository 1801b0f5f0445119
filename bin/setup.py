"""builds the framework and fills the object cache from /repo's current tree"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, registry
with vbuild.Lock():
    for h in sorted({s["harness"] for s in registry.CHECKS.values() if s["kind"] == "sx"}):
        print(h, vbuild.harness(h))
    try:
        import pybuild; print(pybuild.extension())
    except ImportError:
        pass
