"""The Python side of /repo on an extension module built from its current sources."""
import importlib.util, os, sys, types
import vbuild

def extension():
    objs = vbuild.objects(vbuild.core_sources() + vbuild.wrapper_sources(), "plain", ["-I" + vbuild.PYINC])
    return vbuild.link(objs, "symbolics.so", ["clang++-18", "-shared", "-fPIC", "-Wl,-Bsymbolic"])

def load():
    """import pymbs from /repo; its compiled half comes from the out-of-tree build, the user interface stays out"""
    sys.pycache_prefix = os.path.join(vbuild.BUILD, "pyc")        # no bytecode beside the sources
    sys.dont_write_bytecode = False
    with vbuild.Lock():
        so = extension()
    if vbuild.REPO not in sys.path:
        sys.path.insert(0, vbuild.REPO)
    name = "pymbs.symbolics.symbolics"
    class Finder:
        def find_spec(self, fullname, path=None, target=None):
            if fullname == name:
                return importlib.util.spec_from_file_location(name, so, loader=importlib.machinery.ExtensionFileLoader(name, so))
            if fullname == "pymbs.ui.gui":
                return importlib.util.spec_from_loader(fullname, self)
            return None
        def create_module(self, spec):
            m = types.ModuleType(spec.name); m.launchGui = None; return m
        def exec_module(self, m):
            pass
    sys.meta_path.insert(0, Finder())
    import pymbs.symbolics
    return pymbs.symbolics
