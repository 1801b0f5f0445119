"""What the writers write: models given as equations, or generated from a described multibody system, are written in one
language by the library; the text is read back and evaluated over symbolic states, inputs and time, and has to give what the
model says, for one placement of the states in the state vector."""
import contextlib, ctypes, io, itertools, json, math, os, pickle, re, shutil, subprocess, sys, tempfile, traceback, types
from fractions import Fraction
import numpy
import alg, texts
from alg import Mat, Rat, Ring, Unsupported
from texts import Wrong, flat

KIND = {"py": "py", "c": "c", "m": "m", "f": "f90", "mo": "mo", "ms": "m", "cw": "c"}
KEYS = {"ms": dict(symbolic_mode=True), "cw": dict(pymbs_wrapper=True)}     # ms: Matlab's symbolic functions; cw: C called through its Python wrapper
class Lib:
    """a model's equations handed to the library"""
    def __init__(self):
        from pymbs import symbolics as S
        self.S, self.g = S, S.Graph()
        self.time = self.g.getVariable("time")
        self.names = {"state": [], "sensor": [], "visual": [], "input": []}
    def state(self, name, shape=(), start=None):
        self.names["state"].append(name)
        k = {} if start is None else {"initialValue": self.num(start)}
        return self.g.addVariable(name, shape, **k) if shape else self.g.addVariable(name, **k)
    def num(self, v):
        return self.S.Matrix(v) if isinstance(v, list) else v
    def input(self, name, shape=()):
        self.names["input"].append(name)
        return self.g.addVariable(name, shape, self.S.VarKind.Input)
    def controller(self, name, function, shape=()):
        return self.g.addVariable(name=name, shape=shape, varKind=self.S.VarKind.Controller, comment="regulators:" + function)
    def given(self, name, value, kind):
        v = self.num(value)
        s = () if not isinstance(value, list) else (len(value), len(value[0])) if isinstance(value[0], list) else (len(value),)
        x = self.g.addVariable(name, s, kind)
        self.g.addEquation(x, v)
        return x
    def param(self, name, value): return self.given(name, value, self.S.VarKind.Parameter)
    def const(self, name, value): return self.given(name, value, self.S.VarKind.Constant)
    def let(self, name, value, shape=()):
        return self.g.addEquation(name, value, shape=shape) if shape else self.g.addEquation(name, value)
    def der(self, x, value): self.g.addEquation(self.S.der(x), value)
    def out(self, name, value, shape, kind):
        x = self.g.addVariable(name, shape, kind); self.g.addEquation(x, value); return x
    def sensor(self, name, value, shape=()):
        self.names["sensor"].append(name); return self.out(name, value, shape, self.S.VarKind.Sensor)
    def visual(self, name, value, shape=()):
        self.names["visual"].append(name); return self.out(name, value, shape, self.S.VarKind.Graphics)
    def sin(self, x): return self.S.sin(x)
    def cos(self, x): return self.S.cos(x)
    def sqrt(self, x): return x ** 0.5
    def atan2(self, y, x): return self.S.atan2(y, x)
    def at(self, v, i, j=None): return v[i] if j is None else v[i, j]
    def T(self, v): return self.S.transpose(v)
    def dot(self, a, b): return self.S.transpose(a) * b
    def solve(self, A, b): return self.S.solve(A, b)
    def inv(self, A): return A ** -1
    def mat(self, rows): return self.S.Matrix(rows)

class Ref:
    """the same model over exact values"""
    def __init__(self):
        self.R = Ring()
        self.time = self.R.V("time")
        self.states, self.ders, self.sensors, self.visuals, self.inputs, self.start = {}, {}, {}, {}, {}, {}
    def fresh(self, name, shape):
        if not shape: return self.R.V(name)
        if len(shape) == 1: return Mat([[self.R.V("%s_%d" % (name, i))] for i in range(shape[0])])
        return Mat([[self.R.V("%s_%d_%d" % (name, i, j)) for j in range(shape[1])] for i in range(shape[0])])
    def state(self, name, shape=(), start=None):
        v = self.states[name] = self.fresh(name, shape); self.start[name] = self.num(start) if start is not None else v - v; return v
    def input(self, name, shape=()):
        v = self.inputs[name] = self.fresh(name, shape); return v
    def controller(self, name, function, shape=()):
        """of the sensors above"""
        return self.regulate(function)
    def regulate(self, function):
        import regulators
        y = [x for v in self.states.values() for x in flat(v)]
        return getattr(regulators, function)(self.time, y, dict(self.sensors))
    def num(self, v):
        if isinstance(v, list): return Mat([[self.num(x) for x in r] if isinstance(r, list) else [self.num(r)] for r in v])
        return v if isinstance(v, (Rat, Mat)) else self.R.C(v if isinstance(v, int) else Fraction(repr(v)))
    def param(self, name, value): return self.num(value)
    const = param
    def let(self, name, value, shape=()): return self.num(value)
    def der(self, x, value):
        n = [k for k, v in self.states.items() if v is x][0]; self.ders[n] = self.num(value)
    def sensor(self, name, value, shape=()): self.sensors[name] = self.num(value); return self.sensors[name]
    def visual(self, name, value, shape=()): self.visuals[name] = self.num(value); return self.visuals[name]
    def sin(self, x): return alg.sin(x)
    def cos(self, x): return alg.cos(x)
    def sqrt(self, x): return x.sqrt()
    def atan2(self, y, x): return alg.atan2(y, x)
    def at(self, v, i, j=None): return v[i, 0] if j is None else v[i, j]
    def T(self, v): return v.T
    def dot(self, a, b): return alg.dot(list(a), list(b))
    def solve(self, A, b): return texts.solve(A, b)
    def inv(self, A): return texts.solve(A, alg.eye(self.R, A.shape[0]))
    def mat(self, rows): return Mat([r if isinstance(r, list) else [r] for r in rows]).map(self.num)

# ------------------------------------------------------------------ models
def mixed(e, vectors=True):
    """scalar and vector states together; every kind of quantity"""
    x = e.state("x", (), 1.5); v = e.state("v", (3,), [1.0, 2.0, 4.0]); z = e.state("z", (), -0.5)
    u = e.input("u"); w = e.input("w", (2,))
    p = e.param("p", 1.5); k = e.param("k", -0.25)
    a = e.let("a", e.sin(x) * u + p)
    if vectors:
        pv = e.param("pv", [1.5, -2.0, 3.25]); pm = e.param("pm", [[1.5, 2.0, 3.0], [4.0, -5.0, 6.5], [7.0, 8.0, 10.0]])
        b = e.let("b", pm * v + pv * a, (3,))
        e.der(v, b + pv * e.at(w, 1))
        e.sensor("tv", b * a + pv, (3,)); e.sensor("mm", pm * x, (3, 3)); e.visual("vs", pv * x + v, (3,))
    else:
        b = e.let("b", e.mat([e.at(v, 1) * a, e.at(v, 2) * k, e.at(v, 0) + p]), (3,))
        e.der(v, b * e.at(w, 1))
        e.sensor("tv", b * a + v, (3,)); e.sensor("mm", e.mat([[x, a], [z, k]]), (2, 2)); e.visual("vs", v * x * p, (3,))
    e.der(x, z * a + k); e.der(z, x + e.at(w, 0))
    e.sensor("s", -a)

def scalars(e):
    """scalar states, defined in another order than they are stacked in; sensors and drawings that use some of them"""
    z = e.state("z", (), 3.0); c = e.state("c", (), -1.0); a = e.state("a", (), 2.5); b = e.state("b")
    p = e.param("p", 2.25); u = e.input("u")
    h = e.let("h", e.cos(b) * z + u)
    e.der(a, h * p); e.der(z, a + u * c); e.der(b, z - c); e.der(c, h * h - b)
    e.sensor("sz", z * p); e.sensor("sc", c + b); e.sensor("sh", h)
    e.visual("vb", e.mat([b, z, 0.0]), (3,))

def later(e):
    """sensors that only use states stacked behind others"""
    q = e.state("q", (3,), [1.0, 0.5, 0.25]); r = e.state("r", (3,)); s = e.state("s", (2,), [4.0, 8.0]); t0 = e.state("t0", (), 0.75)
    p = e.param("p", 0.5)
    e.der(q, r * p); e.der(r, q * t0); e.der(s, e.mat([e.at(q, 2), e.at(r, 1)])); e.der(t0, e.at(s, 1) + e.at(s, 0) * p)
    e.sensor("only", r * p, (3,)); e.sensor("last", e.at(s, 1) * t0); e.visual("vis", e.mat([e.at(s, 0), e.at(r, 2), 1.0]), (3,))

def lone(e):
    """a rate only: the sensor leaves the first state out"""
    q = e.state("q", (), 0.25); qd = e.state("qd", (), 2.0); m = e.param("m", 2.5)
    e.der(q, qd); e.der(qd, e.sin(q) * m)
    e.sensor("v", e.mat([qd, 0.0, qd * m]), (3,))

def moved(e):
    """equations of motion with a mass matrix"""
    q = e.state("q", (2,), [0.5, -0.5]); qd = e.state("qd", (2,)); u = e.input("u")
    m = e.param("m", 2.0); l = e.param("l", 1.5)
    c = e.let("c", e.cos(e.at(q, 1)))
    M = e.let("M", e.mat([[m * l * l + 2, m * l * c], [m * l * c, m]]), (2, 2))
    f = e.let("f", e.mat([u - e.sin(e.at(q, 0)) * m, e.at(qd, 0) * e.at(qd, 1)]), (2,))
    qdd = e.let("qdd", e.solve(M, f), (2,))
    e.der(q, qd); e.der(qd, qdd)
    e.sensor("acc", qdd, (2,)); e.sensor("E", e.at(qd, 0) * e.at(qd, 0) * m * c)

def systems_of_two_sizes(e):
    """two systems of equations of different size, neither the size of the last state"""
    q = e.state("q", (2,)); x = e.state("x"); w = e.state("w", (3,))
    p = e.param("p", 1.5)
    A = e.let("A", e.mat([[p + 1, e.at(q, 0)], [e.at(q, 1), 3.0]]), (2, 2))
    B = e.let("B", e.mat([[2.0, x, 0.0], [x, 5.0, p], [0.0, p, 7.0]]), (3, 3))
    a = e.let("a", e.solve(A, q), (2,))
    b = e.let("b", e.solve(B, w), (3,))
    e.der(q, a * x); e.der(w, b); e.der(x, e.at(b, 2) + e.at(a, 1))
    e.sensor("sb", b, (3,)); e.sensor("sa", a, (2,))

def unused(e):
    """a state nothing depends on, and one that does not depend on anything"""
    x = e.state("x", (), 1.0); y1 = e.state("y1", (2,), [1.0, 2.0]); n = e.state("n"); k = e.param("k", 1.25)
    e.der(x, k); e.der(y1, e.mat([e.at(y1, 1), -e.at(y1, 0)])); e.der(n, e.sin(x))
    e.sensor("sn", n * k)

def timed(e):
    """time itself"""
    x = e.state("x", (), 1.0); v = e.state("v", (2,)); A = e.param("Am", 2.0); om = e.param("om", 1.0)
    f = e.let("f", e.sin(e.time) * A)
    e.der(x, f * x + om); e.der(v, e.mat([f, e.time * e.at(v, 0)]))
    e.sensor("sf", f + x); e.sensor("st", v * e.time, (2,))

def products(e, named=True):
    """products of matrices, transposes, scalar products, inverse"""
    q = e.state("q", (3,)); s = e.state("s")
    P = [[1.0, 2.0, 0.5], [0.25, 1.0, -1.0], [3.0, 0.0, 2.0]]; k = [1.0, -2.0, 0.5]
    P, k = (e.param("P", P), e.param("k", k)) if named else (e.mat(P), e.mat(k))
    N = e.let("N", P * e.T(P) * s, (3, 3))
    c = e.let("c", e.dot(q, k))
    e.der(q, N * q - e.T(P) * (q * c)); e.der(s, c + e.dot(k, P * q))
    I = e.let("I", e.inv(e.mat([[2.0, s, 0.0], [s, 3.0, 0.0], [0.0, 0.0, 4.0]])) if named else N * s, (3, 3))
    e.sensor("sI", I * q, (3,)); e.sensor("sN", N + I, (3, 3)); e.sensor("outer", q * e.T(k), (3, 3))

def consts(e):
    """named constants"""
    x = e.state("x"); c = e.const("c", 2.75); d = e.const("d", -0.125); p = e.param("p", 4.0)
    e.der(x, x * c + d * p); e.sensor("s", c * x - p); e.visual("vv", e.mat([x * d, c, 0.0]), (3,))

def vector_consts(e):
    x = e.state("x"); v = e.state("v", (3,)); c = e.const("c", [1.0, 2.0, -3.0])
    e.der(x, e.at(c, 1) * x); e.der(v, c * x); e.sensor("sv", c + v, (3,)); e.visual("vv", c * x, (3,))

def numbers(e):
    """numbers of every size, to the fifteen digits that are written"""
    x = e.state("x", (), 0.1); v = e.state("v", (2,), [1e-7, 123456.789])
    a = e.param("a", 1234567.25); b = e.param("b", 1e-5); c = e.param("c", 6.67384e-11); d = e.param("d", 1e20); f = e.param("f", -0.001953125)
    k = e.const("k", 0.333333333333333); l = e.const("l", 299792458.0)
    e.der(x, x * 0.1 + k * a - 1e-9); e.der(v, v * 100000.5 * b + v * d)
    e.sensor("s", c * d * x + 2.5e-3 - l); e.sensor("t", f * e.at(v, 1) + 0.707106781186548 * x)

def many(n):
    """that many states of each shape"""
    def model(e):
        names = ["x%d" % i for i in range(n)]
        xs = [e.state(s, (), 0.5 + i) for i, s in enumerate(names)]
        vs = [e.state("v%d" % i, (2 + i % 2,)) for i in range(3)]
        p = e.param("p", 0.75)
        for i, x in enumerate(xs): e.der(x, xs[(i + 1) % n] * p + i)
        for i, v in enumerate(vs): e.der(v, v * xs[i])
        for i in (1, n - 1): e.sensor("s%d" % i, xs[i] * 2 - p)
        e.sensor("sv", vs[2] * p, (2,)); e.visual("vis", vs[1] * xs[0], (3,))
    return model

def functions(e):
    """elementary functions and powers"""
    x = e.state("x"); y1 = e.state("y1"); p = e.param("p", 1.5)
    e.der(x, e.atan2(y1, x) + e.sqrt(x * x + p)); e.der(y1, x ** 3 - y1 ** 2 / p + x ** -2)
    e.sensor("s", e.cos(x + y1) * e.sin(x - y1)); e.sensor("r", (x + 1) / (y1 - 2) + x / 2)

def forwarded(e):
    """quantities that are nothing but another one"""
    q = e.state("q", (2,), [0.5, 1.0]); x = e.state("x"); u = e.input("u"); w = e.input("w", (2,)); p = e.param("p", 1.5)
    e.der(q, w); e.der(x, u)
    e.sensor("sq", q, (2,)); e.sensor("sx", x); e.sensor("sp", p * 1); e.sensor("su", u); e.visual("vx", e.mat([x, p, 0.0]), (3,))

def fed(e):
    """inputs of every shape, some for the sensors only, defined in another order than they are listed in"""
    w = e.input("w", (2,)); K = e.input("K", (2, 2)); u2 = e.input("u2"); u1 = e.input("u1"); only = e.input("only"); late = e.input("late", (3,))
    q = e.state("q", (2,), [0.25, 2.0]); x = e.state("x", (), 1.25); p = e.param("p", 1.75)
    e.der(q, K * w - q * u1); e.der(x, u2 * p + e.at(w, 1) * u1)
    e.sensor("sk", K * q, (2,)); e.sensor("so", only * u2 - x); e.sensor("sl", late * x, (3,)); e.sensor("m", e.mat([[u1, only], [x, u2]]), (2, 2)); e.visual("vv", e.mat([x, e.at(q, 1), p]), (3,))

def controlled(e):
    """two controllers of the time, the states and the sensors"""
    q = e.state("q", (2,), [0.5, 1.0]); x = e.state("x", (), 0.25); u = e.input("u")
    e.sensor("s1", x * u - e.at(q, 0)); e.sensor("v", q * x, (2,)); e.sensor("other", e.sin(x))
    C = e.controller("C", "hold"); D = e.controller("D", "follow"); P = e.controller("P", "scaled", (2,)); k = e.param("k", 1.5)
    e.der(q, q * C + P); e.der(x, k * D - C * x + e.at(P, 1) + e.time)

# ------------------------------------------------------------------ running
def elements(name, shape):
    """names of the elements of a state"""
    if shape == (): return [name]
    return ["%s_%s" % (name, "_".join(map(str, ix))) for ix in itertools.product(*[range(n) for n in shape])]

class Text:
    """one model in one language"""
    def __init__(self, lang, R, names, inputs, path):
        self.lang, self.R, self.names, self.inputs, self.path = lang, R, names, inputs, path
    def file(self, n):
        p = os.path.join(self.path, n)
        if not os.path.exists(p): raise Wrong("%s is not written" % n)
        return open(p, encoding="latin-1").read()
    def as_c(self, v):
        if isinstance(v, Mat):
            return [x[0] for x in v.a] if v.shape[1] == 1 else [list(r) for r in v.a]
        return v
    def run(self, what, y):
        """what: der_state, sensors, visual; y: values of the state vector. Returns (variables, results by name or list)"""
        R, L, ins = self.R, self.lang, self.inputs
        t = R.V("time")
        if L == "py":
            P = texts.Python(R, {w: self.file("mod_%s.py" % w) for w in ("der_state", "sensors", "visual") if w == what or w == "sensors" and os.path.exists(self.file_name("mod_sensors.py"))})
            args = [("y", list(y))] if what == "visual" else [("time", t), ("y", list(y))]
            return P.function(what, "mod_" + what, args, {k: texts.PyMat(v.a) if isinstance(v, Mat) else v for k, v in ins.items()})
        if L == "c":
            yd = [R.C(0)] * len(y)
            args = {"y": list(y), "time": t, "yd": yd}
            args.update({k: self.as_c(v) for k, v in ins.items()})
            env, outs = texts.c_function(R, self.file("mod_%s.c" % what), "mod_" + what, args)
            if what == "der_state": return env, yd
            return env, {n: self.c_out(outs, n) for n in self.names["sensor" if what == "sensors" else "visual"]}
        if L == "cw":
            W = Wrapper(R, self)
            got = W.call(what, t, numpy.array(list(y), dtype=object), {k: array(v) for k, v in ins.items()})
            env = W.envs[what]
            if what == "der_state": return env, list(got.flatten())
            for n, v in got.items():
                if not isinstance(v, numpy.ndarray): raise Wrong("%s is no array" % n)
            return env, {n: [x for x in v.flatten()] for n, v in got.items()}
        if L == "m":
            col = Mat([[x] for x in y])
            fn = dict(__inputs=ins)
            return texts.m_function(R, self.file("mod_%s.m" % what), "mod_" + what, {"time": t, "y": col}, fn)
        if L == "f":
            args = {"time": t, "y": Mat([[x] for x in y])}; args.update(ins)
            env, outs = texts.f_function(R, self.file("mod_%s.f90" % what), "mod_" + what, args)
            if what == "der_state": return env, env.get("yd")
            for n in self.names["sensor" if what == "sensors" else "visual"]:
                if n.lower() not in outs: raise Wrong("%s is no output" % n)
            return env, {n: env[n.lower()] for n in self.names["sensor" if what == "sensors" else "visual"]}
    def file_name(self, n): return os.path.join(self.path, n)
    def c_out(self, outs, n):
        if n in outs:
            v = outs[n]
        else:
            c = [k for k in outs if re.search(r"(^|_)%s(_|$)" % re.escape(n), k)]
            if len(c) != 1: raise Wrong("no argument for %s" % n)
            v = outs[c[0]]
        if isinstance(v, Wrong): raise v
        return v

def array(v):
    """a value as the array a caller hands over"""
    if not isinstance(v, Mat): return v
    a = numpy.empty((v.shape[0],) if v.shape[1] == 1 else v.shape, dtype=object)
    for i in range(v.shape[0]):
        for j in range(v.shape[1]): a[(i,) if a.ndim == 1 else (i, j)] = v[i, j]
    return a

CALLS = {"der_state": "ode_int", "sensors": "graphSensors", "visual": "graphVisualSensors"}
class Wrapper:
    """the Python module that calls the C functions: executed as it is, with arrays of exact values, numpy and ctypes replaced by
    what they do with such arrays, and the C functions by their symbolic execution"""
    def __init__(self, R, T):
        self.R, self.T, self.envs, self.modules = R, T, {}, {}
    def module(self, name):
        if name in self.modules: return self.modules[name]
        import builtins
        def load(n, g=None, l=None, names=(), level=0):
            if n == "numpy": return Numpy(self)
            if n == "ctypes": return types.SimpleNamespace(c_double="double")
            if n.startswith("mod_"): return types.SimpleNamespace(**self.module(n))
            return __import__(n, g, l, names, level)
        ns = {"__builtins__": dict(vars(builtins), __import__=load), "__name__": name}
        code = self.T.file(name + ".py")
        try: exec(compile(code, name, "exec"), ns)
        except SyntaxError as e: raise Wrong("%s.py: %s" % (name, e))
        self.modules[name] = ns
        return ns
    def call(self, what, t, y, ins):
        ns = self.module("mod_%s_CWrapper" % what)
        try:
            if ins and "setInputs" in ns: ns["setInputs"](ins)
            return ns[CALLS[what]](y) if what == "visual" else ns[CALLS[what]](t, y)
        except (TypeError, ValueError, KeyError, IndexError, AttributeError, NameError) as e:
            raise Wrong("%s.py: %s: %s" % ("mod_%s_CWrapper" % what, type(e).__name__, e))

class Numpy:
    def __init__(self, W):
        self.W = W
        self.matrix = None
        self.ctypeslib = types.SimpleNamespace(load_library=self.library, ndpointer=lambda dtype=None, ndim=None, **k: ("array", ndim))
    def zeros(self, shape):
        a = numpy.empty(shape, dtype=object); a.fill(self.W.R.C(0)); return a
    def empty(self, shape): return numpy.empty(shape, dtype=object)
    def array(self, v): return numpy.array(v, dtype=object)
    def library(self, name, path):
        m = re.match(r"mod_(\w+)\.\w+$", name)
        if not m or os.path.abspath(path) != os.path.abspath(self.W.T.path): raise Wrong("the library is looked for in %s/%s" % (path, name))
        lib = types.SimpleNamespace()
        setattr(lib, "mod_" + m.group(1), Foreign(self.W, m.group(1)))
        return lib

class Foreign:
    """a C function with the types of its arguments"""
    argtypes = None
    def __init__(self, W, what): self.W, self.what = W, what
    def __call__(self, *given):
        W, what = self.W, self.what
        text = W.T.file("mod_%s.c" % what)
        head = re.search(r"\bint\s+mod_%s\s*\((.*?)\)" % what, texts.without(text, r"/\*.*?\*/"), re.S)
        if not head: raise Wrong("no function mod_%s" % what)
        formal = [re.fullmatch(r"\s*double\s*(\*?)\s*(\w+)((?:\[\d+\])*)\s*", a) for a in head.group(1).split(",")]
        if self.argtypes is None or len(given) != len(self.argtypes) or len(formal) != len(given):
            raise Wrong("%d arguments for %d parameters of mod_%s" % (len(given), len(formal), what))
        args, back = {}, []
        for v, ty, f in zip(given, self.argtypes, formal):
            n, dims = f.group(2), [int(x) for x in re.findall(r"\[(\d+)\]", f.group(3))]
            if ty == "double":
                if isinstance(v, numpy.ndarray):
                    if v.size != 1: raise Wrong("an array of %s for the number %s" % (v.shape, n))
                    v = v.flatten()[0]
                if f.group(1) or dims: raise Wrong("a number for the array %s" % n)
                args[n] = v; continue
            if not isinstance(v, numpy.ndarray): raise Wrong("no array for %s" % n)
            if ty[1] is not None and v.ndim != ty[1]: raise Wrong("an array of %d dimensions for %s, declared %d" % (v.ndim, n, ty[1]))
            if not f.group(1) and not dims: raise Wrong("an array for the number %s" % n)
            items = list(v.flatten())
            size = int(numpy.prod(dims)) if dims else None
            if size is not None and len(items) < size: raise Wrong("%d values for %s" % (len(items), n))
            if size is None: args[n] = items; back.append((v, items))
            else:
                def nest(d, vals):
                    if len(d) == 1: return list(vals)
                    k = len(vals) // d[0]
                    return [nest(d[1:], vals[i * k:(i + 1) * k]) for i in range(d[0])]
                args[n] = nest(dims, items[:size]); back.append((v, args[n]))
        env, outs = texts.c_function(W.R, text, "mod_" + what, args)
        W.envs[what] = env
        def down(x): return [z for e in x for z in down(e)] if isinstance(x, list) else [x]
        for v, held in back:
            vals = down(held)
            for ix, z in zip(numpy.ndindex(*v.shape), vals): v[ix] = z

def compile_native(lang, path, what):
    if lang in ("c", "cw"):
        so = os.path.join(path, ("mod_" if lang == "cw" else "") + what + ".so")
        p = subprocess.run(["gcc", "-O0", "-shared", "-fPIC", "-w", "-D__declspec(x)=", "-o", so, os.path.join(path, "mod_%s.c" % what), "-lm"], capture_output=True, text=True, cwd=path)
    else:
        so = os.path.join(path, what + ".so")
        p = subprocess.run(["gfortran", "-O0", "-shared", "-fPIC", "-w", "-ffree-line-length-none", "-o", so, "functionmodule.f90", "mod_%s.f90" % what], capture_output=True, text=True, cwd=path)
    if p.returncode: raise Wrong("does not compile: " + p.stderr[:300])
    return ctypes.CDLL(so)

class Native:
    """the written program run by its own language (Python, C, Fortran) on numbers"""
    def __init__(self, T): self.T = T
    def shape(self, n):
        return self.T.shapes[n]
    def run(self, what, y, pt):
        T, L = self.T, self.T.lang
        t = pt.name("time")
        num = {k: pt.value(v) for k, v in T.inputs.items()}
        names = T.names["sensor" if what == "sensors" else "visual"]
        if L == "py":
            code = open(os.path.join(T.path, "mod_%s.py" % what)).read()
            ns = {}
            try:
                if what == "der_state" and os.path.exists(T.file_name("mod_sensors.py")):
                    so = {}; exec(compile(open(T.file_name("mod_sensors.py")).read(), "<written>", "exec"), so)
                    if num and "mod_setInputs" in so: so["mod_setInputs"](num)
                    code = re.sub(r"^from mod_sensors import.*$", "", code, flags=re.M); ns["mod_sensors"] = so["mod_sensors"]
                exec(compile(code, "<written>", "exec"), ns)
                if num: ns["mod_setInputs"](num) if "mod_setInputs" in ns else None
                if what == "visual": return ns["mod_visual"](numpy.array(y))
                return ns["mod_" + what](t, numpy.array(y))
            except Exception as e:
                raise Wrong("%s: %s" % (type(e).__name__, e))
        so = compile_native(L, T.path, what)
        if L == "cw":
            if os.path.exists(T.file_name("mod_sensors.c")) and what == "der_state": compile_native(L, T.path, "sensors")
            name = "mod_%s_CWrapper" % what
            code = "import sys, pickle; sys.path.insert(0, %r); import %s as W; t, y, ins = pickle.loads(%r)\n" % (T.path, name, pickle.dumps((t, numpy.array(y, dtype=float), {k: numpy.array(v, dtype=float).squeeze() if numpy.ndim(v) else float(v) for k, v in num.items()})))
            code += "if ins and hasattr(W, 'setInputs'): W.setInputs(ins)\nr = W.%s\nimport json; print('RES' + json.dumps({k: v.flatten().tolist() for k, v in r.items()} if isinstance(r, dict) else r.tolist()))" % (CALLS[what] + ("(y)" if what == "visual" else "(t, y)"))
            p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=60)
            m = re.search(r"^RES(.*)$", p.stdout, re.M)
            if not m: raise Wrong("%s.py: %s" % (name, p.stderr.strip().split("\n")[-1][:200]))
            return json.loads(m.group(1))
        fn = getattr(so, "mod_" + what + ("_" if L == "f" else ""))
        text = T.file("mod_%s.%s" % (what, "c" if L == "c" else "f90"))
        head = re.search(r"mod_%s\s*\((.*?)\)" % what, re.sub(r"&[ \t]*\n", "", text), re.S).group(1)
        order = [re.sub(r"\[.*", "", a).replace("double", "").replace("*", "").strip() for a in head.split(",")]
        star = {re.sub(r"\[.*", "", a).replace("double", "").replace("*", "").strip() for a in head.split(",") if "*" in a}
        D = ctypes.c_double
        hold, outs, args = [], {}, []
        for a in order:
            if a in ("time", "y"): v = numpy.array([t] if a == "time" else y, dtype=float)
            elif a in num: v = numpy.asarray(num[a], dtype=float).flatten("F" if L == "f" else "C")
            else:
                n = a if a in names or a == "yd" else ([x for x in names if x.lower() == a.lower()] or [x for x in names if re.search(r"(^|_)%s(_|$)" % re.escape(x), a)] or [a])[0]
                size = len(y) if n == "yd" else int(numpy.prod(self.shape(n) or (1,)))
                v = numpy.full(size, 1234.5); outs[n] = v
            v = numpy.ascontiguousarray(v); hold.append(v)
            if a in outs or any(v is o for o in outs.values()): pass
            byval = L == "c" and a not in star and (a == "time" or (a in num and numpy.size(num[a]) == 1 and not numpy.ndim(num[a])) or (a not in num and a not in ("y", "yd") and self.shape(a if a in names else "") == ()))
            args.append(D(float(v[0])) if byval else v.ctypes.data_as(ctypes.POINTER(D)))
        fn(*args)
        if what == "der_state": return outs["yd"]
        res = {}
        for n in names:
            s = self.shape(n) or (1,)
            v = outs[n]
            res[n] = v.reshape(s if len(s) == 2 else (s[0], 1), order="F" if L == "f" else "C")
        return res

def graph_model(name):
    f = eval(name, dict(globals()))
    lib = Lib(); f(lib)
    ref = Ref(); f(ref)
    def write(lang, path):
        lib.g.buildGraph(True)
        lib.g.writeCode(KIND[lang], "mod", path, **KEYS.get(lang, {}))
    return lib.names, ref, write

def mbs_model(mode, spec_text, gravity):
    """the reference are the equations the generator made (the M properties speak about those)"""
    import systems
    from model import Library
    from run import Run
    values = {}
    class L(Library):
        def param(self, name, value=1.5, **k):
            n = len(values)
            def num(): values[len(values)] = 1; return round(0.5 + 0.25 * (len(values) % 7) + 0.125 * (len(values) % 3), 4)
            v = [num() for _ in value] if isinstance(value, (list, tuple)) else num()
            self.given[name] = v
            Library.param(self, name, v, **k)
        def controller(self, name, function, *shape):
            import regulators
            self.ns[name] = self.w.addController(name, getattr(regulators, function), *shape); self.controllers.append((name, function))
        def joint(self, name, cs1, cs2, dofs, start=None, start_d=None):
            Library.joint(self, name, cs1, cs2, dofs, start, start_d)
            for pre, vals in (("q_", start), ("qd_", start_d)):
                for i, d in enumerate([dofs] if isinstance(dofs, str) else dofs or []):
                    v = 0 if vals is None else vals[i] if isinstance(vals, (list, tuple)) else vals
                    self.starts[pre + name + "_" + d] = v
    spec = eval(spec_text, dict(vars(systems)))
    lib = L.__new__(L); lib.given = {}; lib.starts = {}; lib.controllers = []
    L.__init__(lib, gravity)
    spec(lib); lib.generate(mode)
    from pymbs.symbolics import VarKind
    ref = Ref(); R = ref.R
    free = {"time": R.V("time")}
    for p, v in lib.w.paramDict.items(): free[str(p)] = R.C(Fraction(repr(float(v))))
    names = {"state": [], "sensor": [], "visual": [], "input": []}
    for v in lib.w.graph.getVariables(VarKind.Input):
        x = ref.input(str(v), tuple(n for n in v.shape() if n != 1) if v.shape() else ()); free[str(v)] = x; names["input"].append(str(v))
    r = Run(R, free, ("q", "qd"))
    r.declared = {"q": [str(x) for x in lib.w.state.q], "qd": [str(x) for x in lib.w.state.qd]}
    r.solve = lambda A, b: texts.solve(A, b)
    pairs = []
    for k in (VarKind.Der_State, VarKind.Sensor, VarKind.Graphics): pairs.append([(str(a.lhs), str(a.rhs)) for a in lib.w.graph.cgraph.getAssignments(k)])
    if lib.controllers:                                  # of the sensors
        r.all(pairs[1])
        for v in lib.w.graph.getVariables(VarKind.Sensor): ref.sensors[str(v)] = r.env[str(v)]
        for s in ("q", "qd"):
            if s not in r.layout: r.bind(s, r.declared[s], len(r.declared[s]) > 1)
            ref.states[s] = r.env[s]
        for n, f in lib.controllers: r.env[n] = free[n] = ref.regulate(f)
        ref.sensors.clear(); ref.states.clear()
    r.all(pairs[0]); r.all(pairs[1]); r.all(pairs[2])
    for s in ("q", "qd"):
        if s not in r.layout: r.bind(s, r.declared[s], len(r.declared[s]) > 1)
        ref.states[s] = r.env[s]; ref.ders[s] = r.env["der_" + s]; names["state"].append(s)
    for k, key, d in ((VarKind.Sensor, "sensor", ref.sensors), (VarKind.Graphics, "visual", ref.visuals)):
        for v in lib.w.graph.getVariables(k):
            if str(v) in r.env: names[key].append(str(v)); d[str(v)] = r.env[str(v)]
    for s in ("q", "qd"):
        v = [[R.C(Fraction(repr(float(lib.starts[n]))))] for n in r.layout[s]]
        ref.start[s] = Mat(v) if r.vector[s] else v[0][0]
    def write(lang, path):
        with contextlib.redirect_stdout(io.StringIO()):
            lib.w.graph.writeCode(KIND[lang], "mod", path, **KEYS.get(lang, {}))
    return names, ref, write

def shape_of(v):
    if not isinstance(v, Mat): return ()
    return (v.shape[0],) if v.shape[1] == 1 else v.shape

def written(arg, out):
    """arg: [lang, kind, name, ...]"""
    from decide import Decider
    from jobs import Failed
    lang, kind = arg[:2]
    if kind == "graph": make = lambda: graph_model(arg[2])
    else: make = lambda: mbs_model(arg[2], arg[3], [0, -1, 0])
    shown = " ".join(map(str, arg))
    import vbuild
    base = os.path.join(vbuild.BUILD, "written"); os.makedirs(base, exist_ok=True)
    path = tempfile.mkdtemp(dir=base)
    try:
        judge(make, lang, shown, path, out)
    finally:
        shutil.rmtree(path, ignore_errors=True)

def judge(make, lang, shown, path, out):
    from decide import Decider
    from jobs import Failed
    from numeric import Point, differ
    try:
        names, ref, write = make()
    except Unsupported: raise
    try: write(lang, path)
    except Exception as e:
        raise Failed("%s: writing fails: %s: %s" % (shown, type(e).__name__, str(e)[:200]), "".join(traceback.format_exception(type(e), e, e.__traceback__)))
    R = ref.R; dec = Decider(R)
    T = Text(lang, R, names, ref.inputs, path)
    T.shapes = {n: shape_of(v) for d in (ref.sensors, ref.visuals) for n, v in d.items()}
    T.shapes[""] = None
    want = {"sensors": ref.sensors, "visual": ref.visuals}
    bad, checked, samples = [], 0, []
    N = sum(len(flat(v)) for v in ref.states.values())
    def same(what, label, got, exp):
        """element by element, row by row"""
        nonlocal checked
        g, x = flat(got), flat(exp)
        if isinstance(got, Mat) and isinstance(exp, Mat) and got.shape != exp.shape: bad.append((what, label, "shape %s, should be %s" % (got.shape, exp.shape))); return
        if len(g) != len(x): bad.append((what, label, "%d values, should be %d" % (len(g), len(x)))); return
        for i, (a, b) in enumerate(zip(g, x)):
            checked += 1
            p = dec.differ(a, b)
            if p == "undecided": out["undecided"].append("%s: %s[%d]" % (shown, label, i))
            elif p is not None: bad.append((what, "%s[%d]" % (label, i), p)); return
    place = None
    try:
        if lang == "mo":
            free = dict(ref.states); free.update(ref.inputs); free["time"] = R.V("time")
            env, start = texts.mo_model(R, T.file("mod.mo"), "mod", free)
            for n, v in ref.ders.items(): same("model", "der(%s)" % n, env["der(%s)" % n], v)
            for d in (ref.sensors, ref.visuals):
                for n, v in d.items(): same("model", n, env[n], v)
            for n, v in ref.start.items():
                if v is not None:
                    if n not in start: bad.append(("model", "start of " + n, "none"))
                    else: same("model", "start of " + n, start[n], v)
        elif lang == "ms":
            free = dict(ref.states); free.update(ref.inputs); free["time"] = R.V("time")
            text = T.file("mod_der_state_symbolic.m")
            env, yd = texts.ms_function(R, text, "mod_der_state_symbolic", free)
            last = re.findall(r"\byd\s*=\s*\[([^\]]*)\]", text)
            order = [x.strip()[4:] for x in last[-1].split(";")] if last else []
            if sorted(order) != sorted(ref.states): raise Wrong("the derivatives are those of %s" % order)
            for s, v in ref.ders.items(): same("model", "der_" + s, env["der_" + s], v)
            same("model", "yd", yd, Mat([[x] for s in order for x in flat(ref.ders[s])]))
            if ref.sensors:
                env, S = texts.ms_function(R, T.file("mod_sensors_symbolic.m"), "mod_sensors_symbolic", free)
                for n, v in ref.sensors.items():
                    if n not in S: bad.append(("sensors", n, "is not returned"))
                    else: same("sensors", n, S[n], v)
        else:
            ys = [R.V("y__%d" % i) for i in range(N)]
            env, _ = T.run("der_state", ys)
            place = {}
            for s, v in ref.states.items():              # where this function looks for the states
                n = s.lower() if lang == "f" else s
                if n not in env: raise Wrong("the state %s is not taken from y" % s)
                for nm, x in zip(flat(v), flat(env[n])):
                    k = [i for i, y in enumerate(ys) if isinstance(x, Rat) and (x - y).num.zero()]
                    if len(k) != 1: raise Wrong("an element of %s is not an element of y" % s)
                    place[R.names[nm.num.vars()[0]]] = k[0]
                if len(flat(env[n])) != len(flat(v)): raise Wrong("%s has %d elements" % (s, len(flat(env[n]))))
            if sorted(place.values()) != list(range(N)): raise Wrong("the states overlap in y: %s" % place)
            y = [None] * N
            for s, v in ref.states.items():
                for nm in flat(v): y[place[R.names[nm.num.vars()[0]]]] = nm
            env, yd = T.run("der_state", y)
            yd = flat(yd)
            if len(yd) != N: raise Wrong("%d derivatives for %d states" % (len(yd), N))
            exp = [None] * N
            for s, v in ref.states.items():
                for nm, d in zip(flat(v), flat(ref.ders[s])): exp[place[R.names[nm.num.vars()[0]]]] = d
            same("der_state", "derivative of the state vector", yd, exp)
            for what, d in want.items():
                if not d or (what == "visual" and lang == "m"): continue
                env, got = T.run(what, y)
                for n, v in d.items():
                    if n not in got: bad.append((what, n, "is not returned"))
                    else: same(what, n, got[n], v)
            if lang == "m" and all(v is not None for v in ref.start.values()):
                sim = T.file("mod_sim.m")
                pieces = dict(re.findall(r"^[ \t]*(\w+)[ \t]*=[ \t]*(.*);[ \t]*(?:%.*)?$", sim, re.M))
                E = texts.Eval(R, "m", {})
                for n in list(ref.states):
                    if n + "0" in pieces: E.set(n + "0", E.text(pieces[n + "0"]))
                y0 = flat(E.text(pieces["y0"]))
                exp = [None] * N
                for s, v in ref.states.items():
                    for nm, d in zip(flat(v), flat(ref.start[s])): exp[place[R.names[nm.num.vars()[0]]]] = d
                same("sim", "initial state vector", y0, exp)
    except Wrong as e:
        bad.append((None, "text", str(e)))
    out["checked"] += checked; out["queries"] += dec.queries; out["solver_s"] += dec.seconds
    out["samples"].append("%s: %d results, states at %s" % (shown, checked, place))
    reported = set()
    for what, label, p in bad:
        if what in reported: continue
        reported.add(what)
        msg = "%s: %s: %s" % (shown, label, p if isinstance(p, str) else "differs")
        extra = ""
        if lang in ("py", "c", "f", "cw"):
            extra = native(T, ref, place, p if isinstance(p, dict) else None, N)
            if extra is None: out["unreproduced"].append(msg); continue
        elif isinstance(p, dict):
            extra = "at " + ", ".join("%s=%.4g" % kv for kv in sorted(p.items()))
        out["found"].append((msg[:300], "%s\n%s" % (msg, extra)))

def native(T, ref, place, point, N):
    """the same disagreement in the language itself: text, or None"""
    from numeric import Point, differ
    R = ref.R
    if place is None or sorted(place.values()) != list(range(N)):
        # any consistent placement would do: states in the order of their shape and name, as y is described
        order = sorted(ref.states, key=lambda s: (len(flat(ref.states[s])), s)); place = {}; k = 0
        for s in order:
            for nm in flat(ref.states[s]): place[R.names[nm.num.vars()[0]]] = k; k += 1
    for seed in range(4):
        pt = Point(R, point if seed == 0 else None, seed)
        y = [0.0] * N; exp = [0.0] * N
        try:
            for s, v in ref.states.items():
                for nm, d in zip(flat(v), flat(ref.ders[s])):
                    n = R.names[nm.num.vars()[0]]
                    y[place[n]] = pt.name(n); exp[place[n]] = pt.rat(d)
            W = Native(T)
            got = W.run("der_state", y, pt)
            if differ(numpy.asarray(got).flatten(), exp): return "y = %s gives yd = %s, should be %s" % (y, list(numpy.asarray(got).flatten()), exp)
            for what, d in (("sensors", ref.sensors), ("visual", ref.visuals)):
                if not d: continue
                got = W.run(what, y, pt)
                for n, v in d.items():
                    e = pt.value(v)
                    if n not in got or differ(numpy.asarray(got[n]).flatten(), numpy.asarray(e).flatten()): return "y = %s gives %s = %s, should be %s" % (y, n, got.get(n), e)
        except Wrong as e: return "fails: " + str(e)
        except ArithmeticError: continue
    return None
