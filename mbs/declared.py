"""What the user declares: degrees of freedom and their start values, parameters, inputs, expressions and sensors, and names."""
import contextlib, io, os, re, shutil, tempfile, traceback
import alg
from alg import Mat, Rat

class Declared:
    """forwards a description and keeps the declarations"""
    def __init__(self, lib):
        self.lib, self.start, self.kinds = lib, {}, {"Parameter": {"g": ()}, "Input": {}, "User_Exp": {}, "Sensor": {}, "Graphics": {}}
        self.defaults = {"g": 9.81}; self.exprs = []; self.lists = {}
        self.names = {"Body": [], "Joint": [], "Sensor": [], "Load": []}
    def __getattr__(self, n):
        return getattr(self.lib, n)
    def param(self, name, value=1.5, **k):
        getattr(self.lib, "param")(name, value, **k)
        if isinstance(value, (list, tuple)):
            self.lists[name] = len(value)
            for a, v in zip("xyz" if len(value) == 3 else ("xx", "xy", "yy", "xz", "yz", "zz"), value): self.kinds["Parameter"]["%s_%s" % (name, a)] = (); self.defaults["%s_%s" % (name, a)] = v
        else: self.kinds["Parameter"][name] = (); self.defaults[name] = value
    def formula(self, name, text):
        self.lib.ns[name] = self.lib.w.addParam(name, self.lib.ev(text))
        self.kinds["Parameter"][name] = (); self.defaults[name] = text
    def input(self, name, shape=()):
        self.lib.input(name, shape); self.kinds["Input"][name] = shape
    def expr(self, name, e, category=None):
        from pymbs.symbolics import VarKind
        self.lib.expr(name, e, None if category is None else getattr(VarKind, category))
        self.exprs.append((name, e)); self.kinds[category or "User_Exp"][name] = tuple(self.lib.ns[name].shape())
    def body(self, name, *a, **k):
        self.lib.body(name, *a, **k); self.names["Body"].append(name)
    def joint(self, name, cs1, cs2, dofs, start=None, start_d=None, same=None):
        ev = lambda s: self.lib.ev(s) if isinstance(s, list) else s
        if same is None: self.lib.joint(name, cs1, cs2, dofs, ev(start), ev(start_d))
        else: self.lib.joints[name] = self.lib.w.addJoint(self.lib.cs[cs1], self.lib.cs[cs2], same, name=name, startVals=ev(start), startVals_d=ev(start_d))   # the user's own list
        self.names["Joint"].append(name)
        ds = [dofs] if isinstance(dofs, str) else dofs
        for x, pre in ((start, "q_"), (start_d, "qd_")):
            x = [0] * len(ds) if x is None else x if isinstance(x, list) else [x]
            for d, v in zip(ds, x): self.start["%s%s_%s" % (pre, name, d)] = v
    def sensor(self, kind, name, cs1, cs2, ref=None):
        self.lib.sensor(kind, name, cs1, cs2, ref)
        self.kinds["Sensor"][name] = {"Orientation": (3, 3), "Distance": (2,)}.get(kind, (3,)); self.names["Sensor"].append(name)
    def energy(self, name, body):
        self.lib.energy(name, body); self.kinds["Sensor"][name] = (); self.names["Sensor"].append(name)
    def joint_sensor(self, kind, name, joint, i=0):
        self.lib.joint_sensor(kind, name, joint, i); self.kinds["Sensor"][name] = (2,); self.names["Sensor"].append(name)
    def drawing(self, name, cs):
        self.lib.drawing(name, cs); self.kinds["Graphics"]["r_" + name] = (3,); self.kinds["Graphics"]["T_" + name] = (3, 3)
    def load(self, kind, value, cs1, cs2, ref=None, name=None):
        self.lib.load(kind, value, cs1, cs2, ref, name)
        if name: self.names["Load"].append(name)

# ------------------------------------------------------------------ descriptions
def bodies(m, *ns):
    for n in ns:
        m.param("m_" + n, 2.0); m.param("J_" + n, 0.5)
        m.body(n, "m_" + n, [0, 0, 0], [["J_" + n, 0, 0], [0, "J_" + n, 0], [0, 0, "J_" + n]])
def joints(spec, order=None, listed=False):
    """spec: (parent, body, degrees of freedom, how the start values are given); order: of declaration"""
    def f(m):
        for n in "s0 s1 s2 s3 s4 s5 s6 s7".split(): m.param(n, 0.25)
        names = [b for p, b, d, s in spec]
        bodies(m, *(names if order is None else [names[i] for i in order]))
        k = 0; shared = {}
        js = []
        for p, b, d, s in spec:
            n = 1 if isinstance(d, str) else len(d)
            if s == "symbols": v = ["s%d" % (k % 8), "2*s%d" % ((k + 1) % 8), "s%d+1" % ((k + 3) % 8)][:n] if False else ["s%d" % ((k + i) % 8) for i in range(n)]; w = ["s%d" % ((k + i + 4) % 8) for i in range(n)]
            elif s == "numbers": v = [0.5 + k + i for i in range(n)]; w = [-1.5 - k - i for i in range(n)]
            elif s == "mixed": v = ["s%d" % ((k + i) % 8) if i % 2 else 3 + k for i in range(n)]; w = None
            elif s == "velocity": v, w = None, ["s%d" % ((k + i) % 8) for i in range(n)]
            elif s == "single": v, w = 0.75 + k, 2 + k
            else: v = w = None
            k += n; js.append(("j_" + b, p, b, d, v, w))
        for j in (js if order is None else [js[i] for i in order]):
            same = shared.setdefault(str(j[3]), list(j[3])) if listed and not isinstance(j[3], str) else None
            m.joint(*j, same=same)
    return f
def quantities(rev=False):
    def f(m):
        bodies(m, "b")
        for t in [lambda: m.param("p", 2), lambda: m.param("pv", [1, 2.5, -3]), lambda: m.param("pJ", [1., 2, 3, 4, 5, 6]), lambda: m.param("pn", -0.001), lambda: m.param("pp", 4, positive=True), lambda: m.param("pm", -4, negative=True), lambda: m.param("p0", 0)][::-1 if rev else 1]: t()
        m.formula("pf", "2*p + pn*pp"); m.formula("pg", "sin(p) + pf"); m.formula("ph", "sqrt(p)*m_b")
        for t in [lambda: m.input("u"), lambda: m.input("w", (3,)), lambda: m.input("v2", (2,)), lambda: m.input("W", (2, 3)), lambda: m.input("X", (3, 3)), lambda: m.input("u2")][::-1 if rev else 1]: t()
        m.joint("j", "world", "b", ["Rz"], ["p"], ["pf"])
        m.lib.frame("b", "f", [1, 0, 0])
        m.expr("e1", "u*2 + w[1] + p"); m.expr("e2", "w*u", "Sensor"); m.expr("e3", "X*w", "Sensor"); m.expr("e4", "e1*u2 + W[1,2]", "Sensor"); m.expr("e5", "v2*pf", "Sensor"); m.expr("e6", "[u, u2, e1]", "Sensor"); m.expr("e7", "pv*u"); m.expr("e11", "pJ*w + e7", "Sensor")
        m.expr("e8", "W", "Sensor"); m.expr("e9", 2.5, "Sensor"); m.expr("e10", 3)
        m.sensor("Position", "sp", "b", "world"); m.sensor("Orientation", "so", "b", "world"); m.sensor("Distance", "sd", "b.f", "world"); m.energy("se", "b"); m.drawing("dr", "b")
        m.load("PtPForce", "u", "world", "b.f", None, "L1"); m.load("CmpForce", "w", "world", "b.f", None, "L2")
    return f

def values(m, R):
    """the declared symbols over free values"""
    env = {}
    for n in m.defaults:
        env[n] = R.V(n)
    for n, l in m.lists.items():
        x = lambda a: env["%s_%s" % (n, a)]
        env[n] = Mat([[x(a)] for a in "xyz"]) if l == 3 else Mat([[x("xx"), x("xy"), x("xz")], [x("xy"), x("yy"), x("yz")], [x("xz"), x("yz"), x("zz")]])
    for n, s in m.kinds["Input"].items():
        env[n] = R.V(n) if not s else Mat([[R.V("%s_%d" % (n, i))] for i in range(s[0])]) if len(s) == 1 else Mat([[R.V("%s_%d_%d" % (n, i, j)) for j in range(s[1])] for i in range(s[0])])
    return env

def declared(arg, out):
    from pymbs.symbolics import VarKind
    from model import Library
    from decide import Decider
    from run import Run
    from alg import Ring
    from jobs import Failed
    mode, text = arg
    spec = eval(text, dict(joints=joints, quantities=quantities))
    lib = Library([0, 0, -1]); m = Declared(lib)
    what = "%s of %s" % (mode, text)
    found = lambda w, t="": out["found"].append((what + ": " + w, t or w))
    try: spec(m)
    except Exception as e:
        if "/pymbs/" not in traceback.extract_tb(e.__traceback__)[-1].filename: raise
        found("%s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc()); return
    lib2 = Library([0, 0, -1]); m2 = Declared(lib2); spec(m2); again(lib2, m2, out, what)
    try: lib.generate(mode)
    except Exception as e: found("%s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc()); return
    g = lib.w.graph
    R = Ring(); dec = Decider(R); env = values(m, R)
    # kinds, names and shapes
    n = len([q for q in m.start if q.startswith("q_")])
    want = dict(m.kinds, State={"q": (n,) if n > 1 else (), "qd": (n,) if n > 1 else ()})
    for kind, ws in want.items():
        got = [(str(v), tuple(v.shape())) for v in g.getVariables(getattr(VarKind, kind))]
        out["checked"] += len(ws)
        if len({a for a, s in got}) != len(got): found("%s: %s twice" % (kind, got))
        for a, s in got:
            if a not in ws: found("%s %s was not declared" % (kind, a))
            elif s != ws[a] : found("%s %s has shape %s, declared %s" % (kind, a, s, ws[a]))
        for a in ws:
            if a not in dict(got): found("%s %s is lost" % (kind, a))
    # the degrees of freedom in the state vectors and their start values
    r = Run(R, env, ("q", "qd"))
    r.declared = {"q": [str(x) for x in lib.w.state.q], "qd": [str(x) for x in lib.w.state.qd]}
    r.all([(l, t) for l, t in lib.pairs(VarKind.Der_State) if t in ("q", "qd")])
    for s, pre in (("q", "q_"), ("qd", "qd_")):
        lay, here = r.layout[s], [c for c in m.start if c.startswith(pre)]
        out["checked"] += 1
        if sorted(lay) != sorted(here): found("%s holds %s, the degrees of freedom are %s" % (s, lay, here)); continue
        v = Run(R, env, ()).evaluate(str(g.getinitVal(g.getVariable(s))))
        vs = list(v) if isinstance(v, Mat) else [v if isinstance(v, Rat) else R.C(v)]
        if len(vs) != len(lay): found("%s has %d start values for %d degrees of freedom" % (s, len(vs), len(lay))); continue
        for c, x in zip(lay, vs):
            w = m.start[c]; w = Run(R, env, ()).evaluate(w) if isinstance(w, str) else Run(R, env, ()).evaluate(repr(w))
            compare(out, dec, x, w, what, "start value of " + c)
    if [c.replace("q_", "qd_", 1) for c in r.layout["q"]] != r.layout["qd"]: found("q holds %s but qd holds %s" % (r.layout["q"], r.layout["qd"]))
    # expressions
    if m.exprs:
        r = Run(R, env, ("q", "qd")); r.declared = {"q": [str(x) for x in lib.w.state.q], "qd": [str(x) for x in lib.w.state.qd]}
        for k in ("User_Exp", "Sensor"): r.all(lib.pairs(getattr(VarKind, k)))
        own = dict(env)
        for n, e in m.exprs:
            v = Run(R, own, ()).evaluate(e if isinstance(e, str) else repr(e)); v = Mat([[x] for x in v]) if isinstance(v, list) else v
            own[n] = v; x = r.env[n]
            if isinstance(v, Mat) != isinstance(x, Mat) or isinstance(v, Mat) and v.shape != x.shape: found("%s is %s, declared as %s" % (n, x, e)); continue
            for i, (y, z) in enumerate(zip(*[[b for a in t.a for b in a] if isinstance(t, Mat) else [t] for t in (x, v)])): compare(out, dec, y, z, what, "%s[%d]" % (n, i))
    # parameters
    e = Run(R, env, ())
    def read(x): v = e.evaluate(str(x)); return v if isinstance(v, Rat) else R.C(v)
    given = {l: read(d if isinstance(d, str) else repr(d)) for l, d in m.defaults.items()}
    for l, w in given.items():
        if l not in lib.w.paramDict: found("paramDict lacks " + l)
        else: compare(out, dec, read(lib.w.paramDict[l]), w, what, "paramDict of " + l)
    where = tempfile.mkdtemp()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            g.writeCode("mo", "model", where); g.writeCode("py", "model", where)
        text = {f: open(os.path.join(where, f), encoding="latin-1").read() for f in os.listdir(where)}
    except Exception as e: found("writing fails: %s" % e, traceback.format_exc()); return
    finally: shutil.rmtree(where)
    lines = re.findall(r'^\s*parameter\s+Real\s+(\w+)\s*=\s*(.*?)\s*"', text.get("model.mo", ""), re.M)
    seen = [("model.mo", l, t) for l, t in lines] + [(f, l, t) for f in sorted(text) if f.endswith(".py") for l, t in re.findall(r"^\s+(\w+) = (.*?)(?: #.*)?$", text[f], re.M) if l in given]
    for l in given:
        n = sum(f == "model.mo" and x == l for f, x, t in seen)
        if n > 1 or n == 0 and any(re.search(r"\b%s\b" % l, t) for f, x, t in seen if f == "model.mo"): found("%s does not appear once among the parameters of the Modelica text" % l, text.get("model.mo", ""))
    for f, l, t in seen:
        if l not in given: found("%s has a parameter %s" % (f, l)); continue
        compare(out, dec, read(t.replace("^", "**")), given[l], what, "%s: value of %s" % (f, l))
        for x in e.names(t.replace("^", "**")):
            if x in given and [a for q, a, b in seen if q == f].index(x) > [a for q, a, b in seen if q == f].index(l): found("%s: %s is used before it has a value" % (f, x), text[f])
    out["queries"] += dec.queries; out["solver_s"] += dec.seconds
    out["samples"].append("%s: %s" % (what, sorted(m.start)))

def compare(out, dec, x, y, what, label):
    out["checked"] += 1
    p = dec.differ(x, y)
    if p is None: return
    if p == "undecided": out["undecided"].append(what + ": " + label)
    else: out["found"].append(("%s: %s" % (what, label), "%s: %s is %s, should be %s, at %s" % (what, label, x.num.d, y.num.d, p)))

def again(lib, m, out, what):
    """symbols in use, and names of the same sort, cannot be declared again"""
    w = lib.w
    symbols = [n for k in m.kinds.values() for n in k] + ["time"]
    b = next(iter(lib.bodies.values()))
    free = [0]
    def fresh():
        free[0] += 1; return "fresh%d" % free[0]
    ways = dict(addParam=lambda n: w.addParam(n, 1.0, name=fresh()), addInput=lambda n: w.addInput(n, name=fresh()), addExpression=lambda n: w.addExpression(n, 2.0, name=fresh()), Position=lambda n: w.addSensor.Position(n, b, w, name=fresh()), Energy=lambda n: w.addSensor.Energy(n, b, name=fresh()))
    for n in symbols:
        for k, f in ways.items():
            out["checked"] += 1
            try: f(n)
            except (Exception, AssertionError): continue
            out["found"].append(("%s: %s declares the symbol %s again" % (what, k, n), "")); return
    for n in m.names["Body"]: attempt(out, what, "body", n, lambda: w.addBody(1.0, name=n))
    for n in m.names["Joint"]:
        x = w.addBody(1.0, name=fresh())
        attempt(out, what, "joint", n, lambda: w.addJoint(w, x, "Rx", name=n))
        del w.bodyDict[x.name]
    for kind, f in dict(Position=lambda n: w.addSensor.Position(fresh(), b, w, name=n), Orientation=lambda n: w.addSensor.Orientation(fresh(), b, w, name=n), Energy=lambda n: w.addSensor.Energy(fresh(), b, name=n), Distance=lambda n: w.addSensor.Distance(fresh(), b, w, name=n)).items():
        n = fresh(); f(n); attempt(out, what, "sensor", n, lambda: f(n)); attempt(out, what, "sensor", n, lambda: w.addSensor.Velocity(fresh(), b, w, name=n))
    for n in m.names["Load"]: attempt(out, what, "load", n, lambda: w.addLoad.PtPForce(w.addInput(fresh()), w, b, name=n))
def attempt(out, what, sort, n, f):
    out["checked"] += 1
    try: f()
    except (Exception, AssertionError): return
    out["found"].append(("%s: a second %s named %s is accepted" % (what, sort, n), ""))
