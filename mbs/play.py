"""Compares what the library generates for a described system with the reference."""
import numpy
import alg
from alg import Mat, Rat, Unsupported
from model import Library, Reference
from run import Run
from decide import Decider

class Result:
    def __init__(self):
        self.bad = []          # (label, point or text)
        self.undecided = []
        self.notes = []
        self.checked = 0

class Game:
    """one description: the reference, and the library's answer per formulation"""
    def __init__(self, spec, gravity=(0, 0, -1), timeout=20000):
        self.spec, self.gravity = spec, list(gravity)
        self.ref = Reference(gravity); spec(self.ref)
        self.R = self.ref.R
        self.ref.resolve()
        self.dec = Decider(self.R, timeout)
        self.res = Result()
        self.libs = {}
        self._residuals = None
        self.tests = {}                                  # label -> how to replay a counterexample: (mode, what, name)
    def same(self, a, b, label):
        self.res.checked += 1
        if isinstance(a, Mat) or isinstance(b, Mat):
            a = a if isinstance(a, Mat) else Mat([[a]]); b = b if isinstance(b, Mat) else Mat([[b]])
            if a.shape != b.shape:
                self.res.bad.append((label, "shapes %s and %s" % (a.shape, b.shape))); return False
            ok = True
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    ok = self.same1(a[i, j], b[i, j], "%s[%d,%d]" % (label, i, j)) and ok
            return ok
        return self.same1(a, b, label)
    def same1(self, a, b, label):
        p = self.dec.differ(a, b)
        if p is None: return True
        if p == "undecided": self.res.undecided.append(label); return True
        self.res.bad.append((label, p)); return False
    def play(self, mode, prepare=None, **opts):
        lib = Library(self.gravity)
        self.spec(lib)
        if prepare: prepare(lib)
        lib.generate(mode, **opts)
        self.libs[mode] = lib
        return lib
    def run(self, lib, kinds, free_acc=False):
        """free_acc: the accelerations stay variables instead of what the equations of motion give"""
        from pymbs.symbolics import VarKind
        keep = {}
        if free_acc:
            for d in self.ref.dofs: keep[d[0].replace("q_", "qdd_", 1)] = d[0].replace("q_", "qdd_", 1)
            if len(self.ref.dofs) == 1: keep["qdd"] = self.ref.dofs[0][0].replace("q_", "qdd_", 1)
        r = Run(self.R, self.ref.free, ("q", "qd"), keep)
        r.declared = {"q": [str(x) for x in lib.w.state.q], "qd": [str(x) for x in lib.w.state.qd]}
        r.kinds = kinds
        for k in kinds: r.all(lib.pairs(getattr(VarKind, k)))
        lib.runs = getattr(lib, "runs", []) + [r]
        return r
    def replay(self, lib, r, pt):
        """the same assignments on floating point numbers"""
        from pymbs.symbolics import VarKind
        from numeric import Replay
        n = Replay(pt, self.ref.free, {k: (v, r.vector.get(k, True)) for k, v in r.layout.items()}, r.keep)
        for k in r.kinds: n.all(lib.pairs(getattr(VarKind, k)))
        return n
    def confirm(self, label, point):
        """a point at which the real generated code and the reference disagree: (text, point) or None"""
        from numeric import Point, differ
        base = max((t for t in self.tests if label.startswith(t)), key=len, default=None)
        if base is None: return None
        lib, r, kind, name = self.tests[base]
        for seed in range(0, 8):
            pt = Point(self.R, point if seed == 0 else None, seed)
            try: n = self.replay(lib, r, pt)
            except (ArithmeticError, numpy.linalg.LinAlgError): continue
            try:
                if kind == "value":
                    got, want = n.env[name], pt.value(self.ref.values[name])
                    if differ(got, want): return "%s is %s, should be %s" % (name, flat(got), flat(want)), pt
                elif kind == "der_q":
                    want = [pt.name(x.replace("q_", "qd_", 1)) for x in r.layout["q"]]
                    if differ(numpy.asarray(n.env["der_q"]).flatten(), want): return "der_q is %s, should be %s" % (flat(n.env["der_q"]), want), pt
                elif kind == "motion":
                    qdd = numpy.asarray(n.env["der_qd"]).flatten()
                    acc = [x.replace("q_", "qdd_", 1) for x in r.layout["q"]]
                    at = Point(self.R, dict(pt.base), seed)
                    for a, v in zip(acc, qdd): at.base[a] = float(v)
                    rest = Point(self.R, dict(pt.base), seed)
                    for a in acc: rest.base[a] = 0.0
                    for x in self.residuals():
                        e, s = at.rat(x), rest.rat(x)
                        if not abs(e) <= 1e-6 * (1 + abs(s)): return "accelerations %s leave %g in the equations of motion" % (flat(qdd), e), pt
                elif kind == "same":
                    other, r2 = name[1]
                    m = self.replay(other, r2, pt)
                    if differ(n.env[name[0]], m.env[name[0]]): return "%s is %s and %s" % (name[0], flat(n.env[name[0]]), flat(m.env[name[0]])), pt
            except (ArithmeticError, numpy.linalg.LinAlgError): continue
        return None
    def residuals(self):
        if self._residuals is None: self._residuals = self.ref.residuals()
        return self._residuals
    def motion(self, mode, r):
        """the accelerations the generated code computes satisfy the equations of motion, and only they do"""
        R = self.R
        names = [d[0] for d in self.ref.dofs]
        lay = r.layout.get("q", r.declared["q"])
        if sorted(lay) != sorted(names):
            self.res.bad.append((mode + " states", "q holds %s, the degrees of freedom are %s" % (lay, names))); return
        if r.layout.get("qd") is not None and [x.replace("q_", "qd_", 1) for x in lay] != r.layout["qd"]:
            self.res.bad.append((mode + " states", "q holds %s but qd holds %s" % (lay, r.layout["qd"]))); return
        self.tests[mode + " der_q["] = (self.libs[mode], r, "der_q", None)
        for w in ("der_qd", "mass matrix", "forces", "accelerations", "equation of motion"): self.tests["%s %s" % (mode, w)] = (self.libs[mode], r, "motion", None)
        self.same(r.env["der_q"], Mat([[R.V(x.replace("q_", "qd_", 1))] for x in lay]), mode + " der_q")
        order = [names.index(x) for x in lay]
        qdd = r.env["der_qd"]; qdd = qdd if isinstance(qdd, Mat) else Mat([[qdd]])
        if qdd.shape != (len(lay), 1): self.res.bad.append((mode + " der_qd", "shape %s" % (qdd.shape,))); return
        acc = [n.replace("q_", "qdd_", 1) for n in lay]
        res = [self.residuals()[i] for i in order]
        n = len(lay)
        sol = r.solved[-1] if r.solved else None
        if sol is not None and [x.num.key() for x in sol[2]] == [x.num.key() for x in qdd] :
            A, b = sol[0], sol[1]
            Mref = Mat([[res[i].partial(a) for a in acc] for i in range(n)])
            rest = [self.at0(res[i], acc) for i in range(n)]
            before = len(self.res.bad)
            ok = self.same(A, Mref, mode + " mass matrix")
            ok = self.same(b, Mat([[-x] for x in rest]), mode + " forces") and ok
            if not ok and n <= 3:
                # another form of the same equations?
                keep = self.res.bad[before:]; del self.res.bad[before:]
                d = det(Mref); ad = adj(Mref)
                x = ad * Mat([[-y] for y in rest])
                if not self.same(A * x, b * d, mode + " accelerations"): return
                if det(A).num.zero(): self.res.bad += keep
            return
        for i in range(n):
            self.same(self.subst(res[i], dict(zip(acc, list(qdd)))), R.C(0), "%s equation of motion %s" % (mode, lay[i]))
    def agree(self, modes, play, run):
        """the accelerations and sensor values of two formulations are the same"""
        R = self.R
        got = {}
        names = [d[0] for d in self.ref.dofs]
        for m in modes:
            lib = play(m)
            r = run(m, lib, ["Der_State"])
            lay = r.layout.get("q", r.declared["q"])
            qdd = r.env["der_qd"]; qdd = qdd if isinstance(qdd, Mat) else Mat([[qdd]])
            if sorted(lay) != sorted(names) or qdd.shape != (len(names), 1):
                self.res.bad.append((m + " states", "%s with %d accelerations for %s" % (lay, qdd.shape[0], names))); return
            order = [lay.index(x) for x in names]
            sol = r.solved[-1] if r.solved else None
            if sol is not None and [x.num.key() for x in sol[2]] == [x.num.key() for x in qdd]:
                A, b = sol[0], sol[1]
                got[m] = (lib, r, Mat([[A[i, j] for j in order] for i in order]), Mat([[b[i, 0]] for i in order]), None)
            else: got[m] = (lib, r, None, None, Mat([[qdd[i, 0]] for i in order]))
        first = modes[0]
        for m in modes[1:]:
            l1, r1, A1, b1, x1 = got[first]; l2, r2, A2, b2, x2 = got[m]
            lab = "accelerations of %s and %s" % (first, m)
            self.tests[lab] = (l1, r1, "same", ("der_qd", (l2, r2)))
            if A1 is not None and A2 is not None:
                before = len(self.res.bad)
                if not (self.same(A1, A2, lab) & self.same(b1, b2, lab)) and len(names) <= 2:
                    pt = self.res.bad[before:]; del self.res.bad[before:]
                    if not self.same(adj(A1) * b1 * det(A2), adj(A2) * b2 * det(A1), lab): pass
            elif A1 is not None: self.same(A1 * x2 - b1, b1 - b1, lab)
            elif A2 is not None: self.same(A2 * x1 - b2, b2 - b2, lab)
            else: self.same(x1, x2, lab)
        if not self.ref.sensors: return
        env = {m: run(m, got[m][0], ["Der_State", "Sensor"] + (["Graphics"] if self.ref.drawn else []), True) for m in modes}
        for m in modes[1:]:
            for s in self.ref.sensors:
                n = s[0]; lab = "sensor %s of %s and %s" % (n, first, m)
                if n not in env[m].assigned or n not in env[first].assigned: self.res.bad.append((lab, "not computed")); continue
                self.tests[lab] = (got[first][0], env[first], "same", (n, (got[m][0], env[m])))
                self.same(env[first].env[n], env[m].env[n], lab)
    def at0(self, x, names):
        return self.subst(x, {n: self.R.C(0) for n in names})
    def subst(self, x, vals):
        R = self.R
        if x.den and any(R.index.get(n) in p.vars() for p, e in x.den.values() for n in vals): raise Unsupported("acceleration in a denominator")
        idx = {R.index[n]: v for n, v in vals.items() if n in R.index}
        t = R.C(0)
        lin = {}
        keep = {}
        for m, c in x.num.d.items():
            hit = [i for i in idx if (m >> (8 * i)) & 255]
            if not hit: keep[m] = c; continue
            if len(hit) > 1 or (m >> (8 * hit[0])) & 255 != 1: raise Unsupported("nonlinear in the accelerations")
            lin.setdefault(hit[0], {})[m - (1 << (8 * hit[0]))] = c
        t = Rat(alg.Poly(R, keep))
        for i, d in lin.items(): t = t + Rat(alg.Poly(R, d)) * idx[i]
        return t * Rat(R.const(1), x.den) if x.den else t
    def sensors(self, mode, r, names=None, acc=None):
        for n in names or [s[0] for s in self.ref.sensors]:
            if n not in r.env or n in self.ref.free:
                self.res.bad.append(("%s sensor %s" % (mode, n), "not computed")); continue
            self.tests["%s sensor %s" % (mode, n)] = (self.libs[mode], r, "value", n)
            self.same(r.env[n], self.ref.values[n], "%s sensor %s" % (mode, n))

def flat(x):
    return numpy.round(numpy.asarray(x, dtype=float), 9).tolist()
def det(M):
    n = M.shape[0]
    if n == 1: return M[0, 0]
    t = None
    for j in range(n):
        x = M[0, j] * det(minor(M, 0, j)) * (-1 if j % 2 else 1)
        t = x if t is None else t + x
    return t
def minor(M, i, j):
    return Mat([[M[a, b] for b in range(M.shape[1]) if b != j] for a in range(M.shape[0]) if a != i])
def adj(M):
    n = M.shape[0]
    if n == 1: return alg.eye(M[0, 0].R, 1)
    return Mat([[det(minor(M, j, i)) * (-1 if (i + j) % 2 else 1) for j in range(n)] for i in range(n)])
