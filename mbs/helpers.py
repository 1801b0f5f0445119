"""The functions users build models with, and access to the elements of vectors and matrices. A text is evaluated twice: with the
library on symbolic variables, and with arrays of exact values; the library's result is read from its printed form."""
import itertools, math, traceback
from fractions import Fraction
import numpy as np
import alg
from alg import Mat, Rat, Ring, Unsupported

class Array(np.ndarray):
    pass
def array(x):
    a = np.empty(np.shape(x) if not isinstance(x, (list, tuple)) else tuple(shape(x)), dtype=object)
    for ix in np.ndindex(*a.shape):
        y = x
        for i in ix: y = y[i]
        a[ix] = y
    return a
def shape(x):
    return [len(x)] + shape(x[0]) if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim else []

class Reference:
    """the definitions"""
    def __init__(self, R):
        self.R = R
        one = lambda f: lambda x: f(self.num(x))
        self.ns = dict(Matrix=self.Matrix, zeros=lambda s: self.filled(s, lambda ix: 0), eye=lambda s: self.filled(s, lambda ix: int(ix[0] == ix[1])),
            mul=self.mul, T=lambda x: x.T if isinstance(x, np.ndarray) else x, inner=lambda a, b: sum((x * y for x, y in zip(a, b)), R.C(0)), outer=lambda a, b: array([[x * y for y in b] for x in a]),
            sin=one(alg.sin), cos=one(alg.cos), tan=one(alg.tan), asin=one(alg.asin), acos=one(alg.acos), atan=one(alg.atan), sqrt=one(lambda x: x.sqrt()), atan2=lambda y, x: alg.atan2(self.num(y), self.num(x)),
            rot_mat=self.rot, norm=lambda v: sum((x * x for x in self.m(v)), R.C(0)).sqrt(), skew=self.skew, diag=self.diag, symmetric_matrix=lambda s: array([[s[0], s[1], s[3]], [s[1], s[2], s[4]], [s[3], s[4], s[5]]]),
            block_matrix=lambda rows: np.vstack([np.hstack(r) for r in rows]), block_vector=lambda vs: np.concatenate(vs), scalar=lambda x: self.m(x).flatten()[0] if isinstance(x, np.ndarray) else x,
            element=lambda a, i, j: a[i] if a.ndim == 1 else a[i, j], scalar_if_possible=lambda x: x.flatten()[0] if isinstance(x, np.ndarray) and x.size == 1 else x, put=self.put, read=self.read, solve=self.solve, neg=lambda x: self.m(x) * -1 if isinstance(x, np.ndarray) else -x)
    def num(self, x):
        return x if isinstance(x, Rat) else self.R.C(x if isinstance(x, int) else Fraction(repr(x)))
    def m(self, x):
        a = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(*x.shape): a[ix] = self.num(x[ix])
        return a
    def Matrix(self, x):
        return self.filled(x, lambda ix: 0) if isinstance(x, tuple) else self.m(array(x))
    def filled(self, s, f):
        a = np.empty(s, dtype=object)
        for ix in np.ndindex(*a.shape): a[ix] = self.R.C(f(ix))
        return a
    def mul(self, a, b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray): return self.m(a).dot(self.m(b))
        return self.m(a) * self.num(b) if isinstance(a, np.ndarray) else self.m(b) * self.num(a) if isinstance(b, np.ndarray) else a * b
    def rot(self, x, axis):
        s, c = alg.sin(self.num(x)), alg.cos(self.num(x)); i = {"x": 0, "y": 1, "z": 2}[str(axis).lower().replace("r", "").replace("1", "x").replace("2", "y").replace("3", "z")]
        a = self.filled((3, 3), lambda ix: 0); j, k = (i + 1) % 3, (i + 2) % 3
        a[i, i] = self.R.C(1); a[j, j] = a[k, k] = c; a[j, k] = s; a[k, j] = -s
        return a
    def skew(self, v):
        z = self.R.C(0); v = self.m(v)
        return array([[z, -v[2], v[1]], [v[2], z, -v[0]], [-v[1], v[0], z]])
    def diag(self, v):
        a = self.filled((len(v), len(v)), lambda ix: 0)
        for i in range(len(v)): a[i, i] = self.num(v[i])
        return a
    def put(self, m, *writes):
        m = m.copy()
        for ix, x in writes:
            if not isinstance(ix, tuple) and m.ndim == 2: m.flat[ix] = x
            else: m[ix] = x
        return m
    def read(self, m, ix):
        return m[ix]
    def solve(self, A, b):
        import texts
        x = texts.solve(Mat([list(r) for r in self.m(A)]), Mat([[y] for y in self.m(b)]))
        return array(list(x))

def library():
    from pymbs import symbolics as S
    import pymbs.common.functions as F
    def put(m, *writes):
        for ix, x in writes: m[ix] = x
        return m
    ns = {n: getattr(F, n) for n in "sin cos tan asin acos atan sqrt atan2 rot_mat norm skew diag symmetric_matrix block_matrix block_vector scalar element scalar_if_possible outer solve".split()}
    ns.update(Matrix=S.Matrix, zeros=S.zeros, eye=S.eye, mul=lambda a, b: a * b, T=F.transpose, inner=lambda a, b: F.transpose(a) * b, put=put, read=lambda m, ix: m[ix], neg=lambda x: -x)
    return S, ns

VARS = [("a", ()), ("b", ()), ("c", ()), ("v", (3,)), ("w", (3,)), ("u", (2,)), ("A", (3, 3)), ("B", (2, 3)), ("C", (3, 2)), ("D", (2, 2))]
class Both:
    def __init__(self, dec=None):
        from decide import Decider
        from run import Run
        self.R = Ring(); self.ref = Reference(self.R); self.dec = Decider(self.R)
        S, self.lib = library(); self.S = S
        g = self.g = S.Graph(); env = {}
        for n, s in VARS:
            self.lib[n] = g.addVariable(n, s) if s else g.addVariable(n)
            if not s: x = self.R.V(n); env[n] = x
            else:
                x = self.ref.filled(s, lambda ix: 0)
                for ix in np.ndindex(*s): x[ix] = self.R.V(n + "_" + "_".join(map(str, ix)))
                env[n] = Mat([list(r) if len(s) == 2 else [r] for r in x])
            self.ref.ns[n] = x
        self.run = Run(self.R, env, ()); self.run.solve = lambda A, b: __import__("texts").solve(A, b)
    def both(self, text):
        """(elements and shape by the library, by the definition)"""
        x = eval(text, dict(self.lib)); y = eval(text, dict(self.ref.ns))
        if isinstance(x, (int, float)): got, s = [self.R.C(x if isinstance(x, int) else Fraction(repr(float(x))))], ()
        else:
            v = self.run.evaluate(str(x)); s = tuple(x.shape())
            if isinstance(v, (int, float)): v = self.ref.num(v)
            got = [e for r in v.a for e in r] if isinstance(v, Mat) else [v]
        want = [self.ref.num(e) for e in y.flatten()] if isinstance(y, np.ndarray) else [self.ref.num(y)]
        return got, s, want, tuple(y.shape) if isinstance(y, np.ndarray) else ()

def near(a, b):
    """numbers that were computed in floating point"""
    return (a - b).num.d and all(abs(float(c)) < 1e-9 for c in (a - b).num.d.values()) if not (a - b).den else False

# ------------------------------------------------------------------ texts
VEC = ["v", "Matrix([a, b, c])", "Matrix([a, 2, 0])", "Matrix([1.5, -2, 0])", "v + w", "mul(A, v)", "mul(2, v)", "mul(a, w)", "neg(v)", "v + mul(C, u)", "mul(skew(v), w)", "mul(A, v) + mul(b, Matrix([a, b, 1]))", "zeros((3,))", "mul(rot_mat(a, 'z'), v)", "Matrix([v[1], a, w[2]])", "v + Matrix([a, 0, 1])"]
MAT = ["A", "Matrix([[a, 2, 3], [4, b, 6], [7, 8, c]])", "mul(A, A)", "A + eye((3, 3))", "skew(v)", "outer(v, w)", "rot_mat(a, 'y')", "mul(C, B)", "T(A)", "zeros((3, 3))", "eye((3, 3))", "mul(a, A)", "neg(A)", "diag([a, b, c])", "symmetric_matrix([a, 2, b, 4, 5, c])"]
RECT = ["B", "Matrix([[a, 2, 3], [4, b, 6]])", "mul(D, B)", "T(C)", "mul(a, B) + Matrix([[1, 2, 3], [4, 5, 6]])", "zeros((2, 3))"]
SL = ["0", "1", "2", ":", "0:2", "1:3", "::2", "1:", ":2", "-2:", ":-1"]
def family(name):
    if name == "rotations":
        ang = ["a", "a + b", "mul(2, a)", "neg(a)", "a + 1", "c"]; axes = ["'x'", "'y'", "'z'", "'X'", "'Ry'", "3", "1", "2", "'Z'", "'Rx'"]
        ts = ["rot_mat(%s, %s)" % (x, r) for x in ang for r in axes] + ["mul(rot_mat(%s, %s), T(rot_mat(%s, %s)))" % (x, r, x, r) for x in ang[:4] for r in axes[:3]]
        ts += ["mul(rot_mat(a, %s), rot_mat(b, %s))" % (r, s) for r in axes[:3] for s in axes[:3]] + ["mul(mul(rot_mat(a, 'x'), rot_mat(b, 'y')), rot_mat(c, 'z'))"]
        return ts, ["rot_mat(a, 'q')", "rot_mat(a, 0)", "rot_mat(a, 4)"]
    if name == "vectors":
        ts = ["norm(%s)" % v for v in VEC if v not in ("zeros((3,))",)] + ["norm(zeros((3,)))", "norm(Matrix([3, 4, 0]))", "norm(Matrix([0, 0, a]))"]
        ts += ["skew(%s)" % v for v in VEC] + ["mul(skew(%s), %s)" % (v, x) for v in VEC for x in ("w", "Matrix([1, b, c])", "mul(A, w)")]
        ts += ["outer(%s, %s)" % (v, x) for v in VEC for x in ("w", "Matrix([1, b, c])", "v")] + ["outer(u, Matrix([a, 2]))", "outer(Matrix([b, 1]), u)", "outer(u, u)"] + ["inner(%s, %s)" % (v, x) for v in VEC for x in ("w", "Matrix([1, b, c])", "v")]
        ts += ["inner(%s, mul(A, %s))" % (v, v) for v in VEC[:7]]
        return ts, ["norm(u)", "norm(A)", "norm(a)", "skew(Matrix([a, b]))", "skew(A)", "inner(v, u)", "skew(1)", "outer(v, u)"]
    if name == "builders":
        ts = ["diag([a])", "diag([a, b])", "diag([a, b, 1, c + a])", "diag(Matrix([a, b, c]))", "diag(Matrix([a, 0]))", "diag([1, 2, 3])"]
        ts += ["symmetric_matrix([a, b, c, 1, 2.5, a + b])", "symmetric_matrix((1, 2, 3, 4, 5, 6))", "symmetric_matrix(Matrix([a, b, c, 1, 2, 3]))"]
        ts += ["block_matrix([[A]])", "block_matrix([[A, A], [A, A]])", "block_matrix([[A, C], [B, D]])", "block_matrix([[zeros((3, 3)), C], [B, zeros((2, 2))]])", "block_matrix([[D, B]])", "block_matrix([[C], [D]])", "block_matrix([[Matrix([[a, b]]), zeros((1, 3))], [D, B]])", "block_matrix([[A, zeros((3, 1)), C]])", "block_matrix([[Matrix([[a]]), Matrix([[1, 2]])], [C, A + zeros((3, 3))]])" if False else "block_matrix([[Matrix([[a]])]])"]
        ts += ["block_vector([v])", "block_vector([v, u])", "block_vector([u, zeros((2,)), v])", "block_vector([Matrix([a]), u, Matrix([1, b])])", "block_vector([zeros((1,)), v, w])"]
        ts += ["scalar(a)", "scalar(2)", "scalar_if_possible(a)", "scalar_if_possible(v)", "scalar_if_possible(Matrix([[a]]))", "scalar(Matrix([[a]]))", "T(a)", "T(2)", "T(A)", "T(B)", "T(mul(B, A))", "T(T(B))", "mul(T(B), u)", "T(Matrix([[a, 1, 2], [b, 3, 4]]))", "T(zeros((2, 3)))", "T(eye((3, 3)))", "mul(eye((3, 3)), v)", "mul(A, eye((3, 3)))", "A + zeros((3, 3))"]
        return ts, ["block_matrix([[A], [B]]) + 0 if False else block_matrix([[A, B]])", "block_matrix([[A], [C]])", "block_matrix([[A, C], [B]])", "block_matrix([[B], [D]])", "block_matrix([])", "block_matrix([[v]])", "block_vector([A])", "block_vector([])", "block_matrix(A)", "symmetric_matrix([1, 2, 3, 4, 5])", "diag(3)", "diag([v, w])", "scalar(v)", "scalar(A)"]
    if name == "functions":
        x = ["a", "a + b", "mul(a, b)", "v[1]", "A[0, 2]"]
        ts = ["%s(%s)" % (f, y) for f in ("sin", "cos", "tan", "atan", "sqrt", "asin", "acos") for y in x] + ["atan2(%s, %s)" % (y, z) for y in x for z in x if y != z] + ["atan2(a, 2)", "atan2(1, b)", "sqrt(4)", "sqrt(a) * sqrt(a)", "sin(a) ** 2 + cos(a) ** 2"]
        return ts, ["sin(v)" if False else "atan2(v, a)"]
    if name == "elements":
        ts = ["(%s)[%d]" % (v, i) for v in VEC for i in range(3)] + ["(%s)[%d, %d]" % (m, i, j) for m in MAT for i in range(3) for j in range(3)] + ["(%s)[%d, %d]" % (m, i, j) for m in RECT for i in range(2) for j in range(3)]
        ts += ["element(%s, %d, %d)" % (m, i, j) for m in MAT[:7] for i in range(3) for j in range(3)] + ["element(%s, %d, 0)" % (v, i) for v in VEC[:8] for i in range(3)]
        bad = ["(%s)[%s]" % (v, i) for v in VEC for i in ("3", "4", "-4", "7")] + ["(%s)[%s]" % (m, i) for m in MAT for i in ("3, 0", "0, 3", "-4, 0", "0, -4", "9", "3, 3")] + ["(%s)[%s]" % (m, i) for m in RECT for i in ("2, 0", "0, 3", "-3, 0", "0, -4", "6", "2, 2", "3, 1")]
        return ts, bad
    if name == "slices":
        ts = ["(%s)[%s]" % (v, s) for v in VEC[:12] for s in SL[3:]] + ["(%s)[%s, %s]" % (m, r, c) for m in MAT for r in SL for c in SL if ":" in r + c]
        ts += ["(%s)[%s, %s]" % (m, r, c) for m in RECT for r in SL if r not in ("2", "1:3") for c in SL if ":" in r + c]
        return ts, ["(%s)[%s]" % (v, s) for v in VEC[:5] for s in ("2:1", "0:4", "1:9")] + ["(%s)[%s]" % (m, s) for m in MAT[:5] for s in ("0:4, 0", "0, 0:4", "2:1, 0", ":, 3", "3, :")] + ["(%s)[%s]" % (m, s) for m in RECT[:4] for s in ("0:3, 0", "0, 0:4", ":, 3", "2, :")]
    if name == "writes":
        ts = []
        pos = {(3,): [0, 1, 2], (2, 3): list(itertools.product(range(2), range(3))), (3, 2): list(itertools.product(range(3), range(2))), (3, 3): list(itertools.product(range(3), range(3))), (4,): [0, 1, 2, 3], (1, 3): [(0, 0), (0, 1), (0, 2)], (3, 1): [(0, 0), (1, 0), (2, 0)]}
        for s, ps in pos.items():
            for p in ps:
                for q in ps: ts.append("put(Matrix(%r), (%r, a), (%r, mul(b, c)))" % (s, p, q))
        for m in ("[a, 2, 3]", "[1, b, v[0]]"):
            for p in range(3): ts.append("put(Matrix(%s), (%d, c))" % (m, p))
        for p in pos[(2, 3)]: ts.append("put(Matrix([[a, 2, 3], [4, 5, b]]), (%r, c))" % (p,))
        ts += ["put(Matrix(%r), (slice(0, 2), u))" % ((3,),), "put(Matrix([1, 2, 3]), (slice(1, 3), Matrix([a, b])))", "put(Matrix((3, 3)), ((slice(0, 2), 1), u))", "put(Matrix((3, 3)), ((slice(0, 2), slice(0, 3)), B))", "put(Matrix((3, 3)), ((slice(0, 3), slice(1, 3)), C))", "put(Matrix((3, 3)), ((slice(0, 2), slice(1, 3)), D), ((2, 0), a))", "put(Matrix((3, 3)), ((1, slice(0, 3)), T(Matrix([[a], [2], [c]]))))", "put(Matrix((3, 3)), ((1, slice(0, 3)), T(v)))", "put(Matrix((3, 2)), ((2, slice(0, 2)), T(u)), ((slice(0, 3), 0), v))", "put(Matrix((3, 3)), ((slice(0, 3), 2), mul(A, v)))", "put(Matrix((3, 3)), (slice(None), v))" if False else "put(Matrix((4,)), (slice(0, 4, 2), u))"]
        bad = ["put(Matrix(%r), (%s, a))" % (s, p) for s, p in [((3,), "3"), ((3,), "-4"), ((2, 3), "(2, 0)"), ((2, 3), "(0, 3)"), ((3, 2), "(0, 2)"), ((3, 2), "(3, 0)"), ((3, 3), "(-4, 0)"), ((3, 3), "9"), ((2, 3), "(2, 2)"), ((2, 2), "(0, -3)")]]
        bad += ["put(Matrix((3,)), (1, v))", "put(Matrix((3, 3)), ((0, 0), u))", "put(Matrix((3,)), (slice(0, 2), v))", "put(Matrix((3, 3)), ((slice(0, 2), 1), v))", "Matrix([[a, 2], [3]])", "put(Matrix((3, 3)), ((slice(0, 2), slice(0, 2)), A))"]
        return ts, bad
def helpers(arg, out):
    B = Both()
    ts, bad = family(arg[0])
    out["samples"].append("%s: %d expressions, %d to be refused" % (arg[0], len(ts), len(bad)))
    for t in ts:
        try: got, s, want, ws = B.both(t)
        except Unsupported as e: out["undecided"].append("%s: %s" % (t, e)); continue
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.name in ("evaluate", "num", "m") or "helpers.py" in f.filename and f.name not in ("both", "helpers", "<lambda>", "put") for f in tb[2:]): raise
            out["found"].append(("%s: %s: %s" % (t, type(e).__name__, str(e)[:120]), traceback.format_exc())); continue
        out["checked"] += len(want)
        if [n for n in s if n != 1] != [n for n in ws if n != 1]: out["found"].append(("%s: shape %s, should be %s" % (t, s, ws), t)); continue
        if len(got) != len(want): out["found"].append(("%s: %d values, should be %d" % (t, len(got), len(want)), t)); continue
        for i, (x, y) in enumerate(zip(got, want)):
            p = B.dec.differ(x, y)
            if p is None or near(x, y): continue
            if p == "undecided": out["undecided"].append("%s[%d]" % (t, i)); continue
            out["found"].append(("%s: element %d" % (t, i), "%s\nelement %d differs at %s\nlibrary: %s" % (t, i, p, eval(t, dict(B.lib))))); break
    for t in bad:
        out["checked"] += 1
        try: x = eval(t, dict(B.lib))
        except Exception: continue
        out["found"].append(("%s is accepted" % t, "%s gives %s" % (t, x)))
    out["queries"] += B.dec.queries; out["solver_s"] += B.dec.seconds
