"""Replays a counterexample: the assignments the generator produced are executed with numpy on floating point numbers and
compared with the reference evaluated at the same point."""
import ast, math, random
import numpy
import alg
from alg import Mat, Rat

class Point:
    """floating point values of all variables of a ring: given ones, the rest drawn from the seed"""
    def __init__(self, R, given=None, seed=1):
        self.R, self.seed = R, seed
        self.base, self.cache = {}, {}
        for n, v in (given or {}).items():
            if n.startswith("s(") and n.endswith(")"):
                k = n[2:-1]
                c = given.get("c(%s)" % k)
                if c is not None and ":" not in k: self.base[k] = math.atan2(v, c)
        for n, v in (given or {}).items():
            if not n.startswith(("s(", "c(", "root")) and n not in self.base: self.base[n] = v
    def draw(self, n):
        r = random.Random("%s/%s" % (self.seed, n))
        return r.uniform(0.3, 1.7)
    def name(self, n):
        if n in self.base: return self.base[n]
        R = self.R
        i = R.index.get(n)
        if n[:2] in ("s(", "c(") and n.endswith(")"):
            k = n[2:-1]; f = math.sin if n[0] == "s" else math.cos
            if k.startswith("const:"): a = float(eval(k[6:].replace("/", "*1.0/")))
            elif k in R.arg_of: a = self.rat(R.arg_of[k])
            else: a = self.name(k)
            v = f(a)
        elif i in R.root_of:
            v = math.sqrt(self.poly(R.root_of[i]))
        elif n in R.angle_of:
            s, c = R.angle_of[n]; v = math.atan2(self.rat(s), self.rat(c))
        else: v = self.draw(n)
        self.base[n] = v
        return v
    def poly(self, p):
        t = 0.0
        for m, c in p.d.items():
            x = float(c); i = 0
            while m:
                e = m & 255
                if e: x *= self.name(self.R.names[i]) ** e
                m >>= alg.B; i += 1
            t += x
        return t
    def rat(self, x):
        d = 1.0
        for p, e in x.den.values(): d *= self.poly(p) ** e
        return self.poly(x.num) / d
    def value(self, x):
        if isinstance(x, Mat): return numpy.matrix([[self.rat(y) for y in r] for r in x.a], dtype=float)
        return self.rat(x)

def matrix(x, dtype=float):
    if isinstance(x, list):
        for r in x:
            for e in (r if isinstance(r, list) else [r]):
                if isinstance(e, numpy.matrix): raise ValueError("matrix inside a matrix")
    return numpy.matrix(x, dtype=float)

class Replay:
    def __init__(self, pt, free, layout, keep):
        self.pt, self.keep = pt, keep
        self.env = {"matrix": matrix, "float": float, "zeros": lambda s: numpy.matrix(numpy.zeros(s)), "linalg": numpy.linalg, "__builtins__": {},
                    "sqrt": math.sqrt, "fabs": abs, "abs": abs, "atan2": math.atan2}
        for f in ("sin", "cos", "tan", "acos", "asin", "atan"): self.env[f] = getattr(math, f)
        for n, v in free.items(): self.env[n] = pt.value(v)
        self.layout = layout                             # state vector -> (names, is a vector)
        for s, (names, vector) in layout.items():
            vs = [pt.name(n) for n in names]
            self.env.update(zip(names, vs))
            self.env[s] = numpy.matrix(vs, dtype=float).T if vector else vs[0]
    def targets(self, lhs):
        ns = [n for n in ast.walk(ast.parse(lhs.strip(), mode="eval").body) if isinstance(n, ast.Name) and n.id not in ("matrix", "float")]
        return [n.id for n in sorted(ns, key=lambda n: (n.lineno, n.col_offset))]
    def all(self, pairs):
        for l, r in pairs:
            if r in self.layout and not l.startswith("der_"): continue
            v = eval(compile(r.strip(), "<generated>", "eval"), self.env)
            if l.isidentifier(): ns, vs = [l], [v]
            else:
                ns = self.targets(l); vs = list(numpy.asarray(v).flatten())
                if len(ns) != len(vs): raise ValueError("%d names for %d values" % (len(ns), len(vs)))
            for n, x in zip(ns, vs):
                self.env[n] = self.pt.name(self.keep[n]) if n in self.keep else x

def differ(a, b, tol=1e-6):
    a, b = numpy.atleast_2d(numpy.asarray(a, dtype=float)), numpy.atleast_2d(numpy.asarray(b, dtype=float))
    if a.shape != b.shape: return True
    if not numpy.all(numpy.isfinite(b)): return False
    if not numpy.all(numpy.isfinite(a)): return True
    return bool(numpy.any(numpy.abs(a - b) > tol * (1 + numpy.abs(a) + numpy.abs(b))))
