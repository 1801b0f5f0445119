"""Exact symbolic values: polynomials over named real variables modulo the defining relations of their atoms
(s*s + c*c = 1 for the sine and cosine of an angle, w*w = P for a square root), and quotients of them."""
from fractions import Fraction
B = 8                                    # bits per exponent

class Unsupported(Exception):
    pass

class Ring:
    def __init__(self):
        self.names, self.index = [], {}
        self.rule = {}                   # variable -> dict (polynomial its square equals)
        self.mask = 0
        self.tri = {}                    # key of an angle -> (sin, cos)
        self.deriv = {}                  # variable -> time derivative (Rat) ; missing: constant
        self.roots = {}
        self.positive = []               # variables the model assumes positive (square roots)
        self.circles = []                # (s, c) pairs
        self.fresh = 0
        self.squares = []                # values taken to be positive, with the square roots of their squares
        self.signs = None                # signs of the arguments of abs(), in the order of the calls
        self.arg_of, self.angle_of, self.made_of, self.root_of, self.memo = {}, {}, {}, {}, {}
    def var(self, name):
        i = self.index.get(name)
        if i is None:
            i = self.index[name] = len(self.names); self.names.append(name)
        return i
    def P(self, name):
        return Poly(self, {1 << (B * self.var(name)): 1})
    def V(self, name):
        return Rat(self.P(name))
    def const(self, c):
        return Poly(self, {0: c} if c else {})
    def C(self, c):
        return Rat(self.const(Fraction(c) if not isinstance(c, int) else c))
    def set_rule(self, v, d):
        self.rule[v] = d; self.mask |= 2 << (B * v)
    def angle(self, key, shown=None):
        """sine and cosine of an angle identified by its text"""
        t = self.tri.get(key)
        if t is None:
            s, c = "s(%s)" % key, "c(%s)" % key
            vs, vc = self.var(s), self.var(c)
            self.set_rule(vs, {0: 1, 2 << (B * vc): -1})
            self.circles.append((vs, vc))
            t = self.tri[key] = (self.V(s), self.V(c))
        return t
    def reduce(self, d):
        mask = self.mask
        if not any(m & mask for m in d):
            return d
        out = {}
        work = d
        while True:
            bad = {}
            for m, c in work.items():
                k = m & mask
                if not k:
                    v = out.get(m, 0) + c
                    if v: out[m] = v
                    else: out.pop(m, None)
                    continue
                i = (k & -k).bit_length() // B
                rest = m - (2 << (B * i))
                for m2, c2 in self.rule[i].items():
                    mm = rest + m2; v = bad.get(mm, 0) + c * c2
                    if v: bad[mm] = v
                    else: bad.pop(mm, None)
            if not bad:
                return out
            work = bad
LIMIT = 400000

class Poly:
    __slots__ = ("R", "d", "_k")
    def __init__(self, R, d):
        self.R, self.d, self._k = R, d, None
    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k
    def __add__(a, b):
        if len(a.d) < len(b.d): a, b = b, a
        d = dict(a.d)
        for m, c in b.d.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: del d[m]
        return Poly(a.R, d)
    def __sub__(a, b):
        d = dict(a.d)
        for m, c in b.d.items():
            v = d.get(m, 0) - c
            if v: d[m] = v
            else: del d[m]
        return Poly(a.R, d)
    def __neg__(a):
        return Poly(a.R, {m: -c for m, c in a.d.items()})
    def scale(a, k):
        return Poly(a.R, {m: c * k for m, c in a.d.items()} if k else {})
    def __mul__(a, b):
        if len(a.d) > len(b.d): a, b = b, a
        if len(a.d) * len(b.d) > 20 * LIMIT: raise Unsupported("polynomial product too large")
        d = {}
        get = d.get
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                m = m1 + m2
                d[m] = get(m, 0) + c1 * c2
        d = {m: c for m, c in d.items() if c}
        if len(d) > LIMIT: raise Unsupported("polynomial too large")
        return Poly(a.R, a.R.reduce(d))
    def __pow__(a, n):
        r = a.R.const(1)
        for _ in range(n): r = r * a
        return r
    def zero(a):
        return not a.d
    def is_const(a):
        return not a.d or (len(a.d) == 1 and 0 in a.d)
    def value(a):
        return a.d.get(0, 0)
    def vars(a):
        o = 0
        for m in a.d: o |= m
        return [i for i in range(len(a.R.names)) if (o >> (B * i)) & 255]
    def degree_in(a, i):
        return max([(m >> (B * i)) & 255 for m in a.d] or [0])
    def diff(a, i):
        d = {}
        for m, c in a.d.items():
            e = (m >> (B * i)) & 255
            if e: d[m - (1 << (B * i))] = c * e
        return Poly(a.R, d)
    def eval(a, vals):
        """value at a point: vals maps variable index to a number"""
        t = 0
        for m, c in a.d.items():
            p = c; i = 0
            while m:
                e = m & 255
                if e: p = p * vals[i] ** e
                m >>= B; i += 1
            t += p
        return t
    def coeff(a, i, e):
        d = {}
        for m, c in a.d.items():
            if (m >> (B * i)) & 255 == e: d[m - (e << (B * i))] = c
        return Poly(a.R, d)

class Rat:
    """num / prod(den[k] ** e); the denominators are assumed not to vanish"""
    __slots__ = ("num", "den")
    def __init__(self, num, den=None):
        self.num, self.den = num, den or {}
        if not num.d: self.den = {}
    @property
    def R(self):
        return self.num.R
    def lift(self, o):
        if isinstance(o, Rat): return o
        if isinstance(o, (int, Fraction)): return self.R.C(o)
        if isinstance(o, float): return self.R.C(Fraction(repr(o)))
        return NotImplemented
    def __add__(a, b):
        b = a.lift(b)
        if b is NotImplemented: return b
        if not a.den and not b.den: return Rat(a.num + b.num)
        if a.den == b.den: return Rat(a.num + b.num, a.den)
        den = dict(a.den)
        for k, (p, e) in b.den.items():
            if k not in den or den[k][1] < e: den[k] = (p, e)
        na, nb = a.num, b.num
        for k, (p, e) in den.items():
            ea = e - a.den.get(k, (p, 0))[1]; eb = e - b.den.get(k, (p, 0))[1]
            if ea: na = na * p ** ea
            if eb: nb = nb * p ** eb
        return Rat(na + nb, den)
    __radd__ = __add__
    def __neg__(a):
        return Rat(-a.num, a.den)
    def __pos__(a):
        return a
    def __sub__(a, b):
        b = a.lift(b)
        return b if b is NotImplemented else a + (-b)
    def __rsub__(a, b):
        return (-a) + b
    def __mul__(a, b):
        b = a.lift(b)
        if b is NotImplemented: return b
        if not a.den and not b.den: return Rat(a.num * b.num)
        den = dict(a.den); na, nb = a.num, b.num; hit = False
        for k, (p, e) in b.den.items():
            den[k] = (p, e + den.get(k, (p, 0))[1])
        ka = na.key() if len(na.d) > 1 or not na.is_const() else None   # cancel a factor that is the whole numerator
        one = 1
        if ka is not None and ka not in den and (-na).key() in den: na = -na; ka = na.key(); one = -1
        if ka in den and den[ka][1] > 0:
            e = den[ka][1] - 1; p = den[ka][0]; na = a.R.const(one); hit = True
            if e: den[ka] = (p, e)
            else: del den[ka]
        kb = nb.key() if len(nb.d) > 1 or not nb.is_const() else None
        if kb in den:
            e = den[kb][1] - 1; p = den[kb][0]; nb = a.R.const(1)
            if e: den[kb] = (p, e)
            else: del den[kb]
            hit = True
        n = na * nb
        for k in [k for k in den if len(den[k][0].d) == 1]:       # a variable that divides everything
            p, e = den[k]; (m, c), = p.d.items()
            i = (m.bit_length() - 1) // B
            if c != 1 or m != 1 << (B * i): continue
            f = min([(x >> (B * i)) & 255 for x in n.d] or [0])
            f = min(f, e)
            if f:
                n = Poly(n.R, {x - (f << (B * i)): v for x, v in n.d.items()})
                if e > f: den[k] = (p, e - f)
                else: del den[k]
        if hit and den and len(n.d) > 1:                  # what is left may be the product of the denominators
            d = a.R.const(1)
            for p, e in den.values(): d = d * p ** e
            m = max(n.d)
            if m in d.d and len(n.d) == len(d.d):
                k = Fraction(n.d[m]) / d.d[m]
                if not (n - d.scale(k)).d: return a.R.C(k)
        return Rat(n, den)
    __rmul__ = __mul__
    def inv(a):
        if a.num.zero(): raise ZeroDivisionError("division by an expression that is identically zero")
        n = a.R.const(1)
        for p, e in a.den.values(): n = n * p ** e
        d = a.num
        if d.is_const(): return Rat(n.scale(Fraction(1) / d.value()))
        if len(d.d) == 1:
            (m, c), = d.d.items(); n = n.scale(Fraction(1) / c); den = {}; i = 0
            while m:
                e = m & 255
                if e:
                    p = Poly(a.R, {1 << (B * i): 1}); den[p.key()] = (p, e)
                m >>= B; i += 1
            return Rat(n, den)
        return Rat(n, {d.key(): (d, 1)})
    def __truediv__(a, b):
        b = a.lift(b)
        return b if b is NotImplemented else a * b.inv()
    def __rtruediv__(a, b):
        return a.inv() * b
    def __pow__(a, b):
        b = a.lift(b)
        if not b.is_const(): raise Unsupported("symbolic exponent")
        e = Fraction(b.num.value())
        if e.denominator == 1:
            e = int(e)
            if e < 0: return a.inv() ** (-e)
            r = a.R.C(1)
            for _ in range(e): r = r * a
            return r
        if e.denominator == 2:
            w = a.sqrt()
            return w ** int(e * 2)
        raise Unsupported("power %s" % e)
    def is_const(a):
        return not a.den and a.num.is_const()
    def __index__(a):
        if a.is_const() and Fraction(a.num.value()).denominator == 1: return int(a.num.value())
        raise TypeError("not an index")
    def __eq__(a, b):
        b = a.lift(b)
        if b is NotImplemented: return False
        return (a - b).num.zero()
    def __hash__(a):
        return hash(a.num.key())
    def plain(a):
        """over a common denominator: (numerator, denominator)"""
        d = a.R.const(1)
        for p, e in a.den.values(): d = d * p ** e
        return a.num, d
    def sqrt(a):
        R = a.R
        for r in R.squares:                              # quantities that are positive
            if (a - r * r).num.zero(): return r
        for r in R.squares:
            q = monomial_ratio(a, r * r)
            if q is not None: return r * q
        if R.squares and R.signs is not None:             # the same over a root
            for w, P in list(R.root_of.items()):
                for r in R.squares:
                    q = monomial_ratio(a * Rat(P), r * r)
                    if q is not None: return r * q / R.V(R.names[w])
        n = a.num
        for p, e in a.den.values(): n = n * p ** (e % 2)
        den = {k: (p, (e + 1) // 2) for k, (p, e) in a.den.items()}
        if n.is_const():
            v = Fraction(n.value())
            import math
            if v >= 0:
                s = Fraction(math.isqrt(v.numerator), math.isqrt(v.denominator))
                if s * s == v: r = R.const(s); return R_abs(Rat(r), den)
        if len(n.d) == 1:
            (m, c), = n.d.items()
            if m.bit_count() and all(((m >> (B * i)) & 255) % 2 == 0 for i in range(len(R.names))) and c == 1:
                # sqrt(x*x) = |x|: an atom of its own
                pass
        k = n.key()
        w = R.roots.get(k)
        if w is None:
            name = "root%d" % len(R.roots)
            v = R.var(name); R.set_rule(v, dict(n.d)); R.positive.append(v)
            w = R.roots[k] = R.P(name)
            R.root_of[v] = n
        return R_abs(Rat(w), den)
    def diff(a, i):
        """partial derivative; square roots and angles are handled by total()"""
        raise NotImplementedError
    def total(a):
        """time derivative along R.deriv"""
        R = a.R
        t = R.C(0)
        for i in a.num.vars():
            dv = dvar(R, i)
            if dv is not None: t = t + Rat(a.num.diff(i)) * dv
        if a.den:
            inv = Rat(R.const(1), a.den)
            t = t * inv
            for k, (p, e) in a.den.items():
                dp = Rat(p).total()
                if not dp.num.zero(): t = t - a * dp * e * Rat(p).inv()
        return t
    def partial(a, v):
        """partial derivative with respect to a variable that occurs in no square root"""
        R = a.R; i = R.index.get(v)
        if i is None: return R.C(0)
        if any(i in p.vars() for p, e in a.den.values()): raise Unsupported("partial derivative of a quotient")
        roots = R.root_of
        for p in [a.num] + [p for p, e in a.den.values()]:
            for j in p.vars():
                if j in roots and i in roots[j].vars(): raise Unsupported("partial derivative of a root")
        return Rat(a.num.diff(i), a.den)

def monomial_ratio(a, b):
    """r with a = r*r*b, where r is a rational number times a product of variables known to be positive; else None"""
    R = a.R
    (an, ad), (bn, bd) = a.plain(), b.plain()
    x, y = an * bd, bn * ad
    if x.zero() or y.zero(): return None
    mx, my = max(x.d), max(y.d)
    import math
    c = Fraction(x.d[mx]) / Fraction(y.d[my])
    if c <= 0: return None
    s = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
    if s * s != c: return None
    pos = {v for r in R.squares if not r.den and len(r.num.d) == 1 for v in r.num.vars()} | set(R.root_of)
    out = R.C(s)
    for i in range(len(R.names)):
        e = ((mx >> (B * i)) & 255) - ((my >> (B * i)) & 255)
        if not e: continue
        if e % 2 or i not in pos: return None
        v = R.V(R.names[i])
        out = out * v ** (e // 2) if e > 0 else out / v ** (-e // 2)
    return out if (a - out * out * b).num.zero() else None
def absolute(x):
    """with prescribed signs: the argument or its negative, which is then taken to be positive"""
    R = x.R
    if x.is_const(): return x if x.num.value() >= 0 else -x
    for r in R.squares:
        if (x - r).num.zero(): return r
        if (x + r).num.zero(): return r
    if R.signs is None: return (x * x).sqrt()
    s = R.signs.pop(0) if R.signs else 1
    y = x if s > 0 else -x
    R.squares.append(y)
    return y
def replace(x, vals):
    """the value with variables (index -> value) replaced"""
    def poly(p):
        parts = {}
        for m, c in p.d.items():
            k, rest = [], m
            for i in vals:
                e = (m >> (B * i)) & 255
                if e: k.append((i, e)); rest -= e << (B * i)
            parts.setdefault(tuple(k), {})[rest] = c
        t = p.R.C(0)
        for k, d in parts.items():
            v = Rat(Poly(p.R, d))
            for i, e in k: v = v * vals[i] ** e
            t = t + v
        return t
    out = poly(x.num)
    keep = {}
    for k, (p, e) in x.den.items():
        if any(i in vals for i in p.vars()): out = out * poly(p).inv() ** e
        else: keep[k] = (p, e)
    return out * Rat(x.R.const(1), keep) if keep else out
def R_abs(r, den):
    # den must be positive: square roots are, everything else is assumed to be by the caller's families
    return Rat(r.num, den)

def dvar(R, i):
    n = R.names[i]
    if n in R.deriv: return R.deriv[n]
    root = R.root_of.get(i)
    if root is not None:
        return Rat(root).total() * Rat(Poly(R, {1 << (B * i): 1})).inv() * Fraction(1, 2)
    return None

# ------------------------------------------------------------------ matrices
class Mat:
    def __init__(self, rows):
        self.a = [list(r) for r in rows]
    @property
    def shape(self):
        return len(self.a), len(self.a[0])
    @property
    def T(self):
        return Mat(zip(*self.a))
    def __getitem__(self, ij):
        if isinstance(ij, tuple):
            i, j = ij
            i, j = int(i.__index__()), int(j.__index__())
            return self.a[i][j]
        i = int(ij.__index__())
        r, c = self.shape
        if c == 1: return self.a[i][0]
        if r == 1: return self.a[0][i]
        return self.a[i // c][i % c]
    def map(self, f):
        return Mat([[f(x) for x in r] for r in self.a])
    def __add__(self, o):
        if isinstance(o, Rat): return self.map(lambda x: x + o)
        if not isinstance(o, Mat): return NotImplemented
        if o.shape != self.shape and o.shape == (1, 1): return self + o[0, 0]
        if o.shape != self.shape and self.shape == (1, 1): return o + self[0, 0]
        if o.shape != self.shape: raise ValueError("shapes of a sum differ")
        return Mat([[x + y for x, y in zip(r, s)] for r, s in zip(self.a, o.a)])
    __radd__ = __add__
    def __sub__(self, o):
        return self + (-o)
    def __rsub__(self, o):
        return -self + o
    def __neg__(self):
        return self.map(lambda x: -x)
    def __mul__(self, o):
        if isinstance(o, Mat):
            if self.shape[1] != o.shape[0]: raise ValueError("shapes of a product differ: %s %s" % (self.shape, o.shape))
            ot = list(zip(*o.a))
            return Mat([[dot(r, c) for c in ot] for r in self.a])
        return self.map(lambda x: x * o)
    def __rmul__(self, o):
        return self.map(lambda x: o * x)
    def __truediv__(self, o):
        return self.map(lambda x: x / o)
    def __pow__(self, n):
        n = int(n.__index__()); r = self
        for _ in range(n - 1): r = r * self
        return r
    def __iter__(self):
        return iter([x for r in self.a for x in r])
    def total(self):
        return self.map(lambda x: x.total())

def dot(r, c):
    t = None
    for x, y in zip(r, c):
        p = x * y
        t = p if t is None else t + p
    return t
def eye(R, n=3):
    return Mat([[R.C(int(i == j)) for j in range(n)] for i in range(n)])
def zeros(R, n, m=1):
    return Mat([[R.C(0)] * m for _ in range(n)])
def skew(v):
    x, y, z = list(v); o = x.R.C(0)
    return Mat([[o, -z, y], [z, o, -x], [-y, x, o]])
def cross(a, b):
    return skew(a) * b

# ------------------------------------------------------------------ elementary functions
def linear_angle(R, x):
    """(constant, [(coefficient, variable)]) of an argument that is linear in its variables"""
    if x.den: return None
    k, out = Fraction(0), []
    for m, c in x.num.d.items():
        if m == 0: k = Fraction(c); continue
        i = (m.bit_length() - 1) // B
        if m != 1 << (B * i): return None
        out.append((c, i))
    return k, out

def sincos(R, x):
    l = linear_angle(R, x)
    if l is None or any(Fraction(c).denominator != 1 or abs(c) > 3 for c, i in l[1]):
        key = "arg:" + show(x, None)
        R.arg_of[key] = x
        return R.angle(key)
    s, c = R.C(0), R.C(1)
    k, ts = l
    if k:
        n = round(float(k) / 1.5707963267948966)
        if abs(float(k) - n * 1.5707963267948966) < 1e-9:          # a multiple of a right angle, as far as it is printed
            s, c = [(0, 1), (1, 0), (0, -1), (-1, 0)][n % 4]
            s, c = R.C(s), R.C(c)
        else:
            s, c = R.angle("const:%s" % abs(k))
            if k < 0: s = -s
    for n, i in sorted(ts, key=lambda t: t[1]):
        s1, c1 = R.angle_of[R.names[i]] if R.names[i] in R.angle_of else R.angle(R.names[i])
        if n < 0: s1 = -s1
        for _ in range(abs(int(n))):
            s, c = s * c1 + c * s1, c * c1 - s * s1
    return s, c
def sin(x): return sincos(x.R, x)[0]
def cos(x): return sincos(x.R, x)[1]
def tan(x):
    s, c = sincos(x.R, x); return s / c
def new_angle(R, s, c, what):
    R.fresh += 1; n = "%s%d" % (what, R.fresh)
    R.angle_of[n] = (s, c)
    return R.V(n)
def memo(f):
    def g(*a):
        R = a[0].R
        k = (f.__name__,) + tuple(x.num.key() for x in a) + tuple(frozenset((q, e) for q, (p, e) in x.den.items()) for x in a)
        if k not in R.memo: R.memo[k] = f(*a)
        return R.memo[k]
    return g
@memo
def atan2(y, x):
    w = (y * y + x * x).sqrt(); return new_angle(x.R, y / w, x / w, "atan2_")
@memo
def acos(x):
    return new_angle(x.R, (x.R.C(1) - x * x).sqrt(), x, "acos")
@memo
def asin(x):
    return new_angle(x.R, x, (x.R.C(1) - x * x).sqrt(), "asin")
@memo
def atan(x):
    w = (x.R.C(1) + x * x).sqrt(); return new_angle(x.R, x / w, x.R.C(1) / w, "atan")

def show(x, limit=8):
    def poly(p):
        ts = []
        for m, c in sorted(p.d.items(), key=lambda t: str(t)):
            f = []; i = 0; mm = m
            while mm:
                e = mm & 255
                if e: f.append(p.R.names[i] + ("^%d" % e if e > 1 else ""))
                mm >>= B; i += 1
            ts.append("*".join(([str(c)] if c != 1 or not f else []) + f))
        return " + ".join(ts) or "0"
    n = poly(x.num)
    if x.den: n = "(%s)/%s" % (n, "/".join("(%s)^%d" % (poly(p), e) for p, e in x.den.values()))
    return n

def memo_like(f):
    """the same result for the same arguments"""
    seen = {}
    def g(*a):
        k = tuple(x.num.key() for x in a) + tuple(frozenset((q, e) for q, (p, e) in x.den.items()) for x in a)
        if k not in seen: seen[k] = f(*a)
        return seen[k]
    return g
