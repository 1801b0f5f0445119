"""Reads what the writers wrote - Python, C, Matlab, Fortran, Modelica - and evaluates it over exact symbolic values.
Each reader turns the text of one generated function into statements; nothing about the writers' own code is assumed."""
import ast, re
from fractions import Fraction
import alg
from alg import Mat, Rat, Unsupported

class Wrong(Exception):
    """the text cannot be executed in its language"""

# ------------------------------------------------------------------ expressions
TOKEN = re.compile(r"""\s*(?:
  (?P<num>(?:\d+\.?\d*|\.\d+)(?:[eEdD][+-]?\d+)?)
 |(?P<id>[A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*)
 |(?P<op>\(/|/\)|\*\*|\.\*|\./|\.\^|==|/=|~=|!=|<>|<=|>=|&&|\|\||[-+*/\\^()\[\]{},;:?<>='&|!~])
)""", re.X)
def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m: raise Wrong("cannot read %r" % s[i:i + 30])
        k = m.lastgroup
        out.append((k, m.group(k))); i = m.end()
    return out
BIN = {"||": 1, "&&": 2, "<": 4, ">": 4, "<=": 4, ">=": 4, "==": 4, "~=": 4, "!=": 4, "<>": 4, "/=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "\\": 6, ".*": 6, "./": 6, "^": 8, "**": 8, ".^": 8}

class Parser:
    def __init__(self, text, lang):
        self.t, self.i, self.lang = tokens(text), 0, lang
    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None
    def next(self):
        t = self.t[self.i] if self.i < len(self.t) else (None, None)
        self.i += 1
        return t
    def want(self, x):
        k, v = self.next()
        if v != x: raise Wrong("%r instead of %r" % (v, x))
    def all(self):
        e = self.expr(0)
        if self.i != len(self.t): raise Wrong("%r is left over" % self.peek())
        return e
    def expr(self, lvl):
        v = self.peek()
        if v in ("-", "+"):
            self.next(); e = ("neg" if v == "-" else "pos", self.expr(7 if self.lang == "c" else 6))
        elif v in ("!", "~"):
            raise Unsupported("logical operators")
        else: e = self.postfix(self.primary())
        while True:
            v = self.peek()
            p = BIN.get(v)
            if p is None or p < lvl or (v == "**") != (v == "**" and self.lang in ("f", "py")): break
            self.next()
            if p == 8:
                r = self.expr(8) if self.lang == "f" else self.expr(9)
            else: r = self.expr(p + 1)
            e = ("bin", v, e, r)
        if lvl == 0 and self.peek() == "?" and self.lang == "c": raise Unsupported("conditional expressions")
        return e
    def primary(self):
        k, v = self.next()
        if k == "num": return ("num", v)
        if k == "id":
            if v == "if": raise Unsupported("conditional expressions")
            return ("id", v)
        if v == "(":
            e = self.expr(0); self.want(")"); return ("par", e)
        if v == "[" and self.lang == "m":
            rows = [[]]
            while True:
                rows[-1].append(self.expr(0))
                k, v = self.next()
                if v == "]": return ("mat", rows)
                if v == ";": rows.append([])
                elif v != ",": raise Wrong("%r in a matrix" % v)
        if v == "{" and self.lang in ("c", "mo"): return ("brace", self.items("}"))
        if v == "(/" and self.lang == "f": return ("brace", self.items("/)"))
        raise Wrong("%r at the start of an operand" % v)
    def items(self, end):
        out = []
        while True:
            out.append(self.expr(0))
            k, v = self.next()
            if v == end: return out
            if v != ",": raise Wrong("%r in a list" % v)
    def postfix(self, e):
        while True:
            v = self.peek()
            if v == "(" and e[0] == "id":
                self.next(); args = []
                if self.peek() == ")": self.next()
                else:
                    while True:
                        args.append(self.arg())
                        k, v = self.next()
                        if v == ")": break
                        if v != ",": raise Wrong("%r in a list of arguments" % v)
                e = ("call", e[1], args)
            elif v == "[" and self.lang in ("c", "mo"):
                self.next(); args = [self.expr(0)]
                while self.peek() == ",": self.next(); args.append(self.expr(0))
                self.want("]"); e = ("idx", e, args)
            elif v == "'" and self.lang == "m": self.next(); e = ("tr", e)
            else: return e
    def arg(self):
        if self.peek() == ":":
            self.next(); return ("all",)
        a = self.expr(0)
        if self.peek() == ":":
            self.next(); return ("range", a, self.expr(0))
        return a

def scalar(x):
    if isinstance(x, Mat) and x.shape == (1, 1): return x[0, 0]
    return x
def solve(A, b):
    """the exact solution of A*x = b, for an A that is invertible (elimination with the pivots taken to be nonzero where they are not
    identically zero)"""
    A, b = (x if isinstance(x, Mat) else Mat([[x]]) for x in (A, b))
    n = A.shape[0]
    if A.shape != (n, n) or b.shape[0] != n: raise Wrong("shapes in a system of equations: %s %s" % (A.shape, b.shape))
    d = det(A)
    if d.num.zero(): raise Wrong("singular system of equations")
    inv = d.inv()
    out = []
    for i in range(n):
        row = []
        for j in range(b.shape[1]):
            C = Mat([[b[r, j] if c == i else A[r, c] for c in range(n)] for r in range(n)])
            row.append(det(C) * inv)
        out.append(row)
    return Mat(out)
def det(A):
    n = A.shape[0]
    if n == 1: return A[0, 0]
    t = None
    for j in range(n):
        if A[0, j].num.zero(): continue
        m = det(Mat([[A[r, c] for c in range(n) if c != j] for r in range(1, n)])) * A[0, j]
        if j % 2: m = -m
        t = m if t is None else t + m
    return A[0, 0] * 0 if t is None else t
def power(a, b):
    b = scalar(b)
    if not isinstance(b, Rat): raise Wrong("exponent is a matrix")
    if isinstance(a, Mat):
        if not b.is_const() or Fraction(b.num.value()).denominator != 1: raise Wrong("power of a matrix")
        n = int(b.num.value())
        if n < 0: a, n = solve(a, alg.eye(b.R, a.shape[0])), -n
        if n == 0: return alg.eye(b.R, a.shape[0])
        r = a
        for _ in range(n - 1): r = r * a
        return r
    return a ** b

class Eval:
    """one function's variables"""
    def __init__(self, R, lang, env):
        self.R, self.lang, self.env = R, lang, env
    def number(self, t):
        return self.R.C(Fraction(repr(float(t.lower().replace("d", "e")))) if not re.fullmatch(r"\d+", t) else int(t))
    def get(self, n):
        k = n.lower() if self.lang == "f" else n
        if k not in self.env: raise Wrong("%s is used before it has a value" % n)
        return self.env[k]
    def set(self, n, v):
        self.env[n.lower() if self.lang == "f" else n] = v
    def text(self, s):
        return self.ev(Parser(s, self.lang).all())
    def is_int(self, e):
        return e[0] == "num" and re.fullmatch(r"\d+", e[1]) or e[0] in ("par", "neg", "pos") and self.is_int(e[1]) or \
            e[0] == "bin" and self.is_int(e[2]) and self.is_int(e[3])
    def index(self, e):
        v = scalar(self.ev(e))
        if not isinstance(v, Rat) or not v.is_const() or Fraction(v.num.value()).denominator != 1: raise Unsupported("symbolic index")
        return int(v.num.value())
    def ev(self, e):
        k, L = e[0], self.lang
        if k == "num": return self.number(e[1])
        if k == "id": return self.get(e[1])
        if k == "par" or k == "pos": return self.ev(e[1])
        if k == "neg": return -self.value(e[1])
        if k == "tr":
            v = self.value(e[1]); return v.T if isinstance(v, Mat) else v
        if k == "brace": return [self.ev(x) for x in e[1]]
        if k == "mat": return self.blocks([[self.value(x) for x in r] for r in e[1]])
        if k == "idx":
            b = self.ev(e[1]); ix = [self.index(x) for x in e[2]]
            if L == "c":
                if len(ix) != 1 or not isinstance(b, list) or not 0 <= ix[0] < len(b): raise Wrong("index %s out of bounds" % ix)
                return b[ix[0]]
            b = self.mo(b)
            if not isinstance(b, Mat) or len(ix) != 2 or not (1 <= ix[0] <= b.shape[0] and 1 <= ix[1] <= b.shape[1]): raise Wrong("index %s out of bounds" % ix)
            return b[ix[0] - 1, ix[1] - 1]
        if k == "call": return self.call(e[1], e[2])
        if k == "bin":
            op = e[1]
            if BIN[op] <= 4: raise Unsupported("comparisons")
            if op == "/" and L == "c" and self.is_int(e[2]) and self.is_int(e[3]):
                a, b = self.index(e[2]), self.index(e[3])
                return self.R.C(abs(a) // abs(b) * (1 if a * b >= 0 else -1))
            a, b = self.value(e[2]), self.value(e[3])
            if L == "c" and (isinstance(a, (Mat, list)) or isinstance(b, (Mat, list))): raise Wrong("array in an expression")
            if op == "+" or op == "-":
                sa, sb = isinstance(a, Mat), isinstance(b, Mat)
                if sa and sb and a.shape != b.shape and (L != "m" or (1, 1) not in (a.shape, b.shape)): raise Wrong("shapes of a sum: %s %s" % (a.shape, b.shape))
                if sa != sb and L == "mo": raise Wrong("scalar and matrix in a sum")
                return a + b if op == "+" else (a - b if not (isinstance(a, Rat) and sb) else -b + a)
            if op == "*":
                if isinstance(a, Mat) and isinstance(b, Mat):
                    if L == "f":
                        if a.shape != b.shape: raise Wrong("shapes of an elementwise product")
                        return Mat([[x * y for x, y in zip(r, s)] for r, s in zip(a.a, b.a)])
                    if L == "m" and (1, 1) in (a.shape, b.shape): a, b = scalar(a), scalar(b)
                    elif a.shape[1] != b.shape[0]: raise Wrong("shapes of a product: %s %s" % (a.shape, b.shape))
                return b * a if isinstance(b, Mat) and isinstance(a, Rat) else a * b
            if op == "/":
                if isinstance(b, Mat):
                    if L == "m" and b.shape == (1, 1): b = b[0, 0]
                    else: raise Wrong("division by a matrix")
                return a / b
            if op == "\\": return solve(a, b)
            if op in ("^", "**"):
                if isinstance(a, Mat) and L == "f": raise Wrong("elementwise power")
                return power(scalar(a) if L == "m" else a, b)
        raise Unsupported("expression %s" % (e,))
    def mo(self, v):
        """Modelica: nested braces are a matrix"""
        if isinstance(v, list):
            if not all(isinstance(r, list) and len(r) == len(v[0]) and all(isinstance(x, Rat) for x in r) for r in v): raise Wrong("array that is no matrix")
            return Mat(v)
        return v
    def value(self, e):
        v = self.ev(e)
        return self.mo(v) if self.lang == "mo" else v
    def blocks(self, rows):
        out = []
        for r in rows:
            ms = [x if isinstance(x, Mat) else Mat([[x]]) for x in r]
            if len({m.shape[0] for m in ms}) != 1: raise Wrong("heights in a matrix")
            out += [[x for m in ms for x in m.a[i]] for i in range(ms[0].shape[0])]
        if len({len(r) for r in out}) != 1: raise Wrong("widths in a matrix")
        return Mat(out)
    def call(self, f, args):
        L, R = self.lang, self.R
        key = f.lower() if L == "f" else f
        if key in self.env and L in ("m", "f"):
            b = self.env[key]
            if callable(b): return b(*[self.ev(a) for a in args])
            m = b if isinstance(b, Mat) else Mat([[b]])
            if isinstance(b, Rat) and L == "f": raise Wrong("index of a scalar")
            def span(a, n):
                if a[0] == "all": return range(n)
                lo = self.index(a[1] if a[0] == "range" else a)
                hi = self.index(a[2]) if a[0] == "range" else lo
                if not (1 <= lo <= n and hi <= n): raise Wrong("index of %s out of bounds" % f)
                return range(lo - 1, hi)
            if len(args) == 1 and L == "m":
                if args[0][0] == "all": return Mat([[x] for x in m])
                if 1 not in m.shape: raise Unsupported("linear index")
                ix = span(args[0], max(m.shape))
                o = [list(m)[i] for i in ix]
                return o[0] if len(o) == 1 else Mat([[x] for x in o])
            if len(args) != 2: raise Wrong("number of indices of %s" % f)
            ri, ci = span(args[0], m.shape[0]), span(args[1], m.shape[1])
            if args[0][0] not in ("all", "range") and args[1][0] not in ("all", "range"): return m[ri[0], ci[0]]
            return Mat([[m[i, j] for j in ci] for i in ri])
        if L == "f" and key == "reshape":
            xs = []
            def flatten(v):
                if isinstance(v, list):
                    for y in v: flatten(y)
                elif isinstance(v, Mat):
                    for y in v.T: xs.append(y)             # column by column
                else: xs.append(v)
            flatten(self.ev(args[0]))
            n, m = [int(x.num.value()) for x in self.ev(args[1])]
            if len(xs) < n * m: raise Wrong("reshape of %d values to %d x %d" % (len(xs), n, m))
            return Mat([[xs[i + n * j] for j in range(m)] for i in range(n)])
        v = [self.value(a) for a in args]
        one = {"sin": alg.sin, "cos": alg.cos, "tan": alg.tan, "asin": alg.asin, "acos": alg.acos, "atan": alg.atan, "sqrt": lambda x: x.sqrt(),
               "fabs" if L == "c" else "abs": alg.absolute}
        if key in one and len(v) == 1:
            x = scalar(v[0]) if L == "m" else v[0]
            if not isinstance(x, Rat): raise Wrong("%s of an array" % f)
            return one[key](x)
        if key == "atan2" and len(v) == 2: return alg.atan2(*[scalar(x) if L == "m" else x for x in v])
        if key == "pow" and L == "c":
            if self.is_int(args[0]) and False: pass
            return power(*v)
        if key in ("transpose",) and L in ("m", "f", "mo") and isinstance(v[0], Mat): return v[0].T
        if key == "zeros" and L in ("m", "mo"): return alg.zeros(R, int(v[0].num.value()), int(v[1].num.value()))
        if key in ("eye",) and L == "m" or key == "identity" and L == "mo": return alg.eye(R, int(v[0].num.value()))
        if key == "inv" and L == "m" or key == "migs" and L == "f" or key == "Modelica.Math.Matrices.inv" and L == "mo":
            x = v[0] if isinstance(v[0], Mat) else Mat([[v[0]]])
            return solve(x, alg.eye(R, x.shape[0]))
        if key == "legs" and L == "f":
            if not all(isinstance(x, Mat) for x in v): raise Wrong("legs of a scalar")
            if v[1].shape[1] != 1: raise Wrong("legs solves for one right side only")
            return solve(*v)
        if key == "Modelica.Math.Matrices.solve2" and L == "mo": return solve(*v)
        if key == "matmul" and L == "f":
            if not all(isinstance(x, Mat) for x in v) or v[0].shape[1] != v[1].shape[0]: raise Wrong("shapes in matmul")
            return v[0] * v[1]
        if key == "matpow" and L == "f": return power(*v)
        if key == "scalar" and L in ("f", "mo"):
            if not isinstance(v[0], Mat) or v[0].shape != (1, 1):
                if L == "mo" and isinstance(v[0], Rat): return v[0]
                raise Wrong("scalar() of %s" % (getattr(v[0], "shape", "a scalar"),))
            return v[0][0, 0]
        if key == "vector" and L == "mo": return v[0]
        if key == "skew" and L in ("f", "mo"): return alg.skew(v[0])
        if key == "cross" and L == "m": return alg.cross(*v)
        raise Unsupported("function %s" % f)

def flat(v):
    if isinstance(v, (list, tuple)): return [x for y in v for x in flat(y)]
    if isinstance(v, Mat): return list(v)
    return [v]

# ------------------------------------------------------------------ Python
class Consts(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return ast.copy_location(ast.Call(ast.Name("__c", ast.Load()), [n], []), n)
        return n
class PyMat(Mat):
    """numpy.matrix"""
    def w(self, x):
        return PyMat(x.a) if isinstance(x, Mat) else x
    T = property(lambda s: PyMat(zip(*s.a)))
    I = property(lambda s: PyMat(solve(s, alg.eye(s.a[0][0].R, s.shape[0])).a))
    def map(self, f): return PyMat([[f(x) for x in r] for r in self.a])
    def __add__(self, o): return self.w(Mat.__add__(self, o))
    __radd__ = __add__
    def __sub__(self, o): return self.w(Mat.__add__(self, -o))
    def __rsub__(self, o): return self.w(Mat.__add__(-self, o))
    def __mul__(self, o): return self.w(Mat.__mul__(self, o))
    def __pow__(self, n): return self.w(power(self, n))
    def __getitem__(self, ij):
        if not isinstance(ij, tuple): raise Wrong("one index for a matrix")
        i, j = (int(x.__index__()) for x in ij)
        if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]): raise Wrong("index out of bounds")
        return self.a[i][j]
    def getA1(self): return list(self)

class Flat(list):
    def ravel(self): return self

class Later:
    """what a function returns, when it is used"""
    def __init__(self, f): self.f, self.v = f, None
    def __getitem__(self, k):
        if self.v is None: self.v = self.f()
        return self.v[k]

class Python:
    """the module as written, statement by statement; only the numbers and numpy are replaced"""
    def __init__(self, R, texts):
        self.R, self.mods = R, {k: ast.parse(t) for k, t in texts.items()}
    def names(self):
        R = self.R
        def matrix(x, dtype=None):
            if isinstance(x, PyMat): return x
            if isinstance(x, Mat): return PyMat(x.a)
            if isinstance(x, Rat): return PyMat([[x]])
            rows = [list(r) for r in x] if any(isinstance(r, list) for r in x) else [list(x)]
            if len({len(r) for r in rows}) != 1 or not all(isinstance(e, Rat) for r in rows for e in r): raise Wrong("matrix of uneven rows")
            return PyMat(rows)
        def need(f):
            def g(*a):
                if not all(isinstance(x, Rat) for x in a): raise Wrong("function of a matrix")
                return f(*a)
            return g
        class linalg:
            solve = staticmethod(lambda A, b: PyMat(solve(A, b).a)); inv = staticmethod(lambda A: PyMat(solve(A, alg.eye(R, A.shape[0])).a))
        table = {"matrix": matrix, "zeros": lambda s: PyMat(alg.zeros(R, int(s[0].__index__()), int(s[1].__index__())).a), "linalg": linalg, "vstack": lambda t: Flat(flat(t)),
                 "asarray": lambda x: x, "sqrt": need(lambda x: x.sqrt()), "arctan2": need(alg.atan2), "arctan": need(alg.atan), "arcsin": need(alg.asin), "arccos": need(alg.acos)}
        for f in ("sin", "cos", "tan"): table[f] = need(getattr(alg, f))
        return table
    def function(self, mod, name, args, inputs):
        """(names and values at the end, returned value)"""
        tree, table = self.mods[mod], self.names()
        env = {"__builtins__": {}, "__c": lambda v: self.R.C(v if isinstance(v, int) else Fraction(repr(v))), "float": float, "dict": dict, "abs": lambda x: alg.absolute(x)}
        fn = None
        for st in tree.body:
            if isinstance(st, ast.ImportFrom):
                for a in st.names:
                    n = a.asname or a.name
                    if st.module == "numpy":
                        if a.name in table: env[n] = table[a.name]
                    elif a.name.endswith("_sensors"):
                        env[n] = lambda *x, f=a.name: Later(lambda: self.function("sensors", f, list(zip(("time", "y"), x)), inputs)[1])
                    elif st.module == "regulators":
                        import regulators
                        env[n] = getattr(regulators, a.name)
            elif isinstance(st, ast.FunctionDef) and st.name == name: fn = st
        if fn is None: raise Wrong("no function %s" % name)
        if [a.arg for a in fn.args.args] != [a for a, v in args]: raise Wrong("arguments of %s" % name)
        env["_inputs"] = dict(inputs)
        env.update(args)
        for st in fn.body:
            st = Consts().visit(st)
            if isinstance(st, ast.Return):
                e = ast.fix_missing_locations(ast.Expression(st.value))
                return env, self.go(compile(e, "<written>", "eval"), env, eval)
            if isinstance(st, ast.Assign):
                self.go(compile(ast.fix_missing_locations(ast.Module([st], [])), "<written>", "exec"), env, exec)
            else: raise Unsupported("statement in Python: %s" % type(st).__name__)
        raise Wrong("%s returns nothing" % name)
    def go(self, code, env, how):
        try: return how(code, env)
        except (NameError, ValueError, TypeError, AttributeError, KeyError, IndexError) as e:
            raise Wrong("%s: %s" % (type(e).__name__, e))

# ------------------------------------------------------------------ the other languages
def without(text, pat):
    return re.sub(pat, "", text, flags=re.S)

def c_function(R, text, name, args):
    """args: name -> value; arrays are lists that the function fills. Returns (variables, written arguments)"""
    text = without(text, r"/\*.*?\*/")
    m = re.search(r"\bint\s+%s\s*\((.*?)\)\s*\{(.*)\}\s*$" % re.escape(name), text, re.S)
    if not m: raise Wrong("no function %s" % name)
    env, outs = {}, {}
    E = Eval(R, "c", env)
    for a in m.group(1).split(","):
        p = re.fullmatch(r"\s*double\s*(\*?)\s*(\w+)((?:\[\d+\])*)\s*", a)
        if not p: raise Wrong("argument %r" % a)
        n = p.group(2)
        if n in args: env[n] = args[n]
        else:
            dims = [int(x) for x in re.findall(r"\[(\d+)\]", p.group(3))]
            if not p.group(1) and not dims: outs[n] = None          # by value: the caller never sees it
            env[n] = outs[n] = shaped(R, dims) if not p.group(1) else [R.C(0)]
            if not p.group(1) and not dims: outs[n] = Wrong("%s is passed by value" % n)
    def block(body):
        for st in split_c(body):
            if st.startswith("{"):
                block(st[1:-1]); continue
            d = re.fullmatch(r"(?:const\s+)?double\s+(\w+)((?:\[\d+\])*)\s*(?:=\s*(.*))?", st, re.S)
            if d:
                dims = [int(x) for x in re.findall(r"\[(\d+)\]", d.group(2))]
                v = E.text(d.group(3)) if d.group(3) else None
                env[d.group(1)] = filled(R, dims, v)
                continue
            if re.match(r"return\b", st): return
            l = re.fullmatch(r"legs\s*\((.*)\)", st, re.S)
            if l:
                a = [x.strip() for x in l.group(1).split(",")]
                if len(a) == 4: size = E.index(Parser(a[0], "c").all()); a = a[1:]
                else: size = len(env[a[0]])
                A, b, x = env[a[0]], env[a[1]], env[a[2]]
                if not (len(A) == len(b) == len(x) == size): raise Wrong("sizes in legs")
                s = solve(Mat(A), Mat([[y] for y in b]))
                for i in range(size): x[i] = s[i, 0]
                continue
            k = re.fullmatch(r"(\*?)\s*(\w+)((?:\[\d+\])*)\s*=(?!=)\s*(.*)", st, re.S)
            if not k: raise Wrong("statement %r" % st[:60])
            v = E.text(k.group(4))
            if not isinstance(v, Rat): raise Wrong("an array is assigned: %r" % st[:60])
            ix = [int(x) for x in re.findall(r"\[(\d+)\]", k.group(3))]
            n = k.group(2)
            if n not in env: raise Wrong("%s is not declared" % n)
            if k.group(1): env[n][0] = v
            elif not ix:
                if isinstance(env[n], list): raise Wrong("%s is an array" % n)
                env[n] = v
            else:
                t = env[n]
                for i in ix[:-1]:
                    if not isinstance(t, list) or i >= len(t): raise Wrong("index of %s" % n)
                    t = t[i]
                if not isinstance(t, list) or ix[-1] >= len(t) or isinstance(t[ix[-1]], list): raise Wrong("index of %s" % n)
                t[ix[-1]] = v
    block(m.group(2))
    return env, outs
def shaped(R, dims):
    return [shaped(R, dims[1:]) for _ in range(dims[0])] if dims else R.C(0)
def filled(R, dims, v):
    if not dims:
        if v is not None and not isinstance(v, Rat): raise Wrong("array as the value of a scalar")
        return v if v is not None else R.C(0)
    v = v or []
    if not isinstance(v, list) or len(v) > dims[0]: raise Wrong("initial values of an array")
    return [filled(R, dims[1:], v[i] if i < len(v) else (None if len(dims) == 1 else [])) for i in range(dims[0])]
def split_c(body):
    out, depth, cur = [], 0, ""
    start = True
    for ch in body:
        if ch == "{":
            if depth == 0 and not cur.strip(): start = True
            elif depth == 0: start = False
            depth += 1
        if ch == ";" and depth == 0:
            if cur.strip(): out.append(cur.strip())
            cur = ""; continue
        cur += ch
        if ch == "}":
            depth -= 1
            if depth == 0 and start and cur.strip().startswith("{"): out.append(cur.strip()); cur = ""
    if cur.strip(): raise Wrong("%r is left over" % cur.strip()[:40])
    return out

def m_function(R, text, name, args, extra):
    """(variables, returned value)"""
    lines = []
    for l in text.replace("...\n", " ").split("\n"):
        l = re.sub(r"%.*", "", l)
        lines.append(l)
    body, head, out = "", None, None
    for l in lines:
        h = re.match(r"\s*function\s+(\w+)\s*=\s*(\w+)\s*\(([^)]*)\)", l)
        if h and h.group(2) == name: head = h; out = h.group(1); continue
        if h: break
        if head: body += l + "\n"
    if not head: raise Wrong("no function %s" % name)
    names = [a.strip() for a in head.group(3).split(",") if a.strip()]
    if names != list(args): raise Wrong("arguments of %s: %s" % (name, names))
    env = dict(args); E = Eval(R, "m", env)
    env.update(extra)
    S = {}
    for st in split_m(body):
        if st == "end": break
        k = re.fullmatch(r"([\w.]+)\s*=(?!=)\s*(.*)", st, re.S)
        if not k: raise Wrong("statement %r" % st[:60])
        n, rhs = k.groups()
        c = re.fullmatch(r"(\w+)_inputs\s*\(\s*\)", rhs.strip())
        if c: env.update({n + "." + x: v for x, v in extra["__inputs"].items()}); continue
        v = E.text(rhs)
        if n.startswith(out + "."): S[n[len(out) + 1:]] = v
        else: env[n] = v
    return env, (S if S or out not in env else env[out])
def ms_function(R, text, name, free):
    """the functions for Matlab's symbolic toolbox: quantities are symbols, values of parameters stand in comments"""
    m = re.search(r"^\s*function\s+(\w+)\s*=\s*%s\b[^\n]*\n(.*)" % re.escape(name), text, re.S | re.M)
    if not m: raise Wrong("no function %s" % name)
    noted, name, value = {}, None, ""
    for l in m.group(2).split("\n"):
        d = re.match(r"\s*%\s*(.*)$", l)
        if not d: name = None; continue
        h = re.match(r"(\w+)\s*=\s*(.*)$", d.group(1)) if name is None else None
        if h: name, value = h.group(1), h.group(2)
        elif name: value += " " + d.group(1)
        if name and value.rstrip().endswith(";") and value.count("[") == value.count("]"): noted[name] = value.rstrip()[:-1]; name = None
    body = re.sub(r"%.*", "", m.group(2)).replace("...\n", " "); env = {}; E = Eval(R, "m", env); S = {}
    for st in split_m(body):
        if st == "end": break
        d = re.fullmatch(r"syms\s+(.*)", st)
        if d:
            for n in d.group(1).split(): env[n] = free[n]
            continue
        k = re.fullmatch(r"([\w.]+)\s*=(?!=)\s*(.*)", st, re.S)
        if not k: raise Wrong("statement %r" % st[:60])
        n, rhs = k.groups()
        d = re.fullmatch(r"sym\s*\(\s*'(\w+)'\s*(?:,\s*\[\s*(\d+)[ ,]+(\d+)\s*\]\s*)?\)", rhs.strip())
        if d:
            if d.group(1) != n: raise Wrong("%s is the symbol %s" % (n, d.group(1)))
            if n in free: v = free[n]
            elif n in noted: v = E.text(noted[n])
            else: raise Wrong("unknown symbol " + n)
            s = (int(d.group(2)), int(d.group(3))) if d.group(2) else None
            if (v.shape if isinstance(v, Mat) else None) != s: raise Wrong("shape of " + n)
            env[n] = v; continue
        v = E.text(rhs)
        if n.startswith(m.group(1) + "."): S[n[len(m.group(1)) + 1:]] = v
        else: env[n] = v
    return env, (S if S or m.group(1) not in env else env[m.group(1)])
def split_m(body):
    out, depth, cur = [], 0, ""
    for ch in body:
        if ch in "([": depth += 1
        if ch in ")]": depth -= 1
        if ch in ";\n" and depth == 0:
            if cur.strip(): out.append(cur.strip())
            cur = ""
        elif ch == "\n": cur += " "
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def f_function(R, text, name, args):
    """(variables, names of the arguments written to)"""
    text = re.sub(r"!.*", "", text)
    text = re.sub(r"&[ \t]*\n\s*&?", " ", text)
    lines = [l.strip() for l in text.split("\n")]
    head = None; env = {k.lower(): v for k, v in args.items()}; E = Eval(R, "f", env); shape, outs = {}, []
    for l in lines:
        if not l: continue
        h = re.fullmatch(r"subroutine\s+(\w+)\s*\(([^)]*)\)", l, re.I)
        if h and h.group(1).lower() == name.lower(): head = [a.strip().lower() for a in h.group(2).split(",")]; continue
        if head is None: continue
        if re.match(r"end\s+subroutine", l, re.I): break
        if re.match(r"(use|implicit)\b", l, re.I): continue
        d = re.fullmatch(r"(double precision|integer)([^:]*)::\s*(\w+)\s*(?:=\s*(.*))?", l, re.I)
        if d:
            attr = d.group(2).lower(); n = d.group(3).lower()
            dim = re.search(r"dimension\s*\(\s*(\d+)\s*,\s*(\d+)\s*\)", attr)
            if n in shape: raise Wrong("%s is declared twice" % n)
            shape[n] = (int(dim.group(1)), int(dim.group(2))) if dim else None
            known = re.sub(r"dimension\s*\([^)]*\)|intent\s*\(\s*(in|out|inout)\s*\)|parameter|,|\s", "", attr)
            if known: raise Wrong("attribute %s" % known)
            if "intent(out)" in attr.replace(" ", ""): outs.append(n)
            if "intent(in)" in attr.replace(" ", ""):
                v = env.get(n)
                if v is not None and (v.shape if isinstance(v, Mat) else None) != shape[n] and n != "y": raise Wrong("shape of the argument %s" % n)
                if n == "y" and (shape[n] is None or shape[n][0] > v.shape[0]): raise Wrong("y has %s elements" % (shape[n],))
            if d.group(4):
                v = E.text(d.group(4)); conform(n, shape[n], v); env[n] = spread(R, shape[n], v)
            continue
        k = re.fullmatch(r"(\w+)\s*=(?!=)\s*(.*)", l)
        if not k: raise Wrong("statement %r" % l[:60])
        n = k.group(1).lower()
        if n not in shape: raise Wrong("%s is not declared" % n)
        v = E.text(k.group(2)); conform(n, shape[n], v)
        env[n] = spread(R, shape[n], v)
    if head is None: raise Wrong("no subroutine %s" % name)
    for n in head:
        if n not in shape: raise Wrong("argument %s is not declared" % n)
    return env, outs
def conform(n, shape, v):
    if isinstance(v, Mat) and v.shape != shape or isinstance(v, list): raise Wrong("%s of shape %s is given a value of shape %s" % (n, shape, getattr(v, "shape", "list")))
def spread(R, shape, v):
    if shape and isinstance(v, Rat): return Mat([[v] * shape[1] for _ in range(shape[0])])
    return v

def mo_model(R, text, name, free):
    """free: name -> value of states, inputs, time. Returns the variables; derivatives as der(x)"""
    text = re.sub(r"//.*", "", text)
    text = re.sub(r'"[^"]*"', "", text)
    m = re.search(r"\bmodel\s+%s\b(.*)\bequation\b(.*)\bend\s+%s\s*;" % (re.escape(name), re.escape(name)), text, re.S)
    if not m: raise Wrong("no model %s" % name)
    env, shape = dict(free), {}
    E = Eval(R, "mo", env)
    start = {}
    for st in m.group(1).split(";"):
        st = re.sub(r"^\s*protected\b", "", st.strip()).strip()
        if not st or st.startswith("import"): continue
        d = re.fullmatch(r"(parameter\s+|constant\s+|input\s+|output\s+)?Real\s*(\[[^\]]*\])?\s*(\w+)\s*(\(.*\))?\s*(?:=\s*(.*))?", st, re.S)
        if not d: raise Wrong("declaration %r" % st[:60])
        n = d.group(3)
        if n in shape: raise Wrong("%s is declared twice" % n)
        shape[n] = tuple(int(x) for x in d.group(2)[1:-1].split(",")) if d.group(2) else None
        if d.group(4):
            s = re.search(r"start\s*=\s*(.*?)(?:,\s*each\b.*)?\)\s*$", d.group(4), re.S)
            if s: start[n] = E.mo(E.text(s.group(1)))
        if d.group(5):
            v = E.mo(E.text(d.group(5))); conform(n, shape[n], v); env[n] = v
        if n in free and (free[n].shape if isinstance(free[n], Mat) else None) != shape[n]: raise Wrong("shape of %s" % n)
    todo = []
    for st in split_m(m.group(2).replace("\n", " ")):
        k = re.fullmatch(r"(der\(\s*\w+\s*\)|\w+|\{.*?\})\s*=(?!=)\s*(.*)", st, re.S)
        if not k: raise Unsupported("equation %r" % st[:60])
        todo.append((re.sub(r"\s", "", k.group(1)), k.group(2)))
    seen = set()
    for l, r in todo:                                    # the equations come sorted; an unsorted one is reported as outside
        ns = re.findall(r"\w+", l) if l.startswith("{") else [l]
        for n in ns:
            if n in seen or n in free: raise Wrong("%s has two equations" % n)
            seen.add(n)
        try: v = E.mo(E.text(r))
        except Wrong as e:
            if "before it has a value" in str(e): raise Unsupported(str(e))
            raise
        if l.startswith("{"):
            vs = flat(v)
            if len(vs) != len(ns): raise Wrong("%d names for %d values" % (len(ns), len(vs)))
            for n, x in zip(ns, vs): env[n] = x
        else:
            base = re.fullmatch(r"der\((\w+)\)", l)
            b = base.group(1) if base else l
            if b not in shape: raise Wrong("%s is not declared" % b)
            if (v.shape if isinstance(v, Mat) else None) != shape[b]: raise Wrong("%s of shape %s is given a value of shape %s" % (l, shape[b], getattr(v, "shape", "scalar")))
            env[l] = v
    for n in shape:
        if n not in env and n not in free and "der(%s)" % n not in env: raise Wrong("%s has no equation" % n)
    return env, start
