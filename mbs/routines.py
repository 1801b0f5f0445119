"""The routines that the writers put beside the models (functionmodule.c, functionmodule.f90): solution of systems of equations,
inverse, powers. Their text is parsed and executed symbolically; every comparison is a fork, decided by z3."""
import re
from fractions import Fraction
import z3
import alg
from alg import Rat, Unsupported
from texts import Wrong

TOK = re.compile(r"\s*(\d+\.?\d*(?:[dDeE][-+]?\d+)?|\.\d+(?:[dDeE][-+]?\d+)?|\.(?:gt|lt|ge|le|eq|ne|and|or|not|true|false)\.|[A-Za-z_]\w*|\*\*|\(/|/\)|\+\+|--|[-+*/]=|&&|\|\||[<>=!/]=|.)", re.I)
def tokens(s):
    s = s.strip(); out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i); out.append(m.group(1)); i = m.end()
    return [t for t in out if t.strip()]
DOT = {".gt.": ">", ".lt.": "<", ".ge.": ">=", ".le.": "<=", ".eq.": "==", ".ne.": "!=", ".and.": "&&", ".or.": "||", "/=": "!=", ".not.": "!"}
PREC = [["||"], ["&&"], ["==", "!=", ">", "<", ">=", "<="], ["+", "-"], ["*", "/", "%"]]

class Parser:
    def __init__(self, toks, fortran): self.t, self.i, self.f = toks, 0, fortran
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ""
    def op(self):
        p = self.peek().lower()
        return DOT.get(p, p) if self.f or p != "/=" else p
    def take(self, x=None):
        p = self.peek()
        if x is not None and p != x: raise Unsupported("expected %s, found %s" % (x, " ".join(self.t[self.i:self.i + 6])))
        self.i += 1; return p
    def expr(self, level=0):
        if level == len(PREC): return self.unary()
        a = self.unary(level) if self.f and level == 3 and self.peek() in "-+" else self.expr(level + 1)
        while self.op() in PREC[level]:
            o = self.op(); self.i += 1; a = ("bin", o, a, self.expr(level + 1))
        if level == 0 and not self.f and self.peek() == "?":
            self.take(); b = self.expr(); self.take(":"); a = ("if", a, b, self.expr())
        return a
    def unary(self, level=None):
        o = self.op()
        if o in ("-", "+", "!"):
            self.i += 1; a = self.expr(4) if self.f and o != "!" else self.expr(2) if self.f else self.unary()
            return ("un", o, a)
        return self.postfix()
    def postfix(self):
        p = self.take()
        if p == "(": 
            if not self.f and self.peek() in ("double", "int", "float"): ty = self.take(); self.take(")"); return ("cast", ty, self.unary())
            a = self.expr(); self.take(")")
        elif p == "(/":
            a = ("list", self.args("/)"))
        elif re.match(r"[\d.]", p): a = ("num", p)
        elif re.match(r"[A-Za-z_]", p): a = ("name", p.lower() if self.f else p)
        else: raise Unsupported("unexpected " + p)
        while True:
            if self.peek() == "(": self.take(); a = ("call", a, self.args(")"))
            elif self.peek() == "[" and not self.f: self.take(); e = self.expr(); self.take("]"); a = ("index", a, e)
            elif self.f and self.peek() == "**": self.take(); return ("bin", "**", a, self.unary())
            else: return a
    def args(self, end):
        out = []
        while self.peek() != end:
            out.append(("all",) if self.peek() == ":" else self.expr())
            if self.peek() == ":" and out[-1] != ("all",): raise Unsupported("section of an array")
            if self.peek() == ":": self.take()
            if self.peek() != end: self.take(",")
        self.take(end); return out
    # -------------------------------------------------------------- C
    def block(self):
        if self.peek() == "{":
            self.take(); out = []
            while self.peek() != "}": out.append(self.stmt())
            self.take(); return ("block", out)
        return self.stmt()
    def simple(self):
        if self.peek() in ("double", "int", "float", "const", "long", "unsigned", "size_t"):
            while self.peek() in ("double", "int", "float", "const", "long", "unsigned", "size_t"): ty = self.take()
            out = []
            while True:
                n = self.take(); dims = []; init = None
                while self.peek() == "[": self.take(); dims.append(self.expr()); self.take("]")
                if self.peek() == "=": self.take(); init = self.expr()
                out.append(("decl", "double" if ty in ("double", "float") else "int", n, dims, init))
                if self.peek() != ",": break
                self.take()
            return ("block", out)
        if self.peek() in ("++", "--"): o = self.take(); return ("set", self.postfix(), o[0], ("num", "1"))
        a = self.expr()
        p = self.peek()
        if p in ("=", "+=", "-=", "*=", "/="): self.take(); return ("set", a, p[:-1] , self.expr())
        if p in ("++", "--"): self.take(); return ("set", a, p[0], ("num", "1"))
        return ("do", a)
    def stmt(self):
        p = self.peek()
        if p == "{": return self.block()
        if p == ";": self.take(); return ("block", [])
        if p == "for":
            self.take(); self.take("("); a = self.simple() if self.peek() != ";" else ("block", []); self.take(";")
            c = self.expr() if self.peek() != ";" else ("num", "1"); self.take(";"); b = []
            while self.peek() != ")":
                b.append(self.simple())
                if self.peek() == ",": self.take()
            self.take(")"); return ("for", a, c, ("block", b), self.block())
        if p == "while": self.take(); self.take("("); c = self.expr(); self.take(")"); return ("for", ("block", []), c, ("block", []), self.block())
        if p == "if":
            self.take(); self.take("("); c = self.expr(); self.take(")"); a = self.block(); b = ("block", [])
            if self.peek() == "else": self.take(); b = self.block()
            return ("cond", c, a, b)
        if p in ("return", "break", "continue"):
            self.take(); e = None if self.peek() == ";" else self.expr(); self.take(";"); return (p, e)
        s = self.simple(); self.take(";"); return s

def read_c(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S); text = re.sub(r"//[^\n]*|^\s*#[^\n]*", " ", text, flags=re.M)
    P = Parser(tokens(text), False); fs = {}
    while P.peek():
        while P.peek() in ("static", "inline", "void", "double", "int", "const"): P.take()
        n = P.take(); P.take("("); ps = []; depth = 0
        cur = []
        while True:
            t = P.take()
            if t == "(" or t == "[": depth += 1
            if t == "]" or (t == ")" and depth): depth -= 1; cur.append(t); continue
            if t == ")" or (t == "," and not depth):
                names = [x for x in cur[:cur.index("[")] if x not in ("[",)] if "[" in cur else cur
                if names: ps.append(names[-1])
                cur = []
                if t == ")": break
            else: cur.append(t)
        if P.peek() == ";": P.take(); continue
        fs[n] = dict(params=ps, body=P.block(), result=None, decl={})
    return fs

def read_f(text):
    lines, cur = [], ""
    for l in text.split("\n"):
        l = l.split("!")[0].strip()
        if not l: continue
        cur = (cur + " " + l).strip()
        if cur.endswith("&"): cur = cur[:-1]; continue
        lines += [x.strip() for x in cur.split(";") if x.strip()]; cur = ""
    fs, i = {}, 0
    E = lambda s: (lambda P: (P.expr(), P.i == len(P.t) or (_ for _ in ()).throw(Unsupported("Fortran: " + s)))[0])(Parser(tokens(s), True))
    def simple(l):
        d = 0
        for k, c in enumerate(l):
            d += (c == "(") - (c == ")")
            if c == "=" and d == 0 and l[k - 1] not in "=/<>" and l[k + 1:k + 2] != "=": return ("set", E(l[:k]), "", E(l[k + 1:]))
        m = re.match(r"call\s+(.*)$", l, re.I)
        if m: return ("do", E(m.group(1) if "(" in m.group(1) else m.group(1) + "()"))
        if re.fullmatch(r"return", l, re.I): return ("return", None)
        if re.fullmatch(r"exit", l, re.I): return ("break", None)
        if re.fullmatch(r"cycle", l, re.I): return ("continue", None)
        raise Unsupported("Fortran: " + l)
    def body(end):
        nonlocal i
        out = []
        while not re.fullmatch(end, lines[i], re.I):
            l = lines[i]; i += 1
            if re.match(r"(implicit|contains|use)\b", l, re.I): continue
            m = re.match(r"(double precision|integer|logical|real)\b(.*)::(.*)$", l, re.I)
            if m:
                dm = re.search(r"dimension\s*\(", m.group(2), re.I); dims = None
                if dm:
                    s = m.group(2)[dm.end():]; d, k = 1, 0
                    while d: d += (s[k] == "(") - (s[k] == ")"); k += 1
                    dims = Parser(tokens(s[:k - 1] + ")"), True).args(")")
                P = Parser(tokens(m.group(3)), True)
                while P.peek():
                    n = P.take().lower(); dd = dims; init = None
                    if P.peek() == "(": P.take(); dd = P.args(")")
                    if P.peek() == "=": P.take(); init = P.expr()
                    out.append(("decl", "int" if m.group(1).lower() == "integer" else "double", n, dd or [], init))
                    if P.peek() == ",": P.take()
                continue
            m = re.match(r"do\s+(\w+)\s*=\s*(.*)$", l, re.I)
            if m:
                r = Parser(tokens(m.group(2) + " )"), True).args(")"); b = body(r"end\s*do"); i += 1
                out.append(("loop", m.group(1).lower(), r, b)); continue
            m = re.match(r"do\s+while\s*(\(.*\))$", l, re.I)
            if m: b = body(r"end\s*do"); i += 1; out.append(("for", ("block", []), E(m.group(1)), ("block", []), b)); continue
            m = re.match(r"if\s*\(.*\)\s*then$", l, re.I)
            if m:
                def chain(l):
                    nonlocal i
                    c = E(re.sub(r"^(else\s*)?if\s*|\s*then$", "", l, flags=re.I)); a = body(r"end\s*if|else\b.*"); e = ("block", [])
                    t = lines[i]; i += 1
                    if re.match(r"else\s*if", t, re.I): e = chain(t)
                    elif re.match(r"else", t, re.I): e = body(r"end\s*if"); i += 1
                    return ("cond", c, a, e)
                out.append(chain(l)); continue
            m = re.match(r"if\s*\(", l, re.I)
            if m:
                d, k = 1, m.end()
                while d: d += (l[k] == "(") - (l[k] == ")"); k += 1
                out.append(("cond", E(l[m.end() - 1:k]), simple(l[k:].strip()), ("block", []))); continue
            out.append(simple(l))
        return ("block", out)
    while i < len(lines):
        l = lines[i]; i += 1
        m = re.match(r"(?:recursive\s+|pure\s+)*(function|subroutine)\s+(\w+)\s*\(([^)]*)\)(?:\s*result\s*\((\w+)\))?$", l, re.I)
        if not m: continue
        b = body(r"end\s*(function|subroutine)?(\s+\w+)?"); i += 1
        n = m.group(2).lower()
        fs[n] = dict(params=[x.strip().lower() for x in m.group(3).split(",") if x.strip()], body=b, result=(m.group(4) or n).lower() if m.group(1).lower() == "function" else None)
    return fs

# ------------------------------------------------------------------ execution
class Mag:
    """the magnitude of an exact value"""
    def __init__(self, x, sq=None): self.x, self.sq = x, sq if sq is not None else x * x
class Arr:
    def __init__(self, dims, kind, fill=None, a=None):
        self.dims, self.kind = dims, kind; n = 1
        for d in dims: n *= d
        self.a = a if a is not None else [fill] * n
class Stop(Exception): pass
class Return(Exception): pass
class Break(Exception): pass
class Continue(Exception): pass
class Skip(Exception): pass

class Paths:
    """every feasible sequence of decisions, one execution each"""
    def __init__(self, dec, assume, limit=4000):
        self.dec, self.assume, self.limit = dec, assume, limit
        self.todo, self.paths, self.queries = [[]], 0, 0
    def each(self):
        while self.todo:
            if self.paths >= self.limit: raise Unsupported("more than %d paths" % self.limit)
            self.prefix = self.todo.pop(); self.taken = []
            self.s = z3.Solver(); self.s.set("timeout", 20000); self.s.add(*self.assume)
            self.paths += 1
            yield self
    def decide(self, c):
        """which way a condition goes"""
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = len(self.taken)
        if k < len(self.prefix): r = self.prefix[k]
        else:
            can = []
            for v in (True, False):
                self.s.push(); self.s.add(c if v else z3.Not(c)); q = self.s.check(); self.queries += 1; self.s.pop()
                if q != z3.unsat: can.append(v)
            if not can: raise Skip()
            if len(can) == 2: self.todo.append(self.taken + [False])
            r = can[0]
        self.taken.append(r); self.s.add(c if r else z3.Not(c))
        return r

class Machine:
    def __init__(self, fs, fortran, R, P):
        self.fs, self.f, self.R, self.P, self.steps = fs, fortran, R, P, 0
    def term(self, x):
        n, d = x.plain(); t = self.P.dec.term
        return t(n) if d.is_const() and d.value() == 1 else t(n) / t(d)
    def real(self, x):
        if isinstance(x, int): return self.R.C(x)
        if isinstance(x, Mag):
            if x.x is None: raise Unsupported("arithmetic with a magnitude")
            return x.x if self.P.decide(self.term(x.x) >= 0) else -x.x
        return x
    def compare(self, o, a, b):
        if isinstance(a, int) and isinstance(b, int): return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[o]
        sq = lambda x: x.sq if isinstance(x, Mag) else x * x if isinstance(x, Rat) else self.R.C(x * x)
        pos = lambda x: isinstance(x, Mag) or isinstance(x, int) and x >= 0 or isinstance(x, Rat) and x.is_const() and Fraction(x.num.value()) >= 0
        if pos(a) and pos(b): d = sq(a) - sq(b)
        else: d = self.real(a) - self.real(b)
        n, q = d.plain(); n, q = self.P.dec.term(n), self.P.dec.term(q)
        t = z3.simplify(n * q)
        return self.P.decide(z3.simplify({"<": t < 0, ">": t > 0, "<=": t <= 0, ">=": t >= 0, "==": n == 0, "!=": n != 0}[o]))
    def div(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if b == 0: raise Wrong("division of whole numbers by zero")
            return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        if isinstance(a, Mag) and isinstance(b, Mag):
            if self.P.decide(z3.simplify(self.term(b.sq) == 0)): raise Wrong("division by zero")
            return Mag(None, a.sq / b.sq)
        a, b = self.real(a), self.real(b)
        if self.P.decide(z3.simplify(self.P.dec.term(b.plain()[0]) == 0)): raise Wrong("division by zero")
        return a / b
    def arith(self, o, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and isinstance(b, Arr) and a.dims != b.dims: raise Wrong("arrays of different shapes")
            z = a if isinstance(a, Arr) else b; g = lambda x, k: self.got(x.a[k]) if isinstance(x, Arr) else x
            return Arr(z.dims, z.kind, a=[self.arith(o, g(a, k), g(b, k)) for k in range(len(z.a))])
        if o == "/": return self.div(a, b)
        if o == "%": return a - self.div(a, b) * b
        if o == "**": 
            r = self.R.C(1) if not isinstance(a, int) else 1
            for _ in range(abs(b)): r = self.arith("*", r, a)
            return self.div(self.R.C(1), r) if b < 0 else r
        if not (isinstance(a, int) and isinstance(b, int)): a, b = self.real(a), self.real(b)
        return a + b if o == "+" else a - b if o == "-" else a * b
    def got(self, x):
        if x is None: raise Wrong("value that was never set is used")
        return x
    def truth(self, x):
        if isinstance(x, bool): return x
        return self.compare("!=", x, 0)
    def place(self, a, ix):
        if len(ix) != len(a.dims): raise Unsupported("part of an array")
        k = 0
        for i, d in zip(ix, a.dims):
            if not isinstance(i, int): raise Unsupported("index")
            if self.f: i -= 1
            if i < 0 or i >= d: raise Wrong("index %d outside an array of %s" % (i + self.f, "x".join(map(str, a.dims))))
            k = k * d + i
        return k
    def ev(self, e, env):
        k = e[0]
        if k == "num":
            t = e[1].lower().replace("d", "e")
            return int(t) if re.fullmatch(r"\d+", t) else self.R.C(Fraction(t.rstrip("e")))
        if k == "name":
            if e[1] not in env["v"]: raise Unsupported("name " + e[1])
            x = env["v"][e[1]]
            return x if isinstance(x, Arr) else self.got(x)
        if k == "list": return Arr([len(e[1])], "double", a=[self.ev(x, env) for x in e[1]])
        if k == "cast": x = self.ev(e[2], env); return self.real(x) if e[1] != "int" else x
        if k == "if": return self.ev(e[2] if self.truth(self.ev(e[1], env)) else e[3], env)
        if k == "un":
            x = self.ev(e[2], env)
            return not self.truth(x) if e[1] == "!" else x if e[1] == "+" else self.arith("-", 0, x)
        if k == "bin":
            o = e[1]
            if o == "&&": return self.truth(self.ev(e[2], env)) and self.truth(self.ev(e[3], env))
            if o == "||": return self.truth(self.ev(e[2], env)) or self.truth(self.ev(e[3], env))
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            return self.compare(o, a, b) if o in PREC[2] else self.arith(o, a, b)
        if k == "index":
            ix = []
            while e[0] == "index": ix.insert(0, self.ev(e[2], env)); e = e[1]
            a = self.ev(e, env); return self.got(a.a[self.place(a, ix)])
        if k == "call":
            n = e[1][1]
            if n in env["v"] and isinstance(env["v"][n], Arr) and n != env.get("self"): a = env["v"][n]; return self.got(a.a[self.place(a, [self.ev(x, env) for x in e[2]])])
            if n == env.get("self"): a = env["v"][env["res"]]; return self.got(a.a[self.place(a, [self.ev(x, env) for x in e[2]])])
            return self.call(n, [self.ev(x, env) if x[0] != "name" or not isinstance(env["v"].get(x[1]), Arr) else env["v"][x[1]] for x in e[2]])
        raise Unsupported(k)
    def call(self, n, args):
        if n in self.fs: return self.run(n, args)
        if n in ("fabs", "abs", "dabs"): x = args[0]; return abs(x) if isinstance(x, int) else x if isinstance(x, Mag) else Mag(x)
        if n in ("fmax", "max", "amax1", "dmax1"):
            r = args[0]
            for x in args[1:]:
                if self.compare(">", x, r): r = x
            return r
        if n in ("fmin", "min", "amin1", "dmin1"):
            r = args[0]
            for x in args[1:]:
                if self.compare("<", x, r): r = x
            return r
        if self.f and n == "size":
            if len(args) == 1: return len(args[0].a)
            return args[0].dims[args[1] - 1]
        if self.f and n == "dble": return self.real(args[0])
        if self.f and n == "matmul":
            a, b = args
            if a.dims[1] != b.dims[0]: raise Wrong("matmul of arrays that do not fit")
            out = []
            for i in range(a.dims[0]):
                for j in range(b.dims[1]):
                    s = self.R.C(0)
                    for k in range(a.dims[1]): s = self.arith("+", s, self.arith("*", self.got(a.a[i * a.dims[1] + k]), self.got(b.a[k * b.dims[1] + j])))
                    out.append(s)
            return Arr([a.dims[0], b.dims[1]], "double", a=out)
        if self.f and n == "transpose":
            a = args[0]; r, c = a.dims
            return Arr([c, r], a.kind, a=[a.a[i * c + j] for j in range(c) for i in range(r)])
        if self.f and n == "reshape":
            s = args[1].a; r = Arr(list(s), "double")
            for k, x in enumerate(args[0].a):                    # column by column
                i, j = (k % s[0], k // s[0]) if len(s) == 2 else (k, 0)
                r.a[i * s[1] + j if len(s) == 2 else i] = self.real(x)
            return r
        raise Unsupported("function " + n)
    def run(self, n, args):
        f = self.fs[n]
        if len(args) != len(f["params"]): raise Wrong("%s is given %d arguments" % (n, len(args)))
        env = dict(v=dict(zip(f["params"], args)), k={}, params=set(f["params"]))
        for p, x in zip(f["params"], args): env["k"][p] = "int" if isinstance(x, int) else "double"
        if self.f and f["result"]: env["self"] = n; env["res"] = f["result"]; env["v"].setdefault(f["result"], None)
        try: self.do(f["body"], env)
        except Return as r:
            if r.args and r.args[0] is not None: return r.args[0]
        return env["v"].get(f["result"]) if f["result"] else None
    def do(self, s, env):
        self.steps += 1
        if self.steps > 200000: raise Wrong("does not end")
        k = s[0]
        if k == "block":
            for x in s[1]: self.do(x, env)
        elif k == "decl":
            if self.f and (s[2] in env["params"] or s[2] in self.fs and s[2] != env.get("self") and s[2] != env.get("res")): return
            env["k"][s[2]] = s[1]
            if s[3]: env["v"][s[2]] = Arr([self.ev(d, env) for d in s[3]], s[1])
            else:
                env["v"][s[2]] = None
                if s[4] is not None: self.do(("set", ("name", s[2]), "", s[4]), env)
        elif k == "set":
            _, t, o, e = s; x = self.ev(e, env)
            if self.f and t[0] == "name" and isinstance(env["v"].get(t[1]), Arr):
                a = env["v"][t[1]]; c = lambda y: self.convert(a.kind, y)
                if isinstance(x, Arr):
                    if x.dims != a.dims: raise Wrong("arrays of different shapes")
                    a.a[:] = [c(y) if y is not None else None for y in x.a]
                else: a.a[:] = [c(x)] * len(a.a)
                return
            if o: x = self.arith(o, self.ev(t, env), x)
            if t[0] == "name":
                if t[1] not in env["v"]: raise Unsupported("name " + t[1])
                env["v"][t[1]] = self.convert(env["k"].get(t[1], "double"), x); return
            if t[0] == "call": n = t[1][1]; a = env["v"][env["res"] if n == env.get("self") else n]; ix = [self.ev(y, env) for y in t[2]]
            else:
                ix = []
                while t[0] == "index": ix.insert(0, self.ev(t[2], env)); t = t[1]
                a = self.ev(t, env)
            a.a[self.place(a, ix)] = self.convert(a.kind, x)
        elif k == "do": self.ev(s[1], env)
        elif k == "cond": self.do(s[2] if self.truth(self.ev(s[1], env)) else s[3], env)
        elif k == "for":
            self.do(s[1], env)
            while self.truth(self.ev(s[2], env)):
                self.steps += 1
                if self.steps > 200000: raise Wrong("does not end")
                try: self.do(s[4], env)
                except Break: break
                except Continue: pass
                self.do(s[3], env)
        elif k == "loop":
            r = [self.ev(x, env) for x in s[2]]; i, end, by = r[0], r[1], r[2] if len(r) > 2 else 1
            for i in range(i, end + (1 if by > 0 else -1), by):
                env["v"][s[1]] = i; env["k"][s[1]] = "int"
                try: self.do(s[3], env)
                except Break: break
                except Continue: pass
            else: env["v"][s[1]] = end + by if False else i + by if range(r[0], end + (1 if by > 0 else -1), by) else r[0]
        elif k == "return": raise Return(self.ev(s[1], env) if s[1] is not None else None)
        elif k == "break": raise Break()
        elif k == "continue": raise Continue()
        else: raise Unsupported(k)
    def convert(self, kind, x):
        if kind == "double" and isinstance(x, int): return self.R.C(x)
        if kind == "int" and not isinstance(x, int):
            if isinstance(x, Rat) and x.is_const() and Fraction(x.num.value()).denominator == 1: return int(Fraction(x.num.value()))
            raise Unsupported("rounding")
        return x

# ------------------------------------------------------------------ what they have to do
def matrices(n):
    """patterns of matrices: a number, or ? for any value"""
    if n == 1: return [["?"]]
    if n == 2: return [["? ?", "? ?"]]
    if n == 3: return [["? 1 2", "? 3 -1", "? 2 5"], ["2 ? 1", "-3 ? 4", "1 ? 2"], ["1 2 ?", "4 -2 ?", "3 1 ?"], ["? ? 1", "2 ? -1", "0 1 3"], ["0 ? 1", "? 0 2", "1 3 ?"], ["0 0 ?", "0 ? 1", "? 2 3"], ["? 2 3", "1 ? -2", "2 1 ?"], ["? ? ?", "1 2 4", "3 -1 2"], ["1 0 0", "? ? ?", "2 1 3"]]
    if n == 4: return [["0 ? 1 2", "1 0 3 1", "2 1 0 ?", "1 1 2 0"], ["1 2 3 ?", "2 1 ? 0", "0 ? 1 1", "? 0 2 3"]]
def det(m):
    if len(m) == 1: return m[0][0]
    return sum((m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) * (-1) ** j for j in range(1, len(m))), m[0][0] * det([r[1:] for r in m[1:]]))
def minor_inverse(m):
    n = len(m); d = det(m)
    if n == 1: return [[d / (d * d)]]
    return [[det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) * (-1) ** (i + j) / d for j in range(n)] for i in range(n)]
def symbolic(R, rows, tag):
    return [[R.V("%s%d%d" % (tag, i, j)) if x == "?" else R.C(int(x)) for j, x in enumerate(r.split())] for i, r in enumerate(rows)]

class Native:
    """the same routine compiled"""
    def __init__(self, lang, path): self.lang, self.path, self.lib = lang, path, {}
    def call(self, name, n, A, b=None, e=None):
        import ctypes, os, subprocess
        A = [float(x) for r in A for x in r]; D = ctypes.c_double
        if name not in self.lib:
            so = os.path.join(self.path, "routine_%s.so" % name)
            if self.lang == "c": open(self.path + "/r.c", "w").write('#include "functionmodule.c"\nvoid go(int n, double *A, double *b, double *x) { legs(n, (double (*)[n])A, b, x); }\n'); cmd = ["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, "r.c", "-lm"]
            else:
                call = {"legs": "X(:,1:1) = LEGS(A, B)", "migs": "X = MIGS(A)", "matpow": "X = MATPOW(A, E)"}[name]
                open(self.path + "/r.f90", "w").write("subroutine go(n, A, B, X, E) bind(c)\nuse functionmodule\nuse iso_c_binding\ninteger(c_int) :: n, E\ndouble precision :: A(n,n), B(n,1), X(n,n)\n%s\nend subroutine\n" % call)
                cmd = ["gfortran", "-O1", "-w", "-shared", "-fPIC", "-J", self.path, "-o", so, "functionmodule.f90", "r.f90"]
            p = subprocess.run(cmd, cwd=self.path, capture_output=True, text=True)
            if p.returncode: raise Wrong("the compiler refuses it: " + p.stderr[:400])
            self.lib[name] = ctypes.CDLL(so)
        g = self.lib[name].go; x = (D * (n * n))(*[float("nan")] * (n * n)); B = (D * n)(*[float(v) for v in (b or [0] * n)])
        if self.lang == "c": g(n, (D * (n * n))(*A), B, x); return list(x[:n])
        col = (D * (n * n))(*[A[i * n + j] for j in range(n) for i in range(n)]); N, E = ctypes.c_int(n), ctypes.c_int(e or 0)
        g(ctypes.byref(N), col, B, x, ctypes.byref(E))
        return [x[i] for i in range(n)] if name == "legs" else [[x[j * n + i] for j in range(n)] for i in range(n)]

def routines(arg, out):
    """arg: [c or f, routine, pattern, exponent]"""
    import contextlib, io, os, shutil, tempfile, numpy, vbuild, written
    from decide import Decider
    lang, name, rows, e = arg; shown = "%s %s%s" % ({"c": "C", "f": "Fortran"}[lang], name, "" if e is None else " exponent %d" % e)
    base = os.path.join(vbuild.BUILD, "written"); os.makedirs(base, exist_ok=True); path = tempfile.mkdtemp(dir=base)
    try:
        names, ref, write = written.graph_model("systems_of_two_sizes"); write(lang, path)
        text = open(os.path.join(path, "functionmodule.c" if lang == "c" else "functionmodule.f90")).read()
        fs = read_c(text) if lang == "c" else read_f(text)
        if name not in fs: raise Unsupported("no routine " + name)
        R = alg.Ring(); dec = Decider(R); nat = Native(lang, path); n = len(rows) if rows else 3
        if name in ("scalar", "skew"):
            v = [R.V("v%d" % i) for i in range(n)]; P = Paths(dec, [])
            for _ in P.each():
                M = Machine(fs, True, R, P)
                got = M.run(name, [Arr([1, 1], "double", a=[v[0]]) if name == "scalar" else Arr([3, 1], "double", a=list(v))])
                z = R.C(0); want = [v[0]] if name == "scalar" else [z, -v[2], v[1], v[2], z, -v[0], -v[1], v[0], z]
                for k, (x, y) in enumerate(zip([got] if name == "scalar" else got.a, want)):
                    out["checked"] += 1; p = dec.differ(M.real(x), y)
                    if p == "undecided": out["undecided"].append("%s[%d]" % (shown, k))
                    elif p is not None: out["found"].append(("%s: element %d" % (shown, k), "%s gives %s, should be %s\n%s" % (shown, x, y, p)))
            out["queries"] += dec.queries; out["solver_s"] += dec.seconds; return
        A = symbolic(R, rows, "A"); b = [R.V("b%d" % i) for i in range(n)]
        d = det(A); P = Paths(dec, [dec.term(d.plain()[0]) != 0] if name == "legs" or name == "migs" or e < 0 else [])
        wrong, t0 = None, __import__("time").time()
        for _ in P.each():
            M = Machine(fs, lang == "f", R, P); more = None
            try:
                a = Arr([n, n], "double", a=[x for r in A for x in r])
                if lang == "c":
                    x = Arr([n], "double"); M.run("legs", [n, a, Arr([n], "double", a=list(b)), x]); X = [[M.got(y)] for y in x.a]
                elif name == "legs": x = M.run(name, [a, Arr([n, 1], "double", a=list(b))]); X = [[M.got(y)] for y in x.a]
                else:
                    x = M.run(name, [a] + ([] if e is None else [e])); X = [[M.got(x.a[i * n + j]) for j in range(n)] for i in range(n)]
                mul = lambda p, q: [[alg.dot(r, [c[j] for c in q]) for j in range(len(q[0]))] for r in p]
                one = [[R.C(int(i == j)) for j in range(n)] for i in range(n)]
                if name == "legs": left, right = mul(A, X), [[y] for y in b]
                elif name == "migs": left, right = mul(A, X), one
                else:
                    p = one
                    for _i in range(abs(e)): p = mul(p, A)
                    left, right = (X, p) if e >= 0 else (mul(p, X), one)
                for l, r in zip(left, right):
                    for y, z in zip(l, r):
                        out["checked"] += 1
                        if (y - z).num.zero():
                            # the normal forms agree; the solver's word on the cleared identity
                            if dec.differ(y, z) is None: continue
                        (yn, yd), (zn, zd) = y.plain(), z.plain()
                        s = P.s; s.push(); s.add(dec.term(yn) * dec.term(zd) != dec.term(zn) * dec.term(yd)); q = s.check(); P.queries += 1
                        if q == z3.sat: more = s.model(); wrong = "wrong result"
                        elif q != z3.unsat: out["undecided"].append("%s %s" % (shown, rows))
                        s.pop()
                        if wrong: break
                    if wrong: break
            except Wrong as ex:
                wrong = str(ex); q = P.s.check(); more = P.s.model() if q == z3.sat else None
                if more is None: wrong = None; continue
            except Skip: continue
            if wrong: break
        if wrong:
            val = lambda x: (lambda v: float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(12).as_fraction()))(more.eval(dec.var(R.var(x)) if False else z3.Real(x), model_completion=True))
            An = [[val("A%d%d" % (i, j)) if x == "?" else float(x) for j, x in enumerate(r.split())] for i, r in enumerate(rows)]; bn = [val("b%d" % i) for i in range(n)]
            try:
                x = nat.call(name, n, An, bn, e); m = numpy.array(An)
                want = numpy.linalg.solve(m, bn) if name == "legs" else numpy.linalg.inv(m) if name == "migs" else numpy.linalg.matrix_power(m, e)
                same = numpy.allclose(x, want, rtol=1e-6, atol=1e-9)
            except Wrong as ex: x, want, same = str(ex), None, False
            what = "%s: %s" % (shown, wrong)
            t = "%s\nA = %s, b = %s\nthe compiled routine gives %s\nshould be %s" % (what, An, bn, x, want)
            if same: out["unreproduced"].append(t)
            else: out["found"].append((what, t))
        out["samples"].append("%s %s: %d paths" % (shown, rows, P.paths))
        out["queries"] += P.queries + dec.queries; out["solver_s"] += __import__("time").time() - t0
    finally: shutil.rmtree(path, ignore_errors=True)
