"""Evaluates the assignments the generator produced, over exact symbolic values."""
import ast
from fractions import Fraction
import alg
from alg import Rat, Mat, Unsupported

class Solved(Exception):
    pass

class Consts(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return ast.copy_location(ast.Call(ast.Name("__c", ast.Load()), [n], []), n)
        return n

class Run:
    def __init__(self, R, free, states, keep=()):
        """free: name -> value of everything no assignment defines; states: names of the state vectors"""
        self.R, self.states = R, set(states)
        self.keep = dict(keep)                           # names that stay variables whatever is assigned to them
        self.declared = {}                               # state vector -> names, for states the equations do not use
        self.vector = {}
        self.layout = {}                                 # state vector -> names of its elements
        self.solved = []                                 # (matrix, right side, unknowns)
        self.assigned = []
        self.now = None                                  # what is being assigned
        self.lazy = False                                # what is kept is not evaluated
        self.env = {"__c": lambda v: R.C(v if isinstance(v, int) else Fraction(repr(v))),
                    "matrix": self.matrix, "zeros": self.zeros, "float": float, "linalg": self, "__builtins__": {}}
        for f in ("sin", "cos", "tan", "atan2", "acos", "asin", "atan"):
            self.env[f] = self.lift(getattr(alg, f))
        self.env["sqrt"] = self.lift(lambda x: x.sqrt())
        self.env["fabs"] = self.env["abs"] = self.lift(alg.absolute)
        self.free = dict(free)
        self.env.update(free)
    def lift(self, f):
        def g(*a):
            if any(isinstance(x, Mat) for x in a): raise Unsupported("function of a matrix")
            return f(*a)
        return g
    def matrix(self, x, dtype=None):
        if isinstance(x, Mat): return x
        if isinstance(x, Rat): return Mat([[x]])
        if isinstance(x, list):
            rows = [r if isinstance(r, list) else [r] for r in x] if any(isinstance(r, list) for r in x) else [x]
            for r in rows:
                for e in r:
                    if not isinstance(e, Rat): raise ValueError("matrix inside a matrix")
            if len({len(r) for r in rows}) != 1: raise ValueError("rows of unequal length")
            return Mat(rows)
        raise Unsupported("matrix(%s)" % type(x).__name__)
    def zeros(self, s):
        return alg.zeros(self.R, int(s[0].__index__()), int(s[1].__index__()))
    def solve(self, A, b):
        n = A.shape[0]
        if A.shape != (n, n) or b.shape[0] != n: raise ValueError("shapes in solve: %s %s" % (A.shape, b.shape))
        cols = []
        for j in range(b.shape[1]):
            k = len(self.solved)
            x = Mat([["solved%d_%d" % (k, i)] for i in range(n)]).map(self.R.V)
            self.solved.append((A, Mat([[b[i, j]] for i in range(n)]), x))
            cols.append(list(x))
        return Mat(zip(*cols))
    def inv(self, A):
        return self.solve(A, alg.eye(self.R, A.shape[0]))
    def evaluate(self, text):
        tree = ast.fix_missing_locations(Consts().visit(ast.parse(text.strip(), mode="eval")))
        return eval(compile(tree, "<generated>", "eval"), self.env)
    def names(self, text):
        return [n.id for n in ast.walk(ast.parse(text.strip(), mode="eval")) if isinstance(n, ast.Name) and n.id not in ("matrix", "float")]
    def bind(self, state, names, vector):
        self.layout[state], self.vector[state] = names, vector
        vs = [self.R.V(n) for n in names]
        self.env.update(zip(names, vs))
        self.env[state] = Mat([[v] for v in vs]) if vector else vs[0]
    def targets(self, lhs):
        if lhs.isidentifier(): return [lhs]
        ns = [n for n in ast.walk(ast.parse(lhs.strip(), mode="eval").body) if isinstance(n, ast.Name) and n.id not in ("matrix", "float")]
        return [n.id for n in sorted(ns, key=lambda n: (n.lineno, n.col_offset))]
    def assign(self, lhs, rhs):
        names = self.targets(lhs)
        if self.lazy and all(n in self.keep for n in names): self.assigned += names; return
        self.now = lhs
        v = self.evaluate(rhs)
        if lhs.isidentifier(): vs = [v]
        else:
            vs = list(v) if isinstance(v, Mat) else [v]
            if len(names) != len(vs): raise ValueError("%d names for %d values" % (len(names), len(vs)))
        for n, x in zip(names, vs):
            self.env[n] = self.kept(n, x) if n in self.keep else x
            self.assigned.append(n)
    def kept(self, n, x=None):
        k = self.keep[n]
        k = self.R.V(k) if isinstance(k, str) else k
        return Mat([[k]]) if isinstance(x, Mat) and x.shape == (1, 1) and isinstance(k, Rat) else k
    def needed(self, pairs, names):
        """the assignments on which these names depend"""
        out, want = [], set(names)
        for l, r in reversed(pairs):
            ts = self.targets(l)
            if not want & set(ts): continue
            out.append((l, r))
            for t in ts: want.discard(t)
            if not all(t in self.keep for t in ts): want |= set(self.names(r))
        return out[::-1]
    def all(self, pairs):
        rest = []
        for l, r in pairs:                                   # the order of the coordinates inside a state vector
            if r in self.states and not l.startswith("der_"):
                self.bind(r, self.targets(l), l.strip().startswith("matrix"))
            else: rest.append((l, r))
        for s in self.states:
            if s not in self.layout and s in self.declared: self.bind(s, self.declared[s], len(self.declared[s]) > 1)
        for l, r in rest: self.assign(l, r)
