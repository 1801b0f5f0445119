"""The solver's part: an identity between two exact values, for all values of their variables that satisfy the defining
relations of sines, cosines and square roots."""
import time
from fractions import Fraction
import z3
import alg
from alg import B

class Decider:
    def __init__(self, R, timeout=20000):
        self.R, self.timeout = R, timeout
        self.queries, self.seconds, self.trivial = 0, 0.0, 0
        self.zv = {}
    def var(self, i):
        v = self.zv.get(i)
        if v is None: v = self.zv[i] = z3.Real(self.R.names[i])
        return v
    def term(self, p):
        ts = []
        for m, c in p.d.items():
            c = Fraction(c)
            fs = [z3.RatVal(c.numerator, c.denominator)]
            i = 0
            while m:
                e = m & 255
                fs += [self.var(i)] * e
                m >>= B; i += 1
            ts.append(z3.Product(fs) if len(fs) > 1 else fs[0])
        return z3.Sum(ts) if ts else z3.RealVal(0)
    def relations(self, used):
        R, out, todo, seen = self.R, [], list(used), set()
        roots = R.root_of
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            for s, c in R.circles:
                if i in (s, c):
                    out.append(self.var(s) * self.var(s) + self.var(c) * self.var(c) == 1); todo += [s, c]
            if i in roots:
                out += [self.var(i) * self.var(i) == self.term(roots[i]), self.var(i) > 0]; todo += roots[i].vars()
        uniq = {}
        for t in out: uniq[t.get_id()] = t
        return list(uniq.values())
    def differ(self, a, b):
        """None: the solver shows a = b; else a point (variable -> value), or the text 'undecided'"""
        t0 = time.time()
        (an, ad), (bn, bd) = a.plain(), b.plain()
        if ad.key() == bd.key(): l, r, den = an, bn, ad
        else:
            l, r = an * bd, bn * ad
            den = ad * bd
        d = l - r
        if not d.zero():
            # the normal forms differ: ask for a point with the other variables fixed to numbers first
            pt = self.point(d, den)
            if pt is not None:
                self.seconds += time.time() - t0
                return pt
        s = z3.SolverFor("QF_NRA"); s.set("timeout", self.timeout)
        s.add(self.term(l) != self.term(r))
        used = set(l.vars()) | set(r.vars())
        for t in self.relations(used): s.add(t)
        res = s.check()
        self.queries += 1
        self.seconds += time.time() - t0
        return None if res == z3.unsat else "undecided"
    def point(self, d, den):
        """values for which d is not zero, found by the solver with all variables but one (and the square roots) fixed"""
        R = self.R
        import random
        rnd = random.Random(7)
        roots = R.root_of
        used = set(d.vars()) | set(den.vars())
        grow = list(used)
        while grow:
            i = grow.pop()
            more = [j for sc in R.circles if i in sc for j in sc] + (list(roots[i].vars()) if i in roots else [])
            for j in more:
                if j not in used: used.add(j); grow.append(j)
        circ = {i for sc in R.circles for i in sc}
        plain = sorted(i for i in used if i not in circ and i not in roots)
        for attempt in range(6):
            pin = {}
            for sv, cv in R.circles:
                if sv in used:
                    t = Fraction(rnd.randint(-4, 4), rnd.randint(1, 5))
                    pin[sv], pin[cv] = 2 * t / (1 + t * t), (1 - t * t) / (1 + t * t)
            loose = rnd.choice(plain) if plain else None
            for i in plain:
                if i != loose: pin[i] = Fraction(rnd.randint(1, 9), rnd.choice([1, 2, 3]))
            s = z3.SolverFor("QF_NRA"); s.set("timeout", 5000)
            s.add(self.term(at(d, pin)) != 0, self.term(at(den, pin)) != 0)
            for i in sorted(roots):
                if i in used: s.add(self.var(i) * self.var(i) == self.term(at(roots[i], pin)), self.var(i) > 0)
            if loose is not None: s.add(self.var(loose) >= -20, self.var(loose) <= 20)
            self.queries += 1
            if s.check() == z3.sat:
                m = s.model()
                out = {R.names[i]: float(v) for i, v in pin.items()}
                for i in used:
                    if i in pin: continue
                    v = m.eval(self.var(i), model_completion=True)
                    out[R.names[i]] = float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(12).as_fraction())
                return out
        return None

def at(p, vals):
    """the polynomial with some of its variables replaced by numbers"""
    out = {}
    for m, c in p.d.items():
        c = Fraction(c); rest = 0; i = 0; k = m
        while k:
            e = k & 255
            if e:
                v = vals.get(i)
                if v is None: rest |= e << (B * i)
                else: c *= v ** e
            k >>= B; i += 1
        if c: out[rest] = out.get(rest, 0) + c
    return alg.Poly(p.R, {m: c for m, c in out.items() if c})
