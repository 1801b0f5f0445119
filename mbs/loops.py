"""Loops: the dependent coordinates close the loop, their rates and accelerations keep it closed, and the independent
accelerations satisfy the equations of motion projected on the closed loop."""
import math, re
import numpy
import alg
from alg import Mat, Rat, Ring, Unsupported
from model import AX
from run import Run
from play import Game, flat
INNER = re.compile(r"^int_(Bwu|b_prime)_.+_\d+$")
TROUBLE = (ArithmeticError, ValueError, TypeError, numpy.linalg.LinAlgError)

def d1(q): return q.replace("q_", "qd_", 1)
def d2(q): return q.replace("q_", "qdd_", 1)

class Loops:
    """one system with loops in one formulation"""
    def __init__(self, spec, gravity, mode, play, moving=False):
        """moving: without equations of motion"""
        self.moving = moving
        self.spec, self.gravity, self.mode = spec, gravity, mode
        self.G = Game(spec, gravity)
        def prepare(lib):
            for kind, name, a, b, bound in lib.loops:
                for q in bound:
                    j, i = self.joint_of(q)
                    lib.joint_sensor("Joint", "s" + q, j, i)
                    if moving: continue
                    d, f1, f2 = self.frames_of(j)
                    if q.split("_")[-1][0] == "T": lib.sensor("Acceleration", "a" + q, f1, f2)
                    else: lib.sensor("AngularAcceleration", "a" + q, f1, f2)
        self.lib = play(self.G, prepare)
        from pymbs.symbolics import VarKind
        self.pairs = [p for k in ("Der_State", "Sensor") for p in self.lib.pairs(getattr(VarKind, k))]
        self.bound = [q for l in self.G.ref.loops for q in l[7]]
        self.all = [d[0] for d in self.G.ref.dofs]
        self.lead = [q for q in self.all if q not in self.bound]
    def joint_of(self, q):
        for n, d, j in self.G.ref.dofs:
            if n == q: return j, [x[0] for x in self.G.ref.joints[j].joint[3]].index(q)
    def frames_of(self, j):
        name, f1, f2, coords = self.G.ref.joints[j].joint
        paths = {id(f): p for p, f in self.G.ref.frames.items()}
        return None, paths[id(f1)], paths[id(f2)]
    def fresh(self, shifted=False):
        """shifted: the angles between the bars are the variables, the coordinates are sums of them and the angles of the levers"""
        G = Game(self.spec, self.gravity); G.dec = self.G.dec.__class__(G.R); G.res = self.G.res
        R = G.R
        if shifted:
            for l in G.ref.loops:
                for q, e in l[8].items():
                    n = "in:" + q
                    s, c = R.angle(n)
                    R.deriv[n], R.deriv["s(%s)" % n], R.deriv["c(%s)" % n] = R.V(d1(q)), c * R.V(d1(q)), -s * R.V(d1(q))
                    R.angle_of[q] = alg.sincos(R, R.V(n) + G.ref.ev(e))
        return G
    def evaluate(self, G, names, free=None, keep=(), hooks=()):
        r = Run(G.R, free or G.ref.free, ("q", "qd"), keep)
        r.declared = {"q": [str(x) for x in self.lib.w.state.q], "qd": [str(x) for x in self.lib.w.state.qd]}
        for f, h in dict(hooks).items(): r.env[f] = r.lift(h)
        r.lazy = True; self.current = r
        for n in r.keep: r.env[n] = r.kept(n)
        r.all(self.slice(r, names))
        return r
    def slice(self, r, names):
        pairs = r.needed(self.pairs, names)
        have = {l for l, x in pairs}
        return pairs + [(l, x) for l, x in self.pairs if x in ("q", "qd") and not l.startswith("der_") and l not in have]
    def states(self):
        lay = [str(x) for x in self.lib.w.state.q]
        if sorted(lay) != sorted(self.lead):
            self.G.res.bad.append((self.mode + " states", "the state holds %s, the independent coordinates are %s" % (lay, self.lead))); return False
        return True
    def inputs(self, R):
        acc = [R.V(d2(str(q))) for q in self.lib.w.state.q]
        return {"qdd": Mat([[x] for x in acc]) if len(acc) > 1 else acc[0]} if self.moving else {}
    def present(self, names):
        r = Run(self.G.R, {}, ("q", "qd"))
        have = {t for l, x in self.pairs for t in r.targets(l)}
        return [n for n in names if n not in have]
    # -- the coordinates close the loop
    def closed(self, sign):
        G = self.fresh(True); R, ref = G.R, G.ref
        R.squares = [R.V(n) for n in ("l1", "l2", "l3", "l4", "l5") if n in ref.free]
        R.signs = [sign] * 10
        missing = self.present(["s" + q for q in self.bound])
        if missing: G.res.bad.append((self.mode + " coordinates", "%s not computed" % missing)); return
        named = not self.present(self.bound)
        r = self.evaluate(G, self.bound if named else ["s" + q for q in self.bound], hooks=self.branch(G))
        for q in self.bound:
            v = r.env[q] if named else r.env["s" + q][0, 0]
            if q.split("_")[-1][0] == "R": R.angle_of[q] = alg.sincos(R, v)
            ref.given[q] = v if q.split("_")[-1][0] == "T" else R.V(q)
            if any(l[0] == "Transmission" and q in l[7] for l in ref.loops): ref.given[q] = v
        for loop in ref.loops:
            for i, x in enumerate(ref.closure(loop)): G.same(x, R.C(0), "%s closure of %s, %d" % (self.mode, loop[1], i))
        self.count(G)
    def branch(self, G):
        """steering: the track rod points away from the axle, its angle is that branch of asin"""
        loop = [l for l in G.ref.loops if l[0] == "Steering"]
        if not loop: return {}
        R = G.R; side = loop[0][4][1]; half = []
        k0 = R.V("l2") - R.V("l3") - R.V(self.lead[0]) * side
        def atan(x): half.append(alg.atan(x)); return half[-1]
        def asin(x):
            c4 = alg.cos(half[-1] * 2)
            c = (k0 + R.V("l5") * c4) / R.V("l4")
            return alg.new_angle(R, x, c, "asin") if (R.C(1) - x * x - c * c).num.zero() else alg.asin(x)
        return {"atan": alg.memo_like(atan), "asin": alg.memo_like(asin)}
    def count(self, G):
        self.G.dec.queries += G.dec.queries; self.G.dec.seconds += G.dec.seconds
    # -- rates and accelerations keep it closed
    def inner_angles(self, G, free=None, keep=()):
        """functions in place of the inverse functions of the generated code: the angle they yield, in the coordinates"""
        R = G.R
        inner = []
        def opened(f):
            def g(*a):
                n = "%s_%s" % (f, re.sub(r"\W+", "_", self.current.now))     # the same in every slice of the program
                while n in inner: n += "_"
                inner.append(n)
                v = solved.get(n) or R.V(n)
                return v / 2 if f == "atan" else v
            return g
        def hooks():
            del inner[:]
            return {f: alg.memo_like(opened(f)) for f in ("atan", "acos", "asin") + (("atan2",) if spatial else ())}
        spatial = any(l[0] == "Hexapod" for l in G.ref.loops)
        solved = {}
        r = self.evaluate(G, ["s" + q for q in self.bound], free, keep, hooks())
        for q in self.bound:
            v = r.env["s" + q][0, 0]
            v = alg.replace(v, {R.index[n]: x for n, x in solved.items()}) if solved and not v.den else v
            names = [R.names[i] for i in v.num.vars() if R.names[i] in inner] if not v.den else []
            if len(names) > 1: raise Unsupported("two inner angles in %s" % q)
            if names:
                k = v.partial(names[0])
                if not k.is_const() or abs(k.num.value()) != 1: raise Unsupported("coefficient of an inner angle")
                solved[names[0]] = (R.V(q) - alg.replace(v, {R.index[names[0]]: R.C(0)})) / k
        return hooks
    def rates(self):
        G = self.fresh(True); R, ref = G.R, G.ref
        phi = [x for l in ref.loops for x in ref.closure(l)]
        lengths, free = {}, dict(ref.free)
        for loop in ref.loops:
            if not loop[6]: continue
            e = ref.closure(loop)
            if len(loop[6]) == 3:                  # the place of the foot
                for n, x in zip(loop[6], e):
                    k = x.partial(n)
                    lengths[n] = -alg.replace(x, {R.index[n]: R.C(0)}) / k
                continue
            a, b = loop[6]
            zero = {R.index[n]: R.C(0) for n in (a, b)}
            M = [[x.partial(n) for n in (a, b)] for x in e]; c = [alg.replace(x, zero) for x in e]
            det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
            lengths[a] = (c[1] * M[0][1] - c[0] * M[1][1]) / det
            lengths[b] = (c[0] * M[1][0] - c[1] * M[0][0]) / det
        free.update(lengths)
        R.squares = list(lengths.values()) + [R.V(n) for n in ("l1", "l2", "l3", "l4", "l5") if n in free and n not in lengths]
        R.squares += [R.V(q) for q in self.bound if q.split("_")[-1][0] == "T"]
        R.signs = [1] * 10
        keep = {d2(q): d2(q) for q in self.lead}
        keep["qdd"] = d2(self.lead[0]) if len(self.lead) == 1 else Mat([[R.V(d2(str(q)))] for q in self.lib.w.state.q])
        hooks = self.inner_angles(G, free, keep)
        R.signs = [1] * 10
        acc = ["a" + q for q in self.bound]
        want = [d1(q) for q in self.bound] + ([] if self.moving else [d2(q) for q in self.bound])
        if self.present(want): raise Unsupported("no names for the dependent rates")
        r = self.evaluate(G, ["s" + q for q in self.bound] + want, free, keep, hooks())
        for q in self.bound:
            if not (r.env["s" + q][0, 0] - R.V(q)).num.zero() and not any(l[0] == "Transmission" and q in l[7] for l in ref.loops):
                raise Unsupported("inner angles not recognised")
        idx = {R.index[n]: v for n, v in lengths.items()}
        for q in self.bound: idx[R.index[d1(q)]] = r.env[d1(q)]
        for q in self.bound if not self.moving else (): idx[R.index[d2(q)]] = r.env[d2(q)]
        for q in self.bound:
            self.G.res.checked += 1
            if not (r.env["s" + q][1, 0] - r.env[d1(q)]).num.zero(): G.res.bad.append(("%s rate of %s" % (self.mode, q), {}))
        for i, x in enumerate(phi):
            t = x.total(); a = t.total()
            G.same(alg.replace(t, idx), R.C(0), "%s rate of the closure %d" % (self.mode, i))
            if not self.moving: G.same(alg.replace(a, idx), R.C(0), "%s acceleration of the closure %d" % (self.mode, i))
        self.count(G)
    # -- the equations of motion
    def projected(self):
        G = self.fresh(True); R, ref = G.R, G.ref
        r0 = Run(R, {}, ("q", "qd"))
        inner = {t: t for l, x in self.pairs for t in r0.targets(l) if INNER.match(t)}
        want = [d1(q) for q in self.bound] + [d2(q) for q in self.bound]
        if self.present(want): raise Unsupported("no names for the dependent rates")
        keep = dict(inner); keep.update({q: q for q in self.bound}); keep.update({d2(q): d2(q) for q in self.lead})
        if len(self.lead) == 1: keep["qdd"] = d2(self.lead[0])
        hooks = self.inner_angles(G, None, keep)
        # other names of the dependent distances in the generated code
        r = self.evaluate(G, ["s" + q for q in self.bound], None, keep, hooks())
        for q in self.bound:
            v = r.env["s" + q][0, 0]
            if q.split("_")[-1][0] == "T" and not v.is_const():
                for n in r.assigned:
                    if isinstance(r.env[n], Rat) and n not in keep and (r.env[n] - v).num.zero(): keep[n] = q; inner[n] = q
        r = self.evaluate(G, want, None, keep, hooks())
        n, lay = len(self.lead), r.layout.get("q", r.declared["q"])
        J, b = [], []
        for q in self.all:
            if q in self.bound:
                J.append([r.env[d1(q)].partial(d1(u)) for u in lay])
                x = r.env[d2(q)]
                for u in lay: x = x - r.env[d2(q)].partial(d2(u)) * R.V(d2(u))
                b.append(x)
                for u in lay: G.same(r.env[d2(q)].partial(d2(u)), J[-1][lay.index(u)], "%s accelerations of %s" % (self.mode, q))
            else: J.append([R.C(int(q == u)) for u in lay]); b.append(R.C(0))
        J, b = Mat(J), Mat([[x] for x in b])
        keep = dict(inner); keep.update({q: q for q in self.bound}); keep.update({d1(q): d1(q) for q in self.bound})
        r = self.evaluate(G, ["der_q", "der_qd"], None, keep, hooks())
        G.same(r.env["der_q"], Mat([[R.V(d1(q))] for q in lay]), self.mode + " der_q")
        # b contains the dependent rates; they are kept above and must be kept here as well
        back = {}
        rk = self.evaluate(G, [d2(q) for q in self.bound], None, dict(keep, **{d2(q): d2(q) for q in self.lead}, **({"qdd": d2(self.lead[0])} if n == 1 else {})), hooks())
        b = []
        for q in self.all:
            if q not in self.bound: b.append(R.C(0)); continue
            x = rk.env[d2(q)]
            for u in lay: x = x - rk.env[d2(q)].partial(d2(u)) * R.V(d2(u))
            b.append(x)
        b = Mat([[x] for x in b])
        res = ref.residuals()
        acc = [d2(q) for q in self.all]
        M = Mat([[x.partial(a) for a in acc] for x in res])
        rest = Mat([[alg.replace(x, {R.index[a]: R.C(0) for a in acc if a in R.index})] for x in res])
        A, f = J.T * M * J, -(J.T * (M * b + rest))
        qdd = r.env["der_qd"]; qdd = qdd if isinstance(qdd, Mat) else Mat([[qdd]])
        sol = r.solved[-1] if r.solved else None
        lab = self.mode + " equation of motion"
        if sol is not None and [x.num.key() for x in sol[2]] == [x.num.key() for x in qdd]:
            G.same(sol[0], A, lab + ", mass matrix"); G.same(sol[1], f, lab + ", forces")
        else: G.same(A * qdd, f, lab)
        self.count(G)
    # -- numbers
    def confirm(self, label):
        """a closed configuration at which the generated code and the reference disagree"""
        from numeric import Point, Replay
        G = self.fresh(); ref, R = G.ref, G.R
        phi = [x for l in ref.loops for x in ref.closure(l)]
        res = None
        lay = {k: [str(x) for x in getattr(self.lib.w.state, k)] for k in ("q", "qd")}
        r0 = Run(R, {}, ("q", "qd"))
        for l, x in self.pairs:
            if x in lay and not l.startswith("der_"): lay[x] = r0.targets(l)
        done = 0
        for seed in range(400):
            if done > 6: break
            pt = Point(R, None, seed)
            try:
                n = Replay(pt, dict(ref.free, **self.inputs(R)), {s: (v, len(v) > 1) for s, v in lay.items()}, {})
                n.all(self.pairs)
                at = Point(R, dict(pt.base), seed)
                for q in self.bound:
                    s = numpy.asarray(n.env["s" + q]).flatten()
                    at.base[q], at.base[d1(q)] = float(s[0]), float(s[1])
                qdd = numpy.asarray(n.env["der_qd"], dtype=float).flatten() if not self.moving else [0.0] * len(lay["q"])
                for q, v in zip(lay["q"], qdd): at.base[d2(q)] = float(v)
                for q in self.bound:
                    v = n.env.get(d2(q))
                    at.base[d2(q)] = float(numpy.asarray(v).flatten()[0]) if v is not None else 0.0
                if not all(math.isfinite(v) for v in at.base.values()): continue
                done += 1
                for what, xs in (("closure of", phi), ("rate of", [x.total() for x in phi]), ("acceleration", [x.total().total() for x in phi])):
                    if what not in label or (what == "acceleration" and any(n.env.get(d2(q)) is None for q in self.bound)): continue
                    for x in xs:
                        v = at.rat(x)
                        if abs(v) > 1e-5 * (1 + max(abs(at.rat(R.V(d2(q)))) for q in self.all)):
                            return "the loop is open: %s is %g (coordinates %s)" % (what, v, {q: round(at.base[q], 6) for q in self.bound}), pt
                if "equation of motion" in label or "accelerations" in label or "der_q" in label:
                    res = res or ref.residuals()
                    Ju = numpy.array([[at.rat(x.total().partial(d1(q))) for q in self.lead] for x in phi])
                    Jv = numpy.array([[at.rat(x.total().partial(d1(q))) for q in self.bound] for x in phi])
                    B = -numpy.linalg.solve(Jv, Ju)
                    # accelerations the closure asks for
                    z = Point(R, dict(at.base), seed)
                    for q in self.bound: z.base[d2(q)] = 0.0
                    vdd = -numpy.linalg.solve(Jv, [z.rat(x.total().total()) for x in phi])
                    for q, v in zip(self.bound, vdd): at.base[d2(q)] = float(v)
                    e = numpy.array([at.rat(x) for x in res])
                    o = Point(R, dict(at.base), seed)
                    for q in self.all: o.base[d2(q)] = 0.0
                    scale = sum(abs(o.rat(x)) for x in res) + sum(abs(e))
                    w = numpy.array([e[self.all.index(q)] for q in self.lead]) + B.T @ numpy.array([e[self.all.index(q)] for q in self.bound])
                    if numpy.max(numpy.abs(w)) > 1e-6 * (1 + scale): return "accelerations %s leave %s in the equations of motion" % (flat(qdd), flat(w)), pt
            except TROUBLE as e:
                import os, traceback
                if os.environ.get("LTRACE"): traceback.print_exc(); raise
                self.last = repr(e); continue
        return None
