"""Descriptions of multibody systems, played twice: into the library's API, and into a reference that knows only elementary
kinematics and the Newton-Euler equations."""
import contextlib, io
from fractions import Fraction
import alg
from alg import Mat, Rat, Ring, Unsupported

AX = {"x": 0, "y": 1, "z": 2}

def names_of(p, shape):
    if shape == (): return [p]
    if len(shape) == 1: return ["%s_%d" % (p, i) for i in range(shape[0])]
    return ["%s_%d_%d" % (p, i, j) for i in range(shape[0]) for j in range(shape[1])]

class Library:
    """plays a description into pymbs"""
    def __init__(self, gravity):
        from pymbs.input import MbsSystem
        import pymbs.common.functions as F
        from pymbs import symbolics as S
        self.S, self.F = S, F
        self.w = MbsSystem(gravity)
        self.ns = {n: getattr(F, n) for n in ("sin", "cos", "tan", "sqrt", "rot_mat", "atan2", "diag", "norm", "skew", "transpose", "der")}
        self.ns.update(Matrix=S.Matrix, time=self.w.time, g=self.w.gravity_const)
        self.cs = {"world": self.w}
        self.bodies, self.joints = {}, {}
        self.order = []
    def ev(self, e):
        if isinstance(e, (list, tuple)): return [self.ev(x) for x in e]
        if isinstance(e, str): return eval(e, dict(self.ns))
        return e
    def frame_of(self, path):
        return self.cs[path]
    def param(self, name, value=1.5, **k):
        self.ns[name] = self.w.addParam(name, value, **k)
    def input(self, name, shape=()):
        self.ns[name] = self.w.addInput(name, shape) if shape else self.w.addInput(name)
    def body(self, name, mass, cg=None, inertia=None):
        k = {}
        if cg is not None: k["cg"] = self.ev(cg)
        if inertia is not None: k["inertia"] = self.ev(inertia)
        self.cs[name] = self.bodies[name] = self.w.addBody(self.ev(mass), name=name, **k)
    def frame(self, parent, name, p=None, R=None):
        k = {}
        if p is not None: k["p"] = self.ev(p)
        if R is not None: k["R"] = self.ev(R)
        self.cs[parent + "." + name] = self.cs[parent].addFrame(name, **k)
    def joint(self, name, cs1, cs2, dofs, start=None, start_d=None):
        k = {}
        if start is not None: k["startVals"] = start
        if start_d is not None: k["startVals_d"] = start_d
        j = self.w.addJoint(self.cs[cs1], self.cs[cs2], list(dofs) if isinstance(dofs, list) else dofs, name=name, **k)
        self.joints[name] = j if isinstance(j, list) else [j]
    def expr(self, name, e, category=None):
        k = {} if category is None else {"category": category}
        self.ns[name] = self.w.addExpression(name, self.ev(e), **k)
    def load(self, kind, value, cs1, cs2, ref=None, name=None):
        k = {"name": name} if name else {}
        if ref is not None: k["CSref"] = self.cs[ref]
        getattr(self.w.addLoad, kind)(self.ev(value), self.cs[cs1], self.cs[cs2], **k)
    def joint_load(self, value, joint, i=0, name=None):
        k = {"name": name} if name else {}
        self.w.addLoad.Joint(self.ev(value), self.joints[joint][i], **k)
    def sensor(self, kind, name, cs1, cs2, ref=None):
        k = {}
        if ref is not None: k["CSref"] = self.cs[ref]
        self.ns[name] = getattr(self.w.addSensor, kind)(name, self.cs[cs1], self.cs[cs2], **k)
    def joint_sensor(self, kind, name, joint, i=0):
        self.ns[name] = getattr(self.w.addSensor, kind)(name, self.joints[joint][i])
    def drawing(self, name, cs):
        self.w.addVisualisation.Line(self.cs[cs], 1.0, name=name)
    def reaction(self, kind, name, joint, i=0):
        self.ns[name] = getattr(self.w.addSensor, "Constraint" + kind)(name, self.joints[joint][i])
    def energy(self, name, body):
        self.ns[name] = self.w.addSensor.Energy(name, self.cs[body])
    def com(self, name, bodies=None):
        m, r = self.w.addSensor.CenterofMass(name, [self.cs[b] for b in bodies] if bodies is not None else None)
        self.ns[name + "_Mass"], self.ns[name + "_r"] = m, r
    def loop(self, kind, name, a, b, *rest, axis=None, free=(), bound=(), shift=None, **k):
        self.loops = getattr(self, "loops", []) + [(kind, name, a, b, bound)]
        f = self.cs.get if not kind.startswith("Transmission") else lambda j: self.joints[j][0]
        getattr(self.w.addLoop, kind)(f(a), f(b), *rest, name=name, **k)
    def assembly(self, kind, name, *cs, values=()):
        f = [self.cs[c] for c in cs]; f = [getattr(x, "_CS_0", x) if kind != "SpringDamper" else x for x in f]
        if kind == "SpringDamper": self.w.addSpringDamper(f[0], f[1], *[self.ev(v) for v in values], name)
        elif kind == "HydCyl": self.w.addHydCylSensorsLoads(name, f[0], f[1])
        elif kind == "Tyre": self.w.addTyreSensorsLoads(name, f[0], f[1])
        elif kind == "Contact": self.w.addContactSensorsLoads(name, f[0])
        elif kind == "MotionSystem": self.w.addMotionSystemSensors(f[0], name)
    def constraint(self, cs1, cs2, trans=(0, 0, 0), rot=(0, 0, 0)):
        self.w.addConstraint(self.cs[cs1], self.cs[cs2], list(trans), list(rot))
    def generate(self, mode, **k):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            getattr(self.w.genEquations, mode)(**k)
    def pairs(self, kind):
        return [(str(a.lhs), str(a.rhs)) for a in self.w.graph.cgraph.getAssignments(kind)]

class Frame:
    def __init__(self, body, p, R):
        self.body, self.p, self.R = body, p, R            # relative to the body

class Body:
    pass

class Reference:
    """the same description as tensors over exact values"""
    def __init__(self, gravity, R=None):
        self.R = R or Ring()
        self.g = Mat([[self.R.C(Fraction(str(x)))] for x in gravity]) * self.R.V("g")
        z3, e3 = alg.zeros(self.R, 3), alg.eye(self.R)
        w = Body(); w.name = "world"; w.mass = None; w.p, w.A = z3, e3; w.parent = None; w.chain = []
        self.bodies = {"world": w}
        self.frames = {"world": Frame(w, z3, e3)}
        self.joints, self.loads, self.jloads, self.sensors = {}, [], [], []
        self.exprs = []
        self.dofs = []                                   # (name, kind, axis) in the order of definition
        self.shapes = {}
        self.constraints, self.loops = [], []
        self.given = {}                                  # coordinate -> value that takes its place
        self.preset = {}                                 # parameter -> value that takes its place
        self.ns = {n: getattr(alg, n) for n in ("sin", "cos", "tan", "atan2")}
        self.ns.update(sqrt=lambda x: x.sqrt(), rot_mat=self.rot_mat, g=self.R.V("g"), time=self.R.V("time"),
                       Matrix=lambda l: Mat(l) if isinstance(l[0], list) else Mat([[x] for x in l]), transpose=lambda m: m.T,
                       diag=lambda v: Mat([[v[i] if i == j else self.R.C(0) for j in range(len(v))] for i in range(len(v))]))
        self.R.deriv["time"] = self.R.C(1)
        self.drawn = False
        self.free = {"g": self.R.V("g"), "time": self.R.V("time")}
        self.values = {}
    def num(self, x):
        return x if isinstance(x, (Rat, Mat)) else self.R.C(x if isinstance(x, int) else Fraction(repr(x)))
    def ev(self, e):
        if isinstance(e, (list, tuple)): return [self.ev(x) for x in e]
        if isinstance(e, str):
            import run, ast
            t = ast.fix_missing_locations(run.Consts().visit(ast.parse(e, mode="eval")))
            return eval(compile(t, "<model>", "eval"), dict(self.ns, __c=self.num, __builtins__={}))
        return self.num(e)
    def vec(self, e):
        if e is None: return alg.zeros(self.R, 3)
        v = self.ev(e)
        return v if isinstance(v, Mat) else Mat([[x] for x in v])
    def mat(self, e):
        v = self.ev(e)
        return v if isinstance(v, Mat) else Mat(v)
    def rot_mat(self, angle, axis):
        s, c = alg.sin(angle), alg.cos(angle)
        o, l = self.R.C(0), self.R.C(1)
        return {"x": Mat([[l, o, o], [o, c, s], [o, -s, c]]), "y": Mat([[c, o, -s], [o, l, o], [s, o, c]]),
                "z": Mat([[c, s, o], [-s, c, o], [o, o, l]])}[axis]
    # -- description
    def param(self, name, value=1.5, **k):
        if isinstance(value, (list, tuple)):
            if len(value) == 3:
                v = Mat([[self.R.V("%s_%s" % (name, a))] for a in "xyz"])
                for a in "xyz": self.free["%s_%s" % (name, a)] = self.R.V("%s_%s" % (name, a))
                self.ns[name] = v; return
            n = ["xx", "xy", "yy", "xz", "yz", "zz"]
            v = {a: self.R.V("%s_%s" % (name, a)) for a in n}
            for a in n: self.free["%s_%s" % (name, a)] = v[a]
            self.ns[name] = Mat([[v["xx"], v["xy"], v["xz"]], [v["xy"], v["yy"], v["yz"]], [v["xz"], v["yz"], v["zz"]]]); return
        self.ns[name] = self.free[name] = self.preset.get(name) or self.R.V(name)
    def input(self, name, shape=()):
        if shape == (): v = self.R.V(name)
        elif len(shape) == 1: v = Mat([[self.R.V(n)] for n in names_of(name, shape)])
        else: v = Mat([[self.R.V("%s_%d_%d" % (name, i, j)) for j in range(shape[1])] for i in range(shape[0])])
        self.ns[name] = self.free[name] = v
    def body(self, name, mass, cg=None, inertia=None):
        b = Body(); b.name = name; b.mass = self.ev(mass); b.cg = self.vec(cg)
        if inertia is None: b.inertia = alg.zeros(self.R, 3, 3)
        else:
            v = self.ev(inertia)
            if isinstance(v, list) and len(v) == 6: v = [[v[0], v[1], v[3]], [v[1], v[2], v[4]], [v[3], v[4], v[5]]]
            b.inertia = v if isinstance(v, Mat) else Mat(v)
        b.joint = None
        self.bodies[name] = b
        self.frames[name] = Frame(b, alg.zeros(self.R, 3), alg.eye(self.R))
    def frame(self, parent, name, p=None, R=None):
        f = self.frames[parent]
        rp, rR = self.vec(p), alg.eye(self.R) if R is None else self.mat(R)
        self.frames[parent + "." + name] = Frame(f.body, f.p + f.R * rp, f.R * rR)
    def joint(self, name, cs1, cs2, dofs, start=None, start_d=None):
        dofs = [dofs] if isinstance(dofs, str) else list(dofs or [])
        f1, f2 = self.frames[cs1], self.frames[cs2]
        if f2.body.joint is not None: raise ValueError("second joint")
        coords = []
        for d in dofs:
            n = "%s_%s" % (name, d)
            q, qd, qdd = "q_" + n, "qd_" + n, "qdd_" + n
            R = self.R
            V, W, Z = R.V(q), R.V(qd), R.V(qdd)
            R.deriv[q], R.deriv[qd] = W, Z
            if d[0] == "R":
                s, c = R.angle(q)
                R.deriv["s(%s)" % q], R.deriv["c(%s)" % q] = c * W, -s * W
            coords.append((q, d)); self.dofs.append((q, d, name))
            for x in (q, qd, qdd): self.ns[x] = R.V(x)
        f2.body.joint = (name, f1, f2, coords)
        self.joints[name] = f2.body
    def expr(self, name, e, category=None):
        self.exprs.append((name, e))
    def load(self, kind, value, cs1, cs2, ref=None, name=None):
        self.loads.append((kind, value, cs1, cs2, ref))
    def joint_load(self, value, joint, i=0, name=None):
        self.jloads.append((value, joint, i))
    def sensor(self, kind, name, cs1, cs2, ref=None):
        self.sensors.append((name, kind, cs1, cs2, ref)); self.exprs.append((name, None))
    def joint_sensor(self, kind, name, joint, i=0):
        self.sensors.append((name, kind, joint, i)); self.exprs.append((name, None))
    def drawing(self, name, cs):
        self.drawn = True
        self.sensor("Position", "r_" + name, "world", cs, "world"); self.sensor("Orientation", "T_" + name, "world", cs)
    def reaction(self, kind, name, joint, i=0):
        self.sensors.append((name, "Constraint" + kind, joint, i)); self.exprs.append((name, None))
    def assembly(self, kind, name, *cs, values=()):
        """sensors and loads that belong together, in the terms of single ones"""
        if kind == "SpringDamper":
            c, d, l0 = values
            self.sensor("Distance", "dx_" + name, cs[0], cs[1])
            self.expr("force_" + name, "-(%s)*(dx_%s[0] - (%s)) - (%s)*dx_%s[1]" % (c, name, l0, d, name))
            self.load("PtPForce", "force_" + name, cs[0], cs[1]); return
        if kind == "HydCyl":
            self.sensor("Distance", "d_" + name, cs[0], cs[1]); self.input("F_" + name)
            self.load("PtPForce", "F_" + name, cs[0], cs[1]); return
        ref = "world" if kind == "Contact" else cs[0]
        self.sensor("Position", "r_" + name, "world", cs[0])
        self.sensor("Orientation", "T_" + name, *(("world", cs[0]) if kind != "Tyre" else (cs[0], "world")))
        self.sensor("Velocity", "v_" + name, "world", cs[0], ref); self.sensor("AngularVelocity", "om_" + name, "world", cs[0], ref)
        if kind == "MotionSystem":
            self.sensor("Acceleration", "a_" + name, "world", cs[0], ref); self.sensor("AngularAcceleration", "dom_" + name, "world", cs[0], ref); return
        self.input("F_" + name, (3,)); self.input("M_" + name, (3,))
        end = cs[1] if kind == "Tyre" else cs[0]
        self.load("CmpForce", "F_" + name, end, "world", ref); self.load("CmpTorque", "M_" + name, end, "world", ref)
    def energy(self, name, body):
        self.sensors.append((name, "Energy", body)); self.exprs.append((name, None))
    def com(self, name, bodies=None):
        self.sensors.append((name + "_Mass", "Mass", bodies)); self.sensors.append((name + "_r", "CoM", bodies))
        self.exprs += [(name + "_Mass", None), (name + "_r", None)]
    def loop(self, kind, name, a, b, *rest, axis=None, free=(), bound=(), shift=None, **k):
        """axis: normal of the plane; free: the two lengths eliminated by the closure; bound: dependent coordinates"""
        self.loops.append((kind, name, a, b, rest, axis, free, bound, shift or {}))
    def closure(self, loop):
        """expressions that vanish when the loop is closed"""
        kind, name, a, b, rest, axis, free, bound, shift = loop
        if kind == "Transmission":
            q = [self.joints[j].joint[3][0][0] for j in (a, b)]
            return [self.coord(q[1]) - self.coord(q[0]) * self.num(rest[0])]
        d = self.fpose(b)[0] - self.fpose(a)[0]
        return [x for i, x in enumerate(d) if axis is None or i != AX[axis]]
    def coord(self, q):
        return self.given.get(q) or self.R.V(q)
    def constraint(self, cs1, cs2, trans=(0, 0, 0), rot=(0, 0, 0)):
        self.constraints.append((cs1, cs2, trans, rot))
    # -- kinematics
    def pose(self, b):
        """position and rotation matrix (body to world) of a body"""
        if getattr(b, "done", None): return b.done
        if b.name == "world": b.done = (b.p, b.A); return b.done
        if b.joint is None: raise ValueError("body %s has no joint" % b.name)
        name, f1, f2, coords = b.joint
        p0, A0 = self.pose(f1.body)
        p, A = p0 + A0 * f1.p, A0 * f1.R
        b.steps = []
        for q, d in coords:
            k = AX[d[1]]
            e = Mat([[A[i, k]] for i in range(3)])
            b.steps.append((q, d, p, e))
            if d[0] == "T": p = p + e * self.coord(q)
            else: A = A * self.rot_mat(self.coord(q), d[1]).T
        A2 = A * f2.R.T
        b.done = (p - A2 * f2.p, A2)
        return b.done
    def fpose(self, path):
        f = self.frames[path]
        p, A = self.pose(f.body)
        return p + A * f.p, A * f.R
    def omega(self, A):
        S = A.total() * A.T
        return Mat([[S[2, 1]], [S[0, 2]], [S[1, 0]]])
    def moving(self):
        return [b for b in self.bodies.values() if b.name != "world" and not self.grounded(b)]
    def grounded(self, b):
        while b.name != "world":
            if b.joint is None or b.joint[3]: return False
            b = b.joint[1].body
        return True
    # -- sensors
    def sensor_value(self, s):
        name, kind = s[:2]
        R = self.R
        if kind == "Joint":
            q = self.joints[s[2]].joint[3][s[3]][0]
            return Mat([[R.V(q)], [R.V(q.replace("q_", "qd_", 1))]])
        if kind in ("ConstraintForce", "ConstraintTorque"):
            b = self.joints[s[2]]; self.pose(b)
            at = b.steps[s[3] + 1][2] if s[3] + 1 < len(b.steps) else self.cut(b)
            F, L = self.reaction_of(b, at)
            for value, joint, k in self.jloads:          # a drive is an applied load, not a reaction
                if joint == s[2] and k == s[3]:
                    q, d, p, e = b.steps[k]
                    if d[0] == "T": F = F - e * self.ev(value)
                    else: L = L - e * self.ev(value)
            return F if kind == "ConstraintForce" else L
        if kind == "Energy":
            bs = [b for b in self.bodies.values() if b.name != "world"] if s[2] == "world" else [self.bodies[s[2]]]
            t = R.C(0)
            for b in bs: t = t + self.energy_of(b)
            return t
        if kind in ("Mass", "CoM"):
            bs = [b for b in self.bodies.values() if b.name != "world"] if s[2] is None else [self.bodies[x] for x in s[2]]
            m = R.C(0); r = alg.zeros(R, 3)
            for b in bs:
                p, A = self.pose(b)
                m = m + b.mass; r = r + (p + A * b.cg) * b.mass
            return m if kind == "Mass" else r / m
        p1, A1 = self.fpose(s[2]); p2, A2 = self.fpose(s[3])
        Aref = self.fpose(s[4])[1] if s[4] is not None else A1
        d = p2 - p1
        if kind == "Position": return Aref.T * d
        if kind == "Velocity": return Aref.T * d.total()
        if kind == "Acceleration": return Aref.T * d.total().total()
        if kind == "Orientation": return A1.T * A2
        if kind == "AngularVelocity": return Aref.T * (self.omega(A2) - self.omega(A1))
        if kind == "AngularAcceleration": return Aref.T * (self.omega(A2) - self.omega(A1)).total()
        if kind == "Distance":
            l = alg.dot(list(d), list(d)).sqrt()
            return Mat([[l], [alg.dot(list(d), list(d.total())) / l]])
        raise Unsupported(kind)
    def cut(self, b):
        """where the joint of a body ends"""
        p, A = self.pose(b)
        return p + A * b.joint[2].p
    def reaction_of(self, b, at):
        """force and moment (about a point, in the inertial frame) that the joint of a body transmits to it and all it carries"""
        R = self.R
        def carried(x):
            while x.name != "world":
                if x is b: return True
                x = x.joint[1].body
            return False
        F, L = alg.zeros(R, 3), alg.zeros(R, 3)
        for x in self.bodies.values():
            if x.name == "world" or not carried(x): continue
            p, A = self.pose(x); r = p + A * x.cg; w = self.omega(A); I = A * x.inertia * A.T
            f = (r.total().total() - self.g) * x.mass
            F = F + f; L = L + alg.cross(r - at, f) + I * w.total() + alg.cross(w, I * w)
        for load in self.loads:
            for path, f, t in self.load_ends(load):
                if path is None or not carried(self.frames[path].body): continue
                p = self.fpose(path)[0]
                F = F - f; L = L - t - alg.cross(p - at, f)
        return F, L
    def load_ends(self, load):
        """[(frame, force, torque)] in the inertial frame"""
        kind, value, cs1, cs2, ref = load
        p1, A1 = self.fpose(cs1); p2, A2 = self.fpose(cs2)
        val = self.ev(value); o = alg.zeros(self.R, 3)
        if kind == "PtPForce":
            d = p2 - p1
            f = d * (val / alg.dot(list(d), list(d)).sqrt())
            return [(cs1, -f, o), (cs2, f, o)]
        if isinstance(val, list): val = Mat([[x] for x in val])
        f = (self.fpose(ref)[1] if ref is not None else A1) * val
        if kind == "CmpForce": return [(cs1, f, o), (cs2, -f, o)]
        return [(cs1, o, f), (cs2, o, -f)]
    def energy_of(self, b):
        p, A = self.pose(b)
        r = p + A * b.cg; v = r.total(); w = A.T * self.omega(A)
        T = (alg.dot(list(v), list(v)) * b.mass + alg.dot(list(w), list(b.inertia * w))) * Fraction(1, 2)
        return T - alg.dot(list(self.g), list(r)) * b.mass
    def resolve(self):
        """values of sensors and user expressions, in the order of definition"""
        byname = {s[0]: s for s in self.sensors}
        for n, e in self.exprs:
            v = self.sensor_value(byname[n]) if e is None else self.ev(e)
            if isinstance(v, list): v = Mat([[x] for x in v]) if not isinstance(v[0], list) else Mat(v)
            self.ns[n] = self.values[n] = v
    # -- dynamics
    def residuals(self):
        """for every degree of freedom the virtual power of inertia and applied loads; zero on a motion of the system"""
        R = self.R
        out = []
        qd = [q.replace("q_", "qd_", 1) for q, d, j in self.dofs]
        res = [R.C(0) for _ in qd]
        def add(i, x):
            res[i] = res[i] + x
        def jac(v):
            return [v.map(lambda x: x.partial(n)) for n in qd]
        for b in self.moving():
            p, A = self.pose(b)
            r = p + A * b.cg
            v, w = r.total(), self.omega(A)
            I = A * b.inertia * A.T
            f = (v.total() - self.g) * b.mass
            t = I * w.total() + alg.cross(w, I * w)
            for i, (jv, jw) in enumerate(zip(jac(v), jac(w))):
                add(i, alg.dot(list(jv), list(f)) + alg.dot(list(jw), list(t)))
        for load in self.loads:
            for path, f, t in self.load_ends(load):
                p, A = self.fpose(path)
                for i, (jv, jw) in enumerate(zip(jac(p.total()), jac(self.omega(A)))): add(i, -alg.dot(list(jv), list(f)) - alg.dot(list(jw), list(t)))
        for value, joint, k in self.jloads:
            q = self.joints[joint].joint[3][k][0]
            i = [d[0] for d in self.dofs].index(q)
            add(i, -self.ev(value))
        return res

def build(spec, target):
    spec(target)
    return target
