"""The described systems: structure and number of parts are fixed per system, all lengths, angles, masses, inertias, loads,
coordinates and velocities are free."""

def rigid(m, n, full=True):
    """mass, centre of mass and inertia of body number n"""
    m.param("m%d" % n)
    if full:
        m.param("c%d" % n, [.1, .2, .3]); m.param("J%d" % n, [1., .1, 2., .2, .3, 3.])
        return "m%d" % n, "c%d" % n, "J%d" % n
    m.param("c%d" % n)
    for a in "xyz": m.param("J%d%s" % (n, a))
    return "m%d" % n, ["c%d" % n, 0, 0], ["J%dx" % n, 0, "J%dy" % n, 0, 0, "J%dz" % n]

def turned(m, name, axis):
    m.param(name, .5)
    return "rot_mat(%s,'%s')" % (name, axis)

AXES = {"x": ("y", "z"), "y": ("z", "x"), "z": ("x", "y")}

def single(dof, a1="y", a2="x", full=True):
    """one body on a joint; both joint frames displaced and turned"""
    def spec(m):
        for p in ("px", "py", "pz", "ux", "uy", "uz"): m.param(p)
        m.body("b", *rigid(m, 1, full))
        m.frame("world", "f", ["px", "py", "pz"], turned(m, "al", a1))
        m.frame("b", "e", ["ux", "uy", "uz"], turned(m, "be", a2))
        m.joint("j", "world.f", "b.e", dof)
    return spec

def chain2(d1, d2, a1="y", a2="z", full=(True, False)):
    """a body on a body: the second joint sits in a displaced, turned frame of the first and in one of the second"""
    def spec(m):
        for p in ("px", "py", "pz", "ux", "uy"): m.param(p)
        m.body("b1", *rigid(m, 1, full[0]))
        m.body("b2", *rigid(m, 2, full[1]))
        m.frame("b1", "f", ["px", "py", "pz"], turned(m, "al", a1))
        m.frame("b2", "e", ["ux", "uy", 0], turned(m, "be", a2))
        m.joint("j1", "world", "b1", d1)
        m.joint("j2", "b1.f", "b2.e", d2)
    return spec

def chain3(d, planar=False):
    def spec(m):
        for i in (1, 2, 3): m.body("b%d" % i, *rigid(m, i, False))
        for i in (1, 2): m.param("l%d" % i)
        m.frame("b1", "f", ["l1", 0, 0]); m.frame("b2", "f", [0, "l2", 0] if not planar else ["l2", 0, 0])
        m.joint("j1", "world", "b1", d[0]); m.joint("j2", "b1.f", "b2", d[1]); m.joint("j3", "b2.f", "b3", d[2])
    return spec

def tree(d, rev=False):
    """two bodies on one, declared before or after it"""
    def spec(m):
        names = ["r", "a", "b"]
        for i in ([2, 1, 0] if rev else [0, 1, 2]): m.body(names[i], *rigid(m, i, False))
        for p in ("l1", "l2"): m.param(p)
        m.frame("r", "fa", ["l1", 0, 0], turned(m, "al", "x")); m.frame("r", "fb", [0, "l2", 0])
        js = [("j0", "world", "r", d[0]), ("ja", "r.fa", "a", d[1]), ("jb", "r.fb", "b", d[2])]
        for j in (js[::-1] if rev else js): m.joint(*j)
    return spec

def multi(dofs, full=False):
    """one body with a joint of several degrees of freedom"""
    def spec(m):
        m.param("px"); m.param("uy")
        m.body("b", *rigid(m, 1, full))
        m.frame("world", "f", ["px", 0, 0], turned(m, "al", "y"))
        m.frame("b", "e", [0, "uy", 0])
        m.joint("j", "world.f", "b.e", list(dofs))
    return spec
DOF = ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"]

KINDS = ["Position", "Velocity", "Acceleration", "AngularVelocity", "AngularAcceleration"]

def sensing(d1, d2, pairs=(("b1.f", "b2.e", None), ("world", "b2", "b1.f")), kinds=KINDS, a1="y", a2="x", extra=True):
    """a chain of two with sensors between its frames"""
    base = chain2(d1, d2, a1, a2)
    def spec(m):
        base(m)
        m.param("vx"); m.frame("world", "w", [0, "vx", 0], turned(m, "ga", "z"))
        for n, (x, y, ref) in enumerate(pairs):
            for k in kinds: m.sensor(k, "s%d_%s" % (n, k), x, y, ref)
            if extra: m.sensor("Orientation", "s%d_ori" % n, x, y)
        if extra:
            m.joint_sensor("Joint", "sj1", "j1"); m.joint_sensor("Joint", "sj2", "j2")
    return spec

def sensing1(dof, pairs=(("b.t", "world.w", None), ("world.w", "b", "b.t"))):
    """one body with sensors"""
    base = single(dof)
    def spec(m):
        base(m)
        for p in ("vx", "tx", "tz"): m.param(p)
        m.frame("world", "w", [0, "vx", 0], turned(m, "ga", "z")); m.frame("b", "t", ["tx", 0, "tz"], turned(m, "de", "y"))
        for n, (x, y, ref) in enumerate(pairs):
            for k in KINDS: m.sensor(k, "s%d_%s" % (n, k), x, y, ref)
            m.sensor("Orientation", "s%d_ori" % n, x, y)
        m.joint_sensor("Joint", "sj", "j")
    return spec

def drawn(d1, d2, a1="y", a2="x"):
    """shapes attached to bodies and frames"""
    base = chain2(d1, d2, a1, a2)
    def spec(m):
        base(m)
        m.param("vx"); m.frame("world", "w", [0, "vx", 0], turned(m, "ga", "z"))
        m.frame("b2", "t", [0, "vx", 0], turned(m, "de", a1))
        for n, cs in (("da", "b1"), ("db", "b2.t"), ("dc", "world.w"), ("dd", "b2")): m.drawing(n, cs)
    return spec

def started(dofs, start, start_d, second=None):
    """start values of the joints"""
    def spec(m):
        m.param("px"); m.param("uy"); m.param("h")
        m.body("b", *rigid(m, 1, False))
        m.frame("world", "f", ["px", 0, 0], turned(m, "al", "y"))
        m.frame("b", "e", [0, "uy", 0])
        m.joint("j", "world.f", "b.e", list(dofs), start, start_d)
        if second:
            m.body("c", *rigid(m, 2, False)); m.frame("b", "g", ["h", 0, 0])
            m.joint("k", "b.g", "c", *second)
    return spec

def distances(d1, d2):
    base = chain2(d1, d2)
    def spec(m):
        base(m)
        m.param("vx"); m.frame("world", "w", [0, "vx", 0])
        m.sensor("Distance", "d0", "b1.f", "b2"); m.sensor("Distance", "d1", "world.w", "b2.e")
    return spec

def energies(d1, d2):
    base = chain2(d1, d2)
    def spec(m):
        base(m)
        m.energy("e1", "b1"); m.energy("e2", "b2"); m.energy("e", "world")
        m.com("cm"); m.com("c2", ["b2"])
    return spec

def loaded(kind, d1, d2, cs1, cs2, ref=None, by="input", a1="y", a2="x"):
    """a load between two frames of a chain of two bodies; its value an input or an expression"""
    base = chain2(d1, d2, a1, a2, full=(False, False))
    def spec(m):
        base(m)
        m.param("vx"); m.frame("world", "w", [0, "vx", 0], turned(m, "ga", "z"))
        m.frame("b2", "t", ["vx", 0, 0], turned(m, "de", "y"))
        vector = kind.startswith("Cmp")
        if by == "input": m.input("F", (3,)) if vector else m.input("F")
        elif by == "damper":
            m.param("kk"); m.param("dd")
            m.sensor("Distance", "dist", cs1, cs2)
            m.expr("F", "-kk*dist[0] - dd*dist[1]")
        elif by == "drag":
            m.param("dd")
            m.sensor("Velocity", "vel", cs1, cs2, ref) if kind == "CmpForce" else m.sensor("AngularVelocity", "vel", cs1, cs2, ref)
            m.expr("F", "dd*vel")
        elif by == "list":
            for x in "abc": m.input("F" + x)
            m.load(kind, ["Fa", "Fb", "Fc"], cs1, cs2, ref); return
        m.load(kind, "F", cs1, cs2, ref)
    return spec

def assembled(kind, d1, d2, *cs, values=()):
    """sensors and loads declared together, on a chain of two bodies"""
    base = chain2(d1, d2, full=(False, False))
    def spec(m):
        base(m)
        m.param("vx"); m.frame("world", "w", [0, "vx", 0], turned(m, "ga", "z"))
        m.frame("b2", "t", ["vx", 0, 0], turned(m, "de", "y"))
        for v in values:
            if isinstance(v, str): m.param(v)
        m.assembly(kind, "X", *cs, values=values)
    return spec

def driven(d1, d2):
    base = chain2(d1, d2, full=(False, False))
    def spec(m):
        base(m)
        m.param("kk"); m.input("u")
        m.joint_sensor("Joint", "sj", "j2")
        m.expr("F2", "-kk*sj[0] - 2*sj[1]")
        m.joint_load("u", "j1"); m.joint_load("F2", "j2")
    return spec

def regulated(d1, d2):
    base = chain2(d1, d2, full=(False, False))
    def spec(m):
        base(m)
        m.joint_sensor("Joint", "sj1", "j1"); m.joint_sensor("Joint", "sj2", "j2")
        m.controller("U", "drive")
        m.joint_load("U", "j2")
    return spec

def pushed(d1, d2):
    base = chain2(d1, d2, full=(False, False))
    def spec(m):
        base(m)
        m.frame("b2", "t", [0.5, 0, 0], turned(m, "de", "y"))
        m.sensor("Position", "sp", "world", "b2.t"); m.sensor("Velocity", "sv", "world", "b2.t")
        m.controller("U", "push", (3,))
        m.load("CmpForce", "U", "b2.t", "world")
    return spec

def welded(d, full=(False, False), turn=True, sensors=False, twice=False, world=False, load=False):
    """a moving body with another one fixed to a displaced, turned frame of it"""
    def spec(m):
        for p in ("px", "py", "ux", "uy"): m.param(p)
        if world:
            m.body("b0", *rigid(m, 0, False)); m.frame("world", "f0", ["px", 0, 0], turned(m, "ga", "z") if turn else None)
            m.joint("j0", "world.f0", "b0", [])
        m.body("b1", *rigid(m, 1, full[0])); m.body("b2", *rigid(m, 2, full[1]))
        m.frame("b1", "f", ["px", "py", 0], turned(m, "al", "y") if turn else None)
        m.frame("b2", "e", ["ux", 0, "uy"], turned(m, "be", "x") if turn else None)
        m.frame("b2", "t", [0, "ux", 0])
        m.joint("j1", "b0" if world else "world", "b1", d)
        m.joint("w", "b1.f", "b2.e", [])
        if twice:
            m.body("b3", *rigid(m, 3, False)); m.frame("b3", "e", [0, "ux", "py"])
            m.joint("w2", "b2.t", "b3.e", [])
        if load: m.input("F", (3,)); m.load("CmpForce", "F", "world", "b2.t"); m.load("CmpTorque", "F", "b2", "b1")
        if sensors:
            for k in ("Position", "Velocity", "AngularVelocity", "Acceleration"): m.sensor(k, "s" + k, "world", "b2.t")
            m.sensor("Orientation", "so", "b1", "b2")
            if sensors != "frames": m.energy("e", "world"); m.com("cm")
    return spec

def nested(d1, d2):
    """frames on frames"""
    def spec(m):
        for p in ("px", "py", "pz", "ux", "uy"): m.param(p)
        m.body("b1", *rigid(m, 1, False)); m.body("b2", *rigid(m, 2, False))
        m.frame("b1", "f", ["px", "py", 0], turned(m, "al", "y"))
        m.frame("b1.f", "g", [0, "ux", "pz"], turned(m, "be", "x"))
        m.frame("world", "w", [0, 0, "pz"], turned(m, "ga", "z"))
        m.frame("world.w", "v", ["ux", 0, 0], turned(m, "de", "x"))
        m.frame("b2", "e", [0, "uy", 0]); m.frame("b2.e", "t", ["px", 0, "uy"], "rot_mat(al,'z')")
        m.joint("j1", "world.w.v", "b1", d1)
        m.joint("j2", "b1.f.g", "b2.e.t", d2)
        m.sensor("Position", "sp", "b1.f.g", "b2.e"); m.sensor("Velocity", "sv", "world.w.v", "b2.e", "b1.f")
        m.sensor("Orientation", "so", "b1.f", "b2.e")
    return spec

def reacting(d1, d2, load=None, full=(True, False), ref=None):
    """forces and torques in the joints of a chain of two"""
    base = chain2(d1, d2, full=full)
    def spec(m):
        base(m)
        m.param("vx"); m.frame("world", "w", [0, "vx", 0], turned(m, "ga", "z")); m.frame("b2", "t", [0, "vx", "vx"], turned(m, "de", "x"))
        if load == "driven":
            m.input("u"); m.joint_load("u", "j1")
        elif load:
            if load.startswith("Cmp"): m.input("F", (3,))
            else: m.input("F")
            m.load(load, "F", "b1.f" if load == "CmpTorque" else "world.w", "b2.t", ref)
        for j in ("j1", "j2"):
            m.reaction("Force", "f" + j, j); m.reaction("Torque", "t" + j, j)
    return spec

def reacting_multi(dofs):
    base = multi(dofs)
    def spec(m):
        base(m)
        for i in range(len(dofs)):
            m.reaction("Force", "f%d" % i, "j", i); m.reaction("Torque", "t%d" % i, "j", i)
    return spec

def reacting_tree(d):
    base = tree(d)
    def spec(m):
        base(m)
        for j in ("j0", "ja"):
            m.reaction("Force", "f" + j, j); m.reaction("Torque", "t" + j, j)
    return spec

def loaded1(kind, dof, cs1, cs2, ref=None):
    """a load on a single body; between two of its frames; between frames of the world"""
    base = single(dof)
    def spec(m):
        base(m)
        m.param("vx"); m.frame("world", "w", [0, "vx", 0], turned(m, "ga", "z"))
        m.frame("b", "t", ["vx", 0, "py"], turned(m, "de", "y"))
        if kind.startswith("Cmp"): m.input("F", (3,))
        else: m.input("F")
        m.load(kind, "F", cs1, cs2, ref)
    return spec

def loads2(d1, d2, first, second):
    """two loads at once, sharing frames; each (kind, cs1, cs2, ref)"""
    base = chain2(d1, d2, full=(False, False))
    def spec(m):
        base(m)
        m.param("vx"); m.frame("world", "w", [0, "vx", 0], turned(m, "ga", "z"))
        m.frame("b2", "t", ["vx", 0, 0], turned(m, "de", "y"))
        for n, (kind, a, b, ref) in enumerate((first, second)):
            if kind.startswith("Cmp"): m.input("F%d" % n, (3,))
            else: m.input("F%d" % n)
            m.load(kind, "F%d" % n, a, b, ref)
    return spec

def driven_multi(dofs):
    """drives of the single degrees of freedom of one joint"""
    base = multi(dofs)
    def spec(m):
        base(m)
        for i in range(len(dofs)):
            m.input("u%d" % i); m.joint_load("u%d" % i, "j", i)
    return spec

def energies_loaded(d1, d2):
    """energies do not depend on the loads"""
    base = loaded("CmpForce", d1, d2, "world.w", "b2.t")
    def spec(m):
        base(m)
        m.energy("e2", "b2"); m.energy("e", "world"); m.com("cm")
    return spec

def energies_multi(dofs):
    base = multi(dofs, True)
    def spec(m):
        base(m); m.energy("e1", "b"); m.energy("e", "world"); m.com("cm")
    return spec

def energies_tree(d):
    base = tree(d)
    def spec(m):
        base(m); m.energy("er", "r"); m.energy("eb", "b"); m.energy("e", "world"); m.com("cm"); m.com("cab", ["a", "b"])
    return spec

def carrier(d1, d2, rev=False):
    """a body fixed to a moving one carries a third on a joint"""
    def spec(m):
        for p in ("px", "py", "ux", "uy"): m.param(p)
        for i in ([3, 2, 1] if rev else [1, 2, 3]): m.body("b%d" % i, *rigid(m, i, False))
        m.frame("b1", "f", ["px", 0, "py"], turned(m, "al", "y")); m.frame("b2", "e", ["ux", 0, 0], turned(m, "be", "x"))
        m.frame("b2", "g", [0, "uy", 0], turned(m, "ga", "z")); m.frame("b3", "e", [0, 0, "uy"])
        js = [("j1", "world", "b1", d1), ("w", "b1.f", "b2.e", []), ("j2", "b2.g", "b3.e", d2)]
        for j in (js[::-1] if rev else js): m.joint(*j)
        m.sensor("Position", "sp", "b2", "b3.e", "b1"); m.sensor("Velocity", "sv", "world", "b3", "b2.g")
    return spec

def massless(dofs):
    """a chain of bodies without mass in place of a joint of several degrees of freedom"""
    def spec(m):
        m.param("px"); m.param("uy"); n = len(dofs)
        m.frame("world", "f", ["px", 0, 0], turned(m, "al", "y"))
        last = "world.f"
        for i, d in enumerate(dofs[:-1]):
            m.body("h%d" % i, 0, [0, 0, 0], [0, 0, 0, 0, 0, 0])
            m.joint("j%d" % i, last, "h%d" % i, d); last = "h%d" % i
        m.body("b", *rigid(m, 1, True)); m.frame("b", "e", [0, "uy", 0])
        m.joint("j", last, "b.e", dofs[-1])
    return spec

def inplane(axis, length, angle):
    """a lever in the plane normal to the axis, at an angle counted like the rotations about the axis"""
    c, s = "%s*cos(%s)" % (length, angle), "%s*sin(%s)" % (length, angle)
    if axis == "x": return ["0", c, s]
    if axis == "y": return [c, "0", "-" + s]
    return [c, s, "0"]
def raised(p, axis, h):
    p = list(p); p["xyz".index(axis)] = h; return p
def bar(m, n, axis):
    """a bar with its centre of mass in the plane"""
    for p in ("m%d", "c%d", "d%d", "J%d"): m.param(p % n)
    c = ["c%d" % n, "d%d" % n]; c.insert("xyz".index(axis), "0")
    J = [0, 0, 0, 0, 0, 0]; J[{"x": 0, "y": 2, "z": 5}[axis]] = "J%d" % n
    return "m%d" % n, c, J
def fourbar(axis, posture=1, offset=False, swap=False, base=False):
    def spec(m):
        for p in ("l1", "l2", "l3", "l4", "al", "be", "ga", "de"): m.param(p)
        if offset: m.param("h")
        w = "world"
        if base: m.body("b0", *bar(m, 0, axis)); m.joint("j0", "world", "b0", "T" + AXES[axis][0]); w = "b0"
        for i in (2, 3, 4): m.body("b%d" % i, *bar(m, i, axis))
        m.frame(w, "D", inplane(axis, "l1", "al")); m.frame("b2", "B", raised(inplane(axis, "l2", "be"), axis, "h") if offset else inplane(axis, "l2", "be"))
        m.frame("b3", "C", inplane(axis, "l3", "ga"))
        m.frame("b4", "C", raised(inplane(axis, "l4", "de"), axis, "h") if offset else inplane(axis, "l4", "de"))
        R = "R" + axis
        m.joint("jA", w, "b2", R); m.joint("jB", "b2.B", "b3", R); m.joint("jD", w + ".D", "b4", R)
        a, b = ("b4.C", "b3.C") if swap else ("b3.C", "b4.C")
        m.loop("FourBar", "L", a, b, posture, axis=axis, free=("l1", "l2"), bound=("q_jB_" + R, "q_jD_" + R),
            shift={"q_jA_" + R: "al - be", "q_jB_" + R: "be - ga", "q_jD_" + R: "al - de"})
    return spec
def threebar(axis, slide, swap=False):
    def spec(m):
        for p in ("l1", "l2", "al", "be"): m.param(p)
        for i in (2, 3, 4): m.body("b%d" % i, *bar(m, i, axis))
        m.frame("world", "C", inplane(axis, "l1", "al")); m.frame("b2", "B", inplane(axis, "l2", "be"))
        R = "R" + axis; T = "T" + slide
        m.joint("jA", "world", "b2", R); m.joint("jC", "world.C", "b3", R); m.joint("jCB", "b3", "b4", T)
        m.frame("b4", "B")
        a, b = ("b4.B", "b2.B") if swap else ("b2.B", "b4.B")
        m.loop("ThreeBarTrans", "L", a, b, axis=axis, free=("l1", "l2"), bound=("q_jCB_" + T, "q_jC_" + R))
    return spec
def fourbartrans(axis, slide):
    def spec(m):
        for p in ("l1", "l2", "l3", "al", "be", "ga"): m.param(p)
        for i in (2, 3, 4, 5): m.body("b%d" % i, *bar(m, i, axis))
        m.frame("world", "D", inplane(axis, "l1", "al")); m.frame("b2", "B", inplane(axis, "l2", "be")); m.frame("b3", "C", inplane(axis, "l3", "ga"))
        R = "R" + axis; T = "T" + slide
        m.joint("jA", "world", "b2", R); m.joint("jB", "b2.B", "b3", R); m.joint("jD", "world.D", "b4", R); m.joint("jDC", "b4", "b5", T)
        m.frame("b5", "C")
        m.loop("FourBarTrans", "L", "b3.C", "b5.C", axis=axis, free=("l1", "l2"), bound=("q_jDC_" + T, "q_jD_" + R))
    return spec
def crankslider(axis, slide):
    def spec(m):
        for p in ("l1", "l2"): m.param(p)
        for i in (1, 2, 3): m.body("b%d" % i, *bar(m, i, axis))
        p = lambda l: [l if a == slide else 0 for a in "xyz"]
        m.frame("b1", "B", p("l1")); m.frame("b2", "B", p("l2"))
        R = "R" + axis; T = "T" + slide
        m.joint("j1", "world", "b1", R); m.joint("j3", "world", "b3", T); m.joint("j2", "b3", "b2", R)
        m.loop("CrankSlider", "L", "b1.B", "b2.B", axis=axis, free=("l1", "l2"), bound=("q_j3_" + T, "q_j2_" + R))
    return spec
def steering(height=1, side=1):
    def spec(m):
        for p in ("l1", "l2", "l3", "l4", "l5"): m.param(p)
        for i in (1, 2, 3): m.body("b%d" % i, *bar(m, i, "z"))
        n = lambda l, s: l if s > 0 else "-" + l
        m.frame("world", "D", [n("l1", height), n("l2", side), 0]); m.frame("b1", "B", [0, n("l3", side), 0])
        m.frame("b2", "C", [0, n("l4", side), 0]); m.frame("b3", "D", ["l5", 0, 0])
        m.joint("jA", "world", "b1", "Ty"); m.joint("jB", "b1.B", "b2", "Rz"); m.joint("jC", "b2.C", "b3", "Rz")
        m.loop("Steering", "L", "world.D", "b3.D", height, side, axis="z", free=("l1", "l2"), bound=("q_jB_Rz", "q_jC_Rz"))
    return spec
def hexapod(legs=1, moving=False):
    """a platform with six degrees of freedom on legs"""
    def spec(m):
        m.param("m1"); m.param("J1")
        m.body("b1", "m1", [0, 0, 0], ["J1", 0, 0, "J1", 0, "J1"])
        m.joint("jP", "world", "b1", ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"])
        for n in range(2, 2 + legs):
            ps = ["%s%d%s" % (k, n, a) for k in "bt" for a in "xyz"]
            for p in ps: m.param(p)
            m.frame("world", "A%d" % n, ps[:3]); m.frame("b1", "C%d" % n, ps[3:])
            m.param("m%d" % n); m.param("c%d" % n)
            m.body("h%d" % n, 0, [0, 0, 0], [0, 0, 0, 0, 0, 0]); m.body("r%d" % n, "m%d" % n, ["c%d" % n, 0, 0], [0, 0, 0, 0, 0, 0])
            m.joint("jA%d" % n, "world.A%d" % n, "h%d" % n, ["Ry", "Rz"]); m.joint("jB%d" % n, "h%d" % n, "r%d" % n, "Tx")
            m.loop("Hexapod", "L%d" % n, "b1.C%d" % n, "r%d" % n, axis=None, free=tuple(ps[:3]), bound=("q_jB%d_Tx" % n, "q_jA%d_Ry" % n, "q_jA%d_Rz" % n))
    return spec
def transmission(d1, d2, ratio, chain=True):
    def spec(m):
        for p in ("px", "py"): m.param(p)
        m.body("b1", *rigid(m, 1, False)); m.body("b2", *rigid(m, 2, False))
        m.frame("b1", "f", ["px", "py", 0], turned(m, "al", "y"))
        m.joint("j1", "world", "b1", d1); m.joint("j2", "b1.f" if chain else "world", "b2", d2)
        m.loop("Transmission", "L", "j1", "j2", ratio, free=(), bound=("q_j2_" + d2,))
    return spec

def started_loop(axis, slide, starts):
    """start values in a mechanism: the independent coordinate keeps its own"""
    base = crankslider(axis, slide)
    def spec(m):
        class With:
            def __getattr__(self, n): return getattr(m, n)
            def joint(self, name, cs1, cs2, dofs, start=None, start_d=None):
                m.joint(name, cs1, cs2, dofs, *starts.get(name, (None, None)))
        base(With())
    return spec
