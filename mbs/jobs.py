"""What one job does."""
import traceback
import numpy
from fractions import Fraction
from alg import Unsupported
import alg, systems
from play import Game, flat

class Failed(Exception):
    """the library fails, or what it generates cannot be executed"""
    def __init__(self, what, text):
        Exception.__init__(self, what); self.text = text

def gravity(k):
    return {"y": [0, -1, 0], "z": [0, 0, -1], "x": [1, 0, 0], "s": [0, 0.6, -0.8]}[k]

def start(arg, out):
    """arg: 'MODE g SPEC'"""
    text, g = arg
    spec = eval(text, dict(vars(systems)))
    G = Game(spec, gravity(g))
    return G, text

def guarded(what, f, *a, **k):
    try: return f(*a, **k)
    except Unsupported: raise
    except Exception as e:
        raise Failed("%s: %s: %s" % (what, type(e).__name__, str(e)[:200]), "".join(traceback.format_exception(type(e), e, e.__traceback__)))

def play(G, text, mode):
    return guarded("%s of %s fails" % (mode, text), G.play, mode)

def run(G, text, mode, lib, kinds, free_acc=False):
    """the generated assignments over symbolic values; code that cannot be executed is replayed on numbers before it counts"""
    try: return G.run(lib, kinds, free_acc)
    except Unsupported: raise
    except Exception as e:
        first = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        from numeric import Point, Replay
        from pymbs.symbolics import VarKind
        lay = {"q": [str(x) for x in lib.w.state.q], "qd": [str(x) for x in lib.w.state.qd]}
        from run import Run
        r = Run(G.R, G.ref.free, ("q", "qd"))
        for k in kinds:
            for l, s in lib.pairs(getattr(VarKind, k)):
                if s in lay and not l.startswith("der_"): lay[s] = r.targets(l)
        n = Replay(Point(G.R, None, 3), G.ref.free, {s: (v, len(v) > 1) for s, v in lay.items()}, {})
        try:
            for k in kinds: n.all(lib.pairs(getattr(VarKind, k)))
        except Exception as e2:
            raise Failed("%s of %s generates code that fails: %s: %s" % (mode, text, type(e2).__name__, str(e2)[:160]), first)
        raise

def harvest(G, out, text):
    out["checked"] += G.res.checked
    out["queries"] += G.dec.queries
    out["solver_s"] += G.dec.seconds
    out["undecided"] += ["%s: %s" % (text, l) for l in G.res.undecided]
    seen = set()
    for label, pt in G.res.bad:
        group = label.split("[")[0]
        if group in seen: continue
        if isinstance(pt, str):
            seen.add(group)
            out["found"].append(("%s: %s: %s" % (text, label, pt), "%s\n%s: %s\n" % (text, label, pt)))
            continue
        hit = G.confirm(label, pt)
        if hit is None:
            out["unreproduced"].append("%s: %s" % (text, label)); continue
        seen.add(group)
        what, at = hit
        names = sorted(n for n in at.base if not n.startswith(("s(", "c(", "root")))
        out["found"].append(("%s: %s" % (text, group), "system: %s\nresult: %s\n%s\nat\n%s\n" % (text, label, what, "\n".join("  %s = %r" % (n, at.base[n]) for n in names))))
    G.res.bad, G.res.undecided, G.res.checked, G.dec.queries, G.dec.seconds = [], [], 0, 0, 0.0

def sensed(G):
    return ["Der_State", "Sensor"] + (["Graphics"] if G.ref.drawn else [])

def motion(arg, out):
    mode, rest = arg[0], arg[1:]
    G, text = start(rest, out)
    lib = play(G, text, mode)
    r = run(G, text, mode, lib, ["Der_State"])
    G.motion(mode, r)
    out["samples"].append("%s %s: der_qd of %d degrees of freedom" % (mode, text, len(G.ref.dofs)))
    harvest(G, out, text)

def sensors(arg, out):
    mode, rest = arg[0], arg[1:]
    G, text = start(rest, out)
    lib = play(G, text, mode)
    r = run(G, text, mode, lib, sensed(G), True)
    G.sensors(mode, r)
    out["samples"].append("%s %s: %s" % (mode, text, ", ".join(s[0] for s in G.ref.sensors)))
    harvest(G, out, text)

def kinematics(arg, out):
    """the positions and velocities without equations of motion"""
    mode, rest = arg[0], arg[1:]
    G, text = start(rest, out)
    lib = guarded("%s of %s fails" % (mode, text), G.play, mode, kinematicsOnly=True)
    R = G.R; acc = [R.V(str(x).replace("q_", "qdd_", 1)) for x in lib.w.state.q]
    G.ref.free["qdd"] = alg.Mat([[x] for x in acc]) if len(acc) > 1 else acc[0]      # an input there
    r = run(G, text, mode, lib, sensed(G))
    G.same(r.env["der_qd"], G.ref.free["qdd"], mode + " der_qd")
    v = [R.V(str(x).replace("q_", "qd_", 1)) for x in lib.w.state.q]
    G.same(r.env["der_q"], alg.Mat([[x] for x in v]) if len(v) > 1 else v[0], mode + " der_q")
    for l in ("der_q", "der_qd"):
        G.tests["%s %s" % (mode, l)] = (lib, r, "value", l)
        G.ref.values[l] = G.ref.free["qdd"] if l == "der_qd" else alg.Mat([[x] for x in v])
    G.sensors(mode, r)
    out["samples"].append("%s %s without equations of motion: %s" % (mode, text, ", ".join(s[0] for s in G.ref.sensors)))
    harvest(G, out, text)

def both(arg, out):
    mode, rest = arg[0], arg[1:]
    G, text = start(rest, out)
    lib = play(G, text, mode)
    r = run(G, text, mode, lib, ["Der_State"])
    G.motion(mode, r)
    if G.ref.sensors:
        r = run(G, text, mode, lib, sensed(G), True)
        G.sensors(mode, r)
    out["samples"].append("%s %s: der_qd, %s" % (mode, text, ", ".join(s[0] for s in G.ref.sensors)))
    harvest(G, out, text)

def agree(arg, out):
    """the formulations against each other"""
    modes, rest = arg[0].split(","), arg[1:]
    G, text = start(rest, out)
    G.agree(modes, lambda m: play(G, text, m), lambda m, lib, k, f=False: run(G, text, m, lib, k, f))
    out["samples"].append("%s %s" % (arg[0], text))
    harvest(G, out, text)

KINDS = dict(motion=motion, sensors=sensors, both=both, agree=agree, kinematics=kinematics)

def power(arg, out):
    """the reference against itself: the energy changes at the rate of the power of the loads along its equations of motion"""
    G, text = start(arg, out)
    R, ref = G.R, G.ref
    e = R.C(0)
    for b in ref.bodies.values():
        if b.name != "world": e = e + ref.energy_of(b)
    p = R.C(0)
    for q, d, j in ref.dofs: p = p + R.V(q.replace("q_", "qd_", 1)) * G.residuals()[[x[0] for x in ref.dofs].index(q)]
    for load in ref.loads:
        for path, f, t in ref.load_ends(load):
            x, A = ref.fpose(path)
            p = p + alg.dot(list(f), list(x.total())) + alg.dot(list(t), list(ref.omega(A)))
    for q, d, j in ref.dofs: R.deriv[q.replace("q_", "qd_", 1)] = R.V(q.replace("q_", "qdd_", 1))
    G.same(e.total(), p, "rate of the energy")
    if G.res.bad: raise AssertionError("the reference contradicts itself: %s" % G.res.bad)
    out["samples"].append("reference of %s: energy and power" % text)
    harvest(G, out, text)
KINDS["power"] = power

def loops(arg, out):
    from loops import Loops
    mode, text, g = arg[:3]
    moving = {"kinematicsOnly": True} if arg[3:] else {}
    spec = eval(text, dict(vars(systems)))
    def play2(G, prepare): return guarded("%s of %s fails" % (mode, text), G.play, mode, prepare, **moving)
    L = Loops(spec, gravity(g), mode, play2, bool(moving))
    G = L.G
    if L.states():
        for what, f in (("closed +", lambda: L.closed(1)), ("closed -", lambda: L.closed(-1)), ("rates", L.rates), ("projected", L.projected))[:3 if moving else 4]:
            try: f()
            except Unsupported as e: out["undecided"].append("%s %s: %s: %s" % (mode, text, what, e))
    out["samples"].append("%s %s: %s" % (mode, text, "closure and its rate, without equations of motion" if moving else "closure, its rate and acceleration, projected equations of motion"))
    G.confirm = lambda label, pt: L.confirm(label)
    harvest(G, out, text)
KINDS["loops"] = loops
def written(arg, out):
    import written
    written.written(arg, out)
KINDS["written"] = written
def helped(arg, out):
    import helpers
    helpers.helpers(arg, out)
KINDS["helpers"] = helped
def declare(arg, out):
    import declared
    declared.declared(arg, out)
KINDS["declared"] = declare
def routine(arg, out):
    import routines
    routines.routines(arg, out)
KINDS["routines"] = routine
