"""Which engine, families and bounds decide which property."""
CHECKS = {}
NOT_APPLICABLE = {}
SX_TECH = "symbolic execution of the compiled C++ (LLVM IR instrumented, one run per path, branch conditions flipped by z3); z3 decides the value equality on every path"
SX_NOTE = "Holds for every value of the symbolic numbers, variables and structural choices within the listed families and bounds; paths of a complete family are exhausted. Trusted: the LLVM pass and runtime, z3, the denotation in harness/hs.h; elementary functions are uninterpreted except for listed identities."
CHECKS["S01"] = dict(kind="sx", level="model_checking", technique=SX_TECH, note=SX_NOTE, harness="h_s01",
    classes=["Basic::", "Add::", "Mul::", "Pow::", "Neg::", "Transpose::", "Skew::", "Sin::", "Cos::", "Tan::", "Asin::", "Acos::", "Atan::", "Atan2::", "Abs::", "Sign::", "If::", "Inverse::", "Solve::", "Outer::", "Scalar::", "Element::", "Greater::", "Less::", "Equal::", "Matrix::", "Util::"],
    quick=[("tree1", 10), ("add3q", 14), ("mul3q", 20), ("fun", 10), ("powb", 12), ("mpowl", 5), ("arc", 5), ("mpow0", 5), ("mpows", 5), ("vec1", 10), ("mat1", 15), ("mixed8", 5), ("mixed13", 5), ("mixed17", 5), ("mixed15", 5)],
    thorough=[("mixed%d" % i, 25) for i in range(18) if i not in (8, 13, 17)] + [("fun2", 60), ("mat3", 40), ("vec1_3", 20), ("tree2", 60), ("add3full", 40), ("mul3full", 40), ("mat2", 40), ("vec2", 40), ("add4", 30), ("mul4", 30)],
    bounds="scalar trees of depth <=2 over +,*,-,pow with symbolic integers -3..4, reals k/4 and exponents; sums and products of 3-4 items; functions of depth <=2; vectors of length 2-3 and 2x2/3x3 matrix trees of depth <=2")
_b = ["b_ss", "b_sv", "b_vs", "b_vv", "b_sm", "b_ms", "b_mv", "b_rm", "b_mr", "b_rv", "b_vr", "b_mm", "b_wk", "b_kw", "b_ks", "b_sk", "b_mk", "b_ck", "b_kc", "b_kn", "b_nk", "b_vw", "b_wv"]
_bq = [f for f in _b if f not in ("b_kn", "b_nk", "b_ks", "b_ck", "b_mk", "b_sk")]
_u = ["u_s", "u_v", "u_w", "u_q", "u_m", "u_k"]
_o = ["p_s", "p_m", "s_ss", "s_mv", "s_nw", "o_vv", "o_ww", "t_ss", "e_s", "e_v", "e_r", "e_m", "e_k", "i_ss", "i_vv", "cmp", "n_s", "n_v", "n_m"]
S2BOUNDS = "for shapes: variables of all shapes with sizes 1..5 as solver variables in 16 operations; then one operation (sum, difference, product, quotient, power, 14 functions, solve, outer, atan2, element, if, comparison, int/double overloads) on operands of 11 forms (variables, symbolic numbers, literals with numbers and variables, zero, identity, sums, products, negations, transposes, inverses) per shape class: scalar, columns and rows of 2 and 3, 2x2, 3x3, 2x3, 3x2, 1x1, 1x2, 2x1; two nested operations for the four forms of leaves. Vectors with a single element are left out (the library identifies them with scalars in places)."
CHECKS["S02"] = dict(kind="sx", level="model_checking", technique=SX_TECH, note=SX_NOTE, harness="h_s02",
    classes=CHECKS["S01"]["classes"] + ["operator", "Zero::", "Eye::", "Int::", "Real::"],
    quick=[("v:" + f, 4) for f in _bq + _u + _o + ["p0"]] + [("v:bb", 10)],
    thorough=[("v:" + f, 15) for f in _b if f not in _bq] + [("v:" + f, 20) for f in ("b_nn", "b_nw", "b_qn", "b_oo", "b_os", "b_hm", "b_mz", "b_cv", "u_n", "u_c", "p_n", "o_ss", "i_mm", "e_n", "e_q", "n_k")] + [("v:bb", 500)],
    bounds=S2BOUNDS)
CHECKS["S03"] = dict(kind="sx", level="model_checking", technique=SX_TECH + "; the shape relation is evaluated on every path the solver finds feasible", note=SX_NOTE, harness="h_s02",
    classes=CHECKS["S02"]["classes"] + ["Shape::"],
    quick=[("s:d_%d" % k, 5) for k in range(16)] + [("s:" + f, 3) for f in _u + _o + ["b_ss", "b_sv", "b_vs", "b_vv", "b_mv", "b_rm", "b_mr", "b_rv", "b_vr", "b_wk", "b_kw", "b_vw"] + ["u_n", "u_c", "u_o", "b_oo", "b_os", "b_hm", "b_zh", "b_hz", "p_v", "p_k", "s_kv", "s_mm", "s_ms", "s_mz", "s_mw", "o_vw", "o_rv", "t_vv", "t_sv", "i_sv"]] + [("s:bb", 12)] + [("h_s04@s:" + f, 2) for f in ("f1", "vm", "vs", "inv", "mp", "sk", "eye", "mixed4")],
    thorough=[("s:" + f, 12) for f in _b if f not in _bq + ["b_mm"]] + [("s:" + f, 20) for f in ("b_nn", "b_nw", "b_qn", "b_nv", "b_mn", "b_cm", "b_wm", "i_mk", "i_mm", "e_n", "e_q", "n_k", "n_r", "s_nv", "s_rv")] + [("h_s04@s:mixed%d" % i, 15) for i in (0, 3, 5, 7, 11, 16)] + [("s:bb", 300)],
    bounds=S2BOUNDS)

_d1 = ["f1", "f2", "fm", "if", "vm", "vs", "inv", "mp", "sk", "eye", "nest", "vecj"]
CHECKS["S04"] = dict(kind="sx", level="model_checking", technique=SX_TECH + "; the derivative is compared with forward-mode differentiation (dual numbers) of the original", note=SX_NOTE, harness="h_s04",
    classes=[c + "der" for c in CHECKS["S01"]["classes"]] + ["Symbol::", "Jacobian::", "Der::", "Outer::", "Inverse::"],
    quick=[("t:" + f, 4) for f in _d1] + [("p:" + f, 3) for f in _d1] + [("j:" + f, 3) for f in ("f1", "f2", "fm", "vm", "vs", "vecj", "if")] + [("J:" + f, 3) for f in ("f1", "vm", "vs", "vecj")] + [("t:mf", 4), ("k:k", 3), ("t:add3q", 3), ("t:mul3q", 3), ("p:mul3q", 3), ("t:powb", 4), ("t:mat1", 4), ("p:mixed4", 4)],
    thorough=[("%s:%s" % (m, f), 15) for m in "tp" for f in ["mixed%d" % i for i in range(17) if i != 13] + ["tree1", "fun", "powb", "add3q", "vec1"]] + [("j:" + f, 15) for f in ("mixed0", "mixed4", "mixed9", "mixed14", "fun", "vec1", "tree1")],
    bounds="functions of depth <=2 over scalar arguments; sums, products and powers of 3 items with symbolic integers and reals; products, outer products, solutions, inverses, integer powers, skew matrices and elements of 2- and 3-vectors and 2x2 matrices, symbolic and literal; Jacobians of scalars and 2-vectors with respect to two variables; elementwise functions of vector or matrix variables only for 2x2 (recorded findings)")

_p5 = ["num", "shp", "sum", "prd", "prm", "fun", "bin", "cmp", "nst", "mix"]
CHECKS["S05"] = dict(kind="sx", level="model_checking", technique=SX_TECH + "; soundness of equality is decided by z3 on every path on which two expressions compare equal, the order laws on every path", note=SX_NOTE, harness="h_s05",
    classes=["operator<", "operator==", "operator!=", "Shape::"] + [c + "operator" for c in ("Int::", "Real::", "Zero::", "Eye::", "Bool::", "Symbol::", "Matrix::", "UnaryOp::", "BinaryOp::", "NaryOp::", "Add::", "Mul::", "If::")],
    quick=[("e:" + f, 5) for f in _p5] + [("l:" + f, 8) for f in _p5] + [("y:num", 3), ("y:shp", 4), ("y:mix", 4), ("e:shp+mix", 4), ("e:num+shp", 3)],
    thorough=[("l:%s+%s" % (a, b), 20) for a in _p5 for b in _p5 if a != b],
    bounds="pairs and triples from 10 pools of 8-14 expressions each: numbers (symbolic integers and reals, zeros, truth values), literals and special matrices of six shapes, sums and products of 2-3 items in every order, products with matrices, 8 functions, powers, comparisons, conditionals, elements, nested sums; triples within a pool and across two pools")
_f6 = ["un", "f1", "vs", "vm", "if", "inv", "mp", "sk", "mf", "eye", "vecj", "cnd", "nest"]
CHECKS["S06"] = dict(kind="sx", level="model_checking", technique=SX_TECH + "; the result is compared with the original in which the substituted term means the replacement", note=SX_NOTE, harness="h_s06",
    classes=["::subs", "Factory::", "Argument::", "Basic::changed"] + CHECKS["S01"]["classes"],
    quick=[("v:" + f, 3) for f in _f6 + ["d1", "tree1", "add3q", "mul3q", "vec1", "mat1", "mixed12"]] + [("c:" + f, 2) for f in ("un", "f1", "vs", "vm", "if", "inv", "sk", "tree1", "mul3q", "vecj")] + [("i:" + f, 2) for f in ("un", "f1", "vs", "if", "inv", "mul3q", "mat1", "vecj")],
    thorough=[("v:" + f, 12) for f in ["fun", "powb", "tree2"] + ["mixed%d" % i for i in range(17)]] + [("c:" + f, 12) for f in ["mat1", "vec1", "add3q", "nest", "fun", "mixed12", "mixed14", "mixed5", "mixed9"]] + [("i:" + f, 12) for f in ("add3q", "vec1", "nest", "mixed12", "mixed9", "vm", "tree2")],
    bounds="in expressions of the listed families (functions of depth <=2, sums and products of 3 items, matrix and vector expressions, conditionals, derivatives of variables) one variable or one compound subexpression replaced by each of 9 scalar or 6 vector/matrix forms, by building a new expression and in place")
CHECKS["S08"] = dict(kind="sx", level="model_checking", technique=SX_TECH + "; the meaning before and after is compared", note=SX_NOTE, harness="h_s06",
    classes=["Matrix::set", "Matrix::operator", "Argument::"] + CHECKS["S01"]["classes"],
    quick=[("u:" + f, 3) for f in _f6 + ["tree1", "add3q", "mul3q", "vec1", "mat1", "powb", "mixed12", "mixed4"]] + [("m:m", 4)],
    thorough=[("u:" + f, 15) for f in ["fun", "fun2", "tree2", "vec1_3", "mat3", "f2"] + ["mixed%d" % i for i in range(17)]],
    bounds="expressions of the listed families (functions of depth <=2, sums and products of 3 items, matrices, vectors, conditionals) after one of 14 uses: time and partial derivative, text, substitution, simplification inside sums, products and negations, comparison and ordering, multiplication, transposition, collection of variables, power, function application, element or quotient; element assignment in matrices of six shapes with a copy, an assigned copy and four earlier results kept")
CHECKS["S09"] = dict(kind="sx", level="model_checking", technique=SX_TECH + "; the solution is inserted into the equation", note=SX_NOTE, harness="h_s09",
    classes=["Basic::solve", "is_Factor", "LookFor", "Util::div"] + CHECKS["S04"]["classes"],
    quick=[("l:l", 20), ("m:m", 5), ("v:v", 3)] + [("s:" + f, 3) for f in ("f1", "add3q", "mul3q", "if", "tree1", "nest", "f2")],
    thorough=[("l:l", 250)] + [("s:" + f, 15) for f in ("fun", "fun2", "tree2", "powb", "add3full", "mul3full", "add4", "mixed0", "mixed3", "mixed4", "mixed7")],
    bounds="equations of one occurrence term out of 24 (linear ones and ones in which the unknown cancels or is not linear) in 4 surroundings with 8 other terms, for a variable, a derivative, an element of a vector or of a matrix; 11 matrix forms for a 2x2 unknown and 6 for vectors; sums and products of 3 items with symbolic numbers; expressions of depth <=2")
# ---------------------------------------------------------------- printers
_own = ["num", "pw", "der", "names", "el", "lit", "zer", "sg", "ifs", "cmpn", "tree1", "f1", "f2", "mm", "fm"]
_mx = ["vs", "vm", "inv", "mp", "sk", "eye", "nest", "vecj"]
_big = ["add2", "powb", "mul3q", "add3q", "fun"]
_bmx = ["vec1", "mat1", "mixed4"]
T_TECH = SX_TECH + "; the printed text is parsed with the grammar of the target language and its meaning compared with that of the expression"
T_NOTE = SX_NOTE + " The grammars and the meaning of the target languages' operators are part of the trusted harness (harness/h_t.cpp)."
def _t(pid, langs, fams, big, lim, tfams, what, cls):
    CHECKS[pid] = dict(kind="sx", level="model_checking", technique=T_TECH, note=T_NOTE, harness="h_t", classes=[c + "Printer::" for c in cls] + ["Printer::"],
        quick=[("%s:%s" % (l, f), lim) for f in fams for l in langs if not (l in "yo" and f in ("cmpn", "ifs"))] + [("%s:%s" % (l, f), lim) for f in big for l in langs if l not in "ysf"] + ([("o:sg0", 3)] if "o" in langs else []),
        thorough=[("%s:%s" % (l, f), 25) for f in tfams for l in langs], bounds=what)
_what = "expressions of the families: %d hard-to-write numbers in 9 positions, symbolic integers and reals, powers, derivatives, names that need escaping, elements and literals of 8 shapes, zeros, signs and absolute values, nested conditionals, comparisons, sums of negated items, products of 3-4 scalars, rows, columns and matrices as the operators build them, functions of depth <=2, matrix expressions of depth <=2" % 20
_t("T01", "p", _own + _mx, _big + _bmx, 5, ["tree2", "fun2", "add3full", "mul3full", "mat2", "vec2"] + ["mixed%d" % i for i in range(18) if i != 4], _what, ["Python"])
_t("T02", "cfs", _own, _big, 4, ["tree2", "fun2", "add3full", "mul3full", "mat1", "vec1", "mixed3", "mixed7"], _what + "; scalar expressions and initialisers of arrays for C and FMU, for C# also sums, products, transposes and inverses of matrices", ["C", "FMU", "CSharp"])
_t("T03", "o", _own + _mx, _big + _bmx, 5, ["tree2", "fun2", "add3full", "mul3full", "mat2", "vec2"] + ["mixed%d" % i for i in range(18) if i != 4], _what, ["Fortran"])
_t("T04", "mdy", _own + _mx, _big + _bmx, 3, ["tree2", "fun2", "add3full", "mat2", "vec2", "mixed3", "mixed9", "mixed14"], _what + "; symbolic Matlab without atan2 and without the sign of zero (documented replacements)", ["Matlab", "MatlabSym", "Modelica"])
CHECKS["T04"]["quick"] = [x for x in CHECKS["T04"]["quick"] if not (x[0][0] == "y" and x[0][2:] in _mx + ["tree1", "names", "el", "lit", "zer", "pw"]) and not (x[0][0] == "m" and x[0][2:] in ("powb", "add3q", "mul3q", "fun", "vec1"))]
# ---------------------------------------------------------------- graph
G_TECH = SX_TECH + "; the ordered assignments are executed over solver terms and compared with the equations"
GB = "systems of 5-10 equations with one input, parameter, state and sensor: aliases, negations, products, sums, powers, conditionals, numbers (symbolic), functions of time; sensors and derivatives of states, inputs, parameters, other sensors and constants; parameters that depend on others; shared trigonometric terms with clashing names; vectors of 2 and 3, 2x2 and skew matrices, vectors defined element by element, several unknowns in one equation, mechanical form M*qdd = f-h of one and two degrees of freedom; three orders of the equations, two namings and three requested results (in the quick tier four of these 18 combinations)"
_gq = [("al22:q", 5), ("al14", 8), ("sp:q", 14), ("pa:q", 8), ("tn", 3), ("v3", 4), ("el:q", 8), ("em", 3), ("mx:q", 6), ("so:q", 5), ("s1:q", 5), ("un", 2)]
_gp = [("ar:q", 6), ("ve:q", 10), ("tr5:q", 6), ("al24:q", 6)]
_gt = ["al22", "el", "so", "s1", "pa", "mx", "sp", "tr5", "al24", "ve", "ar"]
CHECKS["G01"] = dict(kind="sx", level="model_checking", technique=G_TECH, note=SX_NOTE, harness="h_g", budget=150,
    classes=["Graph::", "Assignments::"], quick=[(m + ":" + f, l) for f, l in _gq + _gp for m in "ns" if not (m == "n" and f in ("al24:q", "tr5:q"))],
    thorough=[(m + ":" + f, 60) for f in _gt for m in "sn"], bounds=GB)
CHECKS["G02"] = dict(kind="sx", level="model_checking", technique=G_TECH, note=SX_NOTE, harness="h_g", budget=200,
    classes=["Graph::", "Assignments::", "NodeStatistic"], quick=[(m + ":" + f, l) for f, l in _gq + _gp for m in "otu" if not (m == "u" and f in ("al14", "sp:q", "pa:q", "mx:q", "al22:q"))],
    thorough=[(m + ":" + f, 60) for f in _gt for m in "otu"], bounds=GB + "; built with optimisation directly, after makeScalar, and twice with makeScalar in between as the writers do")
CHECKS["G03"] = dict(kind="sx", level="model_checking", technique=SX_TECH + "; every ill-posed system must be refused on every path", note=SX_NOTE, harness="h_g",
    classes=["Graph::", "Assignments::"], quick=[("x:" + f, 8) for f in "nam dup und und2 c1 c2 c4 cv".split()] + [("x:c3", 15)],
    thorough=[("x:c3", 120)], bounds="a second declaration of a name in five kinds; a second definition of a variable, sensor, parameter, derivative, vector or element; undeclared or undefined variables, states, parameters and vector elements in 8 surroundings; cycles of one to four variables, through vectors, elements and derivatives, with six forms of each equation; three orders of the equations; plain, optimised, scalar, both")
# ---------------------------------------------------------------- multibody systems
M_TECH = "symbolic execution of the equation generator on symbolic lengths, angles, masses, inertias, loads, coordinates and velocities; z3 (nonlinear real arithmetic) decides every generated result against the reference for all their values; counterexamples are executed on the generated equations"
M_NOTE = "Bounded: topology, kinds of joints and number of bodies are enumerated, all quantities are symbolic. Normal forms modulo the defining relations of sines, cosines and roots are computed before z3 is asked. Trusted: mbs/alg.py, mbs/model.py, mbs/run.py, z3."
MODES = ["Explicit", "Recursive", "OrderN"]
DOF = ["Tx", "Ty", "Tz", "Rx", "Ry", "Rz"]
def _j(kind, specs, g="s", modes=MODES, t=90):
    if kind == "agree": return [["agree", [",".join(modes), s, g], t] for s in specs]
    return [[kind, [m, s, g], t] for s in specs for m in modes]
def _w(f, *a, **k):
    return "%s(%s)" % (f, ", ".join([repr(x) for x in a] + ["%s=%r" % kv for kv in k.items()]))
GEN = ["pymbs/processing/generator.py", "pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py", "pymbs/processing/generator_order_n.py", "pymbs/processing/body.py", "pymbs/processing/joint.py", "pymbs/processing/frame.py", "pymbs/input/mbs_system.py", "pymbs/input/transformation.py", "symbolics (compiled expression library and graph)"]
def _m(pid, quick, thorough, bounds, functions, budget=150):
    CHECKS[pid] = dict(kind="mbs", module="mbscheck", level="model_checking", technique=M_TECH, note=M_NOTE, quick=quick, thorough=thorough, bounds=bounds, functions=GEN + functions, budget=budget)
_c2q = [("Rx", "Rz"), ("Rz", "Ry"), ("Ry", "Tx"), ("Tz", "Rx"), ("Tx", "Ty"), ("Rx", "Rx"), ("Tz", "Tz"), ("Rz", "Ty"), ("Ty", "Rz"), ("Ry", "Ry")]
_single = [_w("single", d, a, b) for d, a, b in zip(DOF, "yzxyzx", "xxyyzz")]
_m("M01", _j("motion", _single + [_w("chain2", a, b) for a, b in _c2q]) + _j("motion", [_w("multi", ["Tx", "Rz"]), _w("multi", ["Rz", "Ry"]), _w("tree", ["Rx", "Rz", "Ty"]), _w("tree", ["Rx", "Tz", "Ry"], rev=True)], "y"),
    _j("motion", [_w("chain2", a, b, "z", "x", (True, True)) for a in DOF for b in DOF]) + _j("motion", [_w("multi", ["Rx", "Ry", "Rz"]), _w("multi", ["Tx", "Ty", "Rz"]), _w("chain3", ["Rx", "Tz", "Ry"]), _w("chain3", ["Rz", "Rz", "Rz"], planar=True), _w("tree", ["Rz", "Ry", "Rx"]), _w("tree", ["Tx", "Rx", "Rz"], rev=True)], "y"),
    "trees of one to three bodies with joints of one to three degrees of freedom; joint frames displaced and turned on both sides; full inertia tensors and centres of mass; gravity in a general direction", [])
_sens = [_w("sensing", "Rx", "Tz"), _w("sensing", "Rz", "Ry"), _w("sensing", "Ty", "Rx", [("b2.e", "world.w", "b1.f"), ("b1", "b2", "world.w")])]
_dist = [_w("distances", "Rz", "Rx"), _w("distances", "Tx", "Rz")]
_kin = [_w("sensing", "Rz", "Ry", kinds=("Position", "Velocity", "AngularVelocity")), _w("sensing", "Tx", "Rz", [("b2.e", "world.w", "b1.f"), ("b1", "b2", "world.w")], kinds=("Position", "Velocity", "AngularVelocity")), _w("distances", "Rz", "Rx"), _w("drawn", "Rx", "Tz"), _w("energies", "Rx", "Rz"), _w("assembled", "HydCyl", "Rx", "Tz", "b1.f", "b2.t"), _w("assembled", "Tyre", "Rx", "Rz", "b1.f", "b2.t"), _w("driven", "Rz", "Ry"), _w("single", "Tx"), _w("multi", ["Tx", "Rz"]), _w("tree", ["Rx", "Rz", "Ty"])]
_m("M03", _j("kinematics", _kin, "y") + _j("sensors", [_w("assembled", "MotionSystem", "Rx", "Tz", "b2.t")], "y") + _j("sensors", _sens + _dist + [_w("sensing1", "Rx"), _w("sensing1", "Ty"), _w("drawn", "Rx", "Tz"), _w("drawn", "Rz", "Ry")]), _j("sensors", [_w("sensing1", d) for d in ("Ry", "Rz", "Tx", "Tz")]) + _j("sensors", [_w("sensing", a, b, [("b2.e", "world.w", None), ("b1.f", "b2", "b2.e"), ("world", "world.w", "b2")]) for a, b in [("Rx", "Ry"), ("Rz", "Rz"), ("Tx", "Ry"), ("Ry", "Tx"), ("Tz", "Ty"), ("Rx", "Rx")]] + [_w("distances", a, b) for a, b in [("Ry", "Ty"), ("Tz", "Tx"), ("Rx", "Ry")]]),
    "position, velocity, acceleration, orientation, angular velocity and acceleration, distance and joint sensors between frames of one body, of a chain of two bodies and of the world; three choices of the reference frame; the sensors of position and velocity also with kinematicsOnly, where the accelerations are inputs; the sensors of a motion platform", ["pymbs/processing/sensors", "pymbs/input/sensors.py"])
_m("M02", _j("agree", [_w("single", d, a, b) for d, a, b in zip(DOF, "xxzzyy", "zyxyxz")] + [_w("chain2", a, b, "x", "z", (False, False)) for a in DOF for b in DOF]) + _j("agree", _sens + [_w("loaded", "CmpForce", "Rx", "Rz", "b1.f", "b2.t", "world.w"), _w("loaded", "CmpTorque", "Ry", "Rz", "world.w", "b2.t", "b1.f"), _w("loaded", "PtPForce", "Rx", "Tz", "b1.f", "b2.t"), _w("driven", "Rz", "Ry"), _w("energies", "Rx", "Tz"), _w("welded", "Rx", sensors=True), _w("nested", "Ty", "Rx"), _w("tree", ["Rx", "Rz", "Ty"]), _w("multi", ["Rz", "Ry"]), _w("driven_multi", ["Tx", "Rz"])], "y"),
    _j("agree", [_w("chain3", ["Rx", "Tz", "Ry"]), _w("chain3", ["Rz", "Rz", "Rz"], planar=True), _w("multi", ["Rx", "Ry", "Rz"]), _w("carrier", "Tz", "Rx"), _w("tree", ["Rx", "Tz", "Ry"], rev=True), _w("massless", ["Rz", "Ry"])] + [_w("sensing", a, b, [("b2.e", "world.w", None), ("b1.f", "b2", "b2.e")]) for a, b in [("Rx", "Ry"), ("Tx", "Ry"), ("Tz", "Ty")]], "y") + _j("agree", [_w("chain2", a, b) for a in DOF for b in DOF]),
    "all pairs of the three formulations on one body with any joint, on chains of two bodies with all 36 pairs of joints, and on systems with loads, sensors, welds, nested frames, branches and joints of two degrees of freedom", ["pymbs/processing/sensors", "pymbs/processing/loads"])
_load = [_w("loaded", *a) for a in [("CmpForce", "Rx", "Rz", "world", "b2.t"), ("CmpForce", "Rx", "Rz", "b1.f", "b2.t", "b2"), ("CmpForce", "Rx", "Rz", "b1.f", "b2.t", "world.w"), ("CmpForce", "Rx", "Tz", "b2.t", "world.w"), ("CmpTorque", "Rx", "Rz", "b2.t", "b1.f"),
    ("CmpTorque", "Ry", "Rz", "world.w", "b2.t", "b1.f"), ("CmpTorque", "Ry", "Rz", "world", "b2.t", "world.w"), ("PtPForce", "Rx", "Tz", "b1.f", "b2.t"), ("PtPForce", "Rx", "Tz", "b2.t", "world"), ("CmpForce", "Rz", "Tz", "world.w", "b2.t", None, "drag"), ("CmpTorque", "Rz", "Ry", "world.w", "b2.t", "b1", "drag"),
    ("CmpForce", "Rz", "Ry", "world.w", "b2.t", "b1", "list"), ("CmpTorque", "Rz", "Ry", "b1", "b2.t", "b1", "list"), ("CmpForce", "Rx", "Tz", "b1.f", "b2.t", "b2.t"), ("CmpTorque", "Rx", "Ty", "b1.f", "b2.t", "b2.t"), ("PtPForce", "Rz", "Tx", "world", "b2.t", None, "damper"), ("PtPForce", "Tz", "Tx", "b2.t", "world.w", None, "damper")]]
_load1 = [_w("loaded1", *a) for a in [("CmpForce", "Rx", "b.t", "world.w"), ("CmpForce", "Rx", "world.w", "b.t"), ("CmpForce", "Rx", "b", "b.t"), ("CmpTorque", "Rx", "b", "b.t"), ("PtPForce", "Rx", "b", "b.t"), ("PtPForce", "Rx", "world.w", "b.t"), ("CmpForce", "Rx", "world", "world.w"), ("PtPForce", "Ty", "world", "world.w"), ("CmpTorque", "Rz", "world.w", "b.t", "b"), ("CmpForce", "Tz", "b.t", "world.w", "world")]]
_two = [_w("loads2", "Rx", "Rz", ("CmpForce", "b2.t", "world.w", None), ("CmpTorque", "b2.t", "b1.f", None)), _w("loads2", "Rx", "Tz", ("CmpForce", "b2.t", "b1.f", "world.w"), ("CmpForce", "b2.t", "world", "b1")), _w("loads2", "Tx", "Rz", ("PtPForce", "b2.t", "world", None), ("CmpForce", "world", "b2.t", "b1"))]
_drive = [_w("driven", "Rz", "Ry"), _w("driven", "Tx", "Ry"), _w("driven_multi", ["Tx", "Rz"]), _w("driven_multi", ["Rz", "Ry"])]
_asm = [_w("assembled", *a) for a in [("HydCyl", "Rx", "Tz", "b1.f", "b2.t"), ("HydCyl", "Rz", "Ty", "b2.t", "world.w"), ("Tyre", "Rx", "Rz", "b1.f", "b2.t"), ("Contact", "Rx", "Tz", "b2.t")]] + [_w("assembled", "SpringDamper", "Rx", "Tz", "b1.f", "b2.t", values=("cc", "dd", "l0"))]
_m("M04", _j("motion", _load + _load1 + _two + _drive, "y") + _j("both", _asm, "y") + _j("both", [_w("assembled", "SpringDamper", "Rz", "Ty", "b2.t", "world.w", values=("cc", 0.5, "l0"))], "y", MODES[:2]),
    _j("motion", [_w("loaded", "PtPForce", "Rx", "Rz", "world.w", "b2.t")], "y", MODES[:2]) + _j("motion", [_w("loaded", "PtPForce", "Rz", "Tz", "world.w", "b2.t", None, "damper")] + [_w("loaded", k, a, b, "b1.f", "b2.t", r) for k in ("CmpForce", "CmpTorque") for a in ("Ry", "Tx") for b in ("Rx", "Ty") for r in (None, "world.w", "b2.e")], "y"),
    "component forces and torques, point-to-point forces and drives of joints; between frames of two bodies, of one body, of a body and the world, of the world; reference frame absent, of either body or of the world; the load an input, a parameterised law of a sensor (spring and damper, drag), or a list of three; the assemblies of sensors and loads for springs and dampers, hydraulic cylinders, tyres and contacts", ["pymbs/processing/loads", "pymbs/input/loads.py"])
_en = [_w("energies", "Rx", "Rz"), _w("energies", "Rx", "Tz"), _w("energies_loaded", "Rx", "Tz"), _w("energies_multi", ["Rz", "Ry"]), _w("energies_multi", ["Tx", "Rz"]), _w("energies_tree", ["Rx", "Rz", "Ty"]), _w("welded", "Rx", sensors=True), _w("welded", "Ty", sensors=True, twice=True), _w("welded", "Rx", sensors=True, world=True)]
_re = [_w("reacting", *a) for a in [("Rx", "Rz"), ("Tx", "Ry"), ("Rx", "Tz", "CmpForce"), ("Rz", "Ry", "CmpForce", (False, True), "b1"), ("Rx", "Ty", "CmpTorque"), ("Rx", "Tz", "PtPForce"), ("Rx", "Ty", "driven"), ("Tz", "Rx", "driven")]] + [_w("reacting_multi", ["Tx", "Rz"]), _w("reacting_multi", ["Rz", "Ry"]), _w("reacting_tree", ["Rx", "Rz", "Ty"])]
_m("M05", _j("sensors", _en, "s") + _j("sensors", _re, "s", ["Recursive"]) + [["power", [s, "s"], 90] for s in (_single[0], _single[4], _w("chain2", "Rx", "Tz"), _w("energies_loaded", "Rx", "Tz"))],
    _j("sensors", [_w("reacting", a, b, l, (True, True)) for a in DOF[::2] for b in DOF[1::2] for l in (None, "CmpForce", "CmpTorque")], "s", ["Recursive"]) + _j("sensors", [_w("energies", a, b) for a in DOF for b in DOF[2:4]], "s"),
    "kinetic plus potential energy of single bodies and of the whole system, mass and centre of mass, with joints of one and two degrees of freedom, branches, rigid attachments and loads, in all formulations; force and torque transmitted by the joints of chains of two and of a branched system with and without loads in the recursive formulation (the explicit one documents that it does not support them)", ["pymbs/processing/sensors"])
_loops = ["transmission('Rx','Rz',2.5)", "transmission('Tx','Ry',-3,False)", "fourbar('x')", "fourbar('z',-1)", "fourbar('y',swap=True)", "fourbar('y',offset=True)", "fourbar('z',base=True)", "threebar('x','y')", "threebar('y','x')", "threebar('z','x',True)",
    "fourbartrans('z','x')", "fourbartrans('y','z')"] + ["crankslider('%s','%s')" % tuple(a) for a in ("xy", "xz", "yx", "yz", "zx", "zy")] + ["steering()", "steering(-1)", "steering(1,-1)", "steering(-1,-1)", "hexapod()", "hexapod(2)"]
_l = lambda specs, g="z", t=120: [["loops", [m, s, g], t] for s in specs for m in MODES[:2]]
_kl = [["loops", [m, s, "z", 1], 120] for s in ("fourbar('x')", "fourbar('z',-1)", "threebar('x','y')", "fourbartrans('z','x')", "crankslider('x','y')", "crankslider('z','y')", "transmission('Rx','Rz',2.5)", "steering(-1)", "hexapod()") for m in MODES[:2]] + [["loops", ["OrderN", "fourbar('x')", "z", 1], 120]]
_m("M06", _l(_loops) + _kl, _l(["threebar('y','z')", "threebar('z','y')", "hexapod(3)", "hexapod(6)"], t=300) + _l(_loops, "s"),
    "four bar, three bar (lever and slider), four bar with slider, crank and slider, steering linkage, legs of a hexapod along x (one and two at once, up to six in the thorough check), and geared joints, each with every permitted axis or slide direction in some system; levers with general lengths and angles; both assembly postures where the loop has one; explicit and recursive formulation (the order-n one does not support loops); closure and rates also with kinematicsOnly; closed configurations away from dead points", ["pymbs/processing/loops"])
_m("M07", _j("both", [_w("welded", *a, **k) for a, k in [(("Rx",), dict(turn=False)), (("Ty", (True, False)), {}), (("Rx",), {}), (("Rz", (True, True)), {}), (("Rz",), dict(twice=True)), (("Rz",), dict(world=True)), (("Rz",), dict(load=True)), (("Rx",), dict(sensors="frames")), (("Rx",), dict(sensors=True)), (("Rx",), dict(sensors=True, world=True)), (("Ty",), dict(sensors=True, twice=True))]], "y")
    + _j("both", [_w("nested", "Ty", "Rx"), _w("carrier", "Tz", "Rx"), _w("carrier", "Rx", "Tz", rev=True), _w("massless", ["Tx", "Rz"]), _w("massless", ["Rz", "Ry"]), _w("multi", ["Tx", "Rz"]), _w("multi", ["Rz", "Ry"]), _w("multi", ["Rz", "Tx"]), _w("multi", ["Tz", "Ry"], True)], "s") + _j("both", [_w("nested", "Rx", "Rz"), _w("carrier", "Rx", "Rz")], "y", MODES[:2]),
    _j("both", [_w("multi", ["Rx", "Ry", "Rz"]), _w("multi", ["Tx", "Ty", "Rz"]), _w("nested", "Rz", "Ty"), _w("massless", ["Tx", "Ty"])] + [_w("welded", d, (True, True), sensors="frames") for d in DOF] + [_w("carrier", a, b) for a in ("Tx", "Ry") for b in ("Ry", "Ty")], "y"),
    "bodies fixed to moving, to welded and to grounded bodies at displaced and turned frames, with loads and sensors on them and further joints from them; frames on frames; joints between frames displaced and turned on both sides; joints of two and three degrees of freedom and the chain of massless bodies in their place; each against the same reference", ["pymbs/input/transformation.py"])
# ---------------------------------------------------------------- written programs
W_TECH = "the text that the real writer produces is read back and executed symbolically over states, inputs and time; the places of the states in the state vector are taken from the text; z3 decides every derivative, sensor, drawing and start value against the model's equations; disagreements are replayed in the language itself (Python, C, Fortran)"
W_NOTE = "Bounded: the models are enumerated (number, shape and order of states, inputs, parameters, constants, sensors, drawings; systems of equations; multibody systems), states, inputs and time are symbolic, parameters have numbers because they are written into the text. Trusted: the readers of the five languages in mbs/texts.py, the exact solution for systems of equations."
WMODELS = ["mixed", "scalars", "later", "lone", "moved", "systems_of_two_sizes", "unused", "timed", "products", "consts", "vector_consts", "many(4)", "many(9)", "functions", "forwarded", "numbers", "fed"]
WMBS = [("Recursive", "single('Rz')"), ("Explicit", "chain2('Rx','Rz')"), ("OrderN", "chain2('Rx','Tz')"), ("Recursive", "sensing1('Rz')"), ("OrderN", "sensing1('Tz')"), ("Explicit", "sensing('Rz','Ry')"), ("Recursive", "drawn('Rx','Rz')"), ("Explicit", "drawn('Rz','Tx')"), ("Explicit", "multi(['Tx','Rz'])"),
    ("Explicit", "started(['Rx','Tz'],[0.5,0.25],[2.0,-1.5],(['Ry'],0.125,3.0))"), ("Recursive", "started(['Rx'],0.5,-1.5)"), ("OrderN", "started(['Tx','Rz'],[1.5,0.25],[2.0,-1.5],(['Tz'],0.125,3.0))"), ("Recursive", "loaded('CmpForce','Rz','Ry','world.w','b2.t','b1','list')"), ("Recursive", "energies('Rx','Tz')"), ("Recursive", "reacting('Rx','Rz')"), ("Recursive", "crankslider('x','y')"), ("Explicit", "fourbar('x')"), ("Recursive", "started_loop('x','y',{'j1':(0.5,2.0),'j2':(0.25,-3.0)})"), ("Explicit", "transmission('Rx','Rz',2.5)")]
WDEEP = [("Recursive", "chain3(['Rx','Tz','Ry'])"), ("OrderN", "tree(['Rx','Rz','Ty'])"), ("Explicit", "sensing('Ty','Rx')"), ("Recursive", "energies_tree(['Rx','Rz','Ty'])"), ("OrderN", "drawn('Ry','Rx')"), ("Recursive", "multi(['Rx','Ry','Rz'])"), ("Explicit", "threebar('x','y')"), ("Recursive", "fourbartrans('z','x')"), ("Explicit", "driven('Rz','Ry')"), ("OrderN", "loaded('PtPForce','Rx','Tz','b1.f','b2.t')")]
def _written(lang, mbs, graph=WMODELS, t=60):
    alone = {"mixed": "lambda e: mixed(e, False)", "products": "lambda e: products(e, False)", "vector_consts": None}
    gs = [alone.get(m, m) if lang in ("c", "cw") else m for m in graph]
    return [["written", [lang, "graph", m], t] for m in gs if m] + [["written", [lang, "mbs", m, s], t] for m, s in mbs]
def _wr(pid, langs, functions):
    CHECKS[pid] = dict(kind="mbs", module="mbscheck", level="model_checking", technique=W_TECH, note=W_NOTE, quick=[j for l in langs for j in _written(l, WMBS)], thorough=[j for l in langs for j in _written(l, WDEEP, ["many(%d)" % n for n in (2, 3, 5, 12, 25)], 200)], budget=200, functions=functions + ["symbolics/writer/Writer.cpp", "symbolics/graph/Graph.cpp", "pymbs/symbolics/graph.py"],
        bounds="models with 1 to 28 states, scalars and vectors of 2 and 3 elements in every order of declaration, inputs, parameters, constants, systems of equations of two sizes, powers and elementary functions, time; sensors of five shapes, drawings; multibody systems of one and two bodies in the three formulations with sensors, drawings, loads, start values and loops. Outside: comparisons and conditionals (see the T properties), states that are matrices, symbols named like the function's own arguments, numbers of more than 15 digits")
_wr("W01", ["py"], ["symbolics/writer/PythonWriter.cpp", "symbolics/printer/PythonPrinter.cpp"])
CHECKS["W01"]["quick"] += _written("py", [("Recursive", "regulated('Rz','Tx')"), ("Explicit", "pushed('Rz','Tx')"), ("OrderN", "pushed('Tz','Rx')")], ["controlled"])   # controllers exist in Python only
CHECKS["W01"]["bounds"] += "; controllers of the time, the states and the sensors"
_wr("W02", ["c"], ["symbolics/writer/CWriter.cpp", "symbolics/printer/CPrinter.cpp"])
_wr("W03", ["m", "f", "mo"], ["symbolics/writer/MatlabWriter.cpp", "symbolics/writer/FortranWriter.cpp", "symbolics/writer/ModelicaWriter.cpp"])
CHECKS["W02"]["quick"] += _written("cw", WMBS[::2])     # through the Python module that calls the C functions
CHECKS["W02"]["functions"] += ["symbolics/writer/CWriter.cpp (generatePymbsWrapper)"]
MS = [m for m in WMODELS if m != "functions"]           # atan2 is written in terms of atan there
CHECKS["W03"]["quick"] += _written("ms", [m for m in WMBS if "fourbar" not in m[1]], MS); CHECKS["W03"]["functions"] += ["symbolics/printer/MatlabSymPrinter.cpp"]
# the routines beside the written models
SQUARE = [["?"], ["? ?", "? ?"], ["? 1 2", "? 3 -1", "? 2 5"], ["2 ? 1", "-3 ? 4", "1 ? 2"], ["1 2 ?", "4 -2 ?", "3 1 ?"], ["? ? 1", "2 ? -1", "0 1 3"], ["0 ? 1", "? 0 2", "1 3 ?"], ["0 0 ?", "0 ? 1", "? 2 3"], ["? 2 3", "1 ? -2", "2 1 ?"], ["? ? ?", "1 2 4", "3 -1 2"], ["1 0 0", "? ? ?", "2 1 3"], ["0 ? 1 2", "1 0 3 1", "2 1 0 ?", "1 1 2 0"]]
SQUARE_DEEP = [["? ? 2", "? ? 1", "1 2 3"], ["? 1 ?", "2 ? 1", "? 3 -1"], ["? ? ?", "? 1 2", "1 -1 3"], ["1 2 3 ?", "2 1 ? 0", "0 1 1 1", "? 0 2 3"]]
_r = lambda l, n, ms, t, e=None: [["routines", [l, n, m, e], t] for m in ms]
CHECKS["W02"]["quick"] += _r("c", "legs", SQUARE, 90); CHECKS["W02"]["thorough"] += _r("c", "legs", SQUARE + SQUARE_DEEP, 400)
CHECKS["W03"]["quick"] += _r("f", "legs", SQUARE, 90) + _r("f", "migs", SQUARE, 90) + [j for e in (0, 1, 2, 3, -1, -2, -3) for j in _r("f", "matpow", SQUARE[:2] + (SQUARE[2:3] if e > 0 else []), 90, e)] + [["routines", ["f", n, None, None], 60] for n in ("skew", "scalar")]
CHECKS["W03"]["thorough"] += _r("f", "legs", SQUARE_DEEP, 400) + _r("f", "migs", SQUARE_DEEP, 400)
for p in ("W02", "W03"): CHECKS[p]["bounds"] += "; the routines beside the models (solution of systems of equations, in Fortran also inverse, powers, cross-product matrix) on every path of the pivot search, for all 1x1 and 2x2 matrices, 3x3 and 4x4 matrices with two to three symbolic elements (any right-hand side)"
# ---------------------------------------------------------------- helpers, access to elements, declarations
H_TECH = "each text is executed by the real Python package on symbolic variables and by the definitions on exact values; z3 decides equality of every element for all values; misuse has to be refused"
H_NOTE = "Bounded: layouts, indices, slices and sequences of writes are enumerated within the sizes given, the elements are symbolic. Trusted: the definitions in mbs/helpers.py, the reader of printed expressions in mbs/run.py, z3."
def _helpers(pid, fams, deep, functions, bounds):
    CHECKS[pid] = dict(kind="mbs", module="mbscheck", level="model_checking", technique=H_TECH, note=H_NOTE, quick=[["helpers", [f], 200] for f in fams], thorough=[["helpers", [f], 600] for f in deep], budget=240, functions=functions, bounds=bounds)
_helpers("M08", ["rotations", "vectors", "builders", "functions"], [], ["pymbs/common/functions.py", "symbolics/functions", "pymbs/symbolics/__init__.py"],
    "rotation about every axis, by symbols, sums, multiples and numbers, products of up to three of them; norm, skew, diag, inner, outer, solve, inverse of vectors of 2 to 4 elements and matrices up to 3x3; block vectors and matrices of up to 3 blocks; elementary functions of symbols and numbers, each also with numeric arguments. Outside: blocks of one element, functions of whole vectors")
_helpers("S07", ["elements", "slices", "writes"], [], ["symbolics/Matrix.cpp", "symbolics/SymmetricMatrix.cpp", "symbolics/Eye.cpp", "symbolics/Zero.cpp", "symbolics/functions/Element.cpp", "symbolics/functions/Transpose.cpp", "symbolics/functions/Skew.cpp", "symbolics/wrapper/CBasic.cpp", "symbolics/wrapper/CMatrix.cpp"],
    "vectors and matrices up to 4x3, dense, zero, identity, transposed, skew, sums and products of them and matrix variables; every index and slice in and around their shape; sequences of up to three writes of elements and slices, copies taken between them. Outside: slices with a step (the library refuses them)")
D_TECH = "the model is described to the real package with symbolic start values, parameters and expressions; what the equations and the graph carry is compared with the description, values as terms decided by z3"
D_NOTE = "Bounded: the listed descriptions (order and kind of joints, ways of giving start values, kinds and shapes of declared quantities) in three formulations; start values and values of parameters are symbolic. Parameters given by formulas of other parameters are evaluated from the texts written for Python and Modelica. Trusted: mbs/declared.py, z3."
_decl = ["joints([('world','a',['Tx','Rz'],'symbols'),('a','b','Tz','single'),('a','c',['Ry','Tx'],'numbers')])", "joints([('world','a',['Tx','Rz'],'symbols'),('world','b',['Tx','Rz'],'velocity')],listed=True)",
    "joints([('world','a','Rx','mixed'),('a','b',['Tz','Rx','Ry'],'mixed'),('b','c','Rx',None),('a','d','Ty','symbols')],[3,1,0,2])", "joints([('world','a',['Tx','Ty','Tz','Rx','Ry','Rz'],'symbols')])", "joints([('world','a','Tz','symbols')])", "joints([('world','a','Rx','single')])", "quantities()", "quantities(True)"]
_declx = ["joints([('world','a','%s','symbols'),('%s','b',['%s','%s'],'%s'),('%s','c','%s','%s')])" % t for t in [("Rx", "a", "Ty", "Rz", "velocity", "b", "Tz", "mixed"), ("Ty", "world", "Rx", "Ry", "mixed", "a", "Rz", "single"), ("Rz", "a", "Tx", "Ty", "numbers", "world", "Rx", "numbers")]]
CHECKS["M09"] = dict(kind="mbs", module="mbscheck", level="model_checking", technique=D_TECH, note=D_NOTE, quick=[["declared", [m, t], 90] for t in _decl for m in MODES], thorough=[["declared", [m, t], 300] for t in _declx for m in MODES], budget=200,
    functions=["pymbs/input/mbs_system.py", "pymbs/processing/generator.py", "pymbs/symbolics/graph.py", "symbolics/wrapper/CGraph.cpp"],
    bounds="systems of one to four bodies with joints of one to six degrees of freedom in chains, branches and any order of declaration; start values absent, numbers, symbols, lists, single values; parameters (numbers, lists, formulas), inputs, expressions, sensors, drawings of scalar, vector and matrix shape; names used twice")
