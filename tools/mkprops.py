#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = state
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

CORE = 'symbolics/'
p('S01', 'Simplifying an expression never changes its value',
  'Simplifying any expression built from numbers, variables, vectors, matrices and the supported functions yields an expression of the same shape that has the same value for every assignment of the variables for which the original is defined. Simplifying an already simplified expression does not change its value either.',
  ['inputs', 'programs'],
  'Every expression over the constructors of the algebra (numbers, scalar/vector/matrix variables, zero/identity/explicit matrices, all functions), every numeric constant in it and every value of its variables.',
  'The unit tests compare a few dozen hand-written expressions with the expected text; rewriting rules interact over an unbounded set of expressions and constants, and equality of value over all variable values cannot be sampled.',
  ['symbolics/Basic.cpp', 'symbolics/functions/Add.cpp', 'symbolics/functions/Mul.cpp', 'symbolics/functions/Pow.cpp', 'symbolics/functions/Neg.cpp', 'symbolics/functions/Transpose.cpp', 'symbolics/functions/Skew.cpp', 'symbolics/functions/Sin.cpp', 'symbolics/functions/Cos.cpp', 'symbolics/functions/Abs.cpp', 'symbolics/functions/If.cpp'],
  [('per-node simplification', 'simplify() of each node class under symbolics/functions and symbolics/Matrix.cpp'),
   ('term and factor collection', 'symbolics/functions/Add.cpp, symbolics/functions/Mul.cpp')],
  ['Basic::Simplify', 'expr.simplify() in Python'])
p('S02', 'Arithmetic and function construction means the mathematical operation',
  'Building a sum, difference, product, quotient, power, negation or function application out of operand expressions yields an expression whose value is that mathematical operation on the operand values, for scalars, vectors and matrices and for every mixture of plain numbers and expressions. This includes every shortcut taken while constructing, such as folding constants, dropping neutral elements or flattening nested sums and products.',
  ['inputs', 'programs'],
  'Every pair of operand expressions of compatible shapes, every numeric constant and every value of the variables.',
  'Tests check selected operand pairs; constant folding and flattening depend on the runtime types, shapes and values of both operands, which gives a product space the tests only touch.',
  ['symbolics/functions/Operators.cpp', 'symbolics/functions/Add.cpp', 'symbolics/functions/Mul.cpp', 'symbolics/functions/Neg.cpp', 'symbolics/functions/Pow.cpp', 'symbolics/Matrix.cpp', 'symbolics/Int.cpp', 'symbolics/Real.cpp'],
  [('expression operators', 'symbolics/functions/Operators.cpp'), ('node constructors', 'New/constructors under symbolics/functions'),
   ('matrix arithmetic', 'symbolics/Matrix.cpp')],
  ['operators + - * / ** on expressions'])
p('S03', 'Shapes are those of the mathematical result and misuse is rejected',
  'Every expression reports the shape its mathematical value has, and simplifying, differentiating or substituting never changes that shape. Combining operands whose shapes do not fit the operation is reported as an error instead of producing an expression.',
  ['inputs', 'programs'],
  'Every operation and every combination of operand shapes (scalar, column vector, row vector, matrices, including the 1-element shapes), for symbolic, zero, identity and explicit operands.',
  'Tests fix a handful of shapes; whether a combination is accepted depends on every pair or triple of operand shapes.',
  ['symbolics/Shape.cpp', 'symbolics/functions/Add.cpp', 'symbolics/functions/Mul.cpp', 'symbolics/functions/Solve.cpp', 'symbolics/functions/Outer.cpp', 'symbolics/functions/Skew.cpp', 'symbolics/functions/Scalar.cpp', 'symbolics/functions/Element.cpp'],
  [('shape arithmetic', 'symbolics/Shape.cpp'), ('shape checks in constructors', 'symbolics/functions/*.cpp')],
  ['shape() of any expression', 'ShapeError'])
p('S04', 'Derivatives are the true derivatives',
  'The time derivative and the partial derivative of an expression, and the Jacobian of a vector expression, have the value of the mathematical derivative wherever the expression is differentiable. The time derivative of a variable is the variable registered as its derivative, parameters and constants have derivative zero, and input-dependent expressions follow the chain rule.',
  ['inputs', 'programs'],
  'Every differentiable expression over the constructors, every variable of differentiation (scalar or vector), every constant and every value of the variables.',
  'Tests compare single derivative texts; the chain, product and power rules have to be right under arbitrary nesting, shapes and exponents.',
  ['symbolics/functions/Der.cpp', 'symbolics/functions/Jacobian.cpp', 'symbolics/functions/Mul.cpp', 'symbolics/functions/Pow.cpp', 'symbolics/functions/Add.cpp', 'symbolics/Symbol.cpp', 'symbolics/Matrix.cpp'],
  [('der() and der(symbol) of each node', 'symbolics/functions/*.cpp'), ('derivative registry', 'symbolics/Symbol.cpp')],
  ['der(expr)', 'jacobian(expr, vector)'])
p('S05', 'Structural equality is sound and ordering is a strict weak order',
  'Two expressions that compare equal have the same shape and the same value for every assignment of their variables, and equality is reflexive, symmetric and transitive. The ordering used to keep expressions in sorted containers is a strict weak order that is consistent with equality.',
  ['inputs', 'programs'],
  'Every pair and triple of expressions, including numbers of different kinds, zeros and identities of different shapes, and permuted sums and products.',
  'Equality decides which subexpressions are merged; tests compare few pairs and never check the order axioms, which quantify over triples.',
  ['symbolics/Basic.cpp', 'symbolics/Int.cpp', 'symbolics/Real.cpp', 'symbolics/Zero.cpp', 'symbolics/Eye.cpp', 'symbolics/Matrix.cpp', 'symbolics/functions/Mul.cpp', 'symbolics/UnaryOp.cpp', 'symbolics/BinaryOp.cpp', 'symbolics/NaryOp.cpp', 'symbolics/Shape.cpp'],
  [('operator== of each node', 'symbolics/*.cpp, symbolics/functions/*.cpp'), ('ordering of shapes and list elements', 'symbolics/Shape.cpp, symbolics/functions/List.cpp')],
  ['a == b', 'a != b'])
p('S06', 'Substitution replaces exactly the requested subexpression',
  'Substituting a variable by an expression yields an expression whose value is that of the original with the variable taking the value of the replacement, everywhere and nowhere else. The original expression keeps its value.',
  ['inputs', 'programs'],
  'Every expression, every substituted variable (scalar, vector, matrix) and every replacement of the same shape, every value of the variables.',
  'Substitution rebuilds expressions node by node; tests try a handful of trees and only compare text.',
  ['symbolics/Basic.cpp', 'symbolics/Factory.cpp', 'symbolics/NaryOp.cpp', 'symbolics/UnaryOp.cpp', 'symbolics/BinaryOp.cpp', 'symbolics/Matrix.cpp'],
  [('subs()', 'symbolics/Basic.cpp'), ('rebuilding of nodes', 'symbolics/Factory.cpp')],
  ['Basic::subs', 'Basic::iterateExp'])
p('S07', 'Vectors and matrices store, index, slice and transpose like arrays',
  'An element written to a vector or matrix at an index is what is read back at that index, all other elements are unaffected, and reading an element of an expression has the value of that element. Slices, transposition, skew matrices, identity, zero and symmetric matrices follow the usual definitions, and indices outside the shape are rejected.',
  ['inputs', 'histories'],
  'Every shape up to the bound, every index and slice (including negative, stepped and out-of-range ones) and every sequence of writes and reads.',
  'Tests touch a few indices; index arithmetic must be right for every shape and index and for each representation (dense, symmetric, identity, zero, symbolic).',
  ['symbolics/Matrix.cpp', 'symbolics/SymmetricMatrix.cpp', 'symbolics/Eye.cpp', 'symbolics/Zero.cpp', 'symbolics/functions/Element.cpp', 'symbolics/functions/Transpose.cpp', 'symbolics/functions/Skew.cpp', 'symbolics/wrapper/CBasic.cpp', 'symbolics/wrapper/CMatrix.cpp'],
  [('element storage and access', 'symbolics/Matrix.cpp, symbolics/SymmetricMatrix.cpp'), ('Python index handling', 'symbolics/wrapper/CBasic.cpp')],
  ['m[i,j], m[i,j] = x, slices in Python', 'Matrix::get/set'])
p('S08', 'Using an expression never changes another one',
  'Building new expressions from an expression, printing it, differentiating it, substituting in it, simplifying something that contains it, or comparing it leaves its own value, shape and meaning as they were. Only an explicit element assignment changes a matrix, and a copy taken earlier is not affected by it.',
  ['histories', 'programs'],
  'Every expression, every operation that takes it as an operand and every sequence of such operations.',
  'Nodes are shared between expressions and simplified in place, so whether one expression disturbs another depends on sharing patterns no unit test sets up.',
  ['symbolics/Basic.cpp', 'symbolics/functions/Add.cpp', 'symbolics/functions/Mul.cpp', 'symbolics/Matrix.cpp', 'symbolics/functions/Neg.cpp'],
  [('in-place simplification of shared nodes', 'symbolics/functions/Add.cpp, symbolics/functions/Mul.cpp'), ('clone()', 'symbolics/functions/*.cpp')],
  ['value of an operand before and after'])
p('S09', 'Solving an equation for an unknown gives an actual solution',
  'Whenever solving an equation for an unknown that occurs linearly succeeds, inserting the returned expression for the unknown satisfies the equation for every value of the remaining variables for which the result is defined. The result does not contain the unknown, and an equation that cannot be solved that way is rejected.',
  ['inputs', 'programs'],
  'Every equation over the supported operators, scalar and vector valued, every unknown in it, every constant and every value of the other variables.',
  'Tests solve a few fixed equations; the rearrangement depends on where and how often the unknown occurs and on signs and coefficients.',
  ['symbolics/graph/EquationSystem.cpp', 'symbolics/graph/Equation.cpp', 'symbolics/functions/Solve.cpp', 'symbolics/functions/Util.cpp'],
  [('solving single equations', 'symbolics/graph/Equation.cpp'), ('linear solve node', 'symbolics/functions/Solve.cpp')],
  ['Graph equations with an unknown on either side'])
for i, (n, lang, f) in enumerate([('T01', 'Python text', ['symbolics/printer/PythonPrinter.cpp', 'symbolics/printer/Printer.cpp']),
                      ('T02', 'C, FMU and C# text', ['symbolics/printer/CPrinter.cpp', 'symbolics/printer/FMUPrinter.cpp', 'symbolics/printer/CSharpPrinter.cpp', 'symbolics/printer/Printer.cpp']),
                      ('T03', 'Fortran text', ['symbolics/printer/FortranPrinter.cpp', 'symbolics/printer/Printer.cpp']),
                      ('T04', 'Matlab and Modelica text', ['symbolics/printer/MatlabPrinter.cpp', 'symbolics/printer/ModelicaPrinter.cpp', 'symbolics/printer/Printer.cpp'])]):
    p(n, f'{lang} of an expression denotes the value of the expression',
      f'Whenever an expression can be printed as {lang.replace(" text","")} code, the printed text, read by the rules of that language (operator precedence, associativity, integer division, indexing base, function meaning), evaluates to the value of the expression for every value of its variables. Expressions the language cannot express are rejected rather than misprinted.',
      ['programs', 'inputs'],
      'Every expression over the printable constructors up to the nesting bound, every variable value.',
      'The tests compare printed text with a literal for one expression per node kind; parenthesisation and precedence only go wrong in nestings, and text equality does not show the value.',
      f, [('per-language printers', ', '.join(f))], ['generated source text'])
p('G01', 'The ordered assignments compute exactly what the equations say',
  'For an equation system in which every unknown can be determined, the generated sequence of assignments gives every requested variable a value, uses no variable before it has been assigned, assigns none twice, and the values it computes satisfy every equation that was added. A category of outputs is complete: every state derivative and sensor of the system is computed.',
  ['programs', 'inputs', 'histories'],
  'Every system of equations, in every order of insertion, every selection of outputs and every value of the inputs, parameters and states.',
  'Tests run two or three fixed systems; sorting, matching and substitution depend on the dependency structure and insertion order.',
  ['symbolics/graph/EquationSystem.cpp', 'symbolics/graph/MatchedSystem.cpp', 'symbolics/graph/Graph.cpp', 'symbolics/graph/Assignments.cpp', 'symbolics/graph/Node.cpp', 'pymbs/symbolics/graph.py'],
  [('building the dependency graph', 'symbolics/graph/Graph.cpp, symbolics/graph/EquationSystem.cpp'), ('collecting assignments', 'symbolics/graph/Assignments.cpp')],
  ['graph.getAssignments'])
p('G02', 'Graph optimisation does not change results',
  'Building the equation graph with optimisation switched on yields, for every output, the same value as building it without, for every value of the inputs, parameters and states. No output or required variable is lost.',
  ['programs', 'configurations', 'inputs'],
  'Every equation system, both optimisation settings, every value of inputs, parameters and states.',
  'Common-subexpression extraction and alias removal act on pairs of equations; tests do not compare optimised with unoptimised values.',
  ['symbolics/graph/PreOptimisation.cpp', 'symbolics/graph/PastOptimisation.cpp', 'symbolics/graph/Graph.cpp'],
  [('optimisations before and after sorting', 'symbolics/graph/PreOptimisation.cpp, symbolics/graph/PastOptimisation.cpp')],
  ['graph.buildGraph(True) vs buildGraph(False)'])
p('G03', 'Ill-posed equation systems are rejected',
  'A system in which a variable is defined twice, in which definitions depend on each other circularly, or in which a used variable is never defined is reported as an error instead of yielding assignments. Names stay unique: declaring a second variable with an existing name is rejected or returns the existing one, never a different variable of the same name.',
  ['programs', 'histories'],
  'Every system with a duplicate, circular or missing definition, in every order of insertion.',
  'Tests check single cases; detection depends on length of the cycle, position and insertion order.',
  ['symbolics/graph/EquationSystem.cpp', 'symbolics/graph/Graph.cpp', 'symbolics/graph/Node.cpp', 'pymbs/symbolics/graph.py'],
  [('duplicate and cycle detection', 'symbolics/graph/Graph.cpp, symbolics/graph/EquationSystem.cpp')],
  ['exceptions from addEquation/buildGraph'])
p('W01', 'Generated Python model code computes the model equations',
  'The Python module generated for a model computes, for every time, state vector and input value, the state derivatives and the sensor values that the model equations define, with the documented state layout, the declared parameter values and the declared initial values.',
  ['programs', 'inputs', 'configurations'],
  'Every model (any number and shape of states, inputs, parameters, sensors), every state, input and parameter value.',
  'Tests only check that files are written for a few examples; nothing evaluates them, and layout mistakes depend on number and shape of states.',
  ['symbolics/writer/PythonWriter.cpp', 'symbolics/writer/Writer.cpp', 'symbolics/printer/PythonPrinter.cpp', 'pymbs/symbolics/graph.py'],
  [('Python code writer', 'symbolics/writer/PythonWriter.cpp')], ['generated *_der_state.py, *_sensors.py'])
p('W02', 'Generated C model code computes the model equations',
  'The C functions generated for a model compute, for every time, state vector and input value, the state derivatives, sensor values and visualisation frames that the model equations define, with the documented flat state layout and the declared parameter values.',
  ['programs', 'inputs', 'configurations'],
  'Every model (any number and shape of states, inputs, parameters, sensors), every state, input and parameter value.',
  'Tests only check that files are written; index layout and scalarisation mistakes depend on number and shape of states.',
  ['symbolics/writer/CWriter.cpp', 'symbolics/writer/Writer.cpp', 'symbolics/printer/CPrinter.cpp'],
  [('C code writer', 'symbolics/writer/CWriter.cpp')], ['generated *_der_state.c, *_sensors.c'])
p('W03', 'Generated Matlab, Modelica and Fortran code computes the model equations',
  'The Matlab, Modelica and Fortran code generated for a model computes, for every time, state vector and input value, the state derivatives and sensor values that the model equations define, with the declared parameter and initial values.',
  ['programs', 'inputs', 'configurations'],
  'Every model, every state, input and parameter value.',
  'Tests only check that files are written for few models; nothing evaluates them.',
  ['symbolics/writer/MatlabWriter.cpp', 'symbolics/writer/ModelicaWriter.cpp', 'symbolics/writer/FortranWriter.cpp', 'symbolics/writer/Writer.cpp'],
  [('code writers', 'symbolics/writer')], ['generated files'])
p('M01', 'The generated equations of motion obey Newton and Euler',
  'For every tree of rigid bodies connected by revolute and prismatic joints, the accelerations defined by the generated equations satisfy the Newton-Euler equations of the described mechanism under gravity, whatever the masses, centres of gravity, inertias, joint frames, positions and velocities. The mass matrix is symmetric.',
  ['configurations', 'inputs'],
  'Every tree topology, joint type and frame placement, and every value of parameters, positions and velocities.',
  'Tests only check that equations can be generated for some examples; correctness is over all topologies, parameters and states.',
  ['pymbs/processing/generator_explicit.py', 'pymbs/processing/generator_recursive.py', 'pymbs/processing/generator_order_n.py', 'pymbs/processing/generator.py', 'pymbs/processing/joint.py', 'pymbs/input/transformation.py'],
  [('explicit Newton-Euler projection', 'pymbs/processing/generator_explicit.py'), ('recursive formulation', 'pymbs/processing/generator_recursive.py'), ('order-n formulation', 'pymbs/processing/generator_order_n.py'), ('model transformation', 'pymbs/input/transformation.py')],
  ['genEquations.*', 'graph.getAssignments(VarKind.Der_State)'])
p('M02', 'The three formulations agree',
  'The explicit, recursive and order-n formulations of the same model yield the same accelerations and the same sensor values for every value of parameters, inputs, positions and velocities.',
  ['configurations', 'inputs'],
  'Every model accepted by all formulations, every value of parameters, inputs, positions and velocities.',
  'No test compares formulations.',
  ['pymbs/processing/generator_explicit.py', 'pymbs/processing/generator_recursive.py', 'pymbs/processing/generator_order_n.py', 'pymbs/processing/sensors'],
  [('three generators', 'pymbs/processing')], ['genEquations.Explicit/Recursive/OrderN'])
p('M03', 'Kinematic sensors report the true relative motion',
  'Position, velocity, acceleration, orientation, angular velocity, angular acceleration and distance sensors report the true relative motion of the two frames, resolved in the chosen reference frame, for every position, velocity and acceleration. Velocities and accelerations with respect to the inertial frame are the time derivatives of the corresponding positions.',
  ['configurations', 'inputs'],
  'Every pair of frames on any bodies, every reference frame, every state and parameter value.',
  'No test evaluates a sensor.',
  ['pymbs/processing/sensors', 'pymbs/processing/generator_recursive.py', 'pymbs/processing/generator_explicit.py', 'pymbs/processing/generator_order_n.py'],
  [('sensor classes', 'pymbs/processing/sensors'), ('frame kinematics', 'pymbs/processing/generator_*.py')], ['sensor equations'])
p('M04', 'Loads act with the right point, direction, sign and reaction',
  'Point-to-point forces, component forces and torques, and joint loads change the equations of motion exactly by the generalised forces of that load acting on the first frame and its reaction on the second one, resolved in the chosen reference frame, for every state and load value. Loads between frames of the same body or on the world leave the equations unaffected accordingly.',
  ['configurations', 'inputs'],
  'Every load type between any two frames and any reference frame, every state, parameter and load value.',
  'No test evaluates the effect of a load.',
  ['pymbs/processing/loads', 'pymbs/processing/generator_explicit.py', 'pymbs/processing/generator_recursive.py', 'pymbs/processing/generator_order_n.py', 'pymbs/input/mbs_system.py'],
  [('load distribution', 'pymbs/processing/loads'), ('external forces', 'pymbs/processing/generator_*.py')], ['genEquations.*'])
p('M05', 'Reaction sensors and energy sensors balance',
  'Constraint force and torque sensors report the force and torque transmitted by the joint, so that every body is in dynamic equilibrium with its joint reactions, gravity and external loads. Energy sensors report kinetic plus potential energy of the body, whose total changes at the rate of the power of the applied loads.',
  ['configurations', 'inputs'],
  'Every tree, every joint or body observed, every state, parameter and load value.',
  'No test evaluates these sensors.',
  ['pymbs/processing/sensors/constraint_force_sensor.py', 'pymbs/processing/sensors/constraint_torque_sensor.py', 'pymbs/processing/sensors/energy_sensor.py', 'pymbs/processing/generator_recursive.py'],
  [('backward recursion', 'pymbs/processing/generator_recursive.py'), ('energy sensor', 'pymbs/processing/sensors/energy_sensor.py')], ['sensor equations'])
p('M06', 'Closed loops stay closed and consistent',
  'For each supported kinematic loop, the dependent coordinates computed from the independent ones close the loop, their velocities and accelerations are the first and second time derivatives of these positions, and the reduced equations of motion are the projection of the unconstrained ones on the remaining motion.',
  ['configurations', 'inputs'],
  'Every loop type, every geometry accepted and every position and velocity at which the loop can be assembled.',
  'One example is only generated, not evaluated.',
  ['pymbs/processing/loops', 'pymbs/processing/generator.py'],
  [('loop solutions', 'pymbs/processing/loops'), ('projection', 'pymbs/processing/generator.py')], ['equations of dependent coordinates'])
p('M07', 'Equivalent model descriptions give equivalent models',
  'Describing the same mechanism in another way (nested frames instead of flat ones, a joint attached away from the body origin or rotated, a rigid attachment instead of one merged body, a multi-degree-of-freedom joint instead of a chain of massless bodies) gives the same motion and sensor values.',
  ['configurations', 'inputs'],
  'Every placement of frames, joints and rigid attachments, every value of parameters and states.',
  'Merging and re-basing frames is only exercised by generating examples.',
  ['pymbs/input/transformation.py', 'pymbs/input/mbs_system.py', 'pymbs/input/frame.py', 'pymbs/input/body.py'],
  [('flattening of frames, rigid joints, re-basing on joint frames', 'pymbs/input/transformation.py')], ['genEquations.*'])
p('M08', 'Vector and rotation helpers obey their definitions',
  'Rotation matrices for a given angle and axis are orthonormal with determinant one, compose additively about the same axis and rotate in the documented direction. Norm, cross-product matrices, diagonal, symmetric and block matrices and vectors built by the helper functions have the documented value for symbolic and for numeric arguments alike.',
  ['inputs'],
  'Every angle, axis, vector and block layout up to the bound.',
  'Only element and transpose helpers are tested, on single values.',
  ['pymbs/common/functions.py', 'pymbs/processing/joint.py', 'symbolics/functions'],
  [('helper functions', 'pymbs/common/functions.py')], ['rot_mat, skew, norm, diag, symmetric_matrix, block_matrix, block_vector'])
p('M09', 'States, inputs, parameters and start values are carried through unchanged',
  'Every joint degree of freedom appears exactly once in the state vector, at the position and with the start position and velocity the user gave it, and every declared parameter, input and sensor keeps its name, kind, shape and value through equation generation and code generation. Symbols already in use are rejected, as is a second body, joint, sensor or load of the same name.',
  ['configurations', 'histories'],
  'Every model, order of declarations, start values and parameter values and shapes.',
  'Tests check that calls succeed or fail on single names.',
  ['pymbs/input/mbs_system.py', 'pymbs/processing/generator.py', 'pymbs/symbolics/graph.py', 'symbolics/wrapper/CGraph.cpp'],
  [('declaration of variables', 'pymbs/input/mbs_system.py'), ('state vector set-up', 'pymbs/processing/generator.py')], ['graph variables, initial values'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
if __name__ == '__main__':
    for d in P:
        assert len(d['title']) <= 80, d['title']
    print(len(P))
