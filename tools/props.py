#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)
S='symbolics/'; F='symbolics/functions/'
p('S01', 'Building and simplifying an expression never changes its value',
  'For every well-shaped combination of the expression constructors, the object that is built, and what simplification turns it into, evaluates to the value that ordinary real and matrix arithmetic assigns to the requested combination, at every assignment of numbers to its symbols where that value is defined. In particular constant folding, collection of terms and powers, and cancellation of neutral and absorbing elements are exact.',
  ['inputs','programs'], 'all well-shaped expression terms over scalars, vectors and matrices; all valuations at which they are defined',
  'The unit tests compare a few dozen hand-picked expressions with one expected printed string; the rewrite rules interact over all nestings of about 30 node types, shapes and constants.',
  [F+'Add.cpp',F+'Mul.cpp',F+'Pow.cpp',F+'Neg.cpp',F+'Transpose.cpp',F+'Element.cpp',F+'If.cpp',F+'Util.cpp',S+'Matrix.cpp'],
  [('factory folding','T::New / T::simplify of every node class')], observe=['tree and shape of the built and of the simplified expression'])
p('S02', 'Every expression has its true shape; ill-shaped operations are refused',
  'The shape an expression reports, before and after simplification, is the shape of the value it denotes under the documented rules (scalar, column vector, row vector, matrix; scalars combine with anything). A combination whose operand shapes do not fit is refused with an error, and one whose shapes fit is accepted.',
  ['inputs','programs'], 'all constructors applied to all shape combinations, including nested and simplified operands',
  'Tests check single shape products; acceptance and reported shape depend on every operator and every operand form (zero, identity, matrix literal, symbol).',
  [S+'Shape.cpp',F+'Add.cpp',F+'Mul.cpp',F+'Element.cpp',F+'Solve.cpp',F+'Transpose.cpp',F+'Jacobian.cpp',F+'Skew.cpp'],
  [('Shape algebra','Shape::operator*=, +=, constructors of each node')])
p('S03', 'Differentiation yields the exact derivative',
  'The derivative of an expression with respect to a symbol, its total time derivative, and the Jacobian of a vector with respect to a vector have, at every point where the expression is differentiable, exactly the value that calculus gives, with constants and parameters having zero time derivative. Differentiating does not alter the original expression.',
  ['inputs','programs'], 'all expressions, all symbols and vector elements, all points of differentiability',
  'The tests differentiate a few fixed terms; product, chain, power and matrix rules compose without bound.',
  [F+'Mul.cpp',F+'Pow.cpp',F+'Atan2.cpp',F+'Tan.cpp',F+'Jacobian.cpp',F+'Der.cpp',F+'Element.cpp',S+'Symbol.cpp'],
  [('der rules','der() / der(symbol) of every node class')])
p('S04', 'Substitution and atom extraction are exact',
  'Replacing a sub-expression inside an expression gives the expression in which every occurrence has been replaced and nothing else has changed, so its value is that of the original with the replaced part taking the new value. The atoms reported for an expression are exactly the symbols (and derivative symbols) occurring in it.',
  ['inputs','programs'], 'all expressions, all symbols occurring or not occurring in them, all replacement expressions of the same shape',
  'The substitution tests replace one symbol in three small terms; shared sub-expressions and parent links make the result depend on the whole expression graph.',
  [S+'Basic.cpp',S+'BinaryOp.cpp',S+'NaryOp.cpp',S+'Matrix.cpp'], [('parent links','Basic::subs, addParent, getAtoms')])
p('S05', 'Working on one expression never disturbs another',
  'Combining, simplifying, differentiating, indexing, printing or comparing expressions leaves the value and shape of every other expression the program still holds unchanged, including expressions that share operands with the one worked on, whatever the order of the operations. Expressions may be dropped at any time without affecting the ones kept.',
  ['histories','programs'], 'all sequences of operations on a pool of expressions with shared operands',
  'Tests build each expression afresh and look only at the result of the last call; sharing and in-place rewriting only show over a history.',
  [S+'Basic.cpp',F+'Add.cpp',F+'Mul.cpp',S+'wrapper/CBasic.cpp',S+'include/intrusive_ptr.h'], [('in-place simplify with shared nodes','Basic::simplify / subs / reference counts')])
p('S06', 'Equality and ordering of expressions are lawful',
  'Equality of expressions is an equivalence relation, two expressions reported equal have the same shape and the same value everywhere, "not equal" is its negation, and the ordering used to key collections is a strict weak order consistent with it. Separately built copies of the same expression are equal.',
  ['inputs','programs'], 'all pairs and triples of expressions, including numbers, zeros, identities and symbols of different shapes',
  'No test compares more than two expressions at a time; transitivity and consistency are statements about all triples.',
  [S+'Basic.cpp',S+'Int.cpp',S+'Real.cpp',S+'Zero.cpp',F+'Mul.cpp',F+'Add.cpp',S+'NaryOp.cpp'], [('structural comparison','operator== / operator< per node class')])
p('S07', 'The Python operators, indexing and slicing mean what they say',
  'Every arithmetic operator, comparison, function and conversion offered to Python builds the expression its name denotes, reading a component or slice of any expression gives exactly those components, and assigning a component or slice of a matrix changes exactly those components. Out-of-range or ill-formed requests raise an error and change nothing.',
  ['inputs','histories'], 'all operand kinds (int, float, scalar, vector, row, matrix, zero, identity), all index and slice forms, all sequences of assignments',
  'The Python tests touch a handful of operators and two indexings.',
  [S+'wrapper/CBasic.cpp',S+'wrapper/CMatrix.cpp',S+'wrapper/PyFactory.cpp',S+'wrapper/convert.cpp',S+'wrapper/PySymbolics.cpp','pymbs/common/functions.py'],
  [('number and mapping protocols','CBasic_* slots; module type table')])
p('P01', 'Expressions printed as Python evaluate to their value',
  'The text an expression is printed to in Python, evaluated by Python with numpy in an environment binding its symbols, has the value and (up to numpy matrix conventions) the shape of the expression. Operator precedence, signs, powers, nesting and number formatting never change the meaning.',
  ['inputs','programs'], 'all expressions whose operations Python output supports, all valuations',
  'Printer tests compare one string per node type; precedence errors need specific nestings.',
  [S+'printer/PythonPrinter.cpp',S+'printer/Printer.cpp'], [('recursive printing with parentheses','Printer::print, PythonPrinter::print_*')])
p('P02', 'Expressions printed as C evaluate to their value',
  'The text a scalar expression is printed to in C, compiled by a C compiler with its symbols bound to doubles and arrays, evaluates to the value of the expression. Integer literals, division, powers, signs and nesting never change the meaning.',
  ['inputs','programs'], 'all scalar expressions over scalar symbols and elements of vector and matrix symbols, all valuations',
  'Printer tests compare one string per node type and never compile the text.',
  [S+'printer/CPrinter.cpp',S+'printer/Printer.cpp'], [('recursive printing with parentheses','CPrinter::print_*')])
p('P03', 'Expressions printed as Fortran evaluate to their value',
  'The text an expression is printed to in Fortran, compiled by a Fortran compiler together with the function module written next to every generated program and with its symbols bound to double precision variables and arrays, is legal and evaluates to the value of the expression. Number literals, products of matrices and scalars, powers, signs and nesting never change the meaning.',
  ['inputs','programs'], 'all expressions over scalar, vector and matrix symbols, all valuations',
  'Printer tests compare one string per node type and never compile the text.',
  [S+'printer/FortranPrinter.cpp',S+'printer/Printer.cpp'], [('recursive printing with parentheses','FortranPrinter::print_*')])
p('P04', 'Expressions printed as Matlab or Modelica keep their value',
  'The text an expression is printed to in Matlab and in Modelica, read with the operator precedence and the matrix rules of that language, denotes the value of the expression. Powers, signs, transposes, element access and nesting never change the meaning.',
  ['inputs','programs'], 'all expressions over scalar, vector and matrix symbols, all valuations',
  'Printer tests compare one string per node type; no tool reads the text back.',
  [S+'printer/MatlabPrinter.cpp',S+'printer/ModelicaPrinter.cpp',S+'printer/Printer.cpp'], [('recursive printing with parentheses','MatlabPrinter / ModelicaPrinter print_*')])
G=S+'graph/'
p('G01', 'An equation system accepts exactly the well-formed additions',
  'Adding a variable is refused if its name is taken or its initial value is not a constant of its shape; adding an equation is refused if it mentions an unknown variable, defines a variable a second time, uses the defined variable on its own right-hand side without being implicit, or equates different shapes. A refused addition leaves the system exactly as it was, and an accepted one is reported back faithfully.',
  ['histories','inputs'], 'all sequences of additions of variables and equations over all variable kinds and shapes',
  'Tests check three of the refusals on fresh systems and none of the effects on later behaviour.',
  [G+'EquationSystem.cpp',G+'Equation.cpp',G+'Graph.cpp',S+'wrapper/CGraph.cpp','pymbs/symbolics/graph.py'],
  [('admission checks','EquationSystem::addSymbol / addEquation')])
p('G02', 'Assignment lists are complete, minimal and executable in order',
  'The list of assignments produced for a set of wanted quantities defines each variable at most once, never uses a variable before it is defined, contains everything the wanted quantities need and nothing they do not need, and relies only on inputs, states, parameters, constants and time as given data. If some needed variable has no defining equation this is reported as an error.',
  ['programs','histories'], 'all acyclic equation systems, all insertion orders, all sets of wanted kinds, optimised or not',
  'Graph tests look at two or three small systems in one insertion order.',
  [G+'Graph.cpp',G+'Node.cpp',G+'MatchedSystem.cpp',G+'Assignments.cpp'], [('depth-first collection','Graph::getAssignments')])
p('G03', 'Executing the assignments reproduces the model, optimised or not',
  'Executing a produced assignment list in order gives every variable in it the value that the equations as entered determine, for all values of the given data, whether or not optimisation was requested. Optimisation removes or merges definitions only without changing the value of any state derivative, sensor or other wanted quantity.',
  ['programs','inputs'], 'all explicit equation systems of scalar, vector and matrix variables, with and without optimisation',
  'No test evaluates assignments; the optimiser is exercised on a few systems by string comparison.',
  [G+'PreOptimisation.cpp',G+'PastOptimisation.cpp',G+'Equation.cpp',G+'Graph.cpp'], [('alias and constant elimination','PreOptimisation / PastOptimisation')])
p('G04', 'Coupled and implicit equations are solved correctly',
  'When equations are entered without saying what they define, the produced assignments, executed in order, satisfy every equation that was entered; equations that can only be solved together form one block that is marked implicit. A system with no solution structure, or with more or fewer equations than unknowns, is refused with an error instead of yielding wrong assignments.',
  ['programs','inputs'], 'all square systems of linear scalar equations entered in any order, coupled in any block structure',
  'Tests contain a few fixed systems and compare printed strings.',
  [G+'UnMatchedSystem.cpp',G+'Equation.cpp',G+'EquationSystem.cpp'], [('matching, strong components, index reduction','UnMatchedSystem')])
p('G05', 'Expansion to scalars preserves the model',
  'Rewriting a system of vector and matrix equations into scalar assignments gives, for all values of the given data, the same value for every component of every variable. No component is lost, duplicated, transposed or assigned from the wrong component.',
  ['programs','inputs'], 'all explicit equation systems with vectors, row vectors and matrices of all shapes',
  'Only used inside writers; the writer tests cover one pendulum.',
  [G+'Equation.cpp',G+'EquationSystem.cpp',F+'Element.cpp',F+'Mul.cpp'], [('scalarisation','EquationSystem::makeScalar, Element::simplify')])
p('G06', 'States, derivatives and kinds are booked correctly',
  'A variable becomes a state when its derivative is given an equation and never without its derivative being mentioned, every state then has exactly one derivative variable of its shape, each variable is listed under exactly the kind it was declared with or acquired, and initial values, comments and parameter values are returned as entered. These facts do not depend on the order of the additions nor on optimisation.',
  ['histories','configurations'], 'all sequences of declarations and equations over all variable kinds',
  'Tests check kinds in one fixed sequence.',
  [G+'EquationSystem.cpp',G+'Assignments.cpp',S+'Symbol.cpp','pymbs/symbolics/graph.py'], [('kind bookkeeping','EquationSystem::addEquation, Symbol kinds')])
W=S+'writer/'
p('W01', 'The generated Python module computes the model',
  'For every model the generated Python functions return, for all times, state vectors, inputs and parameter values, the state derivatives, sensor values and visualisation values that the model equations determine. States are ordered by shape, then by name, and occupy these places of the state vector in every generated function, whichever of them the function needs.',
  ['programs','inputs','configurations'], 'all models with one or several states of any size, inputs, parameters, constants and sensors',
  'The only writer test writes one pendulum and does not execute the output.',
  [W+'PythonWriter.cpp',S+'printer/PythonPrinter.cpp',G+'Assignments.cpp'], [('state slicing and equation emission','PythonWriter::generate*')])
p('W02', 'The generated C program computes the model',
  'For every model the generated C functions compile and return, for all times, state vectors, inputs and parameter values, the state derivatives, sensor values and visualisation values that the model equations determine, including the solution of the linear system in the accelerations. States are ordered by shape, then by name, and occupy these places of the state vector in every generated function.',
  ['programs','inputs','configurations'], 'all models with one or several states of any size, inputs, parameters, constants and sensors',
  'The only writer test writes one pendulum and does not compile the output.',
  [W+'CWriter.cpp',S+'printer/CPrinter.cpp',G+'EquationSystem.cpp'], [('state slicing, scalar expansion, linear solver emission','CWriter::generate*')])
p('W03', 'The generated Fortran program computes the model',
  'For every model the generated Fortran subroutines compile and return, for all times, state vectors, inputs and parameter values, the state derivatives and sensor values that the model equations determine, including the solution of the linear system in the accelerations. States are ordered by shape, then by name, and occupy these places of the state vector.',
  ['programs','inputs','configurations'], 'all models with one or several states of any size, inputs, parameters, constants and sensors',
  'The only writer test writes one pendulum and does not compile the output.',
  [W+'FortranWriter.cpp',S+'printer/FortranPrinter.cpp'], [('state slicing, scalar expansion, linear solver emission','FortranWriter::generate*')])
p('W04', 'The generated Matlab functions compute the model',
  'For every model the generated Matlab functions, read by the rules of that language, return the state derivatives and sensor values that the model equations determine, with the states at their places in the state vector (ordered by shape, then by name) and initial values, inputs and parameters as entered.',
  ['programs','inputs','configurations'], 'all models with one or several states of any size, inputs, parameters, constants and sensors',
  'The only writer test writes one pendulum; nothing reads the output.',
  [W+'MatlabWriter.cpp',S+'printer/MatlabPrinter.cpp'], [('equation emission','MatlabWriter::generate*')])
p('W05', 'The generated Modelica model states the equations of the model',
  'For every model the generated Modelica class declares every variable with its dimension, start value, parameter value and role, and its equation section determines for all data the same state derivatives and sensor values as the model equations.',
  ['programs','inputs','configurations'], 'all models with one or several states of any size, inputs, parameters, constants and sensors',
  'The only writer test writes one pendulum; nothing reads the output.',
  [W+'ModelicaWriter.cpp',S+'printer/ModelicaPrinter.cpp'], [('equation emission','ModelicaWriter::generateTarget_Impl')])
p('W06', 'The compiled program run through its Python wrapper computes the model',
  'For every model written as C or Fortran with the wrapper option, compiled with the functions the user interface compiles it with, the wrapper modules return the state derivatives, sensor values and visualisation values that the model equations determine: with the initial values of the inputs until others are set and with the set ones afterwards, calling the controllers with the sensor values. The state vector passed in is not changed.',
  ['programs','inputs','configurations'], 'all models with one or several states of any size, inputs of any shape set or left, controllers and sensors',
  'No test writes, imports or calls a wrapper.',
  [W+'CWriter.cpp',W+'FortranWriter.cpp','pymbs/ui/compile.py'], [('wrapper emission','CWriter::generatePymbsWrapper, FortranWriter::generatePymbsWrapper'),('compilation','compileC, compileF90')])
M='pymbs/input/'; R='pymbs/processing/'
p('M01', 'Assembling a model keeps names, topology and coordinates consistent',
  'However bodies, frames, joints, inputs, parameters, sensors, loads and loops are added, every accepted element is findable under a unique name, every joint contributes exactly its generalised coordinates once, with their initial values, the bodies form a tree rooted in the world, and automatic names never clash. A refused addition is reported as an error and leaves the model and the arguments passed by the caller unchanged.',
  ['histories','inputs'], 'all sequences of model-building calls, valid and invalid',
  'The input tests exercise each call once on small valid models.',
  [M+'mbs_system.py',M+'joint.py',M+'body.py',M+'frame.py',M+'input_element.py'], [('model registries','MbsSystem.add*')])
p('M02', 'The explicit equations of motion obey the laws of mechanics',
  'For every tree of rigid bodies the accelerations computed from the explicit formulation satisfy, for all states, inputs and parameter values, the Newton-Euler balance projected on the joint directions (mass, centre of gravity, inertia tensor, gravity, gyroscopic terms, applied loads).',
  ['programs','inputs'], 'all tree topologies, joint types and sequences, frame offsets and rotations, mass data and states',
  'Examples compare one or two systems with stored numbers or only check that generation does not fail.',
  [R+'generator_explicit.py',R+'generator.py',R+'joint.py',R+'body.py',R+'frame.py'], [('Newton-Euler by jacobians','Generator_Explicit.calcEquations')])
p('M03', 'The recursive equations of motion obey the laws of mechanics',
  'For every tree of rigid bodies the accelerations computed from the recursive formulation satisfy, for all states, inputs and parameter values, the Newton-Euler balance projected on the joint directions, hence agree with the explicit formulation.',
  ['programs','inputs'], 'all tree topologies, joint types and sequences, frame offsets and rotations, mass data and states',
  'No test compares the formulations on anything but a fixed example.',
  [R+'generator_recursive.py',R+'generator.py'], [('forward/backward recursions','Generator_Recursive')])
p('M04', 'The order-n equations of motion obey the laws of mechanics',
  'For every tree of rigid bodies the accelerations computed from the order-n formulation satisfy, for all states, inputs and parameter values, the Newton-Euler balance projected on the joint directions, hence agree with the other formulations.',
  ['programs','inputs'], 'all tree topologies, joint types and sequences, frame offsets and rotations, mass data and states',
  'No test compares the formulations on anything but a fixed example.',
  [R+'generator_order_n.py',R+'generator.py'], [('articulated-body recursion','Generator_OrderN')])
p('M05', 'Sensors report the true kinematic and energetic quantities',
  'Position, distance, orientation, velocity, acceleration, angular velocity and acceleration, joint, energy and centre of mass sensors return, in every formulation and at every state, the quantity they name between the frames given, expressed in the reference frame given. The recursive formulation also returns the force and the torque each joint transmits, beyond the load on its coordinate, in the base of the world.',
  ['programs','inputs','configurations'], 'all frame pairs in all trees, all reference frames, all states, all formulations',
  'Examples create sensors but assert nothing about their values.',
  [R+'sensors/'+f for f in ('position_sensor.py','distance_sensor.py','orientation_sensor.py','velocity_sensor.py','acceleration_sensor.py','ang_velocity_sensor.py','ang_acceleration_sensor.py','joint_sensor.py','energy_sensor.py','constraint_force_sensor.py','constraint_torque_sensor.py')],
  [('sensor equations','Sensor.calc')])
p('M06', 'Loads act with the right magnitude, direction and point',
  'Point-to-point forces, force and torque vectors given in any reference frame, joint loads and gravity enter the equations of motion with the generalised force given by the principle of virtual power: the force on the one frame, its reaction on the other, each at its own point of application. This holds in every formulation.',
  ['programs','inputs','configurations'], 'all load types between all frame pairs including the world, all reference frames, all states, all formulations',
  'Examples use loads in a few scalar settings without checking values.',
  [R+'loads/ptp_force.py',R+'loads/cmp_force.py',R+'loads/cmp_torque.py',R+'loads/joint_load.py',R+'loads/load.py',R+'generator_explicit.py',R+'generator_recursive.py',R+'generator_order_n.py'],
  [('load distribution','getLoadValues / Wf, Wt')])
p('M07', 'Closed loops and couplings hold at position, velocity and acceleration',
  'For every assembled transmission, joint prescribed by a constant quantity (kinematics only), crank-slider, four-bar, three-bar or steering linkage, and every combination of them without cycles, at regular postures reached from the assembly, the dependent coordinates computed from the independent ones close the loop, and the dependent velocities and accelerations are the exact time derivatives of that closure. The reduced equations of motion do the virtual work of the full ones.',
  ['programs','inputs','configurations'], 'all admissible geometries, postures and states of the supported loops, in every formulation that supports loops',
  'One example prints a four-bar; nothing checks the closure or the Jacobians.',
  [R+'loops/'+f for f in ('fourbar.py','crank_slider.py','threebar_trans.py','fourbar_trans.py','transmission.py','exp_joint.py','steering.py')]+[R+'generator.py'],
  [('explicit loop solutions','Loop.calc, Generator.handleLoops')])
p('M08', 'Rigid attachments and coordinate changes preserve the mechanics',
  'Bodies fixed to each other or to rotated and shifted frames have together the same mass, centre of gravity and inertia as the assembly they describe, so the motion of the joints and all sensor values equal those of the model written with a single equivalent body. Changing the frame in which a body is described changes nothing observable.',
  ['programs','inputs'], 'all chains of fixed joints and rotated/shifted frames, all mass data',
  'The frame tests check one constellation.',
  [M+'transformation.py',M+'mbs_system.py',M+'body.py'], [('merging of fixed bodies, frame redefinition','pymbs/input/transformation.py')])
p('M09', 'Parameters, inputs, gravity and initial values take effect as entered',
  'Every parameter, input, user expression, gravity vector, joint start value and joint order given to the model appears in the generated simulation with the value and at the place given, and changing one of them changes the computed accelerations and sensors exactly as the laws of mechanics say. Nothing the user did not enter influences them.',
  ['configurations','inputs','histories'], 'all models with symbolic and numeric data, inputs and expressions, all later changes of values',
  'Examples fix all of these once.',
  [M+'mbs_system.py',R+'generator.py','pymbs/symbolics/graph.py','pymbs/common/state.py'], [('parameter, expression and state registration','MbsSystem.addParam/addInput/addExpression/setGravity; Generator.__init__')])
p('M10', 'Implicit constraints are enforced by the constraint forces',
  'When a relative motion between two frames is locked by a constraint, the accelerations and constraint forces produced satisfy the locked components at acceleration level (up to the documented stabilisation) and the constraint forces do no virtual work in the free directions.',
  ['programs','inputs'], 'all lock patterns between frames of all trees, all consistent states',
  'Examples only check that generation succeeds.',
  [R+'loads/constraint.py',R+'generator.py',M+'constraints.py'], [('constraint equations','Generator.handleConstraints')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
