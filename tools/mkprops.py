"""Writes /verif/properties.jsonl (single place where the property texts are kept)."""
import json, os
T = 'src/quanguru/QuantumToolbox/'
K = 'src/quanguru/classes/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


p('C01', 'Toolbox functions never modify their inputs and keep no state between calls',
  'No function of the quantum toolbox changes a matrix, state, list or dictionary that the caller gives it, on any path. '
  'None of them leaves anything behind that a later call can observe (no memoised object, module variable or mutated '
  'default), so changing a returned object never changes what a later call returns.',
  ['inputs', 'histories'], 'every toolbox function, every argument value and format, every sequence of calls',
  'Tests compare the result of single calls with reference values; they do not look at the arguments after the call nor '
  'at the second call with the same arguments for every function, format and branch.',
  [T + f for f in ('Hamiltonians.py', 'IPR.py', 'basicGates.py', 'eigenVecVal.py', 'evolution.py', 'functions.py',
                   'linearAlgebra.py', 'operators.py', 'quasiProbabilities.py', 'rmtDistributions.py',
                   'spinRotations.py', 'states.py', 'thermodynamics.py', '_helpers.py')],
  [('functions build fresh objects and only read their arguments', T + '*.py')],
  observe=['arguments after the call', 'result of a repeated call'])

p('C02', 'The requested matrix format (sparse or dense) is what every constructor returns',
  'Every toolbox function that lets the caller choose returns a scipy sparse matrix when sparse output is requested (the '
  'default) and a numpy array when it is not, for every value of its other arguments. '
  'Super-operators and propagators are returned in the format of the operator they are built from.',
  ['inputs'], 'every constructor with a sparse switch, both values of the switch, every other argument',
  'Tests mostly use the default format and a few values; the format on every branch of every constructor is not sampled.',
  [T + f for f in ('operators.py', 'states.py', 'basicGates.py', 'spinRotations.py', 'evolution.py', 'Hamiltonians.py')],
  [('conditional conversion at the return of each constructor', T + 'operators.py'),
   ('format dispatch in the exponentiation and super-operators', T + 'evolution.py')],
  observe=['type of the returned matrix'])

p('C03', 'Ladder, number, spin and Pauli operators have their defining matrix elements',
  'For every dimension (or spin), the annihilation operator has exactly the elements sqrt(n+1) one above the diagonal, the '
  'number operator n on the diagonal, the spin raising operator sqrt((j+m)(j-m+1)) one above the diagonal with m falling '
  'from j in steps of one, Jz the m values on its diagonal, and each creation/raising operator is the adjoint of its '
  'annihilation/lowering partner. Jx, Jy, the total spin and the Pauli matrices are the standard combinations of these, so '
  'they are Hermitian and satisfy the angular-momentum conventions; giving the dimension instead of the spin yields the '
  'same operator.',
  ['inputs'], 'every dimension and spin value',
  'Tests compare a handful of small dimensions with stored matrices; the rule for a general dimension is not checked.',
  [T + 'operators.py'], [('banded constructors from data/rows/columns lists', T + 'operators.py')],
  observe=['matrix elements of the returned operators'])

p('C04', 'Hamiltonians built by the library from real parameters are Hermitian',
  'Every Hamiltonian the library builds from real frequencies and coupling strengths is equal to its adjoint: the ready-made '
  'qubit-cavity Hamiltonians, and every ready-made coupling (Jaynes-Cummings, Rabi, Dicke, Tavis-Cummings), which contains, '
  'with each coupling product, its Hermitian conjugate. The qubit factor always comes before the cavity factor in the '
  'ready-made composite Hamiltonians.',
  ['inputs'], 'all real parameter values and dimensions, both orders in which the coupled systems are given',
  'Tests check a few parameter values of some builders; a missing conjugate partner on an untested branch is not seen.',
  [T + 'Hamiltonians.py', K + 'extensions/'],
  [('coupling terms come in adjoint pairs', T + 'Hamiltonians.py')],
  observe=['returned Hamiltonian', 'terms created by the couplings'])

p('C05', 'Open-system generators are of Lindblad form in one vectorisation convention',
  'The generator built from a Hamiltonian, collapse operators and rates is, for all inputs and formats, the column-stacked form of '
  '-i[H, rho] + sum_k rate_k (A rho B - (B A rho + rho B A)/2) with B the adjoint of A unless a pair is given, so it '
  'preserves trace and Hermiticity. The vectorisation of states, the super-operators, the open-system evolution and the '
  'super-operators of gates all use that same convention (a unitary acts on both sides as U rho U-adjoint).',
  ['inputs', 'configurations'], 'all Hamiltonians, collapse operators, rates, formats, gates',
  'Tests use a few fixed qubit operators, for most of which transposes and conjugates coincide.',
  [T + 'evolution.py', T + 'states.py', K + 'QGates.py', K + 'modularSweep.py'],
  [('left/right multiplication super-operators', T + 'evolution.py'), ('mat2Vec/vec2Mat', T + 'states.py')],
  observe=['returned super-operator', 'state after a step'])

p('C06', 'Closed-system propagators and gates are unitary and rotate the right way',
  'The propagator for a Hermitian Hamiltonian is the exponential of -i times Hamiltonian times time step, in sparse and dense '
  'formats; spin and qubit rotations are exp(-i angle J) of the axis they are named after, the instantaneous qubit rotations '
  'are cos(angle/2) - i sin(angle/2) times the Pauli matrix of that axis; displacement, squeezing and parity exponentiate '
  'anti-Hermitian operators. Constant gates (CNOT, Hadamard, controlled phase) are unitary.',
  ['inputs'], 'all Hermitian inputs, angles, axes, spins, amplitudes and both formats',
  'Tests evaluate a few angles/axes; sign, factor and axis on every branch and format are not sampled.',
  [T + 'evolution.py', T + 'spinRotations.py', T + 'basicGates.py', T + 'operators.py', K + 'QGates.py'],
  [('exponentiation', T + 'evolution.py'), ('axis dispatch', T + 'spinRotations.py')], observe=['returned matrices'])

p('C07', 'Changing any parameter makes the next Hamiltonian or propagator reflect it',
  'After any parameter of a system, term, coupling, gate or protocol changes to a different value through its public attribute '
  '(frequency, operator, order, dimension, angle, phase, axis, implementation, step ratio, total time, step size, step '
  'count, samples, updates), the next total Hamiltonian and propagator are computed from the current values. A cached '
  'Hamiltonian or propagator is returned only while none of the parameters it depends on has changed (a protocol marked '
  'fixed excepted), and the mark that a value changed is cleared only by a computation that used it.',
  ['histories'], 'every sequence of parameter changes and reads of Hamiltonians/propagators',
  'Tests exercise a few change-then-read sequences on some parameters, not every attribute of every class after every '
  'history.',
  [K + 'QSimBase.py', K + 'QSystem.py', K + 'QTerms.py', K + 'QPro.py', K + 'QGates.py', K + 'QSys.py', K + 'baseClasses.py'],
  [('change-flagging assignment helpers', K + 'QSimBase.py'), ('flag-guarded recomputation', K + 'QSystem.py, QTerms.py, QPro.py')],
  [('updated flag and cached matrix', 'flag False means the cached matrix is current', K + 'baseClasses.py')],
  ['total Hamiltonian', 'propagator'])

p('C08', 'A change is propagated to every object that depends on the changed one',
  'When an object is marked as changed, every object registered as depending on it is marked as well, transitively. '
  'Composing objects registers these dependencies: a composite depends on its sub-systems and terms, a term on its systems, a '
  'protocol on its system and its steps, a gate on the systems it acts on, and a simulation bound to another depends on it.',
  ['histories', 'configurations'], 'every way of composing systems, terms, protocols, gates and simulations, in every order',
  'Tests change a parameter in a few fixed compositions; every composing operation and depth is not covered.',
  [K + 'baseClasses.py', K + 'QSystem.py', K + 'QTerms.py', K + 'QPro.py', K + 'QSimComp.py', K + 'QSimBase.py', K + 'QSys.py'],
  [('flag setter loops over the registered dependents', K + 'baseClasses.py'), ('registration in composing methods', K + '*.py')],
  [('dependents registry', 'objects to be marked when this one changes', K + 'baseClasses.py')], ['updated mark of dependents'])

p('C09', 'The adjoint of a step is always the adjoint of its current propagator',
  'A step that repeats another step uses exactly the propagator that step has now, and an adjoint step uses exactly the conjugate '
  'transpose of it, after every history of parameter changes and whichever way (inside a protocol or directly) the '
  'propagator is requested.',
  ['histories'], 'every sequence of changes and propagator requests, repeated and adjoint steps',
  'Tests read an adjoint step once after construction; the stale value appears only after a change and a second read.',
  [K + 'QPro.py', K + 'baseClasses.py'], [('copy step delegates to its original', K + 'QPro.py'), ('conjugate of the cached matrix', K + 'baseClasses.py')],
  observe=['propagator of the adjoint step'])

p('C10', 'An object is found, replaced and removed by its name or any alias alike',
  'In every dictionary of the library keyed by object names, reading, testing membership, defaulting, replacing, updating, popping '
  'and deleting an entry behave the same whether the key given is the name, any of its aliases, or the name object itself, and '
  'never create a second entry for a key that already denotes an existing one. Two names are equal exactly when they share a '
  'member, and getting an object by name or alias returns the object itself whichever is used.',
  ['inputs', 'histories'], 'every dictionary operation, every name/alias combination',
  'Tests use some operations with some keys; the operation/key-form product is not covered.',
  [K + 'base.py'], [('key search before every dictionary primitive', K + 'base.py')],
  [('alias list', 'other keys of the same object', K + 'base.py')], ['dictionary contents', 'looked-up object'])

p('C11', 'Every object gets its own unique name and is registered under it',
  'Each created object gets a name that no other live or earlier object of the session has, made of its class label and a counter '
  'of its own class that is advanced before it is used, with objects marked as internal numbered and named separately from the others. '
  'Every object is registered under its name so that it can be found by it, also when an alias equals a later default name, without the '
  'registry keeping it alive; names cannot be replaced, and a reset empties the registry and starts all counters again.',
  ['histories'], 'every sequence of object creations of all classes, internal and external',
  'Tests create few objects of some classes; a collision needs particular class pairs and counts.',
  [K + 'base.py', K + '*.py'], [('instance counters and namer', K + 'base.py'), ('label and counters per class', K + '*.py')],
  observe=['names', 'lookup by name'])

p('C12', 'Objects sent to worker processes arrive complete',
  'Serialising any object of the library and restoring it in another process transfers every attribute that its class and all its '
  'ancestors declare, each under its own name, without changing the sending side, and the registry of named objects is usable on both sides '
  'after the transfer: the message carries the objects instead of weak references, every received object is found by its name, and the '
  'registries hold weak references on both sides.',
  ['programs', 'configurations'], 'every class and every declared attribute',
  'Tests pickle few classes, and the fork start method hides missing attributes.',
  [K + 'base.py', K + '*.py'], [('state gathering over the class hierarchy', K + 'base.py')], observe=['attributes after unpickling'])

p('C13', 'A parallel run organises exactly the results of the serial run',
  'Running a simulation with worker processes performs, for every sweep point in the same order, the same per-point computation as '
  'the serial run, and stores results and states per system under the same keys, in the same order and shape.',
  ['schedules', 'configurations'], 'every number of workers and every order in which workers finish, every sweep size',
  'Tests run one or two small parallel sweeps; the order in which workers finish varies between runs.',
  [K + 'modularSweep.py', K + 'QRes.py'], [('ordered map over the same index range', K + 'modularSweep.py'), ('shared organise/finalise', K + 'QRes.py')],
  observe=['results and states after the run'])

p('C14', 'User callbacks run at their documented moments, once, in order',
  'For each sweep point a run applies the sweep values, sets every protocol to its initial state, clears the last results, then calls the '
  'pre-computations of simulation, protocols and systems, the computation once on the initial state and once after every time '
  'step (the simulation before the protocols, the protocols before the systems), and finally the post-computations; a '
  'system shared by several protocols is called once per moment.',
  ['configurations', 'histories'], 'every number of protocols, systems, sweep points and steps; closed and open systems',
  'Tests count calls in a few layouts; order and multiplicity for general layouts are not sampled.',
  [K + 'modularSweep.py', K + 'baseClasses.py', K + 'QSim.py'], [('per-point schedule', K + 'modularSweep.py')], observe=['sequence of callback calls'])

p('C15', 'A run starts from empty results and sweep points do not leak into each other',
  'Starting a run empties every stored result, state, average and calculated value of all result containers, and starting a sweep point '
  'empties the last results, last states and averages of all of them, without touching objects handed out by earlier runs. '
  'Each sweep point contributes exactly its own results, so repeating an identical run gives identical results.',
  ['histories'], 'every sequence of runs, sweeps and containers',
  'Tests seldom run twice on the same object or look at earlier results after a later run.',
  [K + 'QRes.py', K + 'QSim.py', K + 'modularSweep.py'], [('reset methods', K + 'QRes.py')],
  [('result fields', 'results, states, averages, calculated, last results, last states', K + 'QRes.py')], ['results after the run'])

p('C16', 'Sweeps visit every parameter combination once, in axis order',
  'A sweep visits every combination of its independent axes exactly once, sets each parameter to the value at the position of its own axis, '
  'advances sweeps that share an axis together, and shapes the results so that the index along each axis is that '
  'position. Preparing again after adding, removing or changing sweeps uses only the current ones.',
  ['inputs', 'histories'], 'every number of sweeps, their combination marks and lengths, and every sequence of changes',
  'Tests use one or two sweeps with fixed lengths.',
  [K + 'QSweep.py', K + 'QRes.py', K + 'modularSweep.py'], [('index decomposition, group counting and result reshaping', K + 'QSweep.py, QRes.py')],
  observe=['parameter values per point', 'result shape'])

p('C17', 'Time evolution applies steps in order, on the left of the state',
  'The propagator of a protocol is the product of the propagators of its steps with later steps to the left, starting from the identity of the right '
  'dimension; repeated time-dependent evaluations and gates on several systems multiply in the same way. '
  'Each time step replaces the state of every protocol by its propagator applied to the state of the previous step (stepwise in the '
  'order of steps if the steps are sampled).',
  ['inputs', 'configurations'], 'every number and kind of steps, samples, time points',
  'Tests mostly use commuting or single steps, for which order is invisible.',
  [K + 'QPro.py', K + 'QGates.py', K + 'modularSweep.py', T + 'linearAlgebra.py'], [('left-multiplying accumulation', K + 'QPro.py')],
  observe=['protocol propagator', 'state after each step'])

p('C18', 'A rejected assignment leaves the object as it was',
  'If assigning a dimension, frequency, operator, order or system of a term, a rotation axis, or adding a sub-system or a term raises an error, no parameter '
  'of the object or of the objects it is connected to has changed, so the system continues with its previous values.',
  ['inputs', 'fault_sequences'], 'every invalid value of the listed attributes in every state of the object',
  'Tests check that the error is raised, not the state of all attributes afterwards.',
  [K + 'QSystem.py', K + 'QTerms.py', K + 'QGates.py', K + 'QSys.py'], [('validation precedes the first write', K + '*.py')], observe=['attributes after the error'])

p('C19', 'Omitted arguments mean the same on every call',
  'Calling a function without one of its optional arguments has the same effect on the first and every later call: no default value is a '
  'mutable object that one call changes and a later call sees.',
  ['histories'], 'every function of the library, every sequence of calls that omit optional arguments',
  'The effect needs two calls in one process with the argument omitted, which tests rarely do.',
  [K + '*.py', T + '*.py', 'src/quanguru/extensions/'], [('defaults are immutable or never modified', '*')], observe=['effects of repeated calls'])

p('C20', 'Dimension information in a composite is consistent after every change',
  'Adding a sub-system to a composite multiplies the after-dimension of every earlier sub-system by the new dimension and the before-dimension of the new one by each '
  'earlier dimension; changing a dimension rescales exactly the other sub-systems on the corresponding sides, at every enclosing level; '
  'removing one undoes its contribution. A system can never become, directly or through deeper levels, a part of itself.',
  ['histories'], 'every sequence of adding, resizing and removing sub-systems, at any nesting depth',
  'Tests use a few nestings and changes.',
  [K + 'QSystem.py', K + 'QSys.py'], [('before/after bookkeeping', K + 'QSystem.py')], [('dims before/after', 'product of dimensions to the left/right', K + 'QSystem.py')],
  ['embedded operators', 'total dimension'])

p('C21', 'Worker pools and files are released however a run or save ends',
  'Every pool of worker processes a run creates is closed and joined on every way out of the run, including an error in a worker or in user code, and '
  'every file the save and read helpers open is closed on every way out.',
  ['fault_sequences', 'crash_points'], 'every exception raised between acquisition and the end of the run, save or read',
  'Tests only follow the successful paths.',
  [K + 'QSim.py', 'src/quanguru/extensions/saveReadCSV.py', 'src/quanguru/extensions/saveReadHFive.py', 'src/quanguru/extensions/_helpers.py'],
  [('try/finally around the run', K + 'QSim.py'), ('with statements', 'src/quanguru/extensions/')], observe=['open processes and files after an error'])

p('C22', 'No input makes a function fail on a variable it never assigned',
  'On every path through every function of the library, each local variable is assigned before it is read, so unsupported values are either handled or '
  'rejected with a deliberate error instead of an unbound-variable error.',
  ['inputs'], 'every function, every combination of branch conditions',
  'The failing combinations are exactly those no test passes.',
  [K + '*.py', T + '*.py', 'src/quanguru/extensions/'], [('exhaustive branches', '*')], observe=['raised exceptions'])

p('C23', 'Bound simulation parameters follow their source until set explicitly',
  'A simulation whose parameters are bound to another reads, at any time, the current value of the other through any number of levels, until that parameter is set on it '
  'explicitly to a different value; reading never changes a bound; setting it changes only the object it is set on, unbinds it from the other, and total time, step size and step count '
  'stay consistent with each other after setting any of them. A chain of bindings never becomes circular.',
  ['histories', 'configurations'], 'every binding topology and sequence of assignments',
  'Tests cover one level of binding and few assignment orders.',
  [K + 'QSimBase.py'], [('parameter cells', K + 'QSimBase.py')], [('cell value and bound source', 'value is read from the source unless unbound', K + 'QSimBase.py')], ['parameter values'])

p('C24', 'States built by the library are normalised and placed in the right basis element',
  'Basis states, complete bases, superpositions, density matrices of ensembles, composite and Bell states built by the library have unit norm (unit trace for density '
  'matrices); a superposition weights each basis state by the square root of the given population, or by the given coefficient when '
  'coefficients are requested. Normalising divides a ket by its norm and a density matrix by its trace.',
  ['inputs'], 'all dimensions, excitation inputs, weights and formats',
  'Tests evaluate a few kets.', [T + 'states.py', T + 'linearAlgebra.py', K + 'QSystem.py'], [('normalisation at the end of the constructors', T + 'states.py')],
  observe=['returned states'])

p('C25', 'Temporary updates of a protocol are undone after its propagator is computed',
  'While the propagator of a protocol step is created, the updates attached to it are applied in order before and undone in the reverse order after, so each updated parameter of '
  'every system of each update has again the value it had before, whichever systems, keys and overlaps the updates have.',
  ['inputs', 'histories'], 'every number of updates, systems per update and overlapping parameters',
  'Tests use single updates of a single system.', [K + 'QPro.py', K + 'baseClasses.py'], [('setup/setback around the creation', K + 'QPro.py')], observe=['parameter values after the propagator is created'])

p('C26', 'A copy of a system has the same structure and parameters and shares none',
  'Copying a system yields one with the same dimension, all its terms with their operators, orders and frequencies, copies of all its sub-systems in '
  'the same order, couplings between the copied (never the original) sub-systems, and the same initial-state input, except for the attributes given to the copy; changing the copy never '
  'changes the original.',
  ['inputs', 'configurations'], 'every system: number of terms, sub-systems, couplings, nesting',
  'Tests copy one- and two-term systems.', [K + 'QSystem.py'], [('copy rebuilds terms and sub-systems', K + 'QSystem.py')], observe=['attributes of the copy'])

p('C27', 'Measures and reduced states have their definitions for kets and density matrices',
  'Expectation values, fidelities, standard deviations, entropies, trace distances, concurrence, participation ratios, thermal occupations and heat currents computed by the toolbox equal their '
  'definitions for every state, given as ket or density matrix, and every operator (a non-Hermitian one has a complex expectation value). Partial traces keep exactly the requested sub-systems in order, '
  'tensor and matrix products keep the order of their arguments, and sorted eigenvalues come with their own eigenvectors.',
  ['inputs'], 'all operators, states, dimensions and numbers of sub-systems', 'Tests use a few qubit states, mostly real and pure.',
  [T + 'functions.py', T + 'linearAlgebra.py', T + 'IPR.py', T + 'thermodynamics.py', T + 'eigenVecVal.py'],
  [('definition of each measure', T + 'functions.py'), ('partial trace and products', T + 'linearAlgebra.py')], observe=['return values'])

p('C28', 'Probability densities of the toolbox are normalised with the right mean',
  'For every dimension, the densities of eigenvector components integrate to one and have mean 1/dim (2/dim for the paired components of the symplectic class); the level-spacing densities of every Dyson '
  'parameter integrate to one, have unit mean and grow as the spacing to the power of that parameter; the Poisson distribution has its standard form.',
  ['inputs'], 'all dimensions, Dyson parameters and arguments', 'Tests do not integrate them.', [T + 'rmtDistributions.py'],
  [('prefactors and exponents of each density', T + 'rmtDistributions.py')], observe=['return values'])

p('C29', 'Composites place every operator, propagator and state at its system',
  'The Hamiltonian of a system is the sum, over its terms, couplings and sub-systems, of strength times the product of the given operators to their orders, each of the dimension of its system and embedded '
  'at the position of that system among all leaf systems; this holds for every nesting, in whatever order systems were composed, added, removed, copied or given their dimensions. The free propagator is the '
  'exponential of that Hamiltonian for step size times ratio over samples. The initial state of a composite is the product of the current initial states of its parts in the order of the systems.',
  ['inputs', 'configurations', 'histories'], 'all nestings, dimensions, strengths, orders and build orders', 'Tests build a few fixed two- and three-system models.',
  [K + 'QSystem.py', K + 'QTerms.py', K + 'QPro.py', K + 'QSimBase.py'],
  [('assembly and placement of terms', K + 'QTerms.py'), ('dimensions before and after, sums over parts, initial states', K + 'QSystem.py')],
  observe=['totalHamiltonian', 'unitary()', 'initialState'])
p('C30', 'Ready-made models and phase-space functions equal their definitions',
  'The ready-made Hamiltonians (qubit and cavity, Rabi, Jaynes-Cummings, anti-Jaynes-Cummings) are the stated sums of products of elementary operators on qubit times cavity, and the analytic Jaynes-Cummings '
  'propagator solves the Schroedinger equation of its Hamiltonian from the identity. Wigner and Husimi functions of every ket and density matrix, sparse or dense, are at every grid point their defining '
  'expressions in the matrix elements of the state, with the scale g and the grid orientation documented.',
  ['inputs'], 'all frequencies, couplings, times, states and grids', 'Tests do not call the phase-space functions and compare models at single values.',
  [T + 'Hamiltonians.py', T + 'quasiProbabilities.py'],
  [('ready-made Hamiltonians and the analytic propagator', T + 'Hamiltonians.py'), ('recursion and weights of the phase-space functions', T + 'quasiProbabilities.py')],
  observe=['return values'])

N = [
 ('C90', 'Entanglement and distance measures stay within their mathematical bounds',
  'Fidelity, purity, entropy, concurrence and trace distance of valid states stay within their mathematical ranges for all states.',
  ['inputs'], 'all valid states', 'Tests sample a few states.', [T + 'functions.py'],
  'bounds of floating-point eigenvalue computations quantify over runtime values; that each measure is computed by its definition is C27'),
 ('C91', 'The time grid covers the requested total time',
  'The number of time steps executed equals the requested total time divided by the step size, including values not exactly representable.',
  ['inputs'], 'all total times and step sizes', 'Rounding depends on the values.', [K + 'QSimBase.py'],
  'depends on floating-point rounding of a quotient of runtime values, which a sound static argument in reach cannot bound'),
 ('C92', 'Saved results read back equal',
  'Reading a saved file returns exactly the results, parameters and scalars that were saved, for every supported format.',
  ['inputs'], 'all result structures', 'Tests write a few arrays.', ['src/quanguru/extensions/saveReadCSV.py', 'src/quanguru/extensions/saveReadHFive.py'],
  'round-trip equality of file formats implemented by csv, h5py and string conversion of runtime values is not decided by the source; only the release of files is (C21)'),
 ('C93', 'Random-matrix and eigenvector statistics converge to their laws',
  'Level-spacing and eigenvector-component statistics computed by the toolbox follow the documented distributions.',
  ['inputs'], 'all spectra', 'Statistical.', [T + 'rmtDistributions.py', T + 'eigenVecVal.py', T + 'IPR.py'],
  'convergence of sampled statistics quantifies over runtime spectra; the densities they are compared with are C28, the statistics of components C27'),
 ('C94', 'Thermal occupations and heat currents are numerically accurate',
  'Thermal occupation numbers, thermal states and heat currents agree with their definitions to floating-point accuracy at all temperatures.',
  ['inputs'], 'all temperatures, frequencies, dimensions', 'Tests use a few temperatures.', [T + 'thermodynamics.py'],
  'accuracy of exponentials at extreme temperatures is a floating-point question; the formulas are C27'),
 ('C95', 'Quasi-probability distributions are normalised',
  'Wigner and Husimi functions computed on a grid integrate to one up to the resolution of the grid and the truncation.',
  ['inputs'], 'all states and grids', 'Tests do not cover them.', [T + 'quasiProbabilities.py'],
  'sums over runtime grids and truncations; that every value is the defining expression of its state is C30'),
]
NA = {}
for id, title, st, over, text, why, files, reason in N:
    p(id, title, st, over, text, why, files, [('numerical implementation', files[0])])
    NA[id] = reason

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            n = q['statement'].count('. ') + 1
            assert n <= 3, (q['id'], n)
            f.write(json.dumps(q) + '\n')
    print(len(P), 'properties')
