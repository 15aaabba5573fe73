HEAD = '''
# Static analysis of QuanGuru: design

This file is generated by `tools/mkdesign.py` from the text in `tools/design_text.py`, the tables of properties and claims, and what the
checks write into their evidence, so that rule, bounds and assumptions here are those the checks state themselves.

## The engine

Nothing of QuanGuru is imported or executed and no solver is used. Every run parses `/repo/src/quanguru` afresh.

- `sa/loader.py` resolves modules, imports, classes (C3 linearisation, properties and their overrides, slots, private-name mangling, decorators)
  and the static call targets of the package.
- `sa/interp.py` is a path-partitioned abstract interpreter. Values are terms of a value-numbering (Herbrand) domain: a term records from
  which inputs and through which operations a value was computed, equal terms are equal values. Terms are normalised (polynomials of
  numbers, constant folding, tuples and slices), objects live in an abstract heap of fields, lists and dictionaries, and every branch
  condition that is not decided splits the state and becomes a fact of the path. Loops over lists of known elements are followed element
  by element, other loops by an inductive fold (what is changed becomes unknown). Every path also carries a trace of effects. External
  calls (numpy, scipy, multiprocessing) are opaque terms with a table of effects; recursion, unknown callables and unsupported
  constructs give an explicit *unknown*.
- `sa/effects.py` (writes and views), `sa/algebra.py` (non-commuting polynomials of matrices with adjoint, transpose, conjugation, Kronecker
  products and exponentials), `sa/banded.py` (matrices given by diagonals with polynomial elements), `sa/scen.py` (builds abstract heaps),
  `sa/client.py` (follows client programs, written as Python text in the checks, over the classes of the package) are the domains on top of it.
- `sa/checks/cNN.py` derive the obligations of one property from the current source, discharge them, and report a violated one with
  file, line and path; `sa/checks/histories.py` is shared by the properties about stale values.

*Policy.* A violation is reported only on positive evidence: two terms that are different for inputs in general position, an effect
that is on a feasible path, a reading that differs. What the analysis cannot decide is counted as *undecided* in the evidence and never
raises an alarm (exit status 0); each check demands a minimum number of decided obligations, so that a silent loss of coverage shows.
Obligations are named after what they are about and not after lines or local names, and are judged on values and effects, not on the
shape of the code, so that extracting helpers, reordering statements or rewriting loops leaves them quiet: `tools/mut.py` applies small
breaking and small behaviour-preserving variants per property and checks both directions.

*Why this reaches what the tests cannot.* The tests run a handful of concrete dimensions, angles, orders and histories. The obligations
quantify over symbolic dimensions and parameters (one abstract run stands for all values), over all paths of a function and over histories
the tests never make (a parameter changed between two evaluations, an exception in a worker, a copy of a nested composite).

*Cost.* Each quick check takes between a second and about eighty seconds on one to eight cores, a thorough check at most a few minutes.
`python3 check.py --setup` only parses the package.
'''

HOW = {
'C01': 'Each toolbox function is summarised with its callees inlined and arguments of every supported kind (array, sparse, list, dictionary). Effects record '
       'every write (item, in-place operator, mutating method, `out=`) with the object written; an object is an argument if its term is the argument or a view of it. '
       'Persistent objects are module variables, defaults, function attributes and results of memoising decorators: writing one, or returning one that is mutable, breaks the property.',
'C02': 'The lattice of formats is propagated through the term of every result: constructors, conversion methods, products and sums (with the coercion rules of scipy and numpy), '
       'Kronecker products, transposes; unknown arguments get the format the caller asks for. Both a wrong format and a number where a matrix is due are reported.',
'C03': 'The constructors place lists of elements on diagonals; their elements are found as polynomials (under square roots) of the row, by closed forms of ranges, comprehensions and '
       'appending loops. Products and adjoints of banded matrices are computed in the domain, which decides Hermiticity and the commutation relations for every dimension at once. '
       'Element lists concatenated piecewise are left undecided.',
'C04': 'Operators of different systems commute and elementary operators have the adjoints that C03 establishes; the collected products of a Hamiltonian with the given real strengths must be '
       'closed under the adjoint. Composite operators inserted by term assembly are interpreted down to Kronecker positions.',
'C05': 'The specification is written once in the algebra and compared with each function: generator, dissipators, pre/post operators, propagator, vectorisation, and the gate super-operators reached through '
       'the protocol classes. Vectorisation and reshape order are part of the term, so a row-stacked variant is a different term.',
'C06': 'Exponential arguments are compared as normal forms; explicit 2x2 and 4x4 matrices are multiplied by their adjoint with symbolic elements (cos^2+sin^2=1). Gates on several systems are followed down '
       'to the position of their operator in the Kronecker product.',
'C07': 'The method is differential and needs no list of dependencies: for every change there are programs `build; [evaluate]; change; observe` with and without the intermediate evaluation, with observers in every order; '
       'a cached matrix is a term of the values it was computed from, so any stale value makes the observed terms differ. `MUST` obligations demand that the changed parameter occurs in the observed term, and renamed symbols make two '
       'programs that must agree comparable.',
'C08': 'Same method as C07 with changes in one object and observation in another one that was composed from it, before or after composing.',
'C09': 'Same method; in addition the observed product of a protocol with copies must be word for word the one of its originals, with adjoint factors for adjoint copies.',
'C10': 'Keys are abstract objects with an arbitrary set of aliases. Every method of the alias dictionary is followed with the base-class primitives opaque; each primitive must use a key that was proven to be the present '
       'one or proven absent. Name equality is decided on the term of the comparison, and every container of named objects must be an alias dictionary.',
'C11': 'Counters are symbols, so one abstract creation stands for a creation after any history; names are strings with symbolic parts and are compared as prefix plus counter. Histories from the initial counters are followed on concrete heaps.',
'C12': 'Slots and fields of the constructed abstract object are the obligations: each must be present in the restored object under its own name with the same value, so a forgotten `__slots__` entry or a swapped field is reported by name.',
'C13': 'The pool is modelled as a map over isolated copies of the heap with ordered results; an unordered map gives an unordered result, which shows as a difference of final containers.',
'C14': 'The trace of the abstract run is filtered to callbacks, resets and evolution and compared with the documented order on every path.',
'C15': 'Every container is compared before and after resets; a stored value carries the symbol of the sweep point that produced it, so a value of another point in the results is visible; a container emptied in place is visible through the handle an earlier run gave away.',
'C16': 'Indices are polynomials with floor division and modulus by lengths; the value each sweep gets is brought to mixed-radix form and compared with the digit of its axis. Sweeps that fail to cover or repeat give another digit.',
'C17': 'Step propagators are distinct non-commuting symbols; the composed propagator and evolved states are words of them.',
'C18': 'Every reading (all public attributes of all connected objects, including the total Hamiltonian) is taken before and after the rejected assignment on the same abstract path.',
'C19': 'A dataflow over the syntax tree (no interpretation): default values are tracked through assignments, calls, fields and returns.',
'C20': 'Dimensions are pairwise different symbols, so products are monomials and a missing, additional or wrongly placed factor is visible.',
'C21': 'Every call outside the pool management may raise; the typestate must be released at every exit. `with` blocks and try/finally are both followed by the interpreter, not recognised by shape. Files: every call that opens one must be managed (a with block, or a name that is closed on every exit).',
'C22': 'Branch facts remove infeasible paths; a failure that depends on an argument of a private function is re-examined with the arguments its call sites pass.',
'C23': 'A reference model (parameter value, explicit or bound, and its source) is followed along the same history as the classes; the readings of both are compared after every step.',
'C24': 'Basis vectors are orthonormal symbols: inner products are computed in the algebra, populations are non-negative symbols under square roots.',
'C25': 'Update values and originals are distinct symbols, so the heap after creation tells which value a parameter has; overlapping updates need reverse-order restoration.',
'C26': 'Field-by-field comparison along the correspondence original/copy found from the structure, then every assignment to one side must leave all readings of the other unchanged.',
'C27': 'Each measure is followed for kets and density matrices; traces of products are compared as cyclic words with every bracket split off, spectra as functions of an unknown eigenvalue (after replacing R^H R by the square of '
       'a Hermitian R where it is known), and the axes of reshape/einsum/tensordot reductions by tracking which sub-system every axis belongs to. Eigenvectors must be paired with their eigenvalues by the same permutation of columns.',
'C28': 'The returned expression of every density is brought into a product normal form c x^a (1-x)^b or c x^a exp(-k x^m) with symbolic exponents; integral and mean follow from the beta and gamma integrals, and quotients of gamma functions '
       'whose arguments differ by integers reduce to polynomials. Floor divisions are decided for even and odd dimensions separately.',
'C29': 'Toolbox functions stay symbolic, so that a Hamiltonian is an exact expression of strengths, elementary operators and Kronecker positions. It is expanded into words of operators with the products of dimensions before and after '
       'them, which for dimensions in general position identify the system; operators of different systems commute. The expected sum is written beside every program or generated with the tree of systems.',
'C30': 'Array code is interpreted with arrays of a fixed shape whose elements are exact polynomials (roots, exponentials and trigonometric functions as atoms) of symbolic states, grid points and parameters; views, copies, '
       'broadcasting, in-place operators and element types follow numpy (`sa/arrays.py`). Every element is compared with the defining formula (Laguerre polynomials for the Wigner function, coherent-state overlaps for the '
       'Husimi function); `eigh` gives orthonormal eigenvectors and `eig` does not. The analytic propagator is differentiated symbolically and inserted into its equation. An element that cannot be matched exactly is only '
       'reported when it differs for given numbers.',
}

TAIL = '''
## Planted bugs and small mutants

`/verif/seeded/<id>` holds bugs that were planted from the statement of a property and the code alone (`tools/seeds/*.py` defines them, `tools/seed.py`
confirms each in a scratch copy: the demonstration passes without and fails with it, the 472 stable tests pass with it). The ones listed
with each property above are caught by the check of that property; several of them were missed at first and led to extensions: composite
flags set by a rejected keyword (C18), terms with several matrices (C07), logarithms and conjugated eigenvectors (C27), densities for even
and odd dimensions (C28), orders of Pauli operators (C29). Other planted changes were discarded because stable tests see them or because they
change nothing observable. `tools/muts/*.py` holds small variants of the source, breaking and behaviour-preserving, that every check is tuned on.

## Scope: behaviour that is known and not judged

- `environment.py` (dissipatorObj, thermalBath) is marked by its authors as initial ideas; the old interface (`QSys.py`) is judged only by the
  properties that quantify over every function (C01, C19, C22) and by the couplings (C04).
- Names and lifetime: result containers keep systems alive through the list of all results; aliases of dead objects stay reserved; an
  alias list is applied up to the first rejected alias; class counters are not transferred to spawned workers.
- Results: values stored in `calculated` by workers of a parallel run are not sent back.
- Hamiltonian of parts that were removed: a removed term or a coupling of a removed system keeps the matrix it had; a removed system keeps the
  former composite among the objects it notifies. Removing a composite removes its internal couplings.
- Updates: restored values if the creation of a propagator raises, changes of the key or the systems of an update, and updates with
  `_aux=True` are not judged. Fixed protocols may leave stale marks on their steps.
- Time: samples above one on protocols without sampled steps, `stepSample` that is never reset, sweep limits changed after their list was
  computed, time dependency given by limits and steps, and the rounding of the number of time steps are not judged.
- Assignments: `terms =` and `subSys =` with an invalid value, keyword arguments after valid ones and a composite initial state that is rejected half way leave the valid part applied.
- Documented behaviour: assigning the current value of a bound parameter keeps it bound; a bound created after both sides have explicit values copies them.
- Copies do not carry the time dependence of terms or simulation times.
- A composite whose initial state is a list raises when another sub-system is added before the state is created; composite states given as arrays are not changed by
  later states of sub-systems.
- Closures in user functions are not followed; adding one system to two composites is not judged.
'''
