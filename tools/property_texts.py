EX = 'explicit enumeration of the real code against a reference model'
prop('C01', 'A local operator is promoted to the register on exactly its wires',
     'Promoting a k-qubit operator to an n-qubit register gives the operator that acts as the given matrix on the given wires, in the given wire order (qubit 0 is the most significant bit), and as the identity on all other qubits. This holds for every tuple of distinct wires (any order, adjacent or not), every matrix, and independently of earlier calls. Wires outside the register (negative ones included), repeated wires and matrices whose size does not fit the number of wires are rejected, and the arguments are left unchanged.',
     ['inputs', 'histories'], 'all ordered tuples of distinct wires, all operators, all call histories',
     'The tests compare a few gates on 2 and 4 qubits; wire order, non-adjacent wires, three and more wires and repeated calls are not sampled.',
     [CT], [('einsum over the axes of the wires', CT + ':get_full_operator')],
     'Exhaustive for n<=6 qubits, k<=4 wires (k=5 for n=5): all wire tuples x matrix units/special matrices (nearly diagonal, nearly real, tiny entries ... included); chosen tuples for k=5,6 and n=7,8; linearity of the map is not assumed for the special matrices. Trusts numpy.',
     'exhaustive enumeration of wire tuples x operators and of call histories on the real code', ['return value'])
prop('C02', 'The Pauli-word bases are complete, ordered and correctly named',
     'For every supported size the SU(2), SU(4) and SU(2^n) operator lists contain every Pauli word exactly once, in lexicographic order (I before X before Y before Z, identity words only when requested), and entry i of the list of names spells the tensor product that entry i of the list of matrices is. The names are the same whether or not other bases were requested before, and modifying a returned list or matrix never changes what a later call returns.',
     ['inputs', 'histories'], 'all sizes, both flags, all call histories',
     'The tests check orthonormality of a few lists, not names, order or freshness.',
     [UT], [('itertools.product over the Pauli letters', UT + ':get_su_n_operators')],
     'Exhaustive over the flag combinations and n<=5; all call histories of length 3 (4 thorough) with destructive modification of results.',
     'exhaustive enumeration of sizes/flags and call histories on the real code')
prop('C03', 'A circuit is translated to exactly the unitary it implements',
     'For every circuit that is built from gates that have a matrix and returns a state or one observable, the extracted list of gate matrices and wires, applied in order, equals the unitary of the circuit; evaluating the state or an observable from a unitary gives the first column of that unitary and the matching expectation value. An operation that cannot be expressed as a gate matrix (such as a state preparation) is reported by an error and never silently dropped.',
     ['programs'], 'all gate sequences over the gate alphabet on every wire assignment',
     'The tests use two or three fixed circuits.',
     [CT], [('tape extraction', CT + ':get_ops_from_qnode'), ('QubitUnitary circuits', CT + ':circuit_state_from_unitary')],
     'All gate sequences up to length 2 on 2-3 qubits over the gate alphabet and all wire assignments (length 3 thorough), circuits containing subcircuits and unitaries extracted from other circuits, against an independent simulator.',
     'exhaustive enumeration of bounded programs (gate sequences) against an independent simulator')
prop('C04', 'The Hamiltonian matrix is the weighted sum of its observables',
     'The matrix built from a list of observables is the sum over the list of coefficient times observable acting on its own wires, with all coefficients 1 when none are given. It does not depend on the order of the (observable, coefficient) pairs, counts repeated observables repeatedly, is the zero matrix for an empty list, and leaves its arguments unchanged.',
     ['inputs', 'histories'], 'all lists of observables and coefficients',
     'The tests build a handful of Hamiltonians with default coefficients.',
     [CT], [('accumulation over observables', CT + ':get_hamiltonian_matrix')],
     'All lists up to length 3 over an alphabet of Pauli words, tensor products in both wire orders and Hermitian observables, all coefficient vectors over a small alphabet, lists of up to 40 observables built by repetition, n<=4.',
     EX)
prop('C05', 'The reported Lie-algebra directions are the commutator expectations',
     'For every unitary U and list of observables with sum H, the reported dictionary of directions has every Pauli word on all qubits (identity included) as key, in lexicographic order, and as value Im<phi|[P,H]|phi>/2^n with phi = U|0>. Every Lie layer reports the same dictionary for the observables it was built with.',
     ['inputs', 'histories'], 'all states and observables; all layer classes and call histories',
     'No test reads the dictionary for more than a trivial case.',
     [CT, OT], [('commutator expectations', CT + ':get_all_su_n_directions'), ('delegation', OT + ':LieLayer.get_lie_algebra_directions')],
     'All 6/60/1080 stabilizer states for n=1,2,3 plus generic states x an alphabet of observable lists; every layer class after 0-2 steps.',
     'exhaustive enumeration of stabilizer states x observables against a reference model')
prop('C06', 'An exact Riemannian step multiplies by exp(eta/2 [rho,O])',
     'One step of the exact optimizer replaces U, for each observable O (a Pauli word) in the order given, by exp(eta/2 [rho,O]) U with rho the projector on the state U|0> just before that factor is applied. k steps are k such steps in sequence, and with a single observable the cost never increases from one step to the next.',
     ['inputs', 'histories'], 'all initial circuits, observable lists, step sizes in [0,1] and numbers of steps',
     'The tests only check that the final cost is close to the ground state for a few circuits.',
     [OP, CT], [('parameter-shift commutator and eigendecomposition', OP + ':exact_lie_optimizer'), ('param_shift_comm', CT)],
     'All stabilizer states (n<=2, a subset of n=3) plus generic circuits x ordered lists of <=3 Pauli words x 4-6 step sizes x <=3 steps, compared step by step with the reference flow.',
     'exhaustive enumeration of start states x observables x step sizes, step-by-step conformance to a reference transition function')
prop('C07', 'A local or custom-direction step follows the projected gradient',
     'One call of a local layer (single-qubit or two-qubit words) or of a custom-direction layer multiplies the circuit, observable by observable in the given order, by exp(-eta/2^n * sum_P <phi|[P,O]|phi> P) where phi is the state at the start of the call and P runs over the allowed words on each qubit or pair in ascending order (one factor per qubit or pair for the local layer, one for all for the custom layer; one factor per word when trotterized, the trotterized custom layer going word by word - single-letter words first - and through the qubits or pairs within a word). Only the requested directions (all of them if none are given) occur, the current step size is used, and the result depends on nothing but the arguments: not on earlier calls.',
     ['inputs', 'configurations', 'histories'], 'all states, observables, step sizes, direction subsets, trotterize on/off, call histories',
     'The tests check convergence of a few runs and one or two hand-made unitaries.',
     [OT], [('LocalLieAlgebraLayer.__call__', OT), ('CustomDirectionLieAlgebraLayer.__call__', OT)],
     'Stabilizer and generic states n<=3 (4 for locality 2) x observable lists x all subsets of single-qubit directions and a covering family of two-qubit ones x eta x trotterize; histories of up to 3 calls with set_eta in between.',
     'exhaustive enumeration of configurations and call histories against a reference transition function')
prop('C08', 'A line-search step takes the steepest allowed direction to its minimum',
     'A step of the squared-gradient layer (one- and two-qubit words) or of the SU(8) layer (one-, two- and three-qubit words, as configured) multiplies the circuit by a rotation exp(-i t P) about one allowed Pauli word P whose absolute gradient |<[P,H]>| is maximal among the allowed words, and ends at the minimum of the cost over t; the squared-gradient layer never repeats the word of its previous step on the same qubits. The cost therefore never increases.',
     ['inputs', 'histories'], 'all start states, observables and step sequences',
     'The tests check that the final cost is low for one Hamiltonian; a wrong choice or angle still converges.',
     [OT], [('gradient table and argmax', OT + ':SquaredLieAlgebraLayer.__call__'), ('closed-form optimal angle', OT + ':rotosolve'), ('SU8_AlgebraLayer.__call__', OT)],
     'All stabilizer states n=2 (and sampled classes for n=3,4) plus generic states, observable alphabets, histories of up to 4 steps. The chosen word is reconstructed from U_new U_old^-1; ties are tracked as sets.',
     'exhaustive enumeration of start states and step histories; the step is reconstructed and compared with a nondeterministic reference model')
prop('C09', 'A commuting layer applies equal-direction gates on disjoint qubits',
     'In commuting mode a step of the squared-gradient layer applies rotations about one Pauli word on qubits (or pairs) that do not overlap, each of which has a gradient within 1e-3 of the largest one (all such qubits or pairs of this word if they do not overlap); the reported gates are exactly what was applied: the new unitary is the product of exp(-i theta/2 P) over the reported (P, theta) times the old one, theta being the angles found by the angle optimizer. The optimizer collects these gates step by step and returns them when asked.',
     ['inputs', 'schedules', 'histories'], 'all start states and observables, all outcomes of the random edge colouring and of the angle optimizer',
     'No test uses this mode.',
     [OT, CT, OP], [('edge selection', OT + ':SquaredLieAlgebraLayer.__call__'), ('get_commuting_set', CT), ('gates', OP + ':approximate_lie_optimizer')],
     'Start states x observables for n=2..4, all answers of the random source up to the deviation bound, angle optimizer replaced by a scripted one (and the real one in a few runs).',
     'exhaustive exploration of random choices (choice tree) and optimizer answers on the real layer')
prop('C10', 'Adaptive VQE grows its ansatz by one best layer per step',
     'Every step of the adaptive layer adds exactly one layer of rotations about one Pauli word (all qubits, even pairs, or odd pairs with the wrap-around pair) whose summed absolute gradient is maximal among all words different from the word added in the previous step. The ansatz starts from the uniform superposition, earlier layers are kept in order, new parameters start at 0.1, and the returned unitary is the ansatz at the returned parameters; the parameter list passed in by the caller is not modified.',
     ['inputs', 'histories'], 'all observables, all step histories and all answers of the parameter optimizer',
     'One test runs a fixed Hamiltonian and looks at the final cost.',
     [OT, OP], [('AdaptVQELayer.__call__', OT), ('approximate_lie_optimizer', OP)],
     'Observable alphabets for n=2..4, histories of up to 4 steps with every answer of a scripted parameter optimizer over a small angle alphabet.',
     'exhaustive exploration of optimizer answers and step histories against a reference model')
prop('C11', 'The Zassenhaus layer alternates its phases and stays on its directions',
     'With ratio (a,b) the Zassenhaus layer, built with its default directions, performs a two-qubit line-search steps, then b three-qubit-motivated steps, periodically, and reports the phase of the coming step. A line-search step rotates about a two-qubit word of maximal absolute gradient to the exact minimum; the other steps leave the circuit unchanged or rotate it about one two-qubit word that shares exactly one qubit, and does not commute, with the word used before: with A the word used before, theta the angle of the last line search (the circuit was multiplied by exp(-i theta A/2)) and C = [A,B]/(2i), the circuit is multiplied by exp(-i t B) with t = -(eta/2^n) Im<phi|[C,H]|phi> / theta for a word B with |Im<phi|[C,H]|phi>| > 1e-3; it is left unchanged only if no such B with a nonzero gradient of its own exists, or theta is zero. No step fails, whatever the state, stationary states included.',
     ['inputs', 'histories', 'configurations'], 'all start states, observables, ratios and step histories',
     'One test runs the layer a few steps and checks nothing about the schedule.',
     [OT], [('ZassenhausLayer.__call__', OT)],
     'Ratios {1,2,3}x{1,2,3}, start states and observables for n=3 (4 thorough), histories of up to 8 steps.',
     'exhaustive exploration of step histories, nondeterministic reference model of the phase machine')
prop('C12', 'Random directions are drawn without repetition until the pools run out',
     'Every draw of a random direction from the one- and two-qubit words returns a Pauli word and as many distinct qubits as it has letters; a qubit drawn once is not drawn again until all qubits have been used up, and a word drawn once is not drawn again until the pool of words is refilled (which happens only when the pool is empty, or adds the single-qubit words when a single free qubit has no single-qubit word left); every draw allowed by these rules is possible. A stochastic step multiplies the circuit, observable by observable, by exp(-eta/2^n <phi|[P,O]|phi> P) for the word P drawn in that step, eta being the current step size.',
     ['schedules', 'histories'], 'all outcomes of the random source, all draw histories',
     'The only test of the sampler fails on the original tree; a seeded run sees one history.',
     [OT], [('AlgebraSU4.get_random_direction_and_qubits', OT), ('StochasticLieAlgebraLayer.__call__', OT)],
     'Breadth-first search over all answers of numpy.random for n=1..4 (state: used qubits, remaining words); step law on every reachable draw.',
     'explicit-state BFS over all answers of the random source, monitor automaton as oracle')
prop('C13', 'Optimizers stop or perturb exactly when the cost has converged',
     'Each optimizer performs at most the requested number of steps and ends earlier only if the cost has converged within the tolerance, and then always: the exact optimizer compares the last two costs from its 5th step on, the parameter-shift optimizer compares the last two from its 4th step on, and the approximate optimizer compares the last cost with the one five steps earlier from its 10th step on, and never if the tolerance is None. With perturbation enabled the run does not end but a random orthogonal kick, exp(-(eta/2) A) with A = 0.05 (R - R^T) and R a matrix of independent standard normal numbers, is applied and its step recorded (the exact optimizer applies none after its final step). Settings that are not given are 40 steps, step size 0.1, tolerance 1e-3 and no perturbation.',
     ['histories', 'configurations'], 'all cost histories, tolerances, step limits and perturbation outcomes',
     'The tests never look at the number of steps; the stopping window depends on the whole history of costs.',
     [OP], [('early stopping', OP + ':exact_lie_optimizer'), ('early stopping', OP + ':approximate_lie_optimizer'), ('early stopping', OP + ':parameter_shift_optimizer')],
     'All binary (and ternary tail) cost histories up to length 14 for the approximate optimizer through a scripted layer; grids of natural histories for the other two; scripted kicks.',
     'exhaustive enumeration of cost histories driven through the real optimizer loop, reference automaton')
prop('C14', 'Returned traces are aligned with the costs and consistent',
     'For every combination of return flags an optimizer returns the cost list alone or a tuple with the cost list first and the requested traces in the fixed order (states, directions, unitaries, gates, perturbations, phases; states, perturbations, unitary for the exact optimizer; states, parameters for parameter shift). There is one cost, state, unitary and parameter set per performed step plus the initial one (directions and phases: one per step), entry i of each trace belongs to cost i (the directions of a step are those the layer applied in that step reports for the circuit after it), layers are applied round-robin, and asking for traces never changes the costs.',
     ['configurations', 'histories'], 'all flag combinations, layer lists, numbers of steps',
     'The tests use two flag combinations.',
     [OP], [('returnables', OP + ':approximate_lie_optimizer')],
     'All flag combinations x layer lists x numbers of steps on several circuits; each trace recomputed from the others.',
     'exhaustive enumeration of flag configurations and run lengths against a reference model')
prop('C15', 'Invalid settings are rejected before any optimisation step',
     'Every optimizer and layer rejects settings outside their documented domain with an exception before it evaluates or changes anything: non-integer or non-positive step counts, step sizes that are not floats in [0,1], negative or non-float tolerances, non-boolean flags, unknown directions, unsupported locality or register sizes, layers that are not Lie layers, and circuits that return the wrong thing. Every setting inside the domain is accepted.',
     ['inputs', 'configurations'], 'all settings over a per-option alphabet of valid and invalid values',
     'The tests try a few invalid values.',
     [OP, OT], [('assertions at the top of every entry point', OP), ('layer constructors', OT)],
     'Every option of every entry point x an alphabet of valid/invalid values (one or two options at a time).',
     'exhaustive enumeration of (pairs of) option values')
prop('C16', 'Circuits stay unitary; non-unitary steps are repaired on request',
     'Whatever layers and step sizes are used, in any order, every circuit produced from a unitary circuit is unitary up to rounding. With the unitary check of a local, custom-direction or stochastic layer switched on, a factor whose matrix exponential comes out non-unitary (beyond rounding, 1e-8) is replaced by the closest unitary matrix, and a factor that is unitary is used unchanged.',
     ['histories', 'fault_sequences'], 'all layer sequences; all fault sequences of the matrix exponential',
     'The tests never inject an inaccurate exponential, so the repair branch is never taken.',
     [OT], [('_is_unitary/_project_onto_unitary', OT + ':LieLayer')],
     'All layer sequences up to length 3 (4 thorough); all fault patterns over the exponentials of one call (n<=2 observables, 3 fault kinds).',
     'exhaustive enumeration of layer sequences and of fault-injection patterns')
prop('C17', 'Pauli products, commutators and conjugates obey the Pauli algebra',
     'Interpreting a Pauli or Pauli monomial as coefficient times tensor product of Pauli matrices, products, commutators and conjugated coefficients computed by the library equal the corresponding matrices, for any nesting of these operations; commutation is reported exactly when the operators commute, and the compact form lists the non-identity letters with their sites in ascending order. No operation other than conjugation changes its operands.',
     ['inputs', 'histories'], 'all words, sites, coefficients and expression trees',
     'The tests multiply single Paulis and a few monomials; nested expressions and changed coefficients are not covered.',
     [PA], [('Pauli.__mul__', PA), ('PauliMonomial.__mul__', PA), ('PauliMonomial.commutator', PA)],
     'All pairs of words on up to 3 sites (with missing sites) x coefficients, words on 4-6 sites built in every order; all expression trees of depth 2-3 over small alphabets, against matrices.',
     'exhaustive enumeration of expression trees against a matrix model')
prop('C18', 'Pauli sums behave as values under any sequence of operations',
     'A Pauli sum always denotes the operator that the performed additions, subtractions, products and scalar multiplications define, for every sequence of such operations; equal words with coefficients of the same kind are merged and vanishing merged terms dropped. Only the sum that a scalar multiplication is applied to changes: operands, monomials and lists used to build a sum never do.',
     ['histories'], 'all sequences of operations over a set of registers',
     'The tests build single sums; aliasing needs a sequence of operations.',
     [PA], [('PauliSum.__init__/simplify/__add__/__sub__/__mul__/scalar_mul', PA)],
     'All operation sequences up to length 3 (4 thorough) over 3 registers and an alphabet of initial sums.',
     'exhaustive enumeration of operation sequences (register machine) against a value model')
prop('C19', 'A commuting set is a non-empty set of disjoint given edges',
     'For every list of distinct edges (pairs of qubits, or single qubits) and every outcome of the random choices, the selected set is non-empty, contains only edges of the input in their given orientation, and no two of them share a qubit; it contains all of them if they are already disjoint. The input list is not modified.',
     ['inputs', 'schedules'], 'all edge lists and all outcomes of the random source',
     'One test uses one graph with one seed.',
     [CT, EC], [('get_commuting_set', CT), ('applyHeuristic', EC)],
     'All graphs on <=5 nodes in several edge orders/orientations x all random answers up to a deviation bound.',
     'deviation-bounded exploration of every random choice on every small graph')
prop('C20', 'An edge colouring reported as successful is a proper colouring',
     'For every graph, every number of colours not smaller than its largest degree and every outcome of the random choices, the colouring heuristic terminates within its limits, gives up only after iteration limit + 1 attempts and never makes more, gives every edge a colour below the number of colours, leaves nodes and edges of the graph as they are, and returns true exactly if no two edges that share a node have the same colour. A repair round (heuristic), started from any complete colouring, never leaves more conflicts than it found and reports success exactly if none is left. With at least 2d-1 colours, d being the largest degree, the greedy colouring (preColoring) is already proper and the heuristic always succeeds. The checker accepts a colouring exactly if it is proper and all its colours are below the number of colours.',
     ['inputs', 'schedules'], 'all graphs, colour counts, limits and outcomes of the random source',
     'The test colours a few graphs with one seed.',
     [EC], [('heuristic/KempeProcess/checkEdgeColoring', EC)],
     'All graphs on <=5 nodes, D in {max degree..+1}, small limits, all random answers up to a deviation bound; class-2 graphs with 16 answer streams and single deviations; checker: all colourings.',
     'deviation-bounded exploration of every random choice on every small graph')
prop('C21', 'Bloch angles and density matrices convert back and forth',
     'For all angles theta in [0,pi] and phi in [0,2pi) the constructed matrix is the pure state with Bloch vector (sin theta cos phi, sin theta sin phi, cos theta), and converting it back returns the same point of the sphere with phi in [0,2pi) and theta in [0,pi] (azimuths within 1e-3 of a full turn may be reported as 0). The conversion never yields NaN for a state that is valid up to rounding, and matrices whose trace is not 1 are rejected.',
     ['inputs'], 'all points of the sphere',
     'The tests use a few angles.',
     [PL], [('spherical_to_state/state_to_spherical', PL)],
     'Grid of angles including all poles, meridians and their floating-point neighbours; states with every +-1..4 ulp perturbation of the diagonal.',
     'exhaustive enumeration of a grid with all floating-point boundary neighbours')
prop('C22', 'Layers and optimizers do not modify inputs or influence each other',
     'Calling a layer, an optimizer or a helper never modifies the circuit unitary, parameter list, observables, direction or layer lists passed in, and layers, optimizers and helpers share no hidden state: interleaving calls on one object with calls on other objects gives the same results as running them alone. Arrays returned earlier are not changed by later calls.',
     ['histories'], 'all interleavings of calls on several objects',
     'Every test uses fresh objects and never looks at the inputs again.',
     [OT, OP, CT, UT], [('per-instance operator buffers', OT), ('copying', OP)],
     'All interleavings of two call sequences, constructions included, over all pairs of layer classes and variants of one class, and of optimizer runs; the expected results come from fresh processes.',
     'exhaustive enumeration of interleavings of call sequences, differential oracle')
prop('C23', 'Parameter-shift optimisation is gradient descent on the summed cost',
     'Every step of the parameter-shift optimizer replaces the parameters by parameters minus eta times the gradient of the sum of the expectation values of the observables, and the reported costs are that sum at the successive parameters, starting with the initial ones. Repeated and multi-qubit observables are counted like any others.',
     ['inputs', 'histories'], 'all ansatz circuits over the gate alphabet, observables, step sizes, start parameters',
     'The tests check one or two ansatz circuits.',
     [OP], [('GradientDescentOptimizer on ExpvalCost', OP + ':parameter_shift_optimizer')],
     'All ansatz circuits of up to 2-3 parametrised gates over an alphabet x observables x parameter grid x eta; reference: analytic gradient from an independent simulator.',
     EX)
prop('C24', 'Concurrent runs can create the same result directory',
     'Creating the result directory for an experiment returns base path and name joined, and the directory exists on return with whatever it contained before, for every base path and name not occupied by a file (missing parents, repeated calls). This holds for every interleaving of several concurrent callers: none of them fails.',
     ['schedules', 'histories'], 'all interleavings of the file-system operations of 2-3 callers, all initial directory trees',
     'There is no test; a race needs a specific interleaving.',
     [UT], [('save_path_creator', UT)],
     'Interleavings of 2 callers (all for one missing level, preemption bound 3, thorough 5, otherwise) and 3 callers (bound 2, thorough 3) at every file-system call over an alphabet of paths and initial trees, in a scratch directory.',
     'stateless exploration of all interleavings at file-system calls')
prop('C25', 'Direction plots show the Lie-algebra directions they are asked for',
     'The plots of SU(8) directions (two-qubit registers) and SU(16) directions (four-qubit registers) contain one curve per plotted Pauli word (labelled with it) or per word weight, with the value at step i equal to the direction (or the summed absolute directions of that weight) of the i-th unitary; words are grouped by the number of identity letters, and words that vanish along the whole run are left out only in the individual SU(8) plot.',
     ['inputs'], 'all sequences of unitaries and observables',
     'Plots are not tested.',
     [PL], [('plot_su16_directions/plot_su8_directions', PL)],
     'Sequences of up to 3 stabilizer/generic unitaries x observables; curves read back from the figure and compared with the reference directions.',
     EX)
prop('C26', 'The algebra dictionaries hold every allowed word on every qubit set',
     'The SU(2), SU(4) and SU(8) algebra objects, with any of their options, enumerate exactly the allowed Pauli words (one, two or three letters without identities) on every ascending tuple of distinct qubits, and the operator stored under (word, qubits) is that word acting on those qubits. Enumerating again changes no entry.',
     ['configurations', 'histories'], 'all register sizes, options and call histories',
     'Tests only use the algebra indirectly.',
     [OT], [('AlgebraSU2/AlgebraSU4/AlgebraSU8.get_all_directions_and_qubits', OT)],
     'n=1..5 x all options; all call histories of length 3 over enumerate/add/draw.',
     'exhaustive enumeration of configurations and call histories against a reference model')
prop('C27', 'Equality, hashing and ordering of Pauli objects are consistent',
     'Paulis are equal exactly if site and letter agree, monomials exactly if all their Paulis agree and their coefficients are both real or both complex; equal objects have equal hashes, and comparing monomials of different length raises an error. The order of monomials on the same sites is a strict weak order: it compares letters first, puts a complex coefficient before a real one, and then orders by the sum of real and imaginary part, so sorting does not depend on the initial arrangement.',
     ['inputs'], 'all pairs and triples of monomials',
     'The tests compare a few pairs.',
     [PA], [('__eq__/__hash__/__lt__', PA)],
     'All pairs and triples over words on <=2 sites x 8 coefficients; all permutations of short lists.',
     'exhaustive enumeration of pairs, triples and permutations')
prop('C28', 'The parameter-shift commutator and the operator norm are exact',
     'For every state rho and involutory observable O, shifting rho by plus and minus a quarter turn about O gives i[rho,O] exactly (hermitian and traceless), for O a Pauli word on any subset of qubits or any other observable with eigenvalues +-1. The operator norm is the square root of the sum of the squared moduli of all entries.',
     ['inputs'], 'all states and observables',
     'The tests check a few random matrices.',
     [CT, UT], [('param_shift_comm', CT), ('operator_2_norm', UT)],
     'All stabilizer states n<=2 (3 thorough), mixed states and matrix units x all Pauli words; all matrices over a small entry alphabet for the norm.',
     EX)
prop('C29', 'Results are reproducible from the random seeds',
     'With the seeds of the two global random sources (random and numpy.random) fixed, every layer, optimizer, edge colouring, random draw and Pauli computation gives the same result whenever it is run: whatever was computed before in the same process and whatever the string-hash seed of the interpreter (the BCH layer up to the tolerance of its fit). Computations without a random element (all layers except the stochastic one and the commuting mode, optimizers without perturbation, the helpers, Pauli arithmetic) give the same result for every state of the random sources and neither draw from nor reseed them; the random ones never reset the sources.',
     ['histories', 'configurations'], 'all seeds, all earlier computations in the process, all hash seeds',
     'Every test runs once in one process with one seed.',
     [OT, OP, CT, EC, PA], [('random draws', OT + ':AlgebraSU4'), ('perturbation', OP), ('get_commuting_set', CT)],
     'About 30 programs x 4 seed pairs x every earlier program of 14 families (every pair of them thorough) x 3 (5) hash seeds in fresh processes. Circuits without symmetries, so no decision hangs on rounding.',
     'exhaustive enumeration of program histories, seeds and hash seeds on the real code (self-composition: first run as oracle)')

prop('C30', 'The BCH layer returns its ansatz at angles fitted to the gradient',
     'A call of the second Zassenhaus layer returns, whatever circuit it is given, the circuit of its ansatz: Hadamards on qubits 0 and 1, X rotations RX(x0) and RX(x1) on them, then exp(-i z/2 Z0Z1), and the identity on all other qubits. The angles are a minimum (up to the tolerance of the fit, 1e-4) of the squared distance between the second-order Baker-Campbell-Hausdorff coefficients of exp(-i x0 X0) exp(-i x1 X1) exp(-i z Z0Z1) - x0 for X0, x1 for X1, z for Z0Z1, -x0 z for Y0Z1, -x1 z for Z0Y1 - and -eta times the gradients Im<[P,H]> of these words at the state of the given circuit, for the current step size; they do not depend on earlier calls.',
     ['inputs', 'histories'], 'all states, observables, step sizes, call histories',
     'No test uses this layer.',
     [OT], [('BCH terms and fit', OT + ':ZassenhausLayerV2')],
     'All (quick: half of the) two-qubit stabilizer states and generic states x 4 observable lists x step sizes on 2-4 qubits; all call histories of length 3 (4 thorough) with step size changes; the angles are reconstructed from the unitary.',
     'exhaustive enumeration of states and call histories on the real code against an independent formula')
prop('C31', 'The printed forms of Pauli objects denote the operator',
     'The text form of a Pauli or Pauli monomial lists every factor as S(site,letter index) in ascending order of the sites, preceded by the coefficient unless that is 1 or not wanted; the TeX form lists the same factors as sigma with site and letter (identities as I) and the coefficient when wanted; the compact form lists the non-identity letters and their sites. So each form, read back, gives the same operator, for every monomial and also after products, commutators, conjugation and changes of the coefficient.',
     ['inputs', 'histories'], 'all words, sites, coefficients, construction orders',
     'The tests print nothing.',
     [PA], [('__repr__/__tex__/to_oranssi', PA)],
     'All words of up to 3 letters on three site triples in every construction order x 8 coefficients (symbolic included), and all products/commutators/conjugates of pairs of two-letter words; independent parser.',
     'exhaustive enumeration of words and operations, round trip through an independent parser')
prop('C32', 'Landscape plots show the given costs; label sizes are set as asked',
     'The cost landscape shows costs[l][k] at (phi_k, theta_l), phi on the horizontal and theta on the vertical axis over exactly the given ranges, with labelled axes and a colour bar that covers the costs, and leaves its arguments unchanged. Changing the label size sets the size of both axis labels and all tick labels of the given axes and of nothing else, whatever was done to the axes before.',
     ['inputs', 'histories'], 'all grids and costs, all states of an axes object',
     'The tests only check that the call returns.',
     [PL], [('plot_bloch_sphere_2d/change_label_fontsize', PL)],
     'Affine landscapes on 4 grid sizes x 2 ranges, every contour vertex read back; all sequences of 3 (4 thorough) actions on an axes object.',
     'exhaustive enumeration of landscapes and action sequences, figures read back')
prop('C33', 'Malformed Pauli objects and operations are rejected and change nothing',
     'A Pauli is accepted exactly for a non-negative integer site, one of the four letters (or their indices 0 to 3) and a float, complex or symbolic coefficient; a monomial exactly for Paulis on distinct sites; a sum exactly for monomials of the same length. Multiplying Paulis on different sites, comparing monomials of different length, adding sums whose monomials have different lengths, combining Pauli objects with foreign objects and scaling a sum by something that is not a number are rejected with an error. Well-formed operations succeed. Neither a rejected nor an accepted operation (other than scaling) changes its operands, and a rejected one never affects later operations.',
     ['inputs', 'histories'], 'all argument combinations over alphabets of valid and malformed values, all histories with rejected operations',
     'The tests reject a few values.',
     [PA], [('constructors and operators', PA)],
     'All combinations of 12 sites x 21 letters x 14 coefficients; all lists of up to 4 (5 thorough) members; all sequences of 2 (3) operations over 12 objects.',
     'exhaustive enumeration of arguments and operation histories on the real code')
