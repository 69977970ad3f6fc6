# property: (level, technique, note, theorems)
T = 'contracts on the real functions, verification conditions by symbolic execution with loop invariants, discharged by z3 and an exact algebraic decision procedure'
BOUNDED = 'concrete cross-check of the real code against an independent reference, bounded (contracts for this property are not written yet)'
LEVELS = {
 'C01': ('proof', T, 'Every gate kernel against its matrix for arbitrary amplitudes, parameters, target lists and registers up to 31 qubits; floats are treated as exact reals, numpy\'s elementwise operations are assumed contracts. Concrete cross-check labelled bounded.', None),
 'C02': ('proof', T, 'Every decomposition against the gate matrix for symbolic parameters and arbitrary targets; termination of decomposition by a rank on gates.', None),
 'C03': ('proof', T, 'Every conjugate gate, and Circuit.dagger over operation lists of any length. Operations listing several pairs sharing qubits are a known finding.', None),
 'C04': ('proof', T, 'Target resolution (slicing, qubit_pairs, get_maximum_index and the loops that use them) for arbitrary integers, slices and tuples of them: a loop rule for while and for, z3 over unbounded integers. Concrete cross-check labelled bounded.', None),
 'C05': ('proof', T, 'Measurement and reset of the numpy backend for any normalised state, register up to 31 qubits and target list: projection, probability, recorded bit (loop rule over the targets; the random draw is any number in [0,1)). The joint distribution over several targets follows from the per-target law; it is also sampled by the bounded cross-check.', None),
 'C06': ('proof', T, 'Proved for any number of operations and shots with inferred loop invariants over ghost histories; NumPy and Numba backends.', None),
 'C07': ('proof', T, 'Proved: the cache invariant is kept by every run from any earlier cache and results equal those of an uncached run, any number of operations and shots.', None),
 'C08': ('proof', T, 'Circuit construction, +, +=, copy, apply for operation lists of any length with opaque operations; frame conditions on both operands.', None),
 'C09': ('proof', T, 'The qasm emitters for any circuit (loop rule over operations, the text as a token sequence): every operation, its angles in full precision, target order, register sizes, header; refusal of operations qasm cannot express. repr of floats is an assumed contract. cu2 is a known finding. Concrete cross-check labelled bounded.', None),
 'C10': ('proof', T, "Every gate the symbolic backend knows, for any register (n <= 31), target list and parameters (fresh symbols and every clash with the backend's own symbol names): the real sympy 2x2 matrices converted to exact algebra, tensor products and folds over the targets as formal operators with loop rules; global phase removal, angle conversion, ignored operations. sympy is trusted; whether sympy sees an entry as zero is a known finding.", None),
 'C11': ('proof', T, 'Products, sums, powers and scalar multiples of Pauli operators, terms and expressions of any length, against their meaning in a free algebra with the Pauli relations per qubit (word and sum abstractions with ghost totals); Term.join_ops_list and Term.simplify by loop invariants. Operators on different qubits commute is an assumed lemma. Concrete cross-check labelled bounded.', None),
 'C12': ('proof', T, 'terms and expressions of any size, every format, by one arbitrary entry; sums and Kronecker products per factor kind; grouping by bit masks per qubit', None),
 'C13': ('proof', T, 'Comparison, hashing, commutator and commutation test for operators, terms and expressions of any length: a path on which two compare equal equates their meanings (letter rewriting), symmetry by replaying the comparison, the commutation test against the squared norm of the simplified commutator. Linear independence of Pauli words is an assumed lemma; Term.simplify and Expr.simplify by the contract proved for C11. Concrete cross-check labelled bounded.', None),
 'C14': ('proof', T, 'Term.get_time_evolution and append_to_circuit for terms with any number of operators on any qubits, symbolic coefficient and time: gates recorded with loops as functions of the position, the post-part inverse to the pre-part, the ladder by a z3 induction on the Z string, basis changes as exact 2x2 matrices. Concrete cross-check labelled bounded.', None),
 'C15': ('proof', T, 'energies, samplers and tables: what one term, entry or amplitude adds, for Hamiltonians, states and counts of any size', None),
 'C16': ('proof', T, 'The QAOA ansatz for any number of steps, terms and qubits, symbolic parameters, default and given initial circuit and mixer (nested loop rule, circuits as recorded sequences), get_circuit run twice for the frame; Vqe.run, VqeResult and the scipy wrapper over opaque ansatz, minimiser, sampler and circuit. Time evolution and expect by their contracts (C14, C15). Concrete cross-check labelled bounded.', None),
 'C17': ('proof', T, "matrices of any size by probing one arbitrary entry; polynomials through a contract of sympy; expand_qubo's removal of all powers, make_qs and optm by a bounded check", None),
 'C18': ('proof', T, 'annealers for any size and history by probing couplings; matrices of the builders entry by entry; counter and rands by a bounded check only', None),
 'C19': ('proof', T, 'Registration, lookup and backend selection over arbitrary tables, names and defaults (each table answer forks).', None),
 'C20': ('proof', T, 'Ops: every operation of the class on sequences of any length with opaque elements; frame conditions. Concrete cross-check labelled bounded.', None),
 'C21': ('proof', T, 'to_inttuple for bit strings and tables of any size, ignore_global_phase for any vector (rule for a loop which stops at the first hit).', None),
 'C22': ('proof', T, 'circuit_to_unitary for any circuit, run options and register up to 60 qubits: the body of the column loop for a generic column (the qubits flipped are exactly the set bits, z3 over bit vectors), the circuit appended once, options handed on, columns in order and transposed.', None),
 'C23': ('proof', T, 'Backend._run and the gate dispatch for any number of operations, arbitrary names, contexts and decompositions (loop rule with a history ghost).', None),
 'C24': ('proof', T, 'The runner for every kind of result, options, counts and import outcome, with recording stand-ins for qiskit; the generated backends for any circuit. qiskit itself is trusted; the concrete cross-check runs the installed Aer.', None),
 'C25': ('proof', T, 'Every kernel with a rule for parallel loops: writes of distinct iterations are disjoint (inverse address map shown by z3), content after the loop against the matrix; registers up to 60 qubits for gates. The numba compiler itself is absent and trusted.', None),
 'C26': ('proof', T, 'Texts as token sequences read by Python\'s parser, for operators, terms, expressions, gates, circuits and sequences of any length; terms from characters for any string.', None),
}
NA = {}
