"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py writes both)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state or []))


prop('P01', 'Products of operator strings are products of their matrices',
     'For every pair of Pauli or Majorana operator strings A and B, the product, commutator and anticommutator '
     'returned are (coefficient, string) pairs whose value as a Fock-space matrix is AB, AB-BA and AB+BA, with '
     'orbital labels in increasing order, and with a zero coefficient exactly when that matrix vanishes. The operands are not modified.',
     ['inputs'], 'every ordered pair of operator strings with every overlap pattern of their supports',
     'The tests multiply a few hand-picked strings; sign errors in Majorana reordering depend on which labels overlap, '
     'where, and how many odd operators stand between them.',
     ['qosy/algebra.py', 'qosy/operatorstring.py', 'qosy/tools.py'],
     [('single-orbital product tables and label merge', 'qosy/algebra.py:_operation_opstring'), ('sign of sorting the Majorana labels', 'qosy/tools.py:sort_sign')],
     ['product', 'commutator', 'anticommutator'],
     'bounded exhaustive enumeration of operand pairs on the real code against a matrix reference model',
     'All pairs within the stated label sets; larger supports are assumed to behave as the local overlap pattern does. Trusts numpy and the reference matrices.')

prop('P02', 'The operator algebra (sum of strings) is that of the matrices',
     'For operators that are linear combinations of operator strings, product, commutator and anticommutator are the '
     'operators whose matrices are AB, AB-BA and AB+BA, for complex coefficients and operands with common strings, and consequently '
     'obey bilinearity, the Leibniz rule and the Jacobi identity. The operands are not modified.',
     ['inputs', 'histories'], 'every pair of small operators with all coefficient relations, nested commutators over a menu',
     'Cancellations between terms and repeated strings only arise for particular combinations; the tests compute two or three commutators.',
     ['qosy/algebra.py', 'qosy/basis.py'],
     [('term-by-term expansion and accumulation', 'qosy/algebra.py:_operation_operator')],
     ['product', 'commutator', 'anticommutator'],
     'bounded exhaustive enumeration of operand pairs on the real code against a matrix reference model',
     'Complete for two-term operators on two orbitals; structured menus beyond. Trusts numpy and the reference matrices.')

prop('P03', 'Text, equality and hash of operator strings agree and malformed strings fail',
     'Two operator strings are equal exactly when they have the same type, prefactor and single-orbital operators on '
     'the same orbitals in the same order, however they were built; equal strings have equal hashes, and parsing the printed form of a string '
     'gives back an equal string. Text that does not begin with a known operator (or a prefactor 1, 1.0 or 1j and a known operator) or does not end with one, labels that are no integers, a requested type other than that of the text, '
     'different numbers of operators and labels, a prefactor that the type does not allow, and an identity without type raise a ValueError.',
     ['inputs'], 'every operator string up to a weight, every spelling, every pair, every single-token corruption',
     'Identity of strings is used as a dictionary key everywhere; the tests parse a dozen names.',
     ['qosy/operatorstring.py'],
     [('constructor validation and name', 'qosy/operatorstring.py:OperatorString.__init__'), ('parser', 'qosy/operatorstring.py:opstring')],
     ['OperatorString', 'opstring', 'str', 'hash', '=='],
     'bounded exhaustive enumeration of strings, spellings and pairs on the real code',
     'Complete within the stated alphabets and labels.')

prop('P04', 'A basis is an ordered set through every history of additions',
     'After any sequence of additions of operator strings or bases (new or in place, with aliasing and with itself), a basis contains every string '
     'added exactly once in order of first addition, and length, membership, position lookup, indexing, iteration, '
     'equality and text agree with that. Operands other than the destination are unchanged.',
     ['histories'], 'all operation sequences up to a depth on two bases sharing strings',
     'Index tables and lists can drift apart or be shared between objects only after particular sequences.',
     ['qosy/basis.py'],
     [('list plus index dictionary', 'qosy/basis.py:Basis.__iadd__'), ('', 'qosy/basis.py:Basis.__add__')],
     ['Basis.__add__', 'Basis.__iadd__', 'Basis.index', 'Basis.__contains__'],
     'explicit-state exploration of all operation sequences to a depth on the real objects, in lock step with a list model',
     'All histories within the depth; deeper ones are assumed to reach no new kind of state.',
     state=[('op_strings / indices', 'the ordered strings and their positions', 'qosy/basis.py:Basis')])

prop('P05', 'Operators are vectors through every history of arithmetic',
     'After any sequence of in-place or ordinary additions, subtractions, negations, scalar multiplications, removals of zeros and '
     'normalisations, every operator has the value that vector-space arithmetic prescribes, with one coefficient per distinct string. No other '
     'operator or basis changes, also when they were built from the same objects.',
     ['histories'], 'all operation sequences up to a depth over three operators of which two share a basis',
     'Aliasing of bases and coefficient arrays shows only in particular sequences; tests do one operation at a time.',
     ['qosy/basis.py'],
     [('copy or extension of basis and coefficients', 'qosy/basis.py:Operator.__iadd__')],
     ['Operator arithmetic', 'Operator.norm', 'Operator.to_vector', 'Operator.__eq__'],
     'explicit-state exploration of all operation sequences to a depth on the real objects, in lock step with a dictionary model',
     'All histories within the depth. In-place subtraction and scalar products of complex numbers included.',
     state=[('coeffs and _basis', 'coefficients aligned with the strings', 'qosy/basis.py:Operator')])

prop('P06', 'A cluster basis holds every k-local string of the cluster exactly once',
     'The cluster basis of k and a set of orbitals contains each operator string of that type with (at most) the requested number of (for fermions, creation operators on) '
     'orbitals, or the requested sizes if a list is given, exactly once, with the identity only on request. The strings are Hermitian and linearly independent. '
     'The order in which the orbitals and sizes are given does not matter, and arguments are not modified.',
     ['inputs'], 'every type, k or set of k values, and cluster of labels in every order',
     'Missing or duplicate strings make all later null spaces silently wrong; tests compare three lengths.',
     ['qosy/basis.py'], [('enumeration of supports and ladder operators', 'qosy/basis.py:cluster_basis')],
     ['cluster_basis'], 'bounded exhaustive enumeration of inputs on the real code against an independent enumeration',
     'Complete for clusters of up to 4 labels; by counting above.')

prop('P07', 'A distance basis holds exactly the strings whose orbitals are within R',
     'For every lattice, k, R and set of allowed orbitals, the distance basis contains exactly once each string of '
     'the requested sizes whose orbitals are allowed and pairwise at (periodic) distance of at most R, and no other string.',
     ['inputs', 'configurations'], 'lattices x boundary conditions x distance shells x k x allowed subsets',
     'Depends on clique finding and periodic distances together; tests check lengths on one or two chains.',
     ['qosy/basis.py', 'qosy/lattice.py', 'qosy/tools.py'],
     [('maximal cliques of the R-neighbour graph', 'qosy/basis.py:distance_basis'), ('', 'qosy/tools.py:maximal_cliques')],
     ['distance_basis'], 'bounded exhaustive enumeration of lattices and parameters on the real code against a brute-force definition',
     'Complete within the listed lattices and shells; R exactly on a shell counts as inside.')

prop('P08', 'Conversion between spins, Majoranas and fermions preserves the operator',
     'Converting any operator string or operator between Pauli, Majorana and fermion form gives an operator with the same matrix under the '
     'Jordan-Wigner embedding (up to the identity part unless it is requested), converting back gives the original, and the '
     'conversion matrix between two complete bases is the corresponding linear map. The argument is not modified.',
     ['inputs'], 'every string up to a weight on several label sets (gaps included), all type pairs, all round trips',
     'Signs and string operators depend on the label pattern; tests convert a few strings.',
     ['qosy/conversion.py'],
     [('Jordan-Wigner and Majorana/fermion expansion', 'qosy/conversion.py:convert'), ('', 'qosy/conversion.py:conversion_matrix')],
     ['convert', 'conversion_matrix'], 'bounded exhaustive enumeration of inputs on the real code against a matrix reference model',
     'Complete on the label sets listed.')

prop('P09', 'Structure constants, Liouvillian and commutant matrices represent the algebra',
     'The structure constants of two bases satisfy [S_a,T_b] = sum_c N^c_ab U_c in the returned extended basis (likewise for anticommutators and '
     'products), the Liouvillian matrix maps coordinates of an operator to coordinates of its (anti)commutator with the given operator, and the '
     'commutant matrix is the Hermitian positive semi-definite quadratic form whose value is the squared norm of that (anti)commutator. '
     'This holds for bases of strings and for lists of operators, including non-orthonormal ones.',
     ['inputs'], 'all small bases in all modes and return forms, operators and operator lists from a menu',
     'Tests look at one structure constant tensor; index and basis extension errors depend on the order of strings.',
     ['qosy/algebra.py'],
     [('sparse construction with an extended basis', 'qosy/algebra.py:structure_constants'), ('', 'qosy/algebra.py:liouvillian_matrix'), ('', 'qosy/algebra.py:commutant_matrix')],
     ['structure_constants', 'liouvillian_matrix', 'commutant_matrix'],
     'bounded exhaustive enumeration of bases and operators on the real code against a matrix reference model',
     'Complete for two-string bases on two orbitals; menus above.')

prop('P10', 'The search for commuting operators is sound and complete',
     'For a basis (or list of operators) and an operator, the eigenvectors returned with (numerically) zero eigenvalue span exactly all combinations '
     'that commute, or anticommute, with the operator, and the eigenvalues are the squared (anti)commutator norms of the eigenvectors. '
     'The dense and the iterative solver agree; if fewer vectors are requested than exist, a warning says so.',
     ['inputs'], 'all one- and two-term operators on two orbitals x bases, menus above, both modes and solvers',
     'Tests check a handful of Hamiltonians; completeness is a statement about all combinations.',
     ['qosy/core.py', 'qosy/algebra.py'], [('null space of the commutant matrix', 'qosy/core.py:commuting_operators')],
     ['commuting_operators'], 'bounded exhaustive enumeration of operators and bases on the real code against the null space of the reference map',
     'Complete within the stated operators; eigenvalue gaps below the documented tolerance are not explored.')

prop('P11', 'The search for invariant operators is sound and complete',
     'For a basis (or list of operators) and a transformation, the vectors with eigenvalue 1 (or -1 in the anticommuting mode) that are returned '
     'span exactly the combinations that the transformation maps to themselves (to minus themselves). The dense and iterative solvers agree; if fewer vectors are requested than exist, a warning says so.',
     ['inputs'], 'all transformations of small orbital sets x all small bases, non-closed bases and operator lists',
     'Bases that the transformation does not map into themselves, and non-orthonormal lists, are not tested.',
     ['qosy/core.py', 'qosy/transformation.py'], [('eigenvectors of the symmetrised superoperator', 'qosy/core.py:invariant_operators')],
     ['invariant_operators'], 'bounded exhaustive enumeration of transformations and bases on the real code against the reference map',
     'Complete within the stated transformations and bases.')

prop('P12', 'The symmetric-operator generator finds exactly the operators with all symmetries',
     'For every sequence of continuous and discrete symmetries added to a generator, each required to commute or '
     'anticommute, the final operators span exactly the part of the basis with all of these properties, and each intermediate result the part for '
     'the symmetries so far (cumulative) or for that symmetry alone (noncumulative), whatever the options for sparse or orthogonal output and the order or repetition of generation calls; '
     'sparsified results have the zeros of an echelon form, and one superoperator with its eigenvalues and eigenvectors is recorded per symmetry, the zero eigenvalues belonging to the operators found.',
     ['histories', 'configurations'], 'all short sequences of symmetries x modes x options x call histories',
     'The result of one symmetry is the input of the next, so defects appear only for particular sequences; tests run two Hamiltonians.',
     ['qosy/core.py', 'qosy/tools.py'],
     [('cumulative restriction to the last result', 'qosy/core.py:SymmetricOperatorGenerator._generate_cumulative'), ('intersection', 'qosy/tools.py:intersection')],
     ['SymmetricOperatorGenerator'], 'explicit-state exploration of all add/generate histories to a depth on the real generator against a reference subspace',
     'All sequences of up to 2 symmetries (11 kinds), 3 of a sub-menu.',
     state=[('projected_output_operators and others', 'results so far', 'qosy/core.py:SymmetricOperatorGenerator')])

prop('P13', 'The generated Lie algebra is closed, minimal and has the stated bracket',
     'Starting from any list of operators (or basis), the generated algebra has linearly independent elements spanning '
     'exactly the smallest space that contains the generators and all nested commutators, its structure constants give '
     'the commutators of the elements, and the computation terminates.',
     ['inputs'], 'all small generating sets, dependent, zero and irregular ones',
     'Closure is an iteration to a fixed point: termination and completeness need many generating sets.',
     ['qosy/algebra.py'], [('closure loop', 'qosy/algebra.py:generate_lie_algebra')],
     ['generate_lie_algebra'], 'bounded exhaustive enumeration of generating sets on the real code against a reference closure',
     'Dimension up to 63.')

prop('P14', 'Each symmetry acts on operators as the (anti)unitary it is named after',
     'Permutation, time reversal (with and without spin), particle-hole, spin flip and spin parity map every operator string and operator to the '
     'operator whose matrix is the conjugate of the original by that (anti)unitary; products map to products and coefficients are transformed '
     'antilinearly exactly by the antiunitary ones.',
     ['inputs'], 'every string on up to four orbitals under every permutation and every named transformation',
     'The tests check one or two images per transformation.',
     ['qosy/transformation.py'], [('rules per transformation', 'qosy/transformation.py')],
     ['Transformation.apply', 'label_permutation', 'time_reversal', 'particle_hole', 'spin_flip_symmetry', 'spin_parity_symmetry'],
     'bounded exhaustive enumeration of strings and transformations on the real code against a matrix reference model',
     'Conventions (c_up->c_dn->-c_up, c->c^dagger) are those documented.')

prop('P15', 'Products, powers and matrices of transformations compose correctly',
     'A product of transformations acts as the right factor followed by the left one, a power as repetition, for every nesting; the matrix of a '
     'transformation in a basis or in a list of operators has the coordinates of the images as columns, so the matrix of a product is the product of the matrices.',
     ['inputs', 'histories'], 'all products of up to three generators, all powers to six, many bases',
     'The tests square one transformation.',
     ['qosy/transformation.py'], [('nested product rule', 'qosy/transformation.py:Transformation.__mul__'), ('', 'qosy/transformation.py:symmetry_matrix')],
     ['Transformation.__mul__', 'Transformation.__pow__', 'symmetry_matrix'],
     'bounded exhaustive enumeration of products and bases on the real code against a matrix reference model', 'As stated.')

prop('P16', 'Symmetrizing a basis gives exactly the operators invariant under the group',
     'Given permutations of the orbitals that generate a group, the symmetrized basis consists of normalized, linearly '
     'independent operators, each invariant under every generator, that span exactly the group averages of the strings of the basis. The arguments are not modified.',
     ['inputs'], 'all generating sets of small symmetric groups x bases',
     'The generators must be closed into a group; the tests use one group.',
     ['qosy/symmetrization.py'], [('group closure and averaging', 'qosy/symmetrization.py:symmetrize_basis')],
     ['symmetrize_basis'], 'bounded exhaustive enumeration of generating sets and bases on the real code against a reference group average',
     'Orbital permutations only, as documented.')

prop('P17', 'Lattices index every orbital, wrap periodically, measure minimum-image distances',
     'In every lattice each orbital of each cell has one label, looking up its position (shifted by any '
     'number of periods along periodic directions) returns that label and positions outside an open lattice are rejected, and the distance of two positions is the smallest over all periodic images.',
     ['inputs', 'configurations'], 'lattice families x sizes x boundary conditions x orbitals x shifts x pairs',
     'Skewed cells, long cylinders and shifts by several periods are not tested.',
     ['qosy/lattice.py'], [('rounded position table', 'qosy/lattice.py:Lattice.index'), ('', 'qosy/lattice.py:Lattice.distance')],
     ['Lattice.index', 'Lattice.distance', 'Lattice.position', 'iteration'],
     'bounded exhaustive enumeration of lattices, orbitals and shifts on the real code against direct geometry', 'As stated.')

prop('P18', 'Space-group symmetries permute orbitals exactly as the map r -> Rr+d does',
     'For every lattice, boundary condition, orthogonal matrix R and displacement d, the space-group symmetry maps the orbital at r to the orbital of '
     'the same name at Rr+d (modulo the periods) and hence composes like the space group; if that is not a permutation of the orbitals, a ValueError is raised.',
     ['inputs', 'configurations'], 'lattices x boundary conditions x point group x displacements beyond two periods',
     'The tests use one square and one hexagonal cluster about the origin.',
     ['qosy/transformation.py', 'qosy/lattice.py'], [('lookup of the moved positions', 'qosy/transformation.py:space_group_symmetry')],
     ['space_group_symmetry'], 'bounded exhaustive enumeration of lattices and space-group operations on the real code against direct geometry',
     'Point groups of the square, hexagonal and cubic systems.')

prop('P19', 'A symmetrized lattice is the enlarged cell, invariant under the point group',
     'For every lattice and set of point-group generators, the symmetrized lattice has the lattice vectors enlarged as requested and, modulo the periodic '
     'ones, contains each atom of the enlarged cell and each of its images under the generated group exactly once with its orbitals, so that it is '
     'invariant under the whole group when the group preserves the periods. The argument is not modified.',
     ['inputs', 'configurations'], 'crystals x generator sets x boundary conditions x numbers of expansions',
     'No test calls it.',
     ['qosy/symmetrization.py'], [('expansion, group images, duplicate removal', 'qosy/symmetrization.py:symmetrize_lattice')],
     ['symmetrize_lattice'], 'bounded exhaustive enumeration of crystals and generators on the real code against direct geometry', 'Single-cell crystals.')

prop('P20', 'Matrices, coordinates and states represent the same spin operators',
     'The matrix of every spin operator string or operator on n orbitals is its tensor product (orbital 0 leftmost), the coordinates of a matrix in a '
     'basis are its normalized overlaps and reassemble to the operator, and applying an orbital permutation to a state is consistent with '
     'applying it to operators. Arguments are not modified and unsupported ones raise an error.',
     ['inputs'], 'every spin string on up to five orbitals, every elementary matrix, every permutation on every basis state',
     'The tests compare a few random strings on two orbitals and two permutations.',
     ['qosy/diagonalization.py'], [('bit operations on configurations', 'qosy/diagonalization.py:to_matrix'), ('', 'qosy/diagonalization.py:apply_transformation')],
     ['to_matrix', 'to_vector', 'to_operator', 'apply_transformation'],
     'bounded exhaustive enumeration of strings, matrices and permutations on the real code against tensor products', 'Spin (Pauli) operators, as documented.')

prop('P21', 'Reduced density matrices are partial traces; Renyi entropies follow from them',
     'For every state (or pair of states) and every list of remaining orbitals in any order, the reduced density matrix is the partial trace of |psi><psi| '
     '(|psi1><psi2|) over the other orbitals in that order, and the Renyi entropy of order n is log(tr rho^n)/(1-n), hence equal for '
     'complementary parts of a pure state.',
     ['inputs'], 'basis states, two-state superpositions and dense states x every ordered subset of orbitals',
     'The tests trace two states in sorted order.',
     ['qosy/diagonalization.py'], [('bit reshuffling of configurations', 'qosy/diagonalization.py:reduced_density_matrix')],
     ['reduced_density_matrix', 'renyi_entropy'],
     'bounded exhaustive enumeration of states and orbital subsets on the real code against the partial trace', 'Partial traces are linear in |psi><psi|, and all basis-state pairs are covered for n<=3.')

prop('P22', 'Exact diagonalization returns the eigenpairs of the operator',
     'For every operator of any type, diagonalization on n orbitals returns its eigenvalues (ascending for Hermitian operators; without the constant for fermion operators, which '
     'are converted to spins without identity) with matching orthonormal eigenvectors, and asking for k levels returns the k lowest ones.',
     ['inputs'], 'all small operators of all types, chains and rings with varying couplings, full and partial spectra',
     'The tests check three ground-state energies.',
     ['qosy/diagonalization.py', 'qosy/conversion.py'], [('conversion and matrix construction', 'qosy/diagonalization.py:diagonalize')],
     ['diagonalize'], 'bounded exhaustive enumeration of operators on the real code against a matrix reference model', 'Trusts LAPACK for the reference spectrum.')

prop('P23', 'Free-fermion solvers agree with the many-body operator',
     'For every quadratic fermion or Majorana operator, the ground-state energy and non-negative quasi-particle energies generate its many-body '
     'spectrum (constant omitted), and the returned Majorana, fermion, Bogoliubov-de Gennes and one-body modes diagonalize it, also with zero modes and degeneracies. '
     'Operators that are not quadratic are rejected.',
     ['inputs'], 'all sums of up to three (four) quadratic strings on up to three orbitals; chains with zero modes and flux',
     'The tests check sorted energies of three translation-invariant models; zero modes in other places were wrong.',
     ['qosy/diagonalization.py'], [('Schur form and pairing of blocks', 'qosy/diagonalization.py:diagonalize_quadratic'), ('', 'qosy/diagonalization.py:diagonalize_bdg'), ('', 'qosy/diagonalization.py:diagonalize_quadratic_tightbinding')],
     ['diagonalize_quadratic', 'diagonalize_bdg', 'diagonalize_quadratic_tightbinding'],
     'bounded exhaustive enumeration of quadratic operators on the real code against many-body matrices', 'Real coefficients, up to six orbitals.')

prop('P24', 'Shared exploration data never changes what an exploration returns',
     'Through every history of explorations sharing their precomputed data (other bases, other operators, restricted labels), _explore returns the matrix and '
     'the extended basis of the commutators of the given basis with the given operator, as if nothing had been precomputed, and modifies nothing but the shared data.',
     ['histories'], 'all histories of up to four explorations over menus of bases, operators and label sets',
     'The tests repeat explorations with one operator; entries of terms first seen later were missing.',
     ['qosy/algorithms.py'], [('incremental structure constants', 'qosy/algorithms.py:_explore')], ['_explore', 'explored_data'],
     'explicit-state exploration of all call histories to a depth on the real cache against a matrix reference model',
     'Menus of 8 bases, 6 operators and 4 label sets on three orbitals.',
     state=[('explored_basis / explored_extended_basis / explored_s_constants_data', 'what has been commuted so far', 'qosy/algorithms.py:_explore')])

prop('P25', 'Searches for commuting operators report true norms and the best operator',
     'Every selected-CI search returns, for each step, a normalized operator O that minimizes |[H,O]|^2 (summed over the given operators) in its basis under the requested constraints, '
     'together with the true |[H,O]|^2 (in the norm of the string coefficients), bases that keep the truncated strings of the previous step and grow by double commutators with H (selected_ci_greedy_simple: by the new string with the largest coefficient in [H,A], A the largest term of [H,O] that gives one), and '
     'the best operator of all steps. Arguments are not modified, and shared exploration data do not matter.',
     ['inputs', 'histories'], 'search functions x Hamiltonians x initial operators x numbers of steps x truncations x shared data',
     'No test calls a search; most of them failed on every input.',
     ['qosy/algorithms.py'], [('expand, minimize, truncate', 'qosy/algorithms.py:selected_ci'), ('', 'qosy/algorithms.py:selected_ci_greedy')],
     ['selected_ci', 'selected_ci_simple', 'selected_ci_sweep', 'selected_ci_greedy_simple', 'selected_ci_greedy'],
     'bounded exhaustive enumeration of search runs on the real code, every step checked against a matrix reference model',
     'Up to four sites. Starting vectors of ARPACK are pinned.')

prop('P26', 'Permutation, sorting and comparison helpers obey their algebra',
     'The sign of a permutation is multiplicative under composition; the sorting sign is the sign of the stable sorting permutation for '
     'both methods; the label comparison is a total order by length, then lexicographic; argsort sorts stably under every given comparison; duplicate removal keeps, in order, the '
     'first of each class. Arguments are not modified.',
     ['inputs'], 'all permutations, vectors, tuples and lists up to a size',
     'The tests check a few random permutations.',
     ['qosy/tools.py'], [('', 'qosy/tools.py:sign'), ('', 'qosy/tools.py:sort_sign'), ('', 'qosy/tools.py:compare'), ('', 'qosy/tools.py:argsort')],
     ['sign', 'sort_sign', 'compare', 'argsort', 'remove_duplicates', 'compose_permutations'],
     'bounded exhaustive enumeration of inputs on the real code against definitions', 'Complete up to the stated sizes.')

prop('P27', 'Maximal cliques and connected components are exactly those of the graph',
     'For every undirected graph, maximal_cliques returns every maximal clique exactly once and connected_components the partition of the nodes into '
     'components, in both search modes and for every order of the adjacency lists.',
     ['inputs'], 'every labelled graph on up to six (seven) nodes', 'The tests use three small graphs.',
     ['qosy/tools.py'], [('Bron-Kerbosch with pivoting', 'qosy/tools.py:maximal_cliques'), ('', 'qosy/tools.py:connected_components')],
     ['maximal_cliques', 'connected_components'],
     'bounded exhaustive enumeration of all graphs on the real code against brute force', 'Complete up to six nodes.')

prop('P28', 'Subspace helpers compute orthonormal bases of the right spaces',
     'For every matrix, gram_schmidt returns orthonormal columns that span, from left to right, the columns of the matrix whose independent part exceeds the tolerance; intersection returns an '
     'orthonormal basis of the common space of two spaces; sparsify returns normalized (orthogonal, if requested) vectors ordered by sparsity with the span of the given '
     'independent ones and at least the zeros of an echelon form. Dense and sparse matrices are treated alike and arguments are not modified.',
     ['inputs'], 'all small matrices, all pairs of a family of subspaces', 'The tests use a few random matrices in general position.',
     ['qosy/tools.py'], [('', 'qosy/tools.py:gram_schmidt'), ('', 'qosy/tools.py:intersection'), ('', 'qosy/tools.py:sparsify')],
     ['gram_schmidt', 'intersection', 'sparsify'],
     'bounded exhaustive enumeration of matrices and subspaces on the real code against linear algebra definitions', 'Up to four dimensions.')

prop('P29', 'The greedy search follows the largest terms and its stopping rules',
     'At each step, selected_ci_greedy grows the truncated operator O of the previous step by the requested number of strings with the largest coefficients in [H,[H,O]], reached through '
     'the requested number of largest terms of [H,O] (for each given operator; plus anticommutators of terms of O and images under the given transformations, as requested). '
     'With a target, the operator found is the normalized projection of the target (later of the best operator) onto the basis. The search stops exactly when a stopping rule (norm, relative '
     'change, fidelity) applies, always terminates, and reports true norms. Searches for several operators at once return the orthonormal operators of lowest norms.',
     ['inputs', 'histories'], 'Hamiltonians x initial operators x numbers of terms x truncations x targets, stopping rules and constraints',
     'No test calls it; wrong choices of terms still give plausible results.',
     ['qosy/algorithms.py'], [('largest terms, truncation, stopping', 'qosy/algorithms.py:selected_ci_greedy'), ('projection', 'qosy/algorithms.py:highest_fidelity_operator')],
     ['selected_ci_greedy', 'highest_fidelity_operator', 'selected_ci_greedy_many_ops2'],
     'bounded exhaustive enumeration of search runs on the real code, in lock step with a reference step',
     'Up to four sites. Exact ties between coefficients leave the choice open.')

prop('P30', 'Replacing, relabelling and printing text is exact',
     'replace and swap substitute all names simultaneously, preferring longer ones; relabelled text has every orbital label replaced by the cell, atom and name of that '
     'orbital of the lattice; print_operators and print_vectors show exactly the terms above the tolerance, converted, normalized, relabelled and filtered as '
     'requested. Arguments are not modified.',
     ['inputs', 'configurations'], 'all small substitution tables and texts; all orbitals of many lattices; all small operators x options',
     'Labels that are prefixes of others and texts that create new matches are not tested.',
     ['qosy/tools.py', 'qosy/visualization.py'], [('', 'qosy/tools.py:replace'), ('', 'qosy/visualization.py:relabel_orbitals'), ('', 'qosy/visualization.py:print_operators')],
     ['replace', 'swap', 'relabel_orbitals', 'print_operators', 'print_vectors'],
     'bounded exhaustive enumeration of tables, texts, lattices and operators on the real code against direct definitions', 'Plots are not covered.')

prop('P31', 'Ladder operators found are all and only those in the basis',
     'The ladder-operator search returns, for a Hermitian operator O and a Basis, a set of normalized, independent operators R in the space of the Basis with [O, R] = l R, l > 0, which is complete: '
     'as many for each l as there are. The inverse search returns an operator O in the space of the Basis with [O, R] = d R, d > 0, or None exactly if there is none, and independent operators that span those '
     'commuting with R. With and without sparsification, as vectors and as Operators; arguments are not modified.',
     ['inputs', 'configurations'], 'Hermitian operators x bases (closed and not) x output options; ladder operators found and arbitrary operators',
     'No test calls them; both missed solutions and returned wrong ones.',
     ['qosy/core.py'], [('eigenvectors that stay in the basis', 'qosy/core.py:_ladder_operators'), ('particular and homogeneous solutions', 'qosy/core.py:_inverse_ladder_operators')],
     ['_ladder_operators', '_inverse_ladder_operators'],
     'bounded exhaustive enumeration of operators and bases on the real code against a matrix reference model', 'Up to three (four for free fermions) orbitals.')

prop('P32', 'Invalid and mixed-type operations are refused without side effects',
     'Sums, differences (also in place), products and (anti)commutators of Operators or of strings of different types, products of Fermion strings, duplicate strings in a Basis, unknown operation modes, types '
     'and names, permutations that are none and objects of wrong types raise an exception (ValueError, TypeError or NotImplementedError where documented in the code) instead of giving a result. '
     'A refused operation leaves all objects as they were, and any history of valid and refused operations gives the same Operator or Basis as its valid operations alone.',
     ['inputs', 'histories'], 'pairs of Operators of all types; invalid objects x functions; operation histories', 'Few tests expect exceptions, and none looks at the objects afterwards.',
     ['qosy/basis.py', 'qosy/algebra.py', 'qosy/conversion.py', 'qosy/transformation.py', 'qosy/operatorstring.py'],
     [('type checks', 'qosy/algebra.py:_operation_operator'), ('', 'qosy/basis.py:Operator.__iadd__'), ('', 'qosy/basis.py:Basis.__iadd__')],
     ['__add__', '__iadd__', 'product', 'commutator', 'convert', 'spin_flip_symmetry'],
     'bounded exhaustive enumeration of inputs and operation histories on the real code against a dictionary model', 'Strings with operators of mixed types and Bases of mixed strings are accepted by the code and not claimed.')
prop('P33', 'Sweeping searches go site by site and obey filters, weights and constraints',
     'selected_ci_sweep sweeps forth and back over the sites of the current basis; at each site the basis grows by the double commutators with the terms of H on the two, then four, sites around it '
     '(and with the non-unitary part of the last operator, if requested) and is filtered; known bases are skipped; the operator found minimizes |[H,O]|^2 (relative to the given weights of the strings) under the '
     'given orthogonality constraints, or is the one chosen by the given filter from the lowest num_evecs below the threshold; and the basis is truncated by the (filtered) lowest vector. selected_ci '
     'obeys the same options with full expansions.',
     ['inputs', 'histories'], 'Hamiltonians x initial operators x sweeps x truncations x combinations of filters, weights, thresholds and constraints',
     'No test uses the options; a wrong choice of sites or vectors still gives plausible operators.',
     ['qosy/algorithms.py'], [('sites, expansion, eigenvalue selection', 'qosy/algorithms.py:selected_ci_sweep'), ('', 'qosy/algorithms.py:selected_ci'), ('constraints', 'qosy/algorithms.py:_orthogonalize_com_matrix')],
     ['selected_ci_sweep', 'selected_ci'],
     'bounded exhaustive enumeration of search runs on the real code, in lock step with a reference sweep', 'Two to four sites. Runs with exact ties are compared up to the tie.')
prop('P34', 'Plots show every orbital and every term where it belongs',
     'plot draws every orbital of a lattice at its position, and the labels, lattice vectors, unit cell and (for reduced 2D lattices) Wigner-Seitz cell requested. plot_operator draws each term of an Operator on its '
     'orbitals: markers in the color of each operator for one and two orbitals, a line for two, an ordered polygon for more (1D and 2D); blue for positive and red for negative coefficients c with opacity '
     '0.5 |Re c| / max |c|. Terms longer than distance_cutoff and the identity are not drawn; imaginary coefficients give a warning. Arguments are not modified; more than three dimensions are refused.',
     ['inputs', 'configurations'], 'many lattices x plot options; all strings on few orbitals x lattices x cutoffs', 'No test makes a plot.',
     ['qosy/visualization.py'], [('', 'qosy/visualization.py:plot'), ('', 'qosy/visualization.py:plot_operator')],
     ['plot', 'plot_operator', '_plot_opstring'],
     'bounded exhaustive enumeration of lattices and operators on the real code, reading back the drawn artists (headless matplotlib)', 'Sizes of markers, fonts and styles are not specified; interactive display is replaced by the Agg backend.')
prop('P35', 'From lattices and symmetries to operators and back, as a whole',
     'For every lattice, k, R and set of symmetries (space group, time reversal, particle-hole, spin flip and parity, total charges and spins), the operators found in the distance basis - by the generator in '
     'either mode, by restricting to one symmetry after the other, or within the basis symmetrized first - span exactly all operators of that range with those symmetries. Conversely, the search for the '
     'symmetries of such an operator finds them, and its matrix, spectrum and ground states have them. The basis is not modified.',
     ['inputs', 'configurations'], 'lattices x ranges x Pauli/Majorana x (sequences of) symmetries x modes', 'The tests run single symmetries on chains and compare counts; parts that are each right can still disagree on conventions.',
     ['qosy/core.py', 'qosy/basis.py', 'qosy/transformation.py', 'qosy/symmetrization.py'],
     [('', 'qosy/core.py:SymmetricOperatorGenerator'), ('', 'qosy/basis.py:distance_basis'), ('', 'qosy/transformation.py:space_group_symmetry'), ('', 'qosy/symmetrization.py:symmetrize_basis'), ('', 'qosy/core.py:commuting_operators')],
     ['SymmetricOperatorGenerator', 'distance_basis', 'symmetrize_basis', 'commuting_operators', 'invariant_operators'],
     'bounded exhaustive enumeration of whole pipelines on the real code against matrices computed from the geometry', 'Up to six orbitals.')
prop('P36', 'Results depend on the arguments only: no call influences another',
     'What a call returns (or that it fails) is determined by its arguments. It does not depend on which calls were made before it in the process, with what arguments (of another type, mode, size, order or '
     'flag), whether they failed, nor on what the caller then did to the results they returned: two calls never share a result or a hidden record. Calls do not modify their arguments, except for the object whose '
     'purpose it is to change (+=, normalize, add_symmetry, generate, add_atom, and the explored_data of selected_ci).',
     ['inputs', 'histories'], 'all ordered pairs of some 360 calls of every public function with near-colliding arguments, the first result overwritten by the caller; triples of core calls',
     'Tests run one call after the other in one fixed order; whether an earlier call matters is a property of all histories.',
     ['qosy'], [('parsing and types', 'qosy/operatorstring.py:opstring'), ('shared dictionaries and bases', 'qosy/basis.py:Operator'), ('structure constants', 'qosy/algebra.py:structure_constants'), ('symmetries', 'qosy/transformation.py:Transformation'), ('explored data', 'qosy/algorithms.py:_explore')],
     ['opstring', 'Operator', 'Basis', 'convert', 'structure_constants', 'Transformation', 'SymmetricOperatorGenerator', 'selected_ci'],
     'bounded exhaustive exploration of histories of calls on the real code, each in a fresh forked process, against each call alone', 'Histories of two calls (three for core calls); argument values are fixed.')
