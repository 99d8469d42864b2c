"""Oracles and costs of the checks, results of the planted bugs (for tools/design.py)."""
ORACLE = {
    'P01': ('matrices (mc/ref.py) of both operands; exact monomial algebra (mc/weyl.py) for the long strings.', '55 s'),
    'P02': ('matrices; bilinear identities evaluated on the matrices of the returned operators.', '80 s'),
    'P03': ('a canonical key (type, prefactor, operators, labels) computed from the spelling that was generated; the list of corruptions is by construction invalid.', '5 s'),
    'P04': ('a Python list without duplicates, updated in lock step; all reachable states up to the depth are visited (breadth first over operation sequences).', '15 s'),
    'P05': ('dictionaries string -> coefficient in lock step, with an explicit model of which operators share a Basis.', '20 s'),
    'P06': ('brute-force construction of all strings with the allowed supports as canonical keys; rank of their matrices.', '10 s'),
    'P07': ('brute force over all subsets of orbitals with distances from exact lattice coordinates.', '30 s'),
    'P08': ('matrices of the original and of the converted operators (Jordan-Wigner), conversion matrices column by column.', '20 s'),
    'P09': ('coefficients of matrix products in the trace-orthogonal string basis.', '40 s'),
    'P10': ('kernel of the matrix of O -> [H,O] (or anticommutator) restricted to the space, by SVD of matrices.', '50 s'),
    'P11': ('kernel of (T -+ 1) restricted to the space, from reftrans.', '30 s'),
    'P12': ('intersection of the kernels of all symmetries, with the recorded intermediate spaces.', '60 s'),
    'P13': ('closure of the matrices under commutators by rank computations (fixed point).', '80-100 s'),
    'P14': ('the action on generators extended multiplicatively and (anti)linearly, in matrices and in exact monomials.', '15 s'),
    'P15': ('composition of the reference actions; matrices of the reference action in each basis.', '40 s'),
    'P16': ('orbits under the complete permutation group (closure), averaged with signs from the reference action.', '20 s'),
    'P17': ('exact cell coordinates; brute-force minimum over many images.', '40 s'),
    'P18': ('rotation and displacement of exact positions, matched to orbitals modulo the periods.', '65 s'),
    'P19': ('brute-force enlarged cell, closure of the matrix group and images reduced modulo the periodic vectors.', '40 s'),
    'P20': ('Kronecker products; permutation of tensor factors.', '20 s'),
    'P21': ('index-by-index partial traces; eigenvalues.', '20 s'),
    'P22': ('dense eigenvalues of the reference matrix; residuals of every vector.', '30 s'),
    'P23': ('the spectrum of the many-body matrix must be that generated by the quasi-particle energies; Bogoliubov operators are checked as matrices.', '40 s'),
    'P24': ('coefficients of the commutator matrices, entry by entry, after every exploration of a history.', '40 s'),
    'P25': ('matrix of O -> [H,O]; minimum eigenvalue in the reported basis, brute-force growth of the bases.', '30 s'),
    'P26': ('definitions (inversion counts, comparison of tuples, stable sorts).', '20 s'),
    'P27': ('brute force over all subsets of nodes / union-find.', '15 s'),
    'P28': ('projectors, ranks and residuals.', '40 s'),
    'P29': ('one step of the search computed with the matrix of O -> [H,O] and brute-force commutators from the previous reported operator; sure and possible strings where magnitudes tie.', '35 s'),
    'P31': ('largest subspace of the basis that is invariant under [O, .], from matrices; least squares for the way back; the defining equations for every operator returned.', '90 s'),
    'P32': ('dictionaries of terms; complete snapshots of all objects before and after each refused call.', '35 s'),
    'P33': ('a reference sweep: expansions from brute-force commutators restricted to the sites, the truncation recomputed from the reported vectors, weighted and constrained eigenvalue problems solved densely.', '45 s'),
    'P34': ('the geometry of the lattice computed from its unit cell, against the artists (points, lines, polygons, texts, colors, opacities) read back from the figures.', '45 s'),
    'P35': ('the null space of all symmetries as superoperators on dense matrices of the strings enumerated from the geometry; the independent Jordan-Wigner matrices and maps of the symmetries.', '120 s'),
    'P36': ('each call alone in a fresh process with the same arguments (differential: no model of the results is needed; what they should be is decided by the other properties).', '80 s'),
    'P30': ('a left-to-right longest-match scanner; direct formatting of the reference operator.', '20 s'),
}
MISSED = {
    's125-relabel-memo': 'missed first; P36 got four lattices of the same size in every function of a lattice',
    's73-product-tol': 'missed first; P02 got products with coefficients from 1e-9 to 1e6',
    's75-cluster-k-range': 'missed first; P06 got the lists of sizes in every order and with repetition',
    's84-remove-dup-adjacent': 'missed first; P26 got long lists with distant duplicates',
    's100-explore-rows': 'missed first; P24 got all pairs of strings with all pairs of terms',
    's08-timerev-six': 'missed first; P14 got strings of up to 7 orbitals, compared in exact monomials',
    's09-sz-both-names': 'missed first; P14 got lattices that mix spinless and spinful orbitals',
    's25-cumulative-tol': 'missed first; P12 got a complex list of operators and a non-Hermitian symmetry',
    's54-fidelity-norm': 'missed first; P29 was added for the options of the greedy search',
    's62-invariant-transpose': 'missed first; P11 got lists of operators with complex coefficients',
    's63-lie-real-vectors': 'missed first; P13 got ladder-type generators with complex coefficients',
    's68-print-keyword-dup': 'missed first; P30 now demands that every printed line matches a different term, in order',
    's69-ladder-degenerate-gap': 'missed first; P31 got operators with close frequencies',
    's56-expand-orbs': 'missed first; P19 got crystals whose images coincide with other atoms',
}
