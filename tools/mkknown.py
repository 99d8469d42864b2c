#!/usr/bin/env python3
"""Writes known_findings.json (findings kept by hand below; fixed entries)."""
import json
import os
import subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
FIXED = [
    ('P03', 'inconsistent operators and labels', 'an operator string whose numbers of operators and labels differ raised NameError instead of ValueError'),
    ('P03', 'Hermitian prefactor', 'a Majorana string built with an explicit prefactor kept a non-Hermitian prefactor'),
    ('P03', 'equal names and hashes', 'equal operator strings built from different types of labels had different names and hashes'),
    ('P03', 'different prefactors in equality', 'operator strings with different prefactors compared equal'),
    ('P05', 'shared Basis', 'in-place addition to an operator extended the Basis shared with another operator'),
    ('P06', 'annihilation operators of cluster_basis', 'fermion strings of a cluster basis had annihilation operators in an order that changes their sign'),
    ('P17', 'skewed lattices', 'the distance on periodic lattices with skewed vectors was not the minimum over images'),
    ('P17', 'more than one period', 'positions more than one period outside of a periodic lattice were not found'),
    ('P17', 'numpy integers', 'numpy integers were not accepted as orbital indices by the distance'),
    ('P24', 'terms of new operators', 'explorations with shared data missed the terms of operators seen for the first time'),
    ('P25', 'matrix returned by _explore', 'selected_ci and other searches crashed on every input'),
    ('P25', 'even if the initial basis is closed', 'the searches returned no operator when the initial basis was closed'),
    ('P25', 'best constrained operator', 'selected_ci_greedy with several operators or orthogonality constraints returned an operator violating them'),
    ('P26', 'elements in argsort', 'argsort with a comparison function compared indices instead of elements'),
    ('P28', 'sparse matrices in sparsify', 'sparsify failed on (documented) sparse matrices'),
    ('P30', 'nothing to replace', 'replace failed on an empty table'),
    ('P30', 'Operator without terms', 'printing a zero operator with the inf-norm failed'),
    ('P28', 'zero first vector', 'a zero first vector was kept by gram_schmidt'),
    ('P30', 'parentheses', 'swapping names failed on strings with parentheses'),
    ('P07', 'identity in distance_basis', 'the identity was missing from a distance basis built with the identity'),
    ('P08', 'Fermion identity', 'the fermion identity was converted to the identity although it was to be left out'),
    ('P08', 'identity in conversion_matrix', 'the conversion matrix lost the identity component'),
    ('P11', 'non-orthonormal Operators', 'invariant operators were missed for non-orthonormal lists of operators'),
    ('P12', 'non-orthonormal Operators', 'the generator missed operators (e.g. Heisenberg symmetry followed by a permutation)'),
    ('P12', 'span of the vectors orthogonalized', 'the noncumulative generator returned a wrong space after orthogonalization'),
    ('P12', 'skipped symmetries', 'the recorded results were misaligned with the symmetries after an empty result'),
    ('P11', 'sparse solver of invariant', 'the sparse solver of invariant_operators always failed on a singular matrix'),
    ('P12', 'repeated noncumulative', 'repeated noncumulative generation used stale results'),
    ('P13', 'terminate generate_lie', 'generate_lie_algebra did not terminate in the presence of rounding errors'),
    ('P16', 'symmetry group in symmetrize_basis', 'the group of symmetrize_basis was incomplete or contained the identity twice'),
]
FIXED += [
    ('P18', 'do not permute the orbitals', 'a rotation that maps two orbitals of a torus to one was accepted as a permutation'),
    ('P19', 'point group in symmetrize_lattice', 'the point group was incomplete, so that images of atoms were missing'),
    ('P19', 'in every direction in symmetrize_lattice', 'atoms of the cell enlarged along all but the last direction were missing'),
    ('P23', 'misaligning the energies', 'zero modes in the middle of the spectrum made diagonalize_quadratic return wrong energies'),
    ('P23', 'fermionic eigenvectors of diagonalize_quadratic', 'the fermionic eigenvectors were overwritten and had a sign error'),
    ('P20', 'make to_operator work', 'to_operator raised NameError/TypeError for every input'),
    ('P23', 'cancelled pairing terms', 'tight-binding operators in Majorana form were rejected'),
    ('P29', 'fidelity cannot be reached', 'selected_ci_greedy did not terminate if a target fidelity could not be reached'),
    ('P29', 'with their own coefficients', 'the greedy searches continued with wrong coefficients of the truncated operators'),
    ('P29', 'constraints in selected_ci_greedy', 'norms reported with transformations or with a target and constraints included the constraints'),
    ('P29', 'constraints in selected_ci_greedy_many_ops2', 'norms reported with constraints included the constraints'),
    ('P31', 'only the ladder operators in the given basis', '_ladder_operators missed operators and returned operators that are not ladder operators'),
    ('P31', 'inverse ladder operators in the given basis', '_inverse_ladder_operators missed commuting operators and returned operators that are no solutions'),
    ('P32', 'operator strings of different types', 'products of strings of different types on different orbitals gave a meaningless string'),
    ('P32', 'unknown operation modes', 'an unknown operation_mode (such as commute) made all Pauli strings commute with every operator'),
    ('P33', 'keep orthogonality and symmetry constraints', 'with orth_ops or transformations, searches with 20 strings and more failed (Factor is exactly singular) or missed the best operator by 0.08, e.g. '
     'selected_ci_sweep with orth_ops=[H] for an Ising pair, and overlaps of 0.08 with the given operators remained'),
    ('P20', 'permute configurations of 64', 'apply_transformation_conf overflowed for 64 and more orbitals: negative or lost bits, e.g. for the reversal of 64 sites'),
    ('P17', 'whose positions are rounded differently', 'in open lattices, index did not find orbitals at positions that end after nine digits (1/512) when their position had roundoff errors of 1e-16'),
    ('P34', 'plot operator strings on three and more orbitals of a chain', 'plot_operator failed (QhullError) for strings on three and more orbitals of a chain'),
    ('P34', 'draw the markers of two-orbital operator strings', 'two-orbital strings had no markers of their operators, or markers of the wrong color'),
    ('P34', 'negative imaginary part', 'no warning for coefficients with a negative imaginary part'),
    ('P34', 'identity term', 'plot_operator raised an IndexError for operators with an identity term'),
    ('P34', 'all unit cells in plots of 3D lattices', 'orbitals were labelled in one unit cell of 3D lattices only'),
    ('P29', 'as many eigenvectors as the target fidelity needs', 'selected_ci_greedy raised a ValueError when a target fidelity needed 40 or more eigenvectors'),
    ('P29', 'lists of basis sizes in selected_ci_greedy_many_ops', 'selected_ci_greedy_many_ops raised a TypeError for lists of basis sizes'),
    ('P12', 'diagonalize fully when num_vecs is not smaller', 'with num_vecs for a later symmetry, generate(mode=noncumulative) always raised a TypeError (and the cumulative mode for num_vecs larger than the space left)'),
]


def commit(subject):
    out = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--fixed-strings', '--grep', subject, '3976c15..HEAD'],
                         check=True, capture_output=True, text=True).stdout.splitlines()
    out = [x.split()[0] for x in [x for x in out if x.endswith(subject)] or out]
    assert len(out) == 1, (subject, out)
    return out[0]


FIXED = [(p, commit(c), w) for p, c, w in FIXED]
with open(os.path.join(root, 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS,
               'fixed': ['fixed: property=%s %s %s' % x for x in FIXED]}, f, indent=1)
    f.write('\n')
