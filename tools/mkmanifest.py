#!/usr/bin/env python3
"""Regenerates MANIFEST.json and properties.jsonl from the tables below."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from mkprops import P, NA  # noqa: E402

CLAIMED = {
 'C01': ('alias and effect analysis over an abstract interpretation of every toolbox function (views, in-place operators and '
         'methods, memoised and default objects)',
         'Every path of every toolbox function; loops by inductive fold, external numpy/scipy calls through a table of views and writers.'),
 'C02': ('format inference: abstract interpretation of every toolbox function in the lattice of matrix formats (sparse, array, matrix, number)',
         'Every constructor and transformation with every format argument; undecided formats are listed in the evidence.'),
 'C04': ('adjoint normal forms of operator products over an abstract interpretation of Hamiltonians, couplings and term assembly',
         'Every library Hamiltonian and coupling, terms of one to three systems, real and complex frequencies.'),
 'C07': ('dependency analysis of cached values: abstract interpretation of client programs over the real classes, comparing what a '
         'matrix derives from across histories',
         'Every public parameter of systems, terms, couplings, protocols, gates, updates and simulations; every reading order of all observers '
         '(thorough: every pair, repeated evaluation, and every pair of changes).'),
 'C08': ('dependency and reachability analysis of change notifications: abstract interpretation of client programs that compose the real '
         'classes in every supported way',
         'Nested composites, couplings across levels, protocols of protocols, shared steps, bound simulations; composing before and after evaluation.'),
 'C09': ('product shapes of propagators with adjoint and copy steps over an abstract interpretation of client programs',
         'Repeated and adjoint steps of gates, free evolutions and protocols, in protocols and on their own, every change and reading order.'),
 'C03': ('banded-coefficient abstract domain: elements of each operator as polynomials of the row, with symbolic diagonal bounds',
         'Every elementary operator for a symbolic dimension or spin, both formats, spin or dimension given.'),
 'C05': ('algebraic normal form of super-operators, generators and vectorisation, with Kronecker, transpose and conjugation laws '
         'applied to function summaries',
         'Every super-operator, generator, vectorisation and gate super-operator for symbolic matrices; up to three collapse operators.'),
 'C06': ('algebraic normal form of propagators, rotations and gates against their defining exponentials; symbolic product of constant matrices',
         'Every propagator, rotation and cavity exponential for symbolic arguments; gates on one to three systems, every axis and implementation.'),
 'C10': ('abstract interpretation of the alias-aware classes against the specification of their dictionary and list operations',
         'Every method of the alias containers, every dispatch site of alias comparison, for arbitrary keys and contents.'),
 'C13': ('relational abstract interpretation of the serial and the parallel run of one simulation over abstract heaps',
         'Runs with one to three protocols and up to three sweep axes of symbolic length; workers are modelled as isolated copies.'),
 'C14': ('event-order analysis of callbacks, resets and evolution calls over every path of a run and of a sweep point',
         'Every path of the run, point and evolution functions; one to three protocols and systems, symbolic number of time steps.'),
 'C15': ('heap freshness and ownership analysis of all result containers over whole runs and consecutive sweep points',
         'Every result container of the class hierarchy; runs following runs, two symbolic sweep points.'),
 'C16': ('mixed-radix normal forms of sweep indices, abstract heaps for applying values, reshaping results and removing sweeps',
         'One to three sweeps in every combination of axes with symbolic lengths and points; result shapes of up to three (thorough: four) axes.'),
 'C17': ('product normal form of composed propagators and evolved states over abstract heaps',
         'Every protocol class and evolution function; one to three steps, symbolic samples and time points.'),
 'C18': ('abstract interpretation of rejecting paths over abstract heaps: every reading after the error against the reading before it',
         'Ninety invalid assignments and additions on single, composite, nested and untyped systems, couplings and gates; symbolic valid parameters.'),
 'C19': ('flow-sensitive may-alias dataflow of default values with interprocedural mutation, return and store summaries',
         'Every function, method, nested function and lambda of the package with a default value.'),
 'C11': ('abstract interpretation of object creation with symbolic instance counters; concrete-heap creation histories from the initial counters',
         'Every named class of the library, user-created and internal; histories with repeated creations, aliases equal to later names, resets and (thorough) class pairs.'),
 'C12': ('abstract interpretation of state gathering and restoring over abstract heaps: field-by-field comparison of the restored with the sent object',
         'One object of every named class and every object in the heaps of composites, swept simulations, protocols and terms.'),
 'C20': ('abstract interpretation of client programs over the real classes; monomial normal forms of the dimensions in the abstract heap',
         'Every way of adding, nesting, resizing and removing systems in flat and three-level composites with symbolic dimensions; thorough: every ordered pair of them.'),
 'C21': ('resource typestate (acquire, release, join) over every normal and exceptional path of a run; with-block discipline for files',
         'Every pool creation reachable from Simulation.run and every call in the package that opens a file.'),
 'C22': ('definite-assignment analysis over feasible paths (abstract interpretation with branch facts, call-site refinement)',
         'Every function and nested function of the package.'),
 'C23': ('abstract interpretation of assignments, reads and binds over abstract heaps against the source rule; normal form of the step count',
         'Eight binding topologies of simulations, systems, protocols, gates and steps; all histories of two (thorough: three) assignments with reads between them; bindings of three systems in every order.'),
 'C24': ('normal forms of states over orthonormal basis vectors with symbolic norms and traces',
         'Every state constructor for symbolic dimensions and weights; up to three basis states, kets or sub-systems.'),
 'C26': ('abstract interpretation of copying over abstract heaps: attribute-by-attribute heap comparison along the sub-system correspondence, then '
         'non-interference of every change of one with everything readable from the other',
         'Single, composite and up to two levels nested systems of the listed programs with symbolic parameters.'),
 'C27': ('normal forms of measures over symbolic kets and matrices (traces split into brackets, spectral functionals), index-contraction '
         'analysis of the partial trace',
         'Every measure for kets and density matrices; partial traces of up to three (thorough: four) systems of symbolic dimensions with every set kept; '
         'products of up to four factors.'),
 'C28': ('product normal form of each density with symbolic exponents, integrated in closed form with gamma-function identities',
         'Every density and Dyson parameter for a symbolic argument and dimension.'),
 'C29': ('symbolic expansion (by abstract interpretation of client programs) of Hamiltonians, propagators and states into operators with '
         'positions given by monomials of dimensions',
         'Seventy-odd written programs and all trees of two and three systems nested once (thorough: four systems, three nested twice) with parts first or last and every '
         'removal, extension and change of dimension.'),
 'C30': ('abstract interpretation of array code (elements as exact polynomials, numpy views, broadcasting and element types) and operator normal forms',
         'Hamiltonians for a symbolic dimension; propagator and phase-space functions for dimensions 2 to 4 (thorough: 7 and 6) with symbolic states, grids and parameters.'),
 'C25': ('abstract interpretation of the propagator creation over abstract heaps with overlapping updates (value-restoration analysis)',
         'Every protocol class; one to three updates (values and functions) on one to three systems in every listed overlap.'),
}


def main():
    checks = []
    for pid in sorted(CLAIMED):
        tech, note = CLAIMED[pid]
        checks.append(dict(property=pid, quick_cmd=f'python3 check.py {pid} --tier quick',
                           thorough_cmd=f'python3 check.py {pid} --tier thorough',
                           technique='static analysis: ' + tech, level='other', level_note=note))
    na = []
    for q in P:
        if q['id'] not in CLAIMED:
            na.append(dict(property=q['id'], reason=NA.get(q['id'], 'no checker yet: see DESIGN.md')))
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
