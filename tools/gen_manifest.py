#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of MIR'
T = {
 'C01': (AI + ', fixpoint over arbitrary builder-step sequences', 'All step sequences of any length, by an inductive invariant over the list formats; containers and vertex types opaque, known by contract.'),
 'C02': (AI + ', fixpoint over arbitrary builder-step sequences', 'As C01, for the fan formats.'),
 'C03': (AI + ', fixpoint over arbitrary builder-step sequences', 'As C01, for the delimited format, with arbitrary equalities between indices and the delimiter.'),
 'C04': (AI + ', provenance of every stored element', 'Each stored element is traced to the lookup it came from; get_vertex is an uninterpreted function of list and index.'),
 'C05': (AI + ', failure at every step', 'Failure injected before/at every step of arbitrary sequences; container contents compared with the initial ones.'),
 'C06': (AI + ', one-step transition relation of every container operation', 'Every operation of every provided container type from an arbitrary earlier content.'),
 'C11': (AI + ', fixpoint over arbitrary builder-step sequences around an opaque format; constant evaluation for both windings', 'All step sequences; wrapped format opaque, its calls recorded.'),
 'C07': (AI + ', typestate of the builder over every path of the triangulation call', 'The whole call with an arbitrary format and data of any value, loops to a fixpoint; data-only helpers of the crate are assumed to return any value.'),
 'C08': (AI + ', fate of every error value over every path', 'As C07; the functions building the trapezoid structure are analysed one by one, their error-returning callees failing at will.'),
 'C09': (AI + ', exhaustive over the outcomes of the side test, fixpoint per piece size', 'Pieces of up to 8 vertices (9 in thorough), every outcome of every side test, both windings, live and fresh builders; larger pieces by the uniformity of the loops only.'),
 'C10': (AI + ', exhaustive over the outcomes of the side test, fixpoint per piece size', 'As C09.'),
 'C12': (AI + ' over a symbolic list of each provided shape', 'Every provided list form over arbitrary contents: scalars, arrays, pairs, triples, vectors by element count, indexed polygons; sizes listed in the evidence, loops beyond them by the uniformity of the code.'),
 'C13': (AI + ', sums over symbolic collections joined to a fixpoint', 'Collections of any length and any values: loops are joined over a symbolic running sum.'),
 'C14': (AI + ' over every list of up to 7 items; fixpoint over counts for lists of any length', 'The work on one polygon is taken as a whole (what it is given is recorded, what it may change is unknown afterwards); 10 items in thorough; which vertices are handed over is exact for the listed sizes, how many for any size.'),
 'C15': (AI + ', reachability of success and of the no-vertices error', 'As C07.'),
 'C16': (AI + ' of the table pushes, over every order the shuffle can produce', 'Polygons of 3 and 4 vertices and pairs of triangles (5 vertices in thorough), any coordinates; larger polygons by the uniformity of the loops only; trapezoids and query nodes are not tracked.'),
 'C17': (AI + ', sign analysis of order facts and polynomial normal forms', 'Every path of the comparison functions, the side test and the point-location step; coordinates are exact ordered numbers.'),
 'C18': (AI + ', ownership: every drop of an open region on a path to success', 'As C07; degenerate pieces are decided for up to 5 vertices.'),
 'C19': ('lint over every unsafe operation; layout rule for casts, pointer origin for dereferences; ' + AI + ' of the table lengths', 'Every unsafe operation in the crate, whoever calls it; positions are followed through the whole of trapezoidize over any list, with the tables known by their lengths.'),
 'C21': (AI + ' of the insertion functions over an enumeration of local situations; record-by-record comparison with the specified split', 'An edge that runs through up to 3 regions (4 thorough) in every combination of sides and already joined edges; longer walks repeat the same step. A vertex in every situation. Geometry enters only through the answers of the side test.'),
 'C20': ('effect analysis over the MIR call graph; type walk for shared mutable state', 'Everything reachable from triangulation, all trait implementations of the crate included; std and dependency functions classified by a table.'),
}
NA = {
 'C30': 'Exact area coverage quantifies over real-valued geometry of arbitrary polygons and the outcome of data-dependent point-location searches; no sound static argument in reach bounds it.',
 'C31': 'Success and termination depend on geometric invariants of the trapezoid structure (data-dependent loops over runtime coordinates); not visible in the shape of the code.',
 'C32': 'A statement about expected running time over random orders; not decidable by static inspection.',
}
checks = []
for k, (tech, note) in T.items():
    checks.append(dict(property=k, quick_cmd='python3 engine/check.py %s' % k, thorough_cmd='VERIF_TIER=thorough python3 engine/check.py %s' % k,
                       evidence_file='evidence/%s.json' % k, technique=tech, level='other',
                       level_note=note + ' Trusts rustc, the engine and its models of std; open obligations are listed as undecided in the evidence.'))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
na = [dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in T]
m = dict(version=1, setup_cmd='python3 engine/build.py rel dbg', checks=checks, not_applicable=na,
         notes='Static analysis only: a rustc_private driver (driver/) serves type-checked MIR of /repo to the analyses in engine/. No hooks in /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
