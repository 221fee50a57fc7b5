#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification: contracts on the extracted real functions, obligations discharged by z3'
TB = 'contracts written as an executable oracle and run against the real code: a bounded stand-in for deductive verification (labelled bounded, not counted as proved)'
NOTE = ('Obligations are generated from /repo\'s current source (clang AST -> IR -> symbolic execution against contracts) and discharged by z3 for all inputs and '
        'all iterations. Trusted: extractor, engine, sum-lemma schemas, z3; ints as mathematical integers, doubles as reals, std containers as specified. '
        'A bounded native run of the real code against an executable oracle finds failing inputs and covers, as a labelled bounded stand-in, the functions outside the verifier\'s reach: ')
CHECKS = {
 'C01': ('proof', 'none needed for the operators; mixed programs of operators are sampled natively.'),
 'C02': ('proof', 'the sensitivity tables (assumed here, C16).'),
 'C03': ('proof', 'the sensitivity tables (assumed here, C16); histories of moves follow by induction and are also run natively.'),
 'C04': ('proof', 'the sensitivity tables (assumed here, C16), whole evaluations in sequence.'),
 'C05': ('proof', 'the callers that choose between full and restricted refresh.'),
 'C14': ('proof', 'the dual search loop around these functions.'),
 'C15': ('proof', 'labels of elements (text formatting) and pattern sums of expression arrays.'),
 'C16': ('proof', 'update_intersection_set (erasure while iterating); termination of probing follows from the proved free slot and power-of-two bucket count and is assumed.'),
 'C17': ('proof', 'the success half of GF2Solver::solve (satisfaction of the parity constraints; its failure frame is proved).'),
 'C07': ('proof', 'update_status and the callers of the incumbent holder.'),
 'C12': ('proof', 'the JSON and solution-file round trips (text input and output) and the selection verifier called by the import with correction off.'),
 'C13': ('proof', 'the lists of constraints by label (Model::categorize_constraints and the order of setup).'),
 'C06': ('proof', 'the relation kept by soft-selection moves, the chain combination in the search loop, Neighborhood::update_moves and user-defined moves.'),
 'C10': ('exploration', 'the selection extractors and the verifier of selections (the verifiers of binary and integer variables are proved).'),
}
BOUNDED = ['C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18']
for i in BOUNDED:
    CHECKS.setdefault(i, ('exploration', 'the whole property so far (see DESIGN.md).'))
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claims.py')) else None
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash engine/extract.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        lv, note = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                            'technique': T if os.path.exists(os.path.join(V, 'contracts', i.lower() + '.py')) else TB, 'level': lv, 'level_note': NOTE + note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
m['notes'] = 'No hooks: /repo carries only fix: commits. known_findings.json lists known findings and repaired defects.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
