"""Regenerates MANIFEST.json: claimed = properties with a specs/cNN*.py file."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C33': 'Convergence of the estimates is a statement about limits of random numerical computations; no static argument in reach bounds the estimation error, only its formulas (C15, C19, C20, C22).',
    'C34': 'Matrix orderings between the bounds are theorems about the defining formulas under rank conditions on runtime data; the shape of the code decides only that the formulas are evaluated (C25, C26).',
    'C35': 'Optimality of the values returned by scipy.optimize and cvxpy is a property of those solvers on runtime data; the part visible in this code, posing the stated problem and reporting failure, is C20 and C21.',
}
note = ('Decides equality of the abstract values computed by the analysed functions and by their reference definitions, for all symbolic sizes and entries of each obligation; normal-form equality is exact, '
        'remaining entries are compared by random interpretation (one-sided error on the quiet side only). Trusts the models of NumPy/SciPy/CVXPY operations in dsa/, exact real arithmetic and the stated input ranges.')
tech = 'static analysis: abstract interpretation of the source over a value-numbering (normal-form array term) domain with trace partitioning and loop summaries'
other = {
    'C13': 'static analysis: whole-program call-graph rule over the random primitives, and effect analysis (abstract interpretation of every scenario with the random state as an effect)',
    'C28': 'static analysis: effect analysis by abstract interpretation of every scenario of the other properties, comparing the abstract contents of all arguments at entry and exit of each call',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    have = [f for f in os.listdir(os.path.join(V, 'specs')) if re.match(i.lower() + r'(_\w+)?\.py$', f)]
    if have:
        checks.append({'property': i, 'quick_cmd': 'python3 -m dsa.check %s' % i, 'thorough_cmd': 'python3 -m dsa.check %s --tier thorough' % i, 'technique': other.get(i, tech), 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')
