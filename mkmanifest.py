#!/usr/bin/env python3
"""regenerate MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NA = {
 'C29': 'accuracy of the elementary functions is a statement about real analysis: the code evaluates long series in decNumber arithmetic, and neither the series (hundreds of multi-digit multiplications of symbolic coefficients) nor the transcendental reference can be put to an SMT solver within reach; no bounded slice of it is decidable by this family here',
 'C30': 'the binary/decimal conversions of this tree are built around libbid/bid_binarydecimal.c tables and long double arithmetic of the host that are not in the encodable source (the file is missing upstream; x87 arithmetic has no solver encoding in the engine)',
 'C31': 'square root runs decNumberSquareRoot, an iteration with a data-dependent precision ladder over symbolic multi-digit multiplication and division; every attempted encoding exceeds the solver already for 3 free digits',
}
N = json.load(open(V + '/notes.json')) if os.path.exists(V + '/notes.json') else {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i.lower())) and i not in N.get('unclaimed', {}):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i, technique='symbolic execution of the implementation\'s LLVM IR with SMT (Z3/cvc5) deciding every branch and assertion; counterexamples replayed natively', level='model_checking', level_note=N.get('notes', {}).get(i, 'bounded: see DESIGN.md')))
    else: na.append(dict(property=i, reason=N.get('unclaimed', {}).get(i) or NA.get(i, 'no sound check for it is finished; see DESIGN.md')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
