"""writes MANIFEST.json from specs/props.py and properties.jsonl"""
import json
from specs.props import PROPS, NA
props = {}
for l in open('/verif/properties.jsonl'):
    if l.strip():
        o = json.loads(l); props[o['id']] = o
checks = []
for p in sorted(PROPS):
    d = PROPS[p]
    checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                       technique='contract-based deductive verification of the real C++ (own verifier cv: clang AST, symbolic execution against contracts, z3/cvc5); failing inputs replayed by a harness on the compiled code',
                       level='proof', level_note=d['note']))
na = [dict(property=k, reason=v) for k, v in sorted(NA.items())]
assert set(PROPS) | set(NA) == set(props), set(props) ^ (set(PROPS) | set(NA))
json.dump(dict(version=1, setup_cmd='python3-vt -m cv.setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Every check rebuilds its typed ASTs and harness objects from /repo\'s working tree (content-hashed caches under build/).'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
