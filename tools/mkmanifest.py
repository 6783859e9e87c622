#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
T = 'TLA+ specification checked with TLC; its histories (bounded breadth-first search and random simulation) replayed on the compiled library and the written PDF compared with the specified document'
N = ('Every call outcome and every compared fact of the written file is decided by the TLA+ specification. Exhaustive over the small alphabet of the CapyMC run up to its depth; '
     'sampled over the whole alphabet otherwise. Trusts the independent PDF reader in harness/ (pdfparse.py, facts.py) and the C call driver.')
CLAIM = {p: (T, 'model_checking', N) for p in 'P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P12 P13 P15 P16 P17 P18 P19 P20 P21 P22 P24'.split()}
import special
CLAIM.update(special.CLAIM)
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 harness/setup.py',
         checks=[dict(property=p, quick_cmd='python3 harness/check.py ' + p, thorough_cmd='python3 harness/check.py %s --thorough' % p,
                      technique=CLAIM[p][0], level=CLAIM[p][1], level_note=CLAIM[p][2]) for p in props if p in CLAIM],
         not_applicable=[dict(property=p, reason=special.NOT.get(p, 'no check yet')) for p in props if p not in CLAIM],
         notes='The checks build the library from /repo themselves (harness/build.py, into /verif/.build) and need no hooks in it. known_findings.txt lists findings; see DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1); print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
