#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
NA = {'C26': 'the bindings cannot be built or run here: pybind11, pyaudi and the Python test dependencies are not installed and nothing can be fetched'}
checks = []
for p in props:
    c = CHECKS.get(p)
    if not c: continue
    checks.append(dict(property=p, quick_cmd='python3 run.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p,
                       technique=c.get('technique', 'runtime monitor against an independent reference model on random and hostile workloads, with ASan+UBSan'),
                       level='exploration', level_note=c['note']))
na = [dict(property=p, reason=NA.get(p, 'no check built yet')) for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: every monitor uses the public interface only. /verif/shim stands in for AuDi and SymEngine, which are not installable here.'),
          open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
