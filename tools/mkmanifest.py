#!/usr/bin/env python3
"""write /verif/MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
from technique import TECH, NA
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd='python3 run.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH[i][0], level='exploration', level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1,
         setup_cmd='python3 -m py_compile run.py checks.py package.py mixing.py && g++ --version >/dev/null && clang++ --version >/dev/null',
         hooks=dict(guard='IEME_VERIF_HOOKS',
                    enable='nothing to enable: the library is header-only and observed through its public interface '
                           'and compiler instrumentation, so no hook was added to /repo and the guard is unused',
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Every check compiles the headers of /repo/include afresh into its harnesses (outside /repo and /verif), '
               'runs them under ASan+UBSan and monitors, and judges what was observed. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
