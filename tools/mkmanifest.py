"""writes /verif/MANIFEST.json from the list of harnesses and the texts below (single source)"""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
TECH = 'symbolic execution of the real Python code (numpy replaced by symbolic arrays), every assertion decided by z3; counterexamples and path witnesses replayed on the unpatched code'
NOTE = {}
NA = {}
exec(open(f'{H}/tools/notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{H}/harness/{i.lower()}.py') and i not in NA:
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i}', thorough_cmd=f'bash check.sh {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                           technique=TECH, level='model_checking', level_note=NOTE.get(i, NOTE['default'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for this property yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         hooks=dict(guard='none (no hooks: the code under /repo is executed unmodified with its imports of numpy/math/scipy redirected at run time)',
                    enable='nothing to enable', source_commits=[]),
         notes='One engine (symx/) and one harness per property (harness/cNN.py); see DESIGN.md. Known findings and repairs: known_findings.jsonl.')
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
