"""write MANIFEST.json from the registered checks and the notes below (run in /verif: python3 tools/gen_manifest.py)"""
import json, sys
sys.path.insert(0, '.')
from tools.claims import CLAIMS, NOT_APPLICABLE

TRUST = ('Trusts the models of the numpy/pandas/networkx/scipy/stdlib calls that the code makes, and the semantics of Python in '
         'pyctbn_sa/interp.py; an obligation that meets an unmodelled construct is reported UNDECIDED and raises no alarm.')
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd='python3 -m pyctbn_sa.check ' + p, thorough_cmd='VERIF_TIER=thorough python3 -m pyctbn_sa.check ' + p,
                           technique=tech, level='other', level_note=note + ' ' + TRUST))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'not claimed yet: the analysis of this part of the repository is under construction'))
      for p in props if p not in CLAIMS]
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q pyctbn_sa', checks=checks, not_applicable=na,
               notes='Static analysis of the Python sources in /repo: see DESIGN.md. No hooks are added to /repo.'),
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
