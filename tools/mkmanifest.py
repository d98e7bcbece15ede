"""regenerates MANIFEST.json from props/*.py"""
import json, os, sys, importlib
sys.path.insert(0, '/verif')
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {}
if os.path.exists('/verif/tools/na.json'): NA = json.load(open('/verif/tools/na.json'))
checks, na = [], []
for i in ids:
    if os.path.exists(f'/verif/props/{i.lower()}.py') and i not in NA:
        m = importlib.import_module('props.'+i.lower())
        checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i} --tier quick',
            'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
            'technique': getattr(m, 'TECHNIQUE', 'contracts on the real functions: verification conditions generated from the source by symbolic execution and discharged by exact identity testing and z3; refutations replayed on the real code'),
            'level': getattr(m, 'LEVEL', 'other'),
            'level_note': getattr(m, 'NOTE', m.EXPLANATION or 'contracts checked for all values at bounded shapes; see DESIGN.md')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
try: import jsonschema
except ImportError: raise SystemExit
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'n/a')
