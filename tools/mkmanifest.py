"""Regenerate MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import pathlib
import sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), '/repo/src']
NOTE = ('Held on the executions produced (counts in the evidence file); nothing is claimed for inputs the '
        'generators do not reach. Oracle: ')
TECH = {}
checks, na = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    pid = json.loads(line)['id']
    if not (V / f'vt/checks/{pid.lower()}.py').exists():
        na.append({'property': pid, 'reason': 'not claimed: check not built (yet)'})
        continue
    m = importlib.import_module(f'vt.checks.{pid.lower()}')
    checks.append({
        'property': pid, 'quick_cmd': f'./check.sh {pid}',
        'thorough_cmd': f'./check.sh {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': getattr(m, 'TECHNIQUE', 'runtime monitoring of generated workloads against an '
                             'independent reference model'),
        'level': m.LEVEL,
        'level_note': NOTE + m.RULE.split(';')[0] + '. Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.'})
out = {'version': 1,
       'setup_cmd': "PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
                    "'import gempakio, numpy, pyproj, xarray'",
       'checks': checks, 'not_applicable': na,
       'notes': 'Pure Python target: checks import /repo/src directly (no build step, no hooks). Every '
                'random choice derives from VERIF_SEED.'}
(V / 'MANIFEST.json').write_text(json.dumps(out, indent=1) + '\n')
print(len(checks), 'claimed', len(na), 'not')
