"""Write /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from properties_src import PROPS  # noqa: E402
from techniques import TECHNIQUE  # noqa: E402

PY = '/opt/venv/bin/python -B /verif/pbt/run.py'


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, sort_keys=False) + '\n')
    checks, missing = [], []
    for p in PROPS:
        mod = os.path.join(VERIF, 'pbt', 'props', p['id'].lower() + '.py')
        if not os.path.exists(mod):
            missing.append({'property': p['id'],
                            'reason': 'no check has been built yet'})
            continue
        technique, note = TECHNIQUE[p['id']]
        checks.append({
            'property': p['id'],
            'quick_cmd': '%s %s --tier quick' % (PY, p['id']),
            'thorough_cmd': '%s %s --tier thorough' % (PY, p['id']),
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': technique,
            'level': 'exploration',
            'level_note': note})
    manifest = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -B /verif/tools/setup_check.py',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'Pure Python: every check imports freesif from the working '
                 'tree of /repo (no build step, no hooks). '
                 'run.py <id> --replay FILE re-runs a recorded violation.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
