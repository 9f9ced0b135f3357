"""Writes MANIFEST.json from the check modules present (run with /opt/venv/bin/python)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import pyvc  # noqa
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    m = None
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        m = importlib.import_module('checks.' + pid.lower())
    if hasattr(m, 'proofs'):
        cmd = f'/opt/venv/bin/python -B check.py {pid}'
        checks.append({
            'property': pid, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --thorough',
            'technique': getattr(m, 'TECHNIQUE', 'deductive verification of contracts on the real '
                                 'source (pyvc obligations discharged by z3/cvc5); bounded '
                                 'contract monitor for counterexample replay'),
            'level': getattr(m, 'LEVEL', 'proof'),
            'level_note': getattr(m, 'LEVEL_NOTE', None) or (
                'Contracts proved for all inputs: ' + ', '.join(getattr(m, 'FUNCTIONS', []))
                + '. Assumes: ' + '; '.join(getattr(m, 'ASSUMPTIONS', []))
                + ('. Bounded stand-ins: ' + '; '.join(m.BOUNDED) if getattr(m, 'BOUNDED', None) else '')
                + '. Trusts the pyvc obligation generator, z3 and cvc5.')})
    else:
        na.append({'property': pid, 'reason': getattr(m, 'NOT_APPLICABLE', 'contracts not built yet')})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'.\'); import pyvc, z3, cvc5, gempakio"',
           'checks': checks, 'not_applicable': na,
           'notes': 'known findings and fixed defects: known_findings.json; design: DESIGN.md'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
