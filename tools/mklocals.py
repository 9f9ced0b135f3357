"""Record the locals of the functions with loops: pyvc/locals.json (see pyvc/names.py)."""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc import SRC, names  # noqa: E402

out = {}
for at, _dirs, files in sorted(os.walk(os.path.join(SRC, 'gempakio'))):
    for name in sorted(files):
        if not name.endswith('.py'):
            continue
        path = os.path.join(at, name)
        rel = os.path.relpath(path, SRC)

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    walk(ch, f'{qual}{ch.name}.')
                elif isinstance(ch, ast.FunctionDef) and names.loops(ch):
                    key = f'{rel}:{qual}{ch.name}'
                    got = names.locals_of(ch)
                    if key in out:
                        out[key] = None     # a property and its setter
                    elif got:
                        out[key] = got
        with open(path, encoding='utf-8') as f:
            walk(ast.parse(f.read()), '')
out = {k: v for k, v in out.items() if v}
with open(names.TABLE, 'w', encoding='utf-8') as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write('\n')
print(len(out), 'functions')
