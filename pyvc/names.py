"""Locals under the names the loop contracts use.

Invariants speak of locals.  A function whose locals were renamed is the same function, so before it
is run its locals are renamed consistently to the names recorded in locals.json (made by
tools/mklocals.py): names that only the record has, for names that only the function has, in the
order of their first assignment.  Parameters, names of inner functions, imports and names that inner
functions bind are never renamed, and no name in use is taken.  A pairing that is not meant so costs
nothing but an invariant that does not fit: the meaning of the function is unchanged in any case.
"""
import ast
import difflib
import functools
import json
import os

TABLE = os.path.join(os.path.dirname(__file__), 'locals.json')


@functools.cache
def table():
    try:
        with open(TABLE, encoding='utf-8') as f:
            return json.load(f)
    except FileNotFoundError:
        return {}


def params(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x]


def loops(fn):
    return any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(fn))


def locals_of(fn):
    """The renamable locals in the order of their first assignment."""
    fixed = set(params(fn.args))
    for x in ast.walk(fn):
        if x is fn:
            continue
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            fixed.update(params(x.args))
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            fixed.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            fixed.update(x.names)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            fixed.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            fixed.update((al.asname or al.name).split('.')[0] for al in x.names)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            fixed.add(x.name)
        elif isinstance(x, ast.MatchMapping) and x.rest:
            fixed.add(x.rest)
    found = sorted((x.lineno, x.col_offset, x.id) for x in ast.walk(fn)
                   if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
    return list(dict.fromkeys(n for _l, _c, n in found if n not in fixed))


def used(fn):
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            out.add(x.id)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.alias):
            out.add((x.asname or x.name).split('.')[0])
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            out.update(x.names)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def restore(fn, recorded):
    """Rename the locals of a function in place; the pairs renamed."""
    now = locals_of(fn)
    if now == recorded:
        return {}
    taken = used(fn)
    pairs = {}
    match = difflib.SequenceMatcher(None, now, recorded, autojunk=False)
    for op, a, b, c, d in match.get_opcodes():
        if op != 'replace':
            continue
        mine = [n for n in now[a:b] if n not in recorded]
        theirs = [n for n in recorded[c:d] if n not in now]
        if len(mine) == len(theirs):
            pairs.update((m, t) for m, t in zip(mine, theirs, strict=True) if t not in taken)
    if pairs:
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in pairs:
                x.id = pairs[x.id]
    return pairs
