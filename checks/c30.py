"""C30: ordered sets behave as sets that remember insertion order."""
from contracts import ordered_set
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.tools.OrderedSet.__init__', 'OrderedSet.__contains__',
             'OrderedSet.__iter__', 'OrderedSet.__len__', 'OrderedSet.add',
             'OrderedSet.discard', 'OrderedSet.__eq__']
TRUSTED = ['assumed contract of the builtin dict: a new key comes last, an existing key keeps its '
           'place, pop removes, iteration is in order (pyvc.dicts)',
           'collections.abc.MutableSet mixin methods (remove, pop, |=, ...) are written in terms '
           'of the methods under contract']
ASSUMPTIONS = ['items are hashable and their equality is an equivalence']


def proofs(tier):
    return [Task('OrderedSet.__init__', ordered_set.prove_init, functions=FUNCTIONS[:1]),
            Task('OrderedSet operations', ordered_set.prove_ops, functions=FUNCTIONS[1:6]),
            Task('OrderedSet.__eq__', ordered_set.prove_eq, functions=FUNCTIONS[6:])]


MONITOR_SECONDS = 8
MONITORS = ['monitor']


def pool(rng):
    return rng.choice([list(range(4)), list('abcdef'), [0, False, '', None, 1, True, 1.0, ()],
                       [(1, 2), (2, 1), 'a', 3, frozenset([1])]])


def norm(items):
    out = []
    for i in items:
        if i not in out:
            out.append(i)
    return out


def show(s):
    return [repr(x) for x in s]


def check(s, ref, what, case):
    if show(s) != show(ref):
        raise Fail(f'{what}: iterates as {show(s)}, expected {show(ref)}', case)
    if len(s) != len(ref):
        raise Fail(f'{what}: length {len(s)}, holds {len(ref)} items', case)
    for i in case['pool_items']:
        if (i in s) != (i in ref):
            raise Fail(f'{what}: {i!r} in set is {i in s}, expected {i in ref}', case)


def monitor(rng, log):
    from gempakio.tools import OrderedSet
    while log.more():
        items = pool(rng)
        start = [rng.choice(items) for _ in range(rng.choice([0, 0, 1, 3, 8]))]
        form = rng.choice(['none', 'list', 'gen', 'tuple', 'oset'])
        hist = [f'OrderedSet({form} of {start!r})']
        case = {'history': hist, 'pool_items': items}
        with limit(5, 'OrderedSet', case):
            if form == 'none':
                s, ref = OrderedSet(), []
            else:
                arg = {'list': start, 'gen': iter(start), 'tuple': tuple(start),
                       'oset': OrderedSet(start)}[form]
                s, ref = OrderedSet(arg), norm(start)
            check(s, ref, 'construction', case)
            for _ in range(rng.choice([2, 8, 25])):
                i = rng.choice(items)
                op = rng.choice(['add', 'add', 'add', 'discard', 'remove', 'pop', 'clear',
                                 'ior', 'isub', 'iand', 'eq', 'eqset', 'eqlike', 'ops'])
                other = [rng.choice(items) for _ in range(rng.randint(0, 4))]
                hist.append(f'{op} {i!r} {other!r}')
                if op == 'add':
                    s.add(i)
                    ref = norm(ref + [i])
                elif op == 'discard':
                    if s.discard(i) is not None:
                        raise Fail('discard returned a value', case)
                    ref = [x for x in ref if x != i]
                elif op == 'remove':
                    try:
                        s.remove(i)
                    except KeyError:
                        if i in ref:
                            raise Fail('remove of a held item raised', case) from None
                    else:
                        if i not in ref:
                            raise Fail('remove of an absent item did not raise', case)
                    ref = [x for x in ref if x != i]
                elif op == 'pop' and rng.random() < .3:
                    try:
                        x = s.pop()
                    except KeyError:
                        if ref:
                            raise Fail('pop raised on a set with items', case) from None
                    else:
                        if x not in ref:
                            raise Fail(f'pop gave {x!r}, not held', case)
                        ref = [y for y in ref if y != x]
                elif op == 'clear' and rng.random() < .2:
                    s.clear()
                    ref = []
                elif op == 'ior':
                    s |= OrderedSet(other)
                    ref = norm(ref + norm(other))
                elif op == 'isub':
                    s -= OrderedSet(other)
                    ref = [x for x in ref if x not in other]
                elif op == 'iand' and rng.random() < .3:
                    s &= OrderedSet(other)
                    ref = [x for x in ref if x in other]
                elif op == 'eq':
                    o = rng.choice([list(ref), list(reversed(ref)), norm(other), ref[:-1]])
                    want = show_eq(o, ref)
                    if (s == OrderedSet(o)) != want or (s != OrderedSet(o)) == want:
                        raise Fail(f'equality with OrderedSet({o!r}) is not {want}', case)
                elif op == 'eqset':
                    o = rng.choice([set(ref), set(other), set(ref) | set(other), frozenset(ref)])
                    want = set(ref) == o
                    if (s == o) != want or (o == s) != want or (s != o) == want:
                        raise Fail(f'equality with {o!r} is not {want}', case)
                elif op == 'eqlike':
                    o = dict.fromkeys(rng.choice([list(reversed(ref)), other])).keys()
                    if (s == o) != (set(ref) == set(o)):
                        raise Fail(f'equality with {o!r} is not {set(ref) == set(o)}', case)
                elif op == 'ops':
                    for name, got, want in (
                            ('|', s | OrderedSet(other), norm(ref + other)),
                            ('&', s & OrderedSet(other), [x for x in ref if x in other]),
                            ('-', s - OrderedSet(other), [x for x in ref if x not in other])):
                        if set(got) != set(want) or len(got) != len(want):
                            raise Fail(f'{name} with {other!r} gives {list(got)!r}', case)
                check(s, ref, hist[-1], case)
        log.case(tuple(hist), True, {'history': hist[:8]})


def show_eq(a, b):
    return list(a) == list(b)
