"""Splitting of report text (C22): GempakSurface._process_report_text.

For any report, any values and any texts (absent, blank, without a station identifier in front,
with one that occurs once, or any number of times), the reports made are
  for regular then special text: one per piece after an identifier that is not empty, in order,
    its text the identifier and the piece; or one for the whole text;
  the day, hour and minute of special ones are those of the time group in their own text when
    that makes a time, and the stored ones otherwise; the others have the stored time;
  values with regular reports, or with special ones when there is no regular text;
  one report with no text, and the values, when there is no text;
and each is a dictionary of its own.

Text is opaque: `search` of a pattern of the module finds something or does not, a station found is
in front of its text and so occurs at least once, a time found is three groups of two digits.
"""
import copy
import datetime
import re

import z3

from contracts.real_decode import zi
from pyvc import filt, texts
from pyvc.core import (Ctx, SBool, SInt, Sym, Unsupported, ctx, is_sym, mkbool, sand, simplies,
                       val_eq)
from pyvc.interp import Interp
from pyvc.models import Models, SDT, SFmt, SSeq, days_in_month, sym_datetime


class Token(Sym):
    """A text known by where it comes from."""

    pytype = str

    def __init__(self, *how):
        self.how = how

    def __eq__(self, o):
        return isinstance(o, Token) and keyed(self.how) == keyed(o.how)

    def __ne__(self, o):
        return not self == o

    __hash__ = Sym.__hash__

    def __bool__(self):
        if self.how[0] == 'piece':
            return bool(nonempty(*self.how[1:]))
        if self.how[0] == 'doc':
            return True
        if self.how[0] == 'joined':
            return True
        raise Unsupported('truth of a text')

    def __add__(self, o):
        return Token('joined', self, o)

    def __radd__(self, o):
        return o if o == '' else Token('joined', o, self)

    def strip(self, *a):
        if a:
            raise Unsupported('strip of characters')
        return self if self.how[0] == 'strip' else Token('strip', self)

    def count(self, s):
        if self.how[0] == 'doc' and isinstance(s, Token) and s.how == ('station', self):
            return self.n
        raise Unsupported('count')

    def split(self, s, maxsplit=-1):
        if self.how[0] != 'doc' or not isinstance(s, Token) or s.how != ('station', self) or \
                maxsplit != -1:
            raise Unsupported('split')
        if not hasattr(self, 'pieces'):
            self.pieces = SSeq(self.n + 1, lambda k: Token('piece', self, k))
            self.pieces.ghosts = [self.g]
        return self.pieces


def keyed(x):
    if isinstance(x, tuple):
        return tuple(keyed(y) for y in x)
    if isinstance(x, Token):
        return ('token', id(x) if x.how[0] == 'doc' else keyed(x.how))
    return filt.ikey(x) if isinstance(x, SInt) else x


def nonempty(doc, k):
    """Whether piece k has text; the one before the station in front has none."""
    f = z3.Function(f'piece of {doc.how[1]}', z3.IntSort(), z3.BoolSort())
    b = mkbool(f(zi(k)))
    ctx().assume(mkbool(z3.Not(f(z3.IntVal(0)))))
    return b


def doc(c, name):
    d = Token('doc', name)
    d.n = SInt.var(f'identifiers in {name}')
    d.g = SInt.var(f'piece of {name}')
    c.assume(sand(d.n >= 1, d.g >= 0, d.g <= d.n))
    return d


class Match(Sym):
    """A match of a pattern: its groups by name."""

    def __init__(self, groups):
        self.groups_ = groups

    def __bool__(self):
        return True

    def groupdict(self):
        return dict(self.groups_)

    def group(self, *k):
        r = tuple(self[x] for x in k)
        return r[0] if len(r) == 1 else r

    def groups(self):
        return tuple(self.groups_.values())

    def __getitem__(self, k):
        if k == 0:
            raise Unsupported('text of a match')
        return self.groups_[k] if isinstance(k, str) else list(self.groups_.values())[k - 1]


class Two(Sym):
    """Two digits."""

    pytype = str

    def __init__(self, v):
        self.v = v


def time_in(rpt):
    """The time group found in a report text: None, or day, hour and minute."""
    key = str(keyed(rpt))
    memo = ctx().state.setdefault('times', {})
    if key not in memo:
        found = SBool(z3.Const(f'time in {key}', z3.BoolSort()))
        vs = [SInt.of(z3.Const(f'{n} in {key}', z3.IntSort())) for n in ('d', 'h', 'm')]
        for v in vs:
            ctx().assume(sand(v >= 0, v <= 99))
        memo[key] = (found, vs)
    return memo[key]


class Values(Sym):
    """The values of a report by parameter: any of the two texts, and any others."""

    pytype = dict

    def __init__(self, texts, some):
        self.texts = dict(texts)
        self.some = some

    def pop(self, k, *d):
        if k not in ('TEXT', 'SPCL'):
            raise Unsupported('another value')
        if k in self.texts:
            return self.texts.pop(k)
        if not d:
            raise KeyError(k)
        return d[0]

    def get(self, k, d=None):
        if k not in ('TEXT', 'SPCL'):
            raise Unsupported('another value')
        return self.texts.get(k, d)

    def __contains__(self, k):
        if k not in ('TEXT', 'SPCL'):
            raise Unsupported('another value')
        return k in self.texts

    def __bool__(self):
        return True if self.texts else bool(self.some)

    def copy(self):
        return Values(self.texts, self.some)

    def spread(self, d):
        d['values'] = (dict(self.texts), self.some)


def models():
    import gempakio.decode.gempak as G
    M = filt.register(texts.register(Models()))

    def search(i, slf, a, k):
        t = a[0]
        if not isinstance(t, Token):
            return NotImplemented
        if slf is G.METAR_STATION_RE and t.how[0] == 'doc':
            return Match({'station': Token('station', t)}) if t.found else None
        if slf is G.METAR_TIME_RE:
            found, (d, h, m) = time_in(t)
            if not bool(found):
                return None
            return Match({'day': Two(d), 'hour': Two(h), 'minute': Two(m)})
        return NotImplemented
    M.table[(id(re.Pattern), 'search')] = search
    old_match = M.lookup(int)

    def m_int(i, a, k):
        if a and isinstance(a[0], Two):
            return a[0].v
        return old_match(i, a, k) if old_match else NotImplemented
    M.reg(int, m_int)

    def m_datetime(i, a, k):
        names = ('year', 'month', 'day', 'hour', 'minute', 'second')
        f = {**dict(zip(names, a)), **k}
        if not is_sym(f['year']):
            return NotImplemented
        h, mi = f.get('hour', 0), f.get('minute', 0)
        if set(f) - set(names) or f.get('second', 0) != 0:
            raise Unsupported('datetime of seconds')
        ok = sand(f['month'] >= 1, f['month'] <= 12, f['day'] >= 1,
                  f['day'] <= days_in_month(f['year'], f['month']), h >= 0, h <= 23, mi >= 0,
                  mi <= 59)
        if not bool(ok):
            raise ValueError('day is out of range for month')
        return SDT(datetime.datetime, year=f['year'], month=f['month'], day=f['day'], hour=h,
                   minute=mi)
    M.reg(datetime.datetime, m_datetime)

    def copied(i, a, k):
        # values of a report are immutable
        return dict(a[0]) if type(a[0]) is dict else NotImplemented
    M.reg(copy.deepcopy, copied)
    M.reg(copy.copy, copied)
    old_join = M.join_str

    def join(i, parts):
        if any(isinstance(p, Token) for p in parts):
            r = None
            for p in parts:
                if isinstance(p, str) and not p:
                    continue
                r = p if r is None else Token('joined', r, p)
            return r
        return old_join(i, parts)
    M.join_str = join
    old_format = M.format

    def fmt(i, x, spec):
        if isinstance(x, Token) and spec == '':
            return x
        return old_format(i, x, spec)
    M.format = fmt
    return M


FORMS = ('absent', 'blank', 'no station', 'once', 'several')


def body(regular, special):
    def run_(c):
        import gempakio.decode.gempak as G
        it = Interp(models())
        d = sym_datetime('stored', 1969, 2068)
        info = {'STID': 'stid', 'STNM': SInt.var('stnm'), 'SLAT': 'lat', 'DATE': d.date(),
                'TIME': d.time()}
        some = SBool(z3.Const('other values', z3.BoolSort()))
        given, docs = {}, {}
        for name, form in (('TEXT', regular), ('SPCL', special)):
            if form == 'absent':
                continue
            given[name] = ''
            if form != 'blank':
                t = given[name] = docs[name] = doc(c, name)
                t.found = form != 'no station'
                c.assume(t.n == 1 if form == 'once' else t.n >= 1 if form == 'no station'
                         else t.n >= 2)
        values = Values(given, some)
        report = dict(info)
        r = it.call(G.GempakSurface._process_report_text, (report, values))
        got = []
        for p in filt.parts_of(r):
            if is_sym(p.n):
                got.append(p)
            else:
                for k in range(p.n):
                    got += p.at(k)
        c.oblige('values left are those of the parameters', not values.texts)

        def check(x, param, text):
            ok = isinstance(x, dict)
            c.oblige('a record', ok)
            if not ok:
                return
            x = dict(x)
            day, tm = x.pop('DATE', None), x.pop('TIME', None)
            want = d
            if param == 'SPCL':
                found, (dd, h, m) = time_in(text)
                valid = sand(found, dd >= 1, dd <= days_in_month(d.year, d.month), h <= 23,
                             m <= 59)
                if bool(valid):
                    c.cover('time in the text')
                    want = SDT(datetime.datetime, year=d.year, month=d.month, day=dd, hour=h,
                               minute=m)
                else:
                    c.cover('stored time')
            c.oblige('day', isinstance(day, SDT) and day == want.date())
            c.oblige('time', isinstance(tm, SDT) and tm == want.time())
            c.oblige('its text', param is None or x.pop(param, None) == text)
            attach = param != 'SPCL' or 'TEXT' not in docs
            v = x.pop('values', None)
            if attach:
                if bool(some):
                    c.oblige('has the values', v == ({}, some) or isinstance(v, tuple) and
                             v[0] == {} and v[1] is some)
                else:
                    c.oblige('has the values', v is None or v[0] == {} and v[1] is some)
            else:
                c.oblige('the values belong to the regular report', v is None)
            c.oblige('the rest as it was', set(x) == {'STID', 'STNM', 'SLAT'} and all(
                x[k] is info[k] for k in x))
        seen = []
        for param, t in docs.items():
            ok = bool(got)
            c.oblige(f'reports for {param}', ok)
            if not ok:
                return
            p = got.pop(0)
            if not t.found or (regular if param == 'TEXT' else special) == 'once':
                c.oblige('one report for the whole text', isinstance(p, dict))
                if isinstance(p, dict):
                    check(p, param, Token('strip', t))
                    seen.append(p)
                    c.cover(f'whole {param}')
                continue
            ok = isinstance(p, filt.Part)
            c.oblige('one report for each identifier', ok)
            if not ok:
                return
            off = t.n + 1 - p.n
            ok = not is_sym(off) and off in (0, 1)
            c.oblige('as many as identifiers', ok)
            if not ok:
                return
            if off:     # without the empty text in front
                c.assume(t.g >= 1)
            vs = p.at(t.g - off)
            if bool(nonempty(t, t.g)):
                c.cover(f'split {param}')
                c.oblige('a report for each text', len(vs) == 1)
                if vs:
                    check(vs[0], param, Token('strip', Token(
                        'joined', Token('station', t), Token('piece', t, t.g))))
                    h = SInt.var('another piece')
                    c.assume(sand(h >= 0, h < p.n))
                    ws = p.at(h)
                    if bool(h + off != t.g) and ws:
                        c.oblige('records of their own', ws[0] is not vs[0])
                    seen += vs
            else:
                c.cover(f'nothing after an identifier in {param}')
                c.oblige('no report without text', not vs)
        if not docs:
            c.oblige('one report', len(got) == 1 and isinstance(got[0], dict))
            if got and isinstance(got[0], dict):
                check(got[0], None, None)
                c.oblige('no text', not {'TEXT', 'SPCL'} & set(got[0]))
                c.cover('no text')
            return
        c.oblige('no more reports', not got)
        c.oblige('each a record of its own', len({id(x) for x in seen}) == len(seen))
    return run_


BODIES = {f'regular {a}, special {b}': body(a, b) for a in FORMS for b in FORMS}


def run(name, b, deadline=None, timeout=10000):
    c = Ctx(name, timeout_ms=timeout, deadline=deadline)
    c.state_global = {}
    c.explore(b)
    return c


if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        if len(sys.argv) > 1 and n not in sys.argv[1:]:
            continue
        t = time.time()
        c = run(n, b, time.time() + 600)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
