"""Texts made of literal pieces and digit fields of known width; dates and time spans.

Assumed contracts of the library: datetime.strptime / strftime on full-width digit fields,
timedelta of hours and minutes, date + timedelta (an unknown function of both), re.split by a
pattern that matches no digit.
"""
import datetime as _dt
import re

from .core import SInt, Sym, Unsupported, ctx, is_sym, mknot, sand
from .models import (SDT, STD, Digits, SFmt, days_in_month, deep_sym, strptime, sym_datetime)


def width(p):
    if isinstance(p, str):
        return len(p)
    if isinstance(p, Digits):
        return p.width
    raise Unsupported('length of free text')


def length(s):
    return sum(width(p) for p in s.parts)


def cut(s, a, b):
    """s[a:b]"""
    out = []
    pos = 0
    for p in s.parts:
        w = width(p)
        lo, hi = max(a - pos, 0), min(b - pos, w)
        if lo < hi:
            if isinstance(p, str):
                out.append(p[lo:hi])
            elif lo == 0 and hi == w:
                out.append(p)
            else:
                t = p.term // 10 ** (w - hi)
                if lo:
                    t = t % 10 ** (hi - lo)
                out.append(Digits(t, hi - lo))
        pos += w
    return simplest(out)


def simplest(parts):
    s = SFmt(parts)
    if all(isinstance(p, str) for p in s.parts):
        return ''.join(s.parts)
    return s


def fmt_eq(a, o):
    if isinstance(o, str):
        o = SFmt([o])
    if not isinstance(o, SFmt):
        return False
    if length(a) != length(o):
        return False
    conds = []
    cuts = {0}
    for s in (a, o):
        pos = 0
        for p in s.parts:
            pos += width(p)
            cuts.add(pos)
    cs = sorted(cuts)
    for lo, hi in zip(cs, cs[1:]):
        x, y = cut(a, lo, hi), cut(o, lo, hi)
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return False
            continue

        def val(v):
            if isinstance(v, str):
                return int(v) if v.isascii() and v.isdigit() else None
            return v.parts[0].term
        vx, vy = val(x), val(y)
        if vx is None or vy is None:
            return False
        conds.append(vx == vy)
    return sand(*conds)


def placeholder(s):
    out = ''
    back = {}
    for i, p in enumerate(s.parts):
        if isinstance(p, str):
            out += p
        else:
            ch = chr(0xE000 + i)
            back[ch] = p
            out += ch * width(p)
    return out, back


def restore(t, s, back):
    """Pieces of the placeholder text as texts again (whole runs only)."""
    out = []
    i = 0
    while i < len(t):
        p = back.get(t[i])
        if p is None:
            out.append(t[i])
            i += 1
        else:
            if t[i:i + p.width] != t[i] * p.width:
                raise Unsupported('text split inside a digit field')
            out.append(p)
            i += p.width
    return simplest(out)


def m_split(interp, args, kw):
    if not (len(args) == 2 and isinstance(args[1], SFmt)):
        return NotImplemented
    pat, s = args
    if re.search(pat, '0123456789'):
        raise Unsupported('re.split by a pattern that matches digits')
    t, back = placeholder(s)
    return [restore(x, s, back) if x is not None else None for x in re.split(pat, t)]


def sdt_add(d, o):
    if not isinstance(o, (STD, _dt.timedelta)):
        return NotImplemented
    c = ctx()
    memo = c.state.setdefault('date_add', [])
    for d0, o0, r in memo:
        if d0 is d and o0 is o:
            return r
    r = sym_datetime('sum')
    memo.append((d, o, r))
    return r


def register(M):
    SFmt.sym_len = length
    SFmt.pytype = str
    SFmt.upper = lambda s: simplest([p.upper() if isinstance(p, str) else p for p in s.parts])
    SFmt.lower = lambda s: simplest([p.lower() if isinstance(p, str) else p for p in s.parts])
    def split(s, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or any(ch.isdigit() for ch in sep):
            raise Unsupported('split of a text')
        t, back = placeholder(s)
        return [restore(x, s, back) for x in t.split(sep, maxsplit)]
    SFmt.split = split

    def has(s, x):
        if not isinstance(x, str) or any(ch.isdigit() for ch in x):
            raise Unsupported('search of a text')
        return x in placeholder(s)[0]
    SFmt.__contains__ = has
    SFmt.__eq__ = fmt_eq
    SFmt.__ne__ = lambda a, b: mknot(fmt_eq(a, b))
    SFmt.__hash__ = Sym.__hash__

    def sl(s, k):
        n = length(s)
        if isinstance(k, int):
            k = slice(k, k + 1 or None)
        if not isinstance(k, slice) or deep_sym((k.start, k.stop, k.step)):
            raise Unsupported('symbolic text index')
        a, b, st = k.indices(n)
        if st != 1:
            raise Unsupported('text slice step')
        return cut(s, a, b)
    SFmt.__getitem__ = sl
    SDT.__add__ = sdt_add
    M.table[(id(type), 'strptime')] = lambda i, slf, a, k: (
        strptime(*a) if deep_sym(a) else NotImplemented)
    M.reg(re.split, m_split)

    def m_timedelta(interp, args, kw):
        if not (deep_sym(args) or deep_sym(kw)):
            return NotImplemented
        if args or set(kw) - {'hours', 'minutes', 'days'}:
            raise Unsupported('timedelta arguments')
        return STD(kw.get('days', 0) * 1440 + kw.get('hours', 0) * 60 + kw.get('minutes', 0))
    M.reg(_dt.timedelta, m_timedelta)
    return M


def date_text(prefix, ymin=1969, ymax=2068):
    """An arbitrary YYYYmmddHHMM text and the date it names."""
    d = sym_datetime(prefix, ymin, ymax)
    f = d.f
    return [Digits(f['year'], 4), Digits(f['month'], 2), Digits(f['day'], 2),
            Digits(f['hour'], 2), Digits(f['minute'], 2)], d


__all__ = ['register', 'date_text', 'SDT', 'STD', 'SInt', 'is_sym', 'days_in_month']
