"""C22: splitting report text keeps every report and its time."""
import calendar
import copy
import datetime
import string

from contracts import report_text
from vp import gemref as R, gen
from vp.api import Fail, Task, limit

FUNCTIONS = ['gempakio.decode.gempak.GempakSurface._process_report_text']
TRUSTED = ['what the patterns for a station identifier and a time group find (a station is in front of the text; a group is three times two digits): re, checked by the monitor', 'str.split at a text gives one piece more than it occurs, that joined with it make the text; strip removes surrounding whitespace', 'datetime refuses days, hours and minutes that do not exist; copy.deepcopy']
ASSUMPTIONS = ['the values of a report are immutable (numbers and texts)']


def proofs(tier):
    return [Task(n, lambda dl, n=n, b=b: report_text.run(n, b, dl), functions=FUNCTIONS)
            for n, b in report_text.BODIES.items()]


MONITOR_SECONDS = 12
UP = string.ascii_uppercase
BODY = ['AUTO', '10SM', 'CLR', '21/17', 'A2992', 'RMK', 'SLP123', '18005KT', '$', 'T02110167',
        'METAR', 'COR', '120Z', '1234567Z', 'RAB05', '////', 'P0003', '----', '310059ZZ']


def ident(rng):
    return rng.choice(UP) + ''.join(rng.choice(UP + '0123456789') for _ in range(3))


def group(rng, dt):
    k = rng.random()
    if k < .5:
        return f'{dt:%d%H%M}Z'
    if k < .75:
        return f'{rng.randint(1, 31):02d}{rng.randint(0, 23):02d}{rng.randint(0, 59):02d}Z'
    if k < .85:
        return f'{rng.randint(0, 99):02d}{rng.randint(0, 99):02d}{rng.randint(0, 99):02d}Z'
    return ''


def body(rng, dt, sid):
    ws = [rng.choice(BODY) for _ in range(rng.randint(0, 5))]
    ws.insert(rng.choice([0, 0, 0, rng.randint(0, len(ws))]), group(rng, dt))
    if rng.random() < .1:
        ws.append(sid[1:])
    return rng.choice([' ', ' ', '  ']).join(w for w in ws if w) or 'NIL'


def text(rng, dt, sid):
    """A text and the reports in it."""
    k = rng.random()
    if k < .05:
        return rng.choice(['', None]), []
    if k < .3:      # no identifier in front
        t = rng.choice(['', '/', 'x', '12']) + body(rng, dt, sid)
        if rng.random() < .4:
            t += ' ---- ' + body(rng, dt, sid) + ' ---- end'
        first = t.split()[0] if t.split() else ''
        if len(first) == 4 and first[0] in UP and all(c in UP + '0123456789' for c in first) \
                and not t.startswith(' '):
            t = '=' + t
        return t, [t.strip()]
    n = rng.choice([1, 1, 2, 3, 5])
    reps = [f'{sid} {body(rng, dt, sid)}' for _ in range(n)]
    if any(r.count(sid) > 1 for r in reps):
        return text(rng, dt, sid)
    sep = rng.choice([' ', '\r\n', '=', '   ', '\n'])
    if sep == '=':
        reps = [r + '=' for r in reps]
        t = ''.join(reps)
    else:
        t = sep.join(reps) + rng.choice(['', ' '])
    if t.count(sid) != n:
        return text(rng, dt, sid)
    return t, [r.strip() for r in reps]


def timegroup(rep):
    """The first dddddd Z group of the text."""
    for i in range(len(rep) - 6):
        g = rep[i:i + 7]
        if g[6] == 'Z' and all('0' <= c <= '9' for c in g[:6]):
            return int(g[:2]), int(g[2:4]), int(g[4:6])
    return None


def expected(dt, regular, special, has_regular, values):
    out = []
    for r in regular:
        out.append(('TEXT', r, dt, values))
    for r in special:
        g = timegroup(r)
        t = dt
        if g and 1 <= g[0] <= calendar.monthrange(dt.year, dt.month)[1] and g[1] < 24 and g[2] < 60:
            t = datetime.datetime(dt.year, dt.month, *g)
        out.append(('SPCL', r, t, {} if has_regular else values))
    if not out:
        out.append((None, None, dt, values))
    return out


def direct(rng, log):
    from gempakio.decode.gempak import GempakSurface
    while log.more():
        dt = R.rnd_dt(rng, 1969).replace(second=0)
        sid = ident(rng)
        report = {'STID': sid[1:], 'STNM': rng.randint(0, 99999), 'SLAT': 1.5, 'SLON': 2.5,
                  'SELV': 3, 'DATE': dt.date(), 'TIME': dt.time()}
        values = {n: rng.randint(-50, 50) / 2 for n in ['TMPC', 'DWPC', 'SKNT'][:rng.randint(0, 3)]}
        t, rt = text(rng, dt, sid)
        s, rs = text(rng, dt, sid)
        arg = dict(values)
        if t is not None:
            arg['TEXT'] = t
        if s is not None or t is None:
            arg['SPCL'] = s
        if t is None and s is None:
            arg['SPCL'] = ''
        case = {'report': str(report), 'values': {k: str(v) for k, v in arg.items()}}
        before = copy.deepcopy(report)
        with limit(10, '_process_report_text', case):
            got = GempakSurface._process_report_text(copy.deepcopy(report), arg)
        want = expected(dt, rt, rs, bool(rt), values)
        if len(got) != len(want):
            raise Fail(f'{len(got)} reports for {len(want)} in the text: {got}', case)
        for o, (param, rep, when, vals) in zip(got, want):
            key = {**before, 'DATE': when.date(), 'TIME': when.time(), **vals}
            if param:
                key[param] = rep
            if o != key:
                raise Fail(f'report {o}, should be {key}', case)
        if len({id(o) for o in got}) != len(got):
            raise Fail('the same record is returned twice', case)
        log.case(str(case))


def files(rng, log):
    import gempakio as g
    with R.Scratch() as tmp:
        while log.more():
            dt = gen.times(rng, 1)[0]
            st = {**gen.station(rng), 'id': ident(rng)}
            t, rt = text(rng, dt, st['id'])
            s, rs = text(rng, dt, st['id'])
            vals = {'TMPC': 12.5, 'DRCT': -40.0}
            parts = [dict(name='SFDT', header=1, dtype=1,
                          params=[('TMPC', 0, 0, 0), ('DRCT', 0, 0, 0)]),
                     dict(name='SFTX', header=1, dtype=3, params=[('TEXT', 0, 0, 0)]),
                     dict(name='SFSP', header=1, dtype=3, params=[('SPCL', 0, 0, 0)])]
            data = {}
            if rng.random() < .8:
                data[0, 0, 0] = [R.I(0), R.F(12.5), R.F(-40.0)]
            else:
                vals = {}
            if t is not None:
                data[0, 0, 1] = [R.I(0)] + R.strwords(t or '    ')
            if s is not None:
                data[0, 0, 2] = [R.I(0)] + R.strwords(s or '    ')
            if not data:
                continue
            if t == '' and s is None and not vals:
                continue
            d = dict(file_type=1, data_source=2, row_keys=['DATE', 'TIME'],
                     rows=[[R.I(R.date_word(dt)), R.I(R.time_word(dt))]], col_keys=R.STN,
                     cols=[R.stn_words(st, R.STN)], parts=parts, data=data)
            case = {'text': t, 'special': s, 'time': str(dt), 'values': vals, 'id': st['id']}
            with limit(20, 'sfjson', case):
                f = g.GempakSurface(tmp.put(R.build(d, rng.choice('<>'))))
                got = f.sfjson(include_special=True)
            # blanks around a text are not stored text
            want = expected(dt, rt, rs, bool(rt), vals)
            if len(got) != len(want):
                raise Fail(f'{len(got)} reports, {len(want)} stored: {got}', case)
            for o, (param, rep, when, v) in zip(got, want):
                w = {k.lower(): x for k, x in v.items()}
                if param:
                    w[param.lower()] = rep
                have = {k: (x if isinstance(x, str) else float(x)) for k, x in
                        o['values'].items()}
                if o['properties']['date_time'] != when or have != w:
                    raise Fail(f'report at {o["properties"]["date_time"]} with {have}, should be '
                               f'{when} with {w}', case)
            log.case(str(case))


MONITORS = ['direct', 'files']
