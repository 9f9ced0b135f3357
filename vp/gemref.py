"""Independent reference for the GEMPAK data management file layout.

Written from the published DM layout, not from the code under test: a builder for files of either
byte order and a reader of the raw sections.  Used by the bounded monitors only.
"""
import datetime
import os
import struct
import tempfile

SIG = b'GEMPAK DATA MANAGEMENT FILE '
BLK = 128


def I(v):   # noqa: E743
    return ('i', int(v))


def F(v):
    return ('f', float(v))


def S(s):
    b = s.encode() if isinstance(s, str) else s
    return ('s', b[:4].ljust(4))


def X(b):
    """Four raw bytes, never swapped."""
    return ('x', bytes(b))


def strwords(s, n=None):
    b = s.encode()
    n = n or (len(b) + 3) // 4
    b = b.ljust(4 * n)
    return [S(b[4 * k:4 * k + 4]) for k in range(n)]


def f32(v):
    return struct.unpack('<f', struct.pack('<f', v))[0]


def up(w):
    return w if (w - 1) % BLK == 0 else ((w - 1) // BLK + 1) * BLK + 1


def build(d, endian='<'):
    """File bytes of a description.

    d: file_type, data_source, file_keys [(name, type, [words])], row_keys, rows [[words]],
    col_keys, cols, parts [dict(name, header, dtype, params [(name, scale, offset, bits)])],
    data {(r, c, p): [words]} (header words then data), missing_float, shuffle (rng), gap.
    """
    w = {}

    def put(at, words):
        for k, x in enumerate(words):
            assert at + k not in w, (at + k)
            w[at + k] = x
        return at + len(words)

    fk, rows, cols, parts = d.get('file_keys', []), d['rows'], d['cols'], d['parts']
    rk, ck = d['row_keys'], d['col_keys']
    missing = d.get('missing_float', -9999.0)
    dmp, dml = 129, 128
    rkp = dmp + dml
    ckp = rkp + len(rk)
    fkp = ckp + len(ck)
    end = fkp + 3 * len(fk) + sum(len(x[2]) + 1 for x in fk)
    rhp = up(end)
    chp = rhp + len(rows) * (len(rk) + 1)
    pp = up(chp + len(cols) * (len(ck) + 1))
    npar = sum(len(p['params']) for p in parts)
    dbp = up(pp + 4 * len(parts) + 4 * npar)
    free = up(dbp + len(rows) * len(cols) * len(parts))
    put(8, [I(x) for x in (1, len(fk), fkp, len(rows), len(rk), rkp, rhp, len(cols), len(ck),
                           ckp, chp, len(parts), pp, dmp, dml, dbp, d['file_type'],
                           d.get('data_source', 2), d.get('machine', 11), -9999)])
    put(8 + 20 + 3, [F(missing)])
    put(rkp, [S(x) for x in rk])
    put(ckp, [S(x) for x in ck])
    at = put(fkp, [S(x[0]) for x in fk] + [I(len(x[2])) for x in fk] + [I(x[1]) for x in fk])
    for x in fk:
        at = put(at, [I(x[3] if len(x) > 3 else len(x[2]))] + x[2])
    at = rhp
    for r in rows:
        at = put(at, [I(9999)] + list(r))
    at = chp
    for c in cols:
        at = put(at, [I(9999)] + list(c))
    at = put(pp, [S(p['name']) for p in parts] + [I(p['header']) for p in parts]
             + [I(p['dtype']) for p in parts] + [I(len(p['params'])) for p in parts])
    for k in range(4):
        for p in parts:
            at = put(at, [S(x[0]) if k == 0 else I(x[k]) for x in p['params']])
    at = free
    keys = sorted(d['data'])
    if d.get('shuffle'):
        d['shuffle'].shuffle(keys)
    ptr = {}
    for k in keys:
        at += d.get('gap', 0)
        ptr[k] = at
        at = put(at, [I(len(d['data'][k]))] + list(d['data'][k]))
    for r in range(len(rows)):
        for c in range(len(cols)):
            for p in range(len(parts)):
                put(dbp + (r * len(cols) + c) * len(parts) + p, [I(ptr.get((r, c, p), 0))])
    put(dmp, [I(at), I(62), I(0), I(0)])
    total = up(at) - 1
    out = bytearray(4 * total)
    out[:28] = SIG
    for k, (t, v) in w.items():
        o = 4 * (k - 1)
        if t == 'i':
            v = v & 0xFFFFFFFF
            out[o:o + 4] = struct.pack(endian + 'I', v)
        elif t == 'f':
            out[o:o + 4] = struct.pack(endian + 'f', v)
        else:
            out[o:o + 4] = v
    return bytes(out)


LABEL = ('version file_headers file_keys_ptr rows row_keys row_keys_ptr row_headers_ptr columns '
         'column_keys column_keys_ptr column_headers_ptr parts parts_ptr data_mgmt_ptr '
         'data_mgmt_length data_block_ptr file_type data_source machine_type missing_int').split()


class Raw:
    """Raw sections of a file written by the library (either byte order)."""

    def __init__(self, b):
        self.b = b
        if b[:28] != SIG:
            raise ValueError('signature')
        self.e = '<' if b[28:32] == struct.pack('<i', 1) else '>'
        for k, n in enumerate(LABEL):
            setattr(self, n, self.i(8 + k))
        self.missing_float = self.f(31)
        self.words = len(b) // 4

    def i(self, w):
        return struct.unpack_from(self.e + 'i', self.b, 4 * (w - 1))[0]

    def f(self, w):
        return struct.unpack_from(self.e + 'f', self.b, 4 * (w - 1))[0]

    def s(self, w, n=1):
        return self.b[4 * (w - 1):4 * (w - 1 + n)].decode('latin1')

    def keys(self):
        return ([self.s(self.row_keys_ptr + k).strip() for k in range(self.row_keys)],
                [self.s(self.column_keys_ptr + k).strip() for k in range(self.column_keys)])

    def part(self, k):
        n = self.parts
        p = self.parts_ptr
        return (self.s(p + k).strip(), self.i(p + n + k), self.i(p + 2 * n + k),
                self.i(p + 3 * n + k))

    def nparams(self):
        return sum(self.part(k)[3] for k in range(self.parts))

    def param_names(self, k=0):
        p = self.parts_ptr + 4 * self.parts + sum(self.part(j)[3] for j in range(k))
        return [self.s(p + j).strip() for j in range(self.part(k)[3])]

    def pointer(self, r, c, p=0):
        return self.i(self.data_block_ptr + (r * self.columns + c) * self.parts + p)

    def rowhead(self, r):
        return self.row_headers_ptr + r * (self.row_keys + 1)

    def colhead(self, c):
        return self.column_headers_ptr + c * (self.column_keys + 1)


def sections(raw):
    """[(name, start word, words)] of the sections the label names, with their content sizes."""
    lens = []
    tot = 0
    for k in range(raw.file_headers):
        ln = raw.i(raw.file_keys_ptr + raw.file_headers + k)
        tot += ln + 1
        lens.append(ln)
    out = [('label', 1, 31),
           ('data management', raw.data_mgmt_ptr, raw.data_mgmt_length),
           ('row keys', raw.row_keys_ptr, raw.row_keys),
           ('column keys', raw.column_keys_ptr, raw.column_keys),
           ('file headers', raw.file_keys_ptr, 3 * raw.file_headers + tot),
           ('row headers', raw.row_headers_ptr, raw.rows * (raw.row_keys + 1)),
           ('column headers', raw.column_headers_ptr, raw.columns * (raw.column_keys + 1)),
           ('parts', raw.parts_ptr, 4 * raw.parts + 4 * raw.nparams()),
           ('data pointers', raw.data_block_ptr, raw.rows * raw.columns * raw.parts)]
    return out


# ---- values ---------------------------------------------------------------------------------

def date_word(d):
    return d.year % 100 * 10000 + d.month * 100 + d.day


def time_word(t):
    return t.hour * 100 + t.minute


def gdt(itype, d):
    if itype == 0:
        return date_word(d)
    return d.month * 100000000 + d.day * 1000000 + (d.year % 100) * 10000 + d.hour * 100 + d.minute


def gtm(itype, h, m):
    return itype * 100000 + h * 100 + m


def pack_bits(values, bits):
    """MSB-first stream (grids): words as signed ints."""
    big, n = 0, 0
    for v in values:
        big = (big << bits) | v
        n += bits
    pad = -n % 32
    big <<= pad
    n += pad
    return [tosigned((big >> (n - 32 * (k + 1))) & 0xFFFFFFFF) for k in range(n // 32)]


def tosigned(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v >> 31 else v


def pack_record(values, bits):
    """LSB-first record of the packed reals (DP_PACK): words as signed ints."""
    big = n = 0
    for v, b in zip(values, bits, strict=True):
        big |= v << n
        n += b
    return [tosigned((big >> (32 * k)) & 0xFFFFFFFF) for k in range((n + 31) // 32)]


class Scratch:
    """A scratch directory that is removed afterwards."""

    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix='vp_')
        self.n = 0
        return self

    def __exit__(self, *a):
        self.d.cleanup()

    def path(self):
        return os.path.join(self.d.name, 'f.dat')

    def put(self, b):
        p = self.path()
        with open(p, 'wb') as f:
            f.write(b)
        return p

    def save(self, obj, method='to_gempak'):
        p = self.path()
        getattr(obj, method)(p)
        with open(p, 'rb') as f:
            return p, f.read()


# ---- descriptions ---------------------------------------------------------------------------

def nav_words(proj, kx, ky, ll, ur, a1, a2, a3, proj_word=None):
    """Navigation block of 256 words; ll/ur are (lat, lon)."""
    return [F(2), X(proj.encode()[:4].ljust(4)), F(1), F(1), F(kx), F(ky), F(ll[0]), F(ll[1]),
            F(ur[0]), F(ur[1]), F(a1), F(a2), F(a3)] + [I(0)] * 243


def anl_words(t=2):
    return [F(t), F(1.0)] + [F(0)] * 126


def rnd_dt(rng, lo=1970, hi=2067):
    """Calendar time, to the minute, in the two-digit-year window."""
    y = rng.choice([lo, 1999, 2000, 2009, 2024, hi, rng.randint(lo, hi)])
    base = datetime.datetime(y, 1, 1)
    days = rng.choice([0, 1, 31 + 28, 364, rng.randint(0, 364)])
    return base + datetime.timedelta(days=days, hours=rng.choice([0, 12, 23, rng.randint(0, 23)]),
                                     minutes=rng.choice([0, 0, 30, 59, rng.randint(0, 59)]))


def grid_desc(rng, grids, kx, ky, nav=None, shuffle=False, anl=2, missing=-9999.0):
    """grids: list of dicts(gdt1, gtm1, gdt2, gtm2, lv1, lv2, vc, parm, block words)."""
    cols, data = [], {}
    for k, g in enumerate(grids):
        nm = g['parm'].ljust(12)
        cols.append([I(g['gdt1']), I(g['gtm1']), I(g.get('gdt2', 0)), I(g.get('gtm2', 0)),
                     I(g['lv1']), I(g.get('lv2', -1)), I(g['vc']), S(nm[:4]), S(nm[4:8]),
                     S(nm[8:12])])
        data[0, k, 0] = g['block']
    nav = nav or nav_words('CED', kx, ky, (10, -100), (40, -60), 0, 0, 0)
    return dict(file_type=3, data_source=6, row_keys=['GRID'], rows=[[I(1)]],
                col_keys=['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2',
                          'GPM3'], cols=cols,
                file_keys=[('NAVB', 1, nav), ('ANLB', 1, anl_words(anl))],
                parts=[dict(name='GRID', header=2, dtype=5, params=[('GRID', 0, 0, 0)])],
                data=data, missing_float=missing, shuffle=rng if shuffle else None)


def grib_block(kx, ky, bits, fields, ref, scale, missing_flag=-1, packing=1):
    return [I(kx), I(ky), I(packing), I(bits), I(missing_flag), I(kx * ky), F(ref), F(scale)] + \
        [I(v) for v in pack_bits(fields, bits)]


def diff_block(kx, ky, bits, fields, ref, scale, diffmin, missing_flag=0):
    return [I(kx), I(ky), I(3), I(bits), I(missing_flag), I(kx * ky), I(kx), F(ref), F(scale),
            F(diffmin)] + [I(v) for v in pack_bits(fields, bits)]


def none_block(kx, ky, values):
    return [I(kx), I(ky), I(0)] + [F(v) for v in values]


STN = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']


def stn_words(s, keys=STN):
    m = {'STID': S(s['id'][:4]), 'STNM': I(s['num']), 'SLAT': I(round(s['lat'] * 100)),
         'SLON': I(round(s['lon'] * 100)), 'SELV': I(s['elv']), 'STAT': S(s['st']),
         'COUN': S(s['co']), 'STD2': S(s['id'][4:8]), 'SPRI': I(s.get('pri', 0))}
    return [m[k] for k in keys]


STRKEYS = {'STID', 'STAT', 'COUN', 'STD2', 'GPM1', 'GPM2', 'GPM3'}


def swap(b):
    """The same file in the other byte order (character data unchanged)."""
    raw = Raw(b)
    keep = set(range(1, 8))
    keep.update(range(raw.row_keys_ptr, raw.row_keys_ptr + raw.row_keys))
    keep.update(range(raw.column_keys_ptr, raw.column_keys_ptr + raw.column_keys))
    keep.update(range(raw.file_keys_ptr, raw.file_keys_ptr + raw.file_headers))
    if raw.file_headers:
        at = raw.file_keys_ptr + 3 * raw.file_headers
        keep.add(at + 2)     # projection name of the navigation block
    rk, ck = raw.keys()
    for r in range(raw.rows):
        keep.update(raw.rowhead(r) + 1 + k for k, n in enumerate(rk) if n in STRKEYS)
    for c in range(raw.columns):
        keep.update(raw.colhead(c) + 1 + k for k, n in enumerate(ck) if n in STRKEYS)
    if 'GVCD' in ck:
        k = ck.index('GVCD')
        for c in range(raw.columns):
            if raw.i(raw.colhead(c) + 1 + k) > 8:
                keep.add(raw.colhead(c) + 1 + k)
    keep.update(range(raw.parts_ptr, raw.parts_ptr + raw.parts))
    pn = raw.parts_ptr + 4 * raw.parts
    keep.update(range(pn, pn + raw.nparams()))
    for p in range(raw.parts):
        _n, hl, dt, _k = raw.part(p)
        if dt != 3:
            continue
        for r in range(raw.rows):
            for c in range(raw.columns):
                q = raw.pointer(r, c, p)
                if q:
                    keep.update(range(q + 1 + hl, q + 1 + raw.i(q)))
    out = bytearray(b)
    for w in range(1, len(b) // 4 + 1):
        if w not in keep:
            o = 4 * (w - 1)
            out[o:o + 4] = b[o:o + 4][::-1]
    return bytes(out)
