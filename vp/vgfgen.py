"""Random constructible vector graphic elements, histories of valid changes and their bytes."""
import random
import struct

import numpy as np

R32 = list(range(33))
FONTS = [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33]
BASE = {'closed': [0, 1], 'filled': list(range(9)), 'smooth': [0, 1, 2],
        'group_type': [0, 1, 2, 8, 254, 255], 'group_number': [0, 1, 7, 2**31 - 1],
        'major_color': R32, 'minor_color': R32}
W10 = list(range(1, 11))
SIZES = [.1, .5, 1, 1.0, 2.25, 3.3, 9.95, 10]
SYM = dict(BASE, width=W10, size=SIZES, offset_x=[-5, 0, 3, 2**31 - 1],
           offset_y=[-2**31, 0, 4])
# documented values of every settable attribute, per kind
DOMAIN = {
    'Line': dict(BASE, width=W10, line_type=list(range(100))),
    'SpecialLine': dict(BASE, width=W10, line_type=list(range(1, 27)), direction=[1, -1],
                        size=SIZES),
    'Front': dict(BASE, width=list(range(1, 9)), front_code=list(range(1000)),
                  pip_size=list(range(40, 501)), pip_stroke=[1, 2, 3, 100],
                  pip_direction=[1, -1]),
    'SpecialText': dict(BASE, text_color=R32, size=[10, 12, 14, 18, 24, 34], font=FONTS,
                        align=[-1, 0, 1], text_flag=[1, 2], text_type=list(range(17)),
                        edgecolor=R32, facecolor=R32, turbulence_symbol=list(range(11)),
                        rotation=[0, 45, 90.5, -10.25, 360], offset_x=[-5, 0, 9],
                        offset_y=[-5, 0, 9], width=[1, 2, 8]),
    'SpecialSymbol': dict(SYM, symbol_code=list(range(42))),
    'Marker': dict(SYM, symbol_code=list(range(25))),
}
LINEAR = ('Line', 'SpecialLine', 'Front')
# constructor argument of an attribute (None: not a constructor argument)
CTOR = {
    'Line': ['line_type', 'closed', 'filled', 'smooth', 'width'],
    'SpecialLine': ['line_type', 'closed', 'filled', 'width', 'smooth', 'size', 'direction'],
    'Front': ['front_code', 'smooth', 'pip_size', 'pip_stroke', 'pip_direction',
              'minor_color'],
    'SpecialText': ['size', 'text_type', 'font', 'align', 'edgecolor', 'facecolor', 'rotation',
                    'offset_x', 'offset_y', 'turbulence_symbol'],
    'SpecialSymbol': ['width', 'size', 'offset_x', 'offset_y'],
    'Marker': ['width', 'size', 'offset_x', 'offset_y'],
}
MUST = {'Line': ['line_type', 'closed'], 'SpecialLine': ['line_type', 'closed'],
        'Front': ['front_code'], 'SpecialText': [], 'SpecialSymbol': [], 'Marker': []}
DEFAULT = {
    'Line': dict(filled=0, smooth=0, width=2),
    'SpecialLine': dict(filled=0, width=2, smooth=0, size=1, direction=1),
    'Front': dict(smooth=2, pip_size=100, pip_stroke=1, pip_direction=1),
    'SpecialText': dict(size=12, text_type=0, font=22, align=0, rotation=0, offset_x=0,
                        offset_y=0, turbulence_symbol=0),
    'SpecialSymbol': dict(width=1, size=1, offset_x=0, offset_y=0),
    'Marker': dict(width=1, size=1, offset_x=0, offset_y=0),
}


def turb_ok(st, v):
    return v in range(9 if st.get('text_type') in (7, 9) else 11)


def coord(rng, hi):
    return rng.choice([rng.uniform(-hi, hi), float(rng.randint(-hi, hi)),
                       rng.randint(-100 * hi, 100 * hi) / 100, hi, -hi, 0.0])


def some_text(rng):
    k = rng.choice([0, 1, 5, 40, 253, 254])
    s = ''.join(rng.choice('ABC abc 123.\n/-') for _ in range(k)).strip()
    if rng.random() < .25:
        s = (s[:60] + rng.choice(['é', '°C', '日本', '🌩'])).strip()
    return s


class Model:
    """An element's expected public state."""

    def __init__(self, kind, el, st):
        self.kind, self.el, self.st = kind, el, st
        self.history = []

    def case(self):
        st = {k: (v if not isinstance(v, (list, np.ndarray)) or len(v) < 12 else
                  f'{len(v)} values') for k, v in self.st.items()}
        return {'kind': self.kind, 'state': repr(st)[:1500], 'history': self.history[-20:]}

    def set(self, name, v):
        self.history.append(f'{name} = {v!r}')
        setattr(self.el, name, v)
        self.apply(name, v)

    def apply(self, name, v):
        st = self.st
        st[name] = v
        if self.kind == 'Front' and name == 'front_code':
            st['width'] = v // 10 % 10
        if self.kind == 'Front' and name == 'width':
            st['front_code'] = st['front_code'] // 100 * 100 + v * 10 + st['front_code'] % 10
        if self.kind == 'SpecialText' and name == 'text_type':
            st['turbulence_symbol'] = 0

    def flip(self):
        self.history.append('flip()')
        self.el.flip()
        k = 'direction' if self.kind == 'SpecialLine' else 'pip_direction'
        self.st[k] *= -1

    def random_change(self, rng):
        if self.kind in ('Front', 'SpecialLine') and rng.random() < .15:
            return self.flip()
        name = rng.choice(list(DOMAIN[self.kind]))
        v = rng.choice(DOMAIN[self.kind][name])
        if name == 'turbulence_symbol' and not turb_ok(self.st, v):
            v = 3
        if name == 'font' and self.st['text_flag'] == 1 and rng.random() < .5:
            v = rng.choice([0, 4, 99])
        self.set(name, v)
        return None

    def closed_points(self):
        return self.st['lat'], self.st['lon']

    def bytes(self):
        """The bytes its state stands for."""
        st = self.st
        if self.kind in LINEAR:
            la, lo = np.float32(st['lat']), np.float32(st['lon'])
            box = [min(la), min(lo), max(la), max(lo)]
            pts = struct.pack(f'>{2 * len(la)}f', *la, *lo)
        else:
            box = [np.float32(st['lat']), np.float32(st['lon'])] * 2
        if self.kind == 'Line':
            cls, typ = 3, 1
            b = struct.pack('>5i', len(la), st['line_type'], 0, st['width'], 0) + pts
        elif self.kind == 'SpecialLine':
            cls, typ = 3, 20
            b = struct.pack('>4ifi', len(la), st['line_type'], st['stroke'], st['direction'],
                            st['size'], st['width']) + pts
        elif self.kind == 'Front':
            cls, typ = 1, 2
            b = struct.pack('>6i4s', len(la), st['front_code'], st['pip_size'],
                            st['pip_stroke'], st['pip_direction'], st['width'], b'SPC') + pts
        elif self.kind == 'SpecialText':
            cls, typ = 5, 21
            b = struct.pack('>2f9i2f2i', st['rotation'], st['size'] / 14, st['text_type'],
                            st['turbulence_symbol'], st['font'], st['text_flag'], st['width'],
                            st['text_color'], st['edgecolor'], st['facecolor'], st['align'],
                            st['lat'], st['lon'], st['offset_x'], st['offset_y'])
            b += st['text'].encode() + b'\0'
        else:
            cls, typ = 4, 15 if self.kind == 'SpecialSymbol' else 19
            b = struct.pack('>2ifi3f2i', 1, st['width'], st['size'], 0, st['symbol_code'],
                            st['lat'], st['lon'], st['offset_x'], st['offset_y'])
        h = struct.pack('>3Bb4B4i4f', 0, typ, cls, st['filled'], st['closed'], st['smooth'], 0,
                        st['group_type'], st['group_number'], st['major_color'],
                        st['minor_color'], 40 + len(b), *box)
        return h + b


def make(rng, kind=None, changes=0, hi_points=500):
    from gempakio.encode import vgf as E
    kind = kind or rng.choice(list(DOMAIN))
    dom = DOMAIN[kind]
    st = {k: 0 for k in BASE}
    kw = {}
    for a in CTOR[kind]:
        if a in MUST[kind] or rng.random() < .5:
            kw[a] = rng.choice(dom[a])
    st.update(DEFAULT[kind])
    st.update(kw)
    color = rng.choice(R32)
    if kind == 'Front':
        st['major_color'] = color
        st['minor_color'] = kw.get('minor_color', color)
        kw['major_color'] = color
        st['width'] = st['front_code'] // 10 % 10
    else:
        st['major_color'] = st['minor_color'] = color
        kw['text_color' if kind == 'SpecialText' else 'color'] = color
    if kind == 'SpecialLine':
        if rng.random() < .5:
            kw['stroke'] = st['stroke'] = rng.randint(25, 75)
        elif kw['line_type'] in (24, 25):
            kw['line_type'] = st['line_type'] = 3
        if kw['line_type'] not in (24, 25):
            st['stroke'] = 1
    if kind == 'SpecialText':
        st['text_color'] = color
        st.setdefault('edgecolor', color)
        st.setdefault('facecolor', color)
        st.update(text_flag=2, width=1)
        if not turb_ok(st, st['turbulence_symbol']):
            kw['turbulence_symbol'] = st['turbulence_symbol'] = 0
        kw['text'] = st['text'] = some_text(rng)
        if len(kw['text'].encode()) > 254:
            kw['text'] = st['text'] = 'X'
    if kind in ('SpecialSymbol', 'Marker'):
        kw['symbol_code'] = st['symbol_code'] = rng.choice(dom['symbol_code'])
    if kind in LINEAR:
        n = rng.choice([2, 2, 3, 4, rng.randint(2, 40), hi_points if rng.random() < .05 else 5])
        lon, lat = [coord(rng, 180) for _ in range(n)], [coord(rng, 90) for _ in range(n)]
        if rng.random() < .2:
            lon[-1], lat[-1] = lon[0], lat[0]
        st['lon'], st['lat'] = list(lon), list(lat)
        form = rng.choice([list, np.array, lambda x: np.array(x, dtype='float32'), tuple])
        lon, lat = form(lon), form(lat)
    else:
        lon, lat = coord(rng, 180), coord(rng, 90)
        st['lon'], st['lat'] = lon, lat
    m = Model(kind, None, st)
    m.history.append(f'{kind}(' + ', '.join(f'{k}={v!r}' for k, v in kw.items()) + ')')
    m.el = getattr(E, kind)(lon, lat, **kw)
    for _ in range(changes):
        m.random_change(rng)
    return m


_ = random
