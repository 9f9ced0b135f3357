"""Reference bytes of vector graphic elements of every kind, from layout tables (monitors only)."""
import datetime
import random
import string
import struct

HEAD = 'delete:B vg_type:B vg_class:B filled:b closed:B smooth:B version:B group_type:B ' \
       'group_number:i major_color:i minor_color:i record_size:i min_lat:f min_lon:f ' \
       'max_lat:f max_lon:f'
SPTEXT = 'rotation:f1 text_size:f3 text_type:i turbulence_symbol:i font:i text_flag:i width:i ' \
         'text_color:i line_color:i fill_color:i align:i lat:f lon:f offset_x:i offset_y:i'
TC = 'storm_number:5s issue_status:2s basin:5s advisory_number:5s storm_name:128s ' \
     'storm_type:5s valid_time:21s timezone:4s forecast_period:5s'
TCN = TC
WATCH_TAIL = 'issue_time:20s expire_time:20s watch_type:i severity:i timezone:4s max_hail:8s ' \
    'max_wind:8s max_tops:8s mean_storm_direction:8s mean_storm_speed:8s states:{0}s ' \
    'adjacent_areas:{0}s replacing:24s forecaster:64s filename:128s issue_flag:i ' \
    'wsm_issue_time:20s wsm_expire_time:20s wsm_reference_direction:32s ' \
    'wsm_recent_from_line:128s wsm_md_number:8s wsm_forecaster:64s'
ANCH = 'anchor{0}_station:8s anchor{0}_lat:f anchor{0}_lon:f anchor{0}_distance:i ' \
       'anchor{0}_direction:4s'


class Given:
    """Field values chosen, else random ones of the field's type."""

    def __init__(self, rng, **kw):
        self.rng = rng
        self.kw = kw
        self.exp = {}

    def value(self, name, fmt):
        rng = self.rng
        if name in self.kw:
            return self.kw[name]
        if fmt[0] == 'f':
            nd = int(fmt[1:] or 2)
            return rng.randint(-1800, 1800) / 10**nd
        if fmt[-1] == 's':
            return word(rng, int(fmt[:-1]))
        if fmt == 'i' and name not in ('font', 'text_flag', 'width') and rng.random() < .2:
            return rng.choice([-1, -2**31, 2**31 - 1, rng.randint(-2**31, 2**31 - 1)])
        return rng.randint(0, 60)


def word(rng, n):
    k = rng.choice([0, 1, n - 1, n, rng.randint(0, n)])
    s = ''.join(rng.choice(string.ascii_letters + string.digits + ' /.') for _ in range(k))
    return s.strip()


def pack(g, layout, order='>', pre='', record=True):
    out = b''
    for item in layout.split():
        name, fmt = item.split(':')
        v = g.value(name, fmt)
        if fmt[-1] == 's':
            n = int(fmt[:-1])
            b = v.encode()[:n]
            junk = bytes(g.rng.randrange(256) for _ in range(n - len(b) - 1)) \
                if g.rng.random() < .5 else bytes(max(0, n - len(b) - 1))
            out += (b if len(b) == n else b + b'\0' + junk)[:n]
        else:
            out += struct.pack(order + fmt[0], v)
        if record:
            g.exp[pre + name] = v
    return out


def coords(g, n, pad=0, lat='lat', lon='lon', key=True):
    la = [g.rng.randint(-9000, 9000) / 100 for _ in range(n)]
    lo = [g.rng.randint(-18000, 18000) / 100 for _ in range(n)]
    if key:
        g.exp[lat], g.exp[lon] = la, lo
    return la, lo, struct.pack(f'>{2 * n}f', *la, *lo) + junk(g.rng, 8 * pad)


def junk(rng, n):
    return rng.randbytes(n) if n > 0 and rng.random() < .5 else bytes(max(n, 0))


def npts(rng, hi=500, lo=1):
    return rng.choice([lo, 2, 3, min(7, hi), rng.randint(lo, min(hi, 40)), hi if rng.random() < .1 else 4])


def line(rng, h):
    n = npts(rng)
    g = Given(rng, number_points=n, line_type=rng.randint(0, 99))
    b = pack(g, 'number_points:i line_type:i line_type_hardware:i width:i line_width_hardware:i')
    b += coords(g, n)[2]
    if h['closed'] and n > 2:
        for k in ('lat', 'lon'):
            g.exp[k] = g.exp[k] + g.exp[k][:1]
    return b, g.exp


def special_line(rng, h):
    n = npts(rng)
    g = Given(rng, number_points=n, line_type=rng.randint(1, 26), direction=rng.choice([1, -1]))
    b = pack(g, 'number_points:i line_type:i stroke:i direction:i size:f1 width:i')
    b += coords(g, n)[2]
    for k in ('lat', 'lon'):
        if h['closed'] and n > 2:
            g.exp[k] = g.exp[k] + g.exp[k][:1]
        if g.exp['direction'] == -1:
            g.exp[k] = g.exp[k][::-1]
    return b, g.exp


def front(rng, h):
    n = npts(rng)
    g = Given(rng, number_points=n, front_code=rng.randint(0, 999))
    b = pack(g, 'number_points:i front_code:i pip_size:i pip_stroke:i pip_direction:i width:i '
                'label:4s')
    return b + coords(g, n)[2], g.exp


def symbol(rng, h):
    g = Given(rng)
    b = pack(g, 'number_symbols:i width:i size:f1 symbol_type:i symbol_code:f0 lat:f lon:f '
                'offset_x:i offset_y:i')
    return b, g.exp


def circle(rng, h):
    g = Given(rng, number_points=2, line_type=rng.randint(0, 99))
    b = pack(g, 'number_points:i line_type:i line_type_hardware:i width:i line_width_hardware:i')
    return b + coords(g, 2)[2], g.exp


def lists(rng, h):
    n = npts(rng, 500, 0)
    g = Given(rng, number_items=n, list_type=rng.randint(1, 5), marker_type=rng.randint(0, 24))
    b = pack(g, 'list_type:i marker_type:i marker_size:f1 marker_width:i number_items:i')
    items = [word(rng, 8) for _ in range(n)]
    b += b''.join(s.encode().ljust(9, b'\0') for s in items) + junk(rng, 9 * (500 - n))
    la, lo, _ = coords(g, n)
    b += struct.pack(f'>{n}f', *la) + junk(rng, 4 * (500 - n))
    b += struct.pack(f'>{n}f', *lo) + junk(rng, 4 * (500 - n))
    g.exp['list_items'] = items
    return b, g.exp


def text_body(rng, g, n=None):
    s = word(rng, n or rng.randint(2, 200))
    if rng.random() < .3 and '$' not in s:
        s = s[:len(s) // 2].strip() + '$$' + s[len(s) // 2:].strip()
        s = s.strip()
    return s


def text(rng, h):
    g = Given(rng)
    b = pack(g, 'rotation:f1 size:f3 font:i text_flag:i width:i align:i lat:f lon:f '
                'offset_x:i offset_y:i')
    s = text_body(rng, g)
    g.exp['text'] = s.replace('$$', '\n').strip()
    return b + s.encode() + b'\0' + junk(rng, rng.choice([0, 0, 3])), g.exp


def special_text(rng, h):
    g = Given(rng)
    b = pack(g, SPTEXT.replace('text_size', 'size'))
    s = text_body(rng, g)
    g.exp['text'] = s.replace('$$', '\n').strip()
    return b + s.encode() + b'\0' + junk(rng, rng.choice([0, 0, 3])), g.exp


def track(rng, h):
    n = rng.choice([1, 2, 5, 50, rng.randint(1, 50)])
    era = rng.choice([0, 1, 2])
    kw = dict(total_points=n)
    base = 'track_type:i total_points:i initial_points:i initial_line_type:i ' \
           'extrapolated_line_type:i initial_mark_type:i extrapolated_mark_type:i line_width:i ' \
           'speed:f direction:f increment:i'
    tms = [(datetime.datetime(2020, 1, 1) + datetime.timedelta(minutes=rng.randint(0, 10**6))
            ).strftime('%y%m%d/%H%M') for _ in range(n)]
    if era == 2:
        g = Given(rng, **kw, skip=rng.randint(-3, 4), font=rng.randint(0, 33))
        b = pack(g, base + ' skip:i font:i font_flag:i')
        sz = rng.randint(1, 50) / 10
        b += struct.pack('<f', sz)
        g.exp['font_size'] = sz
    else:
        # the words that follow are the text of the first time: out of range as a skip or font
        g = Given(rng, **kw, skip=rng.randint(-3, 4))
        b = pack(g, base + (' skip:i' if era else ''))
        g.exp.setdefault('skip', 0)
        g.exp.update(font=1, font_flag=2, font_size=1.0)
    b += b''.join(t.encode().ljust(18, b'\0') for t in tms) + junk(rng, 18 * (50 - n))
    la, lo, c = coords(g, n, 50 - n)
    g.exp['times'] = tms
    return b + c, g.exp


def sigmet(rng, h):
    n = npts(rng)
    g = Given(rng, number_points=n)
    v1 = 'phenomena2:32s phenomena_name:36s phenomena_lat:8s phenomena_lon:8s pressure:i ' \
         'max_wind:i free_text:256s ' if h['version'] else ''
    b = pack(g, 'subtype:i number_points:i line_type:i line_width:i side_of_line:i area:8s '
                'flight_info_region:32s status:i distance:f message_id:12s sequence_number:i '
                'start_time:20s end_time:20s remarks:80s sonic:i phenomena:32s ' + v1 +
                'trend:8s movement:8s type_indicator:i type_time:20s flight_level:i speed:i '
                'direction:4s tops:80s forecaster:16s')
    g.exp.pop('status')
    return b + coords(g, n)[2], g.exp


def ccf(rng, h):
    n = rng.choice([1, 3, 100, rng.randint(1, 100)])
    g = Given(rng, number_points=n)
    b = pack(g, 'subtype:i number_points:i coverage:i storm_tops:i probability:i growth:i '
                'speed:f direction:f')
    b += pack(g, 'text_lat:f text_lon:f arrow_lat:f arrow_lon:f high_fill:i med_fill:i low_fill:i '
                 'line_type:i arrow_size:f1', '<')
    t = Given(rng)
    c = pack(t, SPTEXT + ' text:255s')
    for k in ('font', 'text_flag', 'width'):
        t.exp[k] = struct.unpack('<I', struct.pack('>I', t.exp[k]))[0]
    for k in ('rotation', 'text_size', 'text_type', 'turbulence_symbol', 'font', 'text_flag',
              'width', 'fill_color', 'align', 'offset_x', 'offset_y', 'text'):
        g.exp[k] = t.exp[k]
    lay = word(rng, 255)
    g.exp['text_layout'] = lay
    b += c + b'\0' + lay.encode().ljust(256, b'\0')
    return b + coords(g, n, 100 - n)[2], g.exp


def volcano(rng, h):
    g = Given(rng)
    b = pack(g, 'name:64s code:f1 size:f1 width:i number:17s location:17s area:33s '
                'origin_station:17s vaac:33s wmo_id:8s header_number:9s elevation:9s year:9s '
                'advisory_number:9s correction:4s info_source:256s additional_source:256s '
                'aviation_color:16s details:256s obs_date:16s obs_time:16s obs_ash:1024s '
                'forecast_6hr:1024s forecast_12hr:1024s forecast_18hr:1024s remarks:512s '
                'next_advisory:128s forecaster:64s')
    b += b'\0\0\0' + pack(g, 'lat:f lon:f offset_x:i offset_y:i')
    return b, g.exp


def ash(rng, h):
    n = rng.choice([1, 3, 50, rng.randint(1, 50)])
    g = Given(rng, number_points=n)
    b = pack(g, 'subtype:i number_points:i distance:f forecast_hour:i line_type:i line_width:i '
                'side_of_line:i speed:f speeds:16s direction:4s flight_level1:16s '
                'flight_level2:16s')
    t = Given(rng)
    b += pack(t, SPTEXT)
    for k, v in t.exp.items():
        g.exp[{'lat': 'text_lat', 'lon': 'text_lon'}.get(k, k)] = v
    s = word(rng, 254)
    g.exp['text'] = s
    b += s.encode().ljust(255, b'\0') + b'\0'
    return b + coords(g, n, rng.choice([0, 50 - n]))[2], g.exp


def gfa(rng, h):
    k, n = rng.randint(0, 4), npts(rng)
    g = Given(rng, number_blocks=k, number_points=n)
    b = pack(g, 'number_blocks:i number_points:i')
    g.exp['blocks'] = [word(rng, rng.choice([5, 1023])) for _ in range(k)]
    b += b''.join(s.encode().ljust(1024, b'\0') for s in g.exp['blocks'])
    return b + coords(g, n)[2], g.exp


BARB = 'wind_color:i number_wind:i width:i size:f1 wind_type:i head_size:f1 speed:f direction:f ' \
       'lat:f lon:f'


def jet(rng, h):
    n = npts(rng)
    g = Given(rng, number_points=n)
    b = pack(g, 'line_color:i number_points:i line_type:i stroke:i direction:i size:f1 width:i')
    line_exp = dict(g.exp)
    c = Given(rng)
    b += coords(c, n, 500 - n)[2]
    line_exp.update(c.exp)
    out = {'line': line_exp, 'barbs': [], 'hashes': []}
    kb = rng.choice([0, 1, 3, 50])
    b += struct.pack('>i', kb)
    for _ in range(kb):
        t = Given(rng)
        b += pack(t, BARB + ' flight_level_color:i text_rotation:f1 text_size:f3 text_type:i '
                  'turbulence_symbol:i font:i text_flag:i text_width:i text_color:i line_color:i '
                  'fill_color:i align:i text_lat:f text_lon:f offset_x:i offset_y:i text:255s')
        b += b'\0'
        out['barbs'].append(t.exp)
    b += junk(rng, (50 - kb) * (26 * 4 + 256))
    kh = rng.choice([0, 1, 3, 50])
    b += struct.pack('>i', kh)
    for _ in range(kh):
        t = Given(rng)
        b += pack(t, BARB)
        out['hashes'].append(t.exp)
    b += junk(rng, (50 - kh) * 40)
    return b, {'_jet': out, 'number_barbs': kb, 'number_hashes': kh}


def tca(rng, h):
    e = dict(storm_number=rng.randint(1, 50), issue_status=rng.choice('OTXE'),
             basin=rng.randint(0, 3), advisory_number=rng.randint(1, 99),
             storm_name=rng.choice(['Bob', 'Al', 'Twenty-One']), storm_type=rng.randint(0, 4),
             valid_time='200101/1200', timezone=rng.choice(['EDT', 'CST']),
             text_lat=rng.randint(-900, 900) / 10, text_lon=rng.randint(-1800, 1800) / 10,
             text_font=rng.randint(1, 33), text_size=rng.randint(5, 30) / 10,
             text_width=rng.randint(1, 9))
    nw = rng.randint(0, 3)
    e['number_ww'] = nw
    s = ''.join(f'<tca_{k}>{v}' for k, v in [
        ('stormNum', e['storm_number']), ('issueStatus', e['issue_status']),
        ('basin', e['basin']), ('advisoryNum', e['advisory_number']),
        ('stormName', e['storm_name']), ('stormType', e['storm_type']),
        ('validTime', e['valid_time']), ('timezone', e['timezone']), ('textLat', e['text_lat']),
        ('textLon', e['text_lon']), ('textFont', e['text_font']), ('textSize', e['text_size']),
        ('textWidth', e['text_width']), ('wwNum', nw)])
    for k in range(nw):
        nb = rng.randint(1, 3)
        s += f'<tca_tcawwStr_{k}>{rng.randint(0, 1)}|{rng.randint(0, 1)}|{rng.randint(0, 2)}'
        s += f'<tca_numBreakPts_{k}>{nb}<tca_breakPts_{k}>'
        s += '|'.join(f'{rng.randint(-900, 900) / 10}|{rng.randint(-1800, 1800) / 10}|PT_{j}'
                      for j in range(nb))
    return s.encode() + b'<\0' + junk(rng, rng.choice([0, 2])), e


def tc_fields(rng):
    return dict(storm_number=str(rng.randint(1, 40)), issue_status=rng.choice('OTXE'),
                basin=str(rng.randint(0, 3)), advisory_number=str(rng.randint(1, 99)),
                storm_type=str(rng.randint(0, 4)), valid_time='200102/1230')


def tc_fix(e):
    e['basin'], e['storm_type'] = int(e['basin']), int(e['storm_type'])
    e['valid_time'] = datetime.datetime(2020, 1, 2, 12, 30, tzinfo=datetime.timezone.utc)
    return e


def tc_error(rng, h):
    n = npts(rng)
    g = Given(rng, **tc_fields(rng), number_points=n)
    b = pack(g, TC + ' line_color:i line_type:i fill_color:i fill_type:i number_points:i')
    return b + coords(g, n)[2], tc_fix(g.exp)


def tc_track(rng, h):
    n = rng.choice([0, 1, 3, 10])
    g = Given(rng, **tc_fields(rng), number_points=n)
    b = pack(g, TC + ' line_color:i line_type:i number_points:i')
    pts = []
    for _ in range(n):
        t = Given(rng)
        b += pack(t, 'lat:f lon:f ' + ' '.join(f'{k}:50s' for k in [
            'advisory_date', 'tau', 'max_wind', 'wind_gust', 'minimum_pressure',
            'development_level', 'development_label', 'direction', 'speed', 'date_label',
            'storm_source'])) + b'\0\0'
        pts.append(t.exp)
    e = tc_fix(g.exp)
    e['_sub'] = {'track_points': pts}
    return b, e


def tc_break(rng, h):
    n = rng.choice([0, 1, 3, 10])
    g = Given(rng, **tc_fields(rng), number_points=n, ww_level=rng.randint(0, 3))
    b = pack(g, TC + ' line_color:i line_width:i ww_level:i number_points:i')
    pts = []
    for _ in range(n):
        t = Given(rng)
        b += pack(t, 'lat:f lon:f name:256s')
        pts.append(t.exp)
    e = tc_fix(g.exp)
    e['_sub'] = {'breakpoints': pts}
    return b, e


def sgwx(rng, h):
    n = rng.choice([1, 3, 256, rng.randint(1, 256)])
    g = Given(rng, number_points=n)
    b = pack(g, 'subtype:i number_points:i text_lat:f text_lon:f arrow_lat:f arrow_lon:f '
                'line_element:i line_type:i line_width:i arrow_size:f1 special_symbol:i '
                'weather_symbol:i')
    t = Given(rng)
    b += pack(t, SPTEXT)
    for k in ('text_size', 'text_type', 'turbulence_symbol', 'font', 'text_flag', 'text_color',
              'line_color', 'fill_color', 'offset_x', 'offset_y'):
        g.exp[k] = t.exp[k]
    g.exp['text_rotation'], g.exp['text_width'] = t.exp['rotation'], t.exp['width']
    g.exp['text_align'] = t.exp['align']
    s = word(rng, 254)
    g.exp['text'] = s
    b += s.encode().ljust(255, b'\0') + b'\0'
    return b + coords(g, n, 256 - n, 'area_lat', 'area_lon')[2], g.exp


def watch(rng, h):
    v = h['version']
    n = rng.choice([2, 3, 8, rng.randint(1, 40)])
    mx = 400 if v >= 5 else 200
    k = rng.choice([0, 1, 5, mx, rng.randint(0, mx)]) if v >= 2 else 0
    g = Given(rng, number_points=n, number_counties=k, marker_type=rng.randint(0, 24))
    if v == 0:
        b = pack(g, 'number_points:i style:i watch_type:i number:i filename:128s shape:i')
    else:
        lay = 'number_points:i style:i shape:i '
        if v == 6:
            lay += 'marker_type:i marker_size:f1 marker_width:i '
        if v >= 3:
            lay += ANCH.format(0) + ' ' + ANCH.format(1) + ' '
        lay += 'status:i number:i ' + WATCH_TAIL.format(80 if v >= 4 else 20)
        if v >= 2:
            lay += ' number_counties:i plot_counties:i'
        b = pack(g, lay)

    def ints(name):
        vs = [rng.randint(0, 99999) for _ in range(k)]
        g.exp[name] = vs
        return struct.pack(f'>{k}i', *vs) + junk(rng, 4 * (mx - k))
    if v in (2, 3, 4):
        b += ints('county_status')
    if v >= 4:
        b += ints('county_fips')
    if v >= 2:
        b += coords(g, k, mx - k, 'county_lat', 'county_lon')[2]
    b += coords(g, n)[2]
    if n > 2:
        for q in ('lat', 'lon'):
            g.exp[q] = g.exp[q] + g.exp[q][:1]
    return b, g.exp


def wind(rng, h):
    g = Given(rng)
    b = pack(g, 'number_wind:i width:i size:f1 wind_type:i head_size:f1 speed:f direction:f '
                'lat:f lon:f')
    return b, g.exp


def opaque(rng, h):
    return rng.randbytes(rng.choice([0, 1, 4, 39, 40, 41, 200])), None


# kind: (class, types, versions, body)
KINDS = {
    'line': (3, [1], [0], line), 'special_line': (3, [20], [0], special_line),
    'front': (1, [2], [0], front), 'symbol': (4, [5, 10, 11, 12, 13, 14, 15, 16, 19, 25], [0], symbol),
    'circle': (12, [4], [0], circle), 'list': (14, [34], [0], lists),
    'text': (5, [17, 18], [0], text), 'special_text': (5, [21], [0], special_text),
    'track': (10, [26], [0], track), 'sigmet': (11, [27, 28, 29, 30, 31], [0, 1], sigmet),
    'ccf': (11, [32], [0], ccf), 'volcano': (11, [35], [0], volcano), 'ash': (11, [36], [0], ash),
    'gfa': (15, [38], [0], gfa), 'jet': (15, [37], [0], jet), 'tca': (15, [39], [0], tca),
    'tc_error': (15, [40], [0], tc_error), 'tc_track': (15, [41], [0], tc_track),
    'tc_break': (15, [42], [0], tc_break), 'sgwx': (15, [43], [0], sgwx),
    'watch': (2, [6], [0, 1, 2, 3, 4, 5, 6], watch), 'wind': (6, [8, 9, 23, 24], [0], wind),
    'bad_line': (3, [2, 33, 17], [0], opaque), 'bad_text': (5, [1, 20], [0], opaque),
    'bad_circle': (12, [1, 5], [0], opaque), 'bad_sigmet': (11, [1, 26], [0], opaque),
    'bad_met': (15, [1, 36], [0], opaque), 'bad_class': (7, [1, 5], [0], opaque),
    'com_sym': (8, [25], [0], opaque), 'products': (9, [1], [0], opaque),
    'marker_class': (13, [19], [0], opaque), 'blank': (16, [1], [0], opaque),
    'bad_watch': (2, [7, 33], [0], opaque), 'bad_header': (0, [1, 21], [0], opaque),
}


def element(rng, kind=None, **kw):
    """(bytes, header fields, expected attributes or None when not decoded)."""
    kind = kind or rng.choice(list(KINDS))
    cls, types, vers, body = KINDS[kind]
    h = dict(delete=rng.choice([0, 0, 0, 1]), vg_type=rng.choice(types), vg_class=cls,
             filled=rng.randint(-1, 8), closed=rng.randint(0, 1), smooth=rng.randint(0, 2),
             version=rng.choice(vers), group_type=rng.choice([0, 1, 2, 8, 255]),
             group_number=rng.choice([0, 1, 2, 3, 17, 2**31 - 1]),
             major_color=rng.randint(0, 32), minor_color=rng.randint(0, 32))
    h.update(kw)
    b, exp = body(rng, h)
    h['record_size'] = 40 + len(b)
    if exp and 'lat' in exp and isinstance(exp['lat'], list) and exp['lat']:
        box = [min(exp['lat']), min(exp['lon']), max(exp['lat']), max(exp['lon'])]
    else:
        box = [rng.randint(-900, 900) / 10 for _ in range(4)]
    h.update(zip(['min_lat', 'min_lon', 'max_lat', 'max_lon'], box))
    g = Given(rng, **h)
    return pack(g, HEAD) + b, h, exp, kind


def file_header(rng, notes=True):
    h = dict(delete=0, vg_type=22, vg_class=0, filled=0, closed=0, smooth=0, version=0,
             group_type=0, group_number=0, major_color=0, minor_color=0, record_size=40 + 128 + 256,
             min_lat=0.0, min_lon=0.0, max_lat=0.0, max_lon=0.0)
    g = Given(rng, **h)
    return pack(g, HEAD) + b'Version 7.19.0'.ljust(128, b'\0') + b'NAWIPS'.ljust(256, b'\0')
