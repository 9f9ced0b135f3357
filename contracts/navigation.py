"""Projection, angles and corners of a grid file, as written and as read back (C07).

GridFile._set_bbox: the corners are the first and last points of the coordinates given.
GridFile._set_projection_params: the projection's GEMPAK name and angles, by the CF parameters
    pyproj gives for it.
GempakGrid._set_coordinates: axes evenly spaced between the projected corners, and the
    latitudes and longitudes of their points.
"""
import numpy as np
import z3

from contracts.read_file import Rec, interp, models, new, run
from contracts.reading import FileWords
from contracts.real_decode import zi
from pyvc.core import SInt, SReal, Sym, Unsupported, ctx, sand, sor, val_eq
from pyvc.interp import Interp

RR, I = z3.RealSort(), z3.IntSort()


class Field(Sym):
    """An array of coordinates, of one or two dimensions."""

    def __init__(self, name, *shape):
        self.name, self.shape = name, shape
        self.f = z3.Function(name, *[I] * len(shape), RR)

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if len(k) != len(self.shape) or any(isinstance(i, slice) for i in k):
            raise Unsupported('part of an array')
        return SReal(self.f(*[zi(n + i if isinstance(i, int) and i < 0 else i)
                              for i, n in zip(k, self.shape)]))


FX, FY = z3.Function('project x', RR, RR, RR), z3.Function('project y', RR, RR, RR)
GX, GY = z3.Function('longitude of', RR, RR, RR), z3.Function('latitude of', RR, RR, RR)


def rt(x):
    return x.t if isinstance(x, SReal) else z3.RealVal(x)


class Proj(Sym):
    def __init__(self, crs=None):
        self.crs = crs

    def __call__(self, x, y, inverse=False):
        if isinstance(x, Sym) and isinstance(x, (Mesh,)):
            return Lon(self, x, y, inverse, 0), Lon(self, x, y, inverse, 1)
        a, b = (GX, GY) if inverse else (FX, FY)
        return SReal(a(rt(x), rt(y))), SReal(b(rt(x), rt(y)))


class Mesh(Sym):
    def __init__(self, x, y, axis):
        self.x, self.y, self.axis = x, y, axis


class Line(Sym):
    def __init__(self, a, b, n, dtype):
        self.a, self.b, self.n, self.dtype = a, b, n, dtype


class Lon(Sym):
    def __init__(self, proj, x, y, inverse, axis):
        self.proj, self.x, self.y, self.inverse, self.axis = proj, x, y, inverse, axis

    def astype(self, t, **k):
        return self


def bbox(c):
    import gempakio.encode.gempak as E
    me = E.GridFile.__new__(E.GridFile)
    nx, ny = SInt.var('nx'), SInt.var('ny')
    c.assume(sand(nx >= 1, ny >= 1))
    me.nx, me.ny = nx, ny
    me.projection = Proj()
    me._is_xy = c.choose([True, False])
    me.x, me.y = Field('x', nx), Field('y', ny)
    me.lon, me.lat = Field('lon', ny, nx), Field('lat', ny, nx)
    it = Interp(models())
    it.call(it.getattr(me, '_set_bbox'), ())
    c.cover('corners')
    for corner, (j, i) in (('lower_left', (0, 0)), ('upper_right', (ny - 1, nx - 1))):
        if me._is_xy:
            lon, lat = me.projection(me.x[i], me.y[j], inverse=True)
        else:
            lon, lat = me.lon[j, i], me.lat[j, i]
        c.oblige(f'{corner} longitude', val_eq(getattr(me, f'{corner}_lon'), lon))
        c.oblige(f'{corner} latitude', val_eq(getattr(me, f'{corner}_lat'), lat))


def coordinates(c):
    import pyproj
    me = new('GempakGrid')
    nav = me.navigation_block = Rec()
    for n in ('lower_left_lat', 'lower_left_lon', 'upper_right_lat', 'upper_right_lon'):
        setattr(nav, n, SReal.var(n))
    me.kx, me.ky = SInt.var('kx'), SInt.var('ky')
    c.assume(sand(me.kx >= 1, me.ky >= 1))
    me.crs = ('crs',)
    M = models()
    M.reg(pyproj.Proj, lambda i, a, k: Proj(a[0]))
    M.reg(np.linspace, lambda i, a, k: Line(a[0], a[1], a[2], k.get('dtype')))
    M.reg(np.meshgrid, lambda i, a, k: (Mesh(a[0], a[1], 0), Mesh(a[0], a[1], 1)))
    it = interp(FileWords(''), M=M)
    it.call(it.getattr(me, '_set_coordinates'), ())
    c.cover('coordinates')
    p = me._transform
    c.oblige('the projection of the file', p.crs is me.crs)
    llx, lly = p(nav.lower_left_lon, nav.lower_left_lat)
    urx, ury = p(nav.upper_right_lon, nav.upper_right_lat)
    for n, line, lo, hi, k in (('x', me.x, llx, urx, me.kx), ('y', me.y, lly, ury, me.ky)):
        c.oblige(f'{n} from corner to corner', sand(val_eq(line.a, lo), val_eq(line.b, hi),
                                                   val_eq(line.n, k)))
        c.oblige(f'{n} 32-bit reals', line.dtype is np.float32)
    for ax, v in ((0, me.lon), (1, me.lat)):
        c.oblige('place of every point', v.proj is p and v.inverse and v.axis == ax and
                 v.x.axis == 0 and v.y.axis == 1 and v.x.x is me.x and v.x.y is me.y and
                 v.y.x is me.x and v.y.y is me.y)


class Crs:
    def __init__(self, cf):
        self.cf = cf

    def to_cf(self):
        return dict(self.cf)


# CF mapping: (GEMPAK name, parameters giving angles 1 and 2, and 3 (None: the rotation))
CF = {
    'mercator': ('MER', 'standard_parallel', 'longitude_of_projection_origin', None),
    'polar_stereographic': ('STR', 'latitude_of_projection_origin',
                            'straight_vertical_longitude_from_pole', 0),
    'stereographic': ('STR', 'latitude_of_projection_origin',
                      'longitude_of_projection_origin', None),
    'lambert_conformal_conic': ('LCC', 'standard_parallel', 'longitude_of_central_meridian',
                                'standard_parallel'),
    'orthographic': ('ORT', 'latitude_of_projection_origin', 'longitude_of_projection_origin',
                     None),
    'azimuthal_equidistant': ('AED', 'latitude_of_projection_origin',
                              'longitude_of_projection_origin', None),
}


def projection(c):
    import gempakio.encode.gempak as E
    me = E.GridFile.__new__(E.GridFile)
    me.angle1 = me.angle2 = me.angle3 = 0
    me.rotation = SReal.var('rotation')
    name = c.choose([*CF, 'equidistant', 'other'])
    cf = {n: SReal.var(n) for n in ('standard_parallel', 'latitude_of_projection_origin',
                                    'longitude_of_projection_origin',
                                    'straight_vertical_longitude_from_pole',
                                    'longitude_of_central_meridian')}
    cf['grid_mapping_name'] = name
    if name == 'lambert_conformal_conic':
        cf['standard_parallel'] = (SReal.var('parallel 1'), SReal.var('parallel 2'))
    if name == 'other':
        cf['grid_mapping_name'] = 'geostationary'
    me.projection = Rec(crs=Crs(cf))
    if name == 'equidistant':
        del cf['grid_mapping_name']
        op = Rec(method_name='Equidistant Cylindrical (Spherical)', params=[
            Rec(name='Latitude of natural origin', value=SReal.var('lat0')),
            Rec(name='Longitude of natural origin', value=SReal.var('lon0'))])
        me.projection.crs.coordinate_operation = op
    it = Interp(models())
    try:
        it.call(it.getattr(me, '_set_projection_params'), ())
    except NotImplementedError:
        c.cover('refused')
        c.oblige('only unknown projections are refused', name == 'other')
        return
    c.oblige('unknown projections are refused', name != 'other')
    c.cover('angles')
    if name == 'equidistant':
        g, a1, a2, a3 = 'CED', op.params[0].value, op.params[1].value, me.rotation
    else:
        g, *n = CF[name]
        a1, a2, a3 = (me.rotation if x is None else 0 if x == 0 else cf[x] for x in n)
        if name == 'lambert_conformal_conic':
            a1, a3 = cf['standard_parallel']
    c.oblige('GEMPAK name', me.gemproj == g)
    for n, v in (('angle1', a1), ('angle2', a2), ('angle3', a3)):
        c.oblige(n, val_eq(getattr(me, n), v))


BODIES = {'corners written': bbox, 'coordinates read': coordinates,
          'projection written': projection}

if __name__ == '__main__':
    import sys
    import time
    for n, b in BODIES.items():
        t = time.time()
        c = run(n, b, time.time() + 600)
        bad = [o for o in c.obligations if o.status != 'proved']
        print(n, len(c.obligations), 'bad', len(bad), f'{time.time() - t:.1f}s', c.paths,
              list(c.covers.items()))
        for o in bad[:5]:
            print('  ', o.name, o.status, o.detail[:900], (o.model or '')[:300])
