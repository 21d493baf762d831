"""Generated grids: mkgrid and regrid."""
from sx.env import NAMES, fieldshape
from .registry import prop
from .grid import (Fine, POINTS, LENGTHS, AREAS, points, rot, corners, cornerarrays, shapes_ok, negative)

# mkgrid subdivisions
MK_Q = [(1, 1), (2, 1), (1, 3), (3, 2), (4, 1), (2, 5), (5, 3)]
MK_T = MK_Q + [(4, 4), (6, 5), (8, 7), (1, 12), (11, 2)]
# regrid: (cells m x n of the region, margin cells on the four sides (w,e,s,n), quarter turns, factors a, b)
RG_Q = [((1, 1), (0, 0, 0, 0), 0, 2, 1), ((2, 1), (0, 0, 0, 0), 0, 1, 3), ((1, 2), (0, 1, 0, 0), 1, 2, 1),
        ((2, 1), (1, 0, 0, 1), 2, 1, 1), ((1, 2), (0, 0, 1, 0), 3, 1, 2), ((2, 2), (0, 0, 0, 0), 3, 1, 1),
        ((2, 3), (1, 1, 1, 1), 0, 1, 2), ((3, 1), (1, 0, 0, 1), 2, 3, 2), ((1, 3), (0, 2, 1, 0), 3, 2, 2),
        ((2, 2), (1, 1, 1, 1), 1, 3, 1)]
RG_T = RG_Q + [((3, 2), (0, 1, 1, 0), 1, 2, 1), ((3, 3), (0, 0, 0, 0), 2, 2, 2), ((4, 2), (0, 0, 0, 0), 0, 2, 1),
               ((2, 2), (0, 0, 0, 0), 0, 4, 3), ((5, 3), (1, 0, 2, 1), 3, 1, 2), ((1, 1), (2, 0, 1, 2), 1, 7, 4),
               ((6, 1), (0, 0, 0, 0), 2, 2, 1), ((1, 5), (1, 1, 0, 0), 1, 1, 3), ((4, 4), (0, 1, 0, 1), 0, 2, 2)]


def mk(tier, extra=()):
    return [('mkgrid %dx%d' % s, dict(kind='mk', a=s[0], b=s[1])) for s in (MK_Q if tier == 'quick' else MK_T)]


def rg(tier, pick=None):
    out = []
    for k, (s, mar, r, a, b) in enumerate(RG_Q if tier == 'quick' else RG_T):
        if pick is not None and tier == 'quick' and k not in pick:
            continue
        out.append(('regrid %dx%d+%s turn %d by %dx%d' % (s + (''.join(map(str, mar)), r, a, b)),
                    dict(kind='rg', size=s, margin=mar, turns=r, a=a, b=b)))
    return out


class Case:
    """A generated grid: the code's outcome and the block it was made from."""


def source(E, size, margin, turns):
    """Symbolic source grid; returns region block (oriented) and the turned matrices."""
    m, n = size
    w, e, s, t = margin
    X, Y = points(E, m + w + e, n + s + t)
    bx, by = X[w:w + m + 1, s:s + n + 1], Y[w:w + m + 1, s:s + n + 1]
    return bx, by, rot(E, X, turns), rot(E, Y, turns)


def matrices(E, sx, sy):
    d = {n: None for n in NAMES}
    d['XG'], d['YG'] = sx, sy
    d['XC'] = E.np.zeros((sx.shape[0] - 1, sx.shape[1] - 1))
    d['YC'] = E.np.zeros((sx.shape[0] - 1, sx.shape[1] - 1))
    return d


def make(E, kind, a, b, size=None, margin=None, turns=None, verbose=False):
    """Run mkgrid or regrid on a symbolic region."""
    c = Case()
    c.a, c.b = a, b
    if kind == 'mk':
        lon1, lat1, lon2, lat2 = corners(E)
        c.XG, c.YG = cornerarrays(E, lon1, lat1, lon2, lat2)
        c.out = E.call(E.mod('mkgrid').mkgrid, verbose, lon1=lon1, lat1=lat1, lon2=lon2, lat2=lat2,
                       lon_subscale=a, lat_subscale=b)
        c.ni, c.nj = a, b
    else:
        c.XG, c.YG, sx, sy = source(E, size, margin, turns)
        m, n = size
        c.out = E.call(E.mod('regrid').regrid, False, verbose, mitgrid_matrices=matrices(E, sx, sy),
                       lon1=c.XG[0, n], lat1=c.YG[0, n], lon2=c.XG[m, 0], lat2=c.YG[m, 0],
                       lon_subscale=a, lat_subscale=b)
        c.ni, c.nj = m * a, n * b
    E.check(c.out.ok, 'generating the grid fails')
    c.ok = c.out.ok
    if c.ok:
        g, ni, nj = c.out.value
        c.g = g
        E.check(ni == c.ni and nj == c.nj, 'the returned cell counts are wrong')
        c.ok = shapes_ok(E, g, c.ni, c.nj, 'generated grid')
    return c


GEO = ['corner points are pairwise distinct positions with |latitude| <= 89; longitudes in -180..400']


@prop('C04', lambda tier: mk(tier), 'subdivisions up to 5x3 and 2x5 (thorough 8x7, 1x12, 11x2), all corner coordinates', assume=GEO)
def size_and_corners(E, **kw):
    c = make(E, **kw)
    if not c.ok:
        return
    a, b = c.ni, c.nj
    X, Y = c.g['XG'], c.g['YG']
    for (i, j), (p, q), nm in (((0, b), (0, 1), 'northwest'), ((a, 0), (1, 0), 'southeast'),
                               ((0, 0), (0, 0), 'southwest'), ((a, b), (1, 1), 'northeast')):
        E.eq(X[i, j], c.XG[p, q], nm + ' corner longitude')
        E.eq(Y[i, j], c.YG[p, q], nm + ' corner latitude')


@prop('C05', lambda tier: mk(tier) + rg(tier),
      'mkgrid subdivisions up to 5x3 and 2x5 (thorough 8x7, 1x12); regrid regions up to 2x3 cells (thorough 5x3, 4x4) with margins, four turns, factors '
      'up to 3 (4); all coordinates', assume=GEO)
def subdivision(E, **kw):
    c = make(E, **kw)
    if not c.ok:
        return
    f = Fine(E, c.XG, c.YG, c.a, c.b)
    for n in POINTS:
        E.eq(c.g[n], f.field(n), n + ' is not on the great-circle subdivision', atol=1e-9, mod360=n in ('XC', 'XG'))


@prop('C07', lambda tier: rg(tier), 'regions up to 2x3 cells (thorough 5x3, 4x4) with margins, four turns, factors up to 3 (thorough 7)',
      assume=GEO)
def keeps_points(E, **kw):
    c = make(E, **kw)
    if not c.ok:
        return
    for n, s in (('XG', c.XG), ('YG', c.YG)):
        got = c.g[n][::c.a, ::c.b]
        E.eq(got, s, n + ': existing corner points are not kept', exact=True)


@prop('C09', lambda tier: mk(tier) + rg(tier),
      'mkgrid subdivisions up to 5x3 and 2x5 (thorough 8x7, 1x12); regrid regions up to 2x3 cells (thorough 5x3, 4x4), four turns, factors up to 3 (thorough 7)',
      assume=GEO)
def lengths(E, **kw):
    c = make(E, **kw)
    if not c.ok:
        return
    f = Fine(E, c.XG, c.YG, c.a, c.b)
    for n in LENGTHS:
        E.eq(c.g[n], f.field(n), n + ' is not the distance its definition names', atol=1e-3)


@prop('C10', lambda tier: mk(tier) + rg(tier, pick=(0, 2, 3, 4)),
      'mkgrid subdivisions up to 5x3 and 2x5 (thorough 8x7, 1x12); regrid regions up to 2x3 cells (thorough 5x3, 4x4), four turns, factors up to 3 (thorough 7)',
      assume=GEO + ['quarter cells have nonzero area'])
def areasums(E, **kw):
    c = make(E, **kw)
    if not c.ok:
        return
    f = Fine(E, c.XG, c.YG, c.a, c.b)
    for n in AREAS:
        E.eq(c.g[n], f.field(n), n + ' is not the sum of its quarter cells', atol=1e-3)


@prop('C13', lambda tier: mk(tier) + rg(tier),
      'mkgrid subdivisions up to 5x3 and 2x5 (thorough 8x7, 1x12); regrid regions up to 2x3 cells (thorough 5x3, 4x4), four turns, factors up to 3 (thorough 7)',
      assume=GEO)
def longitudes(E, **kw):
    c = make(E, **kw)
    if not c.ok:
        return
    neg = negative(E, c.XG)
    f = Fine(E, c.XG, c.YG, c.a, c.b)
    for n in ('XC', 'XG'):
        E.eq(c.g[n], f.field(n), n + ': longitude convention', atol=1e-9)
        own = []
        A = c.g[n]
        for i in range(A.shape[0]):
            for j in range(A.shape[1]):
                given = n == 'XG' and i % c.a == 0 and j % c.b == 0
                if given:
                    continue
                v = A[i, j]
                own.append(E.ite(neg, E.AND(v >= -180, v <= 180), E.AND(v >= 0, v < 360.0000001)))
        E.check(E.AND(*own), n + ': computed longitudes leave the range of the convention')
    for n in ('YC', 'YG'):
        E.eq(c.g[n], f.field(n), n + ' depends on the longitude convention')


# ---------------------------------------------------------------------------
# selection of the region

SEL_Q = [((1, 1), (1, 0, 0, 1), 0), ((2, 1), (0, 0, 1, 0), 1), ((1, 2), (0, 1, 0, 0), 2), ((1, 1), (1, 1, 0, 0), 3),
         ((2, 2), (1, 0, 1, 1), 0), ((2, 1), (1, 1, 1, 1), 1), ((1, 3), (1, 0, 0, 1), 2), ((3, 2), (0, 1, 1, 0), 3)]
SEL_T = SEL_Q + [((1, 2), (1, 1, 1, 0), 3), ((3, 3), (1, 1, 1, 1), 0), ((4, 2), (0, 1, 1, 0), 1), ((1, 4), (2, 2, 0, 1), 2),
                 ((3, 4), (1, 0, 0, 1), 3)]
BAD = [((1, 1), (0, 1), (0, 0)), ((1, 2), (1, 2), (0, 2)), ((2, 1), (1, 1), (1, 1))]


def sel(tier):
    out = [('select %dx%d+%s turn %d' % (s + (''.join(map(str, m)), r)), dict(size=s, margin=m, turns=r))
           for s, m, r in (SEL_Q if tier == 'quick' else SEL_T)]
    return out + [('not diagonal %dx%d %r %r' % (s + (p, q)), dict(size=s, margin=(0, 0, 0, 0), turns=k % 4, bad=(p, q)))
                  for k, (s, p, q) in enumerate(BAD)]


def near(E, tag, X, Y, i, j):
    """A symbolic position nearer to point (i, j) than to every other grid point."""
    from .grid import lonhint, lathint
    lon = E.real(tag + 'lon', hint=[v + 0.0004 for v in lonhint(i, j)], lo=-180.0, hi=400.0)
    lat = E.real(tag + 'lat', hint=[v - 0.0003 for v in lathint(i, j)], lo=-89.0, hi=89.0)
    d0 = E.geod.inv(lon, lat, X[i, j], Y[i, j])[2]
    for p in range(X.shape[0]):
        for q in range(X.shape[1]):
            if (p, q) != (i, j):
                E.assume(d0 < E.geod.inv(lon, lat, X[p, q], Y[p, q])[2])
    return lon, lat


@prop('C06', sel, 'source grids of up to 3x2 cells (thorough 4x2, 3x4) plus margins, four turns, unequal factors; every position '
      'nearest to the two chosen points', assume=GEO)
def selection(E, size, margin, turns, bad=None):
    m, n = size
    w, e, s, t = margin
    X, Y = points(E, m + w + e, n + s + t)
    sx, sy = rot(E, X, turns), rot(E, Y, turns)
    nw, se = ((w, s + n), (w + m, s)) if bad is None else bad
    lon1, lat1 = near(E, 'nw', X, Y, *nw)
    lon2, lat2 = near(E, 'se', X, Y, *se)
    a, b = (1, 1) if (m + w + e) * (n + s + t) > 3 else (1, 2)
    o = E.call(E.mod('regrid').regrid, mitgrid_matrices=matrices(E, sx, sy), lon1=lon1, lat1=lat1, lon2=lon2, lat2=lat2,
               lon_subscale=a, lat_subscale=b)
    if bad is not None:
        E.check(o.raised(ValueError), 'positions that are not diagonally opposed do not raise ValueError')
        return
    E.check(o.ok, 'regridding a region fails')
    if not o.ok:
        return
    g, ni, nj = o.value
    E.check(ni == m * a and nj == n * b, 'the returned cell counts are not those of the region times the factors')
    if not shapes_ok(E, g, m * a, n * b, 'regridded region'):
        return
    for nm, src in (('XG', X), ('YG', Y)):
        E.eq(g[nm][::a, ::b], src[w:w + m + 1, s:s + n + 1], nm + ': not the selected region in the named orientation')


@prop('C08', lambda tier: [('%s %dx%d' % (e, p, q), dict(shape=(p, q), ell=e)) for e in ('sphere', 'WGS84')
                           for p, q in ([(1, 1), (1, 3), (2, 2), (3, 2), (5, 1), (2, 4), (4, 3)] if tier == 'quick' else
                                        [(1, 1), (1, 3), (2, 2), (3, 2), (5, 1), (2, 4), (4, 3), (5, 4), (1, 9), (6, 5)])] +
      [('shapes %r %r' % (a, b), dict(shape=a, ell='sphere', other=b)) for a, b in
       (((2, 3), (3, 2)), ((1, 4), (4, 1)), ((2, 1), (2, 3)), ((2, 2), (2, 3)), ((4,), (4,)), ((1, 2, 2), (1, 2, 2)), ((2, 2), (4,)))],
      'grids up to 4x3 points (thorough 6x5), any distances including ties and zero')
def nearest(E, shape, ell, other=None):
    E.degenerate()
    geod = E.ellipsoid(ellps=ell)
    u = E.mod('util')
    tab = [(12.0, 30.0), (-100.0, -5.0), (179.5, 0.0), (0.0, 0.0)]
    lon = E.real('lon', hint=[v[0] for v in tab], lo=-360.0, hi=360.0)
    lat = E.real('lat', hint=[v[1] for v in tab], lo=-90.0, hi=90.0)

    def h(k):
        def f(*idx):
            c = sum((3 * p + 1) * v for p, v in enumerate(idx))
            d = (c * 7) % 5 - 2
            return [tab[v][k] + (d if v != 1 else -d) * (1.7 if k else 2.1) + (0.3 * idx[0] if v < 3 else 0.0)
                    for v in range(4)] + [(178.0, -10.0)[k] - 3.0 * idx[-1]]
        return f
    X = E.arr('lons', shape, h(0), lo=-360.0, hi=360.0)
    Y = E.arr('lats', other or shape, h(1), lo=-90.0, hi=90.0)
    o = E.call(u.nearest, lon, lat, X, Y, geod)
    if other is not None or len(shape) != 2:
        E.check(o.raised(ValueError), 'matrices of unequal or non-two-dimensional shape do not raise ValueError')
        return
    E.check(o.ok, 'the nearest-point search fails')
    if not o.ok:
        return
    i, j, dist = o.value
    p, q = shape
    E.check(E.AND(i >= 0, i < p, j >= 0, j < q), 'the returned indices are outside the grid')
    own = []
    least = []
    for a in range(p):
        for b in range(q):
            d = geod.inv(lon, lat, X[a, b], Y[a, b])[2]
            least.append(dist <= d + 1e-9)
            own.append(E.IMPL(E.AND(i == a, j == b), E.AND(dist <= d + 1e-9, dist >= d - 1e-9)))
    E.check(E.AND(*own), 'the returned distance is not that of the returned point')
    E.check(E.AND(*least), 'another grid point is nearer')


# ---------------------------------------------------------------------------
# area kernels

def excess(E, c, i, j):
    """Spherical excess of the quadrilateral A(i,j) B(i+1,j) C(i+1,j+1) D(i,j+1)."""
    import math

    def dot(a, b):
        return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

    def tri(A, B, C):
        ca, cb, cc = dot(B, C), dot(A, C), dot(A, B)
        sa, sb, sc = [E.math('sqrt', 1.0 - v * v) for v in (ca, cb, cc)]
        return (E.math('arccos', (ca - cb * cc) / (sb * sc)) + E.math('arccos', (cb - ca * cc) / (sa * sc)) +
                E.math('arccos', (cc - ca * cb) / (sa * sb)))
    P = [[c[k, l, m] for m in range(3)] for k, l in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))]
    return tri(P[0], P[1], P[2]) + tri(P[0], P[2], P[3]) - 2 * math.pi


def facet(E, c, i, j):
    A, B, C, D = [[c[k, l, m] for m in range(3)] for k, l in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))]
    ab, ac, ad = [[v[m] - A[m] for m in range(3)] for v in (B, C, D)]

    def cross(u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    x, y = cross(ab, ac), cross(ac, ad)
    s = [x[m] + y[m] for m in range(3)]
    return 0.5 * E.math('sqrt', s[0] * s[0] + s[1] * s[1] + s[2] * s[2])


def carthint(i, j):
    import math
    out = []
    for lo, la in ((30 + 9.1 * i + 0.5 * j, 10 + 7.3 * j + 0.3 * i), (-100 + 1.3 * i, 60 - 1.9 * j + .1 * i),
                   (0.4 * i * i + 20.0 * i, -35 + 15.0 * j - 2.0 * i), (5 + 0.5 * i, 1.0 + 0.4 * j + .05 * i)):
        lo, la = math.radians(lo), math.radians(la)
        out.append((math.cos(lo) * math.cos(la), math.sin(lo) * math.cos(la), math.sin(la)))
    return out


KQ = [(1, 1), (2, 1), (1, 2), (2, 3)]
KT = KQ + [(3, 3), (5, 4)]


@prop('C11', lambda tier: [('%s %dx%d' % (k, p, q), dict(kind=k, p=p, q=q)) for k in ('squad', 'pquad', 'cart')
                           for p, q in (KQ if tier == 'quick' else KT)] +
      [('cart shapes %r %r' % s, dict(kind='bad', p=s[0], q=s[1])) for s in (((2, 3), (3, 2)), ((1, 4), (4, 1)), ((2, 1), (2, 3)), ((3,), (3,)),
                                                                             ((2, 2), (2, 3)), ((1, 2, 2), (1, 2, 2)))],
      'arrays of up to 2x3 cells (thorough 5x4); coordinates any reals (unit vectors in replays)')
def kernels(E, kind, p, q):
    E.degenerate()
    u = E.mod('util')
    if kind == 'bad':
        o = E.call(u.lonlat2cart, E.arr('x', p, lambda *i: 10.0), E.arr('y', q, lambda *i: 20.0))
        E.check(o.raised(ValueError), 'matrices of unequal or non-two-dimensional shape do not raise ValueError')
        return
    if kind == 'cart':
        x = E.arr('x', (p + 1, q + 1), lambda i, j: [10.0 + 7 * i - 3 * j, -150.0 + i, 359.0 - i - j, 90.0])
        y = E.arr('y', (p + 1, q + 1), lambda i, j: [20.0 + 5 * j - i, -70.0 + i + j, 0.0, 89.0 - i])
        rad = E.real('rad', hint=[1.0, 6370997.0, 2.5], lo=0.001)
        for r in (None, rad):
            o = E.call(u.lonlat2cart, x, y) if r is None else E.call(u.lonlat2cart, x, y, r)
            E.check(o.ok, 'conversion fails')
            if not o.ok:
                return
            if not E.shape_is(o.value, (p + 1, q + 1, 3), 'conversion'):
                return
            want = E.np.zeros((p + 1, q + 1, 3))
            f = 1.0 if r is None else r
            for i in range(p + 1):
                for j in range(q + 1):
                    lo, la = E.math('radians', x[i, j]), E.math('radians', y[i, j])
                    want[i, j, 0] = f * E.math('cos', lo) * E.math('cos', la)
                    want[i, j, 1] = f * E.math('sin', lo) * E.math('cos', la)
                    want[i, j, 2] = f * E.math('sin', la)
            E.eq(o.value, want, 'Cartesian coordinates' + (' for a given radius' if r is not None else ''),
                 atol=1e-9 if r is None else 1e-2)
        return
    c = E.arr('c', (p + 1, q + 1, 3), lambda i, j, k: [v[k] for v in carthint(i, j)], lo=-1.0, hi=1.0)
    o = E.call(u.squad_uarea if kind == 'squad' else u.pquad_uarea, c)
    E.check(o.ok, 'the area kernel fails')
    if not o.ok:
        return
    if not E.shape_is(o.value, (p, q), 'areas'):
        return
    for i in range(p):
        for j in range(q):
            E.eq(o.value[i, j], (excess if kind == 'squad' else facet)(E, c, i, j),
                 'the area of a cell is not that of its quadrilateral', rtol=1e-6, atol=1e-9)


@prop('C12', lambda tier: [('%dx%d%s%s' % (p, q, ' ring' if r else '', ' ' + el if el else ''),
                            dict(p=p, q=q, ring=r, ell=el)) for p, q, r, el in
                           [(1, 1, 0, None), (2, 1, 1, None), (1, 2, 0, 'WGS84'), (2, 2, 1, None), (3, 2, 1, None),
                            (2, 3, 0, 'WGS84')] + ([] if tier == 'quick' else [(3, 3, 1, None), (5, 2, 0, None), (4, 5, 1, 'WGS84')])],
      'arrays of up to 3x2 cells (thorough 4x5), all edge lengths, edge arrays with and without the ring of zeros',
      assume=['edge lengths are positive'])
def planar_switch(E, p, q, ring, ell):
    u = E.mod('util')
    k = 1 if ring else 0
    geod = E.geod if ell is None else E.ellipsoid(ellps=ell)
    X, Y = points(E, p, q)
    hx = [9999.0, 10001.0, 500.0, 500.0, 9000.0, 15000.0, 10000.0, 9999.0]
    hy = [9999.0, 500.0, 10001.0, 500.0, 9500.0, 15000.0, 9000.0, 9999.9]

    def lens(tag, s, h):
        a = E.np.zeros((s[0] + 2 * k, s[1] + 2 * k))
        tot = 0.0
        for i in range(s[0]):
            for j in range(s[1]):
                n = s[0] * s[1]
                odd = i == s[0] - 1 and j == s[1] - 1
                skew = {-1: 11000.0 - (n * 1200.0 if odd else 0.0), 1: 8000.0 + (n * 2500.0 if odd else 0.0), 0: 9000.0}
                v = E.real('%s%d_%d' % (tag, i, j), lo=1e-3,
                           hint=[x * (1 + 0.4 * ((-1) ** (i + j)) * (n // 2 * 2 > i * s[1] + j)) for x in h] +
                           [max(skew[x], 1.0) for x in ((1, 0, -1, 0) if tag == 'ex' else (0, 1, 0, -1))])
                a[i + k, j + k] = v
                tot = tot + v
        return a, tot / (s[0] * s[1])
    ex, mx = lens('ex', (p, q + 1), hx)
    ey, my = lens('ey', (p + 1, q), hy)
    o = E.call(E.mod('computegrid').areas, X, Y, ex, ey, geod)
    E.check(o.ok, 'computing areas fails')
    if not o.ok or not E.shape_is(o.value, (p, q), 'areas'):
        return
    cart = u.lonlat2cart(X, Y)
    a1, a2 = u.pquad_uarea(cart), u.squad_uarea(cart)
    flat = E.AND(mx < 10000.0, my < 10000.0)
    for i in range(p):
        for j in range(q):
            E.eq(o.value[i, j], E.ite(flat, a1[i, j] * (geod.a * geod.a), a2[i, j] * (geod.a * geod.a)),
                 'the area formula used is not the one for these edge lengths', rtol=1e-12)
