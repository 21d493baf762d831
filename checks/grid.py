"""Oracle for generated grids: points, lengths and areas from their definitions."""
from sx.env import NAMES, fieldshape

RAD = 6370997.0


def vals(i, j):
    """Hinted coordinates of grid point (i, j) in several realistic geometries."""
    return [
        (30 + 1.3 * i + 0.07 * j + 0.05 * i * i, -20 + 1.1 * j + 0.11 * i + 0.03 * j * j),
        (-70.123456789012 + 1.1 * i - 0.05 * j, 11.98765432101234 + 0.9 * j + 0.07 * i),
        (178.6 + 0.9 * i + 0.03 * j, 5 + 1.2 * j - 0.06 * i),
        (-1.2 + 0.8 * i + 0.02 * j, 45 + 0.7 * j + 0.05 * i),
        (100 + 0.05 * i + 0.001 * j, 40 + 0.04 * j + 0.002 * i),
        (200 + 0.02 * i, 30 + 1.9 * j + 0.003 * i),
        (200 + 1.7 * i, 30 + 0.02 * j + 0.003 * i),
        (0.3 + 1.0 * i - 0.5 * j, -60 + 2.1 * j),
        (15.00000012345 + 6.1 * i + 0.5 * j, 25.00000054321 + 5.3 * j + 0.4 * i),
        (-179.8 + 1.1 * i + 0.04 * j, 15 - 0.07 * i + 0.9 * j),
        (359.1 + 0.25 * i - 0.02 * j, 35 + 0.3 * j),
        (0.0 + 1.0 * i, -1.0 + 1.0 * j),
        (10.0 + 1e-5 * i, 20.0 + 1e-5 * j),
    ]


NV = 13


def lonhint(i, j):
    return [v[0] for v in vals(i, j)]


def lathint(i, j):
    return [v[1] for v in vals(i, j)]


def points(E, m, n, tag='p', off=(0, 0), scale=1, east=False):
    """Symbolic corner points of m x n cells: two (m+1) x (n+1) arrays."""
    def lons(i, j):
        h = lonhint((i + off[0]) * scale, (j + off[1]) * scale)
        return [v + 200 if v < 100 else v for v in h] if east else h
    x = E.arr(tag + 'lon', (m + 1, n + 1), lons, lo=0.0 if east else -180.0, hi=400.0)
    y = E.arr(tag + 'lat', (m + 1, n + 1), lambda i, j: lathint((i + off[0]) * scale, (j + off[1]) * scale),
              lo=-89.0, hi=89.0)
    E.distinct(x, y)
    return x, y


def rot(E, a, k):
    """Quarter turns (written out, not numpy's)."""
    for _ in range(k % 4):
        p, n = a.shape
        b = E.np.zeros((n, p))
        for i in range(n):
            for j in range(p):
                b[i, j] = a[j, n - 1 - i]
        a = b
    return a


def negative(E, XG):
    """Condition: some corner longitude is negative."""
    return E.OR(*[XG[i, j] < 0 for i in range(XG.shape[0]) for j in range(XG.shape[1])])


class Fine:
    """Doubled-resolution points of a grid subdivided a x b times per cell."""

    def __init__(self, E, XG, YG, a, b):
        self.E = E
        self.geod = E.geod
        m, n = XG.shape[0] - 1, XG.shape[1] - 1
        self.ni, self.nj = m * a, n * b
        I, J = 2 * m * a, 2 * n * b
        pos = E.NOT(negative(E, XG))

        def conv(lon):
            return E.ite(E.AND(pos, lon < 0), lon + 360, lon)
        X = [[None] * (J + 1) for _ in range(I + 1)]
        Y = [[None] * (J + 1) for _ in range(I + 1)]
        for i in range(m + 1):
            for j in range(n + 1):
                X[2 * a * i][2 * b * j] = XG[i, j]
                Y[2 * a * i][2 * b * j] = YG[i, j]
        for j in range(n + 1):
            q = 2 * b * j
            for i in range(m):
                p = 2 * a * i
                for k, (lo, la) in enumerate(self.geod.npts(X[p][q], Y[p][q], X[p + 2 * a][q], Y[p + 2 * a][q], 2 * a - 1)):
                    X[p + 1 + k][q], Y[p + 1 + k][q] = conv(lo), la
        for p in range(I + 1):
            for j in range(n):
                q = 2 * b * j
                for k, (lo, la) in enumerate(self.geod.npts(X[p][q], Y[p][q], X[p][q + 2 * b], Y[p][q + 2 * b], 2 * b - 1)):
                    X[p][q + 1 + k], Y[p][q + 1 + k] = conv(lo), la
        self.X, self.Y, self.I, self.J = X, Y, I, J
        self._d, self._a = {}, {}

    def d(self, p, q, dp, dq):
        """Length of the half edge from fine point (p,q) to (p+dp,q+dq)."""
        k = (p, q, dp, dq)
        if k not in self._d:
            X, Y = self.X, self.Y
            self._d[k] = self.geod.inv(X[p][q], Y[p][q], X[p + dp][q + dq], Y[p + dp][q + dq])[2]
        return self._d[k]

    def field(self, name):
        E, np = self.E, self.E.np
        s = fieldshape(name, self.ni, self.nj)
        out = np.zeros(s)
        for i in range(s[0]):
            for j in range(s[1]):
                v = self.elem(name, i, j)
                if v is not None:
                    out[i, j] = v
        return out

    def elem(self, name, i, j):
        I, J = self.I, self.J
        p, q = 2 * i, 2 * j
        if name == 'XG':
            return self.X[p][q]
        if name == 'YG':
            return self.Y[p][q]
        if name == 'XC':
            return self.X[p + 1][q + 1]
        if name == 'YC':
            return self.Y[p + 1][q + 1]
        # lower index of the two half edges (lengths) or of the 2x2 quarter cells (areas)
        if name == 'DXG':
            return self.dx(p, q)
        if name == 'DXF':
            return self.dx(p, q + 1)
        if name == 'DXC':
            return self.dx(p - 1, q + 1)
        if name == 'DXV':
            return self.dx(p - 1, q)
        if name == 'DYG':
            return self.dy(p, q)
        if name == 'DYF':
            return self.dy(p + 1, q)
        if name == 'DYC':
            return self.dy(p + 1, q - 1)
        if name == 'DYU':
            return self.dy(p, q - 1)
        return self.area(p - (name in ('RAW', 'RAZ')), q - (name in ('RAS', 'RAZ')))

    def dx(self, p, q):
        if p < 0 or p + 2 > self.I:
            return 0.0
        return self.d(p, q, 1, 0) + self.d(p + 1, q, 1, 0)

    def dy(self, p, q):
        if q < 0 or q + 2 > self.J:
            return 0.0
        return self.d(p, q, 0, 1) + self.d(p, q + 1, 0, 1)

    def planar(self):
        """Condition: both mean half-edge lengths are below 10 km."""
        E = self.E
        sx = sy = 0.0
        nx = ny = 0
        for p in range(self.I + 1):
            for q in range(self.J + 1):
                if p < self.I:
                    sx, nx = sx + self.d(p, q, 1, 0), nx + 1
                if q < self.J:
                    sy, ny = sy + self.d(p, q, 0, 1), ny + 1
        return E.AND(sx / nx < 10.e3, sy / ny < 10.e3)

    def quarter(self, p, q):
        """Area of one quarter cell by the area kernels (their formulas are C11)."""
        k = (p, q)
        if k not in self._a:
            E, np = self.E, self.E.np
            u = E.mod('util')
            lo, la = np.zeros((2, 2)), np.zeros((2, 2))
            for r in range(2):
                for s in range(2):
                    lo[r, s], la[r, s] = self.X[p + r][q + s], self.Y[p + r][q + s]
            cart = u.lonlat2cart(lo, la)
            if not hasattr(self, '_pl'):
                self._pl = self.planar()
            a1 = u.pquad_uarea(cart)[0, 0] * (RAD * RAD)
            a2 = u.squad_uarea(cart)[0, 0] * (RAD * RAD)
            self._a[k] = E.ite(self._pl, a1, a2)
            if not E.sym:
                E.assume(self._a[k] > 0.0)      # quarter cells have an area
        return self._a[k]

    def area(self, p, q):
        if p < 0 or q < 0 or p + 2 > self.I or q + 2 > self.J:
            return 0.0
        return self.quarter(p, q) + self.quarter(p + 1, q) + self.quarter(p + 1, q + 1) + self.quarter(p, q + 1)


POINTS = ('XC', 'YC', 'XG', 'YG')
LENGTHS = ('DXF', 'DYF', 'DXV', 'DYU', 'DXC', 'DYC', 'DXG', 'DYG')
AREAS = ('RAC', 'RAZ', 'RAW', 'RAS')


def shapes_ok(E, g, ni, nj, msg):
    E.check(sorted(g) == sorted(NAMES), msg + ': not the 16 grid fields')
    for n in NAMES:
        if not E.shape_is(g[n], fieldshape(n, ni, nj), '%s: %s' % (msg, n)):
            return False
    return True


def corners(E):
    """Symbolic northwest and southeast corners of a new grid."""
    n = [(10.0, 25.5, 14.0, 20.0), (-70.0, -10.0, -61.5, -18.2), (176.0, 8.0, 187.0, -3.0), (-3.0, 50.0, 2.0, 44.0),
         (100.0, 40.06, 100.08, 40.0), (200.0, 33.0, 200.1, 30.0), (200.0, 30.1, 205.0, 30.0),
         (0.0, 70.0, 40.0, 20.0), (-179.0, 5.0, -170.0, 1.0), (5.0, 9.0, -4.0, 2.0),
         (10.0, 20.00002, 10.00003, 20.0)]
    r = []
    for k, nm in enumerate(('lon1', 'lat1', 'lon2', 'lat2')):
        r.append(E.real(nm, hint=[v[k] for v in n], lo=-180.0 if k % 2 == 0 else -89.0,
                        hi=400.0 if k % 2 == 0 else 89.0))
    return r


def cornerarrays(E, lon1, lat1, lon2, lat2):
    XG, YG = E.np.zeros((2, 2)), E.np.zeros((2, 2))
    XG[0, 0], XG[0, 1], XG[1, 0], XG[1, 1] = lon1, lon1, lon2, lon2
    YG[0, 0], YG[1, 0], YG[0, 1], YG[1, 1] = lat2, lat2, lat1, lat1
    E.distinct(XG, YG)
    return XG, YG
