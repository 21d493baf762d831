"""Two tiles: matching edges, fringes, stitching."""
from sx.env import NAMES, DI, DJ, fieldshape
from .registry import prop
from .grid import Fine, points, rot, shapes_ok, lonhint, lathint, NV, POINTS, LENGTHS, AREAS, RAD
from .p_io import layout
from .p_grid import matrices

GEO = ['corner points are pairwise distinct positions with |latitude| <= 89; longitudes in -180..400',
       'tile corners that are not common are at least 1 % of every tile diagonal apart']
# placement of tile b beside tile a
SIDES = ('E', 'N', 'W', 'S')
OPP = dict(E='W', W='E', N='S', S='N')


def block(P, side, m, n, mb, nb, which):
    """Points of tile a or b in the joined point array P (b of mb x nb cells on the given side of a)."""
    if side == 'E':
        return P[:m + 1, :] if which == 'a' else P[m:, :]
    if side == 'W':
        return P[mb:, :] if which == 'a' else P[:mb + 1, :]
    if side == 'N':
        return P[:, :n + 1] if which == 'a' else P[:, n:]
    return P[:, nb:] if which == 'a' else P[:, :nb + 1]


def offset(side, m, n, mb, nb, which):
    """First joined cell index of the tile."""
    if which == 'a':
        return (mb if side == 'W' else 0), (nb if side == 'S' else 0)
    return (m if side == 'E' else 0), (n if side == 'N' else 0)


def cornerset(X, Y):
    return [(X[i, j], Y[i, j]) for i in (0, -1) for j in (0, -1)]


def far(E, ax, ay, bx, by, common):
    """Assume tile corners not listed in `common` (pairs of corner numbers) to be well apart."""
    ca, cb = cornerset(ax, ay), cornerset(bx, by)
    diag = []
    for c in (ca, cb):
        diag.append(E.geod.inv(c[0][0], c[0][1], c[3][0], c[3][1])[2])
        diag.append(E.geod.inv(c[1][0], c[1][1], c[2][0], c[2][1])[2])
    for d in diag:
        E.assume(d > 0)
    for p in range(4):
        for q in range(4):
            if (p, q) not in common:
                dist = E.geod.inv(ca[p][0], ca[p][1], cb[q][0], cb[q][1])[2]
                E.assume(E.AND(*[dist > 0.01 * d for d in diag]))


# corner numbers as in cornerset: 0 SW, 1 NW, 2 SE, 3 NE
COMMON = dict(E={(2, 0), (3, 1)}, W={(0, 2), (1, 3)}, N={(1, 0), (3, 2)}, S={(0, 1), (2, 3)})


def joined(E, side, m, n, mb, nb, scale=1, fixed=False):
    """Symbolic points of two tiles sharing an edge; (all, a, b) as (X, Y) pairs."""
    M, N = (m + mb, n) if side in 'EW' else (m, n + nb)
    if fixed:
        X, Y = E.np.zeros((M + 1, N + 1)), E.np.zeros((M + 1, N + 1))
        for i in range(M + 1):
            for j in range(N + 1):
                X[i, j], Y[i, j] = lonhint(i, j)[0], lathint(i, j)[0]
    else:
        X, Y = points(E, M, N, scale=scale)
    a = [block(P, side, m, n, mb, nb, 'a') for P in (X, Y)]
    b = [block(P, side, m, n, mb, nb, 'b') for P in (X, Y)]
    if not fixed:
        far(E, a[0], a[1], b[0], b[1], COMMON[side])
    return (X, Y), a, b


def border(E, side, X, Y, m, n, mb, nb):
    """Fine points of the joined grid on the middle line of b's border cells."""
    if side in 'EW':
        k = m if side == 'E' else mb - 1
        xs, ys = X[k:k + 2, :], Y[k:k + 2, :]
        f = Fine(E, xs, ys, 1, 1)
        return [f.X[1][q] for q in range(f.J + 1)], [f.Y[1][q] for q in range(f.J + 1)]
    k = n if side == 'N' else nb - 1
    f = Fine(E, X[:, k:k + 2], Y[:, k:k + 2], 1, 1)
    return [f.X[p][1] for p in range(f.I + 1)], [f.Y[p][1] for p in range(f.I + 1)]


EDGENO = dict(N=0, S=1, E=2, W=3)

M_Q = [('E', 1, 1, 2, 1), ('N', 2, 1, 2, 1), ('W', 1, 2, 1, 2), ('S', 1, 1, 1, 2),
       ('E', 2, 3, 3, 3), ('N', 3, 2, 3, 1), ('W', 3, 4, 2, 4), ('S', 4, 2, 4, 3)]
M_T = M_Q + [('E', 5, 4, 3, 4), ('N', 6, 1, 6, 4), ('W', 1, 7, 4, 7), ('S', 5, 5, 5, 2)]


def nm(side, m, n, mb, nb):
    return '%s %dx%d with %dx%d' % (side, m, n, mb, nb)


def sides(tier, q=M_Q, t=M_T):
    return [(nm(*s), dict(side=s[0], m=s[1], n=s[2], mb=s[3], nb=s[4])) for s in (q if tier == 'quick' else t)]


def matchcases(tier):
    out = [('match ' + n, dict(k, what='match')) for n, k in sides(tier)]
    out += [('nearly ' + n, dict(k, what='nearly')) for n, k in sides(tier)[:4]]
    out += [('%s tolerance %s' % (w, n), dict(k, what=w)) for w in ('within', 'beyond')
            for n, k in sides(tier, M_Q[:6], M_Q)]
    # tiles extending further from the common edge
    out += [('match ' + nm(*s), dict(side=s[0], m=s[1], n=s[2], mb=s[3], nb=s[4], what='match'))
            for s in (('E', 3, 1, 4, 1), ('N', 1, 3, 1, 4), ('W', 4, 2, 3, 2), ('S', 2, 4, 2, 3))]
    base = dict(m=1, n=2, mb=2, nb=2)
    for s in SIDES:
        out.append(('apart ' + s, dict(base, side=s, what='apart')))
        out.append(('one corner ' + s, dict(base, side=s, what='corner')))
        for t in range(1, 4):
            out.append(('turned %s %d' % (s, t), dict(base, side=s, what='turn%d' % t)))
        out.append(('longer ' + s, dict(base, side=s, what='longer')))
        out.append(('shorter ' + s, dict(base, side=s, what='shorter')))
    return out


@prop('C14', matchcases, 'tiles of up to 4x3 cells (thorough 5x5, 6x4, 4x7) on all four sides; disjoint tiles, tiles with one common '
      'corner, tiles turned by quarter turns, edges of different cell counts, corners up to and beyond the tolerance; '
      'all coordinates', assume=GEO)
def matching(E, what, side, m, n, mb, nb):
    if side in 'NS' and what not in ('match', 'nearly', 'within', 'beyond'):
        m, n, mb, nb = n, m, nb, mb
    geod = E.geod
    fn = E.mod('matchedges').matchedges
    verbose = False
    if what in ('longer', 'shorter'):
        (X, Y), a, b = joined(E, side, m, n, mb, nb)
        t = a if what == 'longer' else b
        # an extra grid line in one tile
        for k in (0, 1):
            t[k] = extra(E, t[k], side, k)
        o = E.call(fn, a[0], a[1], b[0], b[1], geod, verbose)
        E.check(o.raised(ValueError), 'edges of different cell counts do not raise ValueError')
        return
    if what in ('apart', 'corner'):
        ax, ay = points(E, m, n, 'a')
        bx, by = points(E, mb, nb, 'b', off=(m + 1, n) if what == 'apart' else (m, n))
        common = set()
        if what == 'corner':
            k = SIDES.index(side)
            p, q = (((-1, -1), (0, 0)), ((-1, 0), (0, -1)), ((0, 0), (-1, -1)), ((0, -1), (-1, 0)))[k]
            bx[q], by[q] = ax[p], ay[p]
            num = {(0, 0): 0, (0, -1): 1, (-1, 0): 2, (-1, -1): 3}
            common = {(num[p], num[q])}
        far(E, ax, ay, bx, by, common)
        o = E.call(fn, ax, ay, bx, by, geod, verbose)
        E.check(o.raised(ValueError), 'tiles without a common edge do not raise ValueError')
        return
    (X, Y), a, b = joined(E, side, m, n, mb, nb)
    if what.startswith('turn'):
        k = int(what[4:])
        o = E.call(fn, a[0], a[1], rot(E, b[0], k), rot(E, b[1], k), geod, verbose)
        E.check(o.raised(ValueError), 'tiles of different orientation do not raise ValueError')
        return
    if what in ('nearly', 'within'):
        b = nearby(E, a, b, side, m, n, mb, nb, what == 'within')
    if what == 'beyond':
        b = beyond(E, a, b, side, m, n, mb, nb)
        o = E.call(fn, a[0], a[1], b[0], b[1], geod, verbose)
        E.check(o.raised(ValueError), 'tiles with corners further apart than the tolerance do not raise ValueError')
        return
    o = E.call(fn, a[0], a[1], b[0], b[1], geod, verbose)
    E.check(o.ok, 'tiles with a common edge are rejected')
    if not o.ok:
        return
    ea, sa, eb, sb, ex, ey, js = o.value
    E.check(ea == EDGENO[side], 'wrong edge of the first tile')
    E.check(eb == EDGENO[OPP[side]], 'wrong edge of the second tile')
    edge = dict(E=lambda t: t[-1, :], W=lambda t: t[0, :], N=lambda t: t[:, -1], S=lambda t: t[:, 0])
    for t, s, w in ((a, sa, side), (b, sb, OPP[side])):
        for P in t:
            E.eq(P[s], edge[w](P), 'the slice does not select the common edge', exact=True)
    # midline of b's border cells, counted from a's edge
    xs, ys = (X, Y) if what == 'match' else displaced(E, side, a, b)
    if what == 'match':
        wx, wy = border(E, side, X, Y, m, n, mb, nb)
    else:
        f = Fine(E, xs, ys, 1, 1)
        wx = [f.X[1][q] for q in range(f.J + 1)] if side in 'EW' else [f.X[p][1] for p in range(f.I + 1)]
        wy = [f.Y[1][q] for q in range(f.J + 1)] if side in 'EW' else [f.Y[p][1] for p in range(f.I + 1)]
    if not E.shape_is(ex, (len(wx),), 'midpoint longitudes') or not E.shape_is(ey, (len(wx),), 'midpoint latitudes'):
        return
    E.eq(ex, vec(E, wx), 'midpoint longitudes of the neighbour cells', atol=1e-9, mod360=True)
    E.eq(ey, vec(E, wy), 'midpoint latitudes of the neighbour cells', atol=1e-9)
    # their place in a's compute grid with its boundary ring
    cg = E.np.zeros((2 * m + 3, 2 * n + 3))
    cg[js] = vec(E, list(range(1, len(wx) + 1)))
    want = E.np.zeros((2 * m + 3, 2 * n + 3))
    for k in range(len(wx)):
        want[dict(E=(2 * m + 2, k + 1), W=(0, k + 1), N=(k + 1, 2 * n + 2), S=(k + 1, 0))[side]] = float(k + 1)
    E.eq(cg, want, 'the midpoints are not placed beside the common edge')


def away(variant, k, cnt):
    """Hinted displacement of point k of cnt common ones, degrees."""
    return (1e-9, 5e-9 if k else 0.0, 5e-9 if k < cnt - 1 else 0.0, 2e-9 * (k + 1) / cnt)[variant % 4]


def nearlon(k, cnt, lons):
    out = []
    for q, v in enumerate(lons):
        v = v + away(q, k, cnt)
        if q % 5 in (1, 4):     # the same meridian counted otherwise
            v = v + 360 if v <= 40 else v - 360 if v >= 180 else v
        out.append(v)
    return out


def diagonals(E, *tiles):
    out = []
    for t in tiles:
        c = cornerset(*t)
        for p, q in ((0, 3), (1, 2)):
            out.append(E.geod.inv(c[p][0], c[p][1], c[q][0], c[q][1])[2])
    return out


def hintdiags(side, m, n, mb, nb):
    """Tile diagonals of the hinted points, in degrees of latitude: (least, largest) per hint."""
    import math
    out = []
    for q in range(NV):
        d = []
        for which, p, r in (('a', m, n), ('b', mb, nb)):
            oi, oj = offset(side, m, n, mb, nb, which)
            for (i, j), (k, l) in (((0, 0), (p, r)), ((p, 0), (0, r))):
                x1, y1, x2, y2 = [math.radians(f(oi + u, oj + v)[q]) for u, v in ((i, j), (k, l)) for f in (lonhint, lathint)]
                h = math.sin((y2 - y1) / 2) ** 2 + math.cos(y1) * math.cos(y2) * math.sin((x2 - x1) / 2) ** 2
                d.append(math.degrees(2 * math.asin(math.sqrt(h))))
        out.append((min(d), max(d)))
    return out


TOL = 1e-6      # of the tile diagonals


def nearby(E, a, b, side, m, n, mb, nb, bound=False):
    """b with its copy of the common edge displaced by at most 1 mm, or (bound) up to the tolerance."""
    b0 = b
    b = [b[0].copy(), b[1].copy()]
    cnt = b[0].shape[0] if side in 'NS' else b[0].shape[1]
    diag = hintdiags(side, m, n, mb, nb)
    dists = []
    for k in range(cnt):
        i, j = dict(E=(0, k), W=(-1, k), N=(k, 0), S=(k, -1))[side]
        lons, lats = lonof(E, b[0], i, j, side, m, n, mb, nb), latof(E, b[0], i, j, side, m, n, mb, nb)
        if bound:
            lats = [v + (0.93 if q % 2 else -0.93) * TOL * diag[q][0] for q, v in enumerate(lats)]
        else:
            lons, lats = nearlon(k, cnt, lons), [v - away(q, k, cnt) for q, v in enumerate(lats)]
        bx = E.real('near%dlon' % k, hint=lons, lo=-180.0, hi=400.0)
        by = E.real('near%dlat' % k, hint=lats, lo=-89.0, hi=89.0)
        dists.append(E.geod.inv(bx, by, b0[0][i, j], b0[1][i, j])[2])
        if not bound:
            E.assume(dists[-1] <= 1e-3)
        b[0][i, j], b[1][i, j] = bx, by
    far(E, a[0], a[1], b[0], b[1], COMMON[side])
    for d in diagonals(E, a, b):
        if bound:
            for x in dists:
                E.assume(x <= 0.97 * TOL * d)
        else:
            E.assume(d > 2000.0)
    return b


def beyond(E, a, b, side, m, n, mb, nb):
    """b with one corner of the common edge displaced by more than the tolerance."""
    b0 = b
    b = [b[0].copy(), b[1].copy()]
    k = -1 if (m + n) % 2 else 0
    i, j = dict(E=(0, k), W=(-1, k), N=(k, 0), S=(k, -1))[side]
    diag = hintdiags(side, m, n, mb, nb)
    lons, lats = lonof(E, b[0], i, j, side, m, n, mb, nb), latof(E, b[0], i, j, side, m, n, mb, nb)
    far_ = (1.08, -1.08, 2.5, -9.0)
    bx = E.real('nearlon', hint=lons, lo=-180.0, hi=400.0)
    by = E.real('nearlat', hint=[v + far_[q % 4] * TOL * diag[q][1] for q, v in enumerate(lats)], lo=-89.0, hi=89.0)
    d = E.geod.inv(bx, by, b0[0][i, j], b0[1][i, j])[2]
    b[0][i, j], b[1][i, j] = bx, by
    far(E, a[0], a[1], b[0], b[1], COMMON[side])
    for x in diagonals(E, a, b):
        E.assume(d > 1.03 * TOL * x)
    return b


def vec(E, l):
    v = E.np.zeros(len(l))
    for k, x in enumerate(l):
        v[k] = x
    return v


def displaced(E, side, a, b):
    """The cells between a's edge and b's next line."""
    out = []
    for k in (0, 1):
        A, B = a[k], b[k]
        if side in 'EW':
            z = E.np.zeros((2, A.shape[1]))
            lo, hi = (A[-1, :], B[1, :]) if side == 'E' else (B[-2, :], A[0, :])
            z[0, :], z[1, :] = lo, hi
        else:
            z = E.np.zeros((A.shape[0], 2))
            lo, hi = (A[:, -1], B[:, 1]) if side == 'N' else (B[:, -2], A[:, 0])
            z[:, 0], z[:, 1] = lo, hi
        out.append(z)
    return out


def index(side, i, j, m, n, mb, nb, shape):
    """Joined index of b's point (i, j)."""
    oi, oj = offset(side, m, n, mb, nb, 'b')
    return oi + (i if i >= 0 else shape[0] + i), oj + (j if j >= 0 else shape[1] + j)


def lonof(E, B, i, j, *s):
    from .grid import lonhint
    return lonhint(*index(s[0], i, j, *s[1:], B.shape))


def latof(E, B, i, j, *s):
    from .grid import lathint
    return lathint(*index(s[0], i, j, *s[1:], B.shape))


def extra(E, P, side, k):
    """The tile with one more grid line along the common edge, its outer corners kept."""
    p, q = P.shape
    tag = 'extralon' if k == 0 else 'extralat'
    from .grid import lonhint, lathint
    h = lonhint if k == 0 else lathint
    lo, hi = (-180.0, 400.0) if k == 0 else (-89.0, 89.0)
    if side in 'EW':
        z = E.np.zeros((p, q + 1))
        z[:, :q - 1], z[:, q] = P[:, :q - 1], P[:, q - 1]
        for i in range(p):
            z[i, q - 1] = E.real('%s%d' % (tag, i), hint=h(i, q - 1.5), lo=lo, hi=hi)
    else:
        z = E.np.zeros((p + 1, q))
        z[:p - 1, :], z[p, :] = P[:p - 1, :], P[p - 1, :]
        for i in range(q):
            z[p - 1, i] = E.real('%s%d' % (tag, i), hint=h(p - 1.5, i), lo=lo, hi=hi)
    return z


# ---------------------------------------------------------------------------
# fringes and stitching

T_Q = [('E', 1, 1, 1, 1), ('N', 1, 2, 1, 1), ('W', 2, 1, 1, 1), ('S', 1, 1, 1, 2)]
T_T = T_Q + [('E', 2, 2, 1, 2), ('N', 2, 3, 2, 2), ('W', 1, 3, 2, 3), ('S', 3, 1, 3, 2), ('E', 3, 2, 2, 2)]
T_L = T_T + [('E', 3, 4, 2, 4), ('N', 4, 2, 4, 3), ('W', 5, 4, 3, 4), ('S', 4, 1, 4, 5)]


def reach(name, i, j, m, n):
    """The sides of an m x n cell tile the definition of element (i, j) reaches across."""
    out = set()
    if name in POINTS:
        return out
    lo_i = name in ('DXC', 'DXV', 'RAW', 'RAZ')
    lo_j = name in ('DYC', 'DYU', 'RAS', 'RAZ')
    if lo_i and i == 0:
        out.add('W')
    if lo_i and i == m:
        out.add('E')
    if lo_j and j == 0:
        out.add('S')
    if lo_j and j == n:
        out.add('N')
    return out


SPECIAL = (12.5, float('nan'), 5e-324, -1e-200, float('inf'), 0.0, -0.0, 1e-9, -7.25)


def tiledata(E, tag, XY, m, n, fringe=None):
    """A tile's matrices: its corner points, everything else arbitrary values.

    fringe 'zero': terms whose definition reaches outside the tile are zero;
    'bits': any 64-bit doubles, NaN, infinities and subnormal values included."""
    d = {}
    for nm_ in NAMES:
        if nm_ in ('XG', 'YG'):
            d[nm_] = XY[nm_ == 'YG'].copy()
            continue
        a = E.np.zeros(fieldshape(nm_, m, n))
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                if fringe == 'zero' and reach(nm_, i, j, m, n):
                    continue
                if fringe == 'bits':
                    k = i + 2 * j + ord(nm_[-1])
                    a[i, j] = E.f64('%s.%s[%d,%d]' % (tag, nm_, i, j), hint=[SPECIAL[(k + q) % len(SPECIAL)]
                                                                           for q in range(len(SPECIAL))])
                    continue
                a[i, j] = E.real('%s.%s[%d,%d]' % (tag, nm_, i, j), hint=[1000.0 + 7 * i + 3 * j + len(nm_) + ord(nm_[-1]),
                                                                         -3.5 - i + 2 * j, 1e-10 * (1 + i + 2 * j),
                                                                         0.0 if (i + j) % 2 else 12.5 + i])
        d[nm_] = a
    return d


def tilefile(E, name, d, m, n):
    p = E.path(name)
    E.putdoubles(p, layout(E, d, m, n))
    return p


def two(E, side, m, n, mb, nb, fringe=None, near=False):
    (X, Y), a, b = joined(E, side, m, n, mb, nb, fixed=fringe == 'bits')
    if near:
        b = nearby(E, a, b, side, m, n, mb, nb)
    A, B = tiledata(E, 'a', a, m, n, fringe), tiledata(E, 'b', b, mb, nb, fringe)
    kw = dict(tilea=tilefile(E, 'a.mitgrid', A, m, n), nia=m, nja=n, tileb=tilefile(E, 'b.mitgrid', B, mb, nb), nib=mb, njb=nb)
    return X, Y, A, B, kw


def same(E, u, v):
    """Equal values; nan is equal to nan."""
    if E.sym:
        return E.eqv(u, v)
    return u == v or (u != u and v != v)


def kept(E, got, t):
    """Conditions: nonzero elements of t appear in got."""
    out = []
    for i in range(t.shape[0]):
        for j in range(t.shape[1]):
            if E.sym and E.core.same(got[i, j], t[i, j]):
                continue
            out.append(E.OR(t[i, j] == 0, same(E, got[i, j], t[i, j])))
    return E.AND(*out) if out else True


@prop('C15', lambda tier: nearcases(tier), 'tiles of up to 3x2 cells (thorough 5x4) on all four sides; every element of '
      'both tiles arbitrary (all reals with arbitrary points, all 64-bit doubles with fixed points); common points exactly equal '
      'or within 1 mm', assume=GEO)
def keepsdata(E, side, m, n, mb, nb, near=False, fringe=None):
    X, Y, A, B, kw = two(E, side, m, n, mb, nb, fringe, near=near)
    o = E.call(E.mod('addfringe').addfringe, E.bool('strict', hint=False), False, **kw)
    E.check(o.ok, 'adding a fringe fails')
    if not o.ok:
        return
    ea, eb, r = o.value
    E.check(ea == EDGENO[side] and eb == EDGENO[OPP[side]], 'the reported edges are not the matching ones')
    if not shapes_ok(E, r, m, n, 'tile with fringe'):
        return
    for nm_ in NAMES:
        E.check(kept(E, r[nm_], A[nm_]), 'existing data of %s are changed' % nm_)


@prop('C16', lambda tier: sides(tier, T_Q, T_T), 'tiles of up to 2x1 cells (thorough 3x2) on all four sides; all corner points; '
      'tile data arbitrary, terms reaching outside the tile zero', assume=GEO)
def fringeterms(E, side, m, n, mb, nb):
    X, Y, A, B, kw = two(E, side, m, n, mb, nb, 'zero')
    o = E.call(E.mod('addfringe').addfringe, False, False, **kw)
    E.check(o.ok, 'adding a fringe fails')
    if not o.ok:
        return
    r = o.value[2]
    if not shapes_ok(E, r, m, n, 'tile with fringe'):
        return
    # joined grid of a and the first cells of b
    ob = dict(E=(0, 0), N=(0, 0), W=(1, 0), S=(0, 1))[side]
    P = [dict(E=lambda v: v[:m + 2, :], N=lambda v: v[:, :n + 2], W=lambda v: v[mb - 1:, :], S=lambda v: v[:, nb - 1:])[side](v)
         for v in (X, Y)]
    f = Fine(E, P[0], P[1], 1, 1)
    left, wrong = [], []
    for nm_ in NAMES:
        if nm_ in POINTS:
            continue
        for i in range(r[nm_].shape[0]):
            for j in range(r[nm_].shape[1]):
                s = reach(nm_, i, j, m, n)
                v = r[nm_][i, j]
                if s and s != {side}:
                    E.check(v == 0, 'term %s reaching across another edge is not zero' % nm_)
                elif s:
                    p, q = i + ob[0], j + ob[1]
                    if nm_ in AREAS:
                        if (not hasattr(v, 't') and v == 0):
                            left.append(False)
                            continue
                        lo = (p * 2 - (nm_ in ('RAW', 'RAZ')), q * 2 - (nm_ in ('RAS', 'RAZ')))
                        want = [area(E, f, lo, k) for k in (0, 1)]
                        E.check(E.OR(*[v == 0] + [close(E, v, w) for w in want]), 'fringe term %s is wrong' % nm_)
                    else:
                        E.check(E.OR(v == 0, close(E, v, f.elem(nm_, p, q))), 'fringe term %s is wrong' % nm_)
                    left.append(v != 0)
    E.check(E.AND(*left), 'fringe terms are left zero')


def close(E, v, w):
    if E.sym:
        return E.eqv(v, w)
    return abs(v - w) <= 1e-6 * abs(w) + 1e-3


def area(E, f, lo, kernel):
    u = E.mod('util')
    s = 0.0
    for p, q in ((0, 0), (1, 0), (1, 1), (0, 1)):
        x, y = E.np.zeros((2, 2)), E.np.zeros((2, 2))
        for k in range(2):
            for l in range(2):
                x[k, l], y[k, l] = f.X[lo[0] + p + k][lo[1] + q + l], f.Y[lo[0] + p + k][lo[1] + q + l]
        s = s + (u.pquad_uarea, u.squad_uarea)[kernel](u.lonlat2cart(x, y))[0, 0] * (RAD * RAD)
    return s


def nearcases(tier):
    out = sides(tier, T_T, T_L)
    for s in SIDES:
        out.append(('nearly ' + nm(s, 1, 1, 1, 1), dict(side=s, m=1, n=1, mb=1, nb=1, near=True)))
    out += [('doubles ' + n, dict(k, fringe='bits')) for n, k in sides(tier, T_T, T_L)]
    return out


@prop('C17', nearcases, 'tiles of up to 3x2 cells (thorough 5x4) on all four sides; every element of '
      'both tiles arbitrary (all reals with arbitrary points, all 64-bit doubles with fixed points); common points exactly equal '
      'or within 1 mm', assume=GEO)
def stitching(E, side, m, n, mb, nb, near=False, fringe=None):
    X, Y, A, B, kw = two(E, side, m, n, mb, nb, fringe, near=near)
    o = E.call(E.mod('stitch').stitch, False, False, **kw)
    E.check(o.ok, 'stitching fails')
    if not o.ok:
        return
    c, ni, nj = o.value
    M, N = (m + mb, n) if side in 'EW' else (m, n + nb)
    E.check(ni == M and nj == N, 'the cell counts do not add up')
    if not shapes_ok(E, c, M, N, 'stitched grid'):
        return
    for nm_ in NAMES:
        place(E, c[nm_], A, B, nm_, side, m, n, mb, nb)


def place(E, got, A, B, nm_, side, m, n, mb, nb):
    conds = []
    seen = set()
    for which, t, (p, q) in (('a', A[nm_], offset(side, m, n, mb, nb, 'a')), ('b', B[nm_], offset(side, m, n, mb, nb, 'b'))):
        for i in range(t.shape[0]):
            for j in range(t.shape[1]):
                k = (p + i, q + j)
                if k in seen:
                    continue
                seen.add(k)
                x = t[i, j]
                if E.sym and E.core.same(got[k], x):
                    continue
                conds.append(same(E, got[k], x) if which == 'b' else E.OR(x == 0, same(E, got[k], x)))
    E.check(len(seen) == got.shape[0] * got.shape[1], nm_ + ': wrong size')
    E.check(E.AND(*conds) if conds else True, nm_ + ': elements of a tile are not at their place in the joined grid')


def cutcases(tier):
    q = [('E', 2, 1, 1), ('N', 1, 2, 1), ('E', 3, 1, 1), ('N', 1, 3, 2)] if tier == 'quick' else [('E', 3, 1, 1), ('E', 3, 2, 2), ('N', 2, 3, 1), ('N', 1, 4, 2),
                                                                   ('E', 4, 2, 2)]
    out = []
    for s, M, N, c in q:
        for order in ('ab', 'ba'):
            out.append(('%dx%d cut %s at %d order %s' % (M, N, s, c, order), dict(side=s, M=M, N=N, cut=c, order=order, how='any')))
            if c == 1 and M * N <= (2 if tier == 'quick' else 6):
                out.append(('generated %dx%d cut %s at %d order %s' % (M, N, s, c, order),
                            dict(side=s, M=M, N=N, cut=c, order=order, how='made')))
    return out


@prop('C18', cutcases, 'grids of 2x1, 1x2, 3x1 and 1x3 cells (thorough 4x2, 3x2, 2x3, 1x4) cut at every listed line in both '
      'directions, parts in both orders; arbitrary matrices, and grids made by regrid', assume=GEO)
def cutandstitch(E, side, M, N, cut, order, how):
    m, n = (cut, N) if side == 'E' else (M, cut)
    mb, nb = (M - cut, N) if side == 'E' else (M, N - cut)
    (X, Y), a, b = joined(E, side, m, n, mb, nb)
    if how == 'any':
        G = tiledata(E, 'g', (X, Y), M, N, 'zero')
        A, B = part(E, G, m, n, 0, 0), part(E, G, mb, nb, *offset(side, m, n, mb, nb, 'b'))
    else:
        made = []
        for (x, y) in ((X, Y), a, b):
            p, q = x.shape[0] - 1, x.shape[1] - 1
            o = E.call(E.mod('regrid').regrid, False, False, mitgrid_matrices=matrices(E, x.copy(), y.copy()), lon1=x[0, q],
                       lat1=y[0, q], lon2=x[p, 0], lat2=y[p, 0], lon_subscale=1, lat_subscale=1)
            E.check(o.ok, 'regridding fails')
            if not o.ok or not shapes_ok(E, o.value[0], p, q, 'regridded'):
                return
            made.append(o.value[0])
        G, A, B = made
    fa, fb = tilefile(E, 'a.mitgrid', A, m, n), tilefile(E, 'b.mitgrid', B, mb, nb)
    if order == 'ab':
        kw = dict(tilea=fa, nia=m, nja=n, tileb=fb, nib=mb, njb=nb)
    else:
        kw = dict(tilea=fb, nia=mb, nja=nb, tileb=fa, nib=m, njb=n)
    o = E.call(E.mod('stitch').stitch, False, False, **kw)
    E.check(o.ok, 'stitching the parts fails')
    if not o.ok:
        return
    c, ni, nj = o.value
    E.check(ni == M and nj == N, 'stitching the parts gives other cell counts')
    if not shapes_ok(E, c, M, N, 'stitched grid'):
        return
    for nm_ in NAMES:
        if how == 'made' and nm_ in AREAS:
            continue
        conds = []
        for i in range(G[nm_].shape[0]):
            for j in range(G[nm_].shape[1]):
                if side in reach(nm_, i, j, m, n):
                    continue
                u, v = c[nm_][i, j], G[nm_][i, j]
                if E.sym:
                    if how == 'made' and nm_ in ('XC', 'XG'):
                        conds.append(E.OR(u == v, u == v + 360, u == v - 360))
                    elif how == 'made' or not isinstance(v, E.core.Sym):
                        conds.append(E.eqv(u, v))
                    elif not E.core.same(u, v):
                        conds.append(E.OR(v == 0, E.eqv(u, v)))
                elif how == 'made':
                    d = abs((u - v + 180) % 360 - 180) if nm_ in ('XC', 'XG') else abs(u - v)
                    conds.append(d <= 1e-9 + 1e-9 * abs(v))
                else:
                    conds.append(v == 0 or u == v)
        E.check(E.AND(*conds), nm_ + ' of the stitched parts is not that of the whole grid')


def part(E, G, m, n, oi, oj):
    d = {}
    for nm_ in NAMES:
        a = E.np.zeros(fieldshape(nm_, m, n))
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                if not reach(nm_, i, j, m, n):
                    a[i, j] = G[nm_][oi + i, oj + j]
        d[nm_] = a
    return d
