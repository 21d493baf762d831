"""Input forms of regrid, agreement of mkgrid with regrid."""
from sx.env import NAMES, fieldshape
from .registry import prop
from .grid import points, rot, corners, cornerarrays, shapes_ok
from .p_grid import GEO, source, matrices
from .p_io import layout

# (cells m x n, margin (w,e,s,n), quarter turns, factors a, b)
SRC_Q = [((1, 1), (0, 1, 0, 0), 1, 2, 1), ((1, 2), (1, 0, 0, 0), 2, 1, 2)]
SRC_T = SRC_Q + [((2, 2), (0, 0, 0, 0), 0, 1, 1), ((2, 1), (0, 0, 1, 1), 3, 2, 3), ((2, 3), (1, 1, 0, 0), 1, 2, 2)]
FORMS = ('mitgridfile', 'binary', 'csv', 'csv+binary')


def src(tier):
    out = []
    for s, m, r, a, b in (SRC_Q if tier == 'quick' else SRC_T):
        for f in FORMS:
            out.append(('%s %dx%d+%s turn %d by %dx%d' % (f, s[0], s[1], ''.join(map(str, m)), r, a, b),
                        dict(what='form', form=f, size=s, margin=m, turns=r, a=a, b=b)))
        out.append(('repeat %dx%d+%s turn %d by %dx%d' % (s[0], s[1], ''.join(map(str, m)), r, a, b),
                    dict(what='repeat', form=None, size=s, margin=m, turns=r, a=a, b=b)))
    for f in FORMS:
        out.append(('rewritten %s' % f, dict(what='rewritten', form=f, size=(1, 1), margin=(0, 0, 0, 0), turns=1, a=1, b=2)))
    out += [('missing ' + w, dict(what=w, form=None, size=(1, 1), margin=(0, 0, 0, 0), turns=0, a=1, b=1))
            for w in ('source', 'yg_file', 'xg_file', 'ni', 'nj', 'ni of files', 'nj of files')]
    return out


def same(E, g, h, msg):
    for n in NAMES:
        E.eq(g[n], h[n], msg + ' ' + n, exact=True)


def argsof(X, Y, m, n, a, b):
    return dict(lon1=X[0, n], lat1=Y[0, n], lon2=X[m, 0], lat2=Y[m, 0], lon_subscale=a, lat_subscale=b)


def putsource(E, form, sx, sy):
    """Write the corner points in one of the accepted forms; the keyword arguments naming it."""
    p, q = sx.shape
    ni, nj = p - 1, q - 1
    if form == 'mitgridfile':
        d = {n: E.np.zeros(fieldshape(n, ni, nj)) for n in NAMES}
        d['XG'], d['YG'] = sx, sy
        f = E.path('src.mitgrid')
        E.putdoubles(f, layout(E, d, ni, nj))
        return dict(mitgridfile=f, ni=ni, nj=nj)
    kw = dict(ni=ni, nj=nj)
    for k, a in (('xg_file', sx), ('yg_file', sy)):
        if form == 'csv' or (form == 'csv+binary' and k == 'xg_file'):
            kw[k] = E.path(k + '.csv')
            E.putcsv(kw[k], [[a[i, j] for j in range(q)] for i in range(p)])
        else:
            kw[k] = E.path(k + '.bin')
            E.putdoubles(kw[k], [a[i, j] for j in range(q) for i in range(p)])
    return kw


@prop('C19', src, 'source grids up to 3x2 cells with margins (thorough 4x3), four turns; all coordinates', assume=GEO)
def sources(E, what, form, size, margin, turns, a, b):
    rg = E.mod('regrid').regrid
    X, Y, sx, sy = source(E, size, margin, turns)
    m, n = size
    at = argsof(X, Y, m, n, a, b)
    if what.startswith('missing') or form is None and what != 'repeat':
        kw = putsource(E, 'binary' if 'file' in what else 'mitgridfile', sx, sy)
        if what == 'source':
            kw = dict(ni=kw['ni'], nj=kw['nj'])
        elif what.endswith('_file'):
            kw.pop(what)
        else:
            kw.pop(what.split()[0])
        kw.update(at)
        o = E.call(rg, False, False, **kw)
        E.check(o.raised(ValueError), 'regridding without ' + what + ' does not raise ValueError')
        return
    if what == 'rewritten':
        kw = putsource(E, form, sx, sy)
        o = E.call(rg, False, False, **dict(at, **kw))
        E.check(o.ok, 'regridding from %s fails' % form)
        if not o.ok:
            return
        # other contents under the same name
        X, Y = points(E, m, n, 'q', off=(2, 3))
        sx, sy = rot(E, X, turns), rot(E, Y, turns)
        at = argsof(X, Y, m, n, a, b)
        putsource(E, form, sx, sy)
        p = E.call(rg, False, False, **dict(at, **kw))
        q = E.call(rg, False, False, mitgrid_matrices=matrices(E, sx, sy), **at)
        E.check(p.ok and q.ok, 'regridding from a rewritten %s fails' % form)
        if p.ok and q.ok and shapes_ok(E, p.value[0], m * a, n * b, 'regridded ' + form) \
                and shapes_ok(E, q.value[0], m * a, n * b, 'regridded matrices'):
            same(E, p.value[0], q.value[0], 'rewritten %s: another result than from its contents:' % form)
        return
    d = matrices(E, sx.copy(), sy.copy())
    o = E.call(rg, False, False, mitgrid_matrices=d, **at)
    E.check(o.ok, 'regridding matrices fails')
    if not o.ok:
        return
    g, ni, nj = o.value
    if not shapes_ok(E, g, ni, nj, 'regridded matrices'):
        return
    if what == 'form':
        p = E.call(rg, False, False, **dict(at, **putsource(E, form, sx, sy)))
        E.check(p.ok, 'regridding from %s fails' % form)
        if not p.ok:
            return
        h, ni2, nj2 = p.value
        E.check(ni == ni2 and nj == nj2, 'cell counts depend on the input form')
        if shapes_ok(E, h, ni, nj, 'regridded ' + form):
            same(E, h, g, form + ' gives another result than matrices:')
        return
    # inputs are as before
    E.check(sorted(d) == sorted(NAMES), 'regrid changes the set of matrices passed in')
    for nm, s in (('XG', sx), ('YG', sy)):
        E.eq(d[nm], s, nm + ' passed in is modified', exact=True)
    for nm in ('XC', 'YC'):
        E.eq(d[nm], E.np.zeros((sx.shape[0] - 1, sx.shape[1] - 1)), nm + ' passed in is modified', exact=True)
    E.check(all(d[nm] is None for nm in NAMES if nm not in ('XC', 'YC', 'XG', 'YG')), 'matrices passed in are modified')
    # the same arrays again: another corner of the grid, one cell
    W, H = sx.shape[0] - 1, sx.shape[1] - 1
    at2 = argsof(sx[W - 1:, H - 1:], sy[W - 1:, H - 1:], 1, 1, b, a)
    keep = {k: g[k].copy() for k in NAMES}
    p = E.call(rg, False, False, mitgrid_matrices=d, **at2)
    q = E.call(rg, False, False, mitgrid_matrices=matrices(E, sx.copy(), sy.copy()), **at2)
    E.check(p.ok and q.ok, 'a second call for another region fails')
    if p.ok and q.ok:
        E.check(tuple(p.value[1:]) == tuple(q.value[1:]), 'a second call gives other cell counts than a first call')
        for nm in NAMES:
            if E.shape_is(p.value[0][nm], tuple(q.value[0][nm].shape), 'second call'):
                E.eq(p.value[0][nm], q.value[0][nm], 'a second call gives another result than a first call: ' + nm,
                     exact=True)
    for k in NAMES:
        E.eq(g[k], keep[k], 'a later call changes an earlier result: ' + k, exact=True)


@prop('C20', lambda tier: [('%dx%d' % s, dict(a=s[0], b=s[1])) for s in
                           ([(1, 1), (2, 1), (1, 3), (2, 2), (3, 2)] + ([(4, 3), (2, 5), (5, 5), (1, 8)] if tier != 'quick' else []))],
      'subdivisions up to 3x2 (thorough 5x5, 1x8), all corner coordinates', assume=GEO)
def mk_is_regrid(E, a, b):
    lon1, lat1, lon2, lat2 = corners(E)
    XG, YG = cornerarrays(E, lon1, lat1, lon2, lat2)
    E.assume(E.AND(lat1 != lat2, E.geod.inv(lon1, lat1, lon2, lat1)[2] > 0, E.geod.inv(lon1, lat2, lon2, lat2)[2] > 0))
    at = dict(lon1=lon1, lat1=lat1, lon2=lon2, lat2=lat2)
    o = E.call(E.mod('mkgrid').mkgrid, False, lon_subscale=a, lat_subscale=b, **at)
    one = E.call(E.mod('mkgrid').mkgrid, False, lon_subscale=1, lat_subscale=1, **at)
    E.check(o.ok and one.ok, 'creating the grid fails')
    if not (o.ok and one.ok):
        return
    for src in (matrices(E, XG, YG), one.value[0]):
        p = E.call(E.mod('regrid').regrid, False, False, mitgrid_matrices=src, lon_subscale=a, lat_subscale=b, **at)
        E.check(p.ok, 'regridding the one-cell grid fails')
        if not p.ok:
            return
        E.check(tuple(p.value[1:]) == tuple(o.value[1:]), 'cell counts differ from regridding the one-cell grid')
        if shapes_ok(E, p.value[0], a, b, 'regridded one-cell grid') and shapes_ok(E, o.value[0], a, b, 'new grid'):
            for nm in NAMES:
                E.eq(o.value[0][nm], p.value[0][nm], nm + ' differs from regridding the one-cell grid', atol=1e-9,
                     mod360=nm in ('XC', 'XG'))
