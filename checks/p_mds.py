"""Model output: conversion to grid matrices, round trip, assembly."""
import itertools

from sx.env import NAMES, DI, DJ, fieldshape
from .registry import prop
from .p_io import eqlist

NOTE = ['the text of .meta files is read as written by the harness or the code: their contents are fixed per instance']


def meta(dims, prec, nrec, tile=None, **more):
    """A description file: dims (x first) global sizes, tile [(first, last)] per dimension (x first, one-based)."""
    tile = tile or [(1, d) for d in dims]
    s = ' nDims = [ %3d ];\n dimList = [\n' % len(dims)
    s += ',\n'.join(' %5d,%5d,%5d' % (d, a, b) for d, (a, b) in zip(dims, tile))
    s += "\n ];\n dataprec = [ '%s' ];\n nrecords = [ %5d ];\n" % (prec, nrec)
    if 'step' in more:
        s += ' timeStepNumber = [ %10d ];\n' % more['step']
    if 'map2glob' in more:
        s += ' map2glob = [ %5d,%5d ];\n' % tuple(more['map2glob'])
    return s


def f32(E, name):
    """A finite single-precision value."""
    v = E.f64(name)
    return v


def put(E, base, dims, prec, vals, **k):
    E.puttext(E.path(base + '.meta'), meta(dims, prec, k.pop('nrec', 1), **k))
    E.putdoubles(E.path(base + '.data'), vals, '>f4' if prec == 'float32' else '>f8')


def stored(E, v, prec):
    """The value after storing it at the given precision."""
    if prec == 'float64':
        return v
    if E.sym:
        from sx import arr
        return arr.f4round(v)
    return E.np.float32(v).astype(float)


def values(E, name, shape, prec='float64'):
    """Arbitrary values, not NaN where single precision would not keep its payload."""
    out = {}
    for k in itertools.product(*[range(n) for n in shape]):
        if prec == 'float32':
            v = E.real('%s%r' % (name, k), hint=[1.5 + 3.25 * hash(k) % 17, -0.1 * (1 + sum(k))])
        else:
            v = E.f64('%s%r' % (name, k))
        out[k] = v
    return out


PRESENT = {'all': NAMES, 'some': ('XG', 'YG', 'DXC', 'RAS', 'DYG'), 'points': ('XC', 'YC', 'XG', 'YG'), 'last': ('DYG',)}


def c22(tier):
    q = [(1, 1), (1, 2), (3, 2), (2, 5), (6, 4)] + ([] if tier == 'quick' else [(9, 8), (1, 12), (15, 2)])
    out = []
    for nx, ny in q:
        for w in PRESENT:
            for prec in ('float64', 'float32'):
                out.append(('%dx%d %s %s' % (nx, ny, w, prec), dict(nx=nx, ny=ny, present=w, prec=prec, tiled=False)))
    out.append(('2x2 all float64 tiled', dict(nx=2, ny=2, present='all', prec='float64', tiled=True)))
    out.append(('4x2 some float32 tiled', dict(nx=4, ny=2, present='some', prec='float32', tiled=True)))
    return out


@prop('C22', c22, 'model grids of 1x1 to 6x4 cells (thorough 9x8, 1x12, 15x2), both precisions, four sets of fields present, one file '
      'or tiles per field; all stored values', assume=NOTE)
def converted(E, nx, ny, present, prec, tiled):
    vals = {}
    E.mkdir('run')
    for n in PRESENT[present]:
        v = vals[n] = values(E, n, (ny, nx), prec)
        if tiled:
            for k, (a, b) in enumerate(((1, nx // 2), (nx // 2 + 1, nx))):
                put(E, 'run/%s.%03d.001' % (n, k + 1), (nx, ny), prec,
                    [v[j, i] for j in range(ny) for i in range(a - 1, b)], tile=[(a, b), (1, ny)])
        else:
            put(E, 'run/' + n, (nx, ny), prec, [v[j, i] for j in range(ny) for i in range(nx)])
    for n in ('XC', 'DXC', 'RAZ'):      # other output in the same directory
        put(E, 'run/%s_old' % n, (nx + 1, ny), prec, [7.0] * ((nx + 1) * ny))
    o = E.call(E.mod('mds2mitgrid').mds2mitgrid, E.path('run'), False)
    E.check(o.ok, 'converting model output fails')
    if not o.ok:
        return
    g, ni, nj = o.value
    E.check(ni == nx and nj == ny, 'the cell counts are not those of the model grid')
    E.check(sorted(g) == sorted(NAMES), 'not the 16 grid fields')
    for n in NAMES:
        if n not in vals:
            E.check(g[n] is None, 'absent field %s is not None' % n)
            continue
        if not E.shape_is(g[n], fieldshape(n, nx, ny), n):
            continue
        want = E.np.zeros(fieldshape(n, nx, ny))
        for j in range(ny):
            for i in range(nx):
                want[i, j] = stored(E, vals[n][j, i], prec)
        E.eq(g[n], want, '%s does not hold the model field' % n, exact=True)


# ---------------------------------------------------------------------------

def c23(tier):
    shapes = [(2, 3), (2, 1, 3), (2, 2, 1, 2), (3, 2)] if tier == 'quick' else [(2, 3), (4, 3, 2), (2, 3, 2, 2), (1, 5), (5, 1), (1, 1)]
    out = []
    for sh in shapes:
        for prec in ('float32', 'float64'):
            for mf in ('b', 'l'):
                for itr in (None, 12):
                    out.append(('%s %s %s itr %s' % ('x'.join(map(str, sh)), prec, mf, itr),
                                dict(shape=sh, prec=prec, mf=mf, itr=itr, opt={})))
    o = [dict(ndims=2), dict(nrecords=2), dict(times=3600.0), dict(times=[0.0, 86400.0]), dict(deltat=900.0),
         dict(fields=['THETA', 'SALT']), dict(simulation='a run'), dict(machineformat='ieee-le'), dict(machineformat='>')]
    for k in o:
        out.append(('2x2x3 float64 %r' % k, dict(shape=(2, 2, 3), prec='float64', mf=k.get('machineformat', 'b'), itr=36, opt=k)))
    more = [(0, {}), (0, dict(deltat=900.0)), (9999999999, {}), (None, dict(times=[0.0, 7200.0], deltat=3600.0)),
            (None, dict(times=7200.0, deltat=3600.0)), (None, dict(times=[86400.0, 172800.0])), (7, dict(times=123456789.125)),
            (7, dict(times=[1e-3, 2.5e11])), (7, dict(times=[-3600.0, 0.0])), (5, dict(deltat=[1200.0])),
            (None, dict(fields=['F%02d' % k for k in range(20)])), (3, dict(fields=['F%02d' % k for k in range(23)])),
            (3, dict(fields=['ADVx_TH', 'longername', 'b'] * 15)), (3, dict(simulation="somebody's run")), (3, dict(simulation='a run // 2')),
            (3, dict(ndims=[2], nrecords=[2], simulation=['x'], machineformat=['b'], dataprec=['float64']))]
    for itr, k in more:
        n = len(k.get('fields', ())) or 2
        out.append(('%dx2x1 float64 itr %s %r' % (n, itr, k if n == 2 else n),
                    dict(shape=(n, 2, 1), prec='float64', mf='b', itr=itr, opt=dict(k, **dict(ndims=2) if n > 2 else {}))))
    for itr, k in [(None, dict(times='any')), (4, dict(times=['any'])), (4, dict(times=['any', 'any'])), (6, dict(deltat='any')),
                   (6, dict(times=['any', 0.0], deltat=900.0))]:
        out.append(('any time itr %s %r' % (itr, k), dict(shape=(2, 1), prec='float64', mf='b', itr=itr, opt=k)))
    for lay in ('F', 'T', 'reversed', 'strided', 'shuffled'):
        out.append(('layout %s' % lay, dict(shape=(2, 3), prec='float64', mf='b', itr=None, opt={}, lay=lay)))
        out.append(('layout %s of records' % lay, dict(shape=(2, 2, 3), prec='float32', mf='l', itr=4, opt=dict(ndims=2), lay=lay)))
    out.append(('again', dict(shape=(2, 2, 2), prec='float64', mf='b', itr=4, again=True,
                              opt=dict(ndims=2, times=[900.0, 1800.0], fields=['THETA', 'SALT'], simulation='run'))))
    out.append(('wide', dict(shape=(1, 10007), prec='float64', mf='b', itr=None, opt={}, wide=True)))
    return out


def anytime(E, name, t):
    """A time of any value for 'any' in an option of wrmds."""
    if isinstance(t, list):
        return [anytime(E, '%s%d' % (name, k), x) for k, x in enumerate(t)]
    if not isinstance(t, str) or t != 'any':
        return t
    v = E.real(name, hint=[-123456.789012, 7.0625e-3, 987654321.123], lo=-1e12, hi=1e12)
    return v


@prop('C23', c23, 'arrays of up to 2x2x1x2 elements (thorough 2x3x2x2), both precisions and byte orders, with and without '
      'iteration, records, times (any value up to 1e12), fields, of any memory layout; all values', assume=NOTE)
def mdsround(E, shape, prec, mf, itr, opt, lay=None, again=False, wide=False):
    shape = tuple(shape)
    mds = E.mod('mds')
    if wide:
        v = {k: float(k[-1]) for k in itertools.product(*[range(n) for n in shape])}
        ends = values(E, 'v', (2,), prec)
        v[0, 0], v[0, shape[-1] - 1] = ends[0,], ends[1,]
    else:
        v = values(E, 'v', shape, prec)
    if lay == 'F':
        a = E.np.zeros(shape, order='F')
    elif lay == 'T':
        a = E.np.zeros(shape[::-1]).T
    elif lay == 'reversed':
        a = E.np.zeros(shape)[..., ::-1]
    elif lay == 'strided':
        a = E.np.zeros(tuple(2 * n for n in shape))[tuple(slice(1, None, 2) for n in shape)]
    elif lay == 'shuffled':
        a = E.np.zeros(shape[-1:] + shape[:-1]).transpose(*range(1, len(shape)), 0)
    else:
        a = E.np.zeros(shape)
    for k, x in v.items():
        a[k] = x
    E.mkdir('out')
    base = E.path('out', 'F')
    opt = {k: anytime(E, k, t) for k, t in opt.items()}
    w = E.call(mds.wrmds, base, a, **dict(dict(itr=itr, dataprec=prec, machineformat=mf), **opt))
    E.check(w.ok, 'writing model output fails')
    if not w.ok:
        return
    if 'times' in opt and 'deltat' in opt and itr is None:
        t = opt['times']
        itr = int((t[-1] if isinstance(t, list) else t) / opt['deltat'])
    full = base if itr is None else '%s.%010d' % (base, itr)
    little = mf in ('l', 'ieee-le', '<')
    dt = ('<' if little else '>') + ('f4' if prec == 'float32' else 'f8')
    order = list(itertools.product(*[range(n) for n in shape]))
    want = [stored(E, v[k], prec) for k in order]
    eqlist(E, E.filevalues(full + '.data', dt), want, 'the data file')
    r = E.call(mds.rdmds, base, -1 if itr is None else itr, machineformat=mf, returnmeta=True)
    E.check(r.ok, 'reading back written model output fails')
    if not r.ok:
        return
    b, its, m = r.value
    opt = {k: w[0] if isinstance(w, list) and k not in ('times', 'fields') else w for k, w in opt.items()}
    nd = opt.get('ndims', len(shape) - 1 if 'nrecords' in opt else min(3, len(shape)))
    lead = shape[:-nd]
    nrec = 1
    for n in lead:
        nrec *= n
    rs = ((nrec,) if nrec > 1 else ()) + tuple(shape[-nd:])
    if E.shape_is(b, rs, 'array read back'):
        flat = b.reshape((len(order),))
        eqlist(E, [flat[k] for k in range(len(order))], want, 'the array read back')
    E.check(list(m['nrecords']) == [nrec], 'the record count is not preserved')
    E.check(list(m['dimlist']) == list(shape[-nd:][::-1]), 'the dimensions are not preserved')
    E.check(list(m['dataprec']) == [prec], 'the precision is not preserved')
    E.check(list(its) == [-1 if itr is None else itr], 'the iteration is not reported')
    if itr is not None:
        E.check(list(m['timestepnumber']) == [itr], 'the iteration number is not preserved')
    if 'times' in opt or 'deltat' in opt:
        t = opt.get('times', opt.get('deltat', 0) * (itr or 0))
        t = list(t) if isinstance(t, list) else [t]
        got = [list(x) for x in m['timeinterval']]
        if not E.check(len(got) == 1 and len(got[0]) == len(t), 'another number of time data is read back'):
            for x, y in zip(got[0], t):
                if isinstance(y, float):
                    E.check(x == y, 'the time data are not preserved')
                else:
                    # thirteen significant digits are stored
                    E.check(E.OR(E.AND(y >= 0, x - y <= 1e-12 * y, y - x <= 1e-12 * y),
                                 E.AND(y < 0, x - y <= -1e-12 * y, y - x <= -1e-12 * y)), 'the time data are not preserved')
    if 'fields' in opt:
        E.check(list(m['fldlist']) == opt['fields'], 'the field list is not preserved')
    if 'simulation' in opt:
        E.check(list(m['simulation']) == [opt['simulation']], 'the simulation name is not preserved')
    if again:
        # its description can be passed on
        k = dict(simulation=m['simulation'], dataprec=m['dataprec'], nrecords=m['nrecords'], fields=m['fldlist'],
                 dimlist=m['dimlist'], times=m['timeinterval'][0])
        base2 = E.path('out', 'G')
        w = E.call(mds.wrmds, base2, b, itr, **k)
        E.check(w.ok, 'writing output with the description that was read fails')
        if not w.ok:
            return
        c = E.call(mds.rdmds, base2, itr, returnmeta=True)
        E.check(c.ok, 'reading it back fails')
        if not c.ok:
            return
        if E.shape_is(c.value[0], rs, 'array written again'):
            E.eq(c.value[0], b, 'the array written again', exact=True)
        E.check(c.value[2] == m, 'the description is not the same')


# ---------------------------------------------------------------------------

def c24(tier):
    out = []
    # (nrec, nz, ny, nx), x cuts, y cuts
    grids = [((1, 1, 2, 3), (), ()), ((2, 2, 2, 3), (1, 2), ()), ((1, 2, 2, 2), (1,), (1,)), ((2, 1, 2, 3), (), (1,))]
    if tier != 'quick':
        grids += [((2, 2, 4, 4), (2,), (2,)), ((3, 2, 2, 4), (2,), (1,)), ((1, 3, 4, 3), (1, 2), (2,)), ((3, 2, 1, 5), (), ())]
    for g, xc, yc in grids:
        tag = '%s cuts %r %r' % ('x'.join(map(str, g)), xc, yc)
        base = dict(dims=g, xc=xc, yc=yc)

        def add(name, **k):
            out.append((name + ' ' + tag, dict(base, **k)))
        add('full')
        add('memmap', memmap=True)
        add('record', rec=1)
        add('records', rec=2)
        add('level', lev=1)
        add('record and level', rec=1, lev=1)
        add('region', region=True)
        add('region of record', region=True, rec=1)
        if xc or yc:
            add('missing tile', missing='fill')
            add('missing tile, no value given', missing='none')
    g, xc, yc = grids[0]
    for w in ('its', 'all', 'last'):
        out.append(('iterations ' + w, dict(dims=g, xc=(1, 2), yc=(), its=w)))
    g = (2, 2, 2, 2)
    more = dict(dims=g, xc=(1,), yc=())
    out += [('levels', dict(more, lev=2)), ('levels of records', dict(more, lev=2, rec=2)),
            ('region of levels', dict(more, lev=1, region=True, rec=1)),
            ('memmap region', dict(more, memmap=True, region=True)), ('memmap record', dict(more, memmap=True, rec=1)),
            ('memmap record and level', dict(more, memmap=True, rec=1, lev=1)),
            ('records of an iteration', dict(more, rec=1, its='one')),
            ('region of iterations', dict(more, region=True, its='its')),
            ('missing tile of an iteration', dict(more, its='its', missing='fill')),
            ('region and missing tile', dict(more, region=True, missing='fill')),
            ('memmap and missing tile', dict(more, memmap=True, missing='fill')),
            ('first iteration', dict(more, its='zero')), ('first iteration, record', dict(more, its='zero', rec=1)),
            ('single precision', dict(more, prec='float32')), ('single precision record', dict(more, prec='float32', rec=1)),
            ('little endian', dict(more, mf='l')), ('little endian record', dict(more, mf='l', rec=1)),
            ('unsqueezed', dict(more, squeeze=False)), ('unsqueezed record', dict(more, squeeze=False, rec=1)),
            ('unsqueezed records', dict(dims=(2, 1, 2, 2), xc=(1,), yc=(), squeeze=False, rec=2, its='one')),
            ('directories', dict(more, wild=True)), ('directories, record', dict(more, wild=True, rec=1)),
            ('iterations listed in any order', dict(dims=(1, 1, 1, 2), xc=(), yc=(), its='all', listed=True)),
            ('last iteration listed in any order', dict(dims=(1, 1, 1, 2), xc=(1,), yc=(), its='last', listed=True)),
            ('tiles listed in any order', dict(dims=(1, 1, 1, 3), xc=(1, 2), yc=(), listed=True)),
            ('precision of the file', dict(more, prec='float32', astype=True)),
            ('two level dimensions', dict(dims=(1, 2, 1, 2), xc=(1,), yc=(), nw=2, lev=1)),
            ('two level dimensions, record', dict(dims=(2, 2, 1, 2), xc=(), yc=(), nw=2, lev=1, rec=1)),
            ('first of two level dimensions', dict(dims=(1, 1, 2, 2), xc=(), yc=(), nw=2, lev=1, half=True))]
    # facets folded into the global array: (m0, m1), first point and size of each tile (y, x)
    fold = dict(facets=dict(dims=(2, 2, 8, 2), xc=(), yc=(), fold=((0, 2), [(j, 0, 2, 2) for j in (0, 1, 4, 5)])),
                uneven=dict(dims=(2, 2, 9, 1), xc=(), yc=(), fold=((0, 3), [(j, 0, 3, 1) for j in (0, 1, 2)])),
                line=dict(dims=(2, 2, 1, 8), xc=(), yc=(), fold=((4, 0), [(0, 0, 2, 2), (0, 2, 2, 2)])),
                line2=dict(dims=(1, 1, 1, 12), xc=(), yc=(), fold=((2, 0), [(0, 0, 3, 2), (0, 6, 3, 2)])))
    for n, k in fold.items():
        out.append(('map2glob ' + n, dict(k)))
        out.append(('map2glob %s record' % n, dict(k, rec=1)))
        out.append(('map2glob %s level' % n, dict(k, lev=1, rec=2)))
        out.append(('map2glob %s missing' % n, dict(k, missing='fill', its='its')))
    return out


@prop('C24', c24, 'output of up to 2 records x 2 x 2 levels x 3x2 points (thorough 4x4, 3 records), in one file or up to four '
      '(six) tiles, both precisions and byte orders, one or several iterations and directories; every record, level and '
      'region in range, counted from either end; all values', assume=NOTE)
def assemble(E, dims, xc, yc, rec=0, lev=0, region=False, memmap=False, missing=None, its=None, prec='float64', mf='b',
             squeeze=True, wild=False, nw=1, half=False, listed=False, fold=None, astype=False):
    nrec, nz, ny, nx = dims
    xc, yc = tuple(xc), tuple(yc)
    mds = E.mod('mds')
    E.mkdir('run')
    steps = [0, 40, 300] if its else [None]
    G = {}
    tiles = [(a, b, c, d) for a, b in zip((0,) + xc, xc + (nx,)) for c, d in zip((0,) + yc, yc + (ny,))]
    if fold:
        m, tiles = fold
        spots = {t: [(j, i, divmod(nx * t[0] + t[1] + i + j * (m[0] + nx * m[1]), nx)) for j in range(t[2]) for i in range(t[3])]
                 for t in map(tuple, tiles)}
        tiles = list(spots)
    else:
        spots = {t: [(y - t[2], x - t[0], (y, x)) for y in range(t[2], t[3]) for x in range(t[0], t[1])] for t in tiles}
    drop = tiles[-1] if missing else None
    dropped = {p for j, i, p in spots[drop]} if drop else set()
    for s in steps:
        g = G[s] = values(E, 'g%s' % (s or ''), (nrec, nw, nz, ny, nx), prec)
        for n, t in enumerate(tiles):
            if t == drop:
                continue
            a, b, c, d = t
            base = 'run/T'
            if wild:
                E.mkdir('run/part%d' % n)
                base = 'run/part%d/T' % n
            base += '' if s is None else '.%010d' % s
            if fold:
                base += '.%03d.001' % (1 + n)
            elif xc or yc:
                base += '.%03d.%03d' % (1 + n // (len(yc) + 1), 1 + n % (len(yc) + 1))
            gd, tl = [nx, ny], [(a + 1, b), (c + 1, d)]
            if fold:
                tl = [(b + 1, b + d), (a + 1, a + c)]
            if nz > 1 or lev or nw > 1:
                gd.append(nz)
                tl.append((1, nz))
            if nw > 1:
                gd.append(nw)
                tl.append((1, nw))
            more = {} if s is None else dict(step=s)
            if fold:
                more['map2glob'] = m
            E.puttext(E.path(base + '.meta'), meta(gd, prec, nrec, tile=tl, **more))
            E.putdoubles(E.path(base + '.data'), [g[r, w, z, y, x] for r in range(nrec) for w in range(nw) for z in range(nz)
                                                  for j, i, (y, x) in spots[t]],
                         ('<' if mf == 'l' else '>') + ('f4' if prec == 'float32' else 'f8'))
    if its and not wild:
        # other files beside the output: a rolling checkpoint, another field
        for n in ('T.ckptA.meta', 'T.ckptA.001.001.meta', 'T2.0000000007.meta', 'T2.0000000007.001.001.meta', 'T.meta'):
            E.puttext(E.path('run', n), meta([nx + 1, ny], prec, nrec))
    f = E.path('run', 'part*', 'T') if wild else E.path('run', 'T')
    kw = {}
    recs, zs, ws, reg = list(range(nrec)), list(range(nz)), list(range(nw)), (0, nx, 0, ny)
    fill = 0.0
    if mf != 'b':
        kw['machineformat'] = mf
    if memmap:
        kw['usememmap'] = True
    if not squeeze:
        kw['squeeze'] = False

    def index(name, n, h):
        return E.int(name, lo=-n, hi=n - 1, hint=h)
    if rec == 1:
        kw['rec'] = index('rec', nrec, [0, nrec - 1, -1])
    elif rec:
        kw['rec'] = [index('rec0', nrec, [nrec - 1, 0, -nrec]), index('rec1', nrec, [0, -1])]
    if lev:
        l = [index('lev', nz, [nz - 1, 0, -1])] + ([index('lev2', nz, [0, -1])] if lev > 1 else [])
        kw['lev'] = l
        if nw > 1:
            kw['lev'] = (([index('lew', nw, [nw - 1, 0, -1])],) + (() if half else (l,)))
    if region:
        x0, x1 = E.int('x0', lo=-nx, hi=nx - 1, hint=[0, nx - 1, -1]), E.int('x1', lo=1 - nx, hi=nx, hint=[1, nx])
        y0, y1 = E.int('y0', lo=-ny, hi=ny - 1, hint=[0, ny - 1, -1]), E.int('y1', lo=1 - ny, hi=ny, hint=[1, ny])
        kw['region'] = (x0, x1, y0, y1)
        a, b, c, d = [E.ite(v < 0, v + n, v) for v, n in zip(kw['region'], (nx, nx, ny, ny))]
        E.assume(E.AND(a < b, c < d))
    if missing == 'fill':
        fill = kw['fill_value'] = E.real('fill', hint=[-999.0])
    if its == 'its':
        args = (f, [300, 0])
    elif its == 'zero':
        args = (f, 0)
    elif its == 'one':
        args = (f, 40)
    elif its == 'all':
        args = (f, E.np.nan)
    elif its == 'last':
        args = (f, E.np.inf)
    else:
        args = (f,)
    if astype:
        kw['astype'] = None
    if listed:
        n = 6 if its or len(tiles) == 3 else 2
        E.listing(int(E.int('order', lo=0, hi=n - 1, hint=[n - 1, 1])))
    if its:
        kw['returnmeta'] = True
    o = E.call(mds.rdmds, *args, **kw)
    E.check(o.ok, 'reading model output fails')
    if not o.ok:
        return
    r = o.value
    its = dict(its=[300, 0], all=[0, 40, 300], last=[300], one=[40], zero=[0]).get(its, [None])
    if its[0] is not None:
        r, got, m = r
        E.check(list(got) == its, 'other iterations are reported')
        E.check(list(m['timestepnumber']) == its, 'the iteration numbers are not those of the files')
    if astype:
        E.check(r.dtype == E.np.dtype(('<' if mf == 'l' else '>') + 'f4'), 'the precision of the file is not kept')
    if rec:
        recs = [int(v) % nrec for v in (kw['rec'] if rec > 1 else [kw['rec']])]
    if lev:
        if nw > 1:
            ws = [int(v) % nw for v in kw['lev'][0]]
            if not half:
                zs = [int(v) % nz for v in kw['lev'][1]]
        else:
            zs = [int(v) % nz for v in kw['lev']]
    if region:
        reg = tuple(int(v) + (n if int(v) < 0 else 0) for v, n in zip(kw['region'], (nx, nx, ny, ny)))
    want = []
    for s in its:
        for c in recs:
            for w in ws:
                for z in zs:
                    for y in range(reg[2], reg[3]):
                        for x in range(reg[0], reg[1]):
                            want.append(fill if (y, x) in dropped else stored(E, G[s][c, w, z, y, x], prec))
    # dimensions given by lists (or by default) are kept unless of size one; with squeeze=False, all but scalar arguments
    shape = []
    if len(its) > 1:
        shape.append(len(its))
    if squeeze:
        if len(recs) > 1:
            shape.append(len(recs))
    elif rec > 1:
        shape.append(len(recs))
    elif not rec and nrec > 1:
        shape = None                # whether the default counts as a list is not stated
    if shape is not None:
        if nw > 1 and not lev:
            shape.append(nw)
        if lev:
            if nw > 1:
                shape += [] if not half else [nz]
            elif len(zs) > 1:
                shape.append(len(zs))
        elif nz > 1 or nw > 1:
            shape.append(nz)
        shape += [reg[3] - reg[2], reg[1] - reg[0]]
        if not E.shape_is(r, tuple(shape), 'array read'):
            return
    size = 1
    for n in r.shape:
        size *= n
    E.check(size == len(want), 'array read has another number of elements')
    if size != len(want):
        return
    flat = r.reshape((-1,)) if r.ndim != 1 else r
    eqlist(E, [flat[k] for k in range(len(want))], want, 'an element is not at its place')
