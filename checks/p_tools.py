"""Properties of the tools as a whole: strictness, forms of input, independence of calls, existing files."""
import itertools

from sx.env import NAMES, DI, DJ, fieldshape
from .registry import prop
from .grid import points, rot
from .p_grid import GEO, source, matrices
from .p_io import layout, eqlist
from .p_src import putsource, argsof
from .p_tiles import GEO as TGEO, two, joined, nm
from .p_mds import put, values, meta
from .p_cli import deep, agree, flags, pair
from .p_obcs import Case, NOTE, default


# ---------------------------------------------------------------------------
# strictness

def strictfile(E, name, d, ni, nj, sparse=False):
    """A grid file with arbitrary padding; its name and the padding (sparse: one element per row and column)."""
    vals = layout(E, d, ni, nj)
    pad = []
    k = 0
    for f, n in enumerate(NAMES):
        a, b = fieldshape(n, ni, nj)
        for j in range(nj + 1):
            for i in range(ni + 1):
                if i >= a or j >= b:
                    if not sparse or (i, j) in ((ni, f % nj), (f % ni, nj)) and not (i < a and j < b):
                        h = [0.0, 1e-300 if n in ('DYG', 'RAC') else -0.0, 3.0 if n in ('XC', 'RAS') else 0.0]
                        vals[k] = E.f64('%s.pad.%s[%d,%d]' % (name, n, i, j), hint=h)
                        pad.append(vals[k])
                k += 1
    p = E.path(name)
    E.putdoubles(p, vals)
    return p, pad


def c28(tier):
    out = []
    src = [(0, (1, 1)), (1, (1, 2)), (2, (2, 2)), (3, (3, 1))]
    tiles = [('E', 1, 1, 1, 1), ('N', 1, 2, 1, 1), ('W', 2, 1, 1, 1), ('S', 1, 1, 1, 2)]
    if tier != 'quick':
        src += [(0, (3, 4)), (1, (5, 2)), (3, (2, 3))]
        tiles += [('E', 2, 3, 2, 3), ('N', 3, 1, 3, 2)]
    for t, s in src:
        out.append(('regrid %dx%d turn %d' % (s + (t,)), dict(tool='regrid', size=s, turns=t)))
    for op in ('addfringe', 'stitch'):
        for k, s in enumerate(tiles):
            for w in 'ab':
                out.append(('%s %s file %s' % (op, nm(*s), w), dict(tool=op, side=s[0], m=s[1], n=s[2], mb=s[3], nb=s[4], which=w)))
    for w in ('parent', 'regional'):
        out.append(('getobcs ' + w, dict(tool='getobcs', which=w)))
    return out


@prop('C28', c28, 'source grids of 1x1 to 2x2 and 3x1 cells (thorough 3x4, 5x2), tiles of up to 2x1 cells on '
      'all sides (thorough 2x3), open boundaries of 2x2 cells; every 64-bit double as padding (getobcs: one element per padded row and column '
      'of every field), strict or not', assume=GEO + TGEO + NOTE)
def strictness(E, tool, **k):
    strict = E.bool('strict', hint=[True, True, False])
    clean, dirty, pad, value = globals()['s_' + tool](E, **k)
    o = dirty(strict)
    must = E.AND(strict, E.OR(*[v != 0.0 for v in pad]))
    if not o.ok:
        E.check(o.raised(RuntimeError), tool + ' raises something else than RuntimeError')
        E.check(must, tool + ' rejects a file it must accept')
        return
    E.check(E.NOT(must), tool + ' accepts nonzero padding although it is strict')
    r = value(o)
    c = clean()
    E.check(c.ok, tool + ' fails on a file without padding values')
    if c.ok:
        deep(E, value(c), r, 'padding changes the result of ' + tool)


def s_regrid(E, size, turns):
    X, Y, sx, sy = source(E, size, (0, 0, 0, 0), turns)
    m, n = sx.shape[0] - 1, sx.shape[1] - 1
    at = argsof(X, Y, size[0], size[1], 1, 1)
    d = matrices(E, sx, sy)
    d = {q: E.np.zeros(fieldshape(q, m, n)) if d[q] is None else d[q] for q in NAMES}
    f, pad = strictfile(E, 'src.mitgrid', d, m, n)
    rg = E.mod('regrid').regrid
    return (lambda: E.call(rg, False, False, mitgrid_matrices=matrices(E, sx, sy), **at),
            lambda s: E.call(rg, s, False, mitgridfile=f, ni=m, nj=n, **at), pad, lambda o: o.value)


def s_addfringe(E, side, m, n, mb, nb, which, op='addfringe'):
    X, Y, A, B, kw = two(E, side, m, n, mb, nb)
    kw2 = dict(kw)
    kw2['tile' + which], pad = strictfile(E, 'padded.mitgrid', *((A, m, n) if which == 'a' else (B, mb, nb)))
    fn = getattr(E.mod(op), op)
    return lambda: E.call(fn, False, False, **kw), lambda s: E.call(fn, s, False, **kw2), pad, lambda o: o.value


def s_stitch(E, **k):
    return s_addfringe(E, op='stitch', **k)


def obfiles(E, where, c):
    """The open boundary files of a directory."""
    return {ob + r: (lambda p: None if E.filesize(p) is None else list(E.doubles(p)))(E.path(where, 'OB' + ob + r.lower()))
            for ob in 'NSEW' for r in c.responses}


def s_getobcs(E, which):
    c = Case(E, 2, 2, 2, 2, ('T', 'U'), (12,), 1)
    if which == 'parent':
        f, pad = strictfile(E, 'padded.mitgrid', c.parent, 2, 2, True)
        kw = dict(parent_mitgridfile=f)
    else:
        f, pad = strictfile(E, 'padded.mitgrid', c.region, 2, 2, True)
        kw = dict(regional_mitgridfile=f)
    n = itertools.count()

    def dirty(s):
        return call(s, 'files', kw)

    def call(s, how, kw):
        where = 'obcs%d' % next(n)
        o = c.run({}, how=how, strict=s, **dict(kw, resultsdir=E.path(where)))
        if o.ok:
            o.value = obfiles(E, where, c)
        return o
    return lambda: call(False, 'matrices', {}), dirty, pad, lambda o: o.value


# ---------------------------------------------------------------------------
# open boundaries: forms of input

def c29(tier):
    out = [('parent %s, region %s' % (p, r), dict(what='grids', p=p, r=r, size=(2, 3, 3, 2) if p == r else (2, 2, 3, 2))) for p, r in (('file', 'matrices'), ('matrices', 'file'),
                                                                                       ('file', 'file'))]
    for form in ('tuple', 'array', 'int32', 'command'):
        out.append(('index vectors: ' + form, dict(what='vectors', p=form)))
    out.append(('a number for a vector', dict(what='scalar')))
    out.append(('over earlier results', dict(what='again')))
    out += [('without ' + w, dict(what='missing', p=w)) for w in ('parent_resultsdir', 'regional grid', 'ni_parent', 'nj_parent',
                                                                  'ni_regional', 'nj_regional', 'both regional counts')]
    if tier != 'quick':
        out.append(('larger', dict(what='grids', p='file', r='file', size=(3, 4, 4, 3))))
    return out


@prop('C29', c29, 'parent and regional grids of 2x2 and 3x2 cells (thorough 4x3), tracers and both velocity components, every '
      'valid index vector; all points and values', assume=NOTE)
def forms(E, what, p=None, r=None, size=(2, 3, 3, 2)):
    if what == 'scalar':
        size = (2, 2, 1, 1)
    elif what == 'vectors':
        size = (2, 2, 2, 2)
    c = Case(E, *size, ('T', 'U', 'V') if what in ('grids', 'again') else ('T', 'V'), (12,), 1)
    if what == 'missing':
        kw, how = {}, 'files'
        if p == 'regional grid':
            kw = dict(regional_mitgridfile=None)
        elif p == 'both regional counts':
            kw = dict(ni_regional=None, nj_regional=None)
        else:
            kw = {p: None}
        o = c.run({}, how='files', **kw)
        E.check(o.raised(ValueError), 'open boundaries without %s do not raise ValueError' % p)
        E.check(not any(E.filesize(E.path('obcs', 'OB' + b + x.lower())) for b in 'NSEW' for x in c.responses),
                'files are written although input is missing')
        return
    vec, more, how = {}, {}, 'files'
    if what == 'grids':
        if p == 'matrices':
            more.update(parent_mitgridfile=None, parent_mitgrid_matrices=c.parent)
        if r == 'matrices':
            more.update(regional_mitgridfile=None, regional_mitgrid_matrices=c.region)
    elif what in ('vectors', 'scalar'):
        how = 'matrices'
        for ob in 'NSEW':
            along, across = c.cells(ob)
            if ob not in dict(tuple='NW', array='NE', int32='SE', command='SW').get(p, 'NW'):
                vec[ob] = [0] if what == 'vectors' else [-1]
                continue
            v = [E.int('%s%d' % (ob, k), -across, across, hint=[k % across + 1, -1, -(k % across) - 1]) for k in range(along)]
            E.assume(E.AND(*[x != 0 for x in v]))
            vec[ob] = v
    o = c.run(vec, how='matrices', resultsdir=E.path('one'))
    E.check(o.ok, 'generating open boundaries fails')
    if not o.ok:
        return
    if what == 'again':
        for b in 'NSEW':
            for x in c.responses:
                E.putdoubles(E.path('two', 'OB' + b + x.lower()), [E.f64('old%s%s%d' % (b, x, k)) for k in range(1 + len(b + x) * 3)])
    conv = dict(tuple=tuple, array=lambda v: E.np.array(v), int32=lambda v: E.np.array(v, dtype='int32')).get(p, lambda v: v)
    if what == 'scalar':
        conv = lambda v: v[0]
    if p == 'command':
        how = 'command'
    vec2 = {b: None if v is None else conv(v) for b, v in vec.items()}
    q = c.run(vec2, how=how, **dict(more, resultsdir=E.path('two')))
    E.check(q.ok, 'generating open boundaries from the other form of input fails')
    if q.ok:
        deep(E, obfiles(E, 'one', c), obfiles(E, 'two', c), 'open boundaries depend on the form of the input:')


# ---------------------------------------------------------------------------
# independence

def isarray(x):
    return type(x).__name__ != 'Geod' and hasattr(x, 'shape') and hasattr(x, 'dtype') and len(x.shape) > 0


def snapshot(x):
    if isarray(x):
        return x.copy()
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(snapshot(v) for v in x)
    return x


def scribble(x):
    """Overwrite everything a caller could overwrite in a result."""
    if isarray(x):
        x[...] = -77.25 if x.dtype.kind == 'f' else 0
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            x[:] = ['scribbled']


def c30(tier):
    out = []
    for op in ('write', 'read', 'squad_uarea', 'pquad_uarea', 'lonlat2cart', 'nearest', 'mkgrid', 'regrid', 'matchedges', 'addfringe',
               'stitch', 'getobcs', 'wrmds', 'rdmds', 'mds2mitgrid', 'parsemeta'):
        out.append((op, dict(op=op)))
        out.append((op + ' after a failure', dict(op=op, after='failure')))
        if tier != 'quick':
            out.append((op + ' larger', dict(op=op, big=1)))
    return out


@prop('C30', c30, 'each of 16 operations on inputs of 1x1 to 2x2 cells (thorough 3x2): once, again after an operation with other '
      'arguments or a failing one, with the earlier result overwritten; all values', assume=GEO + TGEO + NOTE)
def independence(E, op, after='other', big=0):
    o = globals()['i_' + op](E, big)
    fn, args, kw = o['call']
    inputs = [args, kw]
    files = o.get('files', [])
    before, contents = snapshot(inputs), [list(E.doubles(f)) for f in files]
    r = E.call(fn, *args, **kw)
    E.check(r.ok, op + ' fails')
    if not r.ok:
        return
    outs = [o['out']()] if 'out' in o else []
    deep(E, before, inputs, op + ' modifies its arguments')
    for f, c in zip(files, contents):
        eqlist(E, E.doubles(f), c, op + ' modifies a file it reads')
    kept = snapshot(r.value)
    fn2, args2, kw2 = o['fail' if after == 'failure' else 'other']
    q = E.call(fn2, *args2, **kw2)
    deep(E, kept, r.value, 'a later call of %s changes an earlier result' % op)
    scribble(r.value)
    deep(E, before, inputs, 'the result of %s shares storage with its arguments' % op)
    if q.ok:
        scribble(q.value)
    r = E.call(fn, *args, **kw)
    E.check(r.ok, op + ' fails when called again')
    if r.ok:
        deep(E, kept, r.value, op + ' gives another result when called again')
        if outs:
            deep(E, outs[0], o['out'](), op + ' writes something else when called again')


def i_write(E, big):
    ni, nj = (3, 2) if big else (2, 1)
    d, d2 = E.fields('g', ni, nj, kind='f64', skip=('DXF',)), E.fields('h', 1, 1, kind='f64')
    d['DXF'] = None
    w = E.mod('gridio').write_mitgridfile
    bad = dict(d2, YG=E.np.zeros((3, 5)))
    p = E.path('g.mitgrid')
    return dict(call=(w, (p, d, ni, nj), {}), other=(w, (E.path('h.mitgrid'), d2, 1, 1), {}), fail=(w, (E.path('h.mitgrid'), bad, 1, 1), {}),
                out=lambda: list(E.doubles(p)))


def i_read(E, big):
    ni, nj = (3, 2) if big else (2, 1)
    r = E.mod('gridio').read_mitgridfile
    p, q = E.path('g.mitgrid'), E.path('h.mitgrid')
    E.putdoubles(p, [E.f64('g%d' % k) for k in range(16 * (ni + 1) * (nj + 1))])
    E.putdoubles(q, [E.f64('h%d' % k) for k in range(16 * (ni + 1) * (nj + 1))])
    return dict(call=(r, (p, ni, nj), {}), other=(r, (q, ni, nj), {}), fail=(r, (q, ni + 1, nj), {}), files=[p, q])


def i_squad_uarea(E, big, name='squad_uarea'):
    from .p_grid import carthint
    f = getattr(E.mod('util'), name)
    p, q = (3, 3) if big else (2, 3)
    c = E.arr('c', (p, q, 3), lambda i, j, k: [v[k] for v in carthint(i, j)], lo=-1.0, hi=1.0)
    d = E.arr('d', (q, p, 3), lambda i, j, k: [v[k] for v in carthint(i + 1, j + 1)], lo=-1.0, hi=1.0)
    return dict(call=(f, (c,), {}), other=(f, (d,), {}), fail=(f, (None,), {}))


def i_pquad_uarea(E, big):
    return i_squad_uarea(E, big, 'pquad_uarea')


def i_lonlat2cart(E, big):
    f = E.mod('util').lonlat2cart
    X, Y = points(E, 1 + big, 2, 'p')
    U, V = points(E, 1, 1, 'q')
    return dict(call=(f, (X, Y), {}), other=(f, (U, V), {}), fail=(f, (X, U), {}))


def i_nearest(E, big):
    f = E.mod('util').nearest
    X, Y = points(E, 1 + big, 1, 'p')
    U, V = points(E, 1, 1, 'q', off=(1, 2))
    return dict(call=(f, (X[0, 1], Y[0, 1], X, Y, E.geod), {}), other=(f, (U[1, 1], V[1, 1], U, V, E.geod), {}),
                fail=(f, (X[0, 1], Y[0, 1], X, Y[:1], E.geod), {}))


def i_mkgrid(E, big):
    f = E.mod('mkgrid').mkgrid
    x, y = points(E, 1, 1)
    u, v = points(E, 1, 1, 'q', off=(2, 1))
    kw = dict(lon1=x[0, 1], lat1=y[0, 1], lon2=x[1, 0], lat2=y[1, 0], lon_subscale=1 + big, lat_subscale=1)
    return dict(call=(f, (False,), kw), other=(f, (False,), dict(kw, lon1=u[0, 1], lat1=v[0, 1], lon2=u[1, 0], lat2=v[1, 0])),
                fail=(f, (False,), dict(lon1=x[0, 1])))


def i_regrid(E, big):
    f = E.mod('regrid').regrid
    X, Y, sx, sy = source(E, (1, 2) if big else (1, 1), (0, 0, 0, 0), 1)
    at = argsof(X, Y, 1, 2 if big else 1, 1, 1)
    U, V = points(E, 1, 1, 'q', off=(2, 1))
    at2 = argsof(U, V, 1, 1, 1, 1)
    from .p_tiles import tiledata
    # matrices of which only the points matter, with contents of any other kind
    d = tiledata(E, 'src', (sx, sy), sx.shape[0] - 1, sx.shape[1] - 1)
    return dict(call=(f, (False, False), dict(at, mitgrid_matrices=d)),
                other=(f, (False, False), dict(at2, mitgrid_matrices=matrices(E, U, V))),
                fail=(f, (False, False), dict(at, lon2=at['lon1'], lat2=at['lat1'], mitgrid_matrices=d)))


def i_matchedges(E, big):
    f = E.mod('matchedges').matchedges
    _, a, b = joined(E, 'E', 1 + big, 1, 1, 1)
    return dict(call=(f, (a[0], a[1], b[0], b[1], E.geod), {}), other=(f, (b[0], b[1], a[0], a[1], E.geod), {}),
                fail=(f, (a[0], a[1], a[0][:, :1], a[1][:, :1], E.geod), {}))


def i_addfringe(E, big, op='addfringe'):
    f = getattr(E.mod(op), op)
    X, Y, A, B, kw = two(E, 'E', 1 + big, 1, 1, 1)
    back = dict(tilea=kw['tileb'], nia=kw['nib'], nja=kw['njb'], tileb=kw['tilea'], nib=kw['nia'], njb=kw['nja'])
    return dict(call=(f, (False, False), kw), other=(f, (False, False), back),
                fail=(f, (False, False), dict(kw, tileb=kw['tilea'], nib=kw['nia'], njb=kw['nja'])), files=[kw['tilea'], kw['tileb']])


def i_stitch(E, big):
    return i_addfringe(E, big, 'stitch')


def i_getobcs(E, big):
    c = Case(E, 2, 2, 2, 2, ('T', 'U') + (('V',) if big else ()), (12,), 1)
    f = E.mod('getobcs').getobcs
    vec = E.np.array([1, -1])
    kw = dict(parent_resultsdir=E.path('run'), resultsdir=E.path('obcs'), parent_mitgrid_matrices=c.parent,
              regional_mitgrid_matrices=c.region, OB_Jnorth=[-1, 2], OB_Ieast=vec, OB_Jsouth=[0], OB_Iwest=(2, 1))
    other = dict(kw, resultsdir=E.path('obcs2'), OB_Jnorth=[1, 1], OB_Ieast=[0], parent_mitgrid_matrices=grid2(E, c.parent),
                 regional_mitgrid_matrices=grid2(E, c.region))
    return dict(call=(f, (False, False), kw), other=(f, (False, False), other),
                fail=(f, (False, False), dict(kw, regional_mitgrid_matrices=None)), out=lambda: obfiles(E, 'obcs', c),
                files=[E.path('run', '%s.%010d.data' % (r, 12)) for r in c.responses])


def grid2(E, d):
    """Another, fixed, grid of the same size."""
    out = {}
    for k, v in d.items():
        out[k] = E.np.zeros(v.shape)
        if k in ('XG', 'XC', 'YG', 'YC'):
            for i in range(v.shape[0]):
                for j in range(v.shape[1]):
                    h = .5 * (k[1] == 'C')
                    out[k][i, j] = 40.0 + 2 * (i + h) + .1 * (j + h) if k[0] == 'X' else 10.0 + 1.5 * (j + h) - .05 * (i + h)
    return out


def i_wrmds(E, big):
    f = E.mod('mds').wrmds
    E.mkdir('out')
    n = (2, 2, 2) if big else (2, 1, 2)

    def a(name):
        v, x = values(E, name, n), E.np.zeros(n)
        for k in v:
            x[k] = v[k]
        return x
    kw = dict(itr=4, ndims=2, times=[900.0, 1800.0], fields=['THETA', 'SALT'], dataprec='float64', simulation='run')
    b = E.path('out', 'F')
    return dict(call=(f, (b, a('v')), kw), other=(f, (E.path('out', 'G'), a('w')), dict(kw, times=[1.0, 2.0], fields=['A', 'B'])),
                fail=(f, (E.path('out', 'G'), a('u')), dict(kw, dataprec='float16')),
                out=lambda: [list(E.doubles(b + '.0000000004.data')), open(b + '.0000000004.meta').read()])


def i_rdmds(E, big):
    E.mkdir('run')
    for x in 'FG':
        for t in (3, 12):
            v = values(E, '%s%d' % (x, t), (2, 2, 1 + big))
            put(E, 'run/%s.%010d' % (x, t), (1 + big, 2), 'float64', [v[r, j, i] for r in range(2) for j in range(2) for i in range(1 + big)],
                nrec=2, step=t)
    f = E.mod('mds').rdmds
    kw = dict(returnmeta=True, rec=[1, 0], region=[-1 - big, 1, -2, 2])
    return dict(call=(f, (E.path('run', 'F'), [12, 3]), kw), other=(f, (E.path('run', 'G'), [3]), kw),
                fail=(f, (E.path('run', 'F'), [7]), kw), files=[E.path('run', 'F.%010d.data' % t) for t in (3, 12)])


def i_mds2mitgrid(E, big):
    f = E.mod('mds2mitgrid').mds2mitgrid
    for run in ('run', 'run2'):
        E.mkdir(run)
        for n in ('XC', 'XG', 'DYG'):
            v = values(E, run + n, (2, 1 + big))
            put(E, '%s/%s' % (run, n), (1 + big, 2), 'float64', [v[j, i] for j in range(2) for i in range(1 + big)])
    return dict(call=(f, (E.path('run'),), {}), other=(f, (E.path('run2'),), {}), fail=(E.mod('mds').rdmds, (E.path('run', 'Q'), 5), {}),
                files=[E.path('run', 'XC.data'), E.path('run', 'DYG.data')])


def i_parsemeta(E, big):
    f = E.mod('mds').parsemeta
    for n in 'ab':
        E.puttext(E.path(n + '.meta'), meta((3, 2), 'float64', 1) + ' timeInterval = [ %s ];\n' % E.text(E.real('t' + n, hint=[3600.0])))
    E.puttext(E.path('bad.meta'), ' nDims = [ 2 ];\n dimList = 3;\n')
    return dict(call=(f, (E.path('a.meta'),), {}), other=(f, (E.path('b.meta'),), {}), fail=(f, (E.path('bad.meta'),), {}))


# ---------------------------------------------------------------------------
# description files

def c31(tier):
    out = []
    for lay in ('one line', 'a value a line', 'rows', 'wide', 'no blanks', 'comments', 'c comments', 'blank lines'):
        out.append((lay, dict(lay=lay)))
    out += [('lines', dict(lay='rows', how='lines')), ('open file', dict(lay='rows', how='file')),
            ('exponents', dict(lay='exponents')), ('as the model writes it', dict(lay='model')), ('as wrmds writes it', dict(lay='wrmds'))]
    out += [('malformed: ' + w, dict(lay='bad', how=w)) for w in BAD]
    return out


BAD = {'no brackets': ' nDims = 2;\n', 'never closed': ' nDims = [ 2\n dimList = 3 ;\n', 'no semicolon': ' nDims = [ 2 ]\n', 'no semicolon, no blank': ' nDims = [ 2]\n',
       'no equal sign': ' nDims [ 2 ];\n', 'no number': ' nDims = [ two ];\n', 'wrong bracket': ' nDims = [ 2 };\n'}


@prop('C31', c31, 'entries of one to six values in eight layouts; every integer and every real as value')
def descriptions(E, lay, how='name'):
    f = E.mod('mds').parsemeta
    p = E.path('x.meta')
    if lay == 'bad':
        E.puttext(p, ' nrecords = [ %s ];\n' % E.text(E.int('good', hint=[5, -3])) + BAD[how])
        o = E.call(f, p)
        E.check(o.raised(ValueError), 'a malformed description does not raise ValueError')
        return
    I = [E.int('i%d' % k, hint=[7 + 3 * k, -k, 10 ** k], lo=-10 ** 15, hi=10 ** 15) for k in range(6)]
    R = [E.real('r%d' % k, hint=[3600.0 * k, -0.125, 1e-7], lo=-1e15, hi=1e15) for k in range(3)]
    S = ["'float64'", "'it''s'", "'a b'"]
    SV = ['float64', "it's", 'a b']
    t = E.text
    if lay in ('model', 'wrmds'):
        want = model(E, p, lay, I, R)
    elif lay == 'exponents':
        E.puttext(p, ' a = [ 1e-07, -2E5, 3E+02, %s ];\n b = [ -1.E-3, .5e1, 7 ];\n' % t(I[0]))
        want = dict(a=[1e-07, -2e5, 300.0, I[0]], b=[-0.001, 5.0, 7])
    else:
        entries = [('nDims', [I[0]]), ('dimList', I), ('timeInterval', R[:2]), ('missingValue', R[2:]), ('mixed', [I[1], R[0], I[2]]),
                   ('dataprec', [S[0]]), ('_x9', [S[1]])]
        txt = ''
        for k, v in entries:
            v = [x if isinstance(x, str) else t(x) for x in v]
            if lay == 'one line':
                txt += ' %s = [ %s ];\n' % (k, ', '.join(v))
            elif lay == 'a value a line':
                txt += ' %s = [\n%s\n ];\n' % (k, ',\n'.join('   ' + x for x in v))
            elif lay == 'rows':
                txt += ' %s = [\n' % k + ',\n'.join('    ' + ', '.join(v[i:i + 3]) for i in range(0, len(v), 3)) + '\n ];\n'
            elif lay == 'wide':
                txt += '     %s     =     [     %s     ];   \n' % (k, ',      '.join(v))
            elif lay == 'no blanks':
                txt += '%s=[%s];\n' % (k, ','.join(v))
            elif lay == 'comments':
                txt += '// about %s = [ 1 ];\n %s = [ // first\n %s ];\n' % (k, k, ', '.join(v))
            elif lay == 'c comments':
                txt += ' /* %s = [ 1 ]; */\n %s = [ /* all */ %s ];\n' % (k, k, ', '.join(v))
            else:
                txt += '\n   \n %s = [ %s ];\n\n' % (k, ', '.join(v))
        txt += " fldList = {\n 'THETA   ' 'SALT    '\n };\n title = { 'one run' };\n"
        E.puttext(p, txt)
        want = {k: [SV[S.index(x)] if isinstance(x, str) else x for x in v] for k, v in entries}
        want.update(fldList=['THETA', 'SALT'], title=['one run'])
    if how == 'lines':
        with E.open(p) as g:
            a = g.read().splitlines(True)
        o = E.call(f, a)
    elif how == 'file':
        with E.open(p) as g:
            o = E.call(f, g)
    else:
        o = E.call(f, p)
    E.check(o.ok, 'parsing a description fails')
    if not o.ok:
        return
    d = o.value
    E.check(sorted(d) == sorted(want), 'the entries are not those of the file')
    for k in want:
        if k not in d:
            continue
        E.check(isinstance(d[k], list) and len(d[k]) == len(want[k]), '%s: other number of values' % k)
        for x, y in zip(d[k], want[k]):
            if isinstance(y, str):
                E.check(isinstance(x, str) and x == y, '%s: another text' % k)
                continue
            E.check(not isinstance(x, str) and isinteger(E, x) == isinteger(E, y), '%s: a value of another type' % k)
            if isinteger(E, y):
                E.check(x == y, '%s: another number' % k)
            else:
                E.check(E.OR(E.AND(y >= 0, x - y <= 1e-11 * y, y - x <= 1e-11 * y),
                             E.AND(y < 0, x - y <= -1e-11 * y, y - x <= -1e-11 * y)), '%s: another number' % k)


def isinteger(E, x):
    return type(x).__name__ == 'SI' or type(x) is int


def model(E, p, lay, I, R):
    """A description as MITgcm writes it, or wrmds."""
    if lay == 'wrmds':
        E.mkdir('out')
        w = E.call(E.mod('mds').wrmds, E.path('out', 'F'), E.np.zeros((2, 2, 3)), itr=12, dataprec='float32', ndims=2,
                   fields=['THETA', 'SALT'], times=[R[0], R[1]], simulation="x's")
        E.check(w.ok, 'writing model output fails')
        with E.open(E.path('out', 'F.0000000012.meta')) as g:
            E.puttext(p, g.read())
        return dict(nDims=[2], dimList=[3, 1, 3, 2, 1, 2], dataprec=['float32'], nrecords=[2], timeStepNumber=[12],
                    timeInterval=[R[0], R[1]], nFlds=[2], fldList=['THETA', 'SALT'], simulation=["x's"])
    n = E.text
    E.puttext(p, ' nDims = [   2 ];\n dimList = [\n' + ' %5s,%5s,%5s,\n %5s,%5s,%5s\n' % tuple(map(n, I)) +
              " ];\n dataprec = [ 'float32' ];\n nrecords = [ %5s ];\n timeStepNumber = [ %10s ];\n" % (n(I[0]), n(I[1])) +
              ' timeInterval = [ %s  %s ];\n missingValue = [ -9.99000000000000E+02 ];\n' % (n(R[0]), n(R[1])) +
              " nFlds = [    2 ];\n fldList = {\n 'ETAN    ' 'SIarea  '\n };\n")
    return dict(nDims=[2], dimList=I, dataprec=['float32'], nrecords=[I[0]], timeStepNumber=[I[1]], timeInterval=R[:2],
                missingValue=[-999.0], nFlds=[2], fldList=['ETAN', 'SIarea'])


# ---------------------------------------------------------------------------
# commands and files that exist already

def c32(tier):
    out = []
    for cmd, hows in (('mkgrid', ('argument', 'number')), ('regrid', ('argument', 'corners', 'short', 'no file', 'padding')),
                      ('addfringe', ('argument', 'apart', 'short', 'no file', 'padding')),
                      ('stitch', ('argument', 'apart', 'short', 'no file', 'padding'))):
        for h in hows:
            out.append(('%s fails: %s' % (cmd, h), dict(what='fails', cmd=cmd, how=h)))
    for h in ('mitgridfile', 'xg_file', 'yg_file'):
        out.append(('regrid onto its ' + h, dict(what='onto', cmd='regrid', how=h)))
    for cmd in ('addfringe', 'stitch'):
        for h in ('tilea', 'tileb'):
            out.append(('%s onto its %s' % (cmd, h), dict(what='onto', cmd=cmd, how=h)))
    for cmd in ('mkgrid', 'regrid', 'addfringe', 'stitch'):
        out.append(('%s over a longer file' % cmd, dict(what='over', cmd=cmd, how=90)))
        out.append(('%s over a shorter file' % cmd, dict(what='over', cmd=cmd, how=3)))
    return out


def command(E, cmd, form):
    """Function, its arguments and the command's grid for one case of a command."""
    if cmd == 'mkgrid':
        x, y = points(E, 1, 1)
        return (False,), dict(lon1=x[0, 1], lat1=y[0, 1], lon2=x[1, 0], lat2=y[1, 0], lon_subscale=1, lat_subscale=2), lambda r, k: r
    if cmd == 'regrid':
        X, Y, sx, sy = source(E, (1, 2), (0, 0, 0, 0), 0)
        return (False, False), dict(putsource(E, form, sx, sy), **argsof(X, Y, 1, 2, 1, 1)), lambda r, k: r
    A, B, kw = pair(E, 'E', 2, 1, 1, 1)
    return (False, False), kw, (lambda r, k: (r[2], k['nia'], k['nja'])) if cmd == 'addfringe' else lambda r, k: r


@prop('C32', c32, 'each command on inputs of one or two cells: failing in each of its ways, writing over a file of other length, '
      'writing over one of its own inputs; all values and earlier contents', assume=GEO + TGEO)
def existing(E, what, cmd, how):
    pos, kw, grid = command(E, cmd, 'binary' if how in ('xg_file', 'yg_file') else 'mitgridfile')
    out = kw[how] if what == 'onto' else E.path('out.mitgrid')
    inputs = sorted({v for v in kw.values() if isinstance(v, str)} - {out})

    def run(extra=()):
        return E.cli(cmd, [('--' + n, v) for n, v in kw.items()] + [('--outfile', out)] + list(extra))
    extra = []
    if what == 'fails':
        E.putdoubles(out, [E.f64('old%d' % k) for k in range(5)])
        if how == 'argument':
            kw.pop(dict(mkgrid='lon_subscale', regrid='ni').get(cmd, 'nia'))
        elif how == 'number':
            kw['lon_subscale'] = 'two'
        elif how == 'corners':
            kw['lon2'], kw['lat2'] = kw['lon1'], kw['lat1']
        elif how == 'apart':
            kw['tileb'], kw['nib'], kw['njb'] = kw['tilea'], kw['nia'], kw['nja']
        else:
            k = 'mitgridfile' if cmd == 'regrid' else 'tileb'
            if how == 'short':
                E.putdoubles(kw[k], E.doubles(kw[k])[:40])
            elif how == 'no file':
                kw[k] = E.path('nowhere.mitgrid')
                inputs = [v for v in inputs if E.filesize(v)]
            else:
                v = list(E.doubles(kw[k]))
                v[kw['ni'] if cmd == 'regrid' else kw['nib']] = E.f64('pad', hint=[3.0, 1e-300])
                E.assume(v[kw['ni'] if cmd == 'regrid' else kw['nib']] != 0.0)
                E.putdoubles(kw[k], v)
                extra = [('--strict', True)]
        before = {v: list(E.doubles(v)) for v in inputs + [out]}
        c = run(extra)
        E.check(not c.ok, 'the command succeeds')
        for v in before:
            if E.filesize(v) != 8 * len(before[v]):
                E.check(False, 'a failing command changes a file')
                continue
            eqlist(E, E.doubles(v), before[v], 'a failing command changes a file')
        return
    if what == 'over':
        E.putdoubles(out, [E.f64('old%d' % k) for k in range(how)], tail=b'xyz')
    before = {v: list(E.doubles(v)) for v in inputs}
    o = E.call(getattr(E.mod(cmd), cmd), *pos, **kw)
    E.check(o.ok, cmd + ' fails')
    if not o.ok:
        return
    c = run()
    agree(E, o, c, out, lambda r: grid(r, kw), '%s %s an existing file' % (cmd, what))
    for v in before:
        eqlist(E, E.doubles(v), before[v], 'the command changes a file it only reads')
