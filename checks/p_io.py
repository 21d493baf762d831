"""Grid files."""
from sx.env import NAMES, DI, DJ, fieldshape
from .registry import prop

SHAPES_Q = [(1, 1), (2, 3), (3, 2), (4, 1), (1, 5), (5, 4), (7, 6)]
SHAPES_T = SHAPES_Q + [(6, 3), (8, 7), (1, 17), (20, 2), (13, 11)]


def shapes(tier):
    return [('%dx%d' % s, dict(ni=s[0], nj=s[1])) for s in (SHAPES_Q if tier == 'quick' else SHAPES_T)]


@prop('C01', lambda tier: shapes(tier) + [(n + ' none:' + f, dict(kw, none=f)) for n, kw in shapes(tier)[1:2] for f in
                                          ('XC', 'YG', 'RAS', 'DYG')],
      'grids of 1x1 up to 7x6 cells (thorough: 13x11, 1x17, 20x2); every value any 64-bit double')
def roundtrip(E, ni, nj, none=None):
    io = E.mod('gridio')
    d = E.fields('g', ni, nj, kind='f64', skip=(none,))
    if none:
        d[none] = None
    p = E.path('out.mitgrid')
    w = E.call(io.write_mitgridfile, p, d, ni, nj)
    E.check(w.ok, 'writing a grid of consistent shapes fails')
    r = E.call(io.read_mitgridfile, p, ni, nj, E.bool('strict', hint=False))
    E.check(r.ok, 'reading back a written grid fails')
    if not r.ok:
        return
    g = r.value
    E.check(sorted(g) == sorted(NAMES), 'the fields read back are not the 16 grid fields')
    for n in NAMES:
        if n == none:
            a = g[n]
            E.shape_is(a, fieldshape(n, ni, nj), 'absent field')
            nan = E.np.isnan(a)
            E.check(E.AND(*[v for v in nan.ravel()]), 'an absent field does not read back as NaN')
        else:
            E.eq(g[n], d[n], 'field %s differs after a round trip' % n, exact=True)


def layout(E, d, ni, nj):
    """The file's doubles, as the mitgrid format prescribes."""
    out = []
    for n in NAMES:
        a, b = fieldshape(n, ni, nj)
        for j in range(nj + 1):
            for i in range(ni + 1):
                out.append(d[n][i, j] if i < a and j < b else 0.0)
    return out


def eqlist(E, got, want, msg):
    E.check(got is not None and len(got) == len(want), msg + ': wrong number of values')
    if got is None or len(got) != len(want):
        return
    a, b = E.np.zeros(len(want)), E.np.zeros(len(want))
    for k in range(len(want)):
        a[k] = got[k]
        b[k] = want[k]
    E.eq(a, b, msg, exact=True)


@prop('C02', lambda tier: [(m + ' ' + n, dict(kw, mode=m)) for m in ('write', 'overwrite', 'read') for n, kw in shapes(tier)],
      'grids of 1x1 up to 7x6 cells (thorough: 13x11, 1x17, 20x2); every value any 64-bit double')
def filelayout(E, ni, nj, mode):
    io = E.mod('gridio')
    p = E.path('f.mitgrid')
    total = 16 * (ni + 1) * (nj + 1)
    if mode == 'read':
        vals = [E.f64('v%d' % k) for k in range(total)]
        E.putdoubles(p, vals)
        r = E.call(io.read_mitgridfile, p, ni, nj)
        E.check(r.ok, 'reading a file of the right size fails')
        if not r.ok:
            return
        for f, n in enumerate(NAMES):
            a, b = fieldshape(n, ni, nj)
            want = E.np.zeros((a, b))
            for i in range(a):
                for j in range(b):
                    want[i, j] = vals[f * (ni + 1) * (nj + 1) + j * (ni + 1) + i]
            E.eq(r.value[n], want, 'field %s is not read from its place in the file' % n, exact=True)
        return
    if mode == 'overwrite':
        E.putdoubles(p, [E.f64('old%d' % k) for k in range(total + 7)])
    d = E.fields('g', ni, nj, kind='f64')
    w = E.call(io.write_mitgridfile, p, d, ni, nj)
    E.check(w.ok, 'writing a grid of consistent shapes fails')
    E.check(E.filesize(p) == total * 8, 'the file size is not 16*(ni+1)*(nj+1) doubles')
    eqlist(E, E.doubles(p), layout(E, d, ni, nj), 'file contents')


def strict_instances(tier):
    s = [(1, 1), (2, 3), (3, 2), (1, 4), (4, 1)] if tier == 'quick' else [(1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (5, 4), (7, 6), (12, 1)]
    out = [('%dx%d' % x, dict(ni=x[0], nj=x[1], cut=None)) for x in s]
    for x in s[:2]:
        n = (x[0] + 1) * (x[1] + 1)
        for c in (0, n - 1, n, 5 * n, 15 * n, 16 * n - 1):
            out.append(('%dx%d cut %d' % (x + (c,)), dict(ni=x[0], nj=x[1], cut=c)))
    return out


ODD = (5e-324, float('nan'), -1e-308, float('-inf'))


@prop('C03', strict_instances,
      'grids of 1x1 to 3x2, 1x4 and 4x1 cells (thorough: 7x6, 12x1); file contents any 64-bit doubles; truncation at the listed lengths')
def strictread(E, ni, nj, cut):
    io = E.mod('gridio')
    p = E.path('f.mitgrid')
    strict = E.bool('strict', hint=[True, True, False] + [True] * 32 * len(ODD))
    total = 16 * (ni + 1) * (nj + 1)
    n = total if cut is None else cut
    vals = []
    for k in range(n):
        f, r = divmod(k, (ni + 1) * (nj + 1))
        j, i = divmod(r, ni + 1)
        name = NAMES[f]
        pad = i >= ni + DI[name] or j >= nj + DJ[name]
        h = None
        if pad:
            last = name in ('XC', 'DYG') and i >= ni + DI[name] - 1 and j >= nj + DJ[name] - 1
            h = [0.0, 1e-300 if last else -0.0, 3.0]
            for odd in ODD:         # nonzero padding in one line of one field alone
                for g in range(16):
                    for line in (i == ni, j == nj):
                        h.append(odd if g == f and line else 0.0)
        vals.append(E.f64('v%d' % k, hint=h))
    E.putdoubles(p, vals)
    o = E.call(io.read_mitgridfile, p, ni, nj, strict)
    if cut is not None:
        E.check(o.exc is not None, 'a file that is too short is read without an error')
        return
    nonzero = []
    for f, name in enumerate(NAMES):
        for j in range(nj + 1):
            for i in range(ni + 1):
                if i >= ni + DI[name] or j >= nj + DJ[name]:
                    nonzero.append(vals[f * (ni + 1) * (nj + 1) + j * (ni + 1) + i] != 0.0)
    must = E.AND(strict, E.OR(*nonzero))
    if o.ok:
        E.check(E.NOT(must), 'strict reading accepts nonzero padding')
    else:
        E.check(o.raised(RuntimeError), 'reading raises something else than RuntimeError')
        E.check(must, 'reading rejects a file it must accept')
