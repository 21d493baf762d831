"""Open-boundary conditions from parent model results."""
from sx.env import NAMES, fieldshape
from .registry import prop
from .grid import Fine, points
from .p_io import eqlist
from .p_mds import put, stored

NOTE = ['corner points are pairwise distinct positions with |latitude| <= 89; longitudes in -180..400',
        'xesmf is not installed: its Regridder is an unknown function of the source points, the source values and the '
        'target point (a fixed linear interpolation when a counterexample is run)']
TRACERS, US, VS = ('T', 'S', 'Eta', 'W'), ('U', 'UICE'), ('V', 'VICE')
EXTENT = dict(N='ij', S='ij', E='ji', W='ji')
KEY = dict(N='OB_Jnorth', S='OB_Jsouth', E='OB_Ieast', W='OB_Iwest')


def kind(response):
    return 'tracer' if response in TRACERS else 'U' if response in US else 'V'


def grid(E, tag, m, n, off=(0, 0), scale=1, east=False):
    """A grid whose centre and corner points are arbitrary; nothing else of it matters."""
    X, Y = points(E, m, n, tag + 'g', off=off, scale=scale, east=east)
    d = {k: E.np.zeros(fieldshape(k, m, n)) for k in NAMES}
    d['XG'], d['YG'] = X, Y
    from .grid import lonhint, lathint
    d['XC'] = E.arr(tag + 'clon', (m, n), lambda i, j: lonhint((i + off[0] + .5) * scale, (j + off[1] + .5) * scale))
    d['YC'] = E.arr(tag + 'clat', (m, n), lambda i, j: lathint((i + off[0] + .5) * scale, (j + off[1] + .5) * scale))
    return d


def pick(E, P, ki, kj, m, n):
    """Fine points (four per cell side) with the given offsets as arrays of their natural size."""
    a = E.np.zeros((m + (ki == 0), n + (kj == 0)))
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            a[i, j] = P[4 * i + ki][4 * j + kj]
    return a


def staggered(E, d, m, n):
    """Points of the three staggerings: centres, west faces, south faces."""
    f = Fine(E, d['XG'], d['YG'], 2, 2)
    return {'tracer': {'lon': d['XC'].copy(), 'lat': d['YC'].copy()},
            'U': {'lon': pick(E, f.X, 0, 2, m, n), 'lat': pick(E, f.Y, 0, 2, m, n)},
            'V': {'lon': pick(E, f.X, 2, 0, m, n), 'lat': pick(E, f.Y, 2, 0, m, n)}}


def select(E, col, idx):
    """col[idx] for a possibly symbolic index in range."""
    if isinstance(idx, int):
        return col[idx]
    v = col[0]
    for k in range(1, len(col)):
        v = E.ite(idx == k, col[k], v)
    return v


class Case:
    """Parent and regional grids, parent results in a directory, and the expected files."""

    def __init__(self, E, m, n, p, q, responses, times, depths, prec='float64', full=(), east=True):
        self.E, self.m, self.n, self.p, self.q = E, m, n, p, q
        self.parent = grid(E, 'parent', m, n, scale=2, east=east)
        self.region = grid(E, 'region', p, q, off=(0.3, 0.4), scale=1.5, east=east)
        E.mkdir('run')
        self.vals, self.times, self.depths, self.responses = {}, times, depths, responses
        for r in responses:
            nz = depths if r in ('T', 'S', 'U', 'V', 'W') else 1
            nx, ny = (m + (r in full and kind(r) == 'U'), n + (r in full and kind(r) == 'V'))
            for t in times:
                v = {}
                for z in range(nz):
                    for j in range(ny):
                        for i in range(nx):
                            v[i, j, z] = E.real('%s@%d[%d,%d,%d]' % (r, t, i, j, z),
                                                hint=[1 + (i + 2 * j + 5 * z + t + len(r)) % 7, .25 * i - 3 * j + z * t - ord(r[0]) + (1e-9 if (i + j) % 2 else 1 / 3)])
                dims = (nx, ny) if r in ('Eta', 'UICE', 'VICE') else (nx, ny, nz)
                put(E, 'run/%s.%010d' % (r, t), dims, prec,
                    [v[i, j, z] for z in range(nz) for j in range(ny) for i in range(nx)], step=t)
                self.vals[r, t] = (nx, ny, nz, {k: stored(E, x, prec) for k, x in v.items()})

    def expected(self):
        """(response, time, depth) -> interpolated values on the regional grid."""
        E = self.E
        src, dst = staggered(E, self.parent, self.m, self.n), staggered(E, self.region, self.p, self.q)
        out = {}
        rg = {}
        for r in self.responses:
            k = kind(r)
            if k not in rg:
                rg[k] = E.Regridder(src[k], dst[k], 'bilinear', filename=E.path('oracle_%s.nc' % k))
            for t in self.times:
                nx, ny, nz, v = self.vals[r, t]
                for z in range(nz):
                    a = E.np.zeros(src[k]['lon'].shape)
                    for i in range(nx):
                        for j in range(ny):
                            a[i, j] = v[i, j, z]
                    out[r, t, z] = rg[k](a)
        return out

    def cells(self, ob):
        return (self.p, self.q) if ob in 'NS' else (self.q, self.p)

    def run(self, obs, verbose=False, how='matrices', **more):
        E = self.E
        kw = dict(parent_resultsdir=E.path('run'), resultsdir=E.path('obcs'))
        kw.update({KEY[o]: v for o, v in obs.items() if v is not None})
        if how == 'matrices':
            kw.update(parent_mitgrid_matrices=self.parent, regional_mitgrid_matrices=self.region)
        else:
            from .p_tiles import tilefile
            kw.update(parent_mitgridfile=tilefile(E, 'p.mitgrid', self.parent, self.m, self.n), ni_parent=self.m, nj_parent=self.n,
                      regional_mitgridfile=tilefile(E, 'r.mitgrid', self.region, self.p, self.q), ni_regional=self.p,
                      nj_regional=self.q)
        kw.update(more)
        if how == 'command':
            opts = []
            for o in ('parent_mitgridfile', 'ni_parent', 'nj_parent', 'regional_mitgridfile', 'ni_regional', 'nj_regional',
                      'parent_resultsdir', 'OB_Jnorth', 'OB_Jsouth', 'OB_Ieast', 'OB_Iwest', 'resultsdir'):
                if kw.get(o) is not None:
                    opts.append(('--' + o, list(kw[o]) if o.startswith('OB_') else kw[o]))
            return E.cli('getobcs', opts + ([('-v', True)] if verbose else []))
        return E.call(E.mod('getobcs').getobcs, kw.pop('strict', False), verbose, **kw)

    def boundary(self, res, ob, vec, r):
        """Expected file contents: vec holds zero-based tracer cell indices."""
        E = self.E
        along, across = self.cells(ob)
        inner = (r in VS and ob == 'S') or (r in US and ob == 'W')
        out = []
        for t in self.times:
            for z in range(self.vals[r, t][2]):
                a = res[r, t, z]
                for k in range(along):
                    col = [a[k, c] if ob in 'NS' else a[c, k] for c in range(across + 1 if inner else across)]
                    if inner:
                        col = col[1:]
                    out.append(select(E, col, vec[k]))
        return out

    def compare(self, obs, where='obcs'):
        """obs: boundary -> zero-based indices, or None where suppressed."""
        E = self.E
        res = self.expected()
        for r in self.responses:
            for ob in 'NSEW':
                p = E.path(where, 'OB' + ob + r.lower())
                if obs[ob] is None:
                    E.check(E.filesize(p) is None, 'a suppressed boundary has a file')
                    continue
                want = self.boundary(res, ob, obs[ob], r)
                if E.filesize(p) != 8 * len(want):
                    E.check(False, 'boundary %s of %s: wrong file size or no file' % (ob, r))
                    continue
                got = E.doubles(p)
                a, b = E.np.zeros(len(want)), E.np.zeros(len(want))
                for k in range(len(want)):
                    a[k], b[k] = got[k], want[k]
                E.eq(a, b, 'boundary %s of %s' % (ob, r), rtol=1e-8, atol=1e-8)


def default(c, ob):
    along, across = c.cells(ob)
    return [across - 1 if ob in 'NE' else 0] * along


# ---------------------------------------------------------------------------

def c26(tier):
    out = []
    sizes = [(2, 2), (3, 2)] if tier == 'quick' else [(2, 2), (3, 2), (2, 4), (4, 3)]
    for p, q in sizes:
        for ob in 'NSEW':
            out.append(('%s positive %dx%d' % (ob, p, q), dict(p=p, q=q, obs={ob: '+'})))
            out.append(('%s negative %dx%d' % (ob, p, q), dict(p=p, q=q, obs={ob: '-'})))
        out.append(('all absent %dx%d' % (p, q), dict(p=p, q=q, obs={})))
        out.append(('absent or zero %dx%d' % (p, q), dict(p=p, q=q, obs=dict(N='0', W='0'))))
        out.append(('zero or absent %dx%d' % (p, q), dict(p=p, q=q, obs=dict(S='0', E='0'))))
    out.append(('all given', dict(p=2, q=2, obs=dict(N='-', S='+', E='-', W='+'))))
    out.append(('all zero', dict(p=2, q=2, obs=dict(N='0', S='0', E='0', W='0'))))
    out.append(('one zero value', dict(p=2, q=2, obs=dict(N='00', S='00', W='+'))))
    out.append(('command', dict(p=2, q=2, obs=dict(N='-2', S='0', W='+1'), how='command')))
    return out


@prop('C26', c26, 'regional grids of 2x2 and 3x2 cells (thorough 4x3); every valid index vector of either sign per boundary, '
      'absent and all-zero vectors; tracers and both velocity components; all result values', assume=NOTE)
def boundaries(E, p, q, obs, how='matrices'):
    one = len([v for v in obs.values() if v in '+-']) == 1
    c = Case(E, 2, 2, p, q, ('T', 'U', 'V'), (12,), 1)
    given, want = {}, {}
    for ob in 'NSEW':
        along, across = c.cells(ob)
        s = obs.get(ob)
        if s is None and one:
            s = '0'
        if s is None:
            given[ob], want[ob] = None, default(c, ob)
        elif s in ('0', '00'):
            given[ob], want[ob] = [0] * (along if s == '0' else 1), None
        elif len(s) == 2:
            v = [(k + int(s[1])) % across for k in range(along)]
            given[ob] = [x - across if s[0] == '-' else x + 1 for x in v]
            want[ob] = v
        else:
            v = []
            for k in range(along):
                v.append(E.int('%s%d' % (ob, k), 0, across - 1, hint=[k % across, (k + 1) % across, across - 1]))
            given[ob] = [x - across if s == '-' else x + 1 for x in v]
            want[ob] = v
    o = c.run(given, how=how)
    E.check(o.ok, 'generating open boundaries fails')
    if o.ok:
        c.compare(want)


def c27(tier):
    out = []
    base = dict(m=2, n=3, p=3, q=2)
    for r in TRACERS + US + VS:
        out.append(('%s' % r, dict(base, responses=('T', r) if r != 'T' else ('T',), times=(12, 24), depths=2)))
    out.append(('order of times', dict(m=2, n=2, p=2, q=2, responses=('T', 'V'), times=(100, 20, 3), depths=1)))
    out.append(('single precision', dict(m=2, n=2, p=2, q=2, responses=('T', 'S', 'U'), times=(12,), depths=2, prec='float32')))
    out.append(('faces of all cells', dict(m=2, n=2, p=2, q=2, responses=('T', 'U', 'V'), times=(12,), depths=2, full=('U', 'V'))))
    out.append(('grids in files', dict(m=3, n=2, p=2, q=3, responses=('T', 'U', 'V'), times=(12,), depths=1, how='files')))
    out.append(('command', dict(m=2, n=2, p=2, q=3, responses=('T', 'Eta', 'V'), times=(12,), depths=2, how='command')))
    out.append(('default directory', dict(m=2, n=2, p=2, q=2, responses=('T', 'U'), times=(12,), depths=1, where='run_obcs')))
    out.append(('any longitude', dict(m=2, n=2, p=2, q=2, responses=('T', 'U'), times=(12,), depths=1, east=False)))
    out.append(('all', dict(m=2, n=2, p=2, q=2, responses=TRACERS + US + VS, times=(0, 72), depths=2)))
    if tier != 'quick':
        out.append(('all larger', dict(m=3, n=4, p=4, q=3, responses=TRACERS + US + VS, times=(0, 36, 72), depths=3)))
        out.append(('all larger files', dict(m=4, n=2, p=2, q=5, responses=TRACERS + US + VS, times=(1, 2), depths=4, how='files')))
    return out


@prop('C27', c27, 'parent and regional grids of 2x2 to 3x2 cells (thorough 4x5), up to 2 depths and 3 times (thorough 4 and 3), '
      'all responses, both precisions; all points and values', assume=NOTE)
def staggering(E, m, n, p, q, responses, times, depths, prec='float64', full=(), how='matrices', where='obcs', east=True):
    c = Case(E, m, n, p, q, responses, sorted(times), depths, prec, full, east)
    more = {} if where == 'obcs' else dict(resultsdir=None)
    o = c.run({}, how=how, **more)
    E.check(o.ok, 'generating open boundaries fails')
    if o.ok:
        c.compare({ob: default(c, ob) for ob in 'NSEW'}, where)
