"""Commands against functions; verbose output."""
import re

from sx.env import NAMES, fieldshape
from .registry import prop
from .grid import points
from .p_grid import GEO, source, matrices
from .p_io import layout, eqlist
from .p_src import putsource, argsof, FORMS
from .p_tiles import SIDES, GEO as TGEO, two, joined, far, rot, nm
from .p_mds import put, values


def padded(E, name, d, ni, nj):
    """A grid file whose padding is arbitrary."""
    vals = layout(E, d, ni, nj)
    k = 0
    for n in NAMES:
        a, b = fieldshape(n, ni, nj)
        for j in range(nj + 1):
            for i in range(ni + 1):
                if i >= a or j >= b:
                    if n in ('DXG', 'RAC') and i + j == ni + nj:
                        vals[k] = E.f64('%s.pad.%s[%d,%d]' % (name, n, i, j), hint=[0.0, 3.0, 0.0, -0.0])
                k += 1
    p = E.path(name)
    E.putdoubles(p, vals)
    return p


def agree(E, o, c, outfile, grid, msg):
    """The command's outcome and file match the function's."""
    if not o.ok:
        E.check(not c.ok and type(c.exc).__name__ == type(o.exc).__name__, msg + ': the function fails, the command does not')
        return
    E.check(c.ok, msg + ': the command fails')
    if not c.ok:
        return
    g, ni, nj = grid(o.value)
    total = 16 * (ni + 1) * (nj + 1)
    E.check(E.filesize(outfile) == 8 * total, msg + ': the size of the file is wrong')
    if E.filesize(outfile) != 8 * total:
        return
    for n in NAMES:
        if tuple(g[n].shape) != fieldshape(n, ni, nj):
            # written as they come: not a grid of these counts
            E.check(False, msg + ': the function returns matrices of other cell counts')
            return
    eqlist(E, E.doubles(outfile), layout(E, g, ni, nj), msg)


MARK = re.compile('⟦[^⟧]*⟧')


def flags(E, strict, verbose):
    return ([('--strict' if strict == 'long' else '-s', True)] if strict else []) + \
        ([('--verbose' if verbose == 'long' else '-v', True)] if verbose else [])


def talk(E, text, verbose, o):
    """The verbose option reaches the function."""
    if not verbose:
        E.check(text or not E.printed, 'the command prints although not asked to')
    elif o.ok:
        E.check(E.printed, 'the verbose option has no effect')
        if text:
            # which symbolic numbers are printed is not compared
            E.check(MARK.sub('#', text) in MARK.sub('#', E.printed), 'the verbose option does not reach the function')


def c21(tier):
    out = []
    v = [(0, 0), (1, 0), (0, 1), ('long', 'long')]
    for k, (a, b) in enumerate([(1, 1), (2, 1), (1, 2), (2, 3)] if tier == 'quick' else
                               [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (1, 4), (4, 3)]):
        out.append(('mkgrid %dx%d' % (a, b), dict(cmd='mkgrid', a=a, b=b, verbose=v[k % 4][1])))
    for w in ('lon_subscale', 'lat_subscale'):
        out.append(('mkgrid without ' + w, dict(cmd='mkgrid', a=1, b=1, verbose=0, without=w)))
    k = 0
    cases = [((1, 1), (0, 1, 0, 0), 0, 2, 1), ((1, 1), (1, 0, 0, 0), 1, 1, 2), ((1, 2), (0, 0, 0, 0), 0, 1, 1)]
    if tier != 'quick':
        cases += [((2, 1), (0, 0, 1, 0), 2, 1, 3), ((2, 2), (0, 0, 0, 0), 3, 2, 1)]
    for size, margin, turns, a, b in cases:
        for f in ('mitgridfile', 'binary', 'csv'):
            k += 1
            out.append(('regrid %s %dx%d turn %d by %dx%d' % (f, size[0], size[1], turns, a, b),
                        dict(cmd='regrid', form=f, size=size, margin=margin, turns=turns, a=a, b=b, strict=v[k % 4][0],
                             verbose=v[k % 4][1])))
    for s in (0, 1, 'long'):
        out.append(('regrid strict %s' % s, dict(cmd='regrid', form='padded', size=(1, 1), margin=(0, 0, 0, 0), turns=0, a=1, b=1,
                                                 strict=s, verbose=0)))
    tiles = [('E', 1, 1, 2, 1), ('N', 1, 2, 1, 1), ('W', 2, 1, 1, 1), ('S', 1, 1, 1, 2)]
    if tier != 'quick':
        tiles += [('E', 2, 2, 1, 2), ('N', 2, 3, 2, 2), ('W', 1, 3, 2, 3), ('S', 3, 1, 3, 2)]
    for cmd in ('addfringe', 'stitch'):
        for k, s in enumerate(tiles):
            out.append(('%s %s' % (cmd, nm(*s)), dict(cmd=cmd, side=s[0], m=s[1], n=s[2], mb=s[3], nb=s[4], strict=v[k % 4][0],
                                                      verbose=v[k % 4][1])))
        for s in (0, 1):
            out.append(('%s padding strict %d' % (cmd, s), dict(cmd=cmd, side='E', m=1, n=1, mb=1, nb=1, strict=s, verbose=0,
                                                                pad='ab'[s])))
        out.append(('%s padding strict b' % cmd, dict(cmd=cmd, side='E', m=1, n=1, mb=1, nb=1, strict='long', verbose=0, pad='a')))
        out.append(('%s apart' % cmd, dict(cmd=cmd, side='E', m=1, n=1, mb=1, nb=1, strict=0, verbose=1, apart=True)))
    return out


@prop('C21', c21, 'mkgrid up to 2x3 subdivisions, regrid of 1x1 and 1x2 cell ranges with margins and turns from all file forms, '
      'addfringe and stitch of tiles up to 2x1 cells on all sides (thorough: 4x3, 2x2, 3x2); flags on and off; all coordinates, '
      'values and padding', assume=GEO + TGEO)
def commands(E, cmd, **k):
    globals()['cmd_' + cmd](E, **k)


def cmd_mkgrid(E, a, b, verbose, without=None):
    x, y = points(E, 1, 1)
    kw = dict(lon1=x[0, 1], lat1=y[0, 1], lon2=x[1, 0], lat2=y[1, 0], lon_subscale=a, lat_subscale=b)
    if without:
        kw.pop(without)
    o = E.call(E.mod('mkgrid').mkgrid, bool(verbose), **kw)
    text = E.printed
    out = E.path('out.mitgrid')
    c = E.cli('mkgrid', [('--' + n, v) for n, v in kw.items()] + [('--outfile', out)] + flags(E, 0, verbose))
    agree(E, o, c, out, lambda r: r, 'mkgrid')
    talk(E, text, verbose, o)


def cmd_regrid(E, form, size, margin, turns, a, b, strict, verbose):
    X, Y, sx, sy = source(E, size, margin, turns)
    m, n = size
    if form == 'padded':
        d = {q: E.np.zeros(fieldshape(q, m, n)) for q in NAMES}
        d['XG'], d['YG'] = sx, sy
        kw = dict(mitgridfile=padded(E, 'src.mitgrid', d, m, n), ni=m, nj=n)
    else:
        kw = putsource(E, form, sx, sy)
    kw.update(argsof(X, Y, m, n, a, b))
    o = E.call(E.mod('regrid').regrid, bool(strict), bool(verbose), **kw)
    text = E.printed
    out = E.path('out.mitgrid')
    c = E.cli('regrid', [('--' + n, v) for n, v in kw.items()] + [('--outfile', out)] + flags(E, strict, verbose))
    agree(E, o, c, out, lambda r: r, 'regrid')
    talk(E, text, verbose, o)


def pair(E, side, m, n, mb, nb, pad=None, apart=False):
    X, Y, A, B, kw = two(E, side, m, n, mb, nb)
    if pad == 'a':
        kw['tilea'] = padded(E, 'a.mitgrid', A, m, n)
    elif pad == 'b':
        kw['tileb'] = padded(E, 'b.mitgrid', B, mb, nb)
    if apart:
        kw['tileb'], kw['nib'], kw['njb'] = kw['tilea'], kw['nia'], kw['nja']
        kw['tilea'], kw['nia'], kw['nja'] = kw['tileb'], kw['nib'], kw['njb']
    return A, B, kw


def cmd_addfringe(E, side, m, n, mb, nb, strict, verbose, pad=None, apart=False):
    A, B, kw = pair(E, side, m, n, mb, nb, pad, apart)
    o = E.call(E.mod('addfringe').addfringe, bool(strict), bool(verbose), **kw)
    text = E.printed
    out = E.path('out.mitgrid')
    c = E.cli('addfringe', [('--' + n, v) for n, v in kw.items()] + [('--outfile', out)] + flags(E, strict, verbose))
    agree(E, o, c, out, lambda r: (r[2], kw['nia'], kw['nja']), 'addfringe')
    talk(E, text, verbose, o)


def cmd_stitch(E, side, m, n, mb, nb, strict, verbose, pad=None, apart=False):
    A, B, kw = pair(E, side, m, n, mb, nb, pad, apart)
    o = E.call(E.mod('stitch').stitch, bool(strict), bool(verbose), **kw)
    text = E.printed
    out = E.path('out.mitgrid')
    c = E.cli('stitch', [('--' + n, v) for n, v in kw.items()] + [('--outfile', out)] + flags(E, strict, verbose))
    agree(E, o, c, out, lambda r: r, 'stitch')
    talk(E, text, verbose, o)


# ---------------------------------------------------------------------------

def deep(E, a, b, msg):
    """The same value."""
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        E.check(a is b if a is None or b is None else a == b, msg)
    elif isinstance(a, dict):
        E.check(isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)), msg + ': other keys')
        for k in a:
            deep(E, a[k], b[k], '%s %s' % (msg, k))
    elif isinstance(a, (tuple, list)):
        E.check(type(a) is type(b) and len(a) == len(b), msg + ': other number of values')
        for x, y in zip(a, b):
            deep(E, x, y, msg)
    elif type(a).__name__ == 'Geod':
        E.check(type(b).__name__ == 'Geod', msg)
    elif isinstance(a, slice):
        deep(E, [a.start, a.stop, a.step], [b.start, b.stop, b.step], msg)
    else:
        E.eq(a, b, msg, exact=True)


def both(E, fn, msg, files=None):
    """fn(verbose, outdir) without and with verbose: value, exception, files."""
    outs, dirs = [], []
    for v in (False, True):
        dirs.append(E.mkdir('out%d' % v))
        outs.append(fn(v, dirs[-1]))
    o, p = outs
    E.check(o.ok == p.ok, msg + ': verbose output decides about success')
    if o.ok != p.ok:
        return
    if not o.ok:
        E.check(type(o.exc).__name__ == type(p.exc).__name__, msg + ': another exception is raised')
    else:
        deep(E, o.value, p.value, msg)
    for f in files or ():
        x, y = E.path(dirs[0], f), E.path(dirs[1], f)
        E.check(E.filesize(x) == E.filesize(y), msg + ': files of different size')
        if E.filesize(x):
            eqlist(E, E.doubles(y), E.doubles(x), msg + ': file')


def c25(tier):
    big = tier != 'quick'
    out = [('mkgrid %dx%d' % s, dict(what='mkgrid', a=s[0], b=s[1])) for s in ([(1, 1), (2, 1)] + ([(2, 3)] if big else []))]
    out += [('mkgrid without ' + w, dict(what='mkgrid', a=1, b=1, without=w)) for w in ('lon_subscale', 'lat_subscale')]
    for t in range(4):
        for f in (FORMS[:3] if big else FORMS[t % 3:t % 3 + 1]):
            out.append(('regrid turn %d %s' % (t, f), dict(what='regrid', form=f, size=(1, 1), margin=(0, 1, 0, 0), turns=t, a=1, b=1 + t % 2)))
    out += [('regrid any corners', dict(what='regrid', form='mitgridfile', size=(1, 1), margin=(0, 0, 0, 0), turns=0, a=1, b=1, free=True)),
            ('regrid no source', dict(what='regrid', form=None, size=(1, 1), margin=(0, 0, 0, 0), turns=0, a=1, b=1))]
    out += [('read %dx%d' % s, dict(what='read', ni=s[0], nj=s[1])) for s in [(1, 1), (2, 1)]]
    out += [('read cut', dict(what='read', ni=1, nj=1, cut=20)), ('read no file', dict(what='read', ni=1, nj=1, cut=-1))]
    out += [('write %s' % w, dict(what='write', ni=2, nj=1, odd=w)) for w in (None, 'none', 'shape')]
    tiles = [('E', 1, 1, 2, 1), ('N', 1, 2, 1, 1), ('W', 2, 1, 1, 1), ('S', 1, 1, 1, 2)]
    for s in tiles:
        for op in ('matchedges', 'addfringe', 'stitch'):
            out.append(('%s %s' % (op, nm(*s)), dict(what='tiles', op=op, side=s[0], m=s[1], n=s[2], mb=s[3], nb=s[4])))
    for op in ('matchedges', 'addfringe', 'stitch'):
        out.append(('%s apart' % op, dict(what='tiles', op=op, side=None, m=1, n=1, mb=1, nb=1)))
    out.append(('matchedges anywhere', dict(what='tiles', op='matchedges', side='any', m=1, n=1, mb=1, nb=1)))
    out += [('mds2mitgrid %s' % w, dict(what='mds2mitgrid', present=w)) for w in ('all', 'some', 'none')]
    out += [('rdmds %s' % w, dict(what='rdmds', itrs=w)) for w in ('plain', 'one', 'list', 'all', 'last', 'missing', 'no times', 'no last')]
    out += [('getobcs %s' % w, dict(what='getobcs', how=w)) for w in ('matrices', 'files', 'nothing', 'no region', 'no counts')]
    for cmd in ('mkgrid', 'regrid', 'addfringe', 'stitch'):
        out.append(('command ' + cmd, dict(what='command', cmd=cmd)))
    return out


@prop('C25', c25, 'mkgrid up to 2x1 (thorough 2x3), regrid of a cell in four orientations and for arbitrary corner inputs, grid files '
      'up to 2x1 cells with any contents, tiles up to 2x1 cells on all sides and apart, model output, open boundaries, commands',
      assume=GEO + TGEO)
def verbosity(E, what, **k):
    globals()['v_' + what](E, **k)


def v_mkgrid(E, a, b, without=None):
    x, y = points(E, 1, 1)
    kw = dict(lon1=x[0, 1], lat1=y[0, 1], lon2=x[1, 0], lat2=y[1, 0], lon_subscale=a, lat_subscale=b)
    if without:
        kw.pop(without)
    both(E, lambda v, d: E.call(E.mod('mkgrid').mkgrid, v, **kw), 'mkgrid')


def v_regrid(E, form, size, margin, turns, a, b, free=False):
    X, Y, sx, sy = source(E, size, margin, turns)
    at = argsof(X, Y, size[0], size[1], a, b)
    kw = putsource(E, form, sx, sy) if form else {}
    if free:
        at.update(lon1=E.real('lon1', hint=[v + 0.01 for v in lonv(0, 1)], lo=-180.0, hi=400.0), lat1=E.real('lat1', hint=latv(0, 1), lo=-89.0, hi=89.0))
    kw.update(at)
    both(E, lambda v, d: E.call(E.mod('regrid').regrid, False, v, **kw), 'regrid')


def lonv(i, j):
    from .grid import lonhint
    return lonhint(i, j)


def latv(i, j):
    from .grid import lathint
    return lathint(i, j)


def v_read(E, ni, nj, cut=None):
    io = E.mod('gridio')
    total = 16 * (ni + 1) * (nj + 1)
    strict = E.bool('strict', hint=[True, True, False])
    p = E.path('f.mitgrid')
    if cut != -1:
        vals = []
        for q in range(cut or total):
            f, r = divmod(q, (ni + 1) * (nj + 1))
            j, i = divmod(r, ni + 1)
            a, b = fieldshape(NAMES[f], ni, nj)
            vals.append(E.f64('v%d' % q, hint=[0.0, 3.0, 0.0] if i >= a or j >= b else None))
        E.putdoubles(p, vals)
    both(E, lambda v, d: E.call(io.read_mitgridfile, p, ni, nj, strict, v), 'reading')


def v_write(E, ni, nj, odd):
    d = E.fields('g', ni, nj, kind='f64', skip=('XC',) if odd == 'none' else ())
    if odd == 'none':
        d['XC'] = None
    if odd == 'shape':
        d['DXC'] = E.np.zeros((ni, nj))
    both(E, lambda v, o: E.call(E.mod('gridio').write_mitgridfile, E.path(o, 'g.mitgrid'), d, ni, nj, v), 'writing', ['g.mitgrid'])


def v_tiles(E, op, side, m, n, mb, nb):
    if op == 'matchedges':
        if side == 'any':
            ax, ay = points(E, m, n, 'a')
            bx, by = points(E, mb, nb, 'b', off=(m, 0))
        elif side is None:
            ax, ay = points(E, m, n, 'a')
            bx, by = points(E, mb, nb, 'b', off=(m + 1, n))
            far(E, ax, ay, bx, by, set())
        else:
            _, (ax, ay), (bx, by) = joined(E, side, m, n, mb, nb)
        both(E, lambda v, d: E.call(E.mod('matchedges').matchedges, ax, ay, bx, by, E.geod, v), op)
        return
    A, B, kw = pair(E, side or 'E', m, n, mb, nb, apart=side is None)
    fn = getattr(E.mod(op), op)
    both(E, lambda v, d: E.call(fn, False, v, **kw), op)


def v_mds2mitgrid(E, present):
    E.mkdir('run')
    for f in {'all': NAMES, 'some': ('XC', 'RAZ'), 'none': ()}[present]:
        x = values(E, f, (2, 3))
        put(E, 'run/' + f, (3, 2), 'float64', [x[j, i] for j in range(2) for i in range(3)])
    both(E, lambda v, d: E.call(E.mod('mds2mitgrid').mds2mitgrid, E.path('run'), v), 'mds2mitgrid')


def v_rdmds(E, itrs):
    E.mkdir('run')
    if itrs not in ('no times', 'no last'):
        for t in (None, 3, 12):
            x = values(E, 'x%s' % t, (2, 2))
            put(E, 'run/X' + ('' if t is None else '.%010d' % t), (2, 2), 'float64', [x[j, i] for j in range(2) for i in range(2)])
    mds = E.mod('mds')
    np = E.np
    arg = {'plain': [], 'one': [3], 'list': [[3, 12]], 'all': [np.nan], 'last': [np.inf], 'missing': [7], 'no times': [np.nan],
           'no last': [np.inf]}[itrs]
    both(E, lambda v, d: E.call(mds.rdmds, E.path('run', 'X'), *arg, verbose=v), 'rdmds')


def v_getobcs(E, how):
    from .p_obcs import Case
    c = Case(E, 2, 2, 2, 2, ('T', 'U') if how in ('matrices', 'files') else (), (12,), 1)
    more = {}
    if how == 'nothing':
        more = dict(parent_resultsdir=None)
    elif how == 'no region':
        more = dict(regional_mitgrid_matrices=None)
    elif how == 'no counts':
        more = dict(ni_regional=None)
    form = 'matrices' if how in ('matrices', 'nothing', 'no region') else 'files'
    both(E, lambda v, d: c.run(dict(S=[0], E=[0]), verbose=v, how=form, **dict(more, resultsdir=E.path(d))), 'getobcs',
         ['OB%s%s' % (b, r) for b in 'NSEW' for r in 'tu'])


def v_command(E, cmd):
    def run(kw):
        def f(v, d):
            c = E.cli(cmd, [('--' + n, x) for n, x in kw.items()] + [('--outfile', E.path(d, 'g'))] + flags(E, 0, v))
            return c
        both(E, f, 'command ' + cmd, ['g'])
    if cmd == 'mkgrid':
        x, y = points(E, 1, 1)
        run(dict(lon1=x[0, 1], lat1=y[0, 1], lon2=x[1, 0], lat2=y[1, 0], lon_subscale=1, lat_subscale=2))
    elif cmd == 'regrid':
        X, Y, sx, sy = source(E, (1, 1), (0, 0, 0, 0), 1)
        run(dict(putsource(E, 'binary', sx, sy), **argsof(X, Y, 1, 1, 1, 1)))
    else:
        run(pair(E, 'N', 1, 1, 1, 1)[2])
