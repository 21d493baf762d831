import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs1
from bugs1 import make, HEAD, bug

XE = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sx', 'fake', 'xesmf.py')]

bug('c19-inplace', 'C19', 'regrid.py', [("""        mitgrid['XG'] = np.rot90(mitgrid['XG'])
        mitgrid['YG'] = np.rot90(mitgrid['YG'])
""", """        if ni==nj:
            # no need to reallocate:
            mitgrid['XG'][...] = np.rot90(mitgrid['XG']).copy()
            mitgrid['YG'][...] = np.rot90(mitgrid['YG']).copy()
        else:
            mitgrid['XG'] = np.rot90(mitgrid['XG'])
            mitgrid['YG'] = np.rot90(mitgrid['YG'])
""")], 'a square grid in memory that has to be turned', 'the caller\'s matrices are rotated in place', '''
X, Y = plane(2, 2)
m = {n: None for n in mgf.names}
m['XG'], m['YG'], m['XC'] = np.rot90(X).copy(), np.rot90(Y).copy(), np.zeros((2, 2))
a, b = m['XG'].copy(), m['YG'].copy()
regrid.regrid(mitgrid_matrices=m, lon1=X[0, 2], lat1=Y[0, 2], lon2=X[2, 0], lat2=Y[2, 0], lon_subscale=1, lat_subscale=1)
check((m['XG'] == a).all() and (m['YG'] == b).all(), 'matrices passed in were changed')
''')

bug('c19-cache', 'C19', 'regrid.py', [("""            mitgrid = gridio.read_mitgridfile( mitgridfile, ni, nj,
                strict, verbose)
""", """            # large grids are slow to read, so keep the most recent one:
            if _latest.get('key') != (os.path.abspath(mitgridfile),ni,nj,strict):
                _latest['grid'] = gridio.read_mitgridfile( mitgridfile, ni, nj,
                    strict, verbose)
                _latest['key'] = (os.path.abspath(mitgridfile),ni,nj,strict)
            mitgrid = dict(_latest['grid'])
"""), ("""def create_parser():
""", """_latest = {}

def create_parser():
""")], 'two calls between which the grid file is rewritten', 'the second call uses the old contents', '''
def whole(X, Y):
    return dict(lon1=X[0, -1], lat1=Y[0, -1], lon2=X[-1, 0], lat2=Y[-1, 0], lon_subscale=1, lat_subscale=1)
r = []
for lon in (10., 12.):
    X, Y = plane(2, 2, lon)
    gridio.write_mitgridfile('g', tile(X, Y), 2, 2)
    g, _, _ = regrid.regrid(mitgridfile='g', ni=2, nj=2, **whole(X, Y))
    check(np.allclose(g['XG'], X), 'XG is not that of the file')
''')

bug('c20-order', 'C20', 'mkgrid.py', [("""    min_lat, max_lat = lat2, lat1   # se, nw
""", """    min_lat, max_lat = sorted((lat1,lat2))
""")], 'corners given in the other diagonal order (first latitude below the second)', 'the grid is not the one regrid makes', '''
for la in ((20., 10.), (10., 20.)):
    at = dict(lon1=5., lat1=la[0], lon2=9., lat2=la[1])
    g, _, _ = mkgrid.mkgrid(lon_subscale=2, lat_subscale=3, **at)
    o, _, _ = mkgrid.mkgrid(lon_subscale=1, lat_subscale=1, **at)
    X, Y = np.array([[5., 5.], [9., 9.]]), np.array([[la[1], la[0]]] * 2)
    m = {n: np.zeros((1, 1)) for n in mgf.names}
    m['XG'], m['YG'] = X, Y
    h, _, _ = regrid.regrid(mitgrid_matrices=m, lon_subscale=2, lat_subscale=3, **at)
    for n in mgf.names:
        check(g[n].shape == h[n].shape and np.allclose(g[n], h[n]), n)
''')

bug('c21-strict', 'C21', 'regrid.py', [("""    (newgrid,ni_regridded,nj_regridded) = regrid(
        args.strict,
        args.verbose,
""", """    (newgrid,ni_regridded,nj_regridded) = regrid(
        args.verbose,
        args.strict,
""")], 'the strict option without the verbose one, or a file with nonzero padding', 'strict and verbose are exchanged', '''
import io, contextlib
X, Y = plane(2, 2)
gridio.write_mitgridfile('g', tile(X, Y), 2, 2)
raw = np.fromfile('g', '>f8'); raw[8] = 5.; raw.tofile('g')     # padding of XC
a = ['--mitgridfile', 'g', '--ni', '2', '--nj', '2', '--lon1', repr(float(X[0, 2])), '--lat1', repr(float(Y[0, 2])), '--lon2',
     repr(float(X[2, 0])), '--lat2', repr(float(Y[2, 0])), '--lon_subscale', '1', '--lat_subscale', '1', '--outfile', 'o']
def run(more):
    sys.argv = ['regrid'] + a + more
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            regrid.main()
        except RuntimeError:
            return 'strict'
    return 'done'
check(run(['-s']) == 'strict', 'strict is ignored')
check(run(['-v']) == 'done', 'verbose means strict')
''')

bug('c21-counts', 'C21', 'addfringe.py', [("""    gridio.write_mitgridfile(args.outfile,tilea_with_new_boundary,args.nia,args.nja)
""", """    gridio.write_mitgridfile(args.outfile,tilea_with_new_boundary,
        *sorted((args.nia,args.nja),reverse=True))
""")], 'a tile with more cells along y than along x', 'the command fails or writes another grid', '''
X, Y = plane(4, 3)
for f, s in (('a', slice(0, 3)), ('b', slice(2, 5))):
    g = tile(X[s], Y[s])
    gridio.write_mitgridfile(f, g, 2, 3)
want = addfringe.addfringe(tilea='a', nia=2, nja=3, tileb='b', nib=2, njb=3)[2]
sys.argv = ['addfringe', '--tilea', 'a', '--nia', '2', '--nja', '3', '--tileb', 'b', '--nib', '2', '--njb', '3', '--outfile', 'o']
try:
    addfringe.main()
except ValueError:
    check(0, 'the command fails')
got = gridio.read_mitgridfile('o', 2, 3)
for n in mgf.names:
    check((got[n] == want[n]).all(), n)
''')

bug('c22-absent', 'C22', 'mds2mitgrid.py', [("""                print('............no data')
            continue
""", """                print('............no data')
            if ni or nj:
                break
""" + "            continue\n")], 'a field missing between fields that are present', 'the fields after it are dropped', '''
os.mkdir('run')
for n in ('XC', 'YC', 'XG', 'YG', 'DXC'):
    put('run/' + n, (3, 2), np.arange(6.) + 1)
g, ni, nj = mds2mitgrid.mds2mitgrid('run')
for n in ('XC', 'YC', 'XG', 'YG', 'DXC'):
    check(g[n] is not None and g[n][2, 1] == 6., n)
''')

bug('c22-counts', 'C22', 'mds2mitgrid.py', [("""        if not ni and not nj:
            (ni,nj) = tmp.shape
""", """        if name=='XC':
            (ni,nj) = tmp.shape
""")], 'model output without the cell centre longitudes', 'the cell counts are zero', '''
os.mkdir('run')
for n in ('YC', 'XG', 'YG'):
    put('run/' + n, (3, 2), np.arange(6.) + 1)
check(mds2mitgrid.mds2mitgrid('run')[1:] == (3, 2), 'cell counts')
''')

bug('c23-zero', 'C23', 'mds.py', [("""    if itr is not None:
        fbase = fbase""", """    if itr:
        fbase = fbase""")], 'iteration number zero', 'the files are not named after the iteration', '''
a = np.arange(6.).reshape(2, 3)
mds.wrmds('F', a, 0, 'float64')
check(os.path.exists('F.0000000000.data'), os.listdir('.'))
check((mds.rdmds('F', 0) == a).all(), 'read back')
''')

bug('c23-fields', 'C23', 'mds.py', [("for row in range((nflds+19)//20):", "for row in range(max(nflds//20,1)):")],
    'more than twenty fields', 'the last fields are dropped from the description', '''
a = np.arange(23 * 4.).reshape(23, 2, 2)
f = ['F%02d' % k for k in range(23)]
mds.wrmds('F', a, 3, 'float64', ndims=2, fields=f)
b, i, m = mds.rdmds('F', 3, returnmeta=True)
check((a == b).all() and m['fldlist'] == f, m['fldlist'])
''')

bug('c23-deltat', 'C23', 'mds.py', [("itr = int(times[-1]//deltat)", "itr = int(times[0]//deltat)")],
    'a time interval with a time step and no iteration', 'the iteration is that of the start of the interval', '''
a = np.arange(4.).reshape(2, 2)
mds.wrmds('F', a, times=[0., 7200.], deltat=3600.)
b, i, m = mds.rdmds('F', 2, returnmeta=True)
check((a == b).all() and m['timestepnumber'] == [2], m)
''')

bug('c23-order', 'C23', 'mds.py', [("    arr.astype(tp).tofile(fbase + '.data')", """    with open(fbase + '.data', 'wb') as f:
        f.write(arr.astype(tp).tobytes(order='A'))""")],
    'an array that is the transpose of another (Fortran order in memory)', 'the values are written transposed', '''
a = np.arange(6.).reshape(3, 2).T
mds.wrmds('F', a, dataprec='float64')
check((mds.rdmds('F') == a).all(), mds.rdmds('F'))
''')

bug('c24-negative', 'C24', 'mds.py', [("if recnum < 0: recnum += nrecords", "if recnum < 0: recnum += len(reclist)")],
    'records counted from the end', 'another record is read', '''
a = np.arange(12.).reshape(3, 2, 2)
put('F', (2, 2), a, nrec=3)
check((mds.rdmds('F', rec=-1) == a[-1]).all(), mds.rdmds('F', rec=-1))
check((mds.rdmds('F', rec=[-1, 0]) == a[[-1, 0]]).all(), mds.rdmds('F', rec=[-1, 0]))
''')

bug('c24-folded', 'C24', 'mds.py', [("ii0 = min(i0+nx*j0, nx*ny-n)", "ii0 = min(i0, nx*ny-n)")],
    'tiles mapped to the global array by map2glob, not starting in its first row', 'tiles are placed elsewhere', '''
a = np.arange(16.).reshape(8, 2)
# two faces of 4 x 2 points, folded into two columns
for k, j in enumerate((0, 1, 4, 5)):
    b = 'F.%03d.001' % (k + 1)
    put(b, (2, 8), a[[j, j + 2]], tile=[(1, 2), (j + 1, j + 2)])
    s = open(b + '.meta').read()
    open(b + '.meta', 'w').write(s + " map2glob = [     0,    2 ];\\n")
try:
    r = mds.rdmds('F')
except ValueError as e:
    check(0, e)
check((r == a).all(), r)
''')

bug('c24-last', 'C24', 'mds.py', [("""    itrs = [ int(s[off-10:off]) for s in allfiles ]
    itrs.sort()
""", """    itrs = [ int(s[off-10:off]) for s in allfiles ]
""")], 'a directory listing that is not in order', 'the iterations are not read in order, the last is not the highest', '''
import glob
mds.glob.glob = lambda p, g=glob.glob: sorted(g(p), reverse=True)
for t in (3, 20, 100):
    put('F.%010d' % t, (2, 2), np.full(4, float(t)))
check((mds.rdmds('F', np.inf) == 100).all(), 'last')
check(mds.rdmds('F', np.nan)[:, 0, 0].tolist() == [3, 20, 100], 'all')
''')

bug('c24-region', 'C24', 'mds.py', [("if rje < 0: rje += gdims[-2]", "if rje < 0: rje += gdims[-1]")],
    'a region given by negative indices of an array that is not square', 'another region is read', '''
a = np.arange(12.).reshape(3, 4)
put('F', (4, 3), a)
r = mds.rdmds('F', region=(0, 4, 0, -1))
check(r.shape == (2, 4) and (r == a[:2]).all(), r)
''')

bug('c25-sorted', 'C25', 'matchedges.py', [("""    if np.all(a_to_b_closest[0,:]):
        a_edge          = W
""", """    if verbose:
        print('corners with a counterpart:')
        for closest in (a_to_b_closest,b_to_a_closest):
            closest.sort(axis=0)
            print(closest)

    if np.all(a_to_b_closest[0,:]):
        a_edge          = W
""")], 'verbose output and tiles side by side in the first tile\'s west', 'another edge is found', '''
X, Y = plane(4, 2)
f = lambda v: matchedges.matchedges(X[2:], Y[2:], X[:3], Y[:3], geod, v)
a = f(False)
try:
    b = f(True)
except ValueError as e:
    check(0, e)
check(a[0] == b[0] and a[2] == b[2], 'edges')
''')

bug('c25-strict', 'C25', 'gridio.py', [("""            raise RuntimeError(
                'trying to trim nonzero rows or columns from {0}'.format(name))
""", """            msg = 'trying to trim nonzero rows or columns from {0}'.format(name)
            if not verbose:
                raise RuntimeError(msg)
            sys.stdout.write(msg)
""")], 'a file with nonzero padding read strictly and verbosely', 'the error is printed instead of raised', '''
gridio.write_mitgridfile('g', random(2, 2), 2, 2)
raw = np.fromfile('g', '>f8'); raw[8] = 5.; raw.tofile('g')
for v in (False, True):
    try:
        gridio.read_mitgridfile('g', 2, 2, True, v)
    except RuntimeError:
        continue
    check(0, 'not raised')
''')

bug('c25-area', 'C25', 'computegrid.py', [("""        print('compute_areas nonzero subset:')
        print(compute_areas)
""", """        print('compute_areas nonzero subset:')
        compute_areas[~(compute_areas>1.)] = 0.     # of ring points
        print(compute_areas)
""")], 'verbose output and cells of less than a square metre', 'small areas become zero', '''
at = dict(lon1=5., lat1=10.000004, lon2=5.000004, lat2=10., lon_subscale=1, lat_subscale=1)
a, b = mkgrid.mkgrid(False, **at)[0], mkgrid.mkgrid(True, **at)[0]
check((a['RAC'] == b['RAC']).all(), (a['RAC'], b['RAC']))
''')

OBCS = '''
from simplegrid import getobcs
def case(d='run', responses=('T', 'U', 'V'), p=2, q=3, times=(12,), **kw):
    X, Y = plane(4, 4, 20., 10., 2.)
    par = tile(X, Y)
    R, S = plane(p, q, 22., 12., 1.)
    reg = tile(R, S)
    os.mkdir(d)
    r = np.random.RandomState(1)
    for n in responses:
        for t in times:
            put(os.path.join(d, '%s.%010d' % (n, t)), (4, 4, 2), r.standard_normal(32))
    getobcs.getobcs(parent_mitgrid_matrices=par, regional_mitgrid_matrices=reg, parent_resultsdir=d, **kw)
    return par, reg
def out(f, n):
    return np.fromfile(f, '>f8').reshape((-1, 2, n))
'''

bug('c26-default', 'C26', 'getobcs.py', [("        ob_ieast = np.ones(nj_regional,dtype=int)*ni_regional", "        ob_ieast = np.ones_like(ob_iwest if ob_iwest is not None else ob_jnorth,dtype=int)*ni_regional")],
    'a region that is not square without an east and west vector', 'the east boundary has the length of the north one', OBCS + '''
case(p=2, q=3)
check(os.path.getsize('run_obcs/OBEt') == 8 * 3 * 2, 'size')
''', XE)

bug('c26-westv', 'C26', 'getobcs.py', [("                'v_partition'       : (ob_iwest  ,np.arange(len(ob_iwest))),", "                'v_partition'       : (ob_iwest+1,np.arange(len(ob_iwest))),")],
    'the second velocity component at the western boundary', 'values of the next cell are used', OBCS + '''
case(p=3, q=2, OB_Iwest=[1, 1], OB_Ieast=[1, 1])
a, b = out('run_obcs/OBWv', 2), out('run_obcs/OBEv', 2)
check((a == b).all(), 'same cells, other values')
''', XE)

bug('c27-digits', 'C27', 'getobcs.py', [("int(re_time.findall(os.path.basename(f))[0])", "int(re_time.findall(f)[0])")],
    'a results directory with a digit in its name', 'no time steps are found', OBCS + '''
try:
    case(d='run2', times=(12, 24))
except (OSError, IndexError) as e:
    check(0, e)
check(os.path.getsize('run2_obcs/OBNt') == 8 * 2 * 2 * 2, 'size')
''', XE)

bug('c27-pad', 'C27', 'getobcs.py', [("""                            tmparray = np.zeros(V_regridder.shape_in)
                            tmparray[0:parent_results_at_this_depth.shape[0],
                                0:parent_results_at_this_depth.shape[1]] = \\
                                parent_results_at_this_depth
""", """                            tmparray = np.zeros(V_regridder.shape_in)
                            tmparray[0:parent_results_at_this_depth.shape[0],
                                -parent_results_at_this_depth.shape[1]:] = \\
                                parent_results_at_this_depth
""")], 'second velocity components without their last row of faces (as the model writes them)', 'values are shifted by one face', OBCS + '''
par, reg = case(p=2, q=2)
got = out('run_obcs/OBNv', 2)[0]
import xesmf
v = mds.rdmds('run/V', 12).T
d = lambda g: regrid.regrid(mitgrid_matrices=g, lon1=g['XG'][0, -1], lat1=g['YG'][0, -1], lon2=g['XG'][-1, 0], lat2=g['YG'][-1, 0],
                            lon_subscale=2, lat_subscale=2)[0]
pd, rd = d(par), d(reg)
R = xesmf.Regridder({'lon': pd['XG'][1::2, ::2], 'lat': pd['YG'][1::2, ::2]}, {'lon': rd['XG'][1::2, ::2], 'lat': rd['YG'][1::2, ::2]},
                    'bilinear', filename='own.nc')
a = np.zeros(R.shape_in)
for z in range(2):
    a[:, :4] = v[:, :, z]
    check(np.allclose(R(a)[:, 1], got[z]), (R(a)[:, 1], got[z]))
''', XE)
