import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import bug
import re
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs3.py')).read()
TILES = re.search(r"^TILES = '''(.*?)'''$", src, re.S | re.M).group(1)

bug('c03-tiny', 'C03', 'gridio.py', [("                (not nj_del and any(mitgrid_matrices[name][:,nj]))\n", "                (not nj_del and np.abs(mitgrid_matrices[name][:,nj]).sum()>1e-300)\n")],
    'padding that is nonzero but subnormal', 'strict reading accepts it', '''
d = np.zeros(16 * 3 * 4)
d[9] = 5e-324
d.astype('>f8').tofile('f')
try:
    gridio.read_mitgridfile('f', 2, 3, True)
except RuntimeError:
    sys.exit(0)
check(0, 'nonzero padding accepted')
''')

bug('c03-nanpad', 'C03', 'gridio.py', [("           (   (not ni_del and any(mitgrid_matrices[name][ni,:]))\n", "           (   (not ni_del and np.nansum(np.abs(mitgrid_matrices[name][ni,:])))\n")],
    'padding that is not a number', 'strict reading accepts it', '''
d = np.zeros(16 * 3 * 4)
d[2] = np.nan
d.astype('>f8').tofile('f')
try:
    gridio.read_mitgridfile('f', 2, 3, True)
except RuntimeError:
    sys.exit(0)
check(0, 'nonzero padding accepted')
''')

bug('c12-median', 'C12', 'computegrid.py', [("compute_grid_edges_x[compute_grid_edges_x.nonzero()].mean()",
                                           "np.median(compute_grid_edges_x[compute_grid_edges_x.nonzero()])")],
    'uneven cells whose mean edge length is beyond 10 km and whose median is below', 'the planar formula is used', '''
X, Y = plane(2, 2)
ex, ey = np.full((2, 3), 8000.), np.full((3, 2), 9000.)
ex[1, 2] = 8000. + 6 * 2500.
u = util.squad_uarea(util.lonlat2cart(X, Y)) * geod.a**2
r = computegrid.areas(X, Y, ex, ey, geod)
check(np.allclose(r, u, rtol=1e-9), (r, u))
''')

bug('c15-nan', 'C15', 'addfringe.py', [("if np.PZERO!=it[0]:", "if it[0]<0. or it[0]>0.:")],
    'a first tile with undefined (NaN) elements', 'they are replaced', TILES + '''
a['RAZ'][0, 0] = a['DXC'][1, 0] = np.nan
gridio.write_mitgridfile('a', a, 1, 2)
r = addfringe.addfringe(False, False, **kw)[2]
check(np.isnan(r['RAZ'][0, 0]) and np.isnan(r['DXC'][1, 0]), 'existing data changed')
''')

bug('c15-tiny', 'C15', 'addfringe.py', [("if np.PZERO!=it[0]:", "if it[0]*it[0]>0.:")],
    'elements so small that their square is zero', 'they are replaced', TILES + '''
a['RAZ'][0, 0] = 1e-200
gridio.write_mitgridfile('a', a, 1, 2)
r = addfringe.addfringe(False, False, **kw)[2]
check(r['RAZ'][0, 0] == 1e-200, 'existing data changed')
''')

bug('c14-loose', 'C14', 'matchedges.py', [("(a_swne_dist+a_senw_dist+b_swne_dist+b_senw_dist)/4.", "(a_swne_dist+a_senw_dist+b_swne_dist+b_senw_dist)/2.")],
    'corners that miss each other by between one and two millionths of the diagonal', 'the tiles are taken to share an edge', '''
X, Y = np.meshgrid(np.arange(4.) + 10., np.arange(3.) + 20., indexing='ij')
a, b = (X[:2], Y[:2]), (X[1:].copy(), Y[1:].copy())
d = [geod.inv(x[p, q], y[p, q], x[-1 - p, -1 - q], y[-1 - p, -1 - q])[2] for x, y in (a, b) for p, q in ((0, 0), (0, -1))]
for k, ok in ((.8 * min(d), True), (1.3 * max(d), False)):
    b[0][0, 0], b[1][0, 0] = geod.fwd(a[0][-1, 0], a[1][-1, 0], 170., 1e-6 * k)[:2]
    try:
        matchedges.matchedges(a[0], a[1], b[0], b[1], geod)
        got = True
    except ValueError:
        got = False
    check(got == ok, (k, got))
''')

bug('c24-first', 'C24', 'mds.py', [("additrs = itrs != -1", "additrs = bool(itrs) and itrs != -1")],
    'reading iteration number zero', 'it is not found, or output without iteration number is read instead', '''
put('F.0000000000', (2, 2), [1., 2, 3, 4])
put('F', (2, 2), [5., 6, 7, 8])
check((mds.rdmds('F', 0) == [[1, 2], [3, 4]]).all(), mds.rdmds('F', 0))
''')

bug('c24-rolling', 'C24', 'mds.py', [("        allfiles = glob.glob(fname + '.' + 10*'[0-9]' + '.meta')", "        allfiles = glob.glob(fname + '.*.meta')")],
    'all iterations of a pickup beside a rolling checkpoint', 'reading fails', '''
for i in (8, 16):
    put('F.%010d' % i, (2, 2), [1., 2, 3, i])
put('F.ckptA', (2, 2), [5., 6, 7, 8])
r = mds.rdmds('F', np.nan)
check(r.shape == (2, 2, 2) and (r[:, 1, 1] == [8, 16]).all(), r)
''')

bug('c24-fillregion', 'C24', 'mds.py', [("arr[...] = fill_value", "arr[...] = fill_value if len(metafiles)>1 or region is None else 0")],
    'a region of output of which a single tile is there', 'the missing part is zero instead of the fill value', '''
put('F.001.001', (4, 2), [1., 2, 3, 4], tile=[(1, 2), (1, 2)])
r = mds.rdmds('F', fill_value=-9., region=(1, 4, 0, 2))
check((r == [[2, -9, -9], [4, -9, -9]]).all(), r)
''')

bug('c22-star', 'C22', 'mds2mitgrid.py', [("tmp = mds.rdmds(rundir+os.sep+name).T", "tmp = mds.rdmds(rundir+os.sep+name+'*').T")],
    'other output in the directory whose name begins with that of a grid field', 'it is taken for the grid field', '''
put('RAC', (2, 2), [1., 2, 3, 4])
put('YC_old', (2, 2), [5., 6, 7, 8])
g, ni, nj = mds2mitgrid.mds2mitgrid('.', False)
check(g['YC'] is None and g['RAC'].tolist() == [[1, 3], [2, 4]], (g['YC'], g['RAC']))
''')

src2 = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read()
OBCS = re.search(r"^OBCS = '''(.*?)'''$", src2, re.S | re.M).group(1)
XE = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sx', 'fake', 'xesmf.py')]

bug('c21-digits', 'C21', 'mkgrid.py', [("'--lat2', type=float", "'--lat2', type=lambda s: round(float(s),6)")],
    'a corner latitude given to more than six decimals', 'the grid made by the command is not that of the function', '''
la = 21.98765432101234
sys.argv = ['sgmkgrid', '--lon1=10', '--lat1=24', '--lon2=12', '--lat2=%r' % la, '--lon_subscale=2', '--lat_subscale=2', '--outfile=o']
mkgrid.main()
g = mkgrid.mkgrid(lon1=10., lat1=24., lon2=12., lat2=la, lon_subscale=2, lat_subscale=2)[0]
gridio.write_mitgridfile('p', g, 2, 2)
check(open('o', 'rb').read() == open('p', 'rb').read(), 'command and function differ')
''')

bug('c27-single', 'C27', 'getobcs.py', [("parent_results = mds.rdmds(os.path.join(parent_resultsdir,response),time).T",
                                       "parent_results = mds.rdmds(os.path.join(parent_resultsdir,response),time,astype='>f4').T")],
    'parent results in double precision', 'they are rounded to single precision', OBCS + '''
par, reg = case(responses=('T',))
got = out('run_obcs/OBNt', 2)[0]
import xesmf
v = mds.rdmds('run/T', 12).T
R = xesmf.Regridder({'lon': par['XC'], 'lat': par['YC']}, {'lon': reg['XC'], 'lat': reg['YC']}, 'bilinear', filename='own.nc')
for z in range(2):
    w = R(v[:, :, z])[:, -1]
    check(np.allclose(w, got[z], rtol=1e-11, atol=1e-11), (w, got[z]))
''', XE)
