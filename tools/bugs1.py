import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import make

HEAD = '''import os, sys, struct
import numpy as np
import types
if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'xesmf.py')):
    sys.modules['xesmf'] = types.ModuleType('xesmf')    # not needed here, not installed
from simplegrid import gridio, mds, mds2mitgrid, util, computegrid, matchedges, addfringe, stitch, mkgrid, regrid
from simplegrid import mitgridfilefields as mgf
import pyproj
np.seterr(all='ignore')


def check(c, msg):
    if not c:
        print('FAIL:', msg)
        sys.exit(1)


def random(ni, nj, seed=0):
    r = np.random.RandomState(seed)
    return {n: r.standard_normal((ni + a, nj + b)) for n, a, b in zip(mgf.names, mgf.ni_delta_sizes, mgf.nj_delta_sizes)}


def put(name, dims, vals, prec='float64', nrec=1, tile=None):
    tile = tile or [(1, d) for d in dims]
    with open(name + '.meta', 'w') as f:
        f.write(' nDims = [ %3d ];\\n dimList = [\\n' % len(dims))
        f.write(',\\n'.join(' %5d,%5d,%5d' % (d, a, b) for d, (a, b) in zip(dims, tile)))
        f.write("\\n ];\\n dataprec = [ '%s' ];\\n nrecords = [ %5d ];\\n" % (prec, nrec))
    np.asarray(vals, '>f8' if prec == 'float64' else '>f4').tofile(name + '.data')


def plane(ni, nj, lon0=10., lat0=20., d=1.):
    i, j = np.meshgrid(np.arange(ni + 1.), np.arange(nj + 1.), indexing='ij')
    return lon0 + d * i + .1 * d * j + .02 * d * i * i, lat0 + d * j - .05 * d * i


def tile(XG, YG, seed=0):
    """Grid matrices of the given corner points, via regridding with factors of one."""
    m = {n: np.zeros((XG.shape[0] - 1, XG.shape[1] - 1)) for n in mgf.names}
    m['XG'], m['YG'] = XG, YG
    return regrid.regrid(mitgrid_matrices=m, lon1=XG[0, -1], lat1=YG[0, -1], lon2=XG[-1, 0], lat2=YG[-1, 0],
                         lon_subscale=1, lat_subscale=1)[0]


geod = pyproj.Geod(ellps='sphere')
'''


def bug(id, prop, file, edits, needs, breaks, demo, extra=()):
    if only and id not in only:
        return
    make(id, prop, 'simplegrid/' + file, edits, needs, breaks, HEAD + demo, extra)


only = sys.argv[1:]

bug('c01-signed-zero', 'C01', 'gridio.py', [('''        tmparray[:ni+ni_del,:nj+nj_del] = griddata[name]    # note''',
'''        field = np.nan if griddata[name] is None else griddata[name]
        tmparray[:ni+ni_del,:nj+nj_del] += field            # note''')],
    'a grid value that is negative zero', 'the sign of zeros is lost when a grid is written', '''
g = random(2, 3)
g['DXC'][1, 1] = -0.0
gridio.write_mitgridfile('g', g, 2, 3)
r = gridio.read_mitgridfile('g', 2, 3)
for n in mgf.names:
    check(r[n].astype('<f8').tobytes() == g[n].tobytes(), n)
''')

bug('c02-stale-tail', 'C02', 'gridio.py', [("    fd = open(filename,'wb')\n",
"""    # update the file in place where it exists (keeps its inode and permissions):
    try:
        fd = open(filename,'r+b')
    except IOError:
        fd = open(filename,'wb')
""")], 'an existing, longer file of the same name', 'an overwritten file keeps the tail of its old contents', '''
gridio.write_mitgridfile('g', random(4, 4), 4, 4)
gridio.write_mitgridfile('g', random(2, 2), 2, 2)
check(os.path.getsize('g') == 16 * 9 * 8, 'size')
''')

bug('c03-corner-padding', 'C03', 'gridio.py', [("""            (   (not ni_del and any(mitgrid_matrices[name][ni,:]))
                or
                (not nj_del and any(mitgrid_matrices[name][:,nj]))""",
"""            (   (not ni_del and any(mitgrid_matrices[name][ni,:nj+nj_del]))
                or
                (not nj_del and any(mitgrid_matrices[name][:ni+ni_del,nj]))""")],
    'a tracer-cell field whose only nonzero padding is the corner element (ni,nj)',
    'strict reading accepts a nonzero padding corner', '''
gridio.write_mitgridfile('g', random(2, 2), 2, 2)
a = np.fromfile('g', '>f8')
a[8] = 5.0     # last element of XC's slice
a.tofile('h')
gridio.read_mitgridfile('g', 2, 2, True)
try:
    gridio.read_mitgridfile('h', 2, 2, True)
except RuntimeError:
    sys.exit(0)
check(False, 'accepted')
''')

bug('c03-short-file', 'C03', 'gridio.py', [("    rawdata = np.fromfile(filename,dt)\n",
"""    rawdata = np.zeros(len(mgf.names)*slice_size,dt)
    filedata = np.fromfile(filename,dt,len(rawdata))
    rawdata[:len(filedata)] = filedata
""")], 'a file that is shorter than the stated cell counts', 'missing data are silently read as zeros', '''
gridio.write_mitgridfile('g', random(2, 2), 2, 2)
try:
    gridio.read_mitgridfile('g', 3, 2)
except Exception:
    sys.exit(0)
check(False, 'read')
''')

bug('c04-wrapped-corner', 'C04', 'mkgrid.py', [("    min_lon, max_lon = lon1, lon2   # nw, se\n",
"""    min_lon, max_lon = lon1, lon2   # nw, se
    if max_lon<min_lon and max_lon<0.:
        # region crosses the dateline; keep longitudes increasing:
        max_lon = max_lon+360.
""")], 'a southeast corner with a negative longitude below the northwest one (dateline)', 'the given corner longitude is changed', '''
g, ni, nj = mkgrid.mkgrid(lon1=175., lat1=10., lon2=-175., lat2=0., lon_subscale=2, lat_subscale=2)
check(abs(g['XG'][-1, 0] - -175.) < 1e-9, g['XG'])
''')

bug('c05-parallel', 'C05', 'computegrid.py', [("""        y_edge_subdivided_lonlats = np.array( geod.npts(
            lon1,lat1,lon2,lat2,
            lat_subscale*2-1))  # n intermediate points
""", """        if lat1==lat2:
            # no change in latitude, avoid geodesic evaluation:
            y_edge_subdivided_lonlats = np.column_stack((
                np.linspace(lon1,lon2,lat_subscale*2+1)[1:-1],
                np.full(lat_subscale*2-1,lat1)))
        else:
            y_edge_subdivided_lonlats = np.array( geod.npts(
                lon1,lat1,lon2,lat2,
                lat_subscale*2-1))  # n intermediate points
""")], 'a second-direction cell edge whose end points have the same latitude (grid turned by 90 degrees)',
    'points follow the parallel instead of the great circle', '''
# j runs along a parallel
X = np.array([[40., 30.], [40., 30.]]).T.T
X = np.array([[30., 40.], [30., 40.]]); Y = np.array([[60., 60.], [50., 50.]])
g = tile(X, Y)
p = geod.npts(30., 60., 40., 60., 1)[0]
q = geod.npts(30., 50., 40., 50., 1)[0]
# the cell centre lies between the midpoints of its i-direction edges
a = geod.npts(30., 60., 30., 50., 1)[0]; b = geod.npts(40., 60., 40., 50., 1)[0]
c = geod.npts(a[0], a[1], b[0], b[1], 1)[0]
check(abs(g['YC'][0, 0] - c[1]) < 1e-9, (g['YC'], c))
check(abs(g['DYG'][0, 0] - geod.inv(30., 60., 40., 60.)[2]) < 1., g['DYG'])
''')

bug('c06-diagonal', 'C06', 'regrid.py', [("    if i_nw==i_se or j_nw==j_se:\n", "    if i_nw==i_se and j_nw==j_se:\n")],
    'corner positions selecting two points of one grid line', 'no error is raised (the alignment loop does not end)', '''
import signal
X, Y = plane(2, 3)
m = {n: np.zeros((2, 3)) for n in mgf.names}
m['XG'], m['YG'] = X, Y
def late(*a):
    check(False, 'no answer')
signal.signal(signal.SIGALRM, late)
signal.alarm(20)
try:
    regrid.regrid(mitgrid_matrices=m, lon1=X[0, 0], lat1=Y[0, 0], lon2=X[2, 0], lat2=Y[2, 0], lon_subscale=1, lat_subscale=1)
except ValueError:
    sys.exit(0)
check(False, 'no error')
''')

bug('c07-origin', 'C07', 'regrid.py', [("""            j_cg(it.multi_index[1],lat_subscale)] = it[0]
        compute_grid_yg[""", """            j_cg(it.multi_index[1],lat_subscale)] = it[0] % 360. if it[0]>360. else it[0]
        compute_grid_yg[""")], 'a source longitude above 360', 'an existing corner point is changed', '''
X, Y = plane(2, 2, lon0=359.)
g = tile(X, Y)
check(np.allclose(g['XG'], X), g['XG'])
''')

bug('c08-antipode', 'C08', 'util.py', [("    i,j,dist = -1,-1,1.e10\n", "    i,j,dist = -1,-1,np.pi*6.37e6   # (half of the earth's circumference)\n")],
    'all grid points nearly opposite to the search origin', 'no point is found', '''
lons, lats = np.array([[180., 180.1]]), np.array([[0., 0.1]])
i, j, d = util.nearest(0., 0., lons, lats, geod)
check((i, j) == (0, 1), (i, j, d))
i, j, d = util.nearest(0., 0., lons[:, :1], lats[:, :1], geod)
check((i, j) == (0, 0), (i, j, d))
''')

bug('c08-skip', 'C08', 'util.py', [("""        (fwd_az,back_az,distance) = geod.inv(
            lon,lat,
            lons[it.multi_index[0],it.multi_index[1]],
            lats[it.multi_index[0],it.multi_index[1]])
        if distance<dist:
""", """        # points farther north or south than the best one need no evaluation:
        if abs(lats[it.multi_index[0],it.multi_index[1]]-lat)*111.32e3>=dist:
            it.iternext()
            continue
        (fwd_az,back_az,distance) = geod.inv(
            lon,lat,
            lons[it.multi_index[0],it.multi_index[1]],
            lats[it.multi_index[0],it.multi_index[1]])
        if distance<dist:
""")], 'a point due north that is nearer by less than 0.1 % than one due east visited before', 'a farther point is returned', '''
lons, lats = np.array([[10.0, 0.]]), np.array([[0., 9.995]])
i, j, d = util.nearest(0., 0., lons, lats, geod)
check((i, j) == (0, 1), (i, j, d))
''')

bug('c09-zero-point', 'C09', 'computegrid.py', [("""            lat2 = compute_grid_yg[i+1,j]
            _,_,compute_edges_x[i,j] = geod.inv( lon1,lat1,lon2,lat2)
""", """            lat2 = compute_grid_yg[i+1,j]
            # (points of the boundary ring are not set)
            if (lon1!=0. or lat1!=0.) and (lon2!=0. or lat2!=0.):
                _,_,compute_edges_x[i,j] = geod.inv( lon1,lat1,lon2,lat2)
""")], 'a grid with a point exactly at longitude 0, latitude 0', 'edge lengths at that point are zero', '''
X, Y = np.meshgrid(np.array([-1., 0., 1.]), np.array([-1., 0., 1.]), indexing='ij')
g = tile(X, Y)
check((g['DXG'] > 0).all(), g['DXG'])
''')


bug('c09-dxv', 'C09', 'computegrid.py', [('''    outgrid['DXV'] = np.zeros((lon_subdiv+1,lat_subdiv+1))
    for i in range(0,incl(lon_subdiv)):
        for j in range(0,incl(lat_subdiv)):
            if not any(np.PZERO==np.array((
                compute_grid_edges_x[ 2*i    , jlb + 2*j],
                compute_grid_edges_x[ 2*i + 1, jlb + 2*j]))):
                outgrid['DXV'][i,j] = \\
                    compute_grid_edges_x[ 2*i    , jlb + 2*j] + \\
                    compute_grid_edges_x[ 2*i + 1, jlb + 2*j]
''', '''    # (between the southern ends of neighbouring vorticity cell edges)
    outgrid['DXV'] = np.zeros((lon_subdiv+1,lat_subdiv+1))
    outgrid['DXV'][1:-1,:] = 0.5*(outgrid['DXG'][1:,:]+outgrid['DXG'][:-1,:])
''')], 'neighbouring cells whose halves differ in length (DXV is not the mean of two whole edges)', 'DXV is the mean of the neighbouring DXG',
'''
X = np.array([[0., 0.], [1., 1.], [4., 4.]]); Y = np.array([[0., 1.], [0., 1.], [0., 1.]])
m = tile(X, Y)
# halves of one edge agree, so the mean of neighbouring edges is right there; a moved mid-point shows the difference
cx = np.zeros((7, 5)); cy = np.zeros((7, 5))
cx[1:-1, 1:-1] = np.array([0., .2, 1., 3., 4.])[:, None]
cy[1:-1, 1:-1] = np.array([0., .5, 1.])[None, :]
g = computegrid.tomitgrid(cx, cy, 0, 1, 5, 6, 0, 1, 3, 4, geod)
want = geod.inv(.2, 0., 1., 0.)[2] + geod.inv(1., 0., 3., 0.)[2]
check(abs(g['DXV'][1, 0] - want) < 1e-3, (g['DXV'][1, 0], want))
''')

bug('c09-border', 'C09', 'computegrid.py', [('''    # y-direction edge lengths:
    for i in range(ilb,incl(iub)):
        for j in range(jlb,jub):
''', '''    # y-direction edge lengths:
    for i in range(ilb,incl(iub)):
        for j in range(jlb,min(jub,iub)):
''')], 'a region with more cells in the second direction than in the first', 'edge lengths beyond are missing', '''
g, ni, nj = mkgrid.mkgrid(lon1=0., lat1=4., lon2=1., lat2=1., lon_subscale=1, lat_subscale=3)
check((g['DYG'] > 0).all(), g['DYG'])
''')

bug('c11-symmetric', 'C11', 'util.py', [('''            # interior angles of second subtriangle:
            at,bt,ct = ptA, ptC, ptD
            ca,cb,cc = np.dot(bt,ct), np.dot(at,ct), np.dot(at,bt)
            sa,sb,sc = np.sin(np.arccos(ca)), np.sin(np.arccos(cb)), np.sin(np.arccos(cc))
            A2''', '''            # interior angles of second subtriangle (cc, sc: same diagonal as before):
            at,bt,ct = ptA, ptC, ptD
            ca,sa = np.dot(bt,ct), np.sin(np.arccos(np.dot(bt,ct)))
            cc,sc = cb,sb
            cb,sb = np.dot(at,ct), np.sqrt((1.-np.dot(at,ct))*(1.+np.dot(at,bt)))
            A2''')], 'side lengths of the second triangle that differ', 'one sine of the second triangle is wrong', '''
lon = np.array([[0., 1.], [10., 12.]]); lat = np.array([[0., 14.], [1., 11.]])
a = util.squad_uarea(util.lonlat2cart(lon, lat))[0, 0]
import math
def ex(*p):
    x = [util.lonlat2cart(np.array([[q[0]]]), np.array([[q[1]]]))[0, 0] for q in p]
    n = abs(np.dot(x[0], np.cross(x[1], x[2])))
    return 2 * math.atan2(n, 1 + x[0] @ x[1] + x[1] @ x[2] + x[0] @ x[2])
P = [(lon[i, j], lat[i, j]) for i, j in ((0, 0), (1, 0), (1, 1), (0, 1))]
w = ex(P[0], P[1], P[2]) + ex(P[0], P[2], P[3])
check(abs(a - w) < 1e-6 * w, (a, w))
''')

bug('c12-both', 'C12', 'computegrid.py', [('''    if  x_edge_mean<config.PLANAR_SPHER_TRANSITION and \\
        y_edge_mean<config.PLANAR_SPHER_TRANSITION:
''', '''    if  np.mean((x_edge_mean,y_edge_mean))<config.PLANAR_SPHER_TRANSITION:
''')], 'cells long in one direction and short in the other', 'planar areas although one mean edge is too long', '''
X, Y = np.meshgrid(np.array([0., .3, .6]), np.array([0., .01, .02]), indexing='ij')
g = tile(X, Y)
ex, ey = computegrid.edges(X, Y, 0, 2, 0, 2, geod)
ex[:], ey[:] = 15.e3, 1.e3
a = computegrid.areas(X, Y, ex, ey, geod)
b = util.squad_uarea(util.lonlat2cart(X, Y)) * geod.a ** 2
check((a == b).all(), (a, b))
''')

bug('c12-ring', 'C12', 'computegrid.py', [('''    x_edge_mean = compute_grid_edges_x[compute_grid_edges_x.nonzero()].mean()
    y_edge_mean = compute_grid_edges_y[compute_grid_edges_y.nonzero()].mean()
''', '''    x_edge_mean = compute_grid_edges_x.mean()
    y_edge_mean = compute_grid_edges_y.mean()
''')], 'mean edges a little above 10 km', 'the unset boundary ring lowers the mean below the transition length', '''
d = 12.e3 / (geod.a * np.pi / 180)
cx = np.zeros((5, 5)); cy = np.zeros((5, 5))
cx[1:-1, 1:-1] = (10 + np.arange(3) * d)[:, None]; cy[1:-1, 1:-1] = (np.arange(3) * d)[None, :]
g = computegrid.tomitgrid(cx, cy, 0, 1, 3, 4, 0, 1, 3, 4, geod)
b = (util.squad_uarea(util.lonlat2cart(cx[1:-1, 1:-1], cy[1:-1, 1:-1])) * geod.a ** 2)
w = b[0, 0] + b[1, 0] + b[1, 1] + b[0, 1]
check(g['RAC'][0, 0] == w, (g['RAC'], w))
''')

bug('c13-corners', 'C13', 'computegrid.py', [('''    if np.any(compute_grid_xg<0.):
        lon0to360 = False
''', '''    if compute_grid_xg[[ilb,ilb,iub,iub],[jlb,jub,jlb,jub]].min()<0.:
        lon0to360 = False
''')], 'a negative longitude at a point that is not one of the four corners of the region', 'longitudes are shifted to 0..360', '''
X = np.array([[0., 1.], [-1., -1.], [1., 2.]]); Y = np.array([[0., 1.], [2., 3.], [4., 5.]])
X = np.array([[0., 1.], [-3., -2.], [0., 1.]]); Y = np.array([[10., 10.], [11., 11.], [12., 12.]])
m = {n: np.zeros((2, 1)) for n in mgf.names}
m['XG'], m['YG'] = X, Y
g, _, _ = regrid.regrid(mitgrid_matrices=m, lon1=1., lat1=10., lon2=0., lat2=12., lon_subscale=1, lat_subscale=1)
check(g['XC'].max() < 180, g['XC'])
''')

bug('c13-step2', 'C13', 'computegrid.py', [('''            with np.nditer(y_edge_subdivided_lonlats[:,0],op_flags=['readwrite']) as it_lon:
                for lon in it_lon:
                    if lon<0.:
                        lon[...] = lon+360
''', '''            # (both ends lie in 0..360 now)
            if min(lon1,lon2)>180.:
                y_edge_subdivided_lonlats[:,0] += 360.*(y_edge_subdivided_lonlats[:,0]<0.)
''')], 'a second-direction edge crossing the 180 degree meridian', 'negative longitudes remain', '''
cx = np.zeros((5, 5)); cy = np.zeros((5, 5))
cx[::4, ::4] = [[170., 190.], [175., 210.]]; cy[::4, ::4] = [[50., 50.], [40., 40.]]
X, Y = computegrid.fill(cx, cy, 0, 4, 0, 4, 2, 2, geod)
check((X >= 0).all(), X)
''')

JOIN = '''
X, Y = plane(%d, %d)
def parts(axis, k):
    s = [slice(None)] * 2; t = [slice(None)] * 2
    s[axis] = slice(0, k + 1); t[axis] = slice(k, None)
    for f, p in (('a', s), ('b', t)):
        g = tile(X[tuple(p)], Y[tuple(p)])
        gridio.write_mitgridfile(f, g, g['XG'].shape[0] - 1, g['XG'].shape[1] - 1)
        yield g, g['XG'].shape[0] - 1, g['XG'].shape[1] - 1
whole = tile(X, Y)
'''

bug('c14-inconsistent', 'C14', 'matchedges.py', [('''    if (a_edge+b_edge!=N+S) and (a_edge+b_edge!=E+W):
''', '''    if abs(a_edge-b_edge)!=1:
''')], 'tiles joined southern to eastern edge', 'the mismatch is accepted', '''
X, Y = plane(2, 2)
bX, bY = X[:, 0][None, :] + np.array([[-2.], [-1.], [0.]]), Y[:, 0][None, :] + np.array([[-2.], [-1.], [0.]])
try:
    r = matchedges.matchedges(X, Y, bX, bY, geod)
except ValueError:
    sys.exit(0)
check(False, r)
''')

bug('c14-next', 'C14', 'matchedges.py', [('''        b_edge_next_slice   = (np.s_[:],np.s_[-2])
''', '''        b_edge_next_slice   = (np.s_[:],np.s_[1])
''')], 'joining at the northern edge of a second tile of at least three cells in j', 'the midline of the wrong cells', JOIN % (2, 5) + '''
r = list(parts(1, 3))
a, b = r[1][0], r[0][0]
m = matchedges.matchedges(a['XG'], a['YG'], b['XG'], b['YG'], geod)
check(m[0] == util.S and np.allclose(m[5][1::2], b['YC'][:, -1]), (m[5], b['YC']))
''')

bug('c14-tolerance', 'C14', 'matchedges.py', [('''    a_to_b_closest = np.less_equal(a_to_b_dist,nom_diag*config.POINTS_ARE_CLOSE_ENOUGH)
    b_to_a_closest = np.less_equal(b_to_a_dist,nom_diag*config.POINTS_ARE_CLOSE_ENOUGH)
''', '''    a_to_b_closest = np.isclose(a_to_b_dist,np.amin(a_to_b_dist),rtol=1.)
    b_to_a_closest = np.isclose(b_to_a_dist,np.amin(b_to_a_dist),rtol=1.)
''')], 'shared corner points that coincide only to rounding, one of them exactly', 'a common edge is not recognized', JOIN % (2, 4) + '''
r = list(parts(1, 2))
a, b = r[0][0], r[1][0]
x = b['XG'].copy(); x[0, 0] += 1e-12; x[-1, 0] += 1e-7
y = b['YG'].copy()
m = matchedges.matchedges(a['XG'], a['YG'], x, y, geod)
check((m[0], m[2]) == (util.N, util.S), m)
b = {'XG': x + .5, 'YG': y}
try:
    m = matchedges.matchedges(a['XG'], a['YG'], b['XG'], b['YG'], geod)
except ValueError:
    sys.exit(0)
check(False, m)
''')

bug('c15-negative', 'C15', 'addfringe.py', [('''            if np.PZERO!=it[0]:
''', '''            if it[0]>np.PZERO:
''')], 'negative (western, southern) coordinates or other negative values in the tile that differ from recomputed ones', 'existing values are replaced', JOIN % (4, 2) + '''
r = list(parts(0, 2))
g, ni, nj = r[0]
g['YC'] = -g['YC'] - 5.
gridio.write_mitgridfile('a', g, ni, nj)
_, _, f = addfringe.addfringe(False, False, tilea='a', nia=ni, nja=nj, tileb='b', nib=r[1][1], njb=r[1][2])
check((f['YC'] == g['YC']).all(), (f['YC'], g['YC']))
''')

bug('c15-close', 'C15', 'addfringe.py', [('''            if np.PZERO!=it[0]:
''', '''            if not np.isclose(it[0],np.PZERO):
''')], 'tiny nonzero values (say a longitude of 1e-10) in the tile', 'they are recomputed', JOIN % (4, 2) + '''
r = list(parts(0, 2))
g, ni, nj = r[0]
g['RAC'][0, 0] = 1.e-10
gridio.write_mitgridfile('a', g, ni, nj)
_, _, f = addfringe.addfringe(False, False, tilea='a', nia=ni, nja=nj, tileb='b', nib=r[1][1], njb=r[1][2])
check(f['RAC'][0, 0] == 1.e-10, f['RAC'])
''')

bug('c17-dxc', 'C17', 'stitch.py', [('''        c['DXC'] = np.concatenate((b['DXC'][:-1,:],a['DXC']),0)
''', '''        c['DXC'] = np.concatenate((b['DXC'],a['DXC'][1:,:]),0)
''')], 'the second tile west of the first', 'the cross-border row is taken from the second tile', JOIN % (4, 2) + '''
r = list(parts(0, 2))
g, ni, nj = r[1]
g['DXC'][0, :] = 123.
gridio.write_mitgridfile('b', g, ni, nj)
c, ni, nj = stitch.stitch(False, False, tilea='b', nia=r[1][1], nja=r[1][2], tileb='a', nib=r[0][1], njb=r[0][2])
check((c['DXC'][2, :] == 123.).all(), c['DXC'])
''')

bug('c17-points', 'C17', 'stitch.py', [('''        c['XG'] = np.concatenate((b['XG'][:,:-1],a['XG']),1)
        c['YG'] = np.concatenate((b['YG'][:,:-1],a['YG']),1)
''', '''        c['XG'] = np.concatenate((b['XG'],a['XG'][:,1:]),1)
        c['YG'] = np.concatenate((b['YG'],a['YG'][:,1:]),1)
''')], 'tiles whose common points differ within tolerance, the second south of the first', 'points of the second tile are kept', JOIN % (2, 4) + '''
r = list(parts(1, 2))
g, ni, nj = r[1]
g['XG'][1, 0] += 1.e-9
gridio.write_mitgridfile('b', g, ni, nj)
c, _, _ = stitch.stitch(False, False, tilea='b', nia=ni, nja=nj, tileb='a', nib=r[0][1], njb=r[0][2])
check((c['XG'][:, 2:] == g['XG']).all(), c['XG'][:, 2] - g['XG'][:, 0])
''')

bug('c18-counts', 'C18', 'stitch.py', [('''    return (c,)+c['XC'].shape
''', '''    if tilea_edge in (E,W):
        return c,nia+nib,njb
    return c,nia,nja+nja
''')], 'parts of unequal height joined in the second direction', 'the returned cell count is wrong', JOIN % (2, 4) + '''
r = list(parts(1, 1))
c, ni, nj = stitch.stitch(False, False, tilea='a', nia=r[0][1], nja=r[0][2], tileb='b', nib=r[1][1], njb=r[1][2])
check((ni, nj) == (2, 4), (ni, nj))
''')

bug('c06-rotation', 'C06', 'regrid.py', [('''    while not (j_nw>j_se and i_se>i_nw):
''', '''    # (a half turn, if needed, in one step:)
    if i_nw>i_se and j_nw>j_se:
        mitgrid['XG'] = mitgrid['XG'][::-1,:]
        mitgrid['YG'] = mitgrid['YG'][::-1,:]
        i_nw,i_se = i_se,i_nw
    while not (j_nw>j_se and i_se>i_nw):
''')], 'first corner at maximum i and j, second at minimum i and j', 'the block is mirrored instead of turned', '''
X, Y = plane(3, 2)
m = {n: np.zeros((3, 2)) for n in mgf.names}
m['XG'], m['YG'] = X, Y
g, ni, nj = regrid.regrid(mitgrid_matrices=m, lon1=X[3, 2], lat1=Y[3, 2], lon2=X[1, 0], lat2=Y[1, 0], lon_subscale=1, lat_subscale=1)
R, S = X[1:, :], Y[1:, :]
w = [np.rot90(R, k) for k in range(4)]
check(any(g['XG'].shape == x.shape and np.allclose(g['XG'], x) for x in w), g['XG'])
''')

bug('c10-raz', 'C10', 'computegrid.py', [('''            if not any(np.PZERO==np.array((
                compute_grid_areas[2*i    , 2*j    ],
                compute_grid_areas[2*i + 1, 2*j    ],
                compute_grid_areas[2*i + 1, 2*j + 1],
                compute_grid_areas[2*i    , 2*j + 1]))):
''', '''            if not np.any(np.isclose(
                compute_grid_areas[2*i:2*i+2, 2*j:2*j+2],
                0., atol=1.)):
''')], 'quarter cells of less than one square metre', 'vorticity cell areas are left zero', '''
X, Y = plane(2, 2, d=1.e-5)
g = tile(X, Y)
check(g['RAZ'][1, 1] > 0, g['RAZ'])
''')

bug('c11-pole', 'C11', 'util.py', [('''            area[x_idx,y_idx] = 0.5 * np.linalg.norm(np.cross(ab,ac)+np.cross(ac,ad))
''', '''            if np.any(np.cross(ab,ac)): # otherwise degenerate
                area[x_idx,y_idx] = 0.5 * np.linalg.norm(np.cross(ab,ac)+np.cross(ac,ad))
''')], 'a quadrilateral whose first three corners lie on a line, or coincide (as at a pole)', 'its area is zero', '''
c = np.array([[[0., 0., 1.], [.1, 0., 1.]], [[0., 0., 1.], [0., .1, 1.]]])
w = .5 * .1 * .1
check(abs(util.pquad_uarea(c)[0, 0] - w) < 1e-12, (util.pquad_uarea(c), w))
''')
