import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs1
from bugs1 import bug, make, HEAD
import re

XE = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sx', 'fake', 'xesmf.py')]
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs2.py')).read()
OBCS = re.search(r"^OBCS = '''(.*?)'''$", src, re.S | re.M).group(1)
TILES = '''
X, Y = plane(3, 2)
a, b = tile(X[:2], Y[:2]), tile(X[1:], Y[1:])
gridio.write_mitgridfile('a', a, 1, 2)
gridio.write_mitgridfile('b', b, 2, 2)
kw = dict(tilea='a', nia=1, nja=2, tileb='b', nib=2, njb=2)
'''

bug('c28-tileb', 'C28', 'addfringe.py', [("    tileb_mitgrid = gridio.read_mitgridfile( tileb, nib, njb, strict, verbose)", """    # only the corner points of tile 'b' are used here:
    tileb_mitgrid = gridio.read_mitgridfile( tileb, nib, njb, verbose=verbose)""")],
    'a second tile whose file has nonzero padding, strict', 'the file is accepted', TILES + '''
d = np.fromfile('b', '>f8')
d[2] = 5.    # XC has two columns of two
d.tofile('b')
try:
    addfringe.addfringe(True, False, **kw)
except RuntimeError:
    sys.exit(0)
check(0, 'nonzero padding of tile b is accepted')
''')

bug('c28-regional', 'C28', 'getobcs.py', [("                regional_mitgridfile, ni_regional, nj_regional, strict, verbose)", "                regional_mitgridfile, ni_regional, nj_regional, verbose, strict)")],
    'a regional grid in a file with nonzero padding', 'strict is ignored for it unless verbose', OBCS + '''
X, Y = plane(2, 2, 22., 12.)
gridio.write_mitgridfile('r', tile(X, Y), 2, 2)
d = np.fromfile('r', '>f8')
d[2] = 5.
d.tofile('r')
for strict in (False, True):
    try:
        case(d='run%d' % strict, regional_mitgridfile='r', ni_regional=2, nj_regional=2, strict=strict)
        check(not strict, 'accepted')
    except RuntimeError:
        check(strict, 'rejected')
''', XE)

bug('c29-count', 'C29', 'getobcs.py', [("        if ni_regional and nj_regional:", "        if ni_regional or nj_regional:")],
    'a regional grid file with only one of the cell counts', 'TypeError instead of ValueError', OBCS + '''
X, Y = plane(2, 2, 22., 12.)
gridio.write_mitgridfile('r', tile(X, Y), 2, 2)
try:
    case(regional_mitgridfile='r', ni_regional=2)
except ValueError:
    sys.exit(0)
except TypeError as e:
    check(0, e)
check(0, 'accepted')
''', XE)

bug('c29-parent', 'C29', 'getobcs.py', [("                parent_mitgridfile, ni_parent, nj_parent, strict, verbose)", """                parent_mitgridfile, ni_parent, nj_parent, strict, verbose)
            if np.any(parent_mitgrid['XC']<0.):
                # longitudes in 0..360 as for model output:
                parent_mitgrid['XC'] = parent_mitgrid['XC']%360.""")],
    'a parent grid in a file with negative longitudes', 'centres move to another longitude convention than given as matrices', '''
from simplegrid import getobcs
X, Y = plane(4, 4, -3., 10., 1.)
par = tile(X, Y)
R, S = plane(2, 2, -2., 11., .5)
reg = tile(R, S)
gridio.write_mitgridfile('p', par, 4, 4)
os.mkdir('run')
for n in 'TU':
    put('run/%s.%010d' % (n, 3), (4, 4, 2), np.random.RandomState(1).standard_normal(32))
getobcs.getobcs(parent_mitgrid_matrices=par, regional_mitgrid_matrices=reg, parent_resultsdir='run', resultsdir='one')
getobcs.getobcs(parent_mitgridfile='p', ni_parent=4, nj_parent=4, regional_mitgrid_matrices=reg, parent_resultsdir='run', resultsdir='two')
for f in ('OBNt', 'OBEu'):
    check(open('one/' + f, 'rb').read() == open('two/' + f, 'rb').read(), f)
''', XE)

bug('c30-metacache', 'C30', 'mds.py', [("    meta = parsemeta(f)\n", """    # parsing is slow for many small tiles:
    if f not in _parsed:
        _parsed[f] = parsemeta(f)
    meta = dict(_parsed[f])
"""), ("def readmeta(f):", "_parsed = {}\n\ndef readmeta(f):")],
    'a file that is read, rewritten with another shape, and read again', 'it is read as if it had the earlier shape', '''
put('F', (3, 4), np.arange(12.))
mds.rdmds('F')
put('F', (2, 6), np.arange(12.))
try:
    check(mds.rdmds('F').shape == (6, 2), mds.rdmds('F').shape)
except ValueError as e:
    check(0, e)
''')

bug('c30-returned', 'C30', 'mds.py', [("    meta['dimList'] = list(gdims[::-1])\n", "    meta['dimList'] = _dims.setdefault(gdims,list(gdims[::-1]))\n"),
    ("def readmeta(f):", "_dims = {}\n\ndef readmeta(f):")],
    'changing the returned description and reading again', 'the change appears in later results', '''
put('F', (3, 4), np.arange(12.))
m = mds.rdmds('F', returnmeta=True)[2]
m['dimlist'].reverse()
check(mds.rdmds('F', returnmeta=True)[2]['dimlist'] == [3, 4], 'dimlist')
''')

bug('c30-template', 'C30', 'mds2mitgrid.py', [("    mitgrid = {key:None for key in mgf.names}\n", "    mitgrid = NO_DATA\n"), ("""def mds2mitgrid(rundir='./',verbose=False):
""", """NO_DATA = {key:None for key in mgf.names}

def mds2mitgrid(rundir='./',verbose=False):
""")], 'two directories, the second with fewer fields', 'fields of the first appear in the second, and its result changes', '''
os.mkdir('p'), os.mkdir('q')
for n in ('XC', 'XG'):
    put('p/' + n, (2, 2), np.arange(4.))
put('q/XC', (2, 2), np.arange(4.))
mds2mitgrid.mds2mitgrid('p')
check(mds2mitgrid.mds2mitgrid('q')[0]['XG'] is None, 'XG')
''')

bug('c30-region', 'C30', 'mds.py', [("""                    ri0,rie,rj0,rje = region
                    if ri0 < 0: ri0 += gdims[-1]
                    if rie < 0: rie += gdims[-1]
                    if rj0 < 0: rj0 += gdims[-2]
                    if rje < 0: rje += gdims[-2]
""", """                    # count from the end:
                    for k in range(4):
                        if region[k] < 0: region[k] += gdims[-1-k//2]
                    ri0,rie,rj0,rje = region
""")], 'a region given as a list with negative entries', 'the caller\'s list is changed', '''
put('F', (3, 4), np.arange(12.))
r = [-2, 3, 0, -1]
mds.rdmds('F', region=r)
check(r == [-2, 3, 0, -1], r)
''')

bug('c31-exponent', 'C31', 'mds.py', [("    if '.' in s or 'e' in s.lower():", "    if '.' in s or 'e' in s:")],
    'a number with a capital exponent and no point', 'it cannot be parsed', '''
open('m', 'w').write(' missingValue = [ -1E+30 ];\\n')
try:
    check(mds.parsemeta('m')['missingValue'] == [-1e30], 'value')
except ValueError as e:
    check(0, e)
''')

bug('c31-unterminated', 'C31', 'mds.py', [("        if line[-2:] != closing + ';':", "        if line[-2:] != closing + ';' and line[-1:] != closing:")],
    'an entry without its semicolon', 'its last character is lost', '''
open('m', 'w').write(' nrecords = [ 12]\\n')
try:
    check(0, mds.parsemeta('m'))
except ValueError:
    pass
''')

bug('c31-blanks', 'C31', 'mds.py', [("""            val = [ s.rstrip() for s in re.split(r"'  *'", line.strip("'")) ]""", """            val = line.replace("'"," ").split()""")],
    'names in braces that contain blanks', 'they are split', '''
open('m', 'w').write(" fldList = {\\n 'THETA   ' 'SALT    '\\n };\\n simulation = { 'my run' };\\n")
d = mds.parsemeta('m')
check(d['fldList'] == ['THETA', 'SALT'] and d['simulation'] == ['my run'], d)
''')

bug('c32-early', 'C32', 'regrid.py', [("""    args = parser.parse_args()
    (newgrid,ni_regridded,nj_regridded) = regrid(
""", """    args = parser.parse_args()
    # don't compute what can't be saved:
    open(args.outfile,'wb').close()
    (newgrid,ni_regridded,nj_regridded) = regrid(
""")], 'an output file that exists, or is the input file', 'it is emptied although regridding fails', '''
X, Y = plane(2, 2)
gridio.write_mitgridfile('g', tile(X, Y), 2, 2)
n = open('g', 'rb').read()
open('o', 'wb').write(b'precious')
sys.argv = ['sgregrid', '--mitgridfile=g', '--ni=2', '--nj=2', '--lon1=10', '--lat1=22', '--lon2=10', '--lat2=22', '--lon_subscale=1', '--lat_subscale=1',
            '--outfile=o']
try:
    regrid.main()
except ValueError:
    pass
check(open('o', 'rb').read() == b'precious', 'output file emptied')
''')

bug('c32-saves', 'C32', 'stitch.py', [("""    # read tile b into mitgrid data structure:
""", """    if not strict:
        # tile 'a' is now complete along the common edge, keep it:
        gridio.write_mitgridfile(tilea,a,nia,nja,verbose)

    # read tile b into mitgrid data structure:
""")], 'looking at the first tile\'s file after stitching', 'it is rewritten with other contents', TILES + '''
a['RAC'][0, 1] = 0.
gridio.write_mitgridfile('a', a, 1, 2)
n = open('a', 'rb').read()
stitch.stitch(False, False, **kw)
check(open('a', 'rb').read() == n, 'input file changed')
''')

bug('c32-link', 'C32', 'addfringe.py', [("    gridio.write_mitgridfile(args.outfile,tilea_with_new_boundary,args.nia,args.nja)\n", """    gridio.write_mitgridfile(args.tilea,tilea_with_new_boundary,args.nia,args.nja)
    if args.outfile!=args.tilea:
        os.replace(args.tilea,args.outfile)
"""), ("import argparse\n", "import argparse\nimport os\n")], 'looking for the first tile\'s file after the command', 'it is gone', TILES + '''
n = open('a', 'rb').read()
sys.argv = ['sgaddfringe', '--outfile=o'] + ['--%s=%s' % i for i in kw.items()]
addfringe.main()
check(os.path.exists('a') and open('a', 'rb').read() == n, 'input file lost')
''')
