"""Writes properties.jsonl (the texts live here because JSON lines are unreadable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': ['simplegrid/' + f for f in files],
                          'state': [{'name': n, 'meaning': m, 'where': 'simplegrid/' + w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': 'simplegrid/' + w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


p('C01', 'Grid files round-trip bit for bit',
  '''Writing a set of sixteen grid matrices to a grid file and reading that file back with the same cell counts returns
  the same sixteen matrices, bit for bit (signed zeros, infinities, NaNs and denormals included), in the same shapes.
  A matrix that was absent when written reads back as all NaN.''',
  ['inputs'], 'all matrix contents (every 64-bit double) and cell counts, strict or not',
  'Tests read a handful of stored files and never write one and compare; the claim is over every value and shape.',
  ['gridio.py', 'mitgridfilefields.py'], [('write_mitgridfile', 'gridio.py'), ('read_mitgridfile', 'gridio.py')],
  ['read_mitgridfile(write_mitgridfile(x))'], [('names', 'field order and extents', 'mitgridfilefields.py')])
p('C02', 'Grid files have the documented layout',
  '''A grid file is sixteen consecutive segments, in the documented field order, each of (ni+1)*(nj+1) big-endian
  doubles in column-major order with unused trailing rows and columns zero.
  The writer produces exactly that, replacing whatever the file held before, and the reader takes every element from
  exactly that place.''',
  ['inputs'], 'all values and cell counts; any previous file contents',
  'A consistent mistake in both reader and writer passes every round trip; tests contain no independent decoder.',
  ['gridio.py', 'mitgridfilefields.py'], [('write_mitgridfile', 'gridio.py'), ('read_mitgridfile', 'gridio.py')],
  ['bytes of the written file', 'matrices returned for a given byte string'])
p('C03', 'Strict reading rejects exactly nonzero padding; short files fail',
  '''Strict reading of a grid file of the right size raises RuntimeError if and only if some padding element (a trailing
  row or column a field does not use) is nonzero, and non-strict reading always succeeds.
  A file too short for the stated cell counts is never read without an error.''',
  ['inputs'], 'all file contents (every double in every position), strict flag, truncation lengths',
  'Tests use files whose padding is zero, so neither direction of the equivalence is exercised per field and position.',
  ['gridio.py'], [('strict padding test', 'gridio.py')], ['exception raised by read_mitgridfile'])
p('C04', 'A new grid has the stated size, orientation and corners',
  '''Creating a grid between a northwest and a southeast corner with given subdivisions returns exactly those
  subdivisions as cell counts and sixteen matrices of the documented shapes.
  Its corner points are the four combinations of the given longitudes and latitudes, the northwest one at the first
  row and last column and the southeast one at the last row and first column.''',
  ['inputs'], 'all corner coordinates and all subdivision counts within the bounds, equal or not',
  'Tests compare a few stored grids; most are square, so transposed axes and swapped counts are invisible to them.',
  ['mkgrid.py', 'computegrid.py'], [('mkgrid', 'mkgrid.py'), ('tomitgrid', 'computegrid.py')], ['value returned by mkgrid'])
p('C05', 'Subdivision is equal along great circles, consistently staggered',
  '''Every point of a generated grid lies on the great-circle arc between its generating corner points at the equal
  fraction its index states: cell edges running in the first index direction are divided first, and the resulting
  points are joined and divided in the second direction.
  Cell centres are the odd points and cell corners the even points of the doubled subdivision, in every cell.''',
  ['inputs'], 'all corner points and all (unequal) subdivision factors within the bounds',
  'Tests sample stored grids with one subdivision each; an index slip that depends on the factor or cell escapes them.',
  ['computegrid.py', 'mkgrid.py', 'regrid.py'], [('fill', 'computegrid.py'), ('tomitgrid', 'computegrid.py')],
  ['XC, YC, XG, YG of mkgrid and regrid'], [('compute grid', 'doubled-resolution points', 'computegrid.py')])
p('C06', 'Regridding selects the region and orientation the corners name',
  '''Regridding works on the block of cells whose diagonal corner points are the existing grid points nearest to the two
  given positions, turned by quarter turns until the first is at minimum i and maximum j and the second at maximum i and
  minimum j, whatever the orientation of the source grid.
  The returned cell counts are the block's counts times the subdivision factors, and positions that do not select
  diagonally opposed points raise ValueError.''',
  ['inputs'], 'all grids, all positions nearest to any pair of grid points, all four relative orientations, all factors',
  'Tests use a few named corners of a few grids; interior blocks in each orientation of non-square grids are not covered.',
  ['regrid.py', 'util.py'], [('nearest-point search and quarter turns', 'regrid.py'), ('nearest', 'util.py')],
  ['value returned by regrid'])
p('C07', 'Regridding keeps the existing corner points',
  '''Every existing cell-corner point inside the selected region appears unchanged in the regridded result, at the indices
  the subdivision factors and orientation imply; with factors of one the corner points are exactly the selected block.''',
  ['inputs'], 'all grids of finite coordinates, regions and subdivision factors within the bounds',
  'Tests check outer corners of sampled grids; interior points and unequal factors are not compared.',
  ['regrid.py', 'computegrid.py'], [('mapping of existing points to the compute grid', 'regrid.py'), ('fill', 'computegrid.py')],
  ['XG, YG returned by regrid'])
p('C08', 'Nearest-point search returns a true minimum',
  '''The nearest-point search returns the indices of a grid point no other grid point is nearer than, and its distance
  to the origin, on whatever ellipsoid is used.
  It raises ValueError unless both coordinate matrices are two-dimensional and of equal shape.''',
  ['inputs'], 'all origins, coordinate matrices and distances, including ties; all small shapes',
  'The test samples a few origins on one grid; minimality must hold over every arrangement of distances.',
  ['util.py'], [('nearest', 'util.py')], ['value returned by nearest'])
p('C09', 'Every edge length is the distance its definition names',
  '''Each of the eight length matrices holds, for every index, the sum of the two great-circle half-edge distances between
  the grid points its MITgcm definition names, in metres, and zero exactly where its definition reaches outside the
  grid.''',
  ['inputs'], 'all corner points, shapes and unequal subdivision factors within the bounds; every index of every field',
  'Tests compare stored results of a few nearly regular grids, where neighbouring lengths are almost equal.',
  ['computegrid.py'], [('edges', 'computegrid.py'), ('tomitgrid', 'computegrid.py')],
  ['DXF, DYF, DXV, DYU, DXC, DYC, DXG, DYG of mkgrid and regrid'])
p('C10', 'Cell areas sum their quarter cells and conserve total area',
  '''Each of the four area matrices holds, for every index, the sum of the areas of the four quarter cells its MITgcm
  definition names, scaled to the sphere radius, and zero exactly where its definition reaches outside the grid.
  Hence tracer-cell areas add up to the area of the region, and over the interior the staggered areas cover the same
  quarter cells once.''',
  ['inputs'], 'all corner points, shapes and unequal subdivision factors within the bounds; every index',
  'Tests compare stored results of a few grids with tolerances; per-index stencils in every field are not settled.',
  ['computegrid.py', 'util.py'], [('areas', 'computegrid.py'), ('tomitgrid', 'computegrid.py')], ['RAC, RAZ, RAW, RAS'])
p('C11', 'Area kernels and Cartesian conversion follow their formulas',
  '''For every quadrilateral the spherical kernel equals the spherical excess of its two triangles and the planar kernel
  half the norm of the summed edge cross products, cell by cell with the documented corner order.
  Longitude/latitude pairs convert to (cos lon cos lat, sin lon cos lat, sin lat), scaled as documented, and raise
  ValueError for matrices of unequal or non-two-dimensional shape.''',
  ['inputs'], 'all corner coordinates of all cells of arrays within the bounds',
  'No test computes an area from its definition; stored values only exercise a few nearly square cells.',
  ['util.py'], [('squad_uarea', 'util.py'), ('pquad_uarea', 'util.py'), ('lonlat2cart', 'util.py')],
  ['values returned by the kernels'])
p('C12', 'Planar areas are used exactly when both mean edges are small',
  '''Cell areas use the planar formula exactly when the mean x-edge and the mean y-edge lengths are both below the
  documented transition length (10 km), and the spherical formula otherwise, on every cell of the grid alike.''',
  ['inputs'], 'all edge lengths (both sides of and at the threshold, mixed per direction) and coordinates',
  'Tests have no grids near the threshold or with mixed edge sizes; the two formulas agree there to plotting accuracy.',
  ['computegrid.py', 'config.py'], [('areas', 'computegrid.py')], ['areas returned for given edges and points'],
  [('PLANAR_SPHER_TRANSITION', 'transition length', 'config.py')])
p('C13', 'Longitudes keep the convention of the input',
  '''If no corner longitude of the region is negative, every longitude of the generated grid is reported in 0..360 (a
  computed negative longitude is shifted by exactly 360), and otherwise computed longitudes are reported in -180..180.
  Given longitudes are never altered, and no latitude depends on the convention.''',
  ['inputs'], 'all corner longitudes of either sign, including mixed signs and regions across the dateline or meridian',
  'Tests have few grids on each side; the choice depends on any single corner of the region being negative.',
  ['computegrid.py'], [('fill', 'computegrid.py')], ['XC, XG of mkgrid and regrid'])
p('C14', 'Edge matching names the shared edge and its midpoints',
  '''For two tiles of equal orientation sharing one edge, edge matching reports that edge for both (north with south,
  east with west) with slices selecting the coinciding points, and the midline points of the neighbour's border cells
  with the place they take beside the first tile. Corners of the two tiles coincide when no further apart than one
  millionth of either tile's diagonals, and not when further apart than one millionth of all of them.
  Tiles without a common edge, or joined at inconsistent edges or with different cell counts along it, raise
  ValueError.''',
  ['inputs'], 'all tile coordinates, shapes, and the four placements, with corner mismatches on both sides of tolerance',
  'Tests use two placements of stored tiles; mid-tolerance mismatches, all four edges and non-square tiles are unexplored.',
  ['matchedges.py', 'computegrid.py'], [('matchedges', 'matchedges.py')], ['value returned by matchedges'],
  [('POINTS_ARE_CLOSE_ENOUGH', 'relative tolerance', 'config.py')])
p('C15', 'Adding a fringe never changes existing tile data',
  '''Every nonzero element of the first tile's sixteen matrices is returned unchanged after boundary data are added from
  its neighbour, and shapes are those of the tile.
  The reported matching edges are those of the two tiles.''',
  ['inputs'], 'all contents of both tiles, all four placements, shapes within the bounds',
  'Tests compare one stored result; whether any field or position can be overwritten is a claim over all contents.',
  ['addfringe.py'], [('merge of recomputed and existing terms', 'addfringe.py')], ['value returned by addfringe'])
p('C16', 'Adding a fringe computes the boundary terms from the neighbour',
  '''Each length and area term of the first tile that its definition places across the shared edge, and that is zero in
  the tile, becomes the value of the same term computed on the joined grid of the tile and the neighbour's border cells.
  Terms on the other three edges stay zero.''',
  ['inputs'], 'all coordinates of both tiles, all four placements, shapes within the bounds',
  'The stored expected results were generated by the code itself; no test computes a cross-border term independently.',
  ['addfringe.py', 'computegrid.py', 'matchedges.py'], [('addfringe', 'addfringe.py'), ('edges', 'computegrid.py'), ('areas', 'computegrid.py')],
  ['DXC, DYC, DXV, DYU, RAW, RAS, RAZ along the shared edge'])
p('C17', 'Stitching places both tiles side by side without loss',
  '''Joining two tiles sharing an edge returns cell counts that add up across the edge and agree along it, sixteen
  matrices of the documented shapes, and every nonzero element of the first and every element of the second tile at
  its own place in the joined grid, for each of the four placements; on the shared edge the first tile's points are kept.''',
  ['inputs'], 'all contents of both tiles, all four placements, shapes within the bounds',
  'Tests join two stored tiles in two placements; sixteen fields times four placements are sampled, not settled.',
  ['stitch.py', 'addfringe.py'], [('stitch', 'stitch.py')], ['value returned by stitch'])
p('C18', 'A stitched grid equals the grid of the whole region',
  '''Cutting a grid in two along any grid line and joining the parts gives back the original grid: same counts, points,
  and all terms that do not reach across the cut, in either order of the parts and across either direction.''',
  ['inputs', 'programs'], 'all grids within the bounds, every cut position and order of the arguments',
  'Tests join fixed tiles and compare with stored results of the same code; the composition is never checked.',
  ['stitch.py', 'addfringe.py', 'matchedges.py', 'regrid.py'], [('stitch', 'stitch.py'), ('regrid', 'regrid.py')],
  ['stitch(part1, part2) against the whole'])
p('C19', 'All input forms give the same result and inputs stay untouched',
  '''Regridding gives the same result from a grid file, from corner-point files (text or binary) and from matrices in
  memory holding the same points, and raises ValueError when no source or no cell counts are given.
  Matrices passed in are not modified, so repeating a call, or calling again for another region, gives what a first call
  would.''',
  ['inputs', 'histories'], 'all coordinates, orientations, sources, and repeated calls',
  'Tests use one source per case and never look at the caller\'s matrices or call twice.',
  ['regrid.py', 'gridio.py'], [('input handling', 'regrid.py')], ['value returned by regrid', 'the caller\'s dictionary'])
p('C20', 'Creating a grid equals regridding its one-cell grid',
  '''A grid created from two corners with given subdivisions equals, in all sixteen matrices, the result of regridding the
  single-cell grid of the same corners with those subdivisions as factors.''',
  ['inputs', 'programs'], 'all corner coordinates in one longitude convention and all factors within the bounds',
  'Both functions repeat the same index arithmetic separately; tests never compare one with the other over all factors.',
  ['mkgrid.py', 'regrid.py', 'computegrid.py'], [('mkgrid', 'mkgrid.py'), ('regrid', 'regrid.py')], ['mkgrid(...) against regrid(...)'])
p('C21', 'Each command writes what the corresponding function returns',
  '''Running the command-line entry point of mkgrid, regrid, addfringe or stitch with any argument values writes a grid file
  that reads back, with the resulting cell counts, as exactly the matrices the function returns for the same arguments.
  Options reach the parameter of the same name, strict and verbose flags included.''',
  ['inputs', 'configurations'], 'all argument values; every option present or absent',
  'Tests call the functions, never the commands: a swapped argument or the wrong cell counts on output goes unnoticed.',
  ['mkgrid.py', 'regrid.py', 'addfringe.py', 'stitch.py'],
  [('main', 'mkgrid.py'), ('main', 'regrid.py'), ('main', 'addfringe.py'), ('main', 'stitch.py')], ['the output file'])
p('C22', 'Model output converts to grid matrices faithfully',
  '''Converting a directory of model grid output returns, for each of the sixteen fields present, a matrix of the
  documented shape holding the field with model x along the first index, zero in the row or column the output lacks, and
  None for fields that are absent.
  Cell counts are those of the model grid.''',
  ['inputs'], 'all field contents, model sizes and sets of present fields within the bounds',
  'There is no test of this conversion at all.',
  ['mds2mitgrid.py', 'mds.py'], [('mds2mitgrid', 'mds2mitgrid.py')], ['value returned by mds2mitgrid'])
p('C23', 'Model output files round-trip',
  '''Writing an array as a model output pair of data and description files and reading it back returns the same shape
  and, at the stored precision, the same values bit for bit, in the stated byte order, with records, iteration number and
  time data preserved.''',
  ['inputs'], 'all array contents, ranks, sizes and record counts within the bounds, both precisions',
  'There is no test of the model output reader or writer.',
  ['mds.py'], [('wrmds', 'mds.py'), ('rdmds', 'mds.py')], ['rdmds(wrmds(x))'])
p('C24', 'Reading model output assembles exactly what was asked for',
  '''Reading model output returns every element at its global place whether it is stored in one file or in equal tiles,
  and restricting to records, levels, a region or several iterations returns exactly that part of the full result.
  Missing tiles, if accepted, leave the fill value.''',
  ['inputs', 'configurations'], 'all contents, tilings, selections and iteration lists within the bounds',
  'There is no test of the model output reader.',
  ['mds.py'], [('rdmds', 'mds.py'), ('readmeta', 'mds.py')], ['value returned by rdmds'])
p('C25', 'Verbose output never changes a result',
  '''Asking for diagnostic output changes neither the value returned, nor the exception raised, nor any file written, for
  any operation and any input.''',
  ['inputs', 'configurations'], 'all inputs of all operations, verbose on or off',
  'Tests run with one setting; a format error or a side effect in a diagnostic line on some path is never executed.',
  ['mkgrid.py', 'regrid.py', 'computegrid.py', 'gridio.py', 'addfringe.py', 'matchedges.py', 'stitch.py', 'mds2mitgrid.py'],
  [('verbose branches', 'computegrid.py')], ['results with and without verbose'])
p('C26', 'Open boundaries follow the given index vectors',
  '''For each of the four boundaries, every along-boundary point takes the interpolated model value at the one-based
  tracer-cell index the vector gives, counting from the far end if negative; an all-zero vector suppresses the boundary
  and an absent one means the outermost cells.
  The velocity normal to a boundary is taken at the boundary cell's face towards the interior.''',
  ['inputs', 'configurations'], 'all index vectors (positive, negative, zero, absent) and result values within the bounds',
  'There is no test of open-boundary generation.',
  ['getobcs.py'], [('boundary index vectors', 'getobcs.py'), ('partitions', 'getobcs.py')], ['the boundary files'])
p('C27', 'Open-boundary files have the model\'s staggering and layout',
  '''For every boundary and response a file of big-endian doubles is written holding, with the along-boundary index
  fastest, then depth, then time in increasing order, the parent results interpolated from and to the points of that
  response: cell centres for tracers, western faces for the first and southern faces for the second velocity component.''',
  ['inputs', 'configurations'], 'all parent results, numbers of depths and times, and grids within the bounds',
  'There is no test of open-boundary generation.',
  ['getobcs.py', 'mds.py', 'regrid.py'], [('interpolation and output', 'getobcs.py')], ['the boundary files', 'regridder inputs'])

p('C28', 'Strictness covers every grid file a tool reads',
  '''Regridding, adding a fringe, stitching and open-boundary generation apply strictness to every grid file they read:
  with strict set, RuntimeError is raised if and only if some padding element (a trailing row or column a field does not
  use) of any of the files is nonzero.
  Otherwise the operation succeeds and no padding value has any influence on its result.''',
  ['inputs', 'configurations'], 'all padding values (every 64-bit double) of each file a tool reads, strict or not',
  'Stored test files have zero padding; whether each tool passes strictness on for each of its files is never exercised.',
  ['regrid.py', 'addfringe.py', 'stitch.py', 'getobcs.py', 'gridio.py'],
  [('regrid', 'regrid.py'), ('addfringe', 'addfringe.py'), ('stitch', 'stitch.py'), ('getobcs', 'getobcs.py')],
  ['exception or result of each tool'])
p('C29', 'Open-boundary results do not depend on the form of the input',
  '''Open-boundary generation writes the same files whether the parent and regional grids are given as files or as matrices,
  in any combination, whether index vectors are lists, tuples, arrays, plain numbers or command-line arguments, and
  whatever the files held before.
  Without a results directory, a regional grid, or the cell counts of a grid file it raises ValueError and writes no
  boundary file.''',
  ['inputs', 'configurations'], 'all grids, results and index vectors within the bounds, in every form of input',
  'There is no test of open-boundary generation.',
  ['getobcs.py'], [('keyword handling', 'getobcs.py'), ('zeros_based', 'getobcs.py')], ['the boundary files', 'exception raised'])
p('C30', 'Operations leave their inputs alone and do not influence each other',
  '''No operation modifies the arrays, dictionaries or lists passed to it or the files it reads, and what it returns shares no
  storage with them.
  Its outcome depends only on its arguments and on the files they name: it is the same after any other operation,
  succeeding or failing, and after the caller overwrites an earlier result, and earlier results never change.''',
  ['inputs', 'histories'], 'all contents of the inputs of each operation; repeated calls with other calls in between',
  'Tests call each function once on fresh data and never look at the arguments again.',
  ['gridio.py', 'util.py', 'mkgrid.py', 'regrid.py', 'matchedges.py', 'addfringe.py', 'stitch.py', 'getobcs.py', 'mds.py',
   'mds2mitgrid.py'],
  [('read_mitgridfile', 'gridio.py'), ('regrid', 'regrid.py'), ('addfringe', 'addfringe.py'), ('rdmds', 'mds.py')],
  ['arguments after a call', 'results of repeated calls'])
p('C31', 'Description files are understood as written',
  '''Parsing a model output description returns each entry under its name as the list of its values in order: integers as
  integers, numbers with a point or exponent as reals, quoted texts without their quotes and trailing blanks of
  names in braces removed, whatever the line breaks, blanks and comments between them.
  A line that is no entry, or an entry without brackets or semicolon, raises ValueError.''',
  ['inputs'], 'all integer and real values in each of the layouts',
  'There is no test of the description parser.',
  ['mds.py'], [('parsemeta', 'mds.py'), ('parse1', 'mds.py'), ('strip_comments', 'mds.py')], ['value returned by parsemeta'])
p('C32', 'Commands write their output only when done',
  '''A command that fails leaves an output file that existed before, and every other file, exactly as it was.
  A command whose output file exists already, or is one of its own input files, writes the same contents as to a new
  file, and changes no other file.''',
  ['inputs', 'crash_points'], 'all contents of inputs and earlier output files; each way a command can fail',
  'Tests call the functions, never the commands, and never look at an output file that existed before.',
  ['mkgrid.py', 'regrid.py', 'addfringe.py', 'stitch.py', 'gridio.py'],
  [('main', 'mkgrid.py'), ('main', 'regrid.py'), ('main', 'addfringe.py'), ('main', 'stitch.py')],
  ['the output file and the input files after a command'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
