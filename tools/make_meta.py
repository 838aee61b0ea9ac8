"""Writes properties.jsonl, MANIFEST.json and checks/meta.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = 'property-based testing (Hypothesis) against an independent oracle'

P = {}


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, rule, note, assumptions=()):
    P[pid] = dict(
        prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               hook_needed=None)),
        technique=technique, rule=rule, note=note, assumptions=list(assumptions))


G = 'gridded/'

prop('C01', 'Interpolation on triangular meshes is exact, local and total',
     'On a triangular mesh, node data at a point inside a triangle is the barycentric combination of the values at its three '
     'nodes, and face data (also on meshes of mixed polygons) is the value of the face the point is in, whatever the numbering, winding or order of the nodes and faces. '
     'A point in no face gets 0, and the value of each point depends only on the data of its own face: not on '
     'missing values elsewhere, nor on the other points asked for in the same call.',
     ['inputs'], 'all meshes of non-overlapping triangles (for face data also convex polygons), all data arrays, all sets of points not on an outer boundary',
     'the tests interpolate on two or three fixed meshes with smooth or constant data; wrong weights for clockwise faces, holes, or the last face need other meshes',
     [G + 'pyugrid/ugrid.py', G + 'variable.py'],
     [('UGrid.interpolate_var_to_points, interpolation_alphas', G + 'pyugrid/ugrid.py'), ('Variable._xy_interp', G + 'variable.py')],
     ['return of UGrid.interpolate_var_to_points', 'return of Variable.at'],
     PBT + ': points are generated from known barycentric weights',
     'random lattice meshes (jitter, holes, windings, permutations, isolated nodes, affine maps) and points made from known (face, weights); '
     'non-trivial: at least one point in a face and non-constant data, or missing values present with points outside or away from them',
     'generated meshes of up to 50 faces; tolerance 1e-9 relative to data and coordinate scale', )

prop('C02', 'Interpolation on curvilinear grids follows the location of the data',
     'On a curvilinear grid of convex cells, node data at a point inside a cell is the bilinear combination of the four corners, '
     'center data is the value of the cell, and data on either set of edges is linear between the two opposite edges of the cell, with or without ghost cells around it, '
     'for any orientation, skew, or transposition of the grid. '
     'Masked edge values are dealt with as the caller asked (as zeros, masking the result, or mirroring the other edge); masked node values count as zero unless all four are masked, which masks the result, as does a masked center; points in no cell come out masked.',
     ['inputs', 'configurations'], 'all grids of convex cells, data locations, paddings and masks, all points strictly inside or clearly outside of cells',
     'the tests use axis-aligned or mildly curved grids and few points; errors in index shifts of padded data, axis mix-ups on transposed grids or skewed cells do not show there',
     [G + 'pysgrid/sgrid.py', G + 'variable.py'],
     [('SGrid.interpolate_var_to_points, interpolation_alphas, geo_to_logical, get_padding_by_location', G + 'pysgrid/sgrid.py')],
     ['return of SGrid.interpolate_var_to_points', 'return of Variable.at'],
     PBT + ': points are generated from known logical coordinates',
     'random curvilinear grids (jitter, polar, waves, affine maps, transposed and reversed) and points built forward from (cell, l, m); non-trivial: at least one point in a cell',
     'generated grids of up to 49 cells')

prop('C03', 'Interpolation on rectangular grids is bilinear in longitude and latitude',
     'On a rectangular grid the interpolated value is the bilinear combination of the four nodes around the point, '
     'for ascending or descending, evenly or unevenly spaced axes, and for data stored with latitude or longitude first. '
     'Masked data count as zero, points outside of the grid get 0, and data whose orientation cannot be known from its shape or dimension names is rejected. '
     'The nodes and centers the grid reports are those of its axes.',
     ['inputs', 'configurations'], 'all axes, data arrays and orders of dimensions, all points',
     'the tests use one or two fixed files, with one orientation each',
     [G + 'grids.py', G + 'variable.py'],
     [('Grid_R.interpolate_var_to_points, lonlat_to_yx', G + 'grids.py')],
     ['return of Grid_R.interpolate_var_to_points', 'return of Variable.at'],
     PBT + ' (bilinear formula written out)',
     'random axes and data, points inside, on nodes and outside; non-trivial: at least one point inside and data that are not constant',
     'generated grids of up to 8 x 8 nodes')

prop('C04', 'Time interpolation is linear, exact at the time steps and bounded',
     'The value of a variable at a time between two steps is the linear interpolation of its values at these steps, and the value at a step is exactly that of the step. '
     'Asking for a time before the first or after the last step raises the out-of-range error, unless extrapolation is asked for: then the value of the first or last step is returned. '
     'A variable with a single time has that value at any time.',
     ['inputs'], 'all increasing time axes (regular or not, to the microsecond) and query times',
     'the tests query a few times of a regular axis',
     [G + 'variable.py', G + 'time.py'],
     [('Variable._time_interp', G + 'variable.py'), ('Time.index_of, interp_alpha, valid_time', G + 'time.py')],
     ['return of Variable.at and VectorVariable.at', 'OutOfTimeRangeError'],
     PBT, 'random axes and query times (at, between, next to, before and after the steps); non-trivial: more than one time step',
     'generated axes of up to 8 steps, on all the types of grids')

prop('C05', 'Interpolation between depth levels honours the depths and boundary conditions',
     'With fixed depth levels, listed downward or upward, level data at a depth between two levels is the linear interpolation between them, and layer data is the value of the layer the point is in. '
     'Points above the first or below the last level are, as the surface and bottom boundary conditions say, masked or given the value of the nearest level or layer, point by point in a mixed query. '
     'Data without a depth structure of its own is taken from the surface.',
     ['inputs', 'configurations'], 'all level sequences, boundary conditions and mixes of depths in a query',
     'the tests have one set of levels and a handful of depths',
     [G + 'depth.py', G + 'variable.py'],
     [('L_Depth.interpolation_alphas', G + 'depth.py'), ('Variable._depth_interp', G + 'variable.py')],
     ['return of Variable.at', 'return of interpolation_alphas'],
     PBT, 'random levels, data and depths of several points at once, both boundary conditions; non-trivial: points between levels, or beyond both ends',
     'up to 8 levels; depths exactly at the deepest level are left out when masking')

prop('C06', 'Terrain-following depths match the published formulas',
     'For terrain-following coordinates (both ROMS transforms, and sigma layers) the depth of each level and layer at a point and time is the published function of bathymetry, sea surface height and stretching, interpolated to that point and time. '
     'A variable on these coordinates is interpolated linearly between the two levels around the depth of each point (constant within a layer for layer data), with the surface and bottom boundary conditions applied to the local water column.',
     ['inputs'], 'all bathymetries, surface heights, stretching curves, points and times',
     'the tests check a few hand-computed profiles at one place',
     [G + 'depth.py', G + 'variable.py'],
     [('ROMS_Depth, FVCOM_Depth: get_depth_profile, interpolation_alphas', G + 'depth.py')],
     ['return of get_depth_profile, interpolation_alphas, Variable.at'],
     PBT + ' (formulas written out independently)',
     'random bathymetry, zeta(t), sigma curves and points; non-trivial: a sloping bottom or moving surface and a point within the water column',
     'up to 8 levels')

prop('C07', 'Values are the same product of time, depth and place for any data layout',
     'A value interpolated in time, depth and place is the combination of the three interpolations, and does not depend on the order of the dimensions of the data, on whether the data is in memory or read from a netCDF file, '
     'or on the storage type. The columns of a vector are the values of its components, in order. What is missing at a step or level that is used is missing, and what is missing at others makes no difference.',
     ['inputs', 'configurations'], 'all dimension orders, storage forms and query points/times',
     'the tests check separate features; combinations are only sampled',
     [G + 'variable.py', G + 'grids.py', G + 'depth.py', G + 'time.py'],
     [('Variable.at, dimension_ordering; VectorVariable.at; from_netCDF', G + 'variable.py')],
     ['return of Variable.at, VectorVariable.at'],
     PBT + ' (separable reference and differential between layouts)',
     'random 4-D data on the three types of grids; non-trivial: query strictly between time steps and levels',
     'small arrays')

prop('C08', 'Answers do not depend on earlier queries or on what callers do with results',
     'Whatever was asked before, a query answers as a fresh object would: also for the same points with other times, options, or shapes, after new data, times, grids, depths, nodes or faces were assigned or deleted, after a part of them changed (nodes of the grid, instants or offset of the time axis, levels, bathymetry or water level of the depths), and after the caller changed an array that was returned.',
     ['histories'], 'all sequences of queries and assignments',
     'unit tests make one or two queries per object, so that what is remembered between queries is hardly exercised',
     [G + 'variable.py', G + 'pyugrid/ugrid.py', G + 'pysgrid/sgrid.py'],
     [('the memo of results, of located cells, and the search trees', G + 'variable.py, ' + G + 'pyugrid/ugrid.py, ' + G + 'pysgrid/sgrid.py')],
     ['returns of at, locate_faces, interpolate_var_to_points in a history'],
     'stateful property-based testing: generated histories against a fresh object per query',
     'random histories of queries with repeats, options, assignments and modified results; non-trivial: a query repeated after something else happened',
     'up to 14 operations per history')

prop('C09', 'Locating points finds the cell, or nearest node, that geometry says',
     'Locating a point on a mesh, curvilinear or rectangular grid gives the cell that contains it and -1 when there is none, for all search methods, and one index for one point but an array for an array. '
     'Asking for the nearest node gives a node no farther away than any other.',
     ['inputs'], 'all grids and points not on the boundary of a cell',
     'the tests locate a few points on fixed grids',
     [G + 'pyugrid/ugrid.py', G + 'pyugrid/util.py', G + 'pysgrid/sgrid.py', G + 'grids.py'],
     [('locate_faces, index_of, locate_nodes, locate_nearest, point_in_tri', G + 'pyugrid/ugrid.py, ' + G + 'pysgrid/sgrid.py, ' + G + 'grids.py, ' + G + 'pyugrid/util.py')],
     ['returns of locate_faces, locate_nodes, locate_nearest, point_in_tri'],
     PBT + ' (points with known cells, brute-force distances)',
     'random grids and points of known cells; non-trivial: at least one point inside',
     'up to about 50 cells')

prop('C10', 'A mesh saved to a UGRID file loads back the same',
     'Saving an unstructured mesh and loading the file gives back its nodes, faces, edges, boundaries, neighbors, and coordinates of faces, edges and boundaries, '
     'for triangular and mixed meshes, of any size, name and mix of optional parts; the file describes itself as the UGRID convention says, and every variable it refers to is in it. '
     'Variables saved with the mesh keep their values, location and attributes.',
     ['inputs', 'configurations'], 'all meshes and subsets of optional parts',
     'the tests save one or two meshes and check a few arrays',
     [G + 'pyugrid/ugrid.py', G + 'pyugrid/read_netcdf.py'],
     [('UGrid.save_as_netcdf', G + 'pyugrid/ugrid.py'), ('load_grid_from_nc_dataset', G + 'pyugrid/read_netcdf.py')],
     ['the netCDF file', 'UGrid.from_ncfile / Grid.from_netCDF'],
     'property-based round trip, and an independent reader of the file',
     'random meshes with any subset of edges, boundaries, connectivity and coordinates; non-trivial: at least one optional part or a mixed mesh',
     'small meshes')

prop('C11', 'SGRID files are read as their topology says, and saved to the same effect',
     'Loading an SGRID file gives the coordinates, paddings, dimensions and edge or center variables its topology variable names, and for each variable its place on the grid, vector axis, and the slices that leave out the padding, whatever the paddings and names. '
     'Coordinates the topology does not name are found by the names and dimensions of the nodes, and by the variables located on faces and edges. '
     'Saving a loaded grid and loading it again gives the same grid.',
     ['inputs', 'configurations'], 'all combinations of the four paddings, names and optional parts',
     'the tests use a handful of paddings',
     [G + 'pysgrid/sgrid.py', G + 'pysgrid/read_netcdf.py', G + 'pysgrid/utils.py', G + 'pysgrid/variables.py'],
     [('SGrid.load_grid, save_as_netcdf', G + 'pysgrid/sgrid.py'), ('parsing of padding and axes', G + 'pysgrid/read_netcdf.py'), ('SGridVariable', G + 'pysgrid/variables.py')],
     ['attributes of the loaded grid and its variables', 'the netCDF file'],
     PBT + ' (files written with netCDF4 directly) and round trip',
     'random SGRID files: paddings, names, optional edges and angles; non-trivial: some padding',
     'small grids')

prop('C12', 'Every way to describe the same grid in a file gives the same grid',
     'A grid found in a netCDF file has the type and coordinates that its topology variable, the type and topology given by the caller, or the usual variable names and shapes describe: '
     'zero- or one-based and row- or column-ordered connectivity, other capitalisation of names, and the conventions of the supported models give the same cells and the same interpolated values. A mesh that is asked for by its name, or the only mesh of a file, is the one that is read, and masks belong to the place their names say.',
     ['inputs', 'configurations'], 'all equivalent descriptions of a grid',
     'the tests load a few sample files',
     [G + 'grids.py', G + 'pyugrid/read_netcdf.py', G + 'pysgrid/read_netcdf.py'],
     [('Grid.from_netCDF, _get_grid_type, _find_required_grid_attrs', G + 'grids.py')],
     ['Grid.from_netCDF, Variable.from_netCDF'],
     PBT + ' (the same grid written in equivalent ways)',
     'random grids written under random conventions; non-trivial: any description other than the default one',
     'small grids; meshes of exactly three faces only with a topology variable')

prop('C13', 'Time axes keep the instants of their source, shifted only as asked',
     'A time axis made from datetimes or a netCDF variable has exactly the instants given, shifted by the displacement, origin and time-zone offset the caller asked for, and by nothing else; the source is left unchanged. '
     'Indexes and interpolation weights place any time between the right steps, and times out of order or duplicated are rejected.',
     ['inputs', 'configurations'], 'all axes, units, calendars of real time, offsets, displacements and origins',
     'the tests have a few offsets and one axis',
     [G + 'time.py'],
     [('Time, Time.from_netCDF, parse_time_offset', G + 'time.py')],
     ['data, min_time, max_time, index_of, interp_alpha, tz_offset'],
     PBT + ' (datetime arithmetic)',
     'random axes, units with and without offsets, displacement, origin; non-trivial: a shift or more than one step',
     'years 1900 to 2100')

prop('C14', 'Derived mesh topology agrees with the faces',
     'Edges, neighbors, boundaries, face-edge connectivity and the coordinates of faces, edges and boundaries derived from the faces of a mesh are those of the polygons: '
     'each edge once, neighbors across each shared edge and none across the others, boundaries exactly the edges of one face, coordinates the mean of the nodes involved. '
     'What was derived goes when that which it was derived from is deleted, and can be derived again.',
     ['inputs'], 'all meshes of triangles or mixed polygons',
     'the tests derive topology for two or three tiny meshes',
     [G + 'pyugrid/ugrid.py'],
     [('build_edges, build_face_face_connectivity, build_boundaries, build_face_edge_connectivity, build_*_coordinates', G + 'pyugrid/ugrid.py')],
     ['edges, face_face_connectivity, boundaries, face_edge_connectivity, *_coordinates'],
     PBT + ' (brute force over the polygons)',
     'random triangular and mixed meshes; non-trivial: more than one face',
     'up to about 50 faces')

prop('C15', 'VerDat boundaries describe the boundary of the mesh',
     'Writing a mesh with depths to a VerDat file lists each boundary node once, polygon by polygon along the boundary, with the other nodes after them, and the coordinates and depths of every node to the digits of the format; '
     'reading such a file gives back the nodes, depths, units and boundary polygons.',
     ['inputs'], 'all meshes whose boundary nodes are on one boundary each, all depths',
     'the tests have one file',
     [G + 'io/verdat.py', G + 'pyugrid/ugrid.py'],
     [('save_verdat, load_verdat, order_boundary_segments', G + 'io/verdat.py')],
     ['the file written', 'return of load_verdat'],
     'property-based round trip, and an independent parser',
     'random meshes (with holes) and depths; non-trivial: more than one boundary or more than 4 nodes',
     'small meshes')

prop('C16', 'Land never leaks into what is located or interpolated',
     'On a curvilinear grid with land masks, of any of the accepted kinds (booleans, arrays that are non-zero on land, netCDF variables whose flags or options name water), or with masked node coordinates, no point in a cell of land is located, or gets an unmasked value, and points in the cells of water are located as without a mask. '
     'Data on an edge between land and water counts as masked. Grids that are all land locate nothing.',
     ['inputs', 'configurations'], 'all masks and points',
     'the tests have one masked file',
     [G + 'pysgrid/sgrid.py', G + 'utilities.py'],
     [('SGrid.build_celltree, locate_faces', G + 'pysgrid/sgrid.py'), ('gen_celltree_mask_from_center_mask', G + 'utilities.py')],
     ['returns of locate_faces, interpolate_var_to_points, gen_celltree_mask_from_center_mask'],
     PBT, 'random grids, masks and points in known cells; non-trivial: both land and water',
     'up to about 49 cells')

prop('C17', 'Points may be given in any documented form, and inputs are never changed',
     'The same points as lists, tuples, arrays of any numeric type, one point or many, with or without depth, row by row or as separate longitudes and latitudes, give the same values, in the order of the points, one row for each. '
     'No array given to the library as points, nodes, faces, data, masks, times or depths is changed by using it.',
     ['inputs', 'configurations'], 'all forms of points and all inputs',
     'the tests pass one or two forms',
     [G + 'variable.py', G + 'utilities.py', G + 'pyugrid/ugrid.py', G + 'pysgrid/sgrid.py', G + 'grids.py'],
     [('_reorganize_spatial_data', G + 'utilities.py'), ('Variable.at', G + 'variable.py')],
     ['returns of at; the arrays the caller passed'],
     'property-based metamorphic testing (form of the input) and before/after comparison',
     'random grids and forms of points; non-trivial: a form other than an N x 2 float array',
     'forms whose shape is ambiguous (2 or 3 on both sides) are row by row')

prop('C18', 'Vector helpers and array helpers keep magnitude, direction and place',
     'Rotating vectors by an angle field keeps their magnitude and turns them by that angle, averaging to cell centers is the mean of the two adjacent values, the sum of vectors is the square root of the sum of squares, '
     'and interval and padding helpers keep the values they are meant to keep, for all shapes.',
     ['inputs'], 'all arrays, angles and shapes',
     'the tests check one small array each',
     [G + 'pysgrid/processing_2d.py', G + 'pysgrid/utils.py', G + 'pyugrid/util.py', G + 'utilities.py'],
     [('rotate_vectors, avg_to_cell_center, vector_sum', G + 'pysgrid/processing_2d.py')],
     ['returns of the helpers'],
     PBT, 'random arrays; non-trivial: more than one element',
     'small arrays')

prop('C19', 'Datasets load every variable that fits and save what they hold',
     'Loading a file as a dataset gives each variable that fits the grid, under its name, with its values, attributes, location, and time axis, and the global attributes of the file. '
     'Saving a dataset and loading it gives the same grid, variables and attributes, with missing values still missing.',
     ['inputs', 'configurations'], 'all datasets on unstructured meshes, data types, fill values and packing',
     'the tests save one small dataset',
     [G + 'gridded.py', G + 'pyugrid/ugrid.py'],
     [('Dataset.from_netCDF, save', G + 'gridded.py')],
     ['Dataset attributes and the netCDF file'],
     'property-based round trip, and an independent reader of the file',
     'random datasets; non-trivial: at least two variables or missing values',
     'small meshes')

prop('C20', 'The depth system and metadata of a file are recognised from what the file says',
     'The vertical coordinate built for a file is the kind its variables describe (terrain-following of either model, fixed levels, or surface only), with the levels, bathymetry and surface height of the file, and a time axis for a variable is the one its dimensions or coordinates name. '
     'A file without a recognisable vertical coordinate gives surface-only depth.',
     ['inputs', 'configurations'], 'all files of the supported conventions',
     'the tests use a few sample files',
     [G + 'depth.py', G + 'time.py', G + 'utilities.py'],
     [('Depth.from_netCDF, _get_depth_type', G + 'depth.py'), ('Time.locate_time_var_from_var', G + 'time.py'), ('search_netcdf_vars, search_dataset_for_any_long_name', G + 'utilities.py')],
     ['Depth.from_netCDF, Variable.from_netCDF'],
     PBT + ' (files written with netCDF4 directly)',
     'random files of each convention; non-trivial: any file with a vertical coordinate',
     'small grids')


prop('C21', 'Plots and inspectors show the grid that is there',
     'Plotting a triangular mesh draws exactly its edges, boundaries, nodes and numbers where they are, and plotting a curvilinear grid draws its lines, leaving out masked nodes, and the sets of points asked for. '
     'The inspector of a mesh file answers a click with the face it is in, its nodes and their places, highlights them, and logs exactly the selections made.',
     ['inputs', 'histories'], 'all meshes and grids, options, and sequences of clicks',
     'the tests only check that plotting does not fail',
     [G + 'plotting/mpl_plotting.py'],
     [('plot_ugrid, plot_sgrid, GridGeoGenerator, PureMatplotlibFVCOMViewer', G + 'plotting/mpl_plotting.py')],
     ['the artists on the axes', 'returns of GridGeoGenerator', 'the log of selections'],
     PBT + ' (segments and marks of the artists against the mesh)',
     'random meshes and masks, files of FVCOM models and sequences of clicks; non-trivial: more than one cell',
     'what is drawn is read from the artists, not from pixels')


prop('C22', 'What the caller gives is used instead of what the file says',
     'When a variable, vector, depth, or grid is made from a file, a name, units, time axis, shift of the times, grid, topology, location, depth, bathymetry, surface height, term, boundary condition or fill value given by the caller is what is used, in the answers too, '
     'while everything not given is that of the file; what the caller gave is not changed. A vector takes what it is not given from its components.',
     ['inputs', 'configurations'], 'all combinations of arguments, for all kinds of grids and files with and without times and depths',
     'the tests pass few of the arguments, one at a time, and check few of the results',
     [G + 'variable.py', G + 'depth.py', G + 'time.py'],
     [('Variable.from_netCDF, VectorVariable.from_netCDF and constructor, Variable.constant', G + 'variable.py'), ('S_Depth.from_netCDF, L_Depth.from_netCDF, Depth.surface_only', G + 'depth.py')],
     ['attributes and values (at) of the objects made'],
     PBT,
     'random files and random subsets of the arguments; non-trivial: more than one argument given',
     'small grids')

prop('C23', 'Input that cannot be right is refused, and what refused it is as before',
     'Input that cannot be right - faces of nodes that do not exist, connectivity, data or times of sizes that do not fit, times out of order, coordinates given twice or by half, unknown names of locations, methods, formats, paddings or grid types, files whose topology is missing, ambiguous or refers to what is not there - '
     'is refused with an error instead of being answered from. After a refused assignment or query the object, all components of a vector, the files and the datasets of the caller are as before and answer as before.',
     ['inputs', 'histories'], 'all kinds of grids, files and variables, and histories of refused assignments, queries and constructions between good queries',
     'the tests raise few of the errors, each once, on a fixed object, and never look at the object after it has refused something',
     [G + 'pyugrid/ugrid.py', G + 'pyugrid/read_netcdf.py', G + 'pysgrid/read_netcdf.py', G + 'pysgrid/sgrid.py', G + 'variable.py', G + 'time.py', G + 'depth.py', G + 'grids.py', G + 'gridded.py'],
     [('setters and constructors of UGrid, Variable, VectorVariable, Time', G + 'variable.py'), ('load_grid_from_nc_dataset, find_grid_topology_var, parse_padding', G + 'pyugrid/read_netcdf.py')],
     ['the error raised', 'attributes and answers of the object after it'],
     PBT,
     'random objects and histories of 1-6 kinds of input that cannot be right, with good queries between them; non-trivial: more than one kind in the history, or a file that is not fine',
     'small grids; errors are looked for where the documentation or the code of the pinned commit promises them')


prop('C24', 'Data is read when it is needed, only where it is, from any array-like',
     'Data, bathymetry and water levels may be any object with dtype, shape, ndim, len and numpy indexing (numpy and masked arrays, netCDF variables, objects of the caller) and give exactly what the same numbers in a numpy array give, on every kind of grid, with and without time and depth, asked through Variable, VectorVariable, Dataset, a depth system or the grid. '
     'How the numbers lie in memory (byte order, order of the dimensions, strides, kind of integers, read-only) makes no difference, for data, coordinates, faces, levels and points alike. Making, describing or collecting these objects reads none of the data, and a query reads only the (at most two) time steps and the levels around what is asked; with load_all the data is read at once instead.',
     ['inputs'], 'all kinds of grids, data with and without time and depth dimensions in either order, all times and points in range, and all array-likes',
     'the tests give numpy arrays and a few netCDF variables, never an object with no more than the documented interface, and cannot see what was read',
     [G + 'variable.py', G + 'utilities.py', G + 'pyugrid/ugrid.py', G + 'pysgrid/sgrid.py', G + 'grids.py', G + 'depth.py', G + 'gridded.py'],
     [('isarraylike, asarraylike', G + 'utilities.py'), ('Variable.data, Variable._time_interp, Variable._depth_interp, Variable.from_netCDF(load_all)', G + 'variable.py'), ('interpolate_var_to_points', G + 'pyugrid/ugrid.py')],
     ['results of at and interpolate_var_to_points', 'the elements that a recording array-like was asked for', 'type of Variable.data'],
     PBT,
     'random grids, times, levels and points with recording array-likes (only the documented interface) or netCDF variables as data; non-trivial: data with a time or depth dimension, for terrain-following depths at least one of bathymetry, water level or data as an array-like',
     'small grids, at most 7 time steps and 6 levels; the horizontal part of a needed step and level may be read as a whole')


prop('C25', 'Comparing and describing objects tells what they hold, and changes nothing',
     'Two meshes, curvilinear grids or time axes compare equal exactly when they are of the same kind and hold the same: nodes, faces and boundaries; coordinates, masks and paddings; or instants and offset. Numbers behind a mask do not count, the order of the two does not matter, and comparing with anything else says unequal. '
     'The description of a grid, time axis, variable, vector or dataset can always be had, and gives the numbers of its parts, its names, units, shape and attributes as they are; comparing and describing change nothing, units are given back as they were set, and each variable has the attributes it was given and those of its own data, no others.',
     ['inputs'], 'all pairs of meshes (of triangles or mixed polygons), curvilinear grids and time axes that differ in one place, and all kinds of objects with a description',
     'the tests compare a handful of fixed grids and never a nearly equal pair, and print a few of the descriptions without looking at them',
     [G + 'pyugrid/ugrid.py', G + 'pysgrid/sgrid.py', G + 'grids.py', G + 'time.py', G + 'variable.py', G + 'gridded.py'],
     [('UGrid.__eq__, UGrid.info', G + 'pyugrid/ugrid.py'), ('SGrid.__eq__, SGrid.info', G + 'pysgrid/sgrid.py'), ('Time.__eq__, Time.info', G + 'time.py'), ('Variable.info, VectorVariable.units', G + 'variable.py'), ('Dataset.info, get_variables_by_attribute', G + 'gridded.py')],
     ['results of == and !=, info, str, repr and units', 'the arrays held before and after'],
     PBT,
     'random objects and a copy with at most one change (down to the last digit of one coordinate, one winding, one instant by a microsecond); non-trivial: something changed, mixed polygons, missing coordinates, or data with times',
     'small grids; edge coordinates and derived parts are not compared by the library, and not asked for')


def main():
    import importlib.util  # noqa
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith('c') and f.endswith('.py')}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid in sorted(P):
            f.write(json.dumps(P[pid]['prop']) + '\n')
    checks, na = [], []
    for pid in sorted(P):
        if pid in have:
            checks.append(dict(property=pid, quick_cmd='./check.sh %s quick' % pid, thorough_cmd='./check.sh %s thorough' % pid,
                               technique=P[pid]['technique'], level='exploration', level_note=P[pid]['note'],
                               evidence_file='evidence/%s.json' % pid))
        else:
            na.append(dict(property=pid, reason='the check is not built yet'))
    man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: the checks only use what the library offers to its callers.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    with open(os.path.join(HERE, 'checks', 'meta.json'), 'w') as f:
        json.dump({k: dict(rule=v['rule'], assumptions=v['assumptions'] + [v['note']]) for k, v in sorted(P.items())}, f, indent=1)
        f.write('\n')


main()
