"""Writes /verif/properties.jsonl (the list below is the source of truth)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}))))

prop("C01", "Time lookup brackets the query and weights it linearly",
 "For every ascending time axis and every query time inside its range, the lookup index names the pair of consecutive times that enclose the query, and the weight is the query's exact fractional position between that pair, in [0, 1]. "
 "A query outside the range is refused with a range error unless extrapolation is asked for, in which case the weight saturates at 0 before the first time and at 1 after the last. "
 "A one-element axis accepts every query, with index 0 and weight 0.",
 ["inputs"], "every strictly ascending axis of bounded length and every query instant, with extrapolation on or off",
 "The tests query a few instants on a few fixed axes; equality with an axis point, the neighbourhood of both ends and uneven spacing are sampled, not covered.",
 ["gridded/time.py"],
 [("binary search into the axis and range check", "gridded/time.py: Time.index_of, valid_time, time_in_bounds"), ("weight", "gridded/time.py: Time.interp_alpha")],
 ["Time.index_of", "Time.interp_alpha", "Time.time_in_bounds"])

prop("C02", "Time axes: shifts are exact, bad axes are refused, callers keep their data",
 "A time axis built from any ascending sequence holds exactly those times moved by the sum of the requested shifts (new start time, change of timezone offset, displacement), with all spacings preserved, and moving the timezone offset there and back restores it. "
 "A sequence that is out of order or has duplicates is refused, as is a timezone change from an unknown offset. "
 "Neither construction nor any later shift changes the sequence, array or other time axis the caller passed in.",
 ["inputs", "histories"], "every sequence of bounded length, all combinations of the shift options, and later changes of the timezone offset",
 "Tests use fixed series and one option at a time, and never look at the caller's array afterwards.",
 ["gridded/time.py"],
 [("constructor shifts and validation", "gridded/time.py: Time.__init__"), ("timezone change", "gridded/time.py: Time.tz_offset setter"), ("displacement", "gridded/time.py: Time.displacement setter")],
 ["Time(...)", "Time.tz_offset", "Time.data"])

prop("C03", "Timezone offsets are written as the right signed hours and minutes",
 "For every timezone offset that is a whole number of minutes, the text form of the offset has the offset's sign, two-digit hours and two-digit minutes, and denotes exactly that number of minutes. "
 "An unknown offset has an empty text form.",
 ["inputs"], "every whole-minute offset in (-24 h, 24 h), given in hours as the nearest double",
 "Only a handful of round offsets are tested; the binary rounding of minutes/60 is what goes wrong.",
 ["gridded/time.py"], [("formatting", "gridded/time.py: offset_as_iso_string")], ["offset_as_iso_string", "Time.from_netCDF tz_offset_name"])

prop("C04", "Variable values in time are linear between the stored time steps",
 "For a variable on any grid, the value returned for a query time equals the linear combination, by fractional position, of the values spatially interpolated at the two time steps enclosing the query; at a stored time it equals that time step's value. "
 "When extrapolating, queries before the first or after the last step return the first or last step; without extrapolation they are refused. "
 "A variable with a single time step returns it for every query.",
 ["inputs"], "every field, axis of bounded length, query instant and point position",
 "Tests use analytic fields on fixed axes, so a wrong pairing of steps or a swapped weight survives at untested instants.",
 ["gridded/variable.py", "gridded/time.py"],
 [("recursive interpolation over time", "gridded/variable.py: Variable._time_interp"), ("dimension order dispatch", "gridded/variable.py: Variable.at, _xy_interp")], ["Variable.at"])

prop("C05", "Unstructured-mesh interpolation is barycentric inside and zero outside",
 "On a triangular mesh, a node variable at a point inside a triangle is the barycentric combination of that triangle's own three node values (weights non-negative, summing to one, reproducing the point), and a face variable is that face's value. "
 "At points in no face both give zero (missing values in the data included), and each point of a batch gets the value it would get alone. "
 "The vertex values, the order of a triangle's vertices and the numbering of faces do not change the result.",
 ["inputs"], "every non-degenerate triangle geometry, value field and point position for small meshes",
 "Tests check a few points of one sample mesh.",
 ["gridded/pyugrid/ugrid.py", "gridded/pyugrid/util.py"],
 [("barycentric weights", "gridded/pyugrid/ugrid.py: UGrid.interpolation_alphas"), ("weighted sum and outside handling", "gridded/pyugrid/ugrid.py: UGrid.interpolate_var_to_points")],
 ["UGrid.interpolate_var_to_points", "Variable.at"])

prop("C06", "Structured-grid interpolation uses the four corners of the enclosing cell",
 "On a curvilinear grid, a node variable at a point in a cell is the bilinear combination of the cell's four node values in the cell's own logical coordinates (a masked node value counts as zero): exact at the corners, reproducing every field that is linear in position, and between the smallest and largest corner value. "
 "Edge variables are linear between the cell's two facing edges and center variables are the cell's value, all independently of how the variable is padded and of the other points in the batch. "
 "Points in no cell, and points whose edge or center value is masked, come back masked, or with the fill value if that is asked for, whatever the other points are.",
 ["inputs", "configurations"], "every cell geometry of a convex quadrilateral grid, every field, mask and padding, point positions inside and outside",
 "Tests use axis-aligned grids with constant or linear fields.",
 ["gridded/pysgrid/sgrid.py"],
 [("logical coordinates", "gridded/pysgrid/sgrid.py: SGrid.geo_to_logical, x_to_l"), ("interpolants", "gridded/pysgrid/sgrid.py: SGrid.interpolate_var_to_points, compute_interpolant"), ("padding-aware gather", "gridded/pysgrid/sgrid.py: SGrid.get_variable_by_index")],
 ["SGrid.interpolate_var_to_points"])

prop("C07", "Rectilinear grids locate and interpolate the right cell in either orientation",
 "On a rectilinear grid whose coordinate axes each run up or down, a point inside the grid is located in the cell whose coordinate intervals contain it, and a node variable there is the bilinear interpolation of that cell's four corners, missing values counting as zero. "
 "Points outside the grid are reported as such and get the outside value. "
 "Reversing an axis together with the data changes nothing.",
 ["inputs", "configurations"], "every strictly monotonic pair of axes of bounded length, both directions, every field and point",
 "Tests use one ascending sample grid.",
 ["gridded/grids.py"],
 [("cell location", "gridded/grids.py: Grid_R.locate_faces"), ("interpolation", "gridded/grids.py: Grid_R.interpolate_var_to_points")], ["Grid_R.locate_faces", "Grid_R.interpolate_var_to_points"])

prop("C08", "Structured-grid cell location returns the enclosing unmasked cell",
 "For a point strictly inside one cell of a curvilinear grid, cell location returns that cell's (row, column) index, and for a point in no cell the no-cell marker; nearest-node lookup, where offered, names the nearest node. "
 "When masks are in use, masked cells (those masked by the center mask, or without one those touching a masked node) are never returned and every other cell is still returned under its own index. "
 "A query for one point and a batch query agree, whether first or repeated, and the caller's points are unchanged.",
 ["inputs", "configurations"], "every cell-mask pattern on small grids and every enclosing cell, for single and batch queries",
 "Tests have two or three hand-made masks.",
 ["gridded/pysgrid/sgrid.py"],
 [("cell polygons and index mapping", "gridded/pysgrid/sgrid.py: SGrid.build_celltree"), ("lookup", "gridded/pysgrid/sgrid.py: SGrid.locate_faces")], ["SGrid.locate_faces"])

prop("C09", "Unstructured face location finds the face that contains each point",
 "For every mesh of triangles and convex larger faces and every point not on an edge, face location returns a face that contains the point, or the no-face marker when there is none, whichever lookup method is used and whichever way the faces wind. "
 "A single point gives a single answer and a batch gives one answer per point, the first time and on every repetition. "
 "Locating never changes the caller's points.",
 ["inputs", "histories"], "every non-degenerate mesh of a few triangles and every point, both lookup methods, repeated queries",
 "Tests use one mesh and a few points.",
 ["gridded/pyugrid/ugrid.py", "gridded/pyugrid/util.py"],
 [("lookup", "gridded/pyugrid/ugrid.py: UGrid.locate_faces"), ("point in triangle", "gridded/pyugrid/util.py: point_in_tri")], ["UGrid.locate_faces"])

prop("C10", "Memoised results never differ from freshly computed ones",
 "For every sequence of queries to variables, vector variables and grids, the answer to a query is the same whether result caching is on, off, warm or cold, i.e. it depends only on the query's own points, time and options and on the data, time axis, layout and rules the object holds at that moment (replaced as a whole, not edited in place). "
 "Changing what a variable returned does not change later answers, nor does changing what a grid returned when copies were asked for.",
 ["histories", "inputs"], "all histories of a few queries with arbitrary points, times and options, with data changes in between",
 "Tests make single calls; stale or colliding cache entries need a history.",
 ["gridded/variable.py", "gridded/pyugrid/ugrid.py", "gridded/pysgrid/sgrid.py", "gridded/utilities.py"],
 [("result caches", "gridded/variable.py: _memoize_result/_get_memoed"), ("grid caches", "gridded/pyugrid/ugrid.py and gridded/pysgrid/sgrid.py: _add_memo/_get_memoed"), ("cache key", "gridded/*: _hash_of_pts")], ["Variable.at", "VectorVariable.at", "UGrid.locate_faces", "SGrid.locate_faces"])

prop("C11", "Level depths: bracketing levels, weights and boundary rules",
 "For every strictly monotonic list of depth levels, in either order, and every query depth strictly between the first and last level, depth lookup returns the adjacent pair of levels enclosing the query and the query's fractional position between them; levels read from a file are used as they are, except that the shallowest is placed at the surface. "
 "Queries above the shallowest or below the deepest level are flagged, and masked or clamped according to the chosen surface and bottom rules. "
 "A batch gives each point its own answer.",
 ["inputs", "configurations"], "every monotonic level list of bounded length, every query depth, every boundary rule",
 "Tests use one level list.",
 ["gridded/depth.py"], [("lookup", "gridded/depth.py: L_Depth.interpolation_alphas")], ["L_Depth.interpolation_alphas"])

prop("C12", "Terrain-following depths: profiles from bathymetry, brackets and weights",
 "The depth profile of a terrain-following coordinate at any point and time follows the coordinate's defining formula applied to the interpolated bathymetry and surface elevation, so that its ends are the sea floor and the sea surface. "
 "A query depth between two adjacent profile depths gets that pair and its fractional position between them, for either vertical ordering. "
 "Queries above the surface or below the floor are masked or clamped according to the chosen rules.",
 ["inputs", "configurations"], "every bathymetry, surface elevation, stretching curve and query depth, for both supported terrain-following families",
 "Tests use constant bathymetry and a few depths.",
 ["gridded/depth.py"],
 [("lookup", "gridded/depth.py: S_Depth.interpolation_alphas"), ("profiles", "gridded/depth.py: ROMS_Depth.get_transect/FVCOM_Depth")], ["S_Depth.interpolation_alphas", "ROMS_Depth", "FVCOM_Depth"])

prop("C13", "Values at depth combine the two enclosing levels with the depth weights",
 "For a variable with a depth dimension, the value at a query point equals the horizontally interpolated values of the two levels enclosing the query depth combined by the depth's fractional position, whatever the other points of the batch are. "
 "Points above the surface or below the bottom get the clamped level's value or are masked, following the rule given with the query, else the variable's, else its depth coordinate's. "
 "Cell-layer data use the layer that contains the point.",
 ["inputs"], "every field, level list, batch of query points and boundary rule",
 "Tests use depth-linear analytic fields where pairing the wrong levels is invisible.",
 ["gridded/variable.py", "gridded/depth.py"], [("recursion over depth", "gridded/variable.py: Variable._depth_interp")], ["Variable.at"])

prop("C14", "Mesh topology derived from faces is complete and consistent",
 "For every mesh in which an edge belongs to at most two faces, the derived edge list contains each pair of consecutive face vertices exactly once and nothing else; two faces are listed as neighbours exactly when they share an edge, each under that edge's position; boundary segments are exactly the edges belonging to one face; face-to-edge links name the edge joining the face's consecutive vertices, and are masked where the mesh lists no such edge. "
 "Derived face, edge and boundary coordinates are the means of their nodes' coordinates, and replacing the faces drops everything derived from the old ones. "
 "Trailing unused vertices (masked or -1) of mixed triangle and quadrilateral meshes take no part.",
 ["inputs"], "every small mesh of triangles, quadrilaterals or both, arbitrary vertex numbering and winding",
 "Tests check two small fixed meshes.",
 ["gridded/pyugrid/ugrid.py"],
 [("topology builders", "gridded/pyugrid/ugrid.py: build_edges, build_face_face_connectivity, build_boundaries, build_face_edge_connectivity"), ("centroids", "gridded/pyugrid/ugrid.py: build_face_coordinates, build_edge_coordinates, build_boundary_coordinates")],
 ["UGrid.edges", "UGrid.face_face_connectivity", "UGrid.boundaries", "UGrid.face_coordinates"])

prop("C15", "Unstructured files: index base, order and missing values are normalised",
 "However an unstructured mesh is stored - indices counted from 0 or 1, declared or (when the last node is in use) not, vertices along the first or the last dimension (undeclared when the shape tells), unused vertices marked by a fill value, flag value or negative number - loading it yields the same mesh with 0-based indices and unused vertices masked or -1. "
 "Face indices that refer to no node are refused, never silently accepted as other nodes, and the caller's arrays stay as they were.",
 ["inputs", "configurations"], "every connectivity of bounded size in every supported storage convention",
 "Tests load a few sample files, each in one convention.",
 ["gridded/pyugrid/read_netcdf.py", "gridded/pyugrid/ugrid.py"],
 [("loader", "gridded/pyugrid/read_netcdf.py: load_grid_from_nc_dataset"), ("face normalisation", "gridded/pyugrid/ugrid.py: UGrid.faces setter")], ["UGrid.from_nc_dataset", "UGrid.faces"])

prop("C16", "Saving and reloading an unstructured mesh loses nothing",
 "For every mesh with any combination of faces, edges, boundaries, their coordinates, connectivity and data variables with one value per node, face, edge or boundary segment, saving to a file and loading it back yields equal nodes, connectivity arrays, coordinates, variable values, locations and attributes. "
 "The written file refers only to variables it contains, identifies its coordinates and tables by the standard names, units and roles of the conventions, and is in the format asked for.",
 ["inputs", "configurations"], "every mesh of bounded size, every subset of the optional parts",
 "Tests save one mesh with one subset of the parts.",
 ["gridded/pyugrid/ugrid.py", "gridded/pyugrid/read_netcdf.py", "gridded/pyugrid/uvar.py"],
 [("writer", "gridded/pyugrid/ugrid.py: UGrid.save, _save_variables"), ("reader", "gridded/pyugrid/read_netcdf.py: load_grid_from_nc_dataset")], ["UGrid.save_as_netcdf", "UGrid.from_ncfile"])

prop("C17", "Structured-grid padding and metadata survive parsing, saving and loading",
 "Parsing the dimension strings of a structured-grid topology recovers every face-node pair and its padding whatever the spacing, and the slices derived from a padding select exactly the unpadded elements of the array dimensions it was declared for. "
 "Saving a structured grid and loading it back yields the same dimensions, paddings, node, center and edge coordinates, angles and masks, and the same variables with their locations (not their data values). "
 "Topologies without the optional vertical dimensions or center coordinates are accepted.",
 ["inputs", "configurations"], "every padding combination and every grid of bounded size",
 "Tests have one file per padding style.",
 ["gridded/pysgrid/read_netcdf.py", "gridded/pysgrid/utils.py", "gridded/pysgrid/lookup.py", "gridded/pysgrid/variables.py", "gridded/pysgrid/sgrid.py"],
 [("parsing", "gridded/pysgrid/read_netcdf.py: parse_padding"), ("slices", "gridded/pysgrid/utils.py: determine_variable_slicing; lookup.py")], ["parse_padding", "SGrid.save_as_netcdf"])

prop("C18", "Land and water masks are read with the right polarity",
 "For every flag-valued mask variable, a cell is treated as masked exactly when its flag denotes land (no kind of water, lake or river) or none of the declared meanings, or its value is missing, whichever of the supported conventions the file's attributes declare; a mask without flag attributes masks where it is nonzero. "
 "Converting never changes the shape or the source data.",
 ["inputs", "configurations"], "every mask array of bounded size and every declared convention",
 "Tests cover three fixed masks.",
 ["gridded/utilities.py"], [("conversion", "gridded/utilities.py: gen_celltree_mask_from_center_mask / convert_mask_to_numpy_mask")], ["convert_mask_to_numpy_mask"])

prop("C19", "Point lists in any accepted form reach interpolation unchanged",
 "A single point, a list or array of points, and coordinate rows of four or more points, with or without depth and of any numeric type, are turned into the same array of points, without changing the caller's object; small square inputs are taken as one point per row. "
 "Results come back one per input point, in input order, and aligning results to the points preserves every value. "
 "Input that is neither a point nor a list of points is refused with an error instead of giving values.",
 ["inputs"], "every accepted input form and bounded number of points",
 "Tests try one or two forms.",
 ["gridded/utilities.py", "gridded/variable.py"], [("normalisation", "gridded/utilities.py: _reorganize_spatial_data, _align_results_to_spatial_data")], ["Variable.at"])

prop("C20", "Verdat files: boundaries are closed loops in order and round trip",
 "For every set of disjoint simple closed boundaries given as segments in any order and direction, ordering yields each boundary once as a consecutive closed chain of its own points, and chains that do not close are reported separately. "
 "Writing a mesh's points and boundaries to a verdat file and reading it back yields the same points to six decimals, depths to three decimals, units and boundaries, where the points may be reordered with boundary points first.",
 ["inputs"], "every permutation and orientation of segments of small boundary sets, every depth value",
 "Tests use one fixed file.",
 ["gridded/io/verdat.py"], [("ordering", "gridded/io/verdat.py: order_boundary_segments"), ("reader and writer", "gridded/io/verdat.py: load_verdat, save_verdat")], ["load_verdat", "save_verdat"])

prop("C21", "A variable's location on the grid is inferred from its shape",
 "A variable is assigned the location whose size its horizontal dimensions match (leading time or depth dimensions are ignored): on a mesh the last dimension against the number of nodes, faces and boundary segments; on structured and rectangular grids the last two against the nodes' shape for nodes, one more or less in both dimensions for centers, and one more in a single dimension for the two kinds of edge. "
 "A valid location attribute is kept, and an unknown one is ignored. "
 "A shape that matches none gives no location, and inference never fails for any shape.",
 ["inputs", "configurations"], "every grid size and variable shape in bounds, for each grid type",
 "Tests check two shapes per grid.",
 ["gridded/pyugrid/ugrid.py", "gridded/pysgrid/sgrid.py", "gridded/grids.py"], [("inference", "infer_location of UGrid, SGrid and Grid_R")], ["infer_location"])

prop("C22", "Vector and averaging helpers are exact",
 "Averaging to cell centers yields the mean of each adjacent pair, rotation preserves vector length and turns by the given angle and rotating back restores the vectors, and vector magnitude is the Euclidean length. "
 "A vector variable's value is the column-wise combination of its components' values at the same points and time, with the components' units; a constant variable has its one value at every point and time.",
 ["inputs"], "every array of bounded size and every angle",
 "Tests compare one fixed array.",
 ["gridded/pysgrid/processing_2d.py", "gridded/variable.py", "gridded/utilities.py"], [("helpers", "gridded/pysgrid/processing_2d.py"), ("vector variables", "gridded/variable.py: VectorVariable.at")], ["avg_to_cell_center", "rotate_vectors", "vector_sum", "VectorVariable.at"])

prop("C23", "Times read from files are the instants the file states",
 "For every time variable of a file (numbers with units of the form 'unit since reference', with or without a timezone offset in the reference), the times made from it are the file's clock readings: the reference's clock reading plus value times unit, exactly, and the timezone offset recorded is the one the reference states. "
 "An offset given by the caller, or a request for naive times, takes precedence over the file's; a new timezone, a displacement or an origin asked for moves every time alike. "
 "Whether the times are found by name, through the variable they belong to, or while loading a variable makes no difference.",
 ["inputs", "configurations"], "every value of the file's times and every spelling of unit and offset in bounds",
 "Tests read one or two files without an offset, or with a single one.",
 ["gridded/time.py", "gridded/variable.py"], [("reading", "gridded/time.py: Time.from_netCDF, parse_time_offset"), ("locating", "gridded/time.py: Time.locate_time_var_from_var"), ("variables", "gridded/variable.py: Variable.from_netCDF, VectorVariable.from_netCDF")], ["Time.from_netCDF", "Variable.from_netCDF"])

prop("C24", "Grids read from files have the file's coordinates, faces and type",
 "For every file that describes a grid (by the UGRID or SGRID conventions, by a grid_type attribute, by one of the documented default names in any case, through a topology mapping given by the caller, whatever the case of the names in it, or by variable names given to load_from_varnames), the grid made from it has the stated type and exactly the file's node and center coordinates, masks and faces (zero-based, whatever the file's base and orientation). "
 "A variable named in a topology mapping takes precedence over defaults; for structured grids the coordinate variables of each location are the ones whose attributes and dimensions say so, in any order of declaration. "
 "A file without a recognisable grid is refused with an error.",
 ["inputs", "configurations"], "every coordinate and connectivity value of grids of bounded size, over many naming schemes and declaration orders",
 "Tests read a few fixed files with one naming scheme each.",
 ["gridded/grids.py", "gridded/pysgrid/sgrid.py", "gridded/pysgrid/read_netcdf.py"], [("loading", "gridded/grids.py: Grid.from_netCDF, _get_grid_type, _find_required_grid_attrs of Grid_U, Grid_S and Grid_R"), ("coordinates", "gridded/pysgrid/read_netcdf.py: find_node_coordinates, find_coordinates_by_location; sgrid.py: SGridAttributes")], ["Grid.from_netCDF"])

prop("C25", "Depth coordinates read from files are the ones the file states",
 "For every file with one depth coordinate system (ROMS, FVCOM or fixed levels, its terms under the documented names or, failing that, the documented long or standard names), the depth object made from it has that type and exactly the file's terms, number of levels and layers and surface and bottom level. "
 "Bathymetry and free surface are the file's at the nodes, or the mean of the four surrounding cells (masked where one is) when the file has them at cell centers; a file without a free surface gets a flat one at zero; fixed levels have the one nearest the surface at zero. "
 "What the caller gives (bathymetry, free surface, time, terms or the names of their variables, rules for points beyond the column, surface index) takes precedence and is not changed. "
 "Two systems in one file are refused with an error, and none gives the surface only.",
 ["inputs", "configurations"], "every value of the terms, bathymetry and free surface on grids of bounded size, over naming schemes and declaration orders",
 "Tests read one file per system.",
 ["gridded/depth.py", "gridded/utilities.py"], [("detection", "gridded/depth.py: Depth.from_netCDF, _can_create_from_netCDF"), ("loading", "gridded/depth.py: S_Depth.from_netCDF, L_Depth.from_netCDF, DepthBase.from_netCDF"), ("search", "gridded/utilities.py: search_netcdf_vars")], ["Depth.from_netCDF"])

prop("C26", "Variables and datasets read from files hold the file's data, however they are opened",
 "A variable, vector or dataset read from a file has exactly the file's values, missing entries, units, attributes, locations and times, whether it is read lazily or at once, by file name, path, open dataset, separate data and grid files (which take precedence over the default file name) or as a series of files joined in time; "
 "what the caller gives (units, name, location, fill value, grid, topology) takes precedence. Missing results come back as the fill value if unmasked results are asked for. "
 "Values at points are the same for lazily read data as for the same data in memory. "
 "Without a name from the caller, the variable read is the one with a default name of the class, or else the one whose standard or long name the class lists; if there is none an error is raised. "
 "A variable's data and times can be replaced by others of fitting length, and mismatched ones are refused.",
 ["inputs", "configurations"], "every value of variables on grids of bounded size, over ways to open a file, locations, dimensions and types",
 "Tests read a few fixed files in one way each.",
 ["gridded/variable.py", "gridded/gridded.py", "gridded/utilities.py"], [("variables", "gridded/variable.py: Variable.from_netCDF, VectorVariable.from_netCDF, _gen_varname, _gen_varnames"), ("datasets", "gridded/gridded.py: Dataset._init_from_netCDF, _variables_from_netCDF"), ("files", "gridded/utilities.py: get_dataset, parse_filename_dataset_args")], ["Variable.from_netCDF", "Dataset.from_netCDF"])

prop("C27", "The variables attached to a grid read as the data they hold",
 "Reading a UVar, a UMVar (group of variables) or an SGridVariable at any index gives the data's values, and missing values, at exactly that index: whatever was read before, and whether the data are in memory or in a file. "
 "Data that were replaced, deleted or changed in place, and variables added to a group, are seen by the next read; changing a result does not change what later reads give. "
 "Shape and extremes are those of the data (missing values left out); attributes are those given and those of the file variable, and the caller's are not changed; a group takes only variables of one shape with different names.",
 ["inputs", "histories"], "every value of small data sets and every sequence of a few operations, over kinds of index and sources of data",
 "Tests read a handful of fixed values once.",
 ["gridded/pyugrid/uvar.py", "gridded/pysgrid/variables.py"], [("UGRID variables", "gridded/pyugrid/uvar.py: UVar, UMVar"), ("SGRID variables", "gridded/pysgrid/variables.py: SGridVariable.__getitem__, max, min")], ["UVar.__getitem__", "SGridVariable.__getitem__"])

prop("C28", "Equality of grids and time series is equality of what they hold",
 "Two meshes are equal exactly when they are of the same class and have the same nodes, faces and boundaries; two curvilinear grids when they are of the same class with the same node and center coordinates, masks and padding; two time series when they have the same instants and offset. "
 "Missing entries count, and what lies under a mask does not. == answers True or False, is symmetric, and != is its opposite; something of another kind is never equal.",
 ["inputs"], "every pair of small grids or time series, over which parts they have",
 "Tests compare a few fixed grids.",
 ["gridded/pyugrid/ugrid.py", "gridded/pysgrid/sgrid.py", "gridded/time.py"], [("meshes", "gridded/pyugrid/ugrid.py: UGrid.__eq__"), ("curvilinear grids", "gridded/pysgrid/sgrid.py: SGrid.__eq__"), ("times", "gridded/time.py: Time.__eq__")], ["UGrid.__eq__", "SGrid.__eq__", "Time.__eq__"])

prop("C29", "Plots and the mesh inspector show the grid they are given",
 "plot_ugrid draws exactly the triangles of a triangular mesh at the coordinates of its nodes, whatever the number of faces; with the options, it marks every node, labels every node and every face (at the given face coordinates, or else at the mean of its nodes) with its own index, and draws each boundary between its two nodes. "
 "plot_sgrid draws every row and column of a curvilinear grid as one line through its nodes, within the limits it sets, and marks every node when asked. "
 "The FVCOM inspector reads the faces of the file, shows longitudes above 180 as negative ones, gives every edge once, and an extent that is that of the nodes widened by the margin; a left click inside a face selects that face, its nodes and their shown positions, in either longitude convention of the file, highlights and labels that face alone, and appends one row with exactly these to the table beside the file, which each session starts afresh; a click outside the mesh, off the axes or with another button selects and records nothing.",
 ["inputs", "histories"], "every small grid and set of options; every position and sequence of clicks",
 "The tests only see that drawing does not fail.",
 ["gridded/plotting/mpl_plotting.py"], [("grids", "gridded/plotting/mpl_plotting.py: plot_ugrid, plot_sgrid"), ("inspector", "gridded/plotting/mpl_plotting.py: GridGeoGenerator, PureMatplotlibFVCOMViewer")], ["the axes drawn on", "fvcom_index_query", "the table of selected cells"])

prop("C30", "Points are told inside or outside of polygons by the outline alone",
 "For every batch of points, each with its own polygon, points_in_polys says of every point whether it lies inside of its polygon (a ray from it crosses the outline an odd number of times), whichever corner the outline starts with and whichever way it runs, for convex, concave and self-crossing polygons. "
 "Giving the coordinates together or apart, as plain or masked arrays, makes no difference; neither do the other points and polygons of the batch, and what the caller passed in is not changed.",
 ["inputs"], "every position of the point and every triangle; polygons of four and five corners with moving corners",
 "Tests use one rectangle and one quadrilateral.",
 ["gridded/pysgrid/utils.py"], [("crossing rule", "gridded/pysgrid/utils.py: points_in_polys")], ["points_in_polys"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
