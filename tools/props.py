"""The properties (source of properties.jsonl and MANIFEST.json)."""
VG = "value-graph (gated SSA) dataflow over the whole package: "
IX = "symbolic index-function domain (array shapes as polynomials in free sizes, elements as functions of their position) over the value graph: "
TRUST = ("Trusts the tables of numpy/pyvista behaviour in pvstatic/extmodel.py; constructs the analysis cannot "
         "follow are counted as undecided in the evidence and stay silent.")
U = "pvgridder/utils/"
K = "pvgridder/core/"

PROPS = [
 dict(id="C01", title="Calls never modify the meshes and arrays the caller passes in",
  statement="No public function, shape, or builder method changes a mesh, array or list given to it as an argument: "
   "coordinates, connectivity, data arrays and user data are the same after the call as before. This also holds when the "
   "call ends with an exception. The only exceptions are an explicitly requested in-place remap and the plotter of an interactive session.",
  over=["inputs", "histories"], forall="every public call, every argument, every mesh type and every exit (return or exception)",
  why="Tests compare results, and only for some inputs do they look at the argument afterwards; aliasing shows up only for particular mesh types, dtypes or exception exits.",
  files=[U + "_misc.py", U + "_properties.py", K + "_base.py", K + "stack.py", K + "extrude.py", K + "voronoi.py", K + "geometric_objects.py"],
  mech=[("defensive copies before in-place edits", K + "_base.py, " + K + "voronoi.py, " + K + "geometric_objects.py"), ("ghost marks removed from a copy or restored", U + "_misc.py, " + U + "_properties.py")],
  technique=VG + "interprocedural effect and alias analysis",
  note="Every write reached from every public entry point is traced to the storage it may touch; reports writes that certainly reach caller storage. " + TRUST),
 dict(id="C02", title="Generating a mesh leaves the builder as it was",
  statement="Calling a builder's generate method does not change the builder: its base mesh, its items and their options are the same afterwards. "
   "Generating twice, or generating, adding more items and generating again, gives the same mesh as doing it once from scratch.",
  over=["histories", "inputs"], forall="every builder, every sequence of add calls, every generate option",
  why="Tests generate once per builder; a second generation after mutation of stored state is never compared.",
  files=[K + "_base.py", K + "extrude.py", K + "merge.py", K + "voronoi.py", K + "stack.py"],
  mech=[("working copies of stored items", K + "_base.py, " + K + "extrude.py, " + K + "merge.py")],
  technique=VG + "effect analysis of generate against storage reachable from the builder",
  note="Writes performed during generation are checked against everything reachable from the builder and against module state. " + TRUST),
 dict(id="C03", title="Builders own what they store; later edits by the caller do not leak in",
  statement="After a mesh or array has been given to a builder, changing it in place does not affect the builder or the meshes it generates, and editing a generated mesh does not affect the builder.",
  over=["histories", "inputs"], forall="every builder, constructor and add method, every accepted mesh or array argument",
  why="Tests never edit an argument between adding it and generating; sharing depends on the mesh type and on which cast or copy happens.",
  files=[K + "_base.py", K + "extrude.py", K + "merge.py", K + "voronoi.py", K + "stack.py"],
  mech=[("deep copies at the builder boundary", K + "_base.py, " + K + "extrude.py, " + K + "merge.py, " + K + "voronoi.py")],
  technique=VG + "escape and ownership analysis of stored values",
  note="Every value reachable from the builder after each add method is checked not to alias caller storage. " + TRUST),
 dict(id="C04", title="Inactive cells are never lost by queries and extraction",
  statement="Cell centers, neighborhood, connectivity, face/edge extraction (with ghost cells kept) and cell extraction take every cell of the mesh into account even when some cells are marked inactive. "
   "Extracted cells carry the inactive mark of the cell they come from.",
  over=["inputs"], forall="every mesh with any pattern of inactive marks, every index selection",
  why="VTK silently drops marked cells in many filters; tests exercise few marked meshes and no inverted or reordered selections.",
  files=[U + "_misc.py", U + "_properties.py", U + "_connectivity.py"],
  mech=[("marks hidden around filters that drop cells", U + "_misc.py, " + U + "_properties.py"), ("marks re-attached by original cell ids", U + "_misc.py")],
  technique=VG + "typestate of the inactive marks at every cell-dropping filter call",
  note="All filter calls reached from the query functions are checked with the marks' presence as typestate. " + TRUST),
 dict(id="C05", title="The external mesher session is always closed",
  statement="Whatever happens while a polygon is meshed (success, invalid option, failure inside the mesher), the mesher session is closed when the call ends, and it is only used while it is open.",
  over=["fault_sequences", "inputs"], forall="every call that meshes, every point at which the mesher or the conversion can fail",
  why="Tests only exercise successful meshing; failures at each mesher call are not injected.",
  files=[K + "geometric_objects.py"],
  mech=[("initialise/finalise around meshing", K + "geometric_objects.py: Polygon")],
  technique=VG + "typestate of the mesher session on all normal and exceptional exits",
  note="Every external call inside the session is assumed able to raise. clear and finalize are assumed not to raise. " + TRUST),
 dict(id="C06", title="Option names: documented values work and differ, anything else is rejected",
  statement="For every option with a fixed set of names (subdivision methods, planes, cell types, mesher engines and optimisations, preferences, orientations, extrapolation and cell-center methods), "
   "each documented name is accepted, two different names never mean the same thing, a name is never the same as leaving the option out (except the documented default 'constant'), and any other string is rejected with an error "
   "instead of falling through to some behaviour.",
  over=["inputs"], forall="every public function and builder method, every option declared with a fixed set of names, every string",
  why="Tests use a few valid names; the set of invalid strings is unbounded, and near misses (prefixes, other case) are not tried.",
  files=[K + "_helpers.py", K + "geometric_objects.py", K + "_base.py", K + "voronoi.py", K + "extrude.py", U + "_properties.py", U + "_interactive.py"],
  mech=[("explicit branches per name with a rejecting fall-through", K + "_helpers.py: resolution_to_perc, generate_surface_from_two_lines"), ("validation of enumerated options", K + "voronoi.py, " + U + "_properties.py, " + U + "_interactive.py")],
  technique=VG + "exhaustive case analysis of each declared option set plus an unknown string",
  note="The graph of every call is computed per documented name, for near misses and for an arbitrary unknown string; names handed to an external library are that library's to reject. " + TRUST),
 dict(id="C07", title="Extruded meshes carry the data of the base point or cell they stand on",
  statement="Extruding a line (StructuredSurface, all six planes) or a surface (Volume; structured in any orientation or unstructured) carries every point and cell data array of the first line/surface over: "
   "each point of the result has the data of the base point below it and each cell that of the base cell below it, whatever the number of cells, the subdivision and the number of components.",
  over=["inputs"], forall="every base mesh size and orientation, every plane, integer and array resolutions, scalar and multi-component arrays",
  why="Tests compare a few meshes with symmetric or uniform data; a wrong memory order only shows for particular planes, axes or component counts.",
  files=[K + "_helpers.py"],
  mech=[("data repetition in mesh order", K + "_helpers.py: repeat_structured_data, generate_surface_from_two_lines, generate_volume_from_two_surfaces")],
  technique=IX + "row taken by every carried array compared with the base entity below",
  note="All sizes are symbolic, so each scene covers all meshes of its kind. Lines are taken with one cell per segment. " + TRUST),
 dict(id="C08", title="LayerId, ColumnId and item numbers agree with the cells they are written on",
  statement="In meshes generated by MeshStack2D, MeshStack3D and MeshExtrude, LayerId counts the layers along the extrusion starting at 0 in the first item and running on through the following ones, "
   "ColumnId is the number of the base cell the cell stands on, and StackItem/ExtrudeItem is the number of the item the cell belongs to, for every axis, base type, and number of subdivisions per item.",
  over=["inputs"], forall="every base mesh size, axis and type, every number of subdivisions per item",
  why="Tests look at the number of cells or at meshes where layers vary slowest; a wrong order is invisible in sums and counts.",
  files=[K + "_base.py", K + "extrude.py", K + "_helpers.py", U + "_misc.py"],
  mech=[("bookkeeping arrays written per item", K + "_base.py: _generate_mesh, " + K + "extrude.py: generate_mesh"), ("carried through merging", U + "_misc.py: merge")],
  technique=IX + "bookkeeping arrays of the final mesh compared with its own cell order",
  note="Three items per builder, all sizes and subdivisions symbolic; transition items are not covered. " + TRUST),
 dict(id="C09", title="Merging structured grids keeps every grid's points, cells and cell data in place",
  statement="Merging structured grids along an axis puts them one after the other in the given order: every point and cell of every grid is in the result, in the order of its own grid, with the shared face only once, "
   "and every cell data array the grids have in common (scalar or multi-component) has the value of the cell it comes from. Grids whose adjoining faces differ in any coordinate are refused.",
  over=["inputs"], forall="two or three grids of any sizes, every axis, volumes and surfaces, scalar and multi-component data",
  why="Tests merge small grids along one axis with uniform data.",
  files=[U + "_misc.py"],
  mech=[("seam comparison, seam removal and data concatenation per axis", U + "_misc.py: merge")],
  technique=IX + "coordinates and data of the merged grid traced to the source grid, position by position; case analysis of the interface tests",
  note="Grid sizes are symbolic. More than three grids repeat the step checked between the second and third. " + TRUST),
 dict(id="C10", title="Stacked layers lie between their surfaces and never overlap",
  statement="In MeshStack2D and MeshStack3D, each item reaches from the previous surface to its own one, at every point of the base mesh. A number is the position of the first surface and the distance from the previous "
   "surface for the following ones (upwards, or downwards with bottom_up=False). Where two consecutive surfaces leave less room than the item's thickness (by default: where they intersect), the surface of lower priority gives way "
   "(the earlier one when equal) until exactly the thickness is left, and the other one stays where it is. Only the coordinate along the stack axis changes, and consecutive items share their common surface.",
  over=["inputs"], forall="every base type, axis and direction, all surface shapes, gaps, thicknesses and priorities of two consecutive surfaces in conflict",
  why="Intersecting surfaces, priorities and top-down stacks multiply; tests sample a few of them and look at cell counts.",
  files=[K + "_base.py", K + "stack.py", K + "_helpers.py"],
  mech=[("relative and absolute positions, conflict resolution", K + "_base.py: MeshStackBase"), ("interpolation between surfaces", K + "_helpers.py")],
  technique=IX + "coordinates of the generated mesh as exact polynomials, compared with the surfaces in each sign case of the gap",
  note="Surfaces given as callables or numbers (symbolic values at every point). Statement limited to one conflicting pair at a time among up to three surfaces. " + TRUST),
 dict(id="C11", title="Extrusion joins matching points of the two ends by straight segments",
  statement="Every point of StructuredSurface and Volume lies on the segment between a point of the first line/surface and the same point of the second one, at the fraction of its layer: the first layer is the first line/surface, the last layer is the second one. "
   "For lines, points are taken in the order in which the line visits them, and the plane option decides which grid axes the line and the extrusion run along; for structured surfaces the extrusion runs along the flat axis.",
  over=["inputs"], forall="every size and orientation, six planes, lines as meshes or arrays, integer, missing and explicit resolutions, every method",
  why="Tests use straight or parallel ends, where mixing points, axes or ends up gives the same areas and volumes.",
  files=[K + "_helpers.py", K + "geometric_objects.py"],
  mech=[("linear interpolation between the ends", K + "_helpers.py: generate_surface_from_two_lines, generate_volume_from_two_surfaces")],
  technique=IX + "coordinates as exact polynomials in the end points and the layer fraction",
  note="All sizes symbolic. " + TRUST),
 dict(id="C12", title="Resolutions and subdivision methods mean the same everywhere",
  statement="In every shape, extrusion and builder item: an integer resolution n of at least 1 gives exactly n subdivisions in its direction, a missing resolution or one below 1 gives one, and an array of fractions is used as it is, sorted. "
   "Subdivisions are evenly spaced for 'constant' and by default, grow from the first to the last for 'log' and shrink for 'log_r'. Each direction and each item uses its own resolution and method.",
  over=["inputs"], forall="every shape, extrusion and builder item, every resolution (positive, zero, negative, missing, array), every method",
  why="Tests use few resolutions and mostly the default method; swapped or ignored arguments change nothing when both directions have the same setting.",
  files=[K + "_helpers.py", K + "geometric_objects.py", K + "_base.py", K + "stack.py", K + "extrude.py"],
  mech=[("resolution and method to fractions", K + "_helpers.py: resolution_to_perc"), ("routing of the arguments", K + "geometric_objects.py, " + K + "_base.py, " + K + "extrude.py")],
  technique=IX + "number of points per direction in each case of the resolution; first, last, monotonicity and curvature of the fractions",
  note="Resolutions are Python integers, arrays or None. " + TRUST),
 dict(id="C13", title="Parametric shapes have the geometry their parameters say",
  statement="Rectangle, Square, Quadrilateral, Annulus, AnnularSector, Circle, Sector, RectangleSector, SquareSector, SectorRectangle, SectorSquare, CylindricalShell and CylindricalShellSector put every point where their parameters say: "
   "radii from inner to outer, angles in degrees from theta_min to theta_max counterclockwise from the x axis, side lengths, corner points joined bilinearly, heights centered, everything shifted by center. "
   "The spacing in a direction only depends on that direction's own resolution and method. Sector and Circle triangles join the center with consecutive points of the arc.",
  over=["inputs"], forall="every valid dimension, center, resolution and method",
  why="Tests check areas, volumes or bounds, which many wrong placements share (mirrored, shifted, rotated or with directions swapped).",
  files=[K + "geometric_objects.py", K + "_helpers.py"],
  mech=[("closed forms per shape", K + "geometric_objects.py"), ("arcs and lines", K + "_helpers.py: generate_arc, generate_line_from_two_points")],
  technique=IX + "coordinates of every block as exact expressions, compared with the closed form of the shape",
  note="Valid dimensions are assumed (argument checks pass). Polygon, Voronoi and curved lines are not covered. " + TRUST),
 dict(id="C14", title="Cell dimensions, faces, edges and neighbours follow the cell types",
  statement="get_dimension is the largest dimension of the cell types present (number of directions with cells for structured meshes) and extract_cells_by_dimension keeps exactly the cells on the requested side of it, plus the empty cells when asked. "
   "extract_cell_geometry makes exactly the faces (3D) or edges (1D, 2D) of each supported cell type, in outward vertex order, each one once however many cells use it, lists all the cells that use it padded with -1, "
   "drops faces of zero size with their cell lists only when ghost cells are removed, and refuses unsupported types with NotImplementedError. "
   "get_neighborhood and get_connectivity report two cells as neighbours exactly when a face is listed for both, in both directions.",
  over=["inputs"], forall="every VTK cell type (and mixes of types), every vertex numbering, every number of cells per face",
  why="Tests use a few meshes of two or three cell types; a wrong entry for another type, a face seen from the other side, collapsed or shared by one or three cells is not met.",
  files=[U + "_misc.py", U + "_properties.py", U + "_connectivity.py"],
  mech=[("types to dimensions", U + "_properties.py: get_dimension, _dimension_map"), ("faces, edges, sharing", U + "_misc.py: extract_cell_geometry, _celltype_to_faces"), ("neighbours", U + "_connectivity.py")],
  technique=VG + "constant folding of the tables and of the generic loop iteration for every VTK cell type with symbolic vertices, compared with the VTK definitions",
  note="Reading the mesh (GetCells, polyhedron faces) and computing sizes is trusted to VTK. " + TRUST),
 dict(id="C15", title="Every cell gets the group its selectors, base mesh or default say",
  statement="In MeshExtrude, MeshStack2D and MeshStack3D every cell of an item is in the group of the last selector of that item that takes its base cell (name, boolean mask, indices, function, names of base mesh groups, inverted with ~ on either side); "
   "else in the group it has in the base mesh unless that group is ignored; else in the builder's default group. In MeshMerge a cell keeps the group of its own mesh unless ignored, else gets the group given for the item, else the default. "
   "Numbers and names correspond one to one over all items, and the numbering is stored with the mesh; dropping names without cells keeps every remaining name on a number of its own. "
   "get_cell_group translates numbers to names with the stored numbering and returns plain numbers without one; remap_categorical_data changes exactly the numbers asked for, simultaneously.",
  over=["inputs"], forall="every selector kind, every base numbering (any order, gaps, unnamed numbers), ignored and default groups, every order of items",
  why="Tests number base groups from zero in order and use one item, where the base numbering and the new one coincide and the order of selectors does not matter.",
  files=[K + "_base.py", K + "extrude.py", K + "stack.py", K + "merge.py", U + "_misc.py"],
  mech=[("selectors to group arrays", K + "_base.py: _initialize_group_array, _get_group_number"), ("unused names", K + "_base.py: _clean"), ("names and numbers", U + "_misc.py: get_cell_group, remap_categorical_data")],
  technique=VG + "constant folding of the group arrays for every combination of base group and selector outcome a cell can have, read back through the stored numbering",
  note="The names left in user_dict by remap_categorical_data and the groups of VoronoiMesh2D are not covered. " + TRUST),
 dict(id="C16", title="Extruded unstructured cells are prisms over the base cells, layer by layer",
  statement="Extruding an unstructured surface makes exactly one cell per base cell and layer, layers in order from the first surface and base cells in order within a layer. "
   "A triangle becomes a wedge, a quadrilateral or pixel a hexahedron (vertices in cyclic order), a polygon a polyhedron made of its two ends and one quadrilateral per edge, closed, and with all faces outward when invert_polyhedron_faces is left on. "
   "Its vertices are the base cell's vertices on the two levels that bound the layer. A cell is marked inactive (vtkGhostType 32) exactly when its two ends coincide; marks the base had are kept. "
   "Any other cell type, and two surfaces whose cell types differ, are refused.",
  over=["inputs"], forall="every mix of cell types, vertex numbering, orientation of base cells (clockwise or not), direction of extrusion, number of layers and flat or partly flat cells",
  why="Tests compare total volumes of a few meshes, mostly with one cell type, one orientation and no collapsed cell.",
  files=[K + "_helpers.py"],
  mech=[("prisms", K + "_helpers.py: generate_volume_from_two_surfaces"), ("table of extruded types", K + "_helpers.py: _extruded_celltype_map")],
  technique=VG + "constant folding of the cell lists for base cells of every supported type, orientation and extrusion direction, compared face by face with the prism",
  note="Coordinates are exact representatives of each orientation class (up, down or oblique extrusion; clockwise or not; flat or not). " + TRUST),
 dict(id="C17", title="Extrusion items move, scale and turn the previous end as asked",
  statement="In MeshExtrude the first item starts at the mesh given; each item ends at the previous end moved by its vector, then scaled about its own center, then turned by the angle (degrees, counterclockwise) about the item's vector through that center, "
   "and fills the space between the previous end and its own. Scale and angle of the item are used when given, zero included; otherwise those of the builder; otherwise nothing is scaled or turned.",
  over=["histories", "inputs"], forall="every mesh, vector, scale, angle and combination of builder and item settings",
  why="Tests use one or two items, centered meshes or builder-wide settings only, so a wrong center, axis, fallback or starting mesh gives the same volumes.",
  files=[K + "extrude.py"],
  mech=[("moving the previous end", K + "extrude.py: MeshExtrude.add"), ("between which surfaces", K + "extrude.py: MeshExtrude.generate_mesh")],
  technique=VG + "each item's mesh as scale, rotations and displacement of the mesh given, in exact algebra, compared with the definition",
  note="The second item is checked relative to the first; further items repeat that step. Values that code singles out (other than zero and none) are taken as generic. " + TRUST),
 dict(id="C18", title="Calls are independent of each other: no hidden state",
  statement="The result of a public function depends only on its arguments, and that of a builder only on what was done to that builder: not on earlier calls, on other builders, on random numbers, on the clock or on the environment. "
   "Nothing that outlives a call (tables and variables of modules, class attributes, default arguments, kept results, settings of numpy, pyvista or Python) is changed by a call or handed out to the caller, so editing a result never changes later ones.",
  over=["histories"], forall="every sequence of calls in one process",
  why="Tests look at one call at a time; state carried from one call to the next shows only after a particular earlier call.",
  files=[K + "_base.py", K + "voronoi.py", K + "_helpers.py", U + "_misc.py", U + "_properties.py"],
  mech=[("builder state", K + "_base.py: MeshBase.__init__"), ("module tables", K + "_helpers.py: _extruded_celltype_map; " + U + "_misc.py: _celltype_to_faces; " + U + "_properties.py: _dimension_map")],
  technique=VG + "effect and alias analysis of everything created while the modules are loaded, and of the sources the results are computed from",
  note="A table filled with values that are determined by their key is allowed. State inside VTK, gmsh or shapely is trusted. " + TRUST),
 dict(id="C19", title="Unusable input is refused, usable input is not",
  statement="An error is raised, before any result is returned, exactly when: the radii of an annulus or cylindrical shell are not 0 <= inner < outer; the radius of a sector or circle is not positive; a sector cut from a rectangle does not fit in it, "
   "or a rectangle in its sector (radius shorter than the diagonal); the axis of a stack is not 0, 1 or 2, or a structured base is not flat along it; the base is not a line (2D stack) or not two-dimensional (3D stack, extrusion); "
   "there are fewer than two levels to stack, no extrusion or nothing to merge; points, vectors, cell centers or subdivisions do not have the documented shape; the lines or surfaces to join differ in number of points, dimensions or type; "
   "the constraint radius of a circle is smaller than its radius; or the points given for a level do not cover the base and no extrapolation is asked for.",
  over=["inputs"], forall="radii in any order and of any sign, axes, mesh types and dimensions, array shapes, numbers of items, extents of points",
  why="Each guard is an inequality or a shape test with boundaries (equality, zero, negative, one axis too many) of which tests try one side.",
  files=[K + "_base.py", K + "_helpers.py", K + "geometric_objects.py", K + "stack.py", K + "extrude.py", K + "voronoi.py", U + "_misc.py", U + "_connectivity.py"],
  mech=[("radii", K + "geometric_objects.py: AnnularSector, Sector, SectorRectangle, RectangleSector"), ("bases and items", K + "_base.py: MeshStackBase.__init__, _generate_mesh; " + K + "stack.py; " + K + "extrude.py"),
        ("coverage", K + "_base.py: MeshStackBase._interpolate")],
  technique=VG + "path feasibility with guards constant-folded for representatives of every ordering class of the input",
  note="Bounds: representatives of each ordering and shape class (7 radii, 5 aspect ratios, both sides of every boundary). Refusal by an error of numpy or pyvista counts as refusal only where the fold shows it. " + TRUST),
 dict(id="C20", title="A level follows the points, mesh, function, plane or distance it is given",
  statement="Each vertex of the level that a stack's add() makes keeps the base vertex's other coordinates and takes, along the stacking axis: the height interpolated linearly from the given points or mesh at its place, whatever the order of the points, "
   "and beyond them (with extrapolation='nearest') the height of the nearest point, vertices within the points being unaffected; the value of the given function at the base vertex; the height of a plane through the given point, whose rotation about the stacking axis is ignored; "
   "the given number for the first level; or the height of the previous level moved by the absolute value of the given distance, up or down according to bottom_up.",
  over=["inputs"], forall="bases in every orientation and direction, orders and extents of points, signs of distances, stacking axes",
  why="Tests use axis 2 and points listed left to right; a slip shows only for another axis, direction, order or partially covered base.",
  files=[K + "_base.py", K + "stack.py"],
  mech=[("levels", K + "_base.py: MeshStackBase.add"), ("points", K + "_base.py: MeshStackBase._interpolate"), ("planes", K + "stack.py: MeshStack3D.add_plane")],
  technique=VG + "the points of the stored level constant-folded exactly in rational arithmetic for configurations of bases and points",
  note="scipy's interpolators are modelled at nodes, on planes over a rectangle of nodes and outside their extent; the sense and slope of add_plane's rotation are not claimed. " + TRUST),
 dict(id="C21", title="Lines are split, merged, resampled and reordered without loss",
  statement="split_lines returns one mesh per line, in order, with the line's own points in visiting order, as one polyline or as consecutive segments, each with the point data of its points, the cell data of its line and the names (user_dict) stored with the mesh. merge_lines returns the lines of all meshes in order, "
   "coincident points merged, with the data that all of them have. RegularLine returns equally spaced points along the polyline, both ends included; CurvedLine equal steps whose direction turns evenly between the given end directions. "
   "reconstruct_line visits every point once, beginning at the start point, and reversing no stretch of the path shortens it (closed paths included). decimate_rdp keeps both ends and exactly the points Ramer-Douglas-Peucker keeps, and leaves segments alone.",
  over=["inputs"], forall="meshes with any mix of segments, polylines, vertices and faces, any point order, closed lines, scalar, vector and text data, tolerances, start points",
  why="Tests count points and lines; a wrong index, a lost data array or a stretch never tried shows only for particular point orders, mixes of cells or data shapes.",
  files=[U + "_misc.py", K + "geometric_objects.py"],
  mech=[("splitting and merging", U + "_misc.py: split_lines, merge_lines"), ("ordering and thinning", U + "_misc.py: reconstruct_line, decimate_rdp"), ("resampling", K + "geometric_objects.py: RegularLine, CurvedLine")],
  technique=VG + "abstract interpretation with the cells of a scene known and coordinates and data as labels or exact numbers, loops taken cell by cell",
  note="Bounds: meshes of up to seven points and six lines, 3 to 6 points to reorder. clean and merge_points are modelled as merging coincident points. " + TRUST),
 dict(id="C22", title="Per-cell queries answer for every cell, in cell order",
  statement="get_cell_connectivity returns, cell by cell, the vertices of the cell, for a polyhedron the vertices of each of its faces; flattened, exactly the list that UnstructuredGrid takes. get_cell_centers returns one row per cell: VTK's center, not-a-number for an empty cell, "
   "and for a polyhedron the center by the method asked for, independently of the VTK version and of the other cells. quadraticize returns the same cells and vertices with the middle of each edge added in edge order, and refuses cells that are neither triangles nor quads.",
  over=["inputs"], forall="meshes with any mix and order of cell types, polyhedra first, last or between other cells, empty cells, every method, VTK 9.4 and 9.5",
  why="Tests use meshes with one cell type or polyhedra only, and one VTK version; offsets between mixed cells and the version branches are never compared.",
  files=[U + "_properties.py", U + "_misc.py"],
  mech=[("connectivity", U + "_properties.py: get_cell_connectivity"), ("centers", U + "_properties.py: get_cell_centers"), ("quadratic cells", U + "_misc.py: quadraticize")],
  technique=VG + "abstract interpretation with the cells of a scene known and coordinates as labels or exact numbers, loops taken cell by cell",
  note="Bounds: meshes of up to six cells. VTK's own centers are labels. " + TRUST),
 dict(id="C23", title="Remapping categories moves values and names together",
  statement="remap_categorical_data replaces every value that the mapping names (by name or number) by its new value, judged by the values before the call, so swaps and chains work, and leaves all others. Every name whose value occurs in the data is stored under the number its entries now have, "
   "whether or not it was remapped; names without entries are not kept. Only the data of the preference asked for change; without inplace the mesh given keeps its values and names and a changed copy is returned, with inplace nothing is returned. Unknown names, unknown preferences and data that are not integers are refused.",
  over=["inputs"], forall="mappings by name and number (swaps, chains, rotations, several onto one, absent and unnamed values), cell and point data, in place or not, meshes with and without names",
  why="Tests remap one or two labels of a mesh; overlapping old and new numbers, unnamed values and names not in the mapping are never combined.",
  files=[U + "_misc.py"],
  mech=[("values and names", U + "_misc.py: remap_categorical_data")],
  technique=VG + "abstract interpretation with the values and names of a scene known, dictionaries and sets followed element by element, lookups decided",
  note="Bounds: an array of eight values with five names, 21 mappings. " + TRUST),
 dict(id="C24", title="Averaging points and fusing cells change nothing else",
  statement="average_points replaces every set of points linked by a chain of pairs within the tolerance by their mean, whatever the order of points and pairs; the faces keep their order and the order of their vertices without repeated ones, faces left with fewer than three vertices are removed, the others are marked with their original number; lines are refused. "
   "fuse_cells makes each selection of cells (indices in any order, several selections, or a mask) one polygon, its outline, in the place and with the data of the first cell listed; all other cells keep their order, vertices and data, points their data, the mesh its user data; selections that do not hang together are refused.",
  over=["inputs"], forall="orders of points, pairs and indices, chains and joined groups of points, collapsing faces, mixes of cell types, several selections",
  why="Tests average one mesh and fuse a block of cells; joined groups, collapsed faces before others and unordered indices need a particular combination.",
  files=[U + "_misc.py"],
  mech=[("averaging", U + "_misc.py: average_points"), ("fusing", U + "_misc.py: fuse_cells")],
  technique=VG + "abstract interpretation with the cells and coordinates of a scene known (exact rationals), close pairs and outlines as inputs, loops taken pair by pair and cell by cell",
  note="Bounds: 7 points with up to 15 close pairs in 5 orders; a sheet of 9 cells, 12 selections. The pairs scipy's k-d tree finds and the outline extract_boundary_polygons finds are given. " + TRUST),
 dict(id="C25", title="Offsetting a polygon moves every edge by the distance",
  statement="offset_polygon moves every edge of each polygon parallel to itself by the given distance: to the outside for a positive distance, to the inside for a negative one, whatever the orientation of the polygon, the coordinate plane it lies in, its place in that plane, and whether it is convex; "
   "the coordinate that is constant, the number and order of vertices and faces are kept, distance zero copies, and meshes without faces and polygons in no coordinate plane are refused.",
  over=["inputs"], forall="convex and concave polygons, both orientations, three planes, any place, distances of both signs, several faces",
  why="Tests offset one shape near the origin and compare areas; the orientation test and the constant coordinate only matter elsewhere.",
  files=[U + "_misc.py"],
  mech=[("offset", U + "_misc.py: offset_polygon")],
  technique=VG + "abstract interpretation with the polygons of a scene known, loops taken face by face, every vertex compared with the intersection of the moved lines",
  note="Bounds: 7 polygons x 3 planes x 2 orientations x 6 places x 2 distances, and meshes of several faces; distances small enough not to change the shape. " + TRUST),
 dict(id="C26", title="A Voronoi mesh has one cell per remaining seed, with its group",
  statement="VoronoiMesh2D.generate_mesh makes one cell for each remaining seed, in order: the part of the domain nearer to that seed than to the others, oriented as asked, in the plane of the mesh, with the coordinates (X, Y, Z) and the group of its seed. Seeds are the cell centers (or points) of the mesh and the cell centers of the items that lie in the mesh; "
   "a seed that lies in a cell of a later item (in order of absolute priority, then of addition) goes when the item's priority is at least its own, or higher for an item with negative priority; items outside the mesh add and remove nothing; cells that vanish under min_length go together with their seed and group; cells selected to be fused are handed on together, selections of no cell change nothing.",
  over=["inputs"], forall="items of any priority and order, of cells or points, in, partly in and out of the mesh, named groups, both orientations, three planes, any place",
  why="Tests generate one mesh and look at counts; priorities, orientation and vanishing cells only matter in particular combinations.",
  files=[K + "voronoi.py", K + "_base.py"],
  mech=[("seeds and cells", K + "voronoi.py: VoronoiMesh2D.generate_mesh, _generate_voronoi_tesselation, _compute_signed_area"), ("groups", K + "_base.py: _initialize_group_array, _clean")],
  technique=VG + "abstract interpretation with the meshes of a scene known (exact rationals), loops taken item by item and region by region, cells compared with the part of the domain nearest to each expected seed",
  note="Bounds: 20 arrangements of up to three items on meshes of 7 cells (9 points), three planes, two places; convex domain without holes, seeds in general position, boxes as item cells. The Voronoi diagram, containment, the outline and intersections are computed from what the code passes to scipy, pyvista and shapely; what the functions in fuse_cells select is handed to fuse_cells, empty selections are not; fusing itself and averaging are C24. " + TRUST),
 dict(id="C27", title="Circles and strips added to a Voronoi mesh lie where they are asked",
  statement="VoronoiMesh2D.add_circle adds, in the plane of the mesh and about the center given (two or three coordinates, any elevation), the sectors and rings inside the radius with the group and priority given, and, unless the constraint radius equals the radius, one ring outside it as wide as the one inside, without group; with plain, and only then, exactly the cells less than the radius from the center, measured in the plane, are fused. "
   "VoronoiMesh2D.add_polyline adds around each line cells whose sides are half the width from it on both sides, square to the chord of the neighbouring points; with preference 'cell' each cell goes from midpoint to midpoint, the first and last ending the padding (default: half the width) beyond the line; with preference 'point' from point to point; the cells of the line have the group and priority, and one row on each side and the asked number of cells before and after the line are added without group.",
  over=["inputs"], forall="three planes, centers of two or three coordinates, radii and constraint radii, resolutions; lines straight, bent, hooked, of two points, several at once; preferences, paddings, constraints and resolutions",
  why="Tests add one circle or line in the xy plane and count cells; other planes, elevations and unequal options are never looked at.",
  files=[K + "voronoi.py"],
  mech=[("circles", K + "voronoi.py: VoronoiMesh2D.add_circle"), ("strips", K + "voronoi.py: VoronoiMesh2D.add_polyline"), ("item meshes", K + "voronoi.py: VoronoiMesh2D.add")],
  technique=VG + "abstract interpretation with the arguments of a scene known, items read off the abstract heap of the builder and their cells compared with the sectors, rings and strips asked for",
  note="Bounds: 3 centers, 5 radii with constraint, 2 resolutions (thorough: 5), 5 arrangements of lines with 5 constraints, 3 resolutions and 2 paddings, in three planes. Circle, Annulus and generate_surface_from_two_lines are taken at their word (C13, C11); the merge of the rings is a union. " + TRUST),
 dict(id="C28", title="Boundary polygons are the loops of the boundary, each with its holes",
  statement="extract_boundary_polygons gives one closed line for every loop of the boundary of a mesh (or of the lines given), None without any. With with_holes there is one entry per loop that lies inside an even number of others, followed by the loops directly inside it as its holes, whatever the order and direction of the loops and the plane of the mesh; with fill the polygons are made of the same loops, each with its holes.",
  over=["inputs"], forall="separate and nested loops (holes, islands in holes, holes in islands), in any order and direction, in coordinate and tilted planes, for grids, surfaces and lines",
  why="Tests sum point coordinates of a few meshes of the xy plane; which loop is a hole of which only matters with several, and the plane and the order of the loops decide it.",
  files=[U + "_misc.py"],
  mech=[("loops and holes", U + "_misc.py: extract_boundary_polygons"), ("one line per loop", U + "_misc.py: split_lines")],
  technique=VG + "abstract interpretation with the loops of a scene known (exact rationals), loops over pairs of polygons unrolled, the nesting returned compared with the nesting of the rectangles",
  note="Bounds: ten arrangements of up to four rectangles, every order (quick: a third of the orders of four), six planes. Feature edges and stripping are taken from the scene; areas and containment are computed from the coordinates the code hands to shapely. Loops that touch are left out. " + TRUST),
 dict(id="C29", title="A transition in a stack joins two levels of different resolution",
  statement="After MeshStack2D.set_transition, only the level added next is reached by a transition: it fills the loop that runs along the lower level and back along the upper one with triangles, whatever distance, thickness and priority "
   "the levels have; every point of both levels is on the loop once. The levels from there on are made on the new line (the given one, or the old one resampled) and keep to the rules of levels; the transition's cells have its group or the default, "
   "are one layer and one item and belong to no column (-1), and the layers above it are numbered on from it.",
  over=["inputs", "histories"], forall="sequences of levels and transitions, lines, axes, directions, priorities, thicknesses, groups, base groups",
  why="Tests build one stack with transitions and compare its size; a flag left set, a level made on the old line or numbers that do not go on show only in particular sequences of calls.",
  files=[K + "stack.py", K + "_base.py"],
  mech=[("transition", K + "stack.py: MeshStack2D.set_transition, _transition"), ("stacking", K + "_base.py: MeshStackBase.add, _generate_mesh")],
  technique=VG + "abstract interpretation of whole sequences of builder calls with exact coordinates of a scene; the outline filled and the data of every cell compared with the sequence",
  note="Bounds: 17 sequences of up to four levels and two transitions, three axes, both directions. Triangulating the loop, resampling and splitting lines, strips between two lines and joining meshes are modelled (C05, C21, C11 and C09 decide them). " + TRUST),
]
NA = {}
