#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'src/mesh/'; G = 'src/geometry/'; S = 'src/statemanager/'

def mech(*a):
    return [{'name': n, 'where': w} for n, w in a]

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mechanism, observe_at=observe,
                               hook_needed=None), _note=note))

prop('P01', 'The 3D box mesh is an exact, mutually consistent structured hex mesh',
     'For every box and every nx x ny x nz cell count, the built-in structured mesh has exactly the lattice\'s nodes, faces and cells, each once, at the lattice coordinates, with hexahedron (Exodus) node and ordered-face conventions, distinct global IDs, and volumes, areas, centroids and normals equal to those of the lattice. '
     'Every adjacency query (cell-node, cell-face with its direction, face-node, face-cell, node-cell, node-face, node-cell-face, cells across faces in face order, cells sharing a node) returns exactly the entities related in the lattice, each once. '
     'Since the mesh is serial every entity is owned, and queries restricted to ghosts return nothing.',
     ['inputs', 'configurations'], 'every box extent, every cell count per axis, every entity of the mesh, with or without tiles',
     'The tests look at a few hard-coded meshes (1x1x1 to 3x3x3, equal counts) and a few entities of them; index arithmetic that is wrong for unequal counts, for one axis or one adjacency is not reached.',
     [M+'mesh_simple/Mesh_simple.cc', M+'mesh_simple/Mesh_simple.hh', M+'Mesh.cc'],
     mech(('lattice index functions', M+'mesh_simple/Mesh_simple.hh'), ('building of the connectivity tables', M+'mesh_simple/Mesh_simple.cc: update_internals_3d_'), ('caches in the base class', M+'Mesh.cc: cache_extra_variables')),
     ['adjacency, coordinate and geometry queries of the mesh'],
     'Random search over extents and counts (1..7 per axis) against a lattice model; sampled, not exhaustive.')

prop('P02', '1D meshes: exact line topology, interval and spherical-shell geometry',
     'For every strictly increasing list of node coordinates a 1D mesh has one cell per interval, whose nodes and faces are the interval\'s two ends (direction -1 at the low end and +1 at the high end), with exact adjacency queries; its cell volumes and face areas are interval lengths and 1 in Cartesian geometry, spherical-shell volumes and sphere areas in spherical geometry, with cell centroids at interval midpoints, points reported in exactly the cell they lie in, face centroids at the nodes and face normals of face-area magnitude pointing out of the cell asked about. '
     'When subcell entities are requested each cell has two sides, wedge pairs and corners, one at each end node and reaching to the cell centre, with positive volumes that add up to the cell\'s, facet normals pointing out of the cell, and as opposite the entity of the neighbouring cell at the same node (none at the two ends of the mesh). '
     'Coordinates of sides and wedges asked for in positive-volume order run from low to high.',
     ['inputs', 'configurations'], 'every increasing coordinate list, both geometries, every subset of requested subcell entities',
     'The 1D tests use one or two fixed coordinate lists; subcell entities in 1D are not covered by a test that runs here.',
     [M+'mesh_simple/Mesh_simple.cc', M+'Mesh.cc', G+'Geometry.cc'],
     mech(('1D connectivity', M+'mesh_simple/Mesh_simple.cc: update_internals_1d_'), ('1D side, wedge and corner construction', M+'Mesh.cc: cache_side_info, compute_side_geometry'), ('segment measures', G+'Geometry.cc: segment_get_vol_centroid, face1d_get_area')),
     ['topology and geometry queries of the 1D mesh'],
     'Random search over coordinate lists against closed formulas; sampled.')

prop('P03', 'Cell, face and edge geometry is exact and consistently oriented on any mesh',
     'On every valid polygonal, polyhedral or surface mesh the volume and centroid of each cell, the area and centroid of each face and the length, vector and centre of each edge equal the exact values of the shape its nodes span (curved faces and cells being split about the averages of their nodes), and cell volumes add up to the domain. '
     'The normal of a face as seen from a cell has the face\'s area as magnitude (flat faces) and points out of that cell, its reported orientation is the direction in which the cell uses the face and the sign relative to the face\'s natural normal, the two cells of a face see opposite normals (except on surface meshes), and outward normals of a cell sum to zero; an edge vector runs from the node asked about to the other one, with the matching orientation. '
     'Recomputed values equal cached values on an unmoved mesh, and on planar and solid meshes a point is reported in a cell exactly when it lies in it (points strictly inside or outside, convex cells).',
     ['inputs', 'configurations'], 'every planar 2D, solid 3D and 2D-in-3D surface mesh with positive subcells, any node numbering, face orientation, rigid placement and length scale',
     'The stable tests check geometry only on unit boxes; the mesh frameworks that feed general polygons and polyhedra are not built, so the general paths are not run at all.',
     [M+'Mesh.cc', M+'Mesh.hh', G+'Geometry.cc'],
     mech(('cell, face and edge geometry', M+'Mesh.cc: compute_cell_geometry, compute_face_geometry, compute_edge_geometry'), ('orientation', M+'Mesh.cc: face_normal, edge_vector'), ('point location', M+'Mesh.cc: point_in_cell')),
     ['cell_volume, cell_centroid, face_area, face_centroid, face_normal, edge_length, edge_vector, edge_centroid, point_in_cell'],
     'Random search over generated polygonal, polyhedral, surface and structured meshes against an independent long-double geometry oracle.')

prop('P04', 'After nodes move and geometry is updated, it equals a freshly built mesh',
     'After any history of node moves followed by an update of geometric quantities, every geometric query (cells, faces, edges, sides, wedges, corners: volumes, centroids, normals, coordinates) gives exactly what a mesh newly built with the moved coordinates gives, however often moves and updates are repeated. '
     'Before an update cached cell, face and edge quantities keep their old values while recomputed ones, node coordinates and coordinate lists of cells and faces reflect the new positions. '
     'Topology, counts and ownership never change by moving nodes.',
     ['histories', 'inputs'], 'every sequence of node moves, updates and queries on 1D, 2D and 3D meshes with any subset of requested entities',
     'No running test moves nodes and updates; tests that do are single-step on one mesh.',
     [M+'Mesh.cc', M+'mesh_simple/Mesh_simple.cc'],
     mech(('update of all cached geometry', M+'Mesh.cc: update_geometric_quantities and compute_*_geometric_quantities'), ('node motion', M+'mesh_simple/Mesh_simple.cc: node_set_coordinates')),
     ['all geometric queries before and after update_geometric_quantities'],
     'Differential search: moved-and-updated mesh against a freshly built one, after random histories.')

prop('P05', 'Polygon, polyhedron and segment kernels compute exact measures',
     'For every polygon (2D or 3D) and polyhedron star-shaped about the average of its vertices, the geometric kernels return its exact area or volume, centroid and normal (the normal of a flat polygon being perpendicular, right-handed and of area magnitude), independent of starting vertex, of face order and of vertex list order, and equivariant under rigid motions and scaling; inverted polygons with four or more vertices and inverted polyhedra are reported with negative measure. '
     'Lists with too few points have zero measure and contain no point. Segments have length or spherical-shell volume with midpoint centroid, and point faces area 1 or that of the sphere. '
     'Point-in-polygon and point-in-polyhedron are true for points strictly inside and false for points strictly outside (any simple polygon; convex polyhedra with any mix of face sizes).',
     ['inputs'], 'every star-shaped polygon and polyhedron, every simple polygon and convex polyhedron and test point off its boundary',
     'The geometry test uses a handful of fixed shapes; it has no polyhedra mixing triangles with larger faces for point location, and no rotated or shuffled input.',
     [G+'Geometry.cc', G+'Geometry.hh'],
     mech(('polyhedron measures', G+'Geometry.cc: polyhed_get_vol_centroid'), ('polygon measures', G+'Geometry.cc: polygon_get_area_centroid_normal'), ('point location', G+'Geometry.cc: point_in_polygon, point_in_polyhed'), ('1D measures', G+'Geometry.cc: segment_get_vol_centroid, face1d_get_area')),
     ['return values of the geometric kernels'],
     'Random search over generated shapes against long-double formulas, winding numbers and half-space tests.')

prop('P06', 'Points obey the algebra of 1D, 2D and 3D vectors',
     'For every dimension 1, 2 or 3, construction, assignment, copying, setting and element access preserve dimension and coordinates; sums, differences, negation, scaling, division, dot products, norms and cross products equal the componentwise definitions (the 2D cross product being a scalar in the first component), and the compound assignments equal the plain operators. '
     'Operations leave their operands unchanged, and coordinates beyond the dimension read as zero through x, y and z.',
     ['inputs', 'histories'], 'all coordinate values and dimensions, and sequences of operations on a pool of points',
     'The point test evaluates a few operators on fixed points.',
     [G+'Point.hh'],
     mech(('point arithmetic', G+'Point.hh')),
     ['values of point expressions'],
     'Stateful random search against plain arrays.')

prop('P07', 'Sides, wedges and corners decompose every cell consistently',
     'On every mesh with subcell entities requested, each cell has exactly one side per pair of face and edge of that face, two wedges per side (one for each of its nodes, adjacent to each other) and one corner per node, which groups exactly the wedges of the cell at that node; all up, down and lateral queries among cells, faces, edges, nodes, sides, wedges and corners are mutually inverse, and node queries filter wedges and corners by parallel type. '
     'The opposite of a side is the side with the same edge and face in the neighbouring cell (with the two nodes in reverse order), the opposite of a wedge is the wedge of that side at the same node, and neither exists exactly when there is no cell across the face. '
     'Queries replace whatever their output lists held before. Counts and lists of sides, wedges and corners by parallel type follow the type of their cells, each entity appearing once.',
     ['inputs', 'configurations'], 'every planar and solid mesh (1D ones: see P02), with any ownership of cells (owned, ghost, boundary ghost) and any face and edge orientation',
     'The side, wedge and corner tests need a mesh framework that is not built and check small structured meshes only.',
     [M+'Mesh.cc', M+'Mesh.hh'],
     mech(('construction of the decomposition', M+'Mesh.cc: cache_side_info, cache_wedge_info, cache_corner_info'), ('queries', M+'Mesh.hh: side_get_*, wedge_get_*, corner_get_*')),
     ['topological queries on sides, wedges and corners'],
     'Random search over generated meshes with random ownership, against a direct enumeration of (cell, face, edge).')

prop('P08', 'Sides, wedges and corners geometrically partition each cell',
     'On every mesh with subcell entities, volumes of sides, wedges and corners are positive and equal the exact volumes of the simplices spanned by node, edge centre, face centre and cell centre (a wedge being half its side and a corner the sum of its wedges), and those of a cell\'s sides, wedges or corners add up to the cell\'s volume (flat-faced cells). '
     'Facet normals have the facet\'s measure as magnitude and are perpendicular to it: the outer one points out of the cell and those over a face add up to the face\'s outward normal, and the middle one of a wedge points from its node towards the edge centre and is the negative of its partner\'s. '
     'Coordinate lists have the documented points and order (positive volume when asked for), corner facets bound exactly the corner\'s volume with outward or counterclockwise orientation, and entities of boundary ghosts have zero volume.',
     ['inputs', 'configurations'], 'every planar and solid mesh with valid subcells (1D ones: see P02), any ownership and orientation',
     'The tests that look at this geometry need a framework that is not built and use unit boxes.',
     [M+'Mesh.cc'],
     mech(('side geometry', M+'Mesh.cc: compute_side_geometry'), ('coordinates', M+'Mesh.cc: side_get_coordinates, wedge_get_coordinates, corner_get_coordinates'), ('corner facets', M+'Mesh.cc: corner_get_facetization'), ('facet normals', M+'Mesh.cc: side_facet_normal, wedge_facet_normal')),
     ['geometric queries on sides, wedges and corners'],
     'Random search over generated meshes against simplex formulas and closed-surface identities.')

prop('P09', 'Geometric regions contain exactly the points their definition says',
     'A box region contains exactly the points between its two corners (whichever order they are given in), a plane region those on the plane through its point, a polygon region those on its plane and within the polygon for any orientation in space, and a point region that point, each within its stated tolerance. '
     'Regions report the name, ID, type, topological dimension and defining data they were built with, degenerate boxes having the dimension of what is left of them, and copies behave like the originals. '
     'Ill-formed definitions are refused with an error.',
     ['inputs'], 'every region parameter set in 1D, 2D and 3D and every query point off the tolerance band',
     'No test that runs here evaluates region membership over inputs; polygon orientation classes and degenerate boxes are not enumerated.',
     [G+'BoxRegion.cc', G+'PlaneRegion.cc', G+'PolygonRegion.cc', G+'PointRegion.cc', G+'LogicalRegion.cc', G+'LabeledSetRegion.cc', G+'Region.cc'],
     mech(('membership tests', G+'*Region.cc: inside'), ('polygon plane set-up and projection', G+'PolygonRegion.cc: init, inside')),
     ['inside, name, id, type, dimension and accessors of regions'],
     'Random search against independent predicates with a band around each boundary left out.')

prop('P10', 'Mesh sets built from regions hold exactly the entities in the region',
     'For every mesh and geometric model, the set of a given kind on a box, plane, polygon, point, labelled or logical region holds exactly the entities the region selects (cells and faces by centroid in a box; cells by containing the point; faces, nodes and surface cells with all their points on a plane or polygon; labelled entities as given by the framework; boolean combinations of the component sets for union, intersection, subtraction and complement), split correctly into owned and ghost. '
     'The answer is the same whether sets are made up front for the whole model (by default or for chosen kinds) or one by one on request, in whatever order, and repeated queries return the same set; a set not made yet reads as empty. '
     'Sets of unknown names or of kinds a region cannot select (cells by regions of lower dimension other than points, faces by regions of lower dimension than faces, any but a labelled region\'s own kind) are reported as not valid, and refused or empty, never wrong.',
     ['inputs', 'configurations', 'histories'], 'every region configuration, entity kind, parallel type, mesh and order of queries',
     'The set tests depend on mesh files and a framework that is not built; regions, kinds and query orders are not combined.',
     [M+'Mesh.cc', M+'MeshSet.cc'],
     mech(('building sets from regions', M+'Mesh.cc: build_set_from_region'), ('up-front initialisation', M+'Mesh.cc: init_sets_from_geometric_model'), ('lookup', M+'Mesh.cc: find_meshset, get_set_size, get_set_entities')),
     ['get_set_size, get_set_entities, find_meshset'],
     'Random search over meshes, geometric models and query orders, against direct evaluation of the selection rule.')

prop('P11', 'Mesh set algebra is set algebra',
     'Merging, subtracting, intersecting and complementing mesh sets yields exactly the union, difference, intersection and complement of their entities, separately and correctly for owned and ghost entities, each entity once, for any number and overlap of operands. '
     'Operands are left unchanged, and the result is a set of its own over the same mesh and kind, '
     'registered with the mesh, and listed among its sets of that kind and of any kind, exactly when it is not temporary.',
     ['inputs', 'histories'], 'every family of sets of one kind over a mesh, including empty, disjoint, nested and repeated operands, and expressions over them',
     'The only test of these operations does not run here and uses box regions of one mesh.',
     [M+'MeshSet.cc', M+'MeshSet.hh'],
     mech(('set operations', M+'MeshSet.cc: merge, subtract, intersect, complement')),
     ['entities of result sets and operands'],
     'Random expression search against std::set.')

prop('P12', 'Adding and removing entities keeps a mesh set coherent',
     'After any sequence of additions and removals, one by one or in lists, a mesh set holds exactly the entities added and not removed, each once, provided that an entity added is not in the set already; removals may name duplicates and absent entities. '
     'Its owned entities and ghost entities are listed separately and its full list is the owned ones followed by the ghost ones, with sizes that agree. '
     'When the set keeps a reverse map, the map gives for every entity its position in the full list and -1 for every other entity. A copy has the same content and then lives a life of its own; clearing a set empties it.',
     ['histories'], 'every sequence of add and remove operations, with owned and ghost entities, duplicates and absentees among removals, with and without reverse map',
     'No running test mutates a set; the order of owned and ghost insertions and removals matters.',
     [M+'MeshSet.cc', M+'MeshSet.hh'],
     mech(('mutation', M+'MeshSet.cc: add_entity, add_entities, rem_entity, rem_entities'), ('reverse map', M+'MeshSet.hh: mesh_entity_to_set_index')),
     ['entities, sizes and reverse map of the set'],
     'Stateful random search against a model set.')

prop('P13', 'Tiles own a partition of the mesh and see exactly their halos',
     'When a mesh is tiled, every owned cell is owned by exactly one tile, and every node, edge and face of those cells has exactly one master tile, which owns it; sides, wedges and corners belong to the tile of their cell. '
     'The ghost cells of a tile are exactly the mesh cells within the requested number of node-connected layers around its owned cells, its lists of each kind contain exactly the entities of its owned and ghost cells, each once and split by ownership, and counts agree with lists. '
     'Mesh sets seen through a tile hold exactly the set\'s entities that are in the tile, by ownership in the tile.',
     ['inputs', 'configurations'], 'every mesh, partition into tiles, number of halo layers and subset of requested entities',
     'The tile tests need edges and wedges of a framework that is not built and use one mesh with two or more fixed tilings.',
     [M+'MeshTile.cc', M+'MeshTile.hh', M+'Mesh.cc'],
     mech(('tile construction', M+'MeshTile.cc: constructor, make_meshtile'), ('master tiles', M+'Mesh.cc: init_tiles; '+M+'MeshTile.cc'), ('sets of a tile', M+'MeshTile.cc: get_*_of_set')),
     ['tile entity lists and counts, master tile IDs, sets through tiles'],
     'Random search over meshes and tilings against a direct halo computation.')

prop('P14', 'Partitioners cover the mesh exactly once with valid parts',
     'For every mesh, number of parts and partitioner choice, the tiles made at construction divide the owned cells so that every cell is in exactly one part and the requested number of parts is made; index-space parts are contiguous and as equal as possible, and block parts (asked of structured meshes) are blocks of the lattice of cells. '
     'Regular block partitioning of a structured domain of any dimension gives exactly the requested number of blocks (when the cell counts allow) with limits that start at the domain, tile it without gap or overlap, agree with the block\'s cell count, and have adjacent blocks abut.',
     ['inputs', 'configurations'], 'every mesh size, number of parts, partitioner, domain, cell counts and dimension',
     'The block partitioning test uses a few divisible cases; partitioners are run on one mesh with one count.',
     [M+'Mesh.cc', M+'block_partition.cc'],
     mech(('partitioners', M+'Mesh.cc: get_partitioning_*'), ('block partitioning', M+'block_partition.cc: block_partition_regular_mesh')),
     ['tiles of the mesh, returned block limits and counts'],
     'Random search over sizes, parts and partitioners against cover and abutment conditions.')

prop('P15', 'A mesh factory delivers what its options say, and only that',
     'Whatever sequence of option settings, resets and mesh creations is performed on a factory, each mesh created has exactly the entity kinds, tiles, halo layers, geometry type, partitioner and geometric model the options in force ask for, with the requested extents and cell counts (three-dimensional meshes always being Cartesian), and options read back as set. '
     'A reset restores the defaults of a new factory, and options of one creation do not leak into another factory or an earlier mesh. '
     'Requests that no available framework can serve (unavailable frameworks, unreadable or missing files, impossible dimensions) are refused with an error and never yield a wrong or null mesh.',
     ['histories', 'configurations', 'inputs'], 'every sequence of factory calls with any option values, dimensions and framework preferences',
     'The factory tests check a few creations with default options.',
     [M+'mesh_factory/MeshFactory.cc', M+'mesh_factory/MeshFactory.hh'],
     mech(('options', M+'mesh_factory/MeshFactory.hh'), ('creation', M+'mesh_factory/MeshFactory.cc: create and call operators'), ('framework availability', M+'mesh_factory/MeshFactory.cc: framework_available')),
     ['options read back, meshes created, errors raised'],
     'Stateful random search against a model of the options.')

prop('P16', 'The state manager finds exactly the fields it was given',
     'After any history of adding fields (by value, by data, by layout or by copy, on meshes, any entity kind and type, under any name) a lookup by name, domain, kind, type and element type returns the field that was added with those, ignoring only criteria left open (kind ANY_KIND and type ALL leave theirs open), and reports absence otherwise; adding a duplicate returns the field already there and changes nothing. '
     'Iteration over all fields, over fields of a kind, and over their names visits exactly the fields added, each once and in order of addition, and sizes agree. '
     'A field obtained from the manager is the stored one: writing through any handle is seen through all others, for as long as the handle or the manager lives.',
     ['histories'], 'every history of add, get, find, iterate and write on a state manager',
     'The state tests do not run reliably here and check single adds and finds.',
     [S+'JaliState.h', S+'JaliState.cc', S+'JaliStateVector.h'],
     mech(('registry', S+'JaliState.h: add, find, get'), ('iteration by kind', S+'JaliState.h: entity_begin, entity_end, names_entity_begin')),
     ['find, get, iterators, size and contents'],
     'Stateful random search against a map-like model.')

prop('P17', 'Material cell sets and multi-material fields stay consistent',
     'After any history of adding and removing materials, adding cells to them and adding multi-material fields, the materials of each cell and the cells of each material are inverse relations that equal what the history says (a cell set the mesh already has under the name of a material contributes its cells; cells already there are not added again; removing single cells is refused as not implemented, without effect), and material names and indices agree. '
     'Every multi-material field holds exactly one value per cell of each material, new entries reading as zero and existing values staying with their cell and material; values set are read back by cell and material, in cell-centric and material-centric layout alike. '
     'Values of a material that is not in the cell read as zero through read-only access.',
     ['histories'], 'every history of material and field operations over a mesh',
     'One test adds a few materials to a fixed mesh; it does not run reliably here and has no removals followed by lookups.',
     [S+'JaliState.h', S+'JaliState.cc', S+'JaliStateVector.h'],
     mech(('materials', S+'JaliState.cc: add_material, rem_material, add_cells_to_material, rem_cells_from_material'), ('multi-material storage', S+'JaliStateVector.h: MultiStateVector')),
     ['material queries and multi-material field access'],
     'Stateful random search against a map from (material, cell) to value.')

prop('P18', 'State vectors are sized, filled, copied and shared as documented',
     'A field over any domain (mesh, tile or mesh set), entity kind, entity type and element type has exactly as many values as that domain has such entities, initialised from the given value, array or copied field in order, and reports its name, kind, type, domain and element type as given. '
     'Element access, iteration, assignment and resizing behave like a plain array of those values; shallow copies share storage with the original, and deep copies into the state manager do not. '
     'Values written through one view are read back unchanged through every other view and untouched elsewhere.',
     ['histories', 'inputs'], 'every element type, kind, type, mesh and history of accesses and copies',
     'Tests cover one or two types on one mesh and do not run reliably here.',
     [S+'JaliStateVector.h', S+'JaliStateVector.cc', S+'JaliState.h'],
     mech(('storage and copies', S+'JaliStateVector.h'), ('add by copy', S+'JaliState.h: add')),
     ['size, elements and metadata of state vectors'],
     'Stateful random search against plain arrays with explicit aliasing.')

prop('P19', 'Fields exported to a mesh come back identical',
     'Exporting a state to its mesh stores every single-material field that has a value for each entity of its kind on that mesh and whose type the mesh supports (integers, reals, 2-, 3- and 6-component reals) under its name and entity kind with its exact values, without altering the state. '
     'Initialising a new state from that mesh recreates exactly those fields with the same names, kinds, element types and values. '
     'Fields a mesh cannot store are skipped without affecting others.',
     ['inputs', 'histories'], 'every collection of fields of every kind and supported type, on any mesh that stores fields',
     'The round trip is tested only with files and a framework that is not built.',
     [S+'JaliState.cc', S+'JaliState.h', M+'Mesh.hh'],
     mech(('export and import', S+'JaliState.cc: export_to_mesh, init_from_mesh')),
     ['fields stored on the mesh, fields of the new state'],
     'Random search over field collections with an in-memory mesh as field store.')

prop('P20', 'Errors carry their message and obey the chosen behaviour',
     'An error message holds exactly what was streamed into it, in order and in decimal text, whatever mix of text, integers and reals is added, and copies and nested levels keep it. '
     'Raising an error throws that very error to the caller while the behaviour is "raise", in whichever part of the library it occurs and whenever the behaviour was set, and ends the program instead while it is "abort". '
     'Names printed for entity kinds, entity types, cell types and partitioners identify the value, and values out of range are recognised as invalid.',
     ['inputs', 'histories'], 'every sequence of streamed items and behaviour changes, every enumeration value',
     'The tests check fixed messages and set the behaviour in the same source file that raises.',
     ['src/error_handling/errors.cc', 'src/error_handling/errors.hh', 'src/error_handling/exceptions.cc', 'src/error_handling/exceptions.hh', M+'MeshDefs.hh'],
     mech(('messages', 'src/error_handling/errors.cc'), ('behaviour switch', 'src/error_handling/exceptions.hh: Jali_throw')),
     ['what() of errors, thrown type or process end, printed names'],
     'Random search over message histories; abort behaviour observed in child processes.')

prop('P21', 'Geometric models keep and find exactly the regions put in them',
     'After any sequence of region additions (one by one or at construction, in models of dimension 1 to 3), lookups by index, by name and by ID return exactly the region added with those, in order of addition, and nothing for what was not added; counts agree. '
     'Regions of a higher dimension than the model are refused without changing it, and so are models of dimension other than 2 or 3 made without a list of regions. '
     'Domains likewise keep their dimension, models and free regions and find them again by position or name.',
     ['histories', 'inputs'], 'every sequence of additions and lookups with arbitrary names, IDs and dimensions',
     'No running test builds models with many regions or looks up absent ones.',
     [G+'GeometricModel.cc', G+'GeometricModel.hh', G+'Domain.cc', G+'Domain.hh'],
     mech(('region registry', G+'GeometricModel.cc: Add_Region, FindRegion'), ('domain', G+'Domain.cc')),
     ['lookups and counts of models and domains'],
     'Stateful random search against vectors and maps.')

prop('P22', 'Mesh connectivity and ownership queries mirror the framework exactly',
     'For every mesh, the cached queries (faces of a cell with directions, cells of a face, edges of faces and cells with directions, nodes of edges, counts, lists and types of entities) return exactly what the underlying framework defines, restricted to owned or ghost entities when a type is asked for, and replace whatever the output lists held before. '
     'Entity lists by type are disjoint, add up to the list of all entities and agree with counts and with the type reported for each entity, boundary ghosts being cells (and their subcells) only. '
     'The map from the edges of a face to those of a cell gives, for every face edge, its position among the cell\'s edges.',
     ['inputs', 'configurations'], 'every planar, solid and surface mesh with any ownership pattern, orientation and numbering',
     'Only serial box meshes are reachable in the running tests, where everything is owned and orientations are uniform.',
     [M+'Mesh.cc', M+'Mesh.hh'],
     mech(('caches', M+'Mesh.cc: cache_*_info, cell_get_faces_and_dirs, face_get_cells, face_get_edges_and_dirs, cell_get_edges'), ('types', M+'Mesh.cc: entity_get_type, cache_type_info; '+M+'Mesh.hh: num_entities')),
     ['connectivity, count, list and type queries'],
     'Random search over generated meshes with random ownership and orientation, differential against the generator\'s own tables.')

CLAIMED = {l.strip() for l in open(os.path.join(V, 'tools', 'claimed')) if l.strip()}

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
man = {'version': 1, 'setup_cmd': './check all',
       'checks': [], 'not_applicable': []}
for p in P:
    if p['id'] in CLAIMED:
        man['checks'].append({
            'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
            'thorough_cmd': './check %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'property-based testing: tape-driven structured generators, independent oracle, shrinking to a replay tape',
            'level': 'exploration', 'level_note': p['_note'] +
            ' Library sources are rebuilt from /repo with AddressSanitizer and libstdc++ assertions; finds violations by search, never proves absence.'})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
