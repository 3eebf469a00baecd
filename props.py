"""The properties: single source for properties.jsonl and MANIFEST.json (see tools/gen.py)."""
SAN = ' The workload runs under AddressSanitizer+UBSan with libstdc++ assertions, so memory errors and undefined behaviour on the way are violations too.'
EXPL = 'Held on the executions explored only (counts in the evidence file); trusts the independent oracle in /verif/harness.' 


def P(id, title, statement, over, quant, why, files, mech, observe, technique, note=''):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe,
                technique=technique, note=(note + ' ' + EXPL).strip())


PROPS = [
P('P01', 'Manhattan boolean operations are exact set operations',
  'For any two collections of Manhattan regions, the result of union, intersection, symmetric difference and difference (as expressions, chained expressions or self-assignment) covers exactly the points of the plane that the set operation on the operands prescribes, with no point lost, added or covered twice. '
  'This holds whatever the representation of the operands (polygon set with either scanline orientation, containers of rectangles or polygons with or without holes, single objects) and whatever form the result is delivered in. '
  'Output vertices only use coordinates that occur in the input.',
  ['inputs', 'histories', 'configurations'],
  'all operand scenes (overlapping, touching, nested, holes, subtracted regions, self-crossing rings), coordinate magnitudes and types, operand representations, operators and operator sequences',
  'The unit tests compare a few dozen hand-made scenes; exactness must hold for every arrangement of edges and every combination of operand forms.',
  ['detail/boolean_op.hpp', 'polygon_90_set_data.hpp', 'detail/polygon_90_set_view.hpp', 'polygon_90_set_concept.hpp', 'detail/polygon_formation.hpp'],
  [('scanline boolean on vertical edge counts', 'detail/boolean_op.hpp'), ('operator views with orientation handling', 'detail/polygon_90_set_view.hpp')],
  ['get of the resulting polygon set into polygons and rectangles'],
  'runtime monitor: exact raster winding oracle over sanitizer-instrumented executions',
  'Exact comparison of every grid cell of every result.' + SAN),

P('P02', 'A Manhattan polygon set behaves as a point set under any history',
  'A Manhattan polygon set always denotes the point set that its history of insertions, removals, boolean assignments, copies, swaps, moves, scalings, transformations and orientation changes prescribes; when lazy sorting and cleaning happen is invisible. '
  'Every observer (stored geometry, equality, emptiness, area, bounding box) agrees with that point set at any moment, in any order of calls, and observing never changes the denoted set. '
  'Two sets denoting the same points compare equal regardless of the order and representation in which they were built.',
  ['histories', 'inputs'], 'all sequences of mutating and observing operations on one or several sets, with either scanline orientation',
  'Tests check single operations on fresh sets; the dirty/unsorted flags interact only over longer histories.',
  ['polygon_90_set_data.hpp', 'polygon_90_set_concept.hpp', 'polygon_90_set_traits.hpp'],
  [('dirty_ and unsorted_ flags with deferred clean()', 'polygon_90_set_data.hpp'), ('set concept free functions', 'polygon_90_set_concept.hpp')],
  ['public member functions and free functions of the polygon set'],
  'runtime monitor: history vs executable point-set model'),

P('P03', '45-degree boolean operations are exact up to off-grid intersections',
  'For any collections of regions whose edges are horizontal, vertical or diagonal, boolean results cover exactly the prescribed points whenever all edge intersections fall on integer points. '
  'Otherwise the result may differ from the exact one only inside the unit squares around off-grid intersections, and the set reports that such intersections occurred. '
  'All output edges are horizontal, vertical or diagonal.',
  ['inputs', 'histories', 'configurations'], 'all scenes of 45-degree polygons (holes, overlaps, diagonal crossings at half-integer points), operators, operand representations and operator chains',
  'Tests sample a few handcrafted scenes and self-consistency; half-integer crossings come in many local configurations.',
  ['detail/boolean_op_45.hpp', 'polygon_45_set_data.hpp', 'polygon_45_set_concept.hpp', 'detail/polygon_45_set_view.hpp', 'detail/polygon_45_formation.hpp'],
  [('45-degree scanline', 'detail/boolean_op_45.hpp'), ('intersection and error tracking in clean', 'polygon_45_set_data.hpp')],
  ['get of the resulting polygon set, error data'],
  'runtime monitor: exact half-unit triangle raster oracle over sanitizer-instrumented executions'),

P('P04', 'Arbitrary-angle boolean operations are correct up to grid snapping',
  'For any collections of regions with edges of any angle, the boolean result covers every point that the exact set operation prescribes, except points within a small snapping distance (a few grid units) of input edges. '
  'All output vertices are integer points near the exact arrangement, and the operation always completes with a result. '
  'When no snapping is needed the result is exact.',
  ['inputs', 'histories', 'configurations'], 'all scenes of arbitrary polygons incl. near-parallel, nearly coincident and degenerate edges, holes and self-crossings, all operators and operand representations',
  'Floating point and snapping robustness depends on adversarial coincidences no finite test list covers.',
  ['polygon_set_data.hpp', 'polygon_set_concept.hpp', 'detail/scan_arbitrary.hpp', 'detail/polygon_set_view.hpp', 'detail/polygon_arbitrary_formation.hpp'],
  [('line intersection with snapping', 'detail/scan_arbitrary.hpp'), ('scanline over half edges', 'detail/scan_arbitrary.hpp')],
  ['get of the resulting polygon set'],
  'runtime monitor: exact point-location sampling oracle with snapping tolerance'),

P('P05', 'Polygons written out of a set are well formed and partition its area',
  'Polygons extracted from any polygon set have counterclockwise outer rings and clockwise holes that lie inside their outer ring, no repeated or collinear-degenerate rings, and the edge directions their type promises. '
  'They are pairwise interior-disjoint and cover the set exactly once, whether the output type supports holes or holes are cut open, and when a vertex limit is given no polygon exceeds it. '
  'Inserting the output into a fresh set reproduces the original set.',
  ['inputs', 'configurations'], 'all polygon sets, all output polygon types, both scanline orientations, all legal vertex limits',
  'Ring assembly has a case per vertex configuration; tests check only totals for a few scenes.',
  ['detail/polygon_formation.hpp', 'detail/polygon_45_formation.hpp', 'detail/polygon_arbitrary_formation.hpp', 'polygon_90_set_data.hpp', 'polygon_45_set_data.hpp', 'polygon_set_data.hpp'],
  [('partial polygon assembly along the scanline', 'detail/polygon_formation.hpp'), ('active tails with holes', 'detail/polygon_45_formation.hpp'), ('active tails with holes', 'detail/polygon_arbitrary_formation.hpp')],
  ['get / get_polygons with every polygon type'],
  'runtime monitor: structural ring invariants plus winding raster of the output'),

P('P06', 'Rectangle and trapezoid decompositions tile the region exactly',
  'Slicing a region into rectangles (Manhattan) or trapezoids (45-degree and arbitrary angle) yields pieces that do not overlap, are each sliced only along the requested direction, and together cover exactly the region. '
  'The maximal-rectangle cover consists of exactly the rectangles inside the region that cannot be grown in any direction.',
  ['inputs', 'configurations'], 'all regions, both slicing orientations, all engines',
  'Tests use a handful of shapes; completeness of the maximal cover and tiling of every local configuration are universally quantified.',
  ['detail/rectangle_formation.hpp', 'detail/max_cover.hpp', 'polygon_45_set_data.hpp', 'polygon_set_data.hpp', 'detail/polygon_arbitrary_formation.hpp', 'polygon_90_set_data.hpp'],
  [('scanline to rectangle iterator', 'detail/rectangle_formation.hpp'), ('directed line scan for maximal rectangles', 'detail/max_cover.hpp'), ('trapezoid scanline', 'detail/polygon_arbitrary_formation.hpp')],
  ['get_rectangles, get_trapezoids, get_max_rectangles'],
  'runtime monitor: tiling raster and brute-force maximal rectangle oracle'),

P('P07', 'Manhattan growing and shrinking equal dilation and erosion',
  'Growing a Manhattan region by given west, east, south and north distances yields exactly the union of its points displaced by every vector in that box, and shrinking yields exactly the points whose whole displaced box lies in the region. '
  'Holes close and parts vanish accordingly, and the one-dimensional, symmetric and asymmetric variants agree.',
  ['inputs', 'configurations'], 'all regions, all combinations of the four distances, both scan orientations, all entry points',
  'Tests resize a few shapes; corner handling depends on all convex/concave configurations and distances relative to feature size.',
  ['polygon_90_set_data.hpp', 'polygon_90_set_concept.hpp'],
  [('edge shift with count bookkeeping', 'polygon_90_set_data.hpp')],
  ['bloat, shrink, resize, grow_and and operators with numbers'],
  'runtime monitor: exact Minkowski raster oracle'),

P('P08', '45-degree and arbitrary-angle resizing stay within the offset bounds',
  'Growing a 45-degree region by d keeps every original point, adds the points within d of its edges and the corner fill of the chosen corner and rounding option, and adds nothing beyond them; shrinking by d removes exactly such points from the inside and adds none. '
  'Growing or shrinking an arbitrary-angle region with rounded corners adds or removes the points within the inscribed radius of the circle approximation and none beyond d, up to snapping. '
  'With mitred corners every edge of a shape whose features exceed the distance moves by exactly that distance up to rounding, and resizing by zero changes nothing.',
  ['inputs', 'configurations'], 'all regions, distances, corner fill options, rounding options and entry points',
  'Tests resize few shapes at few distances; corner fill has a case per pair of edge directions, rounding option and sign.',
  ['polygon_45_set_data.hpp', 'polygon_set_data.hpp', 'polygon_set_concept.hpp', 'polygon_45_set_concept.hpp'],
  [('edge and corner insertion', 'polygon_45_set_data.hpp'), ('edge and corner insertion', 'polygon_set_data.hpp')],
  ['resize, bloat, shrink, and operators with numbers'],
  'runtime monitor: distance-bound oracle on sampled points'),

P('P09', 'Overlap, interaction and size-filter operations select the right regions',
  'Self-intersection keeps exactly the points covered by at least two inserted regions and self-xor exactly those covered an odd number of times. '
  'Interaction keeps exactly the connected polygons of the first set that touch or overlap the second. '
  'Size filtering keeps exactly the polygons meeting the area and extent thresholds, and grow-and keeps exactly the overlaps that growing introduces.',
  ['inputs', 'configurations'], 'all scenes of overlapping/touching regions and thresholds',
  'Tests cover single examples of each.',
  ['polygon_90_set_concept.hpp', 'polygon_90_set_data.hpp', 'polygon_45_set_concept.hpp', 'polygon_45_set_data.hpp', 'polygon_set_concept.hpp', 'detail/boolean_op.hpp'],
  [('unary count scan', 'detail/boolean_op.hpp'), ('interact via touch graph', 'polygon_90_set_data.hpp'), ('keep', 'polygon_90_set_concept.hpp')],
  ['self_intersect, self_xor, interact, keep, grow_and'],
  'runtime monitor: cover-count raster and flood-fill oracle'),

P('P10', 'Property merge maps every point to exactly its set of input labels',
  'Merging labelled regions yields, for each set of labels, exactly the region of points covered by precisely the inputs with those labels, and each point covered by any input appears under exactly one label set. '
  'The result does not depend on insertion order or on duplicate insertions of the same label.',
  ['inputs', 'configurations'], 'all scenes, numbers of labels, engines (Manhattan, 45-degree, arbitrary angle), key containers',
  'Tests sample very few scenes; label sets combine exponentially.',
  ['detail/property_merge.hpp', 'detail/property_merge_45.hpp', 'detail/scan_arbitrary.hpp', 'polygon_90_set_concept.hpp', 'polygon_45_set_concept.hpp', 'polygon_set_concept.hpp'],
  [('property scanline', 'detail/property_merge.hpp'), ('arbitrary property scan', 'detail/scan_arbitrary.hpp')],
  ['property_merge_90, property_merge_45, property_merge'],
  'runtime monitor: per-cell label-set raster oracle'),

P('P11', 'Connectivity extraction links exactly the objects that touch',
  'After inserting any number of regions, connectivity extraction reports an edge between two objects exactly when their closed regions touch or overlap according to the engine\'s contact rule. '
  'The graph is symmetric and irreflexive, ids are issued consecutively from zero in insertion order, and it does not depend on insertion order.',
  ['inputs', 'histories'], 'all scenes incl. edge contacts, corner contacts, containment and duplicates; all engines',
  'Tests check single scenes.',
  ['detail/polygon_90_touch.hpp', 'detail/polygon_45_touch.hpp', 'detail/scan_arbitrary.hpp', 'polygon_90_set_concept.hpp', 'polygon_45_set_concept.hpp', 'polygon_set_concept.hpp'],
  [('touch scan events', 'detail/polygon_90_touch.hpp'), ('45 touch', 'detail/polygon_45_touch.hpp'), ('arbitrary connectivity', 'detail/scan_arbitrary.hpp')],
  ['connectivity_extraction_90, connectivity_extraction_45, connectivity_extraction'],
  'runtime monitor: pairwise exact geometric contact oracle'),

P('P12', 'Polygon measures, predicates and mutators agree with geometry',
  'For any polygon type the reported area, perimeter, bounding box, winding direction, centre and containment of a point match the exact geometry of its rings and holes, independent of starting vertex and direction. '
  'Moving, scaling, transforming, assigning and converting polygons changes exactly the vertices it should, and views between concepts present the same geometry.',
  ['inputs', 'configurations'], 'all polygons of every built-in type and all argument values',
  'Tests use a few hard-coded polygons.',
  ['polygon_traits.hpp', 'polygon_data.hpp', 'polygon_90_data.hpp', 'polygon_90_with_holes_data.hpp', 'polygon_with_holes_data.hpp', 'polygon_45_data.hpp', 'detail/iterator_points_to_compact.hpp', 'detail/iterator_compact_to_points.hpp'],
  [('free functions over polygon concepts', 'polygon_traits.hpp'), ('compact coordinate iterators', 'detail/iterator_compact_to_points.hpp')],
  ['area, perimeter, extents, winding, center, contains, move, scale, transform, assign, view_as'],
  'runtime monitor: reference geometry recomputed with exact arithmetic'),

P('P13', 'Interval and rectangle algebra is exact',
  'All interval and rectangle queries and mutations (containment, touching, intersection, abutment, encompassing, generalized intersection, bloating, moving, scaling, joining, halves, distances, corners) give exactly the result of the corresponding definition on closed intervals. '
  'Coordinates stay ordered (low never exceeds high) after every mutation.',
  ['inputs', 'histories'], 'all coordinates, flag values and operation sequences',
  'Tests check literals; edge inclusion and degenerate extents multiply cases.',
  ['interval_concept.hpp', 'interval_data.hpp', 'interval_traits.hpp', 'rectangle_concept.hpp', 'rectangle_data.hpp', 'rectangle_traits.hpp'],
  [('interval free functions', 'interval_concept.hpp'), ('rectangle free functions', 'rectangle_concept.hpp')],
  ['free functions on interval and rectangle objects'],
  'runtime monitor: definition-level model over enumerated and random operands'),

P('P14', 'Point and segment functions agree with exact geometry',
  'Point and segment accessors, orientation, containment, contact, intersection, distance, length and mutation functions return exactly what integer geometry prescribes. '
  'Splitting a list of segments at their intersections gives pieces that meet only at their ends, that join up to each input between its ends within the snapping distance, and that carry the right input index; the envelope of a list is its exact bounding box.',
  ['inputs'], 'all points and segments incl. degenerate and collinear ones and coordinates up to the type limits',
  'Tests check literals, predicates are quantified over all inputs.',
  ['point_concept.hpp', 'point_data.hpp', 'segment_concept.hpp', 'segment_data.hpp', 'segment_utils.hpp'],
  [('segment orientation and intersection', 'segment_concept.hpp'), ('segment scan', 'segment_utils.hpp')],
  ['free functions on points and segments, intersect_segments'],
  'runtime monitor: exact multiprecision reference predicates'),

P('P15', 'Directions, orientations and transformations obey their algebra',
  'Direction and orientation values convert, turn, reverse and compare consistently, and axis transformations form the group of eight plane symmetries: composition applied to a point equals applying them one after the other, and inversion undoes. '
  'Full transformations with displacement, and scalings, compose, invert and act on all geometry types consistently.',
  ['inputs', 'histories'], 'all direction and transformation values, compositions and points',
  'Tests touch few values.',
  ['isotropy.hpp', 'transform.hpp'],
  [('axis_transformation encoding', 'transform.hpp'), ('direction types', 'isotropy.hpp')],
  ['axis_transformation, transformation, scale factors, direction and orientation types'],
  'runtime monitor: matrix model, exhaustive over the finite group plus random displacement'),

P('P16', 'A Voronoi diagram is a consistent planar structure',
  'For every input the diagram\'s half-edges satisfy twin, next, previous, rotation and incidence relations mutually, every cell is owned by exactly one source and its edges form one cycle (or open chain at infinity), and colors start at zero. '
  'Vertex, edge and cell counts obey Euler\'s relation and infinite edges appear exactly where cells are unbounded.',
  ['inputs', 'configurations'], 'all sets of points and non-crossing segments',
  'Tests check a few named inputs and random points of one scale.',
  ['voronoi_diagram.hpp', 'voronoi_builder.hpp'],
  [('half-edge construction and cleanup of degenerate edges', 'voronoi_diagram.hpp'), ('sweep events', 'voronoi_builder.hpp')],
  ['the constructed diagram'],
  'runtime monitor: structural invariant walker over constructed diagrams'),

P('P17', 'Voronoi cells contain exactly the points nearest to their source',
  'Every Voronoi vertex is equidistant, within the documented relative error, from the sources of its cells and no source is closer; every edge separates exactly its two sources and is curved exactly when it separates a point from a segment. '
  'For any query point the source whose cell contains it is a nearest source.',
  ['inputs'], 'all sets of integer points and segments that meet only at endpoints, incl. cocircular and near-degenerate ones and extreme coordinates',
  'Numerical robustness at near-degenerate inputs is not sampled by the tests.',
  ['voronoi_builder.hpp', 'detail/voronoi_predicates.hpp', 'detail/voronoi_robust_fpt.hpp', 'voronoi_diagram.hpp', 'detail/voronoi_structures.hpp'],
  [('exact predicates and lazy circle formation', 'detail/voronoi_predicates.hpp')],
  ['vertex coordinates, edge sources, cell source categories'],
  'runtime monitor: empty-circle and nearest-source oracle in extended precision'),

P('P18', 'Voronoi construction depends only on the set of sites',
  'The diagram does not depend on the order in which points and segments are inserted or on segment direction beyond source numbering; each cell identifies an input by its insertion index and role, and duplicate points share one cell. '
  'Builders can be reused and diagrams cleared and refilled with the same outcome, and degenerate inputs (nothing, one site, collinear sites) produce the specified diagrams.',
  ['inputs', 'histories'], 'all permutations, duplicates and reuse histories',
  'Tests build each diagram once in one order.',
  ['voronoi_builder.hpp', 'voronoi_diagram.hpp', 'voronoi.hpp', 'voronoi_geometry_type.hpp'],
  [('site sorting and deduplication', 'voronoi_builder.hpp'), ('cell and source recording', 'voronoi_diagram.hpp')],
  ['cell source index/category, canonical form of the diagram'],
  'runtime monitor: metamorphic comparison of canonical diagrams'),

P('P19', 'Fixed-width big integers and robust floats compute correctly',
  'Extended integers add, subtract, multiply, compare, negate and convert exactly whenever the result fits their width, and extended-exponent floats follow real arithmetic to rounding for any exponent. '
  'Robust floating expressions keep their true relative error within the error they report, and sums of square-root terms are accurate to the stated bound.',
  ['inputs'], 'all operand values, signs and magnitudes',
  'Tests check short lists of operands.',
  ['detail/voronoi_ctypes.hpp', 'detail/voronoi_robust_fpt.hpp'],
  [('limb arithmetic', 'detail/voronoi_ctypes.hpp'), ('error-tracked arithmetic and robust square-root expressions', 'detail/voronoi_robust_fpt.hpp')],
  ['the numeric types directly'],
  'runtime monitor: differential against arbitrary-precision arithmetic'),

P('P20', 'Voronoi predicates decide orderings exactly',
  'The orientation predicate and the point circle-existence test are exact for all 32-bit coordinates, and site events are strictly and consistently ordered (antisymmetric, transitive, by position). '
  'Circle events, beach line breakpoints and site-versus-circle comparisons are decided correctly whenever the compared values differ by more than the documented rounding range (64 units in the last place), and circle events are computed within 64 epsilon relative error.',
  ['inputs'], 'all triples/pairs of sites over the full 32-bit coordinate range',
  'Tests check a few literal configurations.',
  ['detail/voronoi_predicates.hpp', 'detail/voronoi_structures.hpp'],
  [('robust cross product, lazy + exact circle formation', 'detail/voronoi_predicates.hpp')],
  ['predicate functors directly'],
  'runtime monitor: differential against multiprecision predicates'),

P('P21', 'No memory error, undefined behaviour or leak on any legal input',
  'No operation of the library on legal input reads or writes outside its objects, uses freed or uninitialised storage, invalidates iterators it goes on to use, invokes undefined arithmetic, leaks storage or fails to terminate. '
  'This includes empty and degenerate inputs and containers, and coordinates up to the documented range.',
  ['inputs', 'histories'], 'all legal inputs and call sequences over every engine',
  'Plain tests do not observe memory errors at all.',
  ['polygon.hpp', 'voronoi.hpp', 'detail/polygon_formation.hpp', 'detail/scan_arbitrary.hpp', 'detail/polygon_45_formation.hpp', 'detail/polygon_arbitrary_formation.hpp'],
  [('manual tail and polyline ownership', 'detail/polygon_formation.hpp'), ('scanline iterators held across erase', 'detail/scan_arbitrary.hpp')],
  ['sanitizer reports, allocation balance, debug iterators'],
  'sanitizers: ASan+UBSan, debug-mode iterators, allocation-balance monitor on hostile workloads'),

P('P22', 'Independent objects can be used from several threads at once',
  'Threads that each work on their own polygon sets, engines, diagrams and expressions never race with each other and obtain the same results as sequential execution.',
  ['schedules', 'inputs'], 'all interleavings of operations on distinct objects across all engines',
  'The test suite is single threaded.',
  ['polygon_set_data.hpp', 'polygon_45_set_data.hpp', 'polygon_90_set_data.hpp', 'voronoi_builder.hpp', 'detail/scan_arbitrary.hpp', 'detail/boolean_op_45.hpp'],
  [('absence of shared mutable state', 'detail/scan_arbitrary.hpp')],
  ['thread sanitizer reports and per-thread results'],
  'race detector: ThreadSanitizer with injected yields, plus equality with sequential results'),

P('P23', 'Set operations commute with symmetries and translations of the plane',
  'Applying any of the eight axis symmetries, a translation, or an exact integer upscaling to all inputs of a boolean, decomposition, resize, merge or connectivity operation transforms its result correspondingly. '
  'For arbitrary-angle data this holds up to the snapping tolerance.',
  ['inputs', 'configurations'], 'all scenes and symmetries, all engines',
  'Directional bugs hide where tests only use one orientation.',
  ['polygon_90_set_data.hpp', 'polygon_45_set_data.hpp', 'polygon_set_data.hpp', 'transform.hpp'],
  [('transform of set data', 'polygon_45_set_data.hpp'), ('scale and rounding', 'polygon_set_data.hpp')],
  ['results of transformed inputs vs transformed results'],
  'runtime monitor: metamorphic relation over sanitizer-instrumented executions'),

P('P24', 'Simplification and Minkowski sums respect their bounds',
  'Simplifying a polygon set removes exactly the vertices lying within the tolerance of the segment joining their current neighbours, repeatedly until no such vertex is left, and drops rings that collapse. '
  'It moves or adds no vertex, returns the number removed, and with zero tolerance leaves the region unchanged. '
  'The Minkowski sum of two polygon sets covers exactly the vector sums of their points, holes included, up to snapping.',
  ['inputs'], 'all polygons, thresholds and operand pairs',
  'Tests sample single instances.',
  ['detail/polygon_simplify.hpp', 'detail/minkowski.hpp', 'polygon_set_concept.hpp'],
  [('vertex-dropping simplifier', 'detail/polygon_simplify.hpp'), ('convolution of edges', 'detail/minkowski.hpp')],
  ['simplify, minkowski sums'],
  'runtime monitor: distance-bound and vector-sum membership oracle'),

P('P25', 'User-defined geometry types behave as the built-in ones',
  'User types mapped through the documented traits (points, intervals, rectangles, polygons, polygons with holes, polygon sets, segments) give exactly the same results as the library\'s own types in every free function and operator. '
  'Results can be delivered into user types without loss.',
  ['inputs', 'configurations'], 'all inputs, all concepts with non-native types',
  'Only three example programs use custom types.',
  ['polygon_traits.hpp', 'polygon_set_traits.hpp', 'point_traits.hpp', 'rectangle_traits.hpp', 'polygon_90_set_traits.hpp', 'polygon_45_set_traits.hpp'],
  [('traits indirection', 'polygon_traits.hpp')],
  ['free functions on user types vs library types'],
  'runtime monitor: differential between user-defined and built-in types'),

P('P26', 'The three boolean engines agree on the geometry they share',
  'Manhattan input processed by the 45-degree and arbitrary-angle engines, and 45-degree on-grid input processed by the arbitrary-angle engine, gives the same regions as their specialised engines for boolean operations, area, decomposition, property merge and connectivity. '
  'Conversions of sets between the engines preserve the region.',
  ['inputs', 'configurations'], 'all scenes valid for more than one engine',
  'The engines are tested separately.',
  ['polygon_90_set_data.hpp', 'polygon_45_set_data.hpp', 'polygon_set_data.hpp', 'detail/scan_arbitrary.hpp', 'detail/boolean_op_45.hpp', 'detail/boolean_op.hpp'],
  [('specialisation on is_45/is_manhattan', 'polygon_set_data.hpp')],
  ['results of the same input through different set types'],
  'runtime monitor: differential execution of engines'),

P('P27', '45-degree and arbitrary-angle polygon sets denote point sets under any history',
  'After any sequence of member and free-function calls on polygon_45_set_data and polygon_set_data objects (insertion of every geometry kind and of other sets and ranges, holes, clear, copy, assignment, swap, boolean assignment and chained expressions, self-operations, transform, scale, clean, sort, set, round trips through polygons) a set denotes exactly the point set the calls describe. '
  'get, iteration, trapezoid fracture, area, extents, empty, equality and equivalence agree with that point set whenever they are asked, and asking never changes it. '
  'For 45-degree and lattice input this is exact; for arbitrary-angle input with off-grid crossings it holds up to the snapping distance.',
  ['inputs', 'histories'], 'all finite call histories within the coordinate bounds',
  'The 45-degree and general set classes cache sortedness, overlap, Manhattan and error state in mutable members; the tests use short fixed sequences.',
  ['polygon_45_set_data.hpp', 'polygon_set_data.hpp', 'polygon_45_set_concept.hpp', 'polygon_set_concept.hpp', 'detail/polygon_45_set_view.hpp', 'detail/polygon_set_view.hpp'],
  [('lazy clean/sort flags', 'polygon_45_set_data.hpp'), ('lazy clean/sort flags', 'polygon_set_data.hpp')],
  ['observations after random call histories'],
  'runtime monitor: executable point-set model run alongside the real objects'),
]
