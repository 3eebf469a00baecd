"""Per-property configuration of the monitors: which harness parts are built with
which sanitizer.  The number of cases per family lives in the harness itself."""

COMMON_ASSUMPTIONS = [
    'verdicts cover only the executions produced by the recorded seeds; nothing is claimed about inputs never generated',
    'the oracle in /verif/harness is trusted (exact integer or multiprecision arithmetic, written without library code)',
    'gcc/clang, libstdc++ and the installed Boost headers the library depends on are trusted',
]


def B(src, parts, san='asan', **kw):
    return [dict(src=src, part=p, san=san, **kw) for p in parts]


CHECKS = {
    'P01': dict(
        builds=B('p01.cpp', range(7)),
        rule='random Manhattan scenes (rectangles, traced regions with holes, self-crossing rings, subtractive inserts) on shared coordinate pools '
             'incl. near the coordinate limits; every operator, operand representation, scan orientation and output form; a case counts when the expected '
             'result is non-empty and both operands are non-empty; distinct by hash of geometry, operator and forms',
        must_observe=['region comparisons'],
    ),
    'P02': dict(
        builds=B('p02.cpp', range(2)),
        rule='random histories over two Manhattan polygon sets (38 kinds of mutation, 9 kinds of observation) against a cover-count model; a history counts '
             'when some step left a non-empty set; distinct by hash of operations and final model',
        must_observe=['observations', 'mutations'],
    ),
    'P07': dict(
        builds=B('p07.cpp', range(2)),
        rule='random Manhattan regions with holes, four distances chosen around the feature sizes, every entry point (member, free function, container, '
             'operator, direction and orientation variants); counts when the expected result or the shrunk input is non-empty; distinct by hash of geometry, distances and form',
        must_observe=['region comparisons'],
    ),
    'P03': dict(
        builds=B('p03.cpp', range(2)),
        rule='random 45-degree regions with holes built from quarter-cell triangles (all crossings on integer points) or from half-cell triangles '
             '(off-grid crossings), near the origin and near the coordinate limits; every operator and operand form; a case counts when the expected result is '
             'non-empty and both operands are non-empty; distinct by hash of geometry, operator and forms',
        must_observe=['region comparisons', 'scenes with off-grid crossings'],
    ),
    'P04': dict(
        builds=B('p04.cpp', [0, 2]) + B('p04.cpp', [1], libs=['-lgmpxx', '-lgmp']),
        rule='random arbitrary-angle polygons with holes (star-shaped, slivers, tiny features, shared vertices) over windows from 6 units to 2^28, and lattice scenes '
             'scaled so that every crossing is an integer point; every operator and operand form; counts when the expected result and both operands are non-empty; '
             'distinct by hash of geometry, operator and forms',
        must_observe=['region comparisons'],
    ),
    'P05': dict(
        builds=B('p05.cpp', range(3)),
        rule='random Manhattan, 45-degree and arbitrary-angle regions with holes, nested islands, corner contacts and off-grid crossings; every output polygon type, '
             'scan orientation and vertex limits from 4 to 15; counts when the region is non-empty; distinct by hash of geometry and output form',
        must_observe=['polygons inspected', 'holes inspected', 'region comparisons'],
    ),
    'P06': dict(
        builds=B('p06.cpp', range(3)),
        rule='random Manhattan, 45-degree and arbitrary-angle regions with holes; every decomposition entry point, scan and slicing orientation; maximal-rectangle '
             'covers against a brute-force enumeration on the coordinate raster; counts when the region is non-empty; distinct by hash of geometry and form',
        must_observe=['rectangles inspected', 'trapezoids inspected', 'maximal rectangles compared', 'exact tilings'],
    ),
    'P11': dict(
        builds=B('p11.cpp', range(3)),
        rule='2 to 8 random objects (regions with holes, corner contacts, identical and nested objects, mixed scan orientations) inserted in random order as sets, '
             'containers or single polygons, with copies of the extractor and extractions in between; counts when at least two objects are present; distinct by hash of geometry',
        must_observe=['pairs judged', 'links', 'extractor copies', 'partial extractions'],
    ),
    'P09': dict(
        builds=B('p09.cpp', range(3)),
        rule='random Manhattan, 45-degree and arbitrary-angle sets with overlapping, touching and separate pieces; overlap, interaction, size-filter and grow-and entry points (member, free function, container); thresholds drawn around the measures of the pieces; counts when the expected result or the operands are non-empty; distinct by hash of geometry, operation and form',
        must_observe=['region comparisons', 'components kept', 'components dropped', 'pieces kept', 'pieces filtered', 'operations on cleaned sets'],
    ),
    'P10': dict(
        builds=B('p10.cpp', range(3)),
        rule='distinct labelled scenes with at least two insertions',
        must_observe=['cells judged', 'label sets seen'],
    ),
    'P13': dict(
        builds=B('p13.cpp', range(1)),
        rule='distinct operand tuples',
        must_observe=['interval facts', 'rectangle facts', 'joins'],
    ),
    'P15': dict(
        builds=B('p15.cpp', range(1)),
        rule='a case is one distinct tuple of direction/orientation or transformation arguments and points on which every algebra fact was evaluated against a spelled-out table of the plane symmetries',
        must_observe=['isotropy facts', 'transformation facts', 'scale facts'],
    ),
    'P14': dict(
        builds=B('p14.cpp', range(1)),
        rule='a case is a distinct tuple of two segments and a point, or a distinct list of at least two segments to split',
        must_observe=['point and segment facts', 'segments that meet', 'distances compared', 'pieces judged', 'inner contacts split'],
    ),
    'P16': dict(
        builds=B('p16.cpp', range(1)),
        rule='a case is a distinct point and segment set of at least two sites whose whole half-edge structure was walked',
        must_observe=['edges judged', 'vertices judged', 'cells judged', 'infinite ends', 'curved edges', 'secondary edges', 'hull cells compared'],
    ),
    'P17': dict(
        builds=B('p17.cpp', range(1)),
        rule='a case is the diagram of a distinct generated point and segment inputs: every vertex, edge sample, ray and nearest-site transition compared with brute force over all sites; exact circumcenters and exact pair adjacency for point sets',
        must_observe=['vertices judged', 'edges judged'],
    ),
    'P18': dict(
        builds=B('p18.cpp', range(1)),
        rule='a case is a distinct site set whose diagram was rebuilt from permuted, reversed, duplicated and re-used insertions and compared in canonical form',
        must_observe=['diagrams compared', 'permutations', 'reuses', 'free function constructions'],
    ),
    'P19': dict(
        builds=B('p19.cpp', range(1)),
        rule='a case is a distinct operand tuple (and operation sequence) whose results were compared with boost::multiprecision',
        must_observe=['integer results compared', 'integer comparisons', 'integer conversions', 'extended float results compared', 'robust results compared', 'difference results compared', 'square root sums compared', 'vanishing square root sums', 'ulp comparisons'],
    ),
    'P12': dict(
        builds=B('p12.cpp', range(3)),
        rule='a case is a distinct polygon (with holes) measured, queried, moved, transformed, scaled and converted as every built-in type that can represent it',
        must_observe=['areas', 'perimeters', 'windings', 'centres', 'points located', 'points on boundaries', 'points inside', 'mutations', 'conversions', 'views', 'empty polygons'],
    ),
    'P20': dict(
        builds=B('p20.cpp', range(1)),
        rule='a case is a distinct site set whose construction was observed predicate call by predicate call, or a distinct batch of direct predicate arguments over the full 32-bit range',
        must_observe=['orientations', 'site orders', 'transitive triples', 'circle orders', 'site circle orders', 'node orders', 'point-point breakpoints', 'point-segment breakpoints', 'segment-point breakpoints', 'segment-segment breakpoints', 'circle candidates', 'circles of points', 'circles of two points and a segment', 'circles of a point and two segments', 'circles of three segments'],
    ),
    'P23': dict(
        builds=B('p23.cpp', range(3)),
        rule='a case is a distinct pair of scenes with an operation and a symmetry, translation or upscaling, run before and after the map, or a set-level map judged against the mapped point set',
        must_observe=['regions compared', 'labels compared', 'rectangle lists compared', 'set maps'],
    ),
    'P26': dict(
        builds=B('p26.cpp', range(2)),
        rule='a case is a distinct pair of Manhattan or on-grid 45-degree scenes converted between the engines in a random way and run through one operation on every engine that accepts it; all results are judged against the exact raster or slab-sweep oracle',
        must_observe=['region comparisons', 'engine triples compared', 'engine pairs compared', 'conversions judged', 'areas compared', 'decompositions compared', 'merges compared', 'graphs compared', 'mixed operands judged'],
    ),
    'P08': dict(
        builds=B('p08.cpp', range(3)),
        rule='random 45-degree scenes and general shapes, distances from one unit to a third of the scene, every rounding and corner option and entry point: sampled points near every offset edge and corner are judged against required and allowed offset pieces; convex octagons and large simple shapes are compared with the exact mitred offset; a case counts when at least one point changed',
        must_observe=['points judged', 'points added', 'points removed', 'exact offsets', 'shapes judged'],
    ),
    'P24': dict(
        builds=B('p24.cpp', range(2)),
        rule='random general shapes and roughened outlines simplified with tolerances from zero to a quarter of the scene, compared with the exact vertex-dropping pass; random operand pairs with holes convolved and sampled points judged against exact intersection of one operand with the reflected other; a case counts when a vertex is removed or a sum point is judged inside',
        must_observe=['vertices removed', 'rings vanished', 'zero tolerance', 'sum points inside', 'sum points outside'],
    ),
    'P25': dict(
        builds=B('p25.cpp', range(6)) + B('p25.cpp', [2, 4, 5], defs=['-DI64']),
        rule='observations of a run with user-defined types are compared one by one with the same run on library types; a case counts when it made at least one observation',
        must_observe=['observations-compared', 'predicates-true', 'user-set-operations'],
    ),
    'P22': dict(
        builds=B('p22.cpp', [0, 1, 2, 4, 5, 6], san='tsan'),
        rule='a case is a distinct recorded interleaving of two to four threads, each running its own list of engine workloads with yields injected in the allocator; it counts when operations of different threads overlapped; every observation is compared with the sequential run',
        must_observe=['threads', 'overlapping operations', 'yields injected', 'observations compared'],
    ),
    'P21': dict(
        builds=B('p21.cpp', [0, 1, 2, 4, 5], san='asan-dbg') + B('p21.cpp', [0, 1, 2, 4, 5], san='msan', scale=2.0, cpu=60),
        rule='a case is a distinct workload, degenerate shape or call history executed under address and undefined-behaviour sanitizers with debug iterators and an allocation balance around it',
        must_observe=['allocations balanced', 'operations balanced', 'observations', 'degenerate queries', 'history calls', 'pieces delivered', 'voronoi vertices'],
    ),
    'P27': dict(
        builds=B('p27.cpp', range(2)),
        rule='a case is a distinct history of member and free calls on two sets, each observation compared with an executable model; it counts when some observed region was not empty',
        must_observe=['region comparisons', 'observations', 'mutations'],
    ),
}
