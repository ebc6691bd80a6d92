"""The properties (properties.jsonl is generated from this)."""
E2E = "The tests run a few dozen hand-picked figures and compare snapshots; "
S = [
 dict(id='C01', title='Boolean operations compute the right region',
  statement='For every pair of closed paths with finite coordinates, each fill rule and each operation, a point further than a small multiple of the tolerance from both outlines is enclosed by the result exactly if the operation, applied to whether the point is inside the first and inside the second path under the fill rule, says so. Two empty inputs, or inputs that enclose nothing, give an empty result.',
  all='all pairs of closed paths (lines and Béziers), both fill rules, all four operations, all points off the outlines',
  why=E2E+'the property quantifies over all inputs and all points of the plane, and over all pairs of winding numbers.',
  files=['src/lib.rs', 'src/topology.rs', 'src/sweep/sweep_line.rs'],
  where=[('binary_op / binary_op_with_eps and the closure deciding inside', 'src/lib.rs'), ('Topology::contours', 'src/topology.rs'), ('Sweeper (order of segments)', 'src/sweep/sweep_line.rs')]),
 dict(id='C02', title='Unusable input is reported as an error, usable input is accepted',
  statement='A boolean operation on paths containing a NaN or an infinite coordinate returns the corresponding error, on a path that is not closed it returns an error naming its end points, and otherwise it succeeds. The default tolerance is positive and scales with the size of the inputs so that it stays above the resolution of the coordinates.',
  all='all paths, including those with NaN, infinite, huge and tiny coordinates',
  why='No test feeds non-finite coordinates; the quantifier is over all 64-bit floating-point values.',
  files=['src/lib.rs', 'src/segments.rs'],
  where=[('binary_op', 'src/lib.rs'), ('Error', 'src/lib.rs'), ('Segments::add_bez_path, NonClosedPath', 'src/segments.rs')]),
 dict(id='C03', title='Result outlines are closed, continuous, finite and lie on the inputs',
  statement='Every contour of a result is one closed path that ends exactly where it starts and has only finite coordinates, including control points. Every point on it lies within a small multiple of the tolerance of the outline of one of the inputs.',
  all='all pairs of closed paths, fill rules, operations and tolerances',
  why=E2E+'a gap or a stray control point needs a particular arrangement of near-horizontal curves and crossings.',
  files=['src/topology.rs', 'src/position.rs'],
  where=[('segs_to_path, can_merge', 'src/topology.rs'), ('compute_positions', 'src/position.rs')]),
 dict(id='C04', title='Contours are nested, oriented and grouped correctly',
  statement='The contours of a result, taken together, wind once around every point of the result and not at all around others; outer contours all run in one direction and holes in the other. A contour lies inside its parent, is outer exactly if its parent is not, and the grouping lists every contour exactly once, in a group that starts with a parentless contour and in which parents precede their children.',
  all='all pairs of closed paths, fill rules, operations; all parent/child trees for the grouping',
  why=E2E+'contours that touch themselves or each other at a point occur in only a few tests, and none checks the hierarchy of such results.',
  files=['src/topology.rs'],
  where=[('Topology::contours', 'src/topology.rs'), ('Contours::grouped', 'src/topology.rs')]),
 dict(id='C05', title='Winding numbers of the computed topology are consistent and right',
  statement='In the topology computed from any set of closed paths, going once around any point of it crosses its segments in a cyclic order in which the winding number on one side of each segment equals the winding number on the facing side of the next. The winding numbers next to a segment are the ones of the input paths there, computed separately for each input.',
  all='all sets of closed paths; all points and segments of the topology',
  why='The invariant checks inside the library run only in tests, on the tested figures, and compare neighbours but not against the input.',
  files=['src/topology.rs'],
  where=[('process_sweep_line_range, add_segs_clockwise, second_half_segs', 'src/topology.rs'), ('merge_coincident, delete', 'src/topology.rs'), ('WindingNumber implementations', 'src/topology.rs')]),
 dict(id='C06', title='The segment store represents the input paths faithfully',
  statement='Adding a path stores monotone segments which, followed along the contour links, trace exactly that path with its orientation; next and previous are mutually inverse and cyclic for closed paths. Every segment runs downwards (or rightwards if horizontal), and the entry and exit lists hold each segment that is not horizontal exactly once (and horizontal ones at their height), sorted by height, however many paths are added and in whatever order.',
  all='all finite paths, polylines and sequences of additions', over=['inputs', 'histories'],
  why='Tests build single figures; links and orientation after several additions and for degenerate pieces are never compared with the path.',
  files=['src/segments.rs', 'src/geom.rs'],
  where=[('Segments::add_path_without_updating_enter_exit, add_points, update_enter_exit', 'src/segments.rs'), ('contour_next, contour_prev, positively_oriented', 'src/segments.rs')]),
 dict(id='C07', title='The sweep visits every segment completely and in order',
  statement='Sweeping any collection of segments reports heights in strictly increasing order, and for each segment a chain of positions that begins at the height of its start, ends at the height of its end, and is connected: each reported piece begins where the previous one ended. Every reported position lies within a small multiple of the tolerance of its segment.',
  all='all collections of segments and tolerances',
  why=E2E+'the trace of the sweep is only snapshot-tested on small figures.',
  files=['src/sweep/mod.rs', 'src/sweep/sweep_line.rs', 'src/sweep/range.rs', 'src/sweep/output_event.rs'],
  where=[('Sweeper::next_line, advance', 'src/sweep/sweep_line.rs'), ('SweepLine::next_range', 'src/sweep/sweep_line.rs'), ('SweepLineRange::events', 'src/sweep/range.rs')]),
 dict(id='C08', title='Orders used for sorting and scheduling are total and mean what they say',
  statement='The comparisons of floating-point keys, points, sweep events and queue entries are reflexive, antisymmetric, transitive and total, agree with equality and hashing, and follow the stated key order (height first). Two different values never compare equal.',
  all='all 64-bit floating-point values and all index values',
  why='Tests sort a few finite numbers; ties, signed zeros and mixed keys are not enumerated.',
  files=['src/num.rs', 'src/geom.rs', 'src/sweep/output_event.rs', 'src/sweep/sweep_line.rs', 'src/position.rs'],
  where=[('CheapOrderedFloat', 'src/num.rs'), ('Point::cmp', 'src/geom.rs'), ('OutputEvent::cmp', 'src/sweep/output_event.rs'), ('IntersectionEvent::cmp', 'src/sweep/sweep_line.rs'), ('HeapEntry::cmp', 'src/position.rs')]),
 dict(id='C09', title='The recorded order of two curves partitions the heights soundly',
  statement='The comparison of two curves is a sequence of height intervals that cover their common range without gaps or overlaps, each with one verdict, neighbouring verdicts being different. Looking up a height gives the verdict of the interval containing it, exchanging the curves reverses every verdict, and allowing vertical slop only ever widens undecided intervals, by at most the slop.',
  all='all interval sequences, heights and slops; all pairs of curves',
  why='Tests look at a handful of curve pairs; interval boundaries, merging and slop interact for every sequence of lengths.',
  files=['src/curve/mod.rs', 'src/order.rs'],
  where=[('CurveOrder::push, iter, flip, with_y_slop, order_at, entry_at, order_after, next_touch_after', 'src/curve/mod.rs'), ('ComparisonCache::compare_segments', 'src/order.rs')]),
 dict(id='C10', title='The sweep-line container behaves as a sequence',
  statement='The tree that stores the segments crossing the sweep line behaves exactly like a plain sequence: inserting, removing, replacing and looking up at a position, iterating over any range and binary-searching give what they would on a list. This holds for every size and every history of operations.',
  all='all histories of operations, all sizes, all node capacities of at least four', over=['histories', 'inputs', 'configurations'],
  why='The property tests sample short histories; splitting and merging of nodes at every level needs large trees in particular shapes.',
  files=['src/treevec.rs'],
  where=[('TreeVec, InternalNode, LeafNode', 'src/treevec.rs')]),
 dict(id='C11', title='Scheduled events are delivered once, in order of height',
  statement='The event queue announces the smallest pending height, delivers at each height every segment that starts there, every segment that ends there and every crossing scheduled for that height exactly once, and never announces a height twice after its events were taken. Crossings at one height are delivered in a fixed order that does not depend on the order of scheduling.',
  all='all collections of segments and all histories of scheduling', over=['histories', 'inputs'],
  why='Tests only drive the queue through whole sweeps of small figures.',
  files=['src/sweep/sweep_line.rs'],
  where=[('EventQueue::next_y, entrances_at_y, exits_at_y, next_intersection_at_y, push', 'src/sweep/sweep_line.rs')]),
 dict(id='C12', title='Curves are split into monotone pieces without loss',
  statement='Splitting a cubic Bézier gives pieces that each run in one vertical direction, join end to end, begin and end at the ends of the curve, and follow it in parameter order over the whole parameter range, up to a deviation far below any tolerance. A horizontal piece becomes a straight line.',
  all='all finite cubic Béziers',
  why='A few curves are tested; degenerate control polygons and roundings at the turning points are not.',
  files=['src/geom.rs'],
  where=[('monotonic_pieces, force_monotonic', 'src/geom.rs')]),
 dict(id='C13', title='Numeric kernels stay within their stated ranges',
  statement='Solving for the parameter at a height always gives a parameter between 0 and 1; the sub-curve between two heights starts and ends exactly at those heights; the two roots of a quadratic are ordered and the quadratic has the stated signs around them; the bound of a quadratic over an interval is never below its value at any point of the interval up to rounding.',
  all='all finite inputs',
  why='Tests sample solver inputs; cancellation and overflow need particular magnitudes.',
  files=['src/curve/mod.rs', 'src/curve/transverse.rs', 'src/geom.rs'],
  where=[('solve_t_for_y, y_subsegment, monic_quadratic_roots, Quadratic::signs', 'src/curve/mod.rs'), ('quad_max_between', 'src/curve/transverse.rs'), ('Segment::at_y, min_x, max_x', 'src/geom.rs')]),
 dict(id='C14', title='Changed intervals of the sweep line are merged without losing any',
  statement='Merging the changed intervals of one sweep line gives disjoint, sorted, non-adjacent intervals that cover exactly the positions covered before, and an interval is marked as having horizontals exactly if one merged into it was. The horizontals of a sweep line are handed out exactly once, at the interval they cross.',
  all='all lists of intervals and all sets of horizontals',
  why='One example list is tested.',
  files=['src/sweep/sweep_line.rs'],
  where=[('merge_adjacent, ChangedInterval::merge, from_seg_interval', 'src/sweep/sweep_line.rs')]),
 dict(id='C15', title='Comparisons of segments are consistent and cached faithfully',
  statement='Within one cache, comparing two segments gives the same answer whenever it is asked, and the reversed answer when they are exchanged, whatever was asked before. A verdict that one is left of the other at a height is never contradicted by their positions at that height by more than the tolerance.',
  all='all pairs of segments, all query histories', over=['inputs', 'histories'],
  why='Tests never query the cache in both directions or compare verdicts with positions.',
  files=['src/order.rs', 'src/curve/mod.rs'],
  where=[('ComparisonCache::compare_segments', 'src/order.rs'), ('intersect_cubics', 'src/curve/mod.rs')]),
 dict(id='C16', title='Positions along a sweep line keep the order and stay within tolerance',
  statement='The horizontal positions assigned to the segments crossing a height are non-decreasing from left to right, in the order of the segments before the height as well as in the order after it. Each lies within the tolerance band of its segment at that height whenever the order allows it at all.',
  all='all orders of segments and heights',
  why='Only exercised through whole sweeps of small figures.',
  files=['src/sweep/sweep_line.rs', 'src/geom.rs'],
  where=[('feasible_horizontal_positions', 'src/sweep/sweep_line.rs'), ('Segment::lower, upper', 'src/geom.rs')]),
 dict(id='C17', title='Neighbour queries along the sweep return the recorded neighbour',
  statement='Asking for the left or right neighbour of an output segment after a height returns the neighbour recorded last at or before that height, and none if there is none. Left and right answers are mirror images of each other: if one segment is the right neighbour of another at a height, that one is its left neighbour there.',
  all='all recorded histories of neighbours and heights', over=['inputs', 'histories'],
  why='One test covers one query; boundaries between records are not enumerated.',
  files=['src/topology.rs'],
  where=[('HalfScanLineOrder::neighbor_after, iter, close_neighbor_height_after', 'src/topology.rs'), ('build_scan_line_orders', 'src/topology.rs')]),
 dict(id='C18', title='Output segments are laid out between their end points, in order',
  statement='The path laid out for each output segment starts and ends exactly at its two end points, never turns back upwards, and stays within a small multiple of the tolerance of the input segment it came from. Paths of neighbouring segments do not pass each other: at every height they lie in the order recorded for it (exactly at tolerances that are fine compared with the shape, otherwise up to a small multiple of the tolerance).',
  all='all topologies computed from closed paths',
  why='Snapshot tests draw a few figures; order and monotonicity of the layout are not asserted.',
  files=['src/position.rs'],
  where=[('compute_positions, ordered_curves_all_close, approximate', 'src/position.rs')]),
 dict(id='C19', title='Between events the sweep line is in order and forgets no crossing',
  statement='After the events of each height, the sweep line holds exactly the segments that begin at or above the height and end below it, each once; those leaving end at the height. No segment stands left of one it is definitely right of, unless a segment between them is definitely separated from one of them. For any two segments on the line that meet further down, an end of a segment or a scheduled crossing between them comes no later, or a segment between them keeps them apart.',
  all='all collections of segments and all heights of the sweep',
  why='The invariant checks inside the library run only in slow builds on the tested figures; losing a crossing needs several segments that meet near one another.',
  files=['src/sweep/sweep_line.rs', 'src/curve/mod.rs'],
  where=[('Sweeper::handle_intersection, handle_enter, handle_exit', 'src/sweep/sweep_line.rs'), ('intersection_scan_left, intersection_scan_right, scan_for_removal', 'src/sweep/sweep_line.rs'), ('SegmentOrder::insertion_idx', 'src/sweep/sweep_line.rs'), ('CurveOrder::next_touch_after', 'src/curve/mod.rs')]),
]
PENDING = 'No check built (yet) in this framework.'
NOT_APPLICABLE = {p['id']: PENDING for p in S}
