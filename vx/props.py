TRUSTED = [
    'Verus 0.2026.09.13 (VIR, AIR, Z3) and its vstd specifications of the Rust standard library',
    'Kani 0.68.0, CBMC and its SAT back ends; bit-precise machine arithmetic, IEEE-754 doubles',
    'rustc: the verified MIR/AST and the compiled program agree',
    'the extractor vx/vex.py copies function text verbatim (signatures get a name for the result; attributes and comments are dropped)',
]
PROPS = {
    'C01': dict(level='proof', contracts=['gen', 'regions', 'empty_topology', 'truth', 'windings'],
                technique='Kani contract on the decision function of binary_op (all winding numbers); bounded execution of the region contract on the real code',
                level_note='Proved for all pairs of 32-bit winding numbers, rules and operations: the set handed to the contour walk is the one the operation names. The path from curves to winding numbers (sweep over floating-point geometry) is beyond the verifiers: its region contract is executed on thousands of generated inputs (bounded, not proved).',
                assumptions=['sweep, topology and layout of curves are covered by bounded execution only', 'the stubs of the Kani harness replace Topology::from_paths_binary and Topology::contours, whose own contracts are C04 and C05']),
    'C02': dict(level='proof', contracts=['gen', 'input_check'],
                technique='Kani contract on the input gate of binary_op over all doubles; bounded execution for the closed-path errors',
                level_note='Proved for all bounding boxes and flags over all 64-bit floats: which error is returned and which tolerance is chosen. Bounding boxes themselves come from kurbo (trusted). Errors for non-closed paths: bounded execution, and C06.',
                trusted=['kurbo: bounding_box, is_nan, is_finite of paths'], assumptions=[]),
    'C03': dict(level='exploration', contracts=['gen', 'outlines'],
                technique='outline contract executed on the real code over generated inputs (bounded stand-in; no deductive step reaches the floating-point layout)',
                level_note='Bounded: contract of the result checked on thousands of generated inputs per run; not proved.', assumptions=['bounded']),
    'C04': dict(level='exploration', verus=['contours'], contracts=['gen', 'nesting'],
                technique='Verus contracts on the mechanically extracted walk around the contours and their grouping, for every topology and every inside predicate; what the walk assumes of the topology, and the geometry of the result, executed on the real code over generated inputs (bounded stand-in)',
                level_note='Proved of Topology::contours, Contours::grouped, winding_clockwise and winding_counter_clockwise, for topologies of any size with consistent rings: every contour is a closed walk along boundary segments with the inside on the same hand throughout; every boundary segment that was not removed is on a contour; parents come before their children, a contour is outer exactly if its parent is not, and one without parent is outer; an outer contour begins where the outside is to the west; the panic about a missing contour is unreachable; the groups list every contour exactly once (lemma_grouped) and parents before their children (lemma_group_order). Bounded stand-in: that the rings are consistent (C05), and the geometry: contours lie inside their parents and wind once around the result.',
                trusted=['compute_positions and segs_to_path are read through uninterpreted functions (C18, C03); segs_to_path gets closed walks only (proved)', 'the inside predicate is a function, and says no to the winding number of nothing'],
                assumptions=['the rings around the points are consistent, western neighbours come earlier and share a region (executed as part of C05, bounded)', 'the walk around one contour is not proved to end (partial correctness)', 'debug assertions dropped', 'Topology reduced to the fields that the walk reads']),
    'C08': dict(level='proof', contracts=['num_order', 'point_order', 'event_order', 'cross_order', 'heap_order'],
                technique='Kani contracts on the comparison functions, over all values',
                level_note='All obligations over the full domain of 64-bit floats (no NaN where the type excludes it) and indices; nothing bounded except where labelled.'),
    'C10': dict(level='proof', verus=['treevec'], contracts=['treevec'],
                technique='Verus contracts (sequence view) on the mechanically extracted container code, all sizes and histories; bounded execution for iterators and binary search',
                level_note='Every operation of leaf and internal nodes and of the container proved against the sequence view for every capacity >= 4 and size; iterators and partition_point only bounded.',
                trusted=['contract of arrayvec::ArrayVec (verus/arrayvec_shim.rs); running out of capacity is a failed precondition'],
                assumptions=['B (the node capacity) is between 4 and usize::MAX/2, fewer than usize::MAX elements',
                             'partition_point and the four iterators are not under a Verus contract: bounded stand-in only (B in 4..=8, up to 300 elements)']),
    'C09': dict(level='proof', verus=['curve_order'], contracts=['curve_order', 'f64_axioms'],
                technique='Verus contracts on the mechanically extracted operations of the interval sequence, all sequences, heights and slops; Kani on the axioms about doubles that they use; bounded execution of the same contracts',
                level_note='Proved: push, iter, flip, with_y_slop, order_at, entry_at, order_after and next_touch_after (with its termination) keep or meet their contracts over the verdict at every height, for sequences of any length. Bounded stand-in: check_invariants and the sequences that the comparison of real curves produces.',
                trusted=['Iterator::find, skip_while, map and collect of the standard library do what the verified loops standing for them do (predicates without side effects)', 'Option::map_or and Option::is_none_or as documented'],
                assumptions=['fewer than usize::MAX/4 intervals', 'end heights and slops are finite, heights are not NaN, slops are not negative', 'next_touch_after: intervals with a definite order have a height, which with_y_slop is proved to guarantee for a positive slop']),
    'C11': dict(level='proof', verus=['event_queue'], contracts=['event_queue', 'f64_axioms'],
                technique='Verus contracts on the mechanically extracted event queue, all histories; axioms on doubles discharged by Kani; bounded execution of the contract on the real code',
                level_note='Proved: push, next_y, entrances_at_y, exits_at_y and next_intersection_at_y, for sorted lists of any length and any sequence of calls: the next height is the least one pending, each phase hands out exactly the pending events of that height (lemma_round: between two rounds none is lost or repeated). That the two lists are sorted and complete is C06; that the set of crossings is ordered by height first is C08.',
                trusted=['BTreeSet insert, first and pop_first keep a set in the order of its keys', 'Segments reduced to its two lists; position, flatten and min_by_key replaced by verified loops of the same contract'],
                assumptions=['the lists of entrances and exits are sorted by height and hold no NaN (C06)']),
    'C14': dict(level='proof', verus=['intervals'], contracts=['gen', 'intervals'],
                technique='Verus contracts on the mechanically extracted merging of intervals, all lists; bounded execution of the contract of whole sweep lines',
                level_note='Proved: merge_adjacent, ChangedInterval::merge and from_seg_interval, for sorted lists of any length: the result consists of the hulls of consecutive blocks (segments and horizontals), covers exactly the positions covered before, and is sorted and not adjacent. That the horizontals of a sweep line are handed out once, and that the intervals before merging are the right ones, is bounded execution on generated inputs.',
                assumptions=['the list is sorted by start (sort_by_key just before the call) and every range has start <= end', 'horizontals of a sweep line: bounded']),
    'C16': dict(level='proof', verus=['feasible'], contracts=['gen', 'feasible', 'f64_axioms'],
                technique='Verus contracts on the mechanically extracted feasible_horizontal_positions, next_range and next_range_single_seg, for lines of any length; axioms on doubles discharged by Kani; the same contract, and what it assumes of the sweep, executed on the real code (bounded)',
                level_note='Proved: feasible_horizontal_positions computes the forced rows; next_range gives every segment of the range a position above and one below, non-decreasing in the old and in the new order (lemma_positions), within the band of the segment whenever no segment is forced past another (lemma_nonempty, lemma_in_band), exact where a segment begins or ends, and adds the horizontal segments; the single-segment range is placed at the position of its segment. Bounded stand-in: that in sweeps the old positions of a changed range are the positions of the range (precondition of next_range), and the bands themselves (C13).',
                trusted=['Segment::lower, upper, at_y, start and end are functions of segment, height and tolerance and return numbers (C13, bounded)', 'f64::max and min (Kani)', 'iter_mut().rev() visits the rows from the last to the first', 'slice::sort rearranges (order by OutputEvent::cmp: C08)', 'TreeVec::range yields the entries of the range in order (C10)'],
                assumptions=['the entries of a changed range hold each old position of the range once (checked in sweeps, bounded)', 'an entry with an old segment is marked as leaving (set together in the sweep; bounded)', 'SweepLine and Sweeper reduced to the fields used; the returned SweepLineRange reduced to the interval it is for', 'debug assertions dropped']),
    'C06': dict(level='proof', verus=['segment_store'], contracts=['gen', 'segment_store'],
                technique='Verus contracts on the mechanically extracted segment store, all paths and histories of additions; bounded execution of the same contract on the real code, geometry included',
                level_note='Proved: add_points, add_polyline_without_updating_enter_exit, add_closed_polyline, add_path_without_updating_enter_exit, add_bez_path, add_non_closed_bez_path, update_enter_exit, oriented_start, oriented_end, contour_next, contour_prev, positively_oriented and the constructors and ends of Segment: what is stored, read along the links and with the orientation, is the sequence of lines and monotone pieces of the input in order; links of earlier contours are untouched, each new contour is a ring exactly if it closes; every segment runs downwards; each has its entrance (and its exit unless horizontal) exactly once and both lists are sorted by height, whatever was added before. Bounded stand-in: that the pieces of a curve trace the curve (C12) and how a path falls into subpaths and segments.',
                trusted=['the order of points is total (C08: Kani)', 'kurbo: the segments of a subpath; Subpaths (Peekable) read through an uninterpreted function', 'slice windows, sort_by and Ordering::then_with as documented', 'monotonic_pieces and to_cubic read through uninterpreted functions (C12)', 'Into<Point> conversions keep both coordinates (Kani, C08)'],
                assumptions=['heights are not NaN (C02)', 'Segment::at_y returns a number (used as second sort key only)', 'an addition that returned an error is not followed by others', 'debug assertions dropped']),
    'C07': dict(level='exploration', contracts=['gen', 'sweep_trace'], technique='contract of the sweep executed on the real code over generated inputs (bounded stand-in)', level_note='Bounded; not proved.', assumptions=['bounded']),
    'C12': dict(level='exploration', contracts=['monotone'], technique='Kani contracts on force_monotonic and the segment constructors over all doubles; contract of the splitting executed on the real code over generated curves (bounded stand-in)', level_note='force_monotonic and the constructors: proved over all finite doubles. The splitting itself: bounded.', assumptions=['bounded']),
    'C13': dict(level='exploration', contracts=['kernels', 'transverse', 'segment_shape'], technique='Kani contracts on solve_t_for_y and y_subsegment over all doubles, with the root finder replaced by its contract; contracts of the other kernels executed on the real code over generated inputs (bounded stand-in)', level_note='Parameter range and end heights proved over all finite doubles under the contract of the root finder; the other kernels bounded.', trusted=['polycool::Cubic::roots_between returns roots inside the interval it is asked for'], assumptions=['bounded']),
    'C17': dict(level='proof', verus=['scan_order'], contracts=['gen', 'scan_order', 'f64_axioms'],
                technique='Verus contracts on the mechanically extracted records and queries, for records of any length; axioms on doubles discharged by Kani; bounded execution of the same contracts on the real code and on computed topologies',
                level_note='Proved: iter, neighbor_after, west/east_neighbor_after return the neighbour recorded last at or before the height; close_neighbor_height_after and its two callers return the least height at which the recorded neighbour is undecided; build_scan_line_orders records exactly what the scan lists say, in order of height, and the records of both sides are mirror images (lemma_mirrored). Bounded stand-in: that answers (not only records) are mirror images in computed topologies.',
                trusted=['the iterator adaptors of the standard library do what the verified loops standing for them do', 'slice::sort_by sorts, Vec::dedup removes only repeated records', 'the comparison cache keeps its answers and their intervals are in order (C09, C15)', 'Topology reduced to its four scan fields; start heights and horizontality are read through uninterpreted functions'],
                assumptions=['heights are finite, indices are in range', 'debug assertions about the order of insertion are dropped']),
    'C15': dict(level='exploration', verus=['compare'], contracts=['kernels', 'compare'],
                technique='Verus contracts on the mechanically extracted comparison cache, all histories; contract of the verdicts executed on the real code over generated pairs of curves (bounded stand-in)',
                level_note='Proved: new, new_without_y_slop and compare_segments: for every history of questions, an answer stays the same once given, the answer to (j, i) is the mirror image of the answer to (i, j), and every answer is the widened crossing of the two curves of the pair (lemma_again). That the crossing itself (floating-point subdivision of cubics) tells the truth about the curves is bounded execution.',
                trusted=['HashMap get, insert and entry of the standard library are those of a map', 'flip is proved in the unit curve_order (C09)', 'the crossing of two curves and its widening are read through uninterpreted functions of the curves, tolerance and accuracy'],
                assumptions=['a segment is not compared with itself', 'verdicts against the curves: bounded']),
    'C05': dict(level='exploration', contracts=['gen', 'windings', 'topology_winding'], technique='contract of the topology (rings and winding numbers) executed on the real code over generated inputs (bounded stand-in); Kani contracts on the winding numbers', level_note='Bounded; arithmetic of the winding numbers proved.', assumptions=['bounded']),
    'C18': dict(level='exploration', contracts=['gen', 'heap_order', 'layout'], technique='contract of the layout executed on the real code over generated inputs (bounded stand-in)', level_note='Bounded; not proved.', assumptions=['bounded', 'order at coarse tolerances (0.01 and more in shapes of size 6) only up to 40 tolerances: see the known finding']),
    'C19': dict(level='exploration', contracts=['gen', 'sweep_order'], technique='invariant of the sweep line between events executed on the real code over generated inputs (bounded stand-in)', level_note='Bounded; not proved. The witness of every crossing is demanded at tolerances up to 0.0001 in shapes of size 6.', assumptions=['bounded']),
}
