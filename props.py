"""The table of properties: what is claimed, where it is anchored, and how it is decided."""
CORE = "workspace/boostvoronoi_core/src/"
EXT = "workspace/boostvoronoi_ext/src/"
NA = {}
HOOKS = {"guard": "cfg(boostvoronoi_mc)", "enable": "RUSTFLAGS='--cfg boostvoronoi_mc' (run.sh does this for P21 and P23 only)",
         "source_commits": ["be81125"]}
PROPS = []


def P(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe or [], "hook_needed": None},
        "technique": technique, "note": note,
    })


ENUM = "bounded exhaustive enumeration of inputs against "
CLOSED = ("Exhaustive within the stated bounds only; every enumerated input is run through the real code "
          "(release build with debug assertions and overflow checks on). ")

P("P01", "The diagram is a well-formed half-edge structure",
  "For every valid input (distinct points, segments that only meet at endpoints, 32-bit integer coordinates) building terminates "
  "without panic or error and every id stored in the output refers to an existing record with the matching id. "
  "Twins pair up with opposite end vertices, next/prev of every edge are inverse and stay in one cell, the edges around each cell form one closed "
  "counter-clockwise loop that contains the cell's incident edge, and the edges leaving each vertex form one rotation orbit containing its incident edge. "
  "The counts satisfy Euler's formula and no zero-length edge or degenerate vertex remains.",
  ["inputs"], "all valid point/segment inputs of the enumerated families (see DESIGN.md) and their images under the listed integer similarity maps; 32 kinds of arrangements of growing size, and of 66 000 objects",
  "Tests look at a few dozen fixed inputs and mostly compare counts; the linkage must hold on every input, in particular on degenerate ones.",
  [CORE + "diagram.rs", CORE + "builder.rs", CORE + "beach_line.rs", CORE + "circle_event.rs"],
  [("insert_new_edge_1/2, build_, remove_edge", CORE + "diagram.rs"), ("process_site_event, process_circle_event", CORE + "builder.rs")],
  "model checking: " + ENUM + "a half-edge structure invariant",
  CLOSED + "The invariant is checked on every record of every diagram.",
  ["Builder::build -> Diagram"])

P("P02", "Point inputs give exactly the Voronoi diagram of the points",
  "For every set of distinct points with 32-bit integer coordinates the output is the exact Voronoi diagram: one cell per point, an edge between exactly "
  "those pairs of points whose cells share a boundary, with the two sites of the edge as its cells, a vertex for exactly each centre of an empty circle through "
  "three or more points, and infinite edges exactly for the consecutive points of the convex hull. Vertices are correct to 64 ulps of the largest coordinate, "
  "also for co-circular, collinear and nearly degenerate points and at the limits of the 32-bit range.",
  ["inputs"], "all point sets of the enumerated families: subsets of small grids, of integer points on circles, of alphabets of extreme and of close-by/far coordinates, lattices; each under translations and scalings up to the full 32-bit range; growing arrangements, and arrangements of 66 000 points",
  "Tests compare a handful of diagrams with recorded output; degenerate and extreme coordinate combinations are sampled at best.",
  [CORE + "predicate.rs", CORE + "predicate/lazy_circle_formation.rs", CORE + "predicate/exact_circle_formation.rs", CORE + "builder.rs", EXT + "extended_int.rs", EXT + "robust_fpt.rs"],
  [("robust_cross_product and orientation predicates", CORE + "predicate.rs"), ("circle formation ppp (lazy and exact)", CORE + "predicate/"), ("event and beach line ordering", CORE + "predicate.rs")],
  "model checking: " + ENUM + "exact rational point Voronoi reference",
  CLOSED + "Oracle: O(n^4) reference in exact integer arithmetic, independent of the code. Vertex coordinates are compared to 64 ulps of the input magnitude.",
  ["Builder::build -> Diagram"])

P("P03", "Segment inputs give the Voronoi diagram of points and segments",
  "For every valid set of segments and points the output is the Voronoi diagram of the sites (segment interiors, segment endpoints, points): vertices are "
  "exactly the points with three or more nearest sites, each edge lies between the two sites it is nearest to, and each pair of neighbouring cells has its edges. "
  "Vertex coordinates are correct to 1e-9 relative to the size of the input. This holds where the extent of the input is not more than a thousand times its smallest feature, at any scale within 32 bits (beyond that the f64 predicates decide nearly touching parabolas by rounding). Segments may share endpoints in any number and angle and may be axis parallel, collinear, parallel or touching points.",
  ["inputs"], "all valid sets of segments and points of the enumerated families: small grids, polygon outlines, stars, blocks, lattices, coordinate alphabets mixing unit and large distances; each under similarity maps up to the 32-bit range",
  "Tests fix some dozen inputs and assert counts or single coordinates; the predicates branch on configuration (pps, pss, sss; vertical; endpoint of; reversed order) and each combination must be right.",
  [CORE + "predicate.rs", CORE + "predicate/circle_existence.rs", CORE + "predicate/lazy_circle_formation.rs", CORE + "predicate/exact_circle_formation.rs", CORE + "builder.rs"],
  [("circle existence and formation pps/pss/sss", CORE + "predicate/"), ("distance predicate", CORE + "predicate.rs"), ("site event processing", CORE + "builder.rs")],
  "model checking: " + ENUM + "brute-force segment Voronoi reference and an optimality certificate",
  CLOSED + "Oracle on the base grids: brute force over all pairs and triples of sites, with the margin of each decision tracked (undecided cases are counted). "
  "Larger families: certificate that every vertex is equidistant to, and nearest at, the sites of its cells.",
  ["Builder::build -> Diagram"])

P("P04", "Cells name their source object; edge and vertex flags are right",
  "Each cell's source index and category designate an input object that really is the cell's site: a point of the input, the start or end point of a segment, or a segment "
  "(initial or reverse), and every distinct site has exactly one cell. Edges are secondary exactly between a segment and its own endpoint, curved exactly between "
  "a segment and a point that is not its endpoint, infinite exactly when a vertex is missing; a vertex is marked as site point exactly where two segments meet at an angle. "
  "A cell has no incident edge exactly if it is an endpoint enclosed by its segments or the only site.",
  ["inputs"], "all inputs of the families of P01 under their maps, growing and giant arrangements included",
  "Tests check the flags of single recorded cells and edges.",
  [CORE + "diagram.rs", CORE + "builder.rs", CORE + "site_event.rs"],
  [("SourceCategory, source_index of cells", CORE + "builder.rs"), ("is_primary_edge, is_linear_edge", CORE + "diagram.rs"), ("site point marking", CORE + "diagram.rs")],
  "model checking: " + ENUM + "geometric classification of sites",
  CLOSED + "Oracle: the sites and their classification computed from the input alone.",
  ["Cell::source_index/source_category, Edge::is_primary/is_linear, Vertex::is_site_point"])

P("P05", "The diagram depends on the set of sites only",
  "Building is deterministic, and inputs that describe the same sites give the same diagram, bit for bit up to the numbering of the records: neither the order of points and segments, "
  "nor the direction of a segment, duplicate points or segments, a zero-length segment in place of a point, a point that is also a segment endpoint, "
  "the number of with_vertices/with_segments calls, the type of the handed-over objects (arrays or Point/Line), nor 32 or 64 bit integers change a vertex, an edge or a flag. "
  "f32 output is the f64 diagram with rounded coordinates (edges shorter than the resolution of f32 may be missing).",
  ["inputs", "histories"], "all inputs of the enumerated families with all orders (up to 4 objects), directions, single duplications and splits into calls; the same in seven ways for arrangements of growing size, of 4097 and of 66 000 objects",
  "Tests build each input once, in one order; which predicate branch is taken, and which record merges with which, depends on the order of the sites.",
  [CORE + "builder.rs", CORE + "site_event.rs", CORE + "predicate.rs", CORE + "diagram.rs"],
  [("sorting and de-duplication of site events", CORE + "builder.rs"), ("init_sites_queue, segment reversal", CORE + "builder.rs")],
  "model checking: bounded exhaustive enumeration of inputs and of all equivalent presentations, compared by canonical form",
  CLOSED + "Where rounding to f32 makes an edge shorter than two units of the last place, the f32 diagram need only be well-formed and have the same vertices and neighbours.",
  ["Builder::build -> Diagram"])

P("P06", "The diagram of a similar input is the similar diagram",
  "For every valid input of moderate extent (coordinates differ by factors up to about 1000), moving, mirroring, turning by a Pythagorean angle and scaling the input within the 32-bit range "
  "gives the moved, mirrored, turned and scaled diagram: the same pairs of sites share edges, ending at the same vertices, with the same site-point marks and the same cells without edges; vertex coordinates "
  "agree to 1e-9 of the extent (to 1e-12 of the distance from the origin where that is larger). Vertices closer than 1e-9 of the extent count as one.",
  ["inputs"], "all inputs of the enumerated families under the 7 symmetries of the square and 8 turned, scaled or moved images",
  "Each image takes other predicate branches (vertical, reversed, integer overflow fallbacks); no test relates two of them.",
  [CORE + "predicate.rs", CORE + "predicate/lazy_circle_formation.rs", CORE + "predicate/exact_circle_formation.rs", CORE + "builder.rs", EXT + "extended_int.rs", EXT + "extended_exp_fpt.rs"],
  [("vertical and reversed cases of the predicates", CORE + "predicate/"), ("exact fallback", CORE + "predicate/exact_circle_formation.rs")],
  "model checking: bounded exhaustive enumeration of inputs and similarity maps, compared with the untransformed run",
  CLOSED + "Inputs in general direction (turned) reach the non-axis-parallel branches on every enumerated configuration.",
  ["Builder::build -> Diagram"])

P("P07", "Builder histories: any sequence of calls gives the diagram of what was added",
  "Whatever sequence of with_vertices and with_segments calls precedes build (empty calls, repeated objects, zero-length segments, one object per call), build succeeds, the source index of each cell "
  "counts the objects in the order they were handed over (points first, then segments, zero-length segments included), and the diagram is that of the set of sites added. "
  "A with_vertices call after any with_segments call, even an empty one, fails with VerticesGoesFirst and nothing else does. No input gives an empty diagram and one site a single cell without edges.",
  ["histories"], "all histories of up to 6 calls (thorough: 8) out of two alphabets of 7 and 8 calls; six ways of handing over arrangements of growing size and of 66 000 objects",
  "Tests use one or two calls in the usual order.",
  [CORE + "builder.rs"],
  [("with_vertices, with_segments, index_, segments_added_", CORE + "builder.rs"), ("init_sites_queue: dedup", CORE + "builder.rs")],
  "model checking: exhaustive enumeration of operation histories against a list model",
  CLOSED + "The model is a pair of lists and a flag; each history is replayed on the real builder with i32 and i64.",
  ["Builder::with_vertices/with_segments/build"])

P("P08", "Queries agree with the records, and missing ids are errors",
  "For every built diagram (f64 and f32 output) each query of Diagram, Cell, Edge and Vertex (lookup by id, twin, next, cell, vertices, finite/infinite, edge_as_line, rot_next/rot_prev, "
  "cell and rotation iterators, counts, flags, aabb of the vertices, deprecated iterators) returns what the records say; iterators visit each edge of the cell or of the vertex exactly once, starting with the incident or given edge, and end. "
  "Queries and color operations with an id that does not exist return an IdError, or None where they return an Option, never panic and change nothing.",
  ["inputs"], "all diagrams of the enumerated families, growing arrangements and four of 66 000 objects; every record, and missing ids n, n+1, n+1000, usize::MAX for each query",
  "Tests use the queries on a few diagrams, and never with missing ids.",
  [CORE + "diagram.rs", CORE + "visual_utils.rs"],
  [("edge_* / vertex_* / cell_* accessors and iterators", CORE + "diagram.rs")],
  "model checking: exhaustive enumeration of diagrams and query arguments against a record snapshot",
  CLOSED, ["Diagram queries and iterators"])

P("P09", "SyncDiagram is the same diagram",
  "Converting a Diagram into a SyncDiagram keeps every cell, vertex and edge record with ids, links, flags and colors, in order. Every query of SyncDiagram (get, get_mut, next, prev, twin, vertex0/1, finite/infinite, rot_next/rot_prev, rotation iterator) "
  "agrees with the records; missing ids give IdError and no panic. SyncDiagram is Send and Sync, and serializing and deserializing it (serde feature) gives the same diagram.",
  ["inputs"], "all diagrams of the enumerated families, growing arrangements and four of 66 000 objects, painted with a distinct color per record; every record and missing ids",
  "Tests convert one or two diagrams.",
  [CORE + "sync_diagram.rs", CORE + "diagram.rs"],
  [("From<Diagram> for SyncDiagram", CORE + "diagram.rs"), ("queries", CORE + "sync_diagram.rs")],
  "model checking: exhaustive enumeration of diagrams and query arguments against a record snapshot",
  CLOSED, ["SyncDiagram::from, queries, serde"])

P("P10", "Color histories: colors are 27 bits per record and touch nothing else",
  "After any sequence of set and or operations with colors of up to 27 bits, through Diagram, through copied records or through SyncDiagram, each edge and vertex has exactly the color its own operations give "
  "(set replaces, or adds bits), starting from 0, and no other record, link, coordinate or flag (linear, primary, site point) has changed. The colors survive the conversion to SyncDiagram.",
  ["histories"], "all sequences of 3 operations (thorough: 4) per kind of record, all pairs of operations on two records, all single operations on every record; colors 0, 1, 2, 3*2^25, 2^26, 2^27-1; all pairs of single bits; diagrams of some thousand records",
  "Flags and colors share one word; tests set single small colors.",
  [CORE + "diagram.rs", CORE + "sync_diagram.rs"],
  [("set_color/or_color, RESERVED_BITS__SHIFT", CORE + "diagram.rs")],
  "model checking: exhaustive enumeration of operation histories against a map model",
  CLOSED, ["edge_set_color, edge_or_color, vertex_set_color, vertex_or_color, Edge/Vertex::set_color/or_color"])

P("P11", "color_exterior_edges colors exactly the exterior",
  "With a non-zero color of up to 27 bits that no edge has yet, color_exterior_edges adds the color to exactly the infinite edges (both halves) and all edges at vertices reachable from infinity along primary edges without passing a site point vertex (both halves), "
  "gives the color to exactly these vertices, changes nothing else, does nothing when repeated, and works for diagrams of any size.",
  ["inputs"], "all diagrams of the enumerated families with several colors, with and without edges colored in other bits, and grids of up to 90 000 points (thorough: 360 000) in a thread with 1 MB of stack",
  "Tests color one example; the traversal depends on the topology.",
  [CORE + "diagram.rs"],
  [("color_exterior_edges, recurse_color_exterior", CORE + "diagram.rs")],
  "model checking: exhaustive enumeration of diagrams against the reachability definition",
  CLOSED, ["Diagram::color_exterior_edges"])

P("P12", "RobustFpt and RobustDif bound their error",
  "The value of a RobustFpt that results from any sequence of + - * / (also assigning, with f64 operands, negation) and sqrt differs from the exact result of the sequence by at most re() * 2^-52 of its own value, "
  "where re() grows by no more than the rules of the type allow: max+1 for sums of equal sign, the weighted sum of the bounds over the result plus one for cancelling sums, the sum plus one for products and quotients, half plus one for sqrt. "
  "A RobustDif holds two sums that are never negative; after any sequence of + - * with a RobustDif, RobustFpt or f64, / with a RobustFpt, and negation, dif() encloses the exact result in the same sense.",
  ["inputs", "histories"], "all expressions of up to three operations over leaves of 4..14 values with 2..4 error bounds, the true value of a leaf at each end of its bound; all histories of RobustDif operations over the listed operands; results within 1e-290..1e290 or zero",
  "The bound decides whether the exact fallback is taken; a bound that is too small shows in no test unless an input happens to be nearly degenerate.",
  [EXT + "robust_fpt.rs"],
  [("Add/Sub/Mul/Div for RobustFpt, sqrt", EXT + "robust_fpt.rs"), ("RobustDif", EXT + "robust_fpt.rs")],
  "model checking: exhaustive enumeration of expressions and operation histories against exact rational arithmetic",
  CLOSED + "Oracle: exact rationals; square roots are compared as squares.", ["RobustFpt, RobustDif operators"])

P("P13", "ExtendedInt is exact integer arithmetic",
  "For every value of up to 64 words, + - * (also by value and by reference, and with i32) and negation give the exact integer result with its sign; size() is the number of 32 bit words without leading zeros, is_zero, is_pos and is_neg agree with the value, "
  "and p() and d() give the value to a relative 2^-51 (exactly if it has at most 53 significant bits). Construction from every integer type is exact, and zero, one and default are 0, 1 and 0.",
  ["inputs", "histories"], "all expressions of up to four operations over 28 integers around word boundaries, all pairs of integers of up to 4 words (thorough: 5) from 0, 1, 2^31-1, 2^31, 2^32-1, powers up to 64 words and their cancellation; u64 sources up to i64::MAX",
  "Carries, borrows and cancellation over several words happen for few operands; tests sample small ones.",
  [EXT + "extended_int.rs"],
  [("add, dif, mul of words", EXT + "extended_int.rs"), ("p, d", EXT + "extended_int.rs")],
  "model checking: exhaustive enumeration of expressions against an independent big integer model",
  CLOSED, ["ExtendedInt operators and conversions"])

P("P14", "ExtendedExponentFpt computes to full double accuracy",
  "For finite values with exponents up to +-2^20, each of + - * / (also assigning and with f64 operands), negation and sqrt gives the exact result of its operands to a relative 2^-52; a zero of any exponent is neutral for sums and gives zero in products; "
  "is_zero, is_pos, is_neg agree with the value; conversion from f64 is exact, from ExtendedInt to 2^-51, and d() gives the value as f64 as far as it fits.",
  ["inputs", "histories"], "all pairs out of 10 mantissas x signs x 87 exponents (thorough: about 220) and zeros with these exponents; all histories of up to 4 (thorough: 5) assigning operations with 8 operands from 8 values",
  "Alignment of exponents fails at single exponent differences only; tests do not reach them.",
  [EXT + "extended_exp_fpt.rs"],
  [("Add/Sub/Mul/Div, sqrt", EXT + "extended_exp_fpt.rs")],
  "model checking: exhaustive enumeration of operands and operation histories against exact dyadic arithmetic",
  CLOSED, ["ExtendedExponentFpt operators and conversions"])

P("P15", "The file reader returns what the file says, whatever way it arrives",
  "read_boost_input_buffer and read_boost_input_file return the points and segments, in order and exactly, of the document (a count of points, the points, a count of segments, the segments) up to the first line that does not fit. "
  "The result depends on the text only, not on how the source splits it into reads, on interrupted reads, on LF or CRLF, on the type of integer, or on a missing final newline. "
  "They always return: a source that fails, or that is not UTF-8, before everything announced was read gives an error, as does a missing file or a directory.",
  ["inputs", "fault_sequences"], "all documents of up to 4 lines (thorough: 5) over all kinds of lines and of up to 7 lines (thorough: 8) over 8, through sources with several read and buffer sizes; sources that fail at every byte, for reads of 1..64 bytes; a byte that is not UTF-8 at every place; 19 kinds of errors, once or for good, at every byte; documents of up to thousands of lines around buffer sizes; all strings of up to 4 of 10 characters in place of each line",
  "Tests read two well formed examples from memory.",
  [CORE + "file_reader.rs"],
  [("read_boost_input_buffer: the state machine over lines", CORE + "file_reader.rs")],
  "model checking: exhaustive enumeration of documents, read splittings and fault points against a line automaton",
  CLOSED, ["read_boost_input_buffer, read_boost_input_file"])

P("P16", "Discretized parabolas follow the curve",
  "For every point and segment (the point not on the segment's line), every uniform affine transformation and both ends of an edge on their parabola, discretize keeps the two given ends bit for bit as first and last point, puts all points in between on the parabola and in order along it, "
  "no point of the curve is farther than the largest distance from its chord, and no more chords are used than halving the edge until it is close enough needs; an edge whose ends coincide or are some ulps apart ends after a few points. point_projection gives the position of a point along a segment, 0 at the start and 1 at the end.",
  ["inputs"], "all parabolas with directrix and focus over a 7x7 grid (thorough: 9x9), 8 x 8 pairs of ends and ends 1, 2, 3, 17 ulps apart, 6 distances from 1e-4 to 1000, 3 sizes, 4 transformations, f64 and f32; distances down to 1e-11 of the size; the curved edges of all diagrams of 4 families under 3 maps",
  "Tests check single points of one curve; monotone order and deviation are statements about the whole curve and about all of them.",
  [CORE + "visual_utils.rs"],
  [("VoronoiVisualUtils::discretize", CORE + "visual_utils.rs"), ("point_projection, parabola_y", CORE + "visual_utils.rs")],
  "model checking: bounded exhaustive enumeration of inputs against the analytic parabola",
  CLOSED + "f32 for coordinates up to a few thousand, to 2e-5.", ["VoronoiVisualUtils::discretize, point_projection"])

P("P17", "A bounding box is the box of what was added",
  "After any sequence of updates (vertices, points, coordinates of any integer or float type, lines) and of growing by a percentage, get_low and get_high are the smallest box around everything added, grown as asked on all four sides by that percentage of its larger extent, and None while nothing was added; "
  "contains_point and contains_line say whether the point, or both ends of the line, are inside the box or on its border, and None for an empty box.",
  ["histories"], "all histories of up to 5 (thorough: 6) of 18 operations from 9 starting boxes, f64 and f32, with all points and lines of a grid as queries after each step; the same for coordinates of up to 64 bits that differ in the last place",
  "Tests build one box.",
  [CORE + "visual_utils.rs"],
  [("Aabb2 update_*, grow_percent, contains_*", CORE + "visual_utils.rs")],
  "model checking: exhaustive enumeration of operation histories against a min/max model",
  CLOSED, ["Aabb2"])

P("P18", "SimpleAffine maps the source box into the destination and back",
  "SimpleAffine::new moves the centre of the source box to the centre of the destination box and scales both axes by the smaller destination extent over the larger source extent (extents below 10 count as 10), so that the source fits into a destination that is at least 10 wide and high. "
  "All transform functions agree; reverse_transform gives the integer point back that was transformed, rounds to the nearest, and gives a NumberConversion error where the result does not fit the type or is not a number. Zooming, and setting offset and scale, act as documented in any order. An empty box gives InternalError.",
  ["inputs", "histories"], "all pairs of source boxes over 4..7 (thorough: 9) and destination boxes over 3..4 coordinates per axis, then all histories of up to 3 (thorough: 4) of 8 changes, f64 and f32; points off the lattice, and the ends of i32, i64 and of the mantissas",
  "Tests transform a few points with one or two boxes.",
  [CORE + "visual_utils.rs"],
  [("SimpleAffine::new, transform*, reverse_transform*, zoom", CORE + "visual_utils.rs")],
  "model checking: exhaustive enumeration of inputs and operation histories against a formula",
  CLOSED, ["SimpleAffine"])

P("P19", "Conversions between geometry types lose and swap nothing",
  "Every conversion between Point, Line or Vertex and arrays, geo, cgmath, mint, glam and nalgebra types keeps each coordinate exactly in its place, by value and by reference, for i32 and i64 (f32 and f64 vertices); "
  "as_f64 gives the coordinates as f64, cast to the other integer type keeps the value and panics exactly if it does not fit, try_cast then gives a NumberConversion error; ==, the order and the hash of points are those of their coordinates, and serialization keeps them. "
  "A builder that is fed with objects of any of these types builds the diagram that plain arrays give.",
  ["inputs"], "all pairs of 25 coordinates for points, all fourfolds for lines, all pairs of 14 coordinates for vertices, through about 70 conversions; all sets of up to 2 points and one segment of a 4x3 (thorough: 6x3) grid in 8 kinds of objects",
  "The tests behind the optional features are not run by default.",
  [CORE + "geometry.rs", CORE + "lib.rs"],
  [("From implementations", CORE + "geometry.rs"), ("cast, try_cast", CORE + "lib.rs")],
  "model checking: exhaustive enumeration of bounded input spaces against the identity",
  CLOSED + "Built with all geometry features.", ["From/Into, Builder::with_vertices/with_segments"])

P("P20", "to_segments_offset scales, truncates and moves",
  "to_segments_offset gives one line per segment, in order, each coordinate multiplied by the scale of its axis, cut towards zero, plus the offset of its axis, for i32 and i64 in both directions.",
  ["inputs"], "all pairs out of 16 coordinates in three arrangements, 8 scales, 36 offsets, alone and in lists; lists of up to 131 073 segments; results that fit the type",
  "Tests use one scale and no negative numbers.",
  [CORE + "visual_utils.rs"],
  [("to_segments_offset", CORE + "visual_utils.rs")],
  "model checking: bounded exhaustive enumeration of inputs against a formula",
  CLOSED, ["to_segments_offset"])

P("P21", "Sums of square roots are evaluated to the documented error",
  "For integers A of any sign and B >= 0 that the exact predicates can form, eval1, eval2, eval3 and eval4 give the sum of 1 to 4 terms A*sqrt(B) with a relative error of at most 4, 7, 16 and 25 * 2^-52, sqrt_expr_evaluator_pss3 gives A0*sqrt(B0) + A1*sqrt(B1) + A2 + A3*sqrt(B0*B1) to 16 * 2^-52 and "
  "sqrt_expr_evaluator_pss4 gives A3 + A0*sqrt(B0) + A1*sqrt(B1) + A2*sqrt(B3*(sqrt(B0*B1) + B2)) to 25 * 2^-52; a sum that is exactly zero gives zero, whatever terms cancel.",
  ["inputs"], "all sums of 1 and 2 out of 294 terms, of 3 out of 104 (thorough: 231) and of 4 out of 35 (thorough: 56), all quadruples of 9 (thorough: 13) coefficients with 64 pairs (pss3) and 393 (thorough: about 1500) quadruples (pss4) of radicands, with proportional radicands and continued fractions that nearly cancel",
  "The tests evaluate seven sums, six of them of positive terms: the cancelling branches are the reason why the functions exist.",
  [CORE + "robust_sqrt_expr.rs", EXT + "extended_int.rs", EXT + "extended_exp_fpt.rs"],
  [("eval1 .. eval4, sqrt_expr_evaluator_pss3, sqrt_expr_evaluator_pss4", CORE + "robust_sqrt_expr.rs")],
  "model checking: bounded exhaustive enumeration of inputs against fixed point arithmetic of 960 fractional bits",
  CLOSED + "Oracle: integer square roots with so many bits that a sum other than zero is told from zero by the root separation bound. Looks at internals through a guarded hook.",
  ["mc_hook (cfg boostvoronoi_mc): eval, pss3, pss4"])

P("P22", "Vertex coordinates are accurate to ulps of their own value",
  "In the diagram of any valid input of points and segments every vertex lies within 128 units in the last place (2^-52 of the coordinate's own value, in x and in y) of the exact point that is equidistant to the sites of the cells around it, "
  "however far the input lies from the origin and however close to an axis the vertex is; a vertex where segments meet has exactly the coordinates of their common endpoint. A coordinate that is exactly zero comes out as zero.",
  ["inputs"], "all valid sets of points and segments of the enumerated families (small grids, outlines, stars, blocks, quilts, lattices, coordinate alphabets, growing arrangements) under maps up to the 32-bit range",
  "Tests compare a few coordinates with 3 or 4 digits; the loss of accuracy that the exact fallback of the circle formation prevents shows for special inputs only.",
  [CORE + "predicate/lazy_circle_formation.rs", CORE + "predicate/exact_circle_formation.rs", CORE + "robust_sqrt_expr.rs", CORE + "builder.rs", EXT + "robust_fpt.rs", EXT + "extended_int.rs", EXT + "extended_exp_fpt.rs"],
  [("choice of the coordinates to recompute (ULPS)", CORE + "predicate/lazy_circle_formation.rs"), ("exact circle formation ppp, pps, pss, sss", CORE + "predicate/exact_circle_formation.rs"), ("eval1..eval4, pss3, pss4", CORE + "robust_sqrt_expr.rs")],
  "model checking: " + ENUM + "the exact vertex by Newton's method in double-double arithmetic",
  CLOSED + "The error of the reference is estimated and subtracted; vertices for which Newton's method does not converge are counted in the evidence, not judged.",
  ["Builder::build -> Diagram::vertices"])

P("P23", "Every circle event is computed to ulps, its right end included",
  "Each circle event that is created while a diagram is built, used in the end or not, lies within 128 * 2^-52 of its own value, in x, in y and in the x of its right end (the moment of the event in the sweep), of a circle through or tangent to its three sites; "
  "it is finite, its right end is not left of its centre, and a circle at the common endpoint of two segments has exactly that centre and radius 0.",
  ["inputs"], "all circle events of all builds of the families and maps of P22",
  "The right end of a circle is not part of the output: it decides the order of events, and a wrong order shows only for inputs whose events nearly coincide.",
  [CORE + "predicate.rs", CORE + "predicate/lazy_circle_formation.rs", CORE + "predicate/exact_circle_formation.rs", CORE + "robust_sqrt_expr.rs", EXT + "robust_fpt.rs"],
  [("circle_formation", CORE + "predicate.rs"), ("lower_x of ppp, pps, pss, sss", CORE + "predicate/lazy_circle_formation.rs"), ("recomputation of lower_x", CORE + "predicate/exact_circle_formation.rs")],
  "model checking: " + ENUM + "the exact circle by Newton's method in double-double arithmetic",
  CLOSED + "The error of the reference is estimated and subtracted; circles for which Newton's method does not converge are counted, not judged. The events of the real run are recorded through a guarded hook.",
  ["mc_hook (cfg boostvoronoi_mc): record_circles, take_circles"])
