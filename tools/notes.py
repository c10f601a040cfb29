# Per-check text: what is decided and against which oracle; quick bounds; thorough bounds; assumptions / not claimed.
NOTES = {
"C01": ("Every sequence of operations of an alphabet of 43 (31 mutations incl. refused ones, copies, products, raw access; 12 uses) is run on a real Homogr object; after each step the image of probe points, ==, inverse() and every refused operation are compared with a plain long double 3x3 matrix that is never cached nor normalised.",
 "43 operations: all sequences of length 0..4; 49 with the neutral ones (rotation by 0, scale by 1, ...) to length 3; 16 core operations to length 5; 8 to length 6; float and long double to length 2",
 "all sequences to length 5; 10 core operations to length 6; float and long double to length 3",
 ["matrices whose bottom-right element is null cannot be represented by the library (documented): such results must be refused, and are tracked as refused"]),
"C02": ("Same state space as C01, but every step also applies the homography to lines: H*l, H*container, H*(p*q)=(H*p)*(H*q), incidence; uses are interleaved with modifications at every position, because the library may cache the inverse-transpose matrix.",
 "43 operations: all sequences of length 0..4; 49 with the neutral ones (rotation by 0, scale by 1, ...) to length 3; 16 core operations to length 5; 8 to length 6; float, long double to length 2",
 "all sequences to length 5; 10 core operations to length 6; float and long double to length 3", []),
"C03": ("For every shape on a grid and every homography of an alphabet (translations, rotations, mirrors, scales, shears, projective) the real H*shape, applyTo and container products are compared with the shape built from the images of its defining points, and conics with the images of points of the curve (inside/outside test through the homography).",
 "segments 5x5 grid; polylines 2-3 points of 4x4, polygons of 4 points of 3x3; circles/ellipses: 25 centers x 3 x 22 axes/angles; 4 embeddings; 3 numeric types",
 "6x6 grid, polylines of 4 points; 7 embeddings",
 ["shapes crossed by the line sent to infinity are out of the statement"]),
"C04": ("Exact projective-basis matrix (integer arithmetic) of every ordered pair of point quadruples vs. buildFrom4Points with both solvers; collinear quadruples, container sizes 0..6 and homographies that cannot be normalised must throw and leave the object unchanged.",
 "all general quadruples of the 3x3 grid (source as sets, target as sequences) x 4x4 embeddings (those involving the unit one) x 2 solvers; all orders on 4x3; all degenerate quadruples",
 "all pairs of 6 embeddings; 4x4 grid", []),
"C05": ("All point pairs/triples, all small integer lines and all factors of a menu of 8 homogeneous factors (both signs, 1e-3..1e4) on the real code; exact integer incidence, parallelism and equality. A special section enumerates nearly horizontal/vertical lines around the library's own thresholds, at large coordinates.",
 "4x4 grid^3 x 32 factor pairs x 9 embeddings (unit 1e-3 to 64, origin up to 5e6 away); lines with coefficients -2..2; 25^2 directions at infinity",
 "5x5 grid^3 x 64 factor pairs; coefficients -3..3",
 ["equality of two points at infinity is not claimed"]),
"C06": ("All line directions x positions x query points x distances x ways of building the line; distances, sides, coordinates, orthogonal/parallel/rotated lines, angles and collinearity are compared with exact integer geometry or (rotated lines) with sine/cosine definitions.",
 "directions -3..3, queries -1..3, 11 embeddings (3 of them turned so that lines are nearly horizontal), points 1e-2..1e-7 beside the line, 3 constructions, angles k*pi/24", "directions -4..4, queries -1..4", []),
"C07": ("All segments on a grid (plain/oriented) with every derived object; all histories of set/moveTo/translate/copy/refused operations against a pair-of-points model; angles between every pair, also with oriented segments and lines.",
 "4x4 grid, 10 embeddings incl. turned ones and one at 2e4; sides of points at 1e-2..1e-7 of the line; histories of length 4 over 12 operations", "6x6 grid; histories of length 5", []),
"C08": ("All pairs of grid segments and their supporting lines, all operand and end-point orders, vs. exact rational intersection.",
 "4x4 grid (14 400 ordered pairs) x 13 embeddings (turned, sheared, stretched); types and mixed types on 3x3", "5x5 grid",
 ["with float lines far from the origin hits exactly at a segment's end are not decided; from 1e6 on only proper crossings are decided"]),
"C09": ("Circles with integer center and integer squared radius against every line/segment/circle/rectangle/polyline of a grid; number of points, order, incidence on both objects and symmetry decided by integer arithmetic.",
 "5 centers x 6 radii x all pairs of the 5x5 grid x 12 embeddings; 81 circle offsets x 36 radius pairs; polylines of 2-4 points of 3x3", "49 centers x 9 radii; polylines of 4x3",
 ["at tangency with rounded values zero or two close points are both accepted; touching circles with exact values must give exactly one point"]),
"C10": ("All rectangle/line/segment/polyline pairs of a grid, both operand orders, vs. the exact rational set of edge crossings.",
 "rectangles of 3x3..4x4 against all segments of 6x6 and all rectangles of 6x6; polylines of 2..4 points of 3x3; all triangle pairs, triangle-quadrangle pairs; 12 embeddings", "all quadrangle pairs; no thinning of 4-point chains", ["polyline results may hold a point twice and are compared as sets", "at 1e8, lines through the corners of rectangles are not decided"]),
"C11": ("Every vertex sequence (simple or not, every listing) on a grid x every grid query point vs. exact crossing-number oracle with boundary test; combs with many teeth and aligned queries exercise the reference-segment search; closed, open and crossing polylines.",
 "all sequences of 3..5 points of 3x3; all simple polygons of 3..6 points of 3x3 in 6 embeddings and 3 types; simple polygons to 5 points of 4x4; 9 turned/sheared/flattened embeddings (edges within 2e-4 rad of each other); queries a few 1e-4 beside edges and vertices; all 3x3 polyominoes, all listings; combs to 7 teeth", "to 7/8 points on 3x3, 6 on 4x4, 4x3 polyominoes, 12 teeth", []),
"C12": ("Every inner shape x container pair vs. exact integer containment (segment-edge crossings, quadratic inequalities on integers); always-false pairs are included; moved/transformed pairs must keep the answer.",
 "62 polyominoes + slanted polygons on 7x7, inner segments/rectangles on every pair of lattice points (1 in 5 for polyominoes), circles; chains of 3-4 points; 9 turned/sheared/flattened embeddings; circle and rectangle containers; ellipses", "no thinning, 6 embeddings",
 ["pairs where rounding decides (touching with non-representable values) are skipped", "known finding: ellipse.isInside( polygon/rectangle ) - see below"]),
"C13": ("Every vertex sequence of a grid, every listing, vs. exact integer simplicity test, shoelace area, centroid, convexity; queries are repeated after comparing with another object.",
 "3x3: 3..5 points, all listings; repeated vertices; 4x4: 3..5 points, 16 embeddings (turned, sheared, flattened), 3 types; polygons far from the origin (to 5e6), nearly straight angles; all polyominoes; 4096 convex point sets", "3x3 and 4x4 to 6 points", []),
"C14": ("Every sequence of operations (set, translate, moveTo, rotate, minimize, non-const access, copies, assignments, comparisons, each query) on a real polyline; after each step every query is compared with that of a fresh polyline built from a model point list.",
 "open and closed; 34 operations plus all queries to depth 2 from every start shape; 34 operations plus 6 queries to depth 3 from 4 shapes; 15 core operations to depth 4; 9 to depth 5", "full alphabet to depth 4; depth 3 from 6 shapes; 7 core operations to depth 7",
 ["a reference kept from non-const getPts() and modified after a later query cannot be tracked by the library and is excluded"]),
"C15": ("All pairs of vertex lists vs. equality of canonical rotation/reversal; equivalence laws; histories of comparisons and motions; lists with last-place perturbations.",
 "pairs of lists of 2..5 points, repeated vertices, mixed types, 9 embeddings; histories of length 3", "6 points of 2x3, 5 of 3x3; histories of length 4",
 ["polygons with repeated vertices: only soundness and symmetry"]),
"C16": ("Every vertex list x placement (rotations, scales, far) vs. exact integer straightness; smooth curves check that the path stays within 0.001 R; idempotence; end points.",
 "lists of 2..5 points of 3x3 (with repetitions), 6 points on lines and 3x2, 14 placements; polyominoes with all redundant points, every listing", "6 points of 3x3; 3x4 polyominoes",
 ["the documented threshold for 'straight' is 0.001 rad"]),
"C17": ("All pairs of rectangles over all relative orders of the 4 coordinates in each axis, spacing tables incl. one-ulp gaps, vs. exact cell decomposition of union/intersection.",
 "5 coordinates per axis (10^4 pairs x 6 spacing tables); all corner listings; last-place perturbations of each coordinate", "6 coordinates (50 625 pairs)", []),
"C18": ("All point sequences (any order, with repetition) and all subsets of grids vs. exact integer hull; long collinear runs in all orders; copies a few ulps away.",
 "sequences of 1..4 of 3x3, 5 of 2x3 (and 3x3 in 2 embeddings); 4096 subsets x 4 orders x 16 embeddings; 65 536 subsets of 4x4", "5/6-point sequences and 4x4 subsets in every embedding", ["all-collinear sets: only normal return or runtime_error"]),
"C19": ("std::rand as seen by the library is replaced by a choice point; the explorer enumerates the whole tree of values it can return (depth-first), for every point sequence: the circle must be the exact (rational) minimum enclosing circle on every branch and the error-checking state must be restored.",
 "all 2..4-point sequences x all choice sequences x 10 embeddings; nearly right triangles; 5-point sets complete; 6, 9 and 12-14 points with the first 4-8 choices enumerated", "5-point sets in every embedding; longer prefixes", []),
"C20": ("All point pairs/triples, circle pairs, rectangles and setter histories vs. direct definitions.",
 "two: 5x5^2; three: 4x4^3; circle pairs: offsets -6..6, radii 1..4; setter histories to length 4; 11 embeddings, mixed types", "offsets -9..9, length 5", ["thin triangles may throw; internal tangency with rounded values may throw"]),
"C21": ("35 objects of 9 kinds: every single one, every ordered pair, every container sequence and every mixed (variant) sequence vs. interval arithmetic on the defining numbers; all point subsets of 3x3.",
 "pairs and containers to size 3, 7 embeddings, with and without VRTP", "variant containers of size 4, size 3 in every embedding", []),
"C22": ("All ellipses of a parameter grid and all histories of 17 operations vs. a model holding the affine image of the unit circle; with and without OPTIMIZE_SPEED.",
 "12 centers x 25 axes x 37 angles x 3 types; 721 angles; scales 1e-5..1e5; images by homographies with factors 1e-6..1e6, and back; near-circles and very flat ones; all pairs of 448 ellipses for ==; histories of length 3", "histories of length 4", ["half-axes below 1e-5 are not explored"]),
"C23": ("Every sequence of motions on real objects of every kind vs. exact integer vertices moved by the plane motion; group identities fall out as repeated states.",
 "translations/moves of length 5; rotations and mirrors of length 3; all triangles of 3x3", "length 6 / 4", []),
"C24": ("All point sequences x query points x container kinds vs. exact integer distances and orders, including the documented tie-breaks.",
 "sequences of 1..4 (extreme), 2..3 (nearest), pairs of polylines; 11 embeddings; distances differing by 5e-11 of their value", "one more point everywhere", ["container holding only copies of the query point: only a result or the documented error"]),
"C25": ("Every token string up to a length and every program of path commands x every writing style vs. an independent reader of the SVG path grammar; documents are imported through the Visitor only.",
 "13 tokens to length 5 after 3 prefixes; programs of 1+4 commands (19^4 x 6) in up to 8 styles", "tokens to length 6, programs of 1+5 commands",
 ["paths not starting with M; single-point subpaths; an open subpath whose ends coincide: kind not claimed"]),
"C26": ("Every drawing of up to 3 shapes x way of drawing x draw parameters is written by the library, parsed by tinyxml2 (must be well formed), imported and compared with the plain numbers; every permutation of the attributes of hand-written elements; files.",
 "16 shapes: all sequences of 1..3; 4 ways x 7 parameter sets; value tables", "all sequences of 4 shapes", ["values are printed with 6 digits; coordinates that print equal are excluded"]),
"C27": ("Every heterogeneous container and every assignment/transform history of variants and of base-class pointers vs. the same calls on the concrete object; two builds (VRTP, VRTP+PRTP).",
 "containers to size 3, histories to length 3", "size 4, every embedding and numeric type", []),
"C28": ("All histories over 55 operations (setters, defaults, resets, copies, draws) vs. a plain record of values; image histories vs. the list of calls; visible part of points and lines vs. exact clipping.",
 "length 3 over 55 operations; values 0..255 for each setter; image histories of length 3", "reduced alphabet to length 4; image histories of length 4; larger visibility grid, long double", ["lines through an image corner only up to rounding are skipped"]),
"C29": ("All histories mixing valid and refused operations, on every type, vs. the same history without the refused one; thresholds and later results must be the same; the driver treats an abort, a signal or a time-out of the explorer as a violation.",
 "every refused call of the catalogue alone, before and between every pair of valid operations, and every ordered pair of refused calls; float, double, long double; two builds", "between valid operations of length 2+1; at a second place in the plane", []),
"C30": ("The same scenes go through 8 build configurations (with/without OPTIMIZE_SPEED, VRTP, PRTP, warnings, checks, long double default...) and 9 pairs of numeric types; all answers are compared with one another.",
 "all 14 400 relative orders of 5 points in x and y x 2 radius choices x 6 query groups x 8 configurations x 9 type pairs", "3 radius choices, 2 spacings", []),
"C31": ("All simple polygons, listings, offsets and histories vs. the definition of the offset polygon (parallel edges at the distance, exact side), bisectors, regular polygons and parallelograms.",
 "simple polygons of 3..5 points of 3x3, 3-4 of 4x4, 8 distances, 12 embeddings; regular polygons of 3..100 sides", "6 points, 255 sides", ["outward offsets that fill a notch and split corners that meet: no claim"]),
"C34": ("Every object of the menus with every set of drawing parameters is drawn with OpenCV; each changed pixel must be near the ideal curve and have the color asked for (blended with the background), and no part of the ideal curve inside the image may be left out. Containers, pairs and variants vs. one drawing at a time; histories of an image vs. a new image of that size.",
 "40x30 images: 120 positions of a point x 6 styles x 4 sizes x 3 widths; 42^2 segments and rectangles, all lines through 36 points, 294 circles, 1152 ellipses, polylines of 3 and 4 points of 12, 4 sets of parameters; containers of up to 3 of 9 variants; histories of length 3 over 14 operations; float and double", "long double, all 4-point polylines, histories of length 4", ["tolerance of 1.5 to 5 pixels plus the line width (OpenCV rounds centers, radii and angles to integers); point styles within the space of the largest marker; a default-constructed raster image (no matrix)"]),
"C35": ("All settings of the six thresholds (3 values each, 2 for the radius check) are states; from each of them every assignment, made in either of two source files linked together, is a transition; after it, 140 probes per numeric type and file (objects older than the assignment and new ones, with a quantity clearly under or over each value) must answer as the record of the values says.",
 "486 states x 17 assignments x 2 files, probes in double and long double, in both files", "all pairs of consecutive assignments, the second one from the other file (297,000 histories)", ["quantities within a factor of 2 of a threshold; float; thresholds changed by another thread (documented as not supported)"]),
"C33": ("Every value, matrix, polygon and assignment history of the menus through every conversion (OpenCV, Boost.Geometry, vectors, arrays, user types) vs. the plain numbers.",
 "14 values^2 x types; 576 matrices; every vector-of-vectors shape; polygons of 0..5 points in 6 embeddings; assignment histories of length 4", "25 values; polygons to 6 points; histories of length 5", ["export of points at infinity; inner rings (documented as ignored)"]),
}
