# Source of /verif/properties.jsonl (tools/gen.py writes it).
H = "homog2d.hpp"
def P(id, title, statement, over, text, why, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[H], state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook))

SAMPLE = "The stable tests only run a few fixed drawings and compile checks; the (unbuilt) unit tests sample single examples. "

PROPS = [
P("C01","Homography histories act on points as the composed matrix",
  "After any sequence of building, init, set/add translation, rotation and scale, element and bulk assignment, product, copy, inversion and transposition, a homography applied to a point gives the point obtained from the mathematical 3x3 matrix of that sequence (an added step is applied after the earlier ones), and inverse() is a true inverse. Two homographies compare equal exactly when their matrices are proportional, whatever was done with them before. An operation that is refused (singular matrix, null scale, null bottom-right element) throws std::runtime_error and leaves the homography acting as before.",
  ["histories","inputs"],"every sequence of the public mutating operations on one or two homographies, every finite point",
  SAMPLE+"None of them runs a sequence of more than three steps, or compares objects after use.",
  [("addTranslation/addRotation/addScale/setX/init/set/inverse/transpose/operator*/operator==","class Hmatrix_"),("adjugate, determinant, normalize","class Matrix_")],
  [("_data","3x3 matrix","Matrix_"),("_isNormalized","matrix is in the comparison form","Matrix_")],["H*pt","h1==h2"]),
P("C02","Lines follow their points under a homography at every moment",
  "For every homography and at every point of its history (after any mix of modifications, copies, assignments and earlier uses), applying it to a line gives the line through the images of the line's points: if p lies on l then H*p lies on H*l, and H*(p*q) equals (H*p)*(H*q). The answer depends only on the current matrix, never on earlier uses of the object.",
  ["histories"],"every interleaving of mutators, copies and applications to lines/points, on every homography reachable in it",
  SAMPLE+"A stale or missing refresh of the inverse-transpose kept in the object shows only for particular orders of use, change and re-use.",
  [("impl_mult_h for lines, p_buildHmT","LPBase/Hmatrix_"),("change flag","class Hmatrix_")],
  [("_hmt","inverse transpose used for lines","Hmatrix_"),("_hasChanged","_hmt must be rebuilt","Hmatrix_")],["H*line","H*vector<line>","applyTo"]),
P("C03","A homography maps every shape to the shape of its image points",
  "Applying an invertible homography (finite on the shape) to a segment, oriented segment, rectangle, open or closed polyline, or to a container of points, lines or such shapes yields the shape made of the images of its defining points, in the same order, with the same open/closed kind and (for oriented segments) the same direction; applying it to a circle or ellipse yields the ellipse holding exactly the images of its points. applyTo() and the container product agree with the elementwise product.",
  ["inputs"],"all shapes x all invertible homographies for which the image stays finite (and an ellipse, for conics)",
  SAMPLE+"They draw a few transformed shapes and never compare coordinates.",
  [("operator* overloads and applyTo","free functions / Hmatrix_"),("operator*(Homogr,Ellipse/Circle)","base::Ellipse_")],(),["H*shape","applyTo"]),
P("C04","A homography built from four point pairs maps them exactly",
  "For any two quadruples of points with no three collinear, buildFrom4Points returns a homography mapping each source point to its target, with either solver (OpenCV, Eigen); it throws if a container does not hold exactly four points, and (as such a matrix cannot be stored normalized) if the homography would send the origin to infinity.",
  ["inputs"],"all pairs of quadruples in general position, both solvers, every ordering of the pairs",
  SAMPLE+"One example pair of quadruples at most is ever solved.",
  [("buildFrom4Points_Eigen, buildFrom4Points_Opencv","namespace priv")],(),["H.buildFrom4Points","buildFrom4Points"]),
P("C05","Points and lines are dual and independent of their homogeneous scale",
  "The line built from two distinct points passes through both, the point built from two non-parallel lines lies on both, the products are commutative, and both throw for identical points / parallel lines. Every query (equality, coordinates, distances, parallelism, angles, products) gives the same answer for all non-null multiples, positive or negative, of the same homogeneous coordinates, and a point at infinity behaves as the common point of the lines of its direction.",
  ["inputs"],"all points and lines, all non-null homogeneous factors",
  SAMPLE+"Representation factors other than one, and negative ones, are never compared systematically.",
  [("crossProduct, p_normalizePL, operator==","LPBase"),("impl_op_product","LPBase"),("isInf, getX, getY","LPBase")],(),["operator*","operator==","getX/getY","distTo"]),
P("C06","Line queries agree with plane geometry",
  "distTo, side, getCoord/getPoint, getPoints at a distance, getOrthogonalLine, getParallelLine(s), getParallelDistance, getOrthogSegment, getRotatedLine, addOffset, getAngle, isParallelTo and areCollinear return the geometric answer for every line orientation, including horizontal and vertical ones; point pairs come back ordered (smallest x, then y). Requests with no answer (a y for an x on a vertical line, a point not on the line, lines that are not parallel) throw.",
  ["inputs"],"all lines (built from points, coordinates or homogeneous triples), all query points, distances and angles",
  SAMPLE+"Each function is sampled for one or two directions only.",
  [("impl_getPoints, impl_getOrthogonalLine, impl_getParallelLines, getAngle","LPBase"),("side, getParallelDistance, areCollinear","free functions")],(),["Line2d member and free functions"]),
P("C07","Segments keep their canonical form and derived geometry",
  "A non-oriented segment holds its points smallest first and equals the same segment given in either order; an oriented one keeps the given order, and unary minus reverses it without altering its operand. For both, length, center, split, bisector, extension, parallel segments, orthogonal points/segments, points and splits at a distance, supporting line, angle, point side and distance to a point (with its indicator) are those of plane geometry, after any history of set, moveTo, translate and copies. Degenerate input (identical points) is refused with an exception and leaves the object unchanged.",
  ["inputs","histories"],"all pairs of distinct points, both segment kinds, all query points, all short mutation histories",
  SAMPLE+"One or two example segments per function, mostly axis-aligned.",
  [("p_set / order normalisation, getExtended, split, getPointAt, getOrthogPts, distTo, getPointSide","SegVec"),("getParallelSegs, getBisector","SegVec")],
  [("_ptS1,_ptS2","end points","SegVec")],["Segment/OSegment members and free functions"]),
P("C08","Line and segment intersections are exact and symmetric",
  "For any two non-parallel lines/segments (plain or oriented), intersects() is true exactly when they share a point (end points included), returns that point, and gives the same answer with the operands swapped and with reversed segments. Parallel lines, and parallel segments, are reported as not intersecting; get() without an intersection throws.",
  ["inputs"],"all pairs of lines and segments, all shared/touching/disjoint configurations, operand orders and point orders",
  SAMPLE+"Touching and T configurations in every orientation are not enumerated.",
  [("intersects","SegVec / LPBase"),("Intersect","detail")],(),["a.intersects(b)"]),
P("C09","Intersections with circles are complete, ordered and symmetric",
  "For a circle against a line, segment, circle, rectangle or polyline, intersects() finds exactly the common points prescribed by the documented rules (none if disjoint or strictly inside, two ordered points for a crossing line, one per crossing edge), each returned point lies on both objects, and a.intersects(b) agrees with b.intersects(a).",
  ["inputs"],"all placements of a circle relative to lines, segments, circles, rectangles, polylines away from numerical tangency, plus exact tangency between circles",
  SAMPLE+"A handful of placements are drawn.",
  [("impl_intersectsCircle, SegVec::intersects(Circle), Circle_::intersects","LPBase/SegVec/Circle_")],(),["a.intersects(b)"]),
P("C10","Rectangle and polyline intersections return every crossing, symmetrically",
  "Intersecting a line, segment, rectangle or polyline with a rectangle or polyline returns exactly the set of points where the line or segment, respectively the edges, meet the edges (parallel overlapping edges count only where other edges meet them; duplicates removed for rectangles and sorted), and swapping the operands gives the same set of points. Identical rectangles have no intersection.",
  ["inputs"],"all pairs of these objects on a bounded grid, all relative placements including shared corners and edges",
  SAMPLE+"13 rectangle pairs are drawn, no set of points is compared.",
  [("intersects","FRect_, PolylineBase, LPBase::impl_intersectsFRect"),("IntersectM","detail")],(),["a.intersects(b)"]),
P("C11","Point-in-polygon is exact for every simple polygon and point",
  "For every closed simple polygon and every point, isInside is true exactly when the point is strictly inside (points on the boundary and outside give false), whatever the first vertex and the direction in which the vertices are listed; for an open or self-crossing polyline it is false. It never fails on a polygon of ordinary size.",
  ["inputs"],"all simple polygons on a bounded grid (every vertex count up to the bound, every start vertex and direction), all grid and off-grid query points",
  SAMPLE+"Seven drawings; the query points aligned with vertices or edges, where ray casting goes wrong, are not enumerated.",
  [("impl_isInsidePoly: reference segment selection, edge test, crossing parity","LPBase"),("getExtended, getBB","FRect_/PolylineBase")],(),["pt.isInside(poly)"]),
P("C12","Containment of shapes agrees with the containment of all their points",
  "a.isInside(b) is true exactly when the whole of a (segment, rectangle, circle, polyline, ellipse where the documentation announces support) lies strictly inside the rectangle, circle or closed simple polygon b (no common point with its boundary), and is false for every pair announced as always false. A shape moved or transformed together with its container keeps the answer.",
  ["inputs"],"all documented pairs of types, all relative placements on a bounded grid, including touching and nested ones",
  SAMPLE+"A few pairs with one inside and one outside placement each.",
  [("isInside overloads","Common/FRect_/Circle_/SegVec/PolylineBase/Ellipse_")],(),["a.isInside(b)"]),
P("C13","Polygon measures are exact and independent of how vertices are listed",
  "For a closed polyline, isSimple() is true exactly when it is a simple polygon (no two edges cross, touch or overlap other than neighbours at their shared vertex), area() is then the enclosed area and otherwise 0, centroid() the centroid (it throws if not simple), and isConvex() tells convexity. These answers, length(), nbSegs() and the extreme points are the same for every starting vertex and both directions, and are unaffected by comparing the object with another.",
  ["inputs"],"all vertex sequences on a bounded grid up to the vertex bound, all rotations and reversals",
  SAMPLE+"A few shapes in one listing each.",
  [("p_impl_isSimple/isPolygon, area, centroid, isConvex, length","PolylineBase")],[("_attribs","cached length/area/simplicity/centroid","PolylineBase")],["isSimple, area, centroid, isConvex, length"]),
P("C14","A polyline answers from its current points only",
  "After any history of set, translate, moveTo, rotate, minimize, copies, assignments, comparisons and queries on an open or closed polyline, every query (points, segments, length, area, centroid, simplicity, convexity, bounding box, extreme points) equals that of a fresh polyline built from the current points. A refused operation changes nothing.",
  ["histories"],"all interleavings of mutators and queries up to the depth bound, all objects reachable that way",
  SAMPLE+"Cached attributes go stale only for query-then-change-then-query orders, never exercised for every pair.",
  [("ValueFlag / PolylineAttribs invalidation in each mutator","PolylineBase"),("normalize","PolylineBase")],[("_attribs","cached attributes","PolylineBase"),("_plIsNormalized","points are in comparison order","PolylineBase")],["all const members"]),
P("C15","Polyline equality means same path or polygon",
  "Two closed polylines without repeated vertices are equal exactly when one vertex list is a rotation or reversed rotation of the other; two open ones exactly when their lists are equal or reversed. Equality is an equivalence relation, is never changed by earlier comparisons, translations, rotations or copies, and comparing does not change the polygon an object describes.",
  ["inputs","histories"],"all pairs of vertex lists up to the bound, all comparison/mutation orders",
  SAMPLE+"Some pairs are compared once, on fresh objects.",
  [("operator==, normalizePL","PolylineBase")],[("_plIsNormalized","points are in comparison order","PolylineBase")],["p1==p2"]),
P("C16","Minimizing a polyline drops redundant points and nothing else",
  "minimize() removes exactly the vertices lying on the straight path between their neighbours, keeping the others in order, so the traced path (or polygon) is unchanged; the end points of an open polyline are kept, and minimizing twice changes nothing more.",
  ["inputs"],"all open and closed vertex lists on a bounded grid, every edge direction",
  SAMPLE+"Three drawings per kind.",
  [("minimizePL: angle comparison of consecutive segments","PolylineBase")],(),["minimize"]),
P("C17","Rectangle intersection, union and IoU are exact set operations",
  "For any two rectangles, r1&r2 is the rectangle of their common area (absent when the common area is null), r1|r2 is the polygon covering exactly their union (an empty polyline when they are disjoint, the outer rectangle when nested, a single path of 8 points when they only share a corner), IoU is the ratio of both areas, and all are symmetric and agree between members, free functions and operators. Width, height, area, length, corner, edge, diagonal, circle and extension accessors agree with the two defining points.",
  ["inputs"],"all pairs of rectangles over every relative order of their coordinates, exact and non-dyadic coordinates",
  SAMPLE+"13 pairs are drawn to a file; no area is compared.",
  [("intersectArea, unionArea, IoU","FRect_"),("index/cell walk","namespace priv::runion")],(),["operator&, operator|, IoU"]),
P("C18","The convex hull is the smallest convex polygon holding the points",
  "For any container of points (or polyline) holding at least three non-collinear points, in any order and with any repetition, convexHull returns a closed convex polygon whose vertices are input points, without collinear or repeated vertices, and which contains every input point; it depends only on the set of points. For aligned points it holds the two extreme ones.",
  ["inputs"],"all point sets on a bounded grid, all input orders for small ones, repetitions, collinear runs, all container kinds",
  SAMPLE+"Two drawings.",
  [("pivot search, angular sort, stack walk","priv::chull, convexHull"),("isConvex hull member","PolylineBase::convexHull")],(),["convexHull"]),
P("C19","The minimum enclosing circle is minimal for every internal random choice",
  "For any container of at least two distinct points, the circle built from it contains all the points (within rounding) and no smaller circle does, whatever the pseudo-random choices made during the computation, the order of the points and the container kind. Afterwards the library's error checking behaves as before.",
  ["inputs","schedules"],"all point sets on a bounded grid x every sequence of values the random source can return",
  "The algorithm draws random indexes: a test sees one draw sequence per run and one or two point sets.",
  [("Welzl recursion","priv::MEC / Circle_::set(container)")],[("thr::doNotCheckRadius","global switch used during the computation","thr")],["Circle(container)"]),
P("C20","Circles from points and tangent segments satisfy their definition",
  "A circle built from two distinct points has them as a diameter; built from three non-collinear points it passes through all three, and throws for coincident or collinear ones without modifying the object; areCollinear tells exactly the collinear (or coincident) triples, for every numeric type and far from the origin. getTanSegs of two circles, neither inside the other, returns the two outer tangent segments, each touching the circles at its ends perpendicular to the radii and one on each side of the centers, and throws when one circle is inside the other; the bounding and inscribed circles of a rectangle have its center and pass through its corners, respectively touch its longest sides; center and line helpers join the centers; setters keep the other attributes.",
  ["inputs","histories"],"all pairs/triples on a grid, all pairs of circles (every relative direction and radius order)",
  SAMPLE+"A showcase drawing.",
  [("Circle_::set overloads","Circle_"),("getTanSegs","free functions")],(),["Circle constructors, set, getTanSegs, getSegment, getLine"]),
P("C21","Bounding boxes are tight for every object, pair and container",
  "getBB of a circle, ellipse, rectangle, polyline, of two objects of any types, or of a container (vector, list, array, variant) of objects is the smallest axis-aligned rectangle holding all of them, whatever their order. It throws (and nothing else) exactly when that rectangle would have no width or height or does not exist, objects without extent (lines, empty polylines) being ignored in a pair or in a container of variants; a container of polylines may also refuse a polyline that has no box of its own.",
  ["inputs"],"all objects/pairs/short sequences over an alphabet of every type, including degenerate-direction segments and empty polylines, every order",
  SAMPLE+"A drawing per type.",
  [("getBB overloads, getPointPair, getBB_Points/getBB_Segments/getBB_FRect/getBB_CommonType","free functions, namespaces priv, ppair, fct")],(),["getBB"]),
P("C22","Ellipse parameters, area, boxes and tests agree with the defining conic",
  "An ellipse built from a center, two half-axes and an angle (or from a circle) reports these values back (major >= minor, angle modulo pi), its area, bounding box, oriented box, axis lines and isCircle follow from them, and a point is inside exactly when it satisfies the ellipse inequality. Translating, moving, transforming, copying and comparing keep all of this true at every step, comparison being equality of the curves.",
  ["inputs","histories"],"all centers/half-axes/angles on a grid covering every quadrant and axis-aligned orientation, all short histories of motions and comparisons",
  SAMPLE+"A drawing and a speed test.",
  [("p_init, p_computeParams, p_getParams","Ellipse_"),("operator==, translate, moveTo, getBB, getOBB, pointIsInside","Ellipse_")],[("_epar,_epHasChanged","parameter cache of the speed build","Ellipse_"),("_isNormalized","matrix in comparison form","Matrix_")],["Ellipse members"]),
P("C23","Motions act identically on every type and compose as a group",
  "translate, moveTo and the quarter-turn/mirror rotate operations map every vertex of points, segments, rectangles, circles and polylines exactly as the corresponding plane motion about the given center; their sequences compose as the group of these motions (four quarter turns, two mirrors or a move and its opposite restore the object), and lengths, areas and kinds never change. Member and free functions agree.",
  ["histories","inputs"],"all sequences of motions up to the depth bound on all types",
  SAMPLE+"No sequence is executed, only drawings.",
  [("rotate","FRect_, PolylineBase, LPBase, free functions"),("translate/moveTo","all classes")],(),["translate, moveTo, rotate"]),
P("C24","Point-set queries return the true extremum",
  "findNearestPoint, findFarthestPoint and the combined form return the index of a point at least/most distant from the query point (the query point itself being skipped as documented), getExtremePoint and its four variants the extreme point with the documented tie-break and its index, getClosestPoints the closest pair of vertices with its distance, and getPtsInside exactly the points inside, in order. They throw on containers that are too small, and agree for every container kind and point order.",
  ["inputs"],"all short point sequences on a grid (ties, repetitions included), all queries and directions",
  SAMPLE+"One showcase.",
  [("findNearestPoint..., priv::findNearestFarthest","free functions"),("getExtremePoint","priv"),("getClosestPoints, getPtsInside","free functions")],(),["these free functions and polyline members"]),
P("C25","SVG path data is read as the SVG grammar defines",
  "Importing a path made of move, line, horizontal, vertical and close commands (absolute or relative, implicit repetition, any legal separators and number forms) yields exactly the subpaths, in order, with the vertices and open/closed state the SVG grammar gives; unsupported or malformed data is refused with an exception or skipped as documented, and never aborts the process or yields wrong coordinates silently.",
  ["inputs","programs"],"all token sequences of the grammar up to the length bound x separator styles",
  SAMPLE+"Two map files are parsed without checking coordinates.",
  [("parsePath, getNextElem, tokenizeSvgPath, SvgPathCommand, generateNewPoint","namespaces svgp / svg")],[("current point, previous command, subpath start","state of the path interpreter","parsePath")],["svg::Visitor, svgp::parsePath"]),
P("C26","Drawing to SVG and importing back preserves shapes",
  "Any drawing made of circles, ellipses, segments, rectangles, points-polylines written to an SVG image and imported with the visitor gives back the same objects in drawing order, same types and coordinates (within the printed precision), and an imported transform-free SVG element maps to the matching object whatever the order of its attributes. An element with a missing or ill-formed attribute is refused with std::runtime_error, and what was read before is kept.",
  ["inputs","programs"],"all short sequences of drawable objects over an alphabet of coordinates and draw parameters",
  SAMPLE+"Import is only checked not to fail on two files.",
  [("draw(SvgImage) of each class","free functions / img"),("Visitor::VisitEnter/VisitExit","namespace svg")],(),["Image<SvgImage>::write, svg::Visitor"]),
P("C27","Runtime-polymorphic objects behave as the concrete type they hold",
  "For every type, calling size, length, area, type, draw, transform, bounding box or a query through a variant (CommonType) or through a base-class pointer gives the same result as on the concrete object, for every element of any heterogeneous container; asking a variant for a different type than it holds throws.",
  ["inputs","programs"],"all types, alone and in all short heterogeneous sequences, all visitors",
  SAMPLE+"Three programs print values without comparing.",
  [("TypeFunct, LengthFunct, AreaFunct, SizeFunct, TransformFunct, DrawFunct, VariantUnwrapper","namespace fct"),("Root, getBB pointers","namespace rtp")],(),["std::visit with fct::*, Root*"]),
P("C28","Draw parameters and image state follow the calls made",
  "After any history of setting, defaulting, resetting and copying draw parameters, each parameter object holds exactly the values last set on it (others at the defaults in force when it was created), setting defaults affects only objects created afterwards, and a drawing call with parameters emits those values and nothing of a previous call. An image holds exactly the elements of the calls made since it was last cleared, at the size last set, and shows points inside it only and lines as their part inside it. Random colors lie in the requested range, whatever the random choices.",
  ["histories"],"all sequences of setters, setDefault, resetDefault, copies and draws up to the depth bound",
  SAMPLE+"Not exercised as a history.",
  [("DrawParams, p_getDefault, setDefault, resetDefault","img::DrawParams"),("getSvgRgbColor, getAttrString","img")],[("static default parameter set","defaults for new objects","DrawParams")],["SVG output"]),
P("C29","Failed operations throw the documented error and change nothing",
  "Every invalid argument (coincident points, null radius or size, bad index, empty or short container, null homogeneous values or null last matrix element, parallel operands, singular matrix) makes the operation throw std::runtime_error, never abort, hang or return NaN; after the exception the object, the library's thresholds and all later valid operations behave as if the call had not been made.",
  ["fault_sequences","histories"],"every operation with every class of invalid argument, at every position of a short history of valid operations",
  SAMPLE+"State after an exception is never examined.",
  [("HOMOG2D_THROW_ERROR_1/2, HOMOG2D_CHECK_*","everywhere"),("set() functions that validate before storing","all classes")],(),["exceptions, object state"]),
P("C30","Results do not depend on the numeric type or build options",
  "For inputs exactly representable in every floating-point type and away from the thresholds, each query gives the same answer (within the precision of the type) with float, double and long double objects, with mixed types, and with or without the speed-optimised, variant and polymorphic build options; converting an object between types keeps its value and kind.",
  ["configurations","inputs"],"all numeric types and option sets x the enumerated inputs",
  SAMPLE+"One configuration is compiled and run for each stable test.",
  [("templates on FPT, converting constructors","all classes"),("HOMOG2D_OPTIMIZE_SPEED, HOMOG2D_ENABLE_VRTP, HOMOG2D_ENABLE_PRTP","preprocessor")],(),["all"]),
P("C31","Offset polygons and built polygons match their definition",
  "For a simple polygon, getOffsetPoly(d) returns the polygon whose edges are parallel to the original ones at distance |d|, outside for positive and inside for negative d, for every starting vertex, direction and history of the object; if an edge would vanish when going inside, it returns an empty polygon. With angle splitting the extra vertices lie at the requested distance from the corner. getBisectorLines() gives, for each vertex (each inner vertex of an open polyline), the line through it at equal angles from its two edges. Regular polygons and parallelograms built from parameters have the announced vertices, side and inscribed radius.",
  ["inputs"],"all convex polygons on a bounded grid in all listings, several distances of both signs",
  SAMPLE+"A showcase drawing.",
  [("getOffsetPoly, set(rad,n), setParallelogram","PolylineBase")],(),["getOffsetPoly, set, setParallelogram"]),
P("C32","Results stay accurate for all floating-point coordinates",
  "For arbitrary finite floating-point coordinates, each computed value is within a stated error bound of the exact one.",
  ["inputs"],"all floating-point values, including nearly degenerate ones",
  "The space is continuous in effect (2^64 values per coordinate) and the library states no bound.",
  [("floating-point arithmetic with fixed thresholds","everywhere")],(),["all"]),
P("C33","Conversions to and from other geometry libraries preserve values",
  "Points, matrices and polygons imported from or exported to OpenCV, Boost.Geometry, plain vectors/arrays or user types with x and y members keep their exact coordinates, order and open/closed meaning; a matrix written out and read back is the same homography, also when the receiving object was already in use, and ill-formed inputs (wrong size or type) throw.",
  ["inputs","histories"],"all supported foreign types x enumerated contents, on fresh and used objects",
  SAMPLE+"One boost program with one polygon.",
  [("constructors and getters for foreign types","LPBase, Hmatrix_, PolylineBase"),("copyTo / operator=(cv::Mat)","Hmatrix_")],(),["converting constructors, getPt, copyTo"]),
P("C34","Drawing on a raster image marks the pixels along the object and nothing else",
  "Drawing a point, segment, oriented segment, line, rectangle, circle, ellipse or polyline on an OpenCV image changes only pixels next to that object (or to the labels, point markers and arrows that were asked for), in the color and line width given, and marks the whole part of it that is inside the image, wherever the object lies; the object, the parameters and other images stay as they were. The member function, the free function and the function of the image give the same pixels, and a container, a pair or a variant is drawn like its elements one after the other. The reported size of an image is the size of its matrix, also when it was built on an existing one; clear() makes it uniform, and write() stores its pixels.",
  ["inputs","histories"],"all objects in and around the image x drawing parameters x histories of the image",
  SAMPLE+"The drawing tests write files that nobody looks at.",
  [("Opencv drawing functions (end of the file)","FPT::draw( img::Image<cv::Mat>& ), detail::drawPt, drawText"),("img::Image","Image<cv::Mat>")],(),["draw() on img::Image<cv::Mat>, drawText, Image::setSize / clear / write"]),
P("C35","The documented thresholds govern the tolerant answers, everywhere",
  "The tolerant answers (identical points, a line, segment, circle, rectangle or ellipse refused because it is degenerate, parallel lines, point on a line or on an edge, touching, redundant points dropped, coordinates and points at infinity, matrix that cannot be normalized or inverted) are decided by the documented threshold for that quantity, and by no other: under its current value the answer is one, over it the other. A value assigned at run time is in force from then on, for existing and new objects, whatever the order of assignments and whichever source file of the program made it or asks the question; assigning the former value back restores the former answers; the values given at build time are in force at the start, and printThresholds() prints the values in force.",
  ["histories","inputs"],"all values of the six settings x all assignments from either of two source files x quantities under and over each threshold",
  SAMPLE+"They run in a single source file, with the default values.",
  [("namespace thr and the predicates that read it","thr::nullDistance(), nullOrthogDistance(), nullAngleValue(), nullDenom(), nullDeter(), doNotCheckRadius()")],(),["thr::*, HOMOG2D_THR_*, operator==, isParallelTo(), isInf(), constructors and set() of all types"]),
]
