#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":["homog2d.hpp"],"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)
SAMPLE="The tests that run compile and draw a handful of fixed shapes; none compares numeric results over a continuous input space, so a wrong value for other coordinates passes."

p("C01","A homography product is the composition of the transforms, inverse undoes it",
  "For default double-precision homographies and points, (A*B)*p equals A*(B*p); multiplying an invertible homography with its inverse() (either order) gives the identity up to scale; transpose() exchanges rows and columns. inverse() throws for a matrix of null determinant instead of returning a value, and equality of homographies holds for a homography and any non-zero multiple of it.",
  ["inputs"],"all 3x3 matrices and all points whose images are finite", SAMPLE+" The algebraic laws quantify over a 9- to 18-dimensional space.",
  [("Matrix product and matrix-vector product","detail::product()"),("inverse by adjugate","detail::Matrix_::inverse, p_adjugate, p_divideAll"),("normalising comparison","Hmatrix_::operator==, p_normalizeMat")])
p("C02","Lines transform so that incidence is kept, whatever was done to the homography",
  "For an invertible homography H and a line through two points, H applied to the line is the line through the images of the points. This holds at every use, also when H was applied to lines before and was modified in between by init, set, set/addTranslation, set/addRotation, set/addScale, inverse, transpose, or assignment/product.",
  ["inputs","histories"],"all invertible homographies, all lines, all sequences of mutating calls interleaved with uses", "Needs the use-modify-use histories of a cached inverse-transpose; the tests use each homography once or twice on fixed data.",
  [("H^-T cache","Hmatrix_::_hmt/_hasChanged, operator*(Hmatrix_,Line2d_)")],[("_hmt","cached inverse transpose","Hmatrix_"),("_hasChanged","cache validity flag","Hmatrix_")])
p("C03","Homography builders perform the named planar transformation",
  "A homography set to a translation, rotation or scale moves every point as that transformation does (rotation counter-clockwise around the origin by the given angle in radians, scale per axis), discarding earlier content, and the add forms apply the new transformation after the one already stored. The constructors with one and two numbers build the rotation and the translation.",
  ["inputs","histories"],"all parameters, all points, all prior contents of the homography", SAMPLE,
  [("set/add builders","Hmatrix_::setTranslation/setRotation/setScale/addTranslation/addRotation/addScale/init")])
p("C04","Line through two points and point on two lines",
  "The line built from two distinct points (product, constructor) contains both, does not depend on their order; the point built from two non-parallel lines lies on both and does not depend on their order. Identical points and parallel lines throw and never give a result.",
  ["inputs"],"all pairs of points, all pairs of lines", SAMPLE,
  [("cross product","detail::crossProduct"),("operator* (points), operator* (lines)","h2d::operator*"),("line normalisation","LPBase::impl_normalize")])
p("C05","Point-point and point-line distances are Euclidean",
  "The distance between two points is the Euclidean one, symmetric, zero exactly for coincident points; the distance between a point and a line is the length of the perpendicular, and is the same from either operand and for every homogeneous scaling of the line or the points. Orthogonal segments of a point on a line start at the perpendicular foot and end at the point.",
  ["inputs"],"all points and lines including every homogeneous scaling", SAMPLE,
  [("distances","LPBase::distTo, impl_distToPoint, h2d::dist"),("orthogonal segment","LPBase::getOrthogSegment")])
p("C06","Angles, parallelism and perpendicular/parallel/rotated constructions agree",
  "The angle between lines is in [0,pi/2], symmetric, and its cosine is the absolute cosine of the directions; lines are parallel exactly when that angle is below the documented threshold. The orthogonal line at a point passes through it and is perpendicular, the parallel line through a point passes through it and is parallel, the two parallel lines at distance d are parallel at distance d on opposite sides, and the parallel distance of two parallel lines is the distance between them.",
  ["inputs"],"all lines, points, distances", SAMPLE,
  [("getAngle/isParallelTo","LPBase"),("getOrthogLine/getParallelLine(s)/getRotatedLine","LPBase"),("getParallelDistance","free function")])
p("C07","Sampling points on a line",
  "The coordinate and the point returned for a line at a given x or y lie on the line, at that coordinate; the pair of points at distance d of a point of the line lies on the line, at distance d of that point, the one with lowest x (then y) first. Vertical (horizontal) lines throw for a given x (y), and a start point off the line throws.",
  ["inputs"],"all lines, coordinates, distances", SAMPLE,
  [("getCoord/getPoint/getPoints","LPBase::impl_getCoord, impl_getPoints_A/B/D")])
p("C08","Segments keep their endpoint order contract",
  "A non-oriented segment always reports its two points smallest first (x, then y), whatever constructor, setter, conversion, translation, move or copy produced it, and holds exactly the points it was given; an oriented segment reports them in the given order, its unary minus gives the reversed segment. Identical points throw and a failed set leaves no segment with identical points; equality ignores the order for non-oriented and respects it for oriented segments.",
  ["inputs","histories"],"all point pairs and all ways to build, convert or mutate a segment", "Relational over every construction path; the tests that run never compare the stored order.",
  [("p_check_input/fix_order","base::SegVec"),("conversion constructor","SegVec( const SegVec<SV2,FPT2>& )")],[("_ptS1,_ptS2","end points, ordered for Segment","SegVec")])
p("C09","Segment measures and derived segments",
  "Length is the Euclidean distance of the end points; the centre is equidistant and on the segment; split at the centre gives two segments of half the length sharing the centre; the extended segment keeps the supporting line and centre with three times the length; the bisector is perpendicular through the centre; the two parallel segments at distance d are translated by d to both sides. For oriented segments the point at distance d is at distance d from the start, in the direction of the end.",
  ["inputs"],"all segments and distances", SAMPLE,
  [("length/getCenter/split/getExtended/getBisector/getParallelSegs/getPointAt","base::SegVec")])
p("C10","Segment distance and side of a point",
  "The distance from a point to a segment is the minimum of the distances to the points of the segment, and the optional output tells whether the minimum is reached inside (0), at the first (-1) or the second end point (+1). The side reported relative to an oriented segment is Left, Right or Neither as the signed area of start, end, point is positive, negative or null.",
  ["inputs"],"all segments and points", SAMPLE,
  [("distTo","base::SegVec::distTo"),("getPointSide","base::SegVec")])
p("C11","Segment intersection is exact",
  "Two segments (oriented or not) that are not parallel intersect exactly when their supporting lines meet in a point of both, and the point returned is that point; a segment intersects a non-parallel line exactly when the line separates its end points or passes through one, and the point returned is on both. The answer does not depend on which of the two is asked, parallel ones do not intersect.",
  ["inputs"],"all pairs of segments and of segment and line", SAMPLE,
  [("intersects","SegVec::intersects(SegVec), intersects(Line2d_)"),("getParallel test","isParallelTo")])
p("C12","Circles built from points pass through them",
  "A circle set from two distinct points has them as a diameter; a circle set from three non-collinear points passes through the three; identical or collinear points throw. A radius below the null threshold throws from every constructor and from the setters of centre and radius, area and perimeter are those of the radius.",
  ["inputs"],"all pairs and triples of points, all radii", SAMPLE,
  [("Circle_::set","2-point and 3-point setters"),("p_init checks","Circle_")])
p("C13","Line-circle and circle-circle intersections lie on both",
  "When a line and a circle, or two circles, are reported as intersecting, every returned point lies on both, in increasing (x,y) order; the report is positive exactly when the geometric condition on distance and radii holds, equal circles excepted. The points reported for a segment and a circle are exactly the points of the segment on the circle, when no end point of the segment is on it. The result of two circles does not depend on which is asked.",
  ["inputs"],"all line-circle, circle-circle and segment-circle pairs", SAMPLE,
  [("LPBase::intersects(Circle)","impl"),("Circle_::intersects(Circle_)","")])
p("C14","Strict containment in circles",
  "A point is inside a circle exactly when its distance to the centre is below the radius; a segment, rectangle or circle is inside a circle exactly when all of its points are, and the same for a circle inside a rectangle.",
  ["inputs"],"all circles, points, segments, rectangles", SAMPLE,
  [("isInside","Circle_::isInside, LPBase::isInside, SegVec::isInside, FRect_::isInside")])
p("C15","Rectangles stay normalised and measure correctly",
  "A rectangle built from or set to any two opposite corners (or centre, width, height) always reports the lower-left corner first and the upper-right second, keeps them through translate, move and full-step rotation, and its width, height, area, perimeter, centre, four corners, four sides, diagonals, extension, bounding and inscribed circle are those of the covered region. Two corners that share a coordinate throw.",
  ["inputs","histories"],"all corner pairs; all sequences of set/translate/moveTo", SAMPLE,
  [("corner ordering","detail::getCorrectPoints, FRect_::set"),("derived data","FRect_::width/height/area/length/getCenter/get4Pts/getSegs/getDiagonals/getExtended/getBoundingCircle/getInscribedCircle")],[("_ptR1,_ptR2","lower-left, upper-right","FRect_")])
p("C16","Rectangle intersection, union and IoU are the set operations",
  "The common area of two rectangles is reported exactly when their interiors meet, and is the rectangle of the points in both; it is symmetric. IoU is the area of the intersection over the area of the union, symmetric, 1 for equal rectangles and 0 for disjoint ones; the union polygon is empty for disjoint rectangles and otherwise covers exactly the points of either (two rectangles that only share a corner: its border passes twice through it).",
  ["inputs"],"all pairs of rectangles in any relative position", "The position space of two rectangles has many order types; the drawing tests cover about ten and check no number.",
  [("FRect_::intersectArea","FRect_"),("FRect_::unionArea","namespace runion"),("IoU","free function")])
p("C17","Containment in rectangles is strict and exact",
  "A point is inside a rectangle exactly when both coordinates are strictly between the corners'; a segment or rectangle is inside a rectangle exactly when its points are. A line and a rectangle are reported as intersecting only with points on both.",
  ["inputs"],"all rectangles, points, segments, lines", SAMPLE,
  [("isInside(FRect)","LPBase::isInside"),("LPBase::intersects(FRect)","")])
p("C18","Ellipse parameters survive the matrix form",
  "An ellipse built from centre, semi-axes and angle reports that centre, those semi-axes (largest first), an angle of the same axis direction and the area pi*a*b, and its conic equation is satisfied by exactly the points of the ellipse; translation and move change the centre only.",
  ["inputs","histories"],"all centres, semi-axes and angles; all translations", SAMPLE,
  [("p_init / p_computeParams","Ellipse_"),("translate/moveTo","Ellipse_")],[("_mdata","conic matrix","Ellipse_")])
p("C19","Ellipse containment and bounding box",
  "A point is inside an ellipse exactly when its normalised quadratic form is below 1; the bounding box of an ellipse is the smallest axis-parallel rectangle that contains it.",
  ["inputs"],"all ellipses and points", SAMPLE,
  [("pointIsInside","Ellipse_"),("getBB/getOBB","Ellipse_")])
p("C20","Homographies map circles, ellipses, segments, rectangles and polylines point by point",
  "Applying an invertible homography to a segment, rectangle, polyline or container of points gives the shape of the images of its points in the same sequence; applying an affine one to a circle or ellipse gives the ellipse whose equation the images of its points satisfy.",
  ["inputs"],"all invertible homographies, all shapes of any number of points", SAMPLE,
  [("operator*(Hmatrix_, X)","h2d::operator*, Hmatrix_::applyTo")])
p("C21","Polyline length, segment count and area",
  "For any number of points, the length of a polyline is the sum of the distances of consecutive points (plus the closing one for the closed type), the number of segments is n-1 for open and n for closed, and segment i joins point i to the next. The area of a simple closed polyline is the absolute shoelace sum and its centroid the shoelace centroid.",
  ["inputs"],"all polylines of any size", "Unbounded number of points.",
  [("length/area/centroid/nbSegs/getSegs","base::PolylineBase")])
p("C22","Polyline attributes are never stale",
  "After any sequence of set, clear, assignment, translate, moveTo, rotate, writes through getPts and reads, length, area, centroid, simplicity and bounding box equal those of a freshly built polyline with the same points.",
  ["histories","inputs"],"all sequences of mutators and readers", "The caches need read-modify-read histories; the tests read attributes once.",
  [("cached attributes","PolylineBase::_attribs, p_normalizePoly, _plIsNormalized")],[("_attribs","cached length/area/centroid/isSimple","PolylineBase"),("_plIsNormalized","normalised flag","PolylineBase")])
p("C23","Polyline equality ignores start point and direction only",
  "Two closed polylines with pairwise distinct points are equal exactly when one is a cyclic shift of the other or of its reverse; two open ones exactly when equal or reversed. Comparison does not change what either reports (size, length, points up to the start and direction), and the answer does not depend on earlier comparisons and changes.",
  ["inputs","histories"],"all polylines with distinct points", SAMPLE,
  [("p_normalizePoly/operator==","base::PolylineBase")])
p("C24","Translation, move and quarter-turns are rigid",
  "Translating a point, segment, rectangle, circle or polyline adds the offsets to every point; moving puts its reference point at the target and keeps the shape; the quarter-turn, half-turn and mirror of a polyline map each point by the named isometry about the given origin.",
  ["inputs"],"all shapes and offsets, any number of points", SAMPLE,
  [("translate/moveTo/rotate","LPBase, SegVec, FRect_, Circle_, PolylineBase")])
p("C25","Bounding boxes contain their objects and are minimal",
  "The bounding box of a point set, segment, polyline, circle, rectangle set or pair of objects contains every point of it and each side is touched; it throws when no rectangle of positive width and height exists.",
  ["inputs"],"all objects, containers of any size", "Unbounded containers and all pairs.",
  [("getBB","getBB_Points, getBB_Segments, getBB_FRect, getBB(pair), FRect_/Circle_/PolylineBase::getBB")])
p("C26","Extreme points of point sets and polylines",
  "The top-, bottom-, left- and right-most point of a container or polyline is an element of it, no element is further in that direction, and ties are resolved as documented (lowest other coordinate); the reported index is its position.",
  ["inputs"],"containers of any size", "Unbounded containers, ties.",
  [("getTmPoint/getBmPoint/getLmPoint/getRmPoint/getExtremePoint","free functions and PolylineBase members")])
p("C27","Nearest and farthest point searches",
  "The nearest (farthest) index returned for a query point designates an element different from the query point that no other such element beats; the combined function gives both, and containers of fewer than two points throw. The closest points of two polylines achieve the minimum distance over all pairs and report that distance and those indexes.",
  ["inputs"],"containers of any size", "Unbounded containers.",
  [("findPoint","priv::findPoint, findNearestFarthestPoint"),("getClosestPoints","free function")])
p("C28","Convex hull",
  "The convex hull of a point set has only points of the set as vertices, is convex and contains every point of the set.",
  ["inputs"],"point sets of any size", "Unbounded containers.",
  [("Graham scan","base::convexHull, priv::chull")])
p("C29","Point in polygon",
  "For a simple polygon, a point not on its border is reported inside exactly when it is in the bounded region, and a border point is not inside.",
  ["inputs"],"all simple polygons and points", "Concave shapes and points aligned with edges form a large case space.",
  [("LPBase::impl_isInsidePoly","ray casting")])
p("C30","Minimum enclosing circle",
  "The circle set from a set of at least two distinct points contains all of them (up to the threshold) and no smaller circle does.",
  ["inputs"],"point sets of any size", "Unbounded containers.",
  [("Welzl","Circle_::set(container), priv welzl helpers")])
p("C31","Point order and equality",
  "Point equality is reflexive, symmetric and independent of homogeneous scaling, and points further apart than the threshold in a coordinate are different; operator< is a strict order by x then y, consistent with equality for points that are equal or differ by more than the threshold.",
  ["inputs"],"all points", SAMPLE,
  [("impl_op_equal/impl_op_sort","LPBase")])
p("C32","SVG path commands give the points of the path",
  "Importing a path of absolute or relative move, line, horizontal and vertical commands yields the points the SVG standard defines, and consecutive duplicates are removed; unknown commands are refused.",
  ["inputs"],"all command letters, all current points and arguments", "Only two map files are imported.",
  [("svgp::generateNewPoint/getCommand/purgeSetDupes/parsePath","namespace svg::svgp")])
p("C33","SVG output can be read back",
  "Drawing primitives into an SVG image and importing the file gives back the same primitives up to the printed precision.",
  ["inputs"],"all primitives", "File round trip over all values.",
  [("draw(Image<SVG>)","section .3")])
p("C34","Runtime-polymorphic access equals direct access",
  "Area, length, size and type obtained through a base-class pointer or a variant visitor equal those of the object itself; transforming through a variant equals transforming the object.",
  ["inputs","programs"],"all primitive types", SAMPLE,
  [("rtp::Root virtuals, fct:: visitors","rtp, fct namespaces")])
p("C35","Simplicity and convexity of a polyline",
  "A closed polyline is reported simple exactly when no two of its segments that are not neighbours intersect, and convex exactly when it is simple and never turns to both sides (aligned points do not turn); an open one is neither. The answer does not depend on the start point or the direction.",
  ["inputs"],"all polylines", "Which pair of segments crosses and which point is concave or flat are combinatorial.",
  [("isSimple, isConvex","base::PolylineBase")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
