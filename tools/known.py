#!/usr/bin/env python3
"""Writes known_findings.jsonl: open findings (JSON lines) and repaired ones ("fixed:" lines). Run by hand, never by a check."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 dict(id="KF-ellipse-inside", property="C12",
  what="an ellipse is never reported inside a rectangle, a circle or a closed polyline, although the manual's table announces true/false there (Ellipse_ has no isInside(): the constant-false fallback answers)",
  cases=[dict(section="ellipse-inner",tag="ellipse/rect",case="ellipse 3x2 at (1,0) in rect 100"),
         dict(section="ellipse-inner",tag="ellipse/polygon",case="ellipse 3x2 at (1,0) in rect polygon 100"),
         dict(section="ellipse-inner",tag="ellipse/circle",case="ellipse 3x2 at (1,0) in circle 100")]),
]
# subject prefix -> property
FIXED = {
 "point or line was modified by set()":"C29", "building a point or line from a vector not holding":"C29", "Circle set(radius) did not check":"C29",
 "Ellipse with a null or negative axis":"C29", "buildFrom4Points() aborted on an invalid method":"C29", "drawing a line on a very small image aborted":"C29",
 "areCollinear() failed with float":"C20",
 "build failure with HOMOG2D_NOWARNINGS":"C30", "converting an empty line/circle":"C30", "getPoints() and getRotatedLine() refused":"C30",
 "getOffsetPoly() returned invalid":"C31", "getBisectorLines() raised":"C31", "normalizing a nearly horizontal":"C05",
 "getCvPtd() and getCvPtf()":"C33", "homography assigned from a cv::Mat":"C33", "polyline built from a boost":"C33", "documented OpenCV point conversions":"C33", "documented constructor from user":"C33", "a long double homography":"C33",
 "point in polygon was wrong when the reference":"C11", "isSimple() missed edges":"C13", "a segment, polyline or rectangle crossing":"C12",
 "segment/circle intersection gave wrong":"C09", "segments and lines crossing each other":"C08",
 "a point aligned with an edge":"C11", "point in polygon search":"C11", "a polyline with overlapping":"C13", "convexity of a polygon":"C13",
 "Polyline member function getExtremePoint":"C14", "stale centroid":"C14", "homography kept using":"C02", "lines could not be transformed":"C02",
 "a failing homography inverse":"C01", "the product of an homography and an oriented":"C03", "points of a Segment built from":"C07",
 "homography from 4 points returned garbage":"C04", "isParallelTo() with an oriented":"C06", "distance between vertical":"C06",
 "unary minus":"C07", "extending an oriented":"C07", "getPointAt() and split()":"C07", "intersection of an oriented":"C08",
 "segments meeting far":"C08", "segment with a point on the edge":"C09", "intersection of tangent circles":"C09",
 "polylines could compare different":"C15", "minimize() kept middle":"C16", "minimize() removed all":"C16",
 "FRect_::moveTo()":"C23", "union of two rectangles":"C17", "intersection area of rectangles":"C17",
 "convexHull() did not build":"C18", "convexHull() gave a wrong":"C18", "minimum enclosing circle":"C19",
 "bounding box of":"C21", "oriented bounding box":"C22", "getBB() with a variant":"C21", "no bounding box for":"C21",
 "rotating a polyline":"C23",
 "TransformFunct kept":"C27", "streaming through rtp::Root":"C27", "setFontSize() aborted":"C28", "angle labels of polylines":"C28", "svg drawing of a closed polyline":"C28", "clear() of a svg image":"C28",
 "svg path import":"C25", "svg import":"C26", "nearest/farthest point":"C24", "getPtsInside() did not":"C24",
 "getLine() with two circles":"C20", "circle from 3 points of":"C20", "getTanSegs()":"C20",
 "angle of an ellipse":"C12", "comparing ellipses":"C22",
 "a point inside a polygon with large":"C12", "each source file had its own":"C35", "a line built from two points far":"C05", "area and centroid of polygons far":"C13", "small ellipses, or":"C22", "an image built on an existing OpenCV":"C34",
}
exec(open(os.path.join(V,"tools","known_more.py")).read()) if os.path.exists(os.path.join(V,"tools","known_more.py")) else None
log = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
with open(os.path.join(V,"known_findings.jsonl"),"w") as f:
    f.write("# open findings: one JSON object per line; repaired defects: lines starting with fixed: (they suppress nothing)\n")
    for k in FINDINGS: f.write(json.dumps(k)+"\n")
    n=0
    for l in log:
        h,s = l.split(" ",1)
        if not s.startswith("fix: "): continue
        s=s[5:]
        p=[v for k,v in FIXED.items() if s.startswith(k)]
        assert len(p)==1,(s,p)
        f.write("fixed: property=%s %s %s\n"%(p[0],h,s)); n+=1
print(len(FINDINGS),"findings",n,"fixed")
