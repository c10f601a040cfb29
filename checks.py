# Registry of the checks: binaries, flags, bounds, notes.
CHECKS = {}
NOT_APPLICABLE = {
 "C32": "The quantifier ranges over all floating-point values and the library states no error bound: there is no finite space to enumerate and no exact claim to decide; bounded exploration covers the finite grids of the other properties only.",
}
def add(pid, technique, note, quick, thorough, src=None, flags=(), libs=(), bins=None, assumptions=()):
    CHECKS[pid] = dict(technique=technique, note=note, bounds=dict(quick=quick, thorough=thorough), assumptions=list(assumptions),
        bins=bins or [dict(name=pid.lower(), src=src or [pid.lower() + ".cpp"], flags=list(flags), libs=list(libs))])

add("C11", "exhaustive enumeration of polygons x query points on the real code vs. exact integer oracle",
    "", "", "")
add("C13", "exhaustive enumeration of vertex sequences on the real code vs. exact integer oracle", "", "", "")
add("C14", "exhaustive exploration of operation histories of the real object vs. point-list model and fresh object", "", "", "")
add("C01", "exhaustive exploration of operation histories of the real homography vs. uncached 3x3 matrix model", "", "", "")
add("C02", "exhaustive exploration of operation histories of the real homography, applied to lines, vs. uncached model", "", "", "")
add("C03", "exhaustive enumeration of shapes x homographies on the real code vs. images of the defining points", "", "", "")
add("C04", "exhaustive enumeration of pairs of point quadruples on the real code (both solvers) vs. exact projective-basis oracle", "", "", "", flags=["-I/usr/include/eigen3","-I/usr/include/opencv4"], libs=["-lopencv_imgproc","-lopencv_imgcodecs","-lopencv_highgui","-lopencv_core"])
add("C05", "exhaustive enumeration of points, lines and homogeneous factors on the real code vs. exact oracle", "", "", "")
add("C06", "exhaustive enumeration of lines x query points x distances on the real code vs. exact geometry", "", "", "")
add("C07", "exhaustive enumeration of segments and of operation histories on the real code vs. exact geometry and point-pair model", "", "", "")
add("C08", "exhaustive enumeration of pairs of lines and segments on the real code vs. exact rational oracle", "", "", "")
add("C09", "exhaustive enumeration of circles against lines, segments, circles, rectangles and polylines on the real code vs. exact integer oracle", "", "", "")
add("C10", "exhaustive enumeration of rectangles and polylines against lines, segments, rectangles, polylines on the real code vs. exact rational oracle", "", "", "")
add("C12", "exhaustive enumeration of inner shapes x containers on the real code vs. exact integer oracle", "", "", "")
add("C15", "exhaustive enumeration of pairs of vertex lists and of operation histories on the real objects vs. canonical vertex lists", "", "", "")
add("C16", "exhaustive enumeration of vertex lists on the real code vs. exact integer oracle", "", "", "")
add("C17", "exhaustive enumeration of pairs of rectangles over all relative coordinate orders on the real code vs. exact cell oracle", "", "", "")
add("C18", "exhaustive enumeration of point sequences and subsets of a grid on the real code vs. exact integer hull", "", "", "")
add("C19", "exhaustive exploration of every random-choice sequence (controlled std::rand) x point sequences on the real code vs. exact rational oracle", "", "", "")
add("C20", "exhaustive enumeration of point tuples, circle pairs and setter histories on the real code vs. direct definitions", "", "", "")
add("C21", "exhaustive enumeration of objects, ordered pairs and container sequences on the real code vs. interval oracle", "", "", "", bins=[
    dict(name="c21", src=["c21.cpp"], flags=["-DHOMOG2D_ENABLE_VRTP"], libs=[]), dict(name="c21n", src=["c21.cpp"], flags=[], libs=[])])
add("C22", "exhaustive enumeration of ellipses and of operation histories on the real code vs. affine-image-of-unit-circle model", "", "", "", bins=[
    dict(name="c22", src=["c22.cpp"], flags=[], libs=[]), dict(name="c22s", src=["c22.cpp"], flags=["-DHOMOG2D_OPTIMIZE_SPEED"], libs=[])])
add("C23", "exhaustive exploration of sequences of motions on the real objects vs. exact integer vertices moved by the plane motion", "", "", "")
add("C24", "exhaustive enumeration of point sequences x queries on the real code vs. exact integer oracle", "", "", "")
add("C25", "exhaustive enumeration of token strings and command programs, imported by the real code, vs. an independent reader of the SVG path grammar", "", "", "", libs=["-ltinyxml2"])
add("C26", "exhaustive enumeration of drawings and of SVG elements, written and imported by the real code, vs. the plain numbers they were made from", "", "", "", libs=["-ltinyxml2"])
add("C27", "exhaustive enumeration of containers and of assignment/transform histories of variants and base-class pointers on the real code vs. the concrete object", "", "", "", bins=[
    dict(name="c27", src=["c27.cpp"], flags=["-DHOMOG2D_ENABLE_VRTP"], libs=[]), dict(name="c27p", src=["c27.cpp"], flags=["-DHOMOG2D_ENABLE_VRTP","-DHOMOG2D_ENABLE_PRTP"], libs=[])])
add("C28", "exhaustive exploration of operation histories of the real drawing parameters, defaults and images vs. a plain record of values", "", "", "")
add("C29", "exhaustive exploration of histories of valid and refused operations on the real objects vs. the same history without the refused one", "", "", "", bins=[
    dict(name="c29", src=["c29.cpp"], flags=["-I/usr/include/eigen3"], libs=[]), dict(name="c29v", src=["c29.cpp"], flags=["-I/usr/include/eigen3","-DHOMOG2D_ENABLE_VRTP"], libs=[])])
add("C30", "exhaustive enumeration of scenes through every combination of numeric types and build options of the real code, answers compared with one another", "", "", "", bins=[
    dict(name="c30", src=["c30.cpp"]+["c30_%s.cpp"%c for c in ("plain","speed","vrtp","prtp","nochecks","nowarn","longd","all")], flags=[], libs=[])])
add("C31", "exhaustive enumeration of polygons, listings, distances and histories on the real code vs. the definition of the offset, bisector, regular polygon and parallelogram", "", "", "")
add("C35", "exhaustive exploration of all reachable threshold settings and assignments, made in two source files, with graded probes of the real predicates vs. a record of the values", "", "", "", bins=[
    dict(name="c35", src=["c35.cpp","c35_b.cpp"], flags=[], libs=[])])
add("C34", "exhaustive enumeration of objects x drawing parameters, containers and histories of a raster image on the real code vs. ideal curves computed by the harness and new images", "", "", "", flags=["-I/usr/include/opencv4"], libs=["-lopencv_imgproc","-lopencv_imgcodecs","-lopencv_highgui","-lopencv_core"])
add("C33", "exhaustive enumeration of foreign values, matrices, polygons and assignment histories through every conversion of the real code vs. the plain numbers they hold", "", "", "", bins=[
    dict(name="c33", src=["c33.cpp"], flags=["-I/usr/include/opencv4"], libs=["-lopencv_core"]), dict(name="c33b", src=["c33.cpp"], flags=["-I/usr/include/opencv4","-DC33_BIND"], libs=["-lopencv_core"])])
