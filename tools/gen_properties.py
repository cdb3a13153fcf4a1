#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "A box built from points is their tight bounding box",
 "For every non-empty sequence of points, in any order, with repetitions, and given as a list or as a one-shot iterator, the bounding box built from it has exactly the minimum and maximum x and the minimum and maximum y of the points as its edges.",
 ["inputs"], "every sequence of points (bounded: all sequences over a small grid, including negative, fractional and repeated coordinates)",
 "the only test builds one circle of 1000 points; an order-dependent update mistake shows only for particular orders of points",
 ["coral/bbox.py"], [("single-pass min/max update", "coral/bbox.py BBox.__init__")], ["BBox(iterable)"])

prop("C02", "Bounding-box algebra agrees with the regions the boxes denote",
 "For boxes whose minimum corner does not exceed their maximum corner: two boxes are equal exactly when all four edges are equal (and then hash alike), nothing else equals a box, and the printed form spells out the same box; the union is the smallest box covering both (a box with no width and no height is neutral), the intersection is the exact overlap of positive area or the empty box, and two boxes of positive area collide exactly when they overlap in positive area. A point is inside when x0 <= x < x1 and y0 <= y < y1, a box is inside another when both its corners are, and ordering and truth value follow the area. Translating, scaling about the centre (a * f, a / f), adding and subtracting a vector, copying, and width, height, area, centre and diagonal follow plane arithmetic, and no operation changes its operands.",
 ["inputs"], "every pair of boxes and every point/vector/factor (bounded: all boxes on a small signed grid, incl. degenerate ones)",
 "tests use one fixed box and two derived ones, all of positive area; coincidences of hash values, touching edges and degenerate boxes never occur",
 ["coral/bbox.py"], [("equality", "coral/bbox.py BBox.__eq__/__hash__"), ("union/intersection", "coral/bbox.py BBox.__or__/__and__"), ("half-open containment", "coral/bbox.py BBox.has_point")], ["BBox operators and methods"])

prop("C03", "The fixed-size buffer behaves as a double-ended queue in every history",
 "After any sequence of operations on a buffer of power-of-two capacity n, its contents are those of a queue under the same operations: push appends, pop removes the newest, shift removes the oldest, peek shows the newest without removing it, and the string form lists the items oldest first. It reports empty exactly with 0 items and full exactly with n items; a push on a full buffer, and a pop, peek or shift on an empty one, is refused and changes nothing.",
 ["histories"], "every sequence of operations for capacities 1, 2, 4, 8 (bounded: full reachable state space up to index wrap-around)",
 "the single test runs one fixed history on capacity 4; wrap-around positions times fill levels times operations are not covered",
 ["coral/coord.py"], [("index arithmetic modulo 2n", "coral/coord.py Buffer")], ["Buffer methods, str(buffer)"],
 [("start/end cursors", "positions modulo 2n", "coral/coord.py Buffer.s/.e")])

prop("C04", "Simplifying an open path keeps its line, up to back-and-forth excursions",
 "Simplifying an open path snaps every point to the nearest whole multiple of the pixel size (in pixel units, halves away from zero) and yields only snapped points, starting at the first and ending at the last. For every path and every buffer size, the line segments the result traverses, counted with direction (opposite traversals cancel), are exactly those of the snapped path, so no corner is lost and no new segment appears. When the path has at most k corners (k is the buffer size), no corner yielded between the two ends lies on a straight line with its neighbours unless it equals an end point, and paths of zero or one point simplify to themselves.",
 ["inputs"], "every path (bounded: all paths of up to 6-7 points on a small grid, all buffer sizes 1,2,4,8, long paths that overflow the buffer)",
 "no test calls the simplifier at all; losing a corner next to a zero-width excursion or at a buffer overflow needs specific paths",
 ["coral/coord.py"], [("grid snapping", "coral/coord.py sqr_fit"), ("collinear/slit elimination with bounded look-back", "coral/coord.py open_no_slit")], ["coord.simplify(..., closed=False)"])

prop("C05", "Simplifying a ring keeps the outline it encloses",
 "Simplifying a ring (closed=True; the ring may or may not repeat its first point at the end) yields only snapped points of the ring. For every ring and every buffer size, the closed outline the result draws (its last point joined back to its first), counted with direction, is exactly the snapped ring's outline once opposite traversals cancel, so enclosed signed area and shape never change. The result never has more points than the ring it was given, and when a ring that repeats its first point has no more corners than the buffer holds, no point of the result lies in line with its two neighbours (nor is the tip of a slit), except possibly the point the ring starts at. Rings of zero, one or two points also simplify without an error.",
 ["inputs"], "every ring (bounded: all rings of up to 6 points on a small grid, all buffer sizes; longer rings that overflow the buffer once and twice)",
 "no test calls the ring simplifier; order mistakes only appear once the ring has more corners than the buffer holds",
 ["coral/coord.py", "coral/frame.py"], [("two-buffer ring elimination", "coral/coord.py closed_no_slit"), ("map drawing of polygons", "coral/frame.py Frame.planify")], ["coord.simplify(..., closed=True)"])

prop("C06", "Great-circle distance, bearing, destination and midpoint agree",
 "On a sphere of given radius, for all points with longitude in [-180, 180] and latitude in [-90, 90]: the distance is symmetric, zero for coinciding places, at most half the circumference, and equals radius times the angle between the points. Going from one point along the bearing reported to a second point (degrees, counter-clockwise from north, so west is +90), for their distance, ends at the second point, and the midpoint lies halfway on the shortest arc. Without a radius, distance uses the geocentric radius of the WGS84 ellipsoid at the mean latitude (and destination the one at the starting point), which runs from the equatorial radius at the equator to the polar radius at the poles.",
 ["inputs"], "every pair of points (bounded: all pairs from a lattice with poles, antimeridian, equator, near-coincident and near-antipodal points)",
 "one doctest with one pair of points; poles, antimeridian crossings and antipodes are never exercised",
 ["coral/coord.py"], [("haversine formula", "coral/coord.py haversine"), ("spherical direct/inverse problem", "coral/coord.py bearing/destination/midpoint"), ("geocentric radius", "coral/coord.py radiusat")], ["coord.haversine/bearing/destination/midpoint/radiusat"])

prop("C07", "Bearings get the nearest of the 16 compass names and the right clock hour",
 "For every bearing in degrees from -360 to 720 (counter-clockwise from north), the compass name returned is that of the nearest of the 16 equally spaced directions (either neighbour at an exact tie). The clock hour returned lies in (0, 12], is 12 for north, and falls by one hour for every 30 degrees counter-clockwise.",
 ["inputs"], "every bearing in the range (bounded: a dense lattice including all sector boundaries)",
 "no test covers it; a shifted sector shows only near sector boundaries or after wrap-around",
 ["coral/coord.py"], [("sector rounding", "coral/coord.py bearing2cardinal"), ("clock conversion", "coral/coord.py bearing2hours")], ["coord.bearing2cardinal, coord.bearing2hours"])

prop("C08", "The centroid of a region does not depend on how the region is written",
 "For a region of simple polygons smaller than a hemisphere, the centroid returned is the point about which the area-weighted centroid of the region, drawn in a Lambert azimuthal equal-area map centred there, falls on the map centre. It is the same for every rotation of a polygon's vertex list, for both drawing directions of the whole region, for every order of the polygons and whether or not rings repeat their first point, holes (opposite direction) count negatively, and turning the region about the polar axis turns the centroid with it. For regions that do not reach a pole or the antimeridian it is the same whichever box around the region the search starts in, and a looser convergence threshold moves it by no more than that threshold.",
 ["inputs"], "every such region (bounded: a catalogue of triangles, quadrilaterals, concave, multi-part and holed regions times all rewritings)",
 "no test; the value is only defined implicitly, and rewritings multiply",
 ["coral/coord.py", "coral/proj.py"], [("fixed-point iteration", "coral/coord.py geocentroid"), ("equal-area projection", "coral/proj.py AzimuthalEqualArea")], ["coord.geocentroid"])

prop("C09", "Every map projection's inverse undoes its forward transformation",
 "For each projection (spherical and ellipsoidal Mercator, transverse and oblique Mercator, Eckert IV, stereographic, azimuthal equidistant, azimuthal equal-area, Albers conic), every origin (or pair of parallels not symmetric about the equator), radius or ellipsoid, and every geographic point in the projection's domain, transforming to the plane and back gives the same place, within 1e-5 degree of arc (2e-4 degree for Eckert IV). This includes the projection centre, points across the antimeridian, and points more than 90 degrees away from the origin's meridian; excluded are only the poles of cylindrical maps and the points a map sends to infinity or tears (the antipode for azimuthal maps, the apex side of a conic).",
 ["inputs", "configurations"], "every projection, parameter set and point (bounded: full lattice of origins x points incl. poles and antimeridian)",
 "no test touches projections; quadrant mistakes only show far from the origin or in polar aspects",
 ["coral/proj.py"], [("inverse formulas", "coral/proj.py *.rect2geo"), ("angle normalisation", "coral/proj.py corangle")], ["proj.*.geo2rect / rect2geo"])

prop("C10", "Forward projections agree with their published definitions",
 "For each projection, origin, radius or ellipsoid and point in its domain, the plane coordinates equal those of the projection's published definition, scaled by the radius, with the origin (or for Albers the point at longitude 0, latitude 0) at the stated place; longitude differences are taken modulo 360 degrees, and a point at most 180 degrees from the central meridian is drawn on its own side of it. Mercator, transverse and oblique Mercator and stereographic maps are conformal, Eckert IV, azimuthal equal-area and Albers maps preserve area, and azimuthal maps keep true directions (and the equidistant one true distances) from the centre.",
 ["inputs", "configurations"], "every projection, parameter set and point (bounded: lattice)",
 "no test touches projections; a round trip alone accepts any consistent pair of wrong formulas",
 ["coral/proj.py"], [("forward formulas", "coral/proj.py *.geo2rect")], ["proj.*.geo2rect"])

prop("C11", "The reported point scale equals the map's local stretch",
 "Wherever a projection reports a scale factor (spherical and ellipsoidal Mercator, transverse and oblique Mercator, and Albers along the meridian), that factor equals the limit ratio of map distance to ground distance at that point, for every origin, parallels, radius or ellipsoid. The other projections refuse to report one (NotImplementedError).",
 ["inputs", "configurations"], "every projection with a scale, parameter set and interior point (bounded: lattice, numeric differentiation of the real forward transform)",
 "no test; a wrong formula is exact at the origin and drifts elsewhere",
 ["coral/proj.py"], [("scale formulas", "coral/proj.py *.scale")], ["proj.*.scale"])

prop("C12", "A colour gradient interpolates its stops linearly, whatever their order",
 "A gradient returns, for every position in [0, 1], the stop's own colour at a stop and the linear blend of the two neighbouring stops in between, extending the first and last stop's colour to 0 and 1; the order in which stops at different positions are supplied and earlier queries do not matter (two stops at one position make a step, in the order supplied), and the supplied list of stops is left unchanged. The hexadecimal form has one digit per channel, the channel value times 15 rounded down, and the predefined gradients start and end on their stated colours.",
 ["inputs", "histories"], "every set of stops and every query (bounded: all stop sets over a grid, all orders, positions on and between stops)",
 "no test covers gradients",
 ["coral/gradient.py"], [("sorting and padding of stops", "coral/gradient.py Gradient.__init__"), ("bisection and blending", "coral/gradient.py Gradient.get/get_hex")], ["Gradient.get/get_hex"])

prop("C13", "Fixed-size fields and rows decode to what was encoded",
 "For every field definition and every admissible value, encoding yields exactly the declared number of bytes and decoding them gives the value back: integers and strings exactly, reals within half a storage step of the range (plus floating-point rounding), the limits of the range included, and null as null for nullable fields and for no other value. Integers take the smallest of 1, 2, 4, 8 bytes that holds the range; fields are nullable only when declared so; values outside the range, overlong strings and null in a non-nullable field are refused; a row is the concatenation of its fields.",
 ["inputs", "configurations"], "every field definition and value (bounded: all ranges around the size boundaries, all values of 1-byte fields, boundary values of wider ones, strings over a small alphabet incl. multi-byte)",
 "no test covers field codecs; range ends, null codes and size boundaries are single points in huge domains",
 ["coral/grid.py"], [("range-to-index mapping", "coral/grid.py IVar/FVar"), ("padding", "coral/grid.py SVar"), ("row layout", "coral/grid.py GRow")], ["encode/decode of IVar, FVar, SVar, GRow"])

prop("C14", "A RangeGrid data set reads back as written, by id or in sequence",
 "Whatever entities are written to a data set (any number of segments and rows, integer or text ids, default ids by position, integer/real/text/nullable columns, integer bounds of either sign), reading it after closing gives back every entity's rows, segment by segment, under the column names (by position at least, where a name is no identifier or occurs twice). Reading by id returns the first entity with that id, unknown ids are refused, and reading without an id returns the entity after the last one read, in writing order, whatever the mix of reads; several open readers do not disturb each other.",
 ["histories", "inputs"], "every write history and every read history (bounded: all data sets of up to 3 entities over a shape catalogue, all read histories up to depth 4)",
 "no test touches this module at all",
 ["coral/rg.py", "coral/grid.py"], [("header and index files", "coral/rg.py Writer/_writeindex/_readindex"), ("offset computation", "coral/rg.py Reader.read")], ["rg.Writer, rg.Reader"],
 [("sequential cursor", "next entity index", "coral/rg.py Reader.idx")])

prop("C15", "A refused or interrupted RangeGrid write never yields wrong data",
 "When a write is refused (a value out of range, a wrong type, too few or many values, an id with a line break), the entities accepted before and after it read back unchanged. When the process dies at any point while a data set is written, also over an existing one, or when a file is cut short, then opening and reading the data set either raises an error or returns exactly rows of one of the complete data sets; it never hangs and never returns rows that were not written for that id.",
 ["crash_points", "histories", "fault_sequences"], "every crash point of a write history (every executed source line of the writer, with torn file suffixes) and every truncation length of every file; every position of a refused write",
 "tests never kill the writer or hand it bad values",
 ["coral/rg.py"], [("row count in the header, index written last", "coral/rg.py Writer.close"), ("header parsing", "coral/rg.py Reader._header")], ["rg.Reader on crash states"])

prop("C16", "P files keep every coordinate within the storage step of the entity's box",
 "For every entity of polygons with coordinates in range and each coordinate size (1, 2, 4, 8 bytes), the point read back differs from the point written (longitude brought into [-180, 180]) by at most half a storage step in each direction plus floating-point rounding, where the step is the extent of the entity's stored box divided by the largest code. The stored box contains all its points and exceeds their bounding box by less than 1/65535 of the globe per side (one more such unit on one side where the entity has no extent); single points, straight lines along a meridian or parallel, and points at the limits of the globe are included, and closing reports each point's displacement in metres.",
 ["inputs", "configurations"], "every entity and size (bounded: all polygons over a lattice of coordinates incl. limits of the globe, degenerate extents, all four sizes)",
 "no test covers P files",
 ["coral/pf.py"], [("quantisation against a 16-bit box", "coral/pf.py Writer.write"), ("dequantisation", "coral/pf.py Reader.read")], ["pf.Writer, pf.Reader"])

prop("C17", "A P file holds exactly the accepted entities, readable in any order",
 "Every entity accepted by the writer is read back under its name and position with the same parts and number of points per part (a repeated closing point is dropped), whatever the number of entities, parts and points, the name lengths (ASCII) and the order of reads by position or name; the first entity of a name wins, and positions outside the file are refused. Entities refused by the writer (no polygons, an empty polygon, coordinates that are no finite numbers, names that the format cannot hold) leave the other entities unaffected, closing again rewrites the same file, and the length of the reader is the number of entities.",
 ["histories", "inputs"], "every write history and read history (bounded: all histories up to 4 writes over a shape catalogue incl. refused ones; counts around the 127/128 and 16383/16384 boundaries; all read orders)",
 "no test covers P files; variable-length integers change shape at 128 and 16384",
 ["coral/pf.py"], [("variable-length integers and index", "coral/pf.py writevlv/readvlv/Writer.close/Reader._header"), ("row offsets", "coral/pf.py Reader.read")], ["pf.Writer, pf.Reader"])

prop("C18", "A truncated P file never hangs a reader or yields wrong data",
 "For every P file cut short at any byte, and for the file left behind by a process that dies at any point while saving it, opening and reading it ends with an error or yields, for each entity, exactly the points that were written; it never hangs.",
 ["crash_points"], "every truncation length of every file in a catalogue, and every crash point (executed source line) of closing a writer over an existing file",
 "tests never produce torn files",
 ["coral/pf.py"], [("header parsing", "coral/pf.py Reader._header/readascii/readvlv"), ("fixed-size point records", "coral/pf.py Reader.read")], ["pf.Reader on torn files"])

prop("C19", "Shapefile geometry reads back as written, for every shape type",
 "For every shape type (null, point, polyline, polygon, multipoint, their Z and M variants, multipatch) and any mix of null shapes, the shapes saved by the writer are read back in order with the same type, parts, points, elevations, measures and part types; polygon rings given open come back closed. This holds for any number of shapes, parts and points. The result does not depend on shapes added earlier or on other writers, and the writer does not change the caller's coordinate lists.",
 ["inputs", "histories"], "every shape type and every list of shapes (bounded: per type all lists of up to 3 shapes over a part/point catalogue, written through files and through file-like objects)",
 "no test touches the shapefile module",
 ["coral/shapefile.py"], [("record encoding", "coral/shapefile.py Writer.__shpRecords"), ("record decoding", "coral/shapefile.py Reader.__shape"), ("shape construction", "coral/shapefile.py Writer.poly/point/null")], ["shapefile.Writer, shapefile.Reader"])

prop("C20", "Shapefile attributes read back as written",
 "For every list of fields (text, number with or without decimals, date, logical) and every list of records whose values fit, the records are read back in order: text without surrounding blanks, numbers by value, dates as year, month and day, logicals as T or F, and blank or missing values as empty text. Text that is too long in the chosen encoding is cut at a character boundary and never disturbs other fields or records, a number too long for its field is refused and never cut, records may be given by position or by field name, and field names (cut likewise where too long), types and sizes are preserved.",
 ["inputs", "configurations"], "every field list and record list (bounded: all lists of up to 2-3 fields and 2 records over value catalogues incl. multi-byte text, encodings utf-8 and latin1)",
 "no test touches attribute files; multi-byte text and blank fields are ordinary data that no test contains",
 ["coral/shapefile.py"], [("fixed-width encoding", "coral/shapefile.py Writer.__dbfRecords/__dbfHeader"), ("type-driven decoding", "coral/shapefile.py Reader.__record")], ["shapefile.Reader.record/records"])

prop("C21", "All ways of reading a shapefile agree, in every interleaving",
 "For every shapefile, reading shapes or records one by one by index (also negative), all at once, through iterators, or paired as shape-records gives the same data; the i-th shape is always paired with the i-th record, and records marked deleted are left out together with their shape. This holds with or without the index file, for file names and file-like objects, for empty files, for files with more shapes than records or fewer, and for every interleaving of reads and partly consumed iterators on one reader; an index outside the file is refused.",
 ["schedules", "histories"], "every interleaving of read operations (bounded: all call sequences up to depth 4-5 over 8 operations incl. stepping two live iterators)",
 "no test reads shapefiles; interference needs two live iterators or mixed access on one reader",
 ["coral/shapefile.py"], [("shared file positions", "coral/shapefile.py Reader.iterShapes/iterRecords/shape/record"), ("index file offsets", "coral/shapefile.py Reader.__shapeIndex")], ["shapefile.Reader methods"],
 [("file cursors", "positions of the three open files", "coral/shapefile.py Reader.shp/.shx/.dbf")])

prop("C22", "Saved shapefiles conform to the ESRI layout, also when saved repeatedly",
 "The three files written for any list of shapes and records follow the published layout: file code and version, file lengths equal to the real sizes, record numbers counting from one, content lengths and index offsets that match the records, bounding box, elevation and measure ranges that are exactly those of the data (overall and per record), and an attribute file whose header length, record length and record count match its content. This stays true when shapes or records are added after a save and the data is saved again, to the same or to another place.",
 ["histories", "inputs"], "every list of shapes and every history of adds and saves (bounded: all histories up to depth 4-5 over add/save operations, per shape type)",
 "no test writes shapefiles; other programs rely on these invariants and coral's own reader ignores most of them",
 ["coral/shapefile.py"], [("headers and ranges", "coral/shapefile.py Writer.__shapefileHeader/__shpFileLength/__bbox/__zbox/__mbox"), ("index records", "coral/shapefile.py Writer.__shxRecords")], ["bytes of .shp/.shx/.dbf"])

prop("C23", "The GeoJSON-style view of a shape carries all of its geometry",
 "For every shape, its geometry interface has the kind matching its type and number of parts and lists every point exactly once, in order, part by part: points, multipoints, one or several lines. Polygon parts are grouped into polygons that each start with a clockwise ring followed by the counter-clockwise rings up to the next clockwise one, and ring orientation is judged by the sign of the enclosed area for every starting vertex (a ring without area counts as counter-clockwise).",
 ["inputs"], "every shape (bounded: all part structures up to 4 rings with both orientations, triangles/quadrilaterals/concave rings at all rotations)",
 "no test covers it",
 ["coral/shapefile.py"], [("grouping by orientation", "coral/shapefile.py _Shape.__geo_interface__"), ("shoelace area", "coral/shapefile.py signed_area")], ["shape.__geo_interface__, signed_area"])

prop("C24", "Opening a shapefile for editing and saving it keeps its content",
 "For a shapefile of any of the basic, Z or M shape types with attributes, opening it in an editor and saving it elsewhere preserves all shapes (with elevations and measures) and records. Adding points and attribute records, and deleting whole shapes by index, affects exactly those entries: a deleted shape disappears together with its record, an added point gets the record added for it, and everything else stays as it was.",
 ["histories"], "every edit history (bounded: all sequences of add/delete up to depth 3 on files of up to 3 shapes)",
 "no test covers editing; index 0 and the pairing of shapes with records need specific histories",
 ["coral/shapefile.py"], [("editor state", "coral/shapefile.py Editor.__init__/delete/point/balance")], ["shapefile.Editor, then shapefile.Reader"])

prop("C25", "Setting a pixel changes that pixel only, and reads back",
 "On black-and-white, gray and colour canvases of any size, a new canvas shows the background colour everywhere, and writing an in-range pixel makes that pixel read back as written (in black and white: whether it is zero; or as background blended with the colour in proportion alpha, rounded to the nearest level) and leaves every other pixel unchanged, in every sequence of writes.",
 ["histories", "inputs"], "every canvas size and write history (bounded: all sizes up to 9..17 x 3, every pixel, all pairs of writes)",
 "no test touches raster canvases; bit packing interacts with widths that are not multiples of 8",
 ["coral/raster.py"], [("bit/byte addressing", "coral/raster.py *Canvas.__getitem__/__setitem__"), ("blending", "coral/raster.py *Canvas.blend")], ["canvas[x, y]"])

prop("C26", "Filling polygons paints exactly their interior pixels",
 "For all polygons, within the canvas or reaching beyond it on any side, scanning them and filling paints, in every row of the canvas, exactly the pixels from the rounded crossing of an edge entering the region to the rounded crossing of the edge leaving it (rows sampled at their top line, columns half-open), and no pixel outside. This holds for either drawing direction, concave polygons, holes drawn in the opposite direction, and several polygons scanned together, whether apart, touching or overlapping (overlaps in the same direction are filled).",
 ["inputs"], "every set of polygons (bounded: all triangles and quadrilaterals on a small grid, all pairs of rectangles, rings with holes, shapes moved off the canvas by up to 9 pixels)",
 "no test touches raster canvases; touching edges and drawing direction matter",
 ["coral/raster.py"], [("edge marks per scanline", "coral/raster.py BaseCanvas.scanpolygon"), ("span filling", "coral/raster.py BaseCanvas.fillpolygons")], ["pixels after scanpolygon/fillpolygons"])

prop("C27", "Straight lines are drawn gap-free between their end points",
 "Drawing a line between any two pixels paints both end points and exactly one pixel per column (or per row, if steeper), each touching the next and each within half a pixel of the ideal line, and nothing else (where a line leaves the canvas, only that part is missing); stroking a polygon without anti-aliasing paints exactly the union of the lines between consecutive corners, closing edge included.",
 ["inputs"], "every pair of end points (bounded: all pairs on a grid, all polygons of up to 4 corners on a smaller grid)",
 "no test touches raster canvases",
 ["coral/raster.py"], [("Bresenham stepping", "coral/raster.py BaseCanvas.line"), ("perimeter", "coral/raster.py BaseCanvas.strokepolygon")], ["pixels after line/strokepolygon"])

prop("C28", "Anti-aliased lines distribute full coverage next to the ideal line",
 "Drawing an anti-aliased line between any two pixels of a gray or colour canvas, also along the canvas border and of zero length, blends colour only into the two pixels nearest the ideal line in each column (row, if steep) it crosses, with weights proportional to closeness that sum to one, and at the two ends that weight for the covered share of the end column (half, where the line ends on a pixel); no other pixel changes, and where a line leaves the canvas only that part is missing. Stroking a polygon with anti-aliasing draws its edges, and colours may be given as a plain gray level or as a tuple.",
 ["inputs"], "every pair of end points (bounded: all pairs on a grid that fills the canvas, both canvas kinds)",
 "no test touches raster canvases; borders and zero-length edges are specific inputs",
 ["coral/raster.py"], [("Wu's algorithm", "coral/raster.py BaseCanvas.aaline")], ["pixels after aaline/strokepolygon"])

prop("C29", "Saved images decode to exactly the canvas pixels",
 "For every canvas kind, size and content, the saved file is a valid binary PNM image (bitmap, graymap or pixmap) of the same width and height whose decoded pixels equal the canvas pixels, row by row.",
 ["inputs"], "every canvas (bounded: all sizes up to 17 x 3, all single-pixel patterns and full patterns)",
 "no test saves an image",
 ["coral/raster.py"], [("PNM header and raster", "coral/raster.py *Canvas.save")], ["bytes of the saved file"])

prop("C30", "Every drawn figure is painted with its own colours, width and dash",
 "Executing the saved PostScript of any sequence of drawing calls paints, in order, exactly the requested figures: each polygon, polyline, circle and rounded polygon with its own path, filled with the requested fill and stroked with the requested stroke colour (tuple or gray level), and with the line width and dash pattern set last and round line joins. Nothing set, drawn or unpainted earlier, no background and no caller-side change to an argument after the call leaks into a figure, and a figure drawn without a stroke argument uses the ink set last.",
 ["histories"], "every sequence of drawing and state calls (bounded: all sequences up to depth 3-4 over ~25 calls, for each kind of background), run through a small PostScript interpreter",
 "no test touches vector canvases; state caching goes wrong only for particular call histories",
 ["coral/vector.py", "coral/defs.ps"], [("ink/width/dash caching", "coral/vector.py Canvas.setgray/setcolor/setwidth/setdash"), ("gsave/grestore around fills", "coral/vector.py Canvas.addpolygon/addcircle/addroundedpolygon")], ["saved EPS"],
 [("cached graphics state", "what the file's state is believed to be", "coral/vector.py Canvas.state")])

prop("C31", "A canvas's box, and the saved bounding box, enclose all drawn geometry",
 "After any sequence of drawing calls the canvas box is the union of the extents of the drawn polygons, polylines, circles, rounded polygons and images (extents with neither width nor height do not count), including horizontal and vertical lines, and the saved file declares that box grown by the margin. When a size is given, the drawing is scaled uniformly about the box centre to fit a square of that size with the margin kept, and the declared box and the background cover exactly that square.",
 ["histories", "inputs"], "every sequence of drawing calls (bounded: all sequences up to depth 3 over a figure catalogue, all size/margin options)",
 "no test touches vector canvases",
 ["coral/vector.py", "coral/bbox.py"], [("running union", "coral/vector.py Canvas.add*"), ("page set-up", "coral/vector.py Canvas.save")], ["Canvas.bbox, %%BoundingBox, background path, page transform"])

prop("C32", "Saved drawings are self-contained, repeatable and independent of copies",
 "Every saved drawing is a well-formed PostScript program marked as an EPS file that defines each procedure it uses before use and leaves the operand and graphics stacks balanced; texts, with any printable ASCII characters, appear unaltered at the requested place, size, font and anchor, and images carry exactly the given bytes. Saving twice gives identical files and does not change the canvas, and a copy and its original develop independently.",
 ["histories", "inputs"], "every sequence of text/image/copy/save calls (bounded: depth 3; all strings of up to 2-3 special characters; all anchors)",
 "no test touches vector canvases",
 ["coral/vector.py", "coral/defs.ps"], [("procedure definitions on demand", "coral/vector.py read_defs/Canvas.save"), ("text and image emission", "coral/vector.py Canvas.addtext/addimage"), ("copying", "coral/vector.py Canvas.copy")], ["saved EPS"])

prop("C33", "A map frame survives saving and loading",
 "For every projection (spherical, ellipsoidal, conic) with any centre or parallels and any radius or ellipsoid, and any bounding box, a frame saved and loaded again has the same box and a projection of the same kind that maps every point to the same place (within floating-point rounding).",
 ["inputs", "configurations"], "every projection kind and parameter set (bounded: full catalogue product)",
 "no test touches frames",
 ["coral/frame.py", "coral/proj.py"], [("JSON encoding of parameters", "coral/frame.py Frame.save/load")], ["Frame.save, frame.load"])

prop("C34", "A frame selects and draws exactly the entities that fall in it",
 "Caching names for a frame stores exactly the entities of a P file that have at least one polygon whose projected bounding box overlaps the frame's box, in file order, returns their number, and loading the cache returns exactly these names (a name with a line break is refused, leaving an earlier cache as it was). A point of a frame is its projected position divided by the scale and rounded down, and outlines are drawn as the simplified projected rings.",
 ["inputs"], "every P file and frame (bounded: all subsets of an entity catalogue x frame boxes)",
 "no test touches frames",
 ["coral/frame.py"], [("overlap selection", "coral/frame.py Frame.cachenames/loadnames"), ("drawing", "coral/frame.py Frame.point/planify")], ["Frame.cachenames, loadnames, point, planify"])

prop("C35", "Tables written to text files read back unchanged",
 "Every table of text values without separators, comment marks, line breaks or surrounding blanks (and whose first column is not empty) reads back with the same columns and rows, for any separator; when columns are selected on writing or reading, in any order, each value stays under its own column name. Comments, blank lines and blanks around a line are ignored in a file, and a file without a header line is refused rather than read forever.",
 ["inputs"], "every table (bounded: all tables up to 3 columns x 2 rows over a value catalogue, all column selections and orders, comment/blank line placements)",
 "no test touches tables; column order mistakes need a selection in a different order than the file",
 ["coral/table.py"], [("header-driven column lookup", "coral/table.py readfile"), ("row formatting", "coral/table.py writefile")], ["table.writefile, table.readfile"])

prop("C36", "Table operations agree with their relational meaning",
 "Joining keeps every left row once, in order, extended with the columns of the first right row that agrees on the pivot columns (by default all shared ones; a shared column that is no pivot takes the right row's value), with empty text where there is none; searching returns the first or all matching rows in order; indexing maps each key value to its last row without the key column; adding a column computes it per row and deleting columns keeps the others in order. The input tables are not changed, and the result does not depend on hash randomisation.",
 ["inputs"], "every small table (bounded: all tables of up to 3 rows over 2-value columns, all key/pivot choices)",
 "no test touches tables",
 ["coral/table.py"], [("row-by-row matching", "coral/table.py join/getone/getall/indexby/addkey/delkeys")], ["table functions"])

prop("C37", "Cached statistics equal their definitions in every call history",
 "For every tuple of numbers, the sum, mean, variance, standard deviation, minimum, maximum, count, covariance, correlation and both Gini coefficients equal their definitions (both Gini formulas agree, and do not depend on the order of the data), no matter which statistics were computed before on which data, in which order, or whether the caches were cleared. The cache report is the total over all statistics, and is zero after clearing.",
 ["histories", "inputs"], "every call history (bounded: all call sequences up to depth 3 over functions x data incl. permutations and equal-length data, with clears; plus eviction histories)",
 "no test touches statistics; stale results need a specific history",
 ["coral/stats.py"], [("memoisation", "coral/stats.py memoize/cache_clear/cache_info"), ("formulas", "coral/stats.py avg/var/covar/corr/gini_*")], ["stats functions"],
 [("result caches", "memoised values", "coral/stats.py memos")])

prop("C38", "Edit distance and best-match mapping are exact",
 "The edit distance between any two strings is the smallest number of insertions, deletions, substitutions and swaps of adjacent characters (no substring edited twice) turning one into the other: symmetric and zero only for equal strings. The relative error is twice the distance over the total length (zero for two empty strings); the mapping pairs each key with its closest value (first on ties), scores it one minus the relative error and lists pairs by falling score; stripping accents replaces exactly the accented letters, in both cases, by their plain letter.",
 ["inputs"], "every pair of strings (bounded: all pairs of strings up to length 4-5 over 3 letters; all small key/value lists; all accented letters)",
 "no test touches names",
 ["coral/names.py"], [("dynamic programme", "coral/names.py damlev"), ("scoring", "coral/names.py strerr/mapping"), ("translation table", "coral/names.py ascii")], ["names.damlev/strerr/mapping/ascii"])

prop("C39", "Jaro and Jaro-Winkler similarity follow their published definition",
 "For any two non-empty strings the Jaro similarity equals the published definition (matching characters within half the longer length, less one, and half the matched characters out of order as transpositions), and the Jaro-Winkler similarity adds a tenth of the remaining distance per common leading character, up to four. Hence both are symmetric, lie between 0 and 1, and are 1 exactly for equal strings.",
 ["inputs"], "every pair of non-empty strings (bounded: all pairs up to length 5 over 3 letters)",
 "no test touches names",
 ["coral/names.py"], [("matching window", "coral/names.py jaro"), ("prefix bonus", "coral/names.py jaro_winkler")], ["names.jaro/jaro_winkler"])

prop("C40", "Abbreviations are short, unique and derived from the name",
 "For any list of distinct names (letters in single-blank-separated words), every name gets an abbreviation of at most the requested length that consists of characters of its upper-case, unaccented form in their original order; a name that already fits is kept whole (unless an equal name precedes it), a word between others that equals one of the given upper-case extra words does not count (words that merely begin or end like it do), different names get different abbreviations, and an error is raised only when every abbreviation of a name too long may be taken by others. A shortened name holds no blank, and where names do not compete for the same abbreviation it consists of the initials of its words (as far as they fit) and then of the letters that occur in the fewest names.",
 ["inputs"], "every list of names (bounded: all lists of up to 3 names over a catalogue, all lengths 1-4)",
 "no test touches names",
 ["coral/names.py"], [("rarest-letter combination search", "coral/names.py abbreviations")], ["names.abbreviations"])

prop("C41", "A progress meter passes the iteration through unchanged",
 "Wrapping any iterable (with or without a known length, finite or stopped early, given any total) in a progress meter yields exactly its items, in order, each fetched only when asked for, and passes on errors raised by it. The meter writes only to the given stream, for every behaviour of the clock.",
 ["schedules", "inputs"], "every iterable shape, option set and clock behaviour (bounded: all clock answer sequences over 3-4 increments for up to 4 items, all options)",
 "no test touches the meter; the clock is an environment input",
 ["coral/tqdm.py"], [("generator wrapper", "coral/tqdm.py tqdm")], ["tqdm.tqdm, tqdm.trange"])

prop("C42", "A progress meter shows a true, cleanly overwritten status line",
 "After every update the visible line is exactly the latest status (remains of longer earlier ones are blanked), counts never decrease and never exceed the items handed out, and updates come exactly when the minimum interval of time (half a second unless given) and number of iterations (one unless given) have passed. At the end the line shows the final count followed by a line break (the default), or, when told not to leave traces, is blanked; the text shows count, total, percentage, bar, elapsed and remaining time that match the numbers, and falls back to a plain count when the total is unknown or exceeded.",
 ["schedules", "inputs"], "every iterable length, option set and clock behaviour (bounded: as C41, plus all (n, total, elapsed) triples on a grid)",
 "no test touches the meter",
 ["coral/tqdm.py"], [("status printer", "coral/tqdm.py StatusPrinter"), ("meter text", "coral/tqdm.py format_meter/format_interval")], ["stream content"])

prop("C43", "Converting a shapefile to a P file keeps every entity and part",
 "For every polygon or polyline shapefile with attributes, the converted P file contains, for each shape in order, an entity named by the given function of its record, with the shape's parts as polygons (closing points dropped), positions within the storage step, and one reported displacement per stored point.",
 ["inputs"], "every shapefile (bounded: all lists of up to 3 shapes over a part catalogue x 4 coordinate sizes)",
 "no test covers the conversion",
 ["coral/pf.py", "coral/shapefile.py"], [("part splitting", "coral/pf.py sf2pf")], ["pf.sf2pf, pf.Reader"])

prop("C44", "An animation shows every frame over one common box, in order",
 "Making an animation exports every canvas once, in the given order, all over the same box (the union of the canvases' boxes enlarged by 5 percent), hands the images to the assembler in that order with the requested delay and target, reports its status, and leaves no temporary files behind.",
 ["inputs"], "every list of frames (bounded: all lists of up to 3 canvases over a catalogue, 1..11 frames), with the external programs replaced by recorders",
 "no test; needs external programs, which are replaced by stand-ins",
 ["coral/vector.py"], [("common box and naming", "coral/vector.py animation"), ("export command", "coral/vector.py Canvas.export")], ["recorded commands and files"])

prop("C45", "An export renders its own drawing to the given file, whatever else runs",
 "Exporting a canvas hands the renderer exactly the drawing that saving it with the same options gives, with the requested device and exactly the given output path (whatever characters it contains), exporting a saved drawing hands over that file untouched, both report the renderer's status, and leave no temporary files, also when saving fails. This holds for exports that run at the same time, in every interleaving.",
 ["schedules", "inputs"], "every interleaving of concurrent exports and every path (bounded: 2 exports with up to 2-3 preemptions, 3 exports or an export and an animation with 1-2, at every source line; a catalogue of 19 paths)",
 "no test exports anything; a mix-up of temporary files needs a particular interleaving",
 ["coral/vector.py"], [("temporary drawing and command line", "coral/vector.py Canvas.export/export")], ["recorded commands and files"],
 [("temporary file", "the drawing while the renderer reads it", "coral/vector.py Canvas.export")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop("C46", "A printed table shows every cell in full under its column",
 "Printing a table of text values writes a header line with the column names, a rule and one line per row, in order, for all columns or the selected ones in the selected order; every column is exactly as wide as its widest entry (name included), entries are left-justified, separated by bars, and shown unaltered whatever characters they contain, so that all lines are equally long and every cell stands under its column name. The table is not changed.",
 ["inputs"], "every table and selection (bounded: all tables of up to 3 columns and 2-3 rows over a catalogue of 7 texts, all ordered selections)",
 "no test touches tables",
 ["coral/table.py"], [("column widths and format patterns", "coral/table.py pprint")], ["table.pprint (captured output)"])

prop("C47", "RangeGrid files keep the version 1 layout, both ways",
 "Files written by the library have the version 1 layout, whatever the columns and entities: signature and version, column count, row count in native byte order, per column its name, type, nullable mark (0 or 1), size and (numbers) range with a sign byte each (255 before negative numbers only), then all rows back to back with numbers as big-endian offsets from the minimum (reals scaled to the largest code), null as the highest code and text zero-padded; the index file lists the entities with their segment lengths. Conversely a data set laid out that way by other means is read with its rows, column names, ids and segments.",
 ["inputs", "configurations"], "every column layout and data set (bounded: all layouts of up to 2-3 columns over a catalogue of 12, all data sets of up to 2-3 entities over 6 forms, and sizes, bounds and counts around 127, 255, 16383)",
 "no test touches this module; a writer and reader that are wrong together agree with each other and break only the files users already have",
 ["coral/rg.py", "coral/grid.py"], [("header", "coral/rg.py Writer._header, Reader._header"), ("row count, index", "coral/rg.py Writer.close, _writeindex, _readindex"), ("codes", "coral/grid.py IVar, FVar, SVar")], ["files written by rg.Writer; rg.Reader on files made independently"])

prop("C48", "Shapefile boxes, ranges, counts and fields are those of the data",
 "For every shape type and list of shapes, the writer's box, elevation range and measure range are exactly those of the points added so far (missing measures, those at or below -10e38, left out), before and after saving. A reader reports the file's type, box, elevation and measure range, number of records and fields as stored, every shape that is not a single point carries its own box, whichever way it is read, and none of this changes through reading.",
 ["inputs", "histories"], "every list of shapes and way of reading (bounded: all lists of up to 3-4 shapes of each of the 14 types over the shapefile catalogue; three foreign headers)",
 "no test asks for boxes or ranges of any file; the overall box and each shape's box are computed in different places",
 ["coral/shapefile.py"], [("extents", "coral/shapefile.py Writer.bbox/zbox/mbox"), ("headers", "coral/shapefile.py Reader header reading")], ["Writer.bbox, zbox, mbox; Reader.bbox, elevation, measure, numRecords, fields; shape.bbox"])

prop("C49", "A shapefile goes where it is told, and a reader follows what it loads",
 "Saving puts exactly the files asked for, complete, under the given name (with any or no extension, missing folders made) or into the given streams, and nothing else; existing longer or shorter content is replaced, other data sets stay as they were, and without a target a new base name is made up and returned. A reader that loads another data set afterwards gives that data set's shapes, records and fields and nothing of earlier ones, whichever of its files exist and whatever was read before; reads that need a missing file are refused.",
 ["histories", "inputs"], "every pair of saves and every history of loads and reads (bounded: all pairs over 4 data sets and 10 targets or all stream subsets; histories of up to 4-5 steps over 5 data sets)",
 "no test saves two data sets or loads a second one",
 ["coral/shapefile.py"], [("targets", "coral/shapefile.py Writer.save, saveShp, saveShx, saveDbf"), ("loading", "coral/shapefile.py Reader.load")], ["files and streams after Writer.save; Reader.load then reads"],
 [("cached index", "offsets, fields and record count of the loaded data set", "coral/shapefile.py Reader.load")])

prop("C50", "A cut or half-saved shapefile never yields wrong data",
 "Wherever the files of a shapefile are cut, and in whatever state a process that dies while saving one under a new name leaves them: a reader either refuses or gives true data. Shapes, records and pairs read in sequence are the first ones of the original, in order, and unaltered; a shape or record asked for by an index is the one with that index in the original (indices from the end count what is there when no index file exists); records are never fewer without a refusal. That holds in every order of reads, also after earlier reads of the same reader were refused, and none hangs.",
 ["crash_points", "histories"], "every crash point and cut (bounded: every byte of each file of ten data sets, every line of the saving code with torn writes, eight read histories by name and as streams)",
 "no test cuts a file or interrupts a save",
 ["coral/shapefile.py"], [("saving", "coral/shapefile.py Writer.saveShp, saveShx, saveDbf"), ("record lengths", "coral/shapefile.py Reader.__shape"), ("cached index", "coral/shapefile.py Reader.__shapeIndex")], ["reads of cut files"])

prop("C51", "The documented recipes draw the map they describe",
 "Making a map in the documented ways (from a shapefile, with or without colours and background; from a P file made of the shapefile, by a table of names; through a frame that was saved and loaded, with cached names, on a square page) draws every selected part once, in the order of the file or table, in its own colours, and nothing else: its points are those of the part, projected and rounded to pixels, and its outline, counted with direction, is the part's (back-and-forth excursions cancel). The declared box encloses exactly what is drawn with some extent, grown by the margin, except for parts after which the caller puts the earlier box back; the background covers the declared box. Records, names with accents and parts stay with their shapes throughout.",
 ["inputs"], "every data set, projection, resolution and recipe (bounded: all lists of up to 2-3 countries of 9 x 5 projections x 2 pixel sizes x 4 recipes)",
 "no test combines two modules",
 ["README.rst", "coral/recipes.py", "coral/shapefile.py", "coral/pf.py", "coral/proj.py", "coral/coord.py", "coral/frame.py", "coral/vector.py", "coral/table.py"],
 [("documented pipeline", "README.rst examples, coral/recipes.py"), ("figures and box", "coral/vector.py Canvas.addpolygon, save")], ["saved drawings of the README and recipe programs"])

prop("C52", "Objects used side by side do not affect each other",
 "Two or more objects of the library - of the same class or of different ones, on the same data, sharing arguments, or on different data - show in every interleaving of their calls exactly what each shows alone in a fresh process. That covers buffers, lazily simplified lines, gradients, writers, readers, iterators and editors of P files, RangeGrid data sets and shapefiles, drawings and copies of drawings, raster canvases, progress meters, projections, frames, boxes, field definitions, cached statistics, tables (with their lazy operations) and conversions. Nothing done earlier in the same process changes what an object made later does.",
 ["schedules", "histories"], "every interleaving of the calls of several objects (bounded: 36 programs of 4-6 calls; all interleavings of two instances of one program, of all pairs of programs by thirds or fifths, of three by halves)",
 "the tests use one object at a time; state kept in a class, a module, a default argument or a shared file name shows only when calls of two objects alternate",
 ["coral/"], [("per-instance state", "constructors of all classes"), ("memoised functions", "coral/stats.py memoize"), ("lazy operations", "coral/coord.py simplify, coral/table.py addkey/delkeys/getall, coral/shapefile.py iterShapes/iterRecords, coral/tqdm.py tqdm")], ["all public calls"])

prop("C53", "Calls leave the caller's data as it is, and results are the caller's own",
 "No call changes the lists, points, tables, arrays or other values it is given. Once a call has returned, whatever the caller does to the lists, points, arrays, dictionaries and shapes handed in (unless they are read lazily) or handed out has no effect on what any object shows or saves later.",
 ["histories", "inputs"], "every set of moments at which the caller changes what was handed in or out (bounded: 36 programs of 4-6 calls on two data sets, points as lists and as tuples, all subsets of moments, arguments, results or both)",
 "no test looks at its arguments after a call or changes them between calls",
 ["coral/"], [("copies of points and records", "coral/shapefile.py Writer.poly, coral/pf.py Writer.write, coral/rg.py Writer.write"), ("drawing calls", "coral/vector.py Canvas.add*, coral/raster.py BaseCanvas"), ("fresh results", "coral/pf.py Reader.read, coral/rg.py Reader.read, coral/shapefile.py Reader.shape/record")], ["arguments and results of all public calls"])

prop("C54", "A saved file depends only on what was saved last",
 "Whatever is saved - P files, RangeGrid data sets, shapefiles (by name, to files opened by the caller, by parts, by an editor over the data set it was opened from), conversions, images, drawings, tables, frames and cached names - under a name that held longer, shorter or no content before, by a new object or by one that was saved before and has grown: as soon as the call returns, the files under that name hold exactly the bytes a first save of the same content under a fresh name would give. No other file appears, changes or disappears.",
 ["histories"], "every history of saves to the same name (bounded: all histories of up to 3-4 saves over four contents for 13 kinds of files, six growing objects, four names, three earlier contents)",
 "the tests write no file twice, and none reads one while its writer is still referenced",
 ["coral/pf.py", "coral/rg.py", "coral/shapefile.py", "coral/raster.py", "coral/vector.py", "coral/table.py", "coral/frame.py"],
 [("opening, truncating, closing", "Writer.close/save functions of all modules")], ["all bytes of the target folder after each save"])

prop("C55", "P files keep the version 0 layout, both ways",
 "Files written by the library have the P format's version 0 layout, whatever the entities: signature, version, coordinate size, number of points, number of entities, per entity its zero-terminated name, number of parts, box (west, east, south, north in 1/65535 of the globe) and number of points per part, numbers being base-128 digits with the highest first; then all points back to back as big-endian pairs of fractions of their entity's box. Conversely a file laid out that way by other means is read with its names and parts, every point at the place its fractions denote, in any order and size.",
 ["inputs", "configurations"], "every list of entities (bounded: all lists of up to 2-3 over 7 boxes and 7 part lists, 4 sizes, counts and lengths around 127, 255, 16383, all index values of size 1 and around every power of two of the others)",
 "no test touches this module; a writer and reader that are wrong together agree with each other and break only the files users already have",
 ["coral/pf.py"], [("header and index", "coral/pf.py Writer.close, Reader._header"), ("numbers", "coral/pf.py base128, readvlv, getfmt"), ("points", "coral/pf.py Writer.write, Reader.read")], ["files written by pf.Writer; pf.Reader on files made independently"])

prop("C56", "A save that runs out of room says so, and can be repeated",
 "When the system has no room for all of a file (writes fail or are cut short from some byte on), whatever saves it - P files, RangeGrid data sets, shapefiles (by name, by parts, by an editor), conversions, images, drawings, tables, frames, cached names, exports - raises an error or (export) returns a failing status: it never returns as if the file were complete. Nothing of a failed save shows later: with room again, saving the same object again or another object under the name gives exactly its files, they stay so when the object that failed is dropped, and no file stays open and no temporary file remains. A RangeGrid data set that had no room for some entities and went on holds exactly the others.",
 ["faults", "histories"], "every byte at which room ends (bounded: all limits up to the size of small files, buffer edges and a sweep for files of 20-60 kB, three earlier contents, three ways to go on; RangeGrid histories of up to 3-4 entities with room again from any step)",
 "the tests never write to a full disk; which writes fail depends on buffering, and what a dropped object still writes shows only after another save",
 ["coral/pf.py", "coral/rg.py", "coral/shapefile.py", "coral/raster.py", "coral/vector.py", "coral/table.py", "coral/frame.py"],
 [("opening, writing, closing", "Writer.close/write/save functions of all modules"), ("temporary files", "coral/vector.py Canvas.export")], ["errors of all saving calls; all bytes written, also after the object is dropped"])

prop("C57", "Opening a file shows what it holds now",
 "Whatever was written, read, moved or removed before: opening a P file, RangeGrid data set, shapefile (to read or edit, with or without its index), frame, cached names or table gives the content that is at that name at that moment, by every way of reading. It does not matter that another file with the same name, base name, length or time stamp was opened before, that the name is relative and the process has moved to another folder, or that the caller changed what an earlier reading returned. What was removed is not found.",
 ["histories"], "all histories of 2 (3) steps and two closing ones of writing five contents in two places, in place or by moving, swapping and removing, for seven kinds of files and two ways of naming, the contents including pairs of the same length with other layouts",
 "staleness needs two files at one name that agree in what a cache would compare; tests read a file once",
 ["coral/pf.py", "coral/rg.py", "coral/shapefile.py", "coral/frame.py", "coral/table.py"],
 [("opening and parsing", "Reader classes, frame.load, Frame.loadnames, table.readfile"), ("index of shapes", "coral/shapefile.py Reader.__shapeIndex")], ["all values returned by every reading of every file after every step"])

prop("C58", "Results do not depend on the process they are computed in",
 "The same calls on the same data give the same values and write the same bytes in every process: whatever the hash seed, the module imported first, the locale, the file mask, the working folder, the state of the random and decimal modules and of the garbage collector, the standard input and output, the environment, in the main thread or another one.",
 ["configurations", "environments"], "all conditions of eleven kinds (bounded: 24 (256) hash seeds and 39 other conditions, thorough: all pairs of kinds) for 42 programs on two sets of data",
 "the tests run in one process, and a test sees the order of sets of only one hash seed at a time",
 ["coral/names.py", "coral/vector.py", "coral/table.py", "coral/stats.py", "coral/shapefile.py", "coral/pf.py", "coral/rg.py", "coral/frame.py", "coral/raster.py"],
 [("iteration over sets and dictionaries", "names.abbreviations, vector.Canvas.save, table.join"), ("definitions loaded on import", "coral/vector.py read_defs")], ["all values returned and files written in the process"])

prop("C59", "The process is left as it was found",
 "No call changes what belongs to the whole process - working folder, environment, file mask, resource limits, signal handlers, random, decimal, locale and recursion settings, standard streams, import path, hooks, warning filters, builtins, garbage collection - or leaves threads or child processes behind, whether it succeeds or fails. Once the objects are dropped, no file is open that was not open before, and no file was made but those asked for.",
 ["histories"], "all prefixes of 42 programs on two sets of data, with and without failing calls in between",
 "tests look at results, not at what a call does to the rest of the program",
 ["coral/vector.py", "coral/shapefile.py", "coral/raster.py", "coral/tqdm.py", "coral/names.py", "coral/frame.py", "coral/pf.py", "coral/rg.py"],
 [("all public functions", "coral/*.py")], ["process-wide settings after every call; open files and folder contents at the end"])

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
