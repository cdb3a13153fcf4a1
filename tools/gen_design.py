"""Writes DESIGN.md: tools/design_head.md, one section per property (bounds from the check's docstring, counts from evidence/,
fixes from known_findings.txt, planted bugs from seeded/), tools/design_tail.md."""
import ast, glob, json, os, textwrap
V = "/verif"
ORACLE = {
 "C01": "min and max of the coordinates, computed independently; the same points as list, tuple, iterator and generator must agree",
 "C02": "a box as the set of points it denotes: four-number tuples and plain interval arithmetic; operands are compared before and after",
 "C03": "collections.deque in lock step; a state is a deep snapshot of the real buffer plus the queue, so wrap-around of both cursors is reached by search, not by guess",
 "C04": "exact rational geometry: the multiset of directed unit pieces of the snapped path, opposite pieces cancelled, against those of the result; for paths that fit the buffer the neighbours of every corner are tested for collinearity",
 "C05": "as C04 for closed outlines, plus the signed area",
 "C06": "unit vectors (mc/geo.py): angle by atan2 of cross and dot product; rotation of a vector along a bearing; the ellipsoid radius from its defining equation",
 "C07": "exact angular distance to each of the 16 directions, and the clock hand's linear law",
 "C08": "the fixed-point definition itself: the equal-area map (own implementation from unit vectors) centred at the answer has its area centroid on the centre; and equality of the answers over all rewritings of the region",
 "C09": "the angle between the place and the place found by going to the map and back, by unit vectors; an exception inside the domain is a violation",
 "C10": "published formulas written from unit vectors and, for Eckert IV and the ellipsoidal Mercator, solved by bisection/series of their own; conformality and equal area by differences of the real map",
 "C11": "the stretch of the real map measured by 4-point differences in two directions, and closed forms",
 "C12": "linear interpolation in fractions over the sorted stops; the caller's list is compared before and after, and every gradient is queried in two opposite orders",
 "C13": "own encoder of the layout (size thresholds, bias, null code); exact comparison, half a step for reals",
 "C14": "the list of written entities with a cursor per reader; every read of every history is compared",
 "C15": "the set of complete data sets (old, new): whatever a reader returns must be rows one of them holds for that id, or an error",
 "C16": "an independent parser of the P layout (mc/pfile.py) gives box and codes; step bound recomputed in exact rationals",
 "C17": "list of accepted entities; every read in every order, through the public reader and the independent parser",
 "C18": "the complete files (old, new): every returned point sequence must be the written one, or an error; a CPU alarm makes hanging a violation",
 "C19": "an independent strict ESRI decoder and encoder (mc/esri.py); reader and decoder must both give the written geometry",
 "C20": "the value law per field type on the decoded bytes and through the reader; the encodings of Python's codecs decide the cut",
 "C21": "the content known from the independent encoder; every read of every history is compared with the list element it stands for",
 "C22": "the strict decoder checks every length, offset, count, box and range of all three files after every save of every history",
 "C23": "point lists by part, orientation by exact rational area",
 "C24": "a list of (shape, record) pairs under the same edits; every save is decoded by the independent decoder",
 "C25": "a dictionary from pixel to colour; after every write all pixels are compared",
 "C26": "crossings in exact rationals, winding per row; only crossings that lie exactly on a rounding boundary are excused by one pixel",
 "C27": "exact distance of every painted pixel from the ideal line, one per column, connectivity; the polygon is the union of the edges drawn one by one",
 "C28": "exact weights per column from the ideal line; every pixel of the canvas is compared",
 "C29": "an independent PNM decoder",
 "C30": "an interpreter of the PostScript subset (mc/ps.py) executes the saved file and yields paint events; a reference canvas tracks ink, width and dash by their meaning",
 "C31": "min/max over the figure's points; figures of the executed program in device space must fit the declared box; background compared with it",
 "C32": "the interpreter refuses undefined names, unbalanced stacks and malformed strings; texts, image bytes and places are compared with the arguments; a canvas nobody touched must be saved to the same bytes",
 "C33": "the projection before saving, compared place by place with the one loaded",
 "C34": "projected box of each polygon by min/max and strict overlap; floor of the scaled point; outlines against simplify of the projected ring",
 "C35": "the table itself; the file is also decorated by the check, independent of the writer",
 "C36": "relational definitions as comprehensions; whole process runs under 8 hash seeds compared byte by byte",
 "C37": "definitions in exact rationals; tolerance only for the final rounding",
 "C38": "breadth-first search over edit scripts is replaced by an independent recurrence (optimal string alignment) on all pairs; ordering and tie rules spelled out",
 "C39": "the published definition, written independently; symmetry and range on all pairs",
 "C40": "subsequence, length and uniqueness predicates; an error is accepted only when the candidates of a name can all be taken by others",
 "C41": "the bare iterable driven in lock step: items, order, laziness, errors; every write is attributed to the given stream",
 "C42": "a one-line terminal emulator fed with every write; the status text is parsed and checked against the numbers; the clock is enumerated",
 "C43": "independent shapefile encoder on one side, independent P parser on the other",
 "C44": "recorders in place of gs and convert, called through a real shell; what they were handed is executed by the PostScript interpreter and compared with each canvas over the common box",
 "C47": "a second implementation of the format (mc/rgfile.py), written from its description: it decodes the library's files and makes files for the library",
 "C48": "extents recomputed from the shapes handed in; for headers, the values an independent encoder put there",
 "C49": "the folder's content decoded by the independent shapefile reader after every save; for readers, the data set loaded last",
 "C50": "the shapes and records of the uncut data set, from the independent encoder",
 "C51": "the drawing run by the independent PostScript interpreter; each figure compared with the part's projected, rounded outline; shapefiles come from the independent encoder",
 "C52": "the same program run alone in a forked process that has done nothing else; every call's result (deep snapshot, bytes of files) must be equal",
 "C53": "as C52, undisturbed; arguments are compared with deep snapshots after every call",
 "C54": "the bytes of the same content saved once under a name of its own; the whole folder is compared after every save",
 "C55": "a second implementation of the format (mc/pfile.py): its parser reads the library's files, its encoder makes files for the library; places are exact fractions",
 "C57": "the values written, kept apart from the files; the harness tracks which content is at which place",
 "C58": "what the same calls show in a plain process (deep snapshots, bytes of files)",
 "C59": "the process' settings, open files and folders before the call",
 "C56": "the bytes of the same save with room; the process' own table of open files; for RangeGrid the entities whose write returned",
 "C46": "the layout recomputed from the cells; every line is cut at the column borders and each cell compared",
 "C45": "as C44, under a controlled scheduler (mc/sched.py): every interleaving up to the preemption bound must give each export its own drawing, path and status and leave no file behind",
}
WHY = {
 "C03": "the tests never fill or wrap the buffer", "C14": "read order and interleaving of readers are histories", "C15": "crash points",
 "C18": "crash points and every byte of truncation", "C21": "interleavings of live iterators over one file cursor",
 "C22": "histories of adding and saving", "C24": "histories of edits", "C25": "histories of pixel writes", "C30": "histories of drawing calls: ink state leaks from one to the next",
 "C37": "cached results are hidden state: only histories reveal them", "C41": "every clock behaviour and stopping point",
 "C42": "every clock behaviour", "C58": "hash seeds and settings of the process are a bounded set of schedules that a single test run never varies", "C59": "histories of calls, failing ones included",
 "C50": "crash points, every byte of truncation, and what a reader remembers of a refused read", "C45": "every interleaving of concurrent exports",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
fixes, plants = {}, {}
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed: property="):
        pid, rest = l[len("fixed: property="):].strip().split(" ", 1)
        fixes.setdefault(pid, []).append(rest)
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    plants.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(m)))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    src = open(V + "/mc/checks/%s.py" % i.lower()).read()
    t = ast.parse(src)
    doc = " ".join(ast.get_docstring(t).split())
    level = [n.value.value for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "LEVEL"][0]
    w = lambda s: textwrap.fill("* " + s, 118, subsequent_indent="  ", break_long_words=False, break_on_hyphens=False)
    out += ["### %s %s" % (i, p["title"]), ""]
    out.append(w("**Enumerated (%s)**: %s" % (level.replace("_", " "), doc)))
    out.append(w("**Oracle**: " + ORACLE[i] + "."))
    try:
        ev = json.load(open(V + "/evidence/%s.json" % i))
        c = ev["coverage"]
        n = "%d states, %d transitions, %d maximal histories" % (c["states"], c["transitions"], c["traces_validated_against_impl"]) \
            if "states" in c else "%d cases (%d distinct outcomes)" % (c["evaluations"], c["distinct_outcomes"])
        out.append(w("**Cost** (%s tier): %s, all executed on the real code." % (ev["tier"], n)))
    except (OSError, KeyError):
        pass
    out.append(w("**Beyond the tests**: " + WHY.get(i, "the tests sample at most a handful of inputs of this module, most modules none; here the whole bounded space is run") + "."))
    if i in fixes:
        out.append(w("**Defects found and repaired**: " + "; ".join(fixes[i]) + "."))
    if i in plants:
        out.append(w("**Planted bugs caught by this check**: " + ", ".join(plants[i]) + "."))
    out.append("")
out.append(open(V + "/tools/design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
