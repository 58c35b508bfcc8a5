"""Writes properties.jsonl (the texts live here, one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "A COPC file gives back exactly the nodes and points that were written",
  "After a COPC writer is closed, reading the output yields exactly the set of node keys that were added, each with the point data, point count and point attributes of the last successful addition for that key and the page it was last assigned to. This holds for data added as points, as raw point bytes and as already compressed bytes, for every point format 6-8 and any amount of extra bytes, and nothing that was never added appears.",
  ["histories", "inputs", "configurations"],
  "all sequences of additions (including repeated keys and page moves), all point formats, extra-byte layouts, scales/offsets and node contents",
  "The tests write a few hand-picked nodes once each with default settings; overwriting a key, moving pages and unusual record sizes are combinations they do not sample.",
  ["cpp/src/io/copc_writer_public.cpp", "cpp/src/io/copc_writer_internal.cpp", "cpp/src/io/copc_reader.cpp", "cpp/src/io/copc_base_io.cpp", "cpp/src/las/points.cpp", "cpp/include/copc-lib/laz/decompressor.hpp"],
  [("node bookkeeping on addition", "cpp/src/io/copc_writer_public.cpp DoAddNode"), ("chunk writing", "cpp/src/io/laz_base_writer.cpp WriteChunk"), ("hierarchy parsing", "cpp/src/io/copc_base_io.cpp ReadAndParsePage")],
  ["bytes of the finished file", "AddNode/AddNodeCompressed results", "GetAllNodes, GetPointData, GetPointDataCompressed, GetPoints"],
  [("loaded nodes", "key -> entry of the last addition", "cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp")])
p("C02", "The written hierarchy is one consistent tree of pages",
  "In every finished COPC file the hierarchy pages reachable from the advertised root page form one tree: the root page is the one the file header information points at with its exact offset and size, every other page is referenced exactly once, by its nearest existing ancestor page, with its exact offset and size, and every page lies inside a hierarchy record. Every node appears in exactly one page, the page it is assigned to, which is its ancestor or itself, and no page other than the root is empty.",
  ["histories", "inputs"], "all sequences of additions to arbitrary pages, re-additions and page moves, hence all page nestings",
  "Tests use at most two page levels and check node lookups, not the page tree itself; which ancestor references a page depends on the whole history of page creations and removals.",
  ["cpp/src/io/copc_writer_internal.cpp", "cpp/src/io/copc_writer_public.cpp", "cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp", "cpp/include/copc-lib/hierarchy/entry.hpp"],
  [("linking pages to ancestors", "cpp/src/io/copc_writer_internal.cpp ComputePageHierarchy"), ("post-order page writing", "cpp/src/io/copc_writer_internal.cpp WritePageTree/WritePage")],
  ["bytes of the finished file", "GetPageList"], [("seen pages", "page key -> nodes and sub-pages", "cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp")])
p("C03", "Reader answers do not depend on earlier queries",
  "For any well-formed COPC file, whatever legal layout its producer chose, every node lookup, page listing, whole-file listing and child listing returns the same answer no matter which queries were made before, namely the answer determined by the complete file. Asking about keys or pages that do not exist returns nothing and changes nothing.",
  ["histories", "inputs"], "all sequences of queries on one reader, all page trees and page orders in the file",
  "Pages are loaded lazily, so the answer could depend on any prefix of queries; the tests open a file and ask each question once.",
  ["cpp/src/io/copc_base_io.cpp", "cpp/src/io/copc_reader.cpp", "cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp"],
  [("lazy page loading", "cpp/src/io/copc_base_io.cpp FindNode/LoadPageHierarchy"), ("child listing", "cpp/src/io/copc_reader.cpp GetAllChildrenOfPage")],
  ["FindNode", "GetAllNodes", "GetAllChildrenOfPage", "GetPageList", "GetPointData by key"], [("loaded pages and nodes", "what has been read so far", "cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp")])
p("C04", "Headers and record tables of written files describe the file truthfully",
  "In every finished COPC or LAZ file the header's point count, point format, record length, offsets and record counts, and every record header and the chunk table, agree with what the file actually contains; the mandated records are present exactly once at their mandated positions and no two parts of the file overlap. The chunk table lists every written chunk in order with its exact point count and size.",
  ["histories", "configurations", "inputs"], "all writing sessions and all configurations (formats, extra-byte items, WKT, extended statistics)",
  "Tests read files back with the same library, so a compensating error in writer and reader, or a field the library itself never reads, stays invisible.",
  ["cpp/src/io/laz_base_writer.cpp", "cpp/src/io/copc_writer_internal.cpp", "cpp/src/las/header.cpp", "cpp/src/las/vlr.cpp", "cpp/src/copc/extents.cpp"],
  [("space reservation", "OffsetToPointData in cpp/src/io/laz_base_writer.cpp and copc_writer_internal.cpp"), ("header writing", "cpp/src/las/header.cpp ToLazPerf"), ("chunk table", "cpp/src/io/laz_base_writer.cpp WriteChunkTable")],
  ["bytes of the finished file parsed by an independent parser"])
p("C05", "Completing a file is final and independent of how it is completed",
  "Closing a writer once, closing it repeatedly, letting it be destroyed, or doing both produces the same file content for the same history, whether the target is a stream or a path. After completion no call on the writer changes the output, and additions after completion are refused.",
  ["histories"], "all histories, all ways and repetitions of closing/destroying, calls after closing",
  "Tests close every writer exactly once and never use it afterwards.",
  ["cpp/src/io/copc_writer_public.cpp", "cpp/src/io/laz_base_writer.cpp", "cpp/src/io/copc_writer_internal.cpp", "cpp/include/copc-lib/io/copc_writer.hpp", "cpp/include/copc-lib/io/laz_writer.hpp"],
  [("open flag", "Close in laz_base_writer.cpp and copc_writer_internal.cpp"), ("destructors", "cpp/include/copc-lib/io/*.hpp")], ["bytes of the output after every call"])
p("C06", "Refused operations are refused and leave no trace",
  "A writer refuses additions whose key or page is invalid or outside the octree, whose page is not an ancestor of (or equal to) the key, whose data is empty or not a whole number of records, whose points have a different format or size, or whose point count is not positive, and refuses page moves for unknown nodes or non-ancestor pages. A refused operation has no effect on the finished file or on later lookups.",
  ["histories", "inputs"], "all interleavings of refused and accepted operations",
  "Tests check that some bad calls throw, not that the file finished afterwards is the one without those calls.",
  ["cpp/src/io/copc_writer_public.cpp", "cpp/src/io/laz_writer.cpp", "cpp/src/io/laz_base_writer.cpp"],
  [("argument checks before writing", "cpp/src/io/copc_writer_public.cpp AddNode/AddNodeCompressed/DoAddNode/ChangeNodePage")], ["exceptions", "bytes of the finished file", "FindNode on the writer"])
p("C07", "Moving a node to another page changes its page and nothing else",
  "After a node is moved to another page, lookups on the writer and in the finished file report the new page and unchanged point data, count and position, for the node and for every other node. Any sequence of moves ends in the same hierarchy as adding the nodes under their final pages directly.",
  ["histories"], "all sequences of additions and page moves, including moves that create or empty pages",
  "Tests perform one or two moves; emptied and re-created pages and chains of moves through several pages are not sampled.",
  ["cpp/src/io/copc_writer_public.cpp", "cpp/src/io/copc_writer_internal.cpp"],
  [("page reassignment", "cpp/src/io/copc_writer_public.cpp ChangeNodePage")], ["FindNode on the writer", "hierarchy of the finished file"])
p("C08", "Packing and unpacking point records is exact",
  "Unpacking any record bytes and packing the result gives the identical bytes, every field sits at the position the LAS 1.4 point formats prescribe, and packing an arbitrary coordinate stores the nearest representable step. A coordinate that no stored integer can represent, including not-a-number, is an error and never a wrong value.",
  ["inputs", "configurations"], "all record bytes of formats 6-8 with any number of extra bytes; all coordinates, scales and offsets",
  "Tests round-trip a handful of values with the default scale.",
  ["cpp/src/las/point.cpp", "cpp/include/copc-lib/las/utils.hpp", "cpp/src/las/points.cpp"],
  [("record layout", "cpp/src/las/point.cpp Pack/Unpack"), ("coordinate rounding and range check", "cpp/include/copc-lib/las/utils.hpp RemoveScale")], ["Point::Pack/Unpack", "Points::Pack/Unpack"])
p("C09", "Point attributes are independent and keep their values",
  "Setting any point attribute makes exactly that attribute read back as set and leaves all others unchanged, values outside an attribute's range are refused without effect, and attributes the point format lacks are refused. Copying a point gives an equal and independent point, converting the format keeps every attribute both formats have including extra bytes, and two points compare equal exactly when their formats and all attributes agree (coordinates to a millionth).",
  ["histories", "inputs"], "all sequences of attribute assignments, copies and conversions, all attribute values",
  "Attributes share bit fields; tests set each once from zero and check only that attribute.",
  ["cpp/include/copc-lib/las/point.hpp", "cpp/src/las/point.cpp"],
  [("bit-field setters", "cpp/include/copc-lib/las/point.hpp"), ("copy, conversion, comparison", "cpp/src/las/point.cpp")], ["all Point getters"])
p("C10", "A point collection never mixes layouts and keeps its points in order",
  "Every point in a collection always has the collection's format and record length; additions that do not fit are refused as a whole, and accepted additions append in order the very points given. Bulk reads and writes of an attribute touch the points in order with full-range values, a bulk write of the wrong length changes nothing, and converting the collection converts every point while keeping shared attributes.",
  ["histories", "inputs"], "all sequences of collection operations, with points shared between collections or not",
  "Tests use fresh, unshared points and small values.",
  ["cpp/src/las/points.cpp", "cpp/include/copc-lib/las/points.hpp"],
  [("layout check on addition", "cpp/src/las/points.cpp AddPoint/AddPoints"), ("bulk accessors", "cpp/include/copc-lib/las/points.hpp")], ["Points getters", "Point getters of shared points"])
p("C11", "Octree keys obey the octree's arithmetic",
  "The eight children of a key are distinct, one level deeper and have the key as parent; the list of ancestors is the chain of parents up to the root; the ancestor at a depth is the element of that chain; a key is below another exactly when the other is on its chain (or equal). Invalid keys have no ancestors, equal keys hash equally, and the resolution halves at each level.",
  ["inputs"], "all keys, valid or not, at all depths",
  "Tests check a few keys near the root.",
  ["cpp/src/hierarchy/key.cpp", "cpp/include/copc-lib/hierarchy/key.hpp"],
  [("parents and children", "cpp/src/hierarchy/key.cpp")], ["VoxelKey functions"])
p("C12", "Box and key geometry predicates are the geometric ones",
  "Intersection, containment and being within, between boxes, between a box and a point and between the cell of a key and a box or point, are exactly the predicates of closed axis-aligned boxes, including touching faces and degenerate and two-dimensional boxes. The cell of a key is the cube obtained by repeatedly halving the cube that starts at the minimum corner and spans the largest extent, and boxes with a minimum above a maximum are refused.",
  ["inputs"], "all boxes, points, keys and header bounds",
  "Tests check a few positions; boundary contact in single axes and mixed cases are not sampled.",
  ["cpp/src/geometry/box.cpp", "cpp/src/hierarchy/key.cpp", "cpp/include/copc-lib/las/header.hpp"],
  [("box predicates", "cpp/src/geometry/box.cpp"), ("key predicates", "cpp/src/hierarchy/key.cpp")], ["Box and VoxelKey predicates"])
p("C13", "Spatial and resolution queries return exactly the qualifying nodes and points",
  "A query by box, by resolution or both returns exactly the nodes (or points) of the file that satisfy it: node cells within or intersecting the box, points inside the closed box (in files whose points lie in the cells of their nodes), and depths up to (or exactly at) the depth the resolution asks for. The depth for a resolution is the first level whose spacing is at most the resolution, or the deepest level when there is none or the resolution is not positive.",
  ["inputs", "histories"], "all files, boxes and resolutions",
  "Tests count results for a few boxes on one sample file.",
  ["cpp/src/io/copc_reader.cpp", "cpp/src/geometry/box.cpp", "cpp/src/las/point.cpp"],
  [("queries", "cpp/src/io/copc_reader.cpp GetNodesWithinBox, GetNodesIntersectBox, GetPointsWithinBox, GetDepthAtResolution, GetNodesAtResolution, GetNodesWithinResolution, GetAllPoints")], ["query results"])
p("C14", "Spatial validation reports exactly the violations",
  "Validating a file's spatial bounds succeeds exactly when every node's cell touches the header bounds and every point lies inside the header bounds and inside its node's cell. The verbose and the silent form agree, and the verbose form's totals are the numbers of offending points.",
  ["inputs"], "all files and all placements of points relative to the bounds and cells",
  "Tests use one valid file and a few violations; a violation in the last point of the last node, or only in one axis, is not sampled.",
  ["cpp/src/io/copc_reader.cpp"], [("validation", "cpp/src/io/copc_reader.cpp ValidateSpatialBounds")], ["return value", "printed totals"])
p("C15", "A LAZ file gives back the concatenation of everything written",
  "After a LAZ writer is closed, reading the output yields the concatenation, in order, of all points written, whether given as points or as compressed chunks, and the writer's point and chunk counts equal what was written so far. Writing no points adds no chunk; refused writes change nothing.",
  ["histories", "configurations"], "all sequences of writes, all formats and extra-byte sizes",
  "Tests write one or two chunks with default layouts.",
  ["cpp/src/io/laz_writer.cpp", "cpp/src/io/laz_base_writer.cpp", "cpp/src/io/laz_reader.cpp"],
  [("chunk writing", "cpp/src/io/laz_base_writer.cpp WriteChunk"), ("sequential reading", "cpp/src/io/laz_reader.cpp GetPointData")], ["bytes of the finished file", "LazReader results", "writer counts"])
p("C16", "Deriving a configuration changes only what is overridden and shares nothing",
  "A writer created from a configuration with overrides has exactly the overridden settings changed and every other setting, including header fields, octree information and statistics, carried over; configurations taken from a reader or another configuration are equal to their source. Later changes to any one configuration or through any one writer never show up in another.",
  ["configurations", "histories"], "all combinations of overrides and all chains of copies and modifications",
  "Tests override one setting at a time and do not look for aliasing.",
  ["cpp/src/io/copc_writer_public.cpp", "cpp/src/copc/copc_config.cpp", "cpp/src/las/laz_config.cpp", "cpp/src/copc/extents.cpp", "cpp/include/copc-lib/copc/copc_config.hpp"],
  [("derivation", "cpp/src/io/copc_writer_public.cpp InitWriter"), ("copy constructors", "cpp/include/copc-lib/copc/copc_config.hpp, cpp/src/las/laz_config.cpp")], ["configuration getters", "records of the finished file"])
p("C17", "Per-dimension extents keep their dimension and their values",
  "Each named dimension's extent reads back as it was set and is stored at that dimension's position, extra-byte extents following all standard ones; minima, maxima and, when enabled, means and variances survive writing and reading. Extents with minimum above maximum or negative variance are refused, and dimensions a format lacks are refused.",
  ["inputs", "configurations"], "all formats, numbers of extra-byte items and extent values, with and without extended statistics",
  "Tests set all dimensions of one format with similar values.",
  ["cpp/src/copc/extents.cpp", "cpp/include/copc-lib/copc/extents.hpp", "cpp/src/io/copc_writer_internal.cpp", "cpp/src/io/copc_reader.cpp"],
  [("dimension positions", "cpp/include/copc-lib/copc/extents.hpp"), ("record conversion", "cpp/src/copc/extents.cpp ToLazPerf/SetExtendedStats")], ["extent getters", "records of the finished file"])
p("C18", "File metadata survives writing and reading",
  "Every header field, the WKT text, the extra-byte descriptions and the octree information set before completion is found unchanged in the finished file and through a reader, including texts that use the full field width. Converting a vector of coordinates to scaled form and back are inverse operations.",
  ["inputs", "configurations"], "all field values and lengths, COPC and LAZ",
  "Tests set short sample values and compare a few fields.",
  ["cpp/src/las/header.cpp", "cpp/src/copc/info.cpp", "cpp/src/las/vlr.cpp", "cpp/src/io/base_reader.cpp", "cpp/include/copc-lib/las/header.hpp"],
  [("header conversion", "cpp/src/las/header.cpp ToLazPerf/FromLazPerf"), ("octree information", "cpp/src/copc/info.cpp")], ["bytes of the finished file", "reader configuration"])
p("C19", "Records are found wherever a producer may put them",
  "Optional records (WKT, extra-byte descriptions, extents, extended statistics) are read with identical results whether they are stored before or after the point data, in any order and among unrelated records, and missing ones yield defaults that fit the file's format and extra-byte items. Unrelated records never change what is read.",
  ["inputs"], "all placements and orders of the optional and unrelated records",
  "The library's own writer uses a single placement, and the sample file another; tests cover these two.",
  ["cpp/src/io/base_reader.cpp", "cpp/src/io/copc_reader.cpp", "cpp/src/las/vlr.cpp"],
  [("record scan", "cpp/src/io/base_reader.cpp ReadVlrHeaders/FetchVlr"), ("record readers", "cpp/src/io/base_reader.cpp, cpp/src/io/copc_reader.cpp")], ["reader configuration"])
p("C20", "Parallel pipelines give the sequential result for every completion order",
  "Reading or transforming a file's nodes in parallel processes each selected node exactly once and delivers exactly its result, so that the collected points, the written file and the updated bounds are those of sequential processing, whatever order workers complete in and however the nodes are batched. No more than the requested number of nodes is queued at once. A failing worker or an invalid argument is reported to the caller.",
  ["schedules", "inputs"], "all completion orders, batch sizes, node selections and worker results, including empty ones",
  "Tests see whichever few schedules the machine produces on one sample file.",
  ["python/copclib/mp/read.py", "python/copclib/mp/transform.py", "python/copclib/mp/utils.py"],
  [("batching and completion loop", "python/copclib/mp/read.py read_multithreaded, python/copclib/mp/transform.py transform_multithreaded"), ("bounds update", "python/copclib/mp/transform.py")], ["callbacks", "writer calls", "header bounds", "raised errors"])
p("C21", "Output failures are never silent",
  "If the output device fails to store any byte of a file, some operation on that writer, at the latest the explicit close, reports an error; if no operation reports an error, the complete file has been stored. After a reported failure, destroying the writer neither crashes nor reports success.",
  ["fault_sequences"], "a device failing permanently or once at every byte position, only at the flush, or at any seek, with and without stream exceptions, for every writing session",
  "Tests only write to healthy streams.",
  ["cpp/src/io/laz_base_writer.cpp", "cpp/src/io/copc_writer_internal.cpp", "cpp/include/copc-lib/io/laz_base_writer.hpp", "cpp/include/copc-lib/io/copc_writer.hpp"],
  [("stream state checks", "cpp/src/io/laz_base_writer.cpp WriteChunk/FlushStream/Close")], ["exceptions", "bytes accepted by the device"])
p("C22", "Compressing and decompressing point blocks are inverse in every form",
  "For every block of whole records, all forms of compression (into a stream or a buffer, by header or by explicit layout) give the same bytes, and all forms of decompression give back the original block and leave the stream usable. Blocks that are not whole records are refused, and appending to a stream touches nothing already in it.",
  ["inputs", "configurations"], "all formats, extra-byte sizes, block sizes and call forms",
  "Tests use one layout and one form.",
  ["cpp/include/copc-lib/laz/compressor.hpp", "cpp/include/copc-lib/laz/decompressor.hpp"],
  [("helpers", "cpp/include/copc-lib/laz/compressor.hpp, decompressor.hpp")], ["returned bytes", "stream state"])
p("C23", "Damaged or inconsistent files are reported, never misread",
  "Opening or querying a file that is cut off at any point, or whose header, records or hierarchy entries are invalid, either reports an error or gives exactly the answer the intact content determines; it never crashes, hangs, or makes up nodes or points. A query that failed does not change the answers of later queries.",
  ["inputs", "fault_sequences"], "every truncation point and the enumerated kinds of corruption, over all queries",
  "Tests open intact files and one or two wrong file types.",
  ["cpp/src/io/base_reader.cpp", "cpp/src/io/copc_reader.cpp", "cpp/src/io/copc_base_io.cpp", "cpp/src/las/header.cpp", "cpp/src/copc/extents.cpp"],
  [("validity checks", "cpp/src/las/header.cpp FromLazPerf, cpp/src/io/copc_reader.cpp InitCopcReader/ReadPage, cpp/src/io/copc_base_io.cpp ReadAndParsePage")], ["exceptions", "query results"])
p("C24", "The Python interface gives the library's answers and pickles values unchanged",
  "Keys, nodes, vectors, byte buffers and headers survive pickling and copying: they arrive, in this process or another, equal in every attribute to what they were when saved, and later changes to either side don't reach the other; values of other types refuse to be pickled rather than lose anything. Everything else done through the Python interface (keys, boxes, points, configurations, compression, reading and writing files) gives the same answers and refusals as the library itself, and a collection of points behaves as a Python sequence whose items keep the collection's layout.",
  ["inputs", "configurations", "histories"], "all values of the picklable types, all call histories over the Python interface",
  "Tests pickle one sample per type, compare a few attributes and run single scripted calls.",
  ["python/bindings.cpp", "python/copclib/__init__.py"],
  [("pickle definitions", "python/bindings.cpp py::pickle"), ("sequence protocol of Points", "python/bindings.cpp class Points"), ("properties and overloads", "python/bindings.cpp")],
  ["unpickled objects", "answers through the Python interface"])
p("C25", "Vectors, keys and hierarchy entries compute, compare, store and print exactly",
  "Vector arithmetic is component by component with the operand given (vector or number), and vectors are equal exactly when all components are; a vector can be made from a list of three numbers and from no other. A hierarchy entry is stored as the 32 bytes COPC prescribes and read back the same; it is valid, a page, or equal to another exactly as its key, place, size and count determine. What is printed of a key, vector, box or entry has all its numbers, in order and precise enough to get the same values back.",
  ["inputs"], "all values of these types, including negative, huge and tiny numbers and invalid keys and sizes",
  "Tests compute with one pair of vectors and print nothing.",
  ["cpp/include/copc-lib/geometry/vector3.hpp", "cpp/include/copc-lib/hierarchy/entry.hpp", "cpp/src/hierarchy/page.cpp", "cpp/src/geometry/box.cpp", "cpp/src/hierarchy/key.cpp", "python/bindings.cpp"],
  [("operators", "cpp/include/copc-lib/geometry/vector3.hpp, python/bindings.cpp class Vector3"), ("packing and comparison", "cpp/include/copc-lib/hierarchy/entry.hpp, page.hpp, node.hpp"), ("printing", "ToString of VoxelKey, Vector3, Box, Entry")],
  ["returned values", "stored bytes", "printed text"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
