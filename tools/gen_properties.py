#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, so that ids, titles and anchors stay consistent)."""
import json, os
M = "py/docria/model.py"; C = "py/docria/codec.py"; K = "py/docria/collection.py"
A = "py/docria/algorithm.py"; Q = "py/docria/query.py"; P = "py/docria/printout.py"
JW = "java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java"
J = "java/core/src/main/java/se/lth/cs/docria/"
JO = J + "io/"
JR = "java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java"
props = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}})


p("C01", "A layer is an ordered sequence of nodes under any edit history",
  "After any sequence of adding, removing, retaining, sorting, compacting and serialising, a layer holds exactly the "
  "nodes that were added and not since removed, in the order they were added as changed only by sorting. Its length, "
  "iteration from either end, first and last node, left and right neighbours, index positions, slices, lists and membership all agree "
  "with that sequence, and a removed node, or a copy of a node, reports that it is detached.",
  ["histories"], "every sequence of layer edits up to a depth, from empty, small and compaction-threshold-sized layers",
  "Two tests remove or retain a handful of nodes once; gaps left by one edit only matter to the next edit, so the "
  "property lives in sequences the tests never form (more than 16 nodes, remove-then-retain, sort with gaps).",
  [M], [("node list with gaps, compacted when a quarter is empty", M + ": NodeLayerCollection.add/add_many/remove/retain/sort/compact"),
        ("neighbours and span iteration skip gaps", M + ": NodeLayerCollection.left/right/iter_nodespan/__iter__"),
        ("serialisation renumbers nodes", M + ": Document.compile")],
  [("node list", "nodes in order, None for removed ones", M + ": NodeLayerCollection"), ("node id", "position of the node in its layer", M + ": Node")],
  ["len(layer)", "iter(layer)", "layer[i]", "node.i", "node.left/right", "node.is_dangling()"])

p("C02", "A refused layer operation does no damage",
  "An operation on a layer that is refused (a node that belongs elsewhere or is already attached, a copy of an attached node, something that is not "
  "a node, a value that breaks the schema) raises an error. Afterwards no node that the request did not name has been "
  "lost, added, moved or detached, every attached node is found at its own index, and later operations work as usual.",
  ["histories", "fault_sequences"], "every edit history with a refused request (bad element at every position of the argument) at every point",
  "No test makes an operation on a layer fail and goes on using the layer.",
  [M], [("membership and type guards", M + ": NodeLayerCollection.add/add_many/remove/retain"),
        ("schema validation before a node is stored", M + ": NodeLayerCollection.validate")],
  [], ["layer contents after the exception"])

p("C03", "MessagePack, pickle and copy round trips lose nothing",
  "Every document that can be encoded decodes to a document with the same properties, texts, layers, field types and "
  "options, node order and field values. References, reference arrays and node spans lead to the corresponding nodes, text spans to the "
  "same characters, and unset fields stay unset (an empty reference array may come back unset). The "
  "same holds for pickling and copying a document.",
  ["inputs", "programs"], "every document over small schemas with every field type, every presence pattern and boundary values, with gaps left by removals",
  "One round trip of one nine-token document with span and string fields is tested; other types, unset fields, gaps, "
  "empty texts or layers and non-BMP text are not.",
  [C, M], [("column encoders per type", C + ": Codec.encode"), ("layer and text decoding", C + ": MsgpackCodec.decode*"),
           ("references restored from indices", C + ": Codec.commit_layers"), ("offset tables", M + ": Document.compile, Text.compile")],
  [("offset mapping", "text offset to segment number", M + ": Document.compile")], ["MsgpackCodec.decode(MsgpackCodec.encode(doc))", "pickle", "copy.deepcopy"])

p("C04", "JSON round trips lose nothing JSON can carry",
  "Every document without raw bytes whose properties are plain JSON values encodes to JSON text that decodes to a document with the same properties, texts, "
  "layers, field types and options, node order and field values, references and spans included. What JSON cannot carry is refused "
  "when encoding, not dropped or altered.",
  ["inputs"], "every document over the small schemas, values and graphs of the MessagePack check that JSON can express",
  "One document is tested, with two field types.",
  [C], [("JSON encoder and decoder", C + ": JsonCodec"), ("shared column encoders", C + ": Codec.encode")],
  [], ["JsonCodec.decode(JsonCodec.encode(doc))"])

p("C05", "Serialisation never misdirects a reference",
  "Whatever edits came before, encoding a document either raises an error or writes data in which every reference, "
  "reference array, node span and text span denotes the counterpart of exactly the node or text it denoted before. "
  "References to removed nodes, to other layers or to other documents, spans over another text, wrongly typed values and "
  "undeclared fields are refused; asking to tolerate extra fields drops those fields and relaxes nothing else.",
  ["histories"], "every short history of removals, sorts, re-adds, reference assignments, layer replacement and decode-then-edit on a two-layer document",
  "No test encodes a document after edits that move or remove referenced nodes, nor a decoded document that was edited.",
  [M, C], [("index assignment and validation before encoding", M + ": Document.compile"), ("type predicates", M + ": DataType*.is_valid"),
           ("schema restored when decoding", C + ": decode_schema, decode_object")],
  [("node id", "what a reference is written as", M + ": Node")], ["decoded target identity (by a key field)", "exception from encode"])

p("C06", "Encoding is a deterministic observation",
  "Encoding a document in any format changes nothing a user can observe in it: nodes, order, values, references, schema, "
  "texts and properties are as before. Encoding again gives identical bytes, and encoding the decoded "
  "document gives the same bytes again.",
  ["histories", "inputs"], "every document of the round-trip universe, after every short edit history, every ordered pair of formats",
  "The tests encode each document once and do not look at it again.",
  [M, C], [("compile compacts and renumbers in place", M + ": Document.compile"), ("encoders", C + ": MsgpackCodec.encode, JsonCodec.encode, XmlCodec.encode_*")],
  [], ["document contents before and after", "bytes of consecutive encodings"])

p("C07", "Fields accept exactly the values of their declared type",
  "For every field type, adding a node (from field values, or existing nodes in bulk) and encoding accept a value if and only if the type "
  "admits it (32 and 64 bit limits, booleans, strings, bytes, floats, spans over the declared text, nodes attached to the declared layer). "
  "Nodes created with a field left out get the declared default, which is itself valid. A decoded document enforces the same rules as the original.",
  ["inputs", "configurations"], "every field type and default option x boundary values of every kind x every entry point, before and after decoding",
  "test_typing is empty; one test checks an undeclared field.",
  [M, C], [("type predicates", M + ": DataType*.is_valid"), ("type factory and defaults", M + ": DataTypes"),
           ("validation at the entry points", M + ": NodeLayerCollection.add/add_many/validate, Document.compile"), ("types rebuilt when decoding", C + ": decode_schema, decode_object")],
  [], ["exception or acceptance", "stored values"])

p("C08", "Text spans behave like slices of their text",
  "For every text and every pair of offsets, a span's string, length, characters, sub-slices, the span or text up to "
  "another span, and the covered-by and intersected-by tests agree with ordinary string slicing and interval arithmetic on "
  "code points; offsets outside the text or in the wrong order are refused. Trimming removes exactly the leading and "
  "trailing whitespace.",
  ["inputs"], "every text up to a length over letters, whitespace and non-BMP characters, every span of it and every index, slice and second span",
  "One text with a dozen slices is tested; trim and the interval tests are never called.",
  [M], [("slicing and bounds", M + ": Text.__getitem__, TextSpan.__getitem__"), ("trim", M + ": TextSpan.trim/trim_"),
        ("interval tests", M + ": TextSpan.covered_by/intersected_by")], [], ["str(span)", "span.start/stop", "span[i]", "span[a:b]"])

p("C09", "Collection files return every document, in order and by reference",
  "Whatever the sequence of writes and flushes, block size, codec and mix of plain and already encoded documents, reading the "
  "collection yields exactly the written documents in order, each once. The position reported with a document "
  "retrieves that same document at any later time, and sequential reading, block-wise reading, seeking and retrieval can be "
  "interleaved in any order, also when the storage returns fewer bytes than asked for.",
  ["histories", "configurations"], "every write/flush sequence x block size x codec, then every sequence of next / get / seek / block reads up to a depth, with short reads",
  "One test writes one document and reads one.",
  [K], [("block buffering", K + ": MsgpackDocumentWriter.write/flush/close"), ("block iteration and references", K + ": MsgpackDocumentReader, MsgpackDocumentBlock"),
        ("codec registry", K + ": register_codec/get_codec")],
  [("current block", "documents not yet written", K + ": MsgpackDocumentWriter"), ("reader position", "block in use and byte position", K + ": MsgpackDocumentReader")],
  ["documents read", "MsgpackDocument.ref", "reader.get(ref)"])

p("C10", "A cut or failed collection write never yields wrong documents",
  "If a collection file ends early at any byte, reading returns the documents of the blocks that are complete, unaltered "
  "and in order, and then stops or raises an error; everything flushed before the cut is recovered. If the storage "
  "refuses a write, the error reaches the caller, and a later successful flush stores every document accepted without an error exactly once, "
  "framed or not. Storage that takes only a part of each write ends up with the same bytes as storage that takes all.",
  ["crash_points", "fault_sequences"], "every byte prefix of every small write history per codec; every refused storage write of the history",
  "No test reads a damaged file or makes a write fail.",
  [K], [("length-prefixed compressed blocks", K + ": MsgpackDocumentWriter.flush"), ("block reader", K + ": MsgpackDocumentReader.readblock/__next__")],
  [], ["documents read from the prefix"])

p("C11", "Boundary-framed streams carry exactly the bytes written",
  "For every boundary size and every way of splitting the writes, the framed stream holds each written byte once, "
  "interrupted only by a four-byte marker at each multiple of the boundary size, which gives the negative distance back "
  "to the latest declared split. Reading it with any sequence of read sizes and seeks returns exactly the written bytes at those "
  "positions, a seek to before the start is refused, and collection files work through it, retrieval by reference included.",
  ["inputs", "histories", "configurations"], "every write split and read/seek sequence over sizes at and around the segment edges, several segments deep, several boundary sizes",
  "One test writes 200 bytes, far below the first boundary at 1 MiB, and reads them back.",
  [K], [("marker insertion", K + ": _BoundaryWriter.write/_write_boundary/split"), ("marker removal", K + ": _BoundaryReader.read/seek")],
  [("written / offset", "physical and logical position", K + ": _BoundaryWriter, _BoundaryReader")], ["bytes read", "raw marker positions and values"])

p("C12", "Partial access to an encoded document agrees with full decoding",
  "Properties, schema, texts, whole or partial decoding and the raw bytes of an encoded document may be asked for in any "
  "order and any number of times, and always agree with a full decoding of the same bytes. Asking for some properties, "
  "texts or layers returns exactly those, complete (a reference into a layer that was not asked for is left unset), and "
  "pickling keeps contents and position.",
  ["histories", "inputs"], "every sequence of accessor calls up to a depth on every document of a small universe, from bytes, streams and documents",
  "The tests never use the partial-access class except inside the writer.",
  [C], [("section offsets computed on demand", C + ": MsgpackDocument._parse_state"), ("selective decoding", C + ": decode_property, decode_texts, decode_layer, commit_layers")],
  [("section table", "byte position and size of each section", C + ": MsgpackDocument")], ["accessor results"])

p("C13", "Tar collections return every document in order",
  "Writing any sequence of documents, plain or already encoded, to a tar collection in any compression mode, with or without a root "
  "directory, and reading it back yields exactly those documents in order. Members that are not files are skipped, and each document gets its own member name.",
  ["histories", "configurations"], "every write sequence up to a length x compression mode x root directory x document kind",
  "Tar collections are not tested.",
  [K], [("tar members", K + ": TarMsgpackWriter.write, TarMsgpackReader.__next__")], [], ["documents read", "member names"])

p("C14", "Index search finds exactly the matching documents",
  "Searching an index built over one or several collection files returns exactly the documents whose properties equal all "
  "given conditions, each once and per file in file order, fully decoded or lazily. This holds for any mix of block sizes, "
  "from any working directory relative to the index's base path, after saving and loading, "
  "in whatever order parallel workers finish, and while several searches are consumed interleaved.",
  ["inputs", "schedules", "configurations"], "every assignment of small property values to documents x block size x condition set; every worker completion order; every interleaving of two result iterators",
  "Indexes are not tested.",
  [K], [("property to document table", K + ": DocumentFileIndex.build"), ("block-wise retrieval", K + ": DocumentFileIndex.search"),
        ("several files, relative paths, worker pool", K + ": DocumentIndex, build_msgpack_directory_fileindex")],
  [], ["documents returned by search"])

p("C15", "Queries select exactly the nodes that satisfy the predicate",
  "Filtering a layer, list, node span or earlier query by any combination (and, or, not) of field comparisons, "
  "membership, presence, span and custom predicates returns exactly the nodes for which the combined condition is true, in collection "
  "order, and only they are members of the result. Values are compared by their own equality, whatever the type of the field. Field columns of any collection list the field of each node in order, unset as none; re-evaluating a query after edits reflects the edits.",
  ["inputs", "programs"], "every predicate expression up to a size over every small layer content, on every kind of collection, nested queries included",
  "One covered-by query on one document is tested.",
  [Q, M], [("predicates", Q), ("query evaluation", M + ": NodeCollectionQuery, NodeFieldCollection")], [], ["list(collection[predicate])", "column lists"])

p("C16", "Graph traversal visits every reachable node exactly once",
  "On any node graph, cycles, self-links and repeated links included, breadth-first and depth-first search emit exactly the reachable "
  "nodes that pass the filter, each once: breadth-first in order of and with the shortest distance from the start, depth-first in "
  "preorder. The leaves variant emits exactly the reachable nodes without outgoing links, and the children of a node over "
  "several fields are all targets of those fields of that node, in order.",
  ["inputs"], "every directed graph up to a number of nodes x start x filter x field kinds",
  "test_graph is empty.",
  [A], [("searches", A + ": bfs, dfs, dfs_leaves"), ("child functions", A + ": children_of")], [], ["emitted nodes"])

p("C17", "Grouping by span matches exactly the overlapping nodes",
  "For any groups and any layers of spans, each group with a span is returned once and receives exactly the nodes "
  "whose spans intersect it (or, with cover resolution, intersect it and lie inside it), each once. Zero-length spans intersect "
  "an equal position or a span that starts at or before and ends after them; nodes without a span are ignored, and empty "
  "groups are kept or left out as asked. Groups, and nodes within a group, come in text order, whatever their hash values.",
  ["inputs"], "every multiset of group and layer spans over a few offsets x resolution x options",
  "One layout of 18 spans is tested, with assertions on one of its two layers.",
  [A], [("sweep over sorted end points", A + ": group_by_span")], [], ["returned groups and members"])

p("C18", "Dominant-right resolution keeps the longest, rightmost segments",
  "The segments kept by dominant-right resolution are a non-overlapping subset of the input, given in text order: scanning from "
  "the left, the open segment is replaced by any overlapping one starting at or after its start that is at least as long, and what overlaps "
  "the winner up to its end is dropped. Of two overlapping segments the longer wins and on "
  "equal length the right one; a segment that overlaps no other is always kept.",
  ["inputs"], "every list of up to five segments over a few offsets, in every order",
  "One list of ten segments is tested.",
  [A], [("sweep over end points", A + ": dominant_right, dominant_right_span")], [], ["kept segments"])

p("C19", "Span translation maps every span through the mapping",
  "For any non-overlapping mapping between two texts, every span that starts and ends inside mapped intervals gets the target span running from the "
  "image of its first character to the image of its last one. Spans already translated are left "
  "alone, and a span with an end outside the mapping is refused rather than given a wrong target.",
  ["inputs"], "every mapping layout up to three intervals, in any layer order, x every set of spans over it",
  "One mapping with four spans is tested.",
  [A], [("sorted end point sweep", A + ": span_translate")], [], ["translated spans"])

p("C20", "Token alignment returns ordered spans that match the tokens",
  "Aligning any token sequence to any text, within any offset window and look-ahead, returns one span per token, in "
  "order, non-overlapping and inside the window, each either spelling its token or of zero length. A token is matched at its first "
  "occurrence after the previous match, or gets zero length at the end of the previous match if there is none; only when one of the "
  "given number of following tokens occurs strictly earlier is it passed over, with zero length, for the nearest-listed such token.",
  ["inputs"], "every text and token sequence up to a size over a small alphabet x every window x look-ahead",
  "Four token sequences are tested.",
  [A], [("forward search with look-ahead", A + ": sequence_to_textspans")], [], ["returned spans"])

p("C21", "A node span denotes the live nodes between its ends",
  "After any edit of the layer that keeps both ends attached and in order, a node span iterates, counts, lists and contains exactly the attached nodes from its "
  "left to its right end, both included, and its text runs from the start of the left node's span to the end of the right one's. Iterating "
  "between two nodes gives the same nodes whichever end is named first; ends that are out of order or from different layers are refused.",
  ["histories"], "every pair of ends x every short edit history of the layer, serialisation included",
  "One node span without gaps is tested.",
  [M], [("span over ids", M + ": NodeSpan, Node.iter_span, NodeLayerCollection.iter_nodespan")], [], ["list(span)", "len(span)", "span.text()"])

p("C22", "Schema changes keep schema, data and serialisation in step",
  "Under any sequence of adding and removing layers and fields, a new field's default appears on existing nodes if asked for and on "
  "nodes created later, and a removed field's values disappear unless told to stay. A layer that other layers' fields refer to cannot be removed, "
  "except by a cascade that removes exactly those fields; removal reports whether the layer existed. After every step that leaves no dangling declaration or data the "
  "document serialises to the same schema and data, otherwise encoding is refused.",
  ["histories"], "every sequence of schema operations and node additions up to a depth over three layer names and all reference kinds",
  "One test adds three fields; removal of fields and layers is not tested.",
  [M], [("layer removal and references", M + ": Document.remove_layer"), ("field changes", M + ": NodeLayerCollection.add_field/remove_field"),
        ("checks before encoding", M + ": Document.compile")],
  [("default values", "filled into new nodes", M + ": NodeLayerCollection")], ["schema", "node contents", "round trip"])

p("C23", "Node lists keep list behaviour and the fields of their nodes",
  "A node list built from any nodes, from one or several layers or not attached at all, indexes, slices, picks by index list and iterates like "
  "a plain list of those nodes, and refuses non-nodes. It exposes every field of the layers or nodes it came from, a field with numeric "
  "types of different width under the widest one and one with incompatible types refused, whatever the order of the nodes; its slices and index "
  "lists expose the same fields.",
  ["inputs"], "every list up to a length over nodes of layers with different field types and unattached nodes, every index, slice and index list",
  "Node lists are used in two tests with nodes of one layer.",
  [M], [("type merging", M + ": NodeList.__init__, DataType.cast_up"), ("indexing", M + ": NodeList.__getitem__")], [], ["list contents", "fieldtypes", "field columns"])

p("C24", "XML export is well-formed and complete",
  "Every document whose field names are identifiers exports to well-formed XML, in plain and verbose form, from which properties, texts, schema and every field value can be "
  "read back: strings with all characters XML allows, bytes in base64, references and spans by identifier or offset. "
  "Characters that XML cannot represent are replaced in field values, one for one, without affecting anything else.",
  ["inputs"], "every document of the round-trip universe plus strings over XML-special, control and non-BMP characters, x verbosity options",
  "XML export is not tested.",
  [C], [("XML encoders", C + ": XmlCodec")], [], ["parsed XML tree"])

p("C25", "Rendering shows the document and never injects markup",
  "Rendering any document, layer, node, list, node span, query, column or text as text or HTML, under any permitted presentation settings, "
  "neither fails nor changes the document. It shows every field and every node in order (beyond the "
  "row limit: the first and the last ones with a marker between), and no document content ever appears in HTML unescaped; the only links are those of wikidata and wikipedia URNs, each to the page its URN names.",
  ["inputs", "configurations"], "every small document with hostile strings x object kind x settings, and layers around the row limit",
  "Rendering is not tested.",
  [P, M], [("table rendering", P + ": Table"), ("escaping", P + ": Table.format_html"), ("representations", M + ": _table_repr_, _repr_html_, __str__")],
  [], ["rendered cells"])

p("C26", "Truncated encodings are refused, never half decoded",
  "Any proper prefix of an encoded document, and any input without the right header, is refused with an error by full decoding and "
  "by every way of decoding it lazily; no partial or altered document is ever returned, and asking for one section of a truncated encoding gives that "
  "section complete and exact or an error. The same holds for truncated JSON text.",
  ["crash_points", "inputs"], "every byte prefix of every document of a small universe covering all field types",
  "No test decodes damaged data.",
  [C], [("sequential unpacking", C + ": MsgpackCodec.decode, decode_layer"), ("header check", C + ": MsgpackDocument.__init__, MsgpackCodec.decode, JsonCodec.decode")],
  [], ["exception or document"])

p("C27", "Tabular export mirrors the layer",
  "Exporting a layer to a data frame gives one row per attached node, in layer order, with the value of each selected field (none where unset), "
  "spans as strings if asked for, and the node itself in the reference column if asked for, whatever edits came before.",
  ["histories", "configurations"], "every short edit history x field selection x options",
  "The export is not tested.",
  [M], [("column extraction", M + ": NodeLayerCollection.to_pandas")], [], ["data frame contents"])

p("C28", "The Java boundary streams agree with the Python ones",
  "A boundary-framed stream written by the Java implementation with any mix of single-byte and bulk writes and splits is byte for byte "
  "the one the Python implementation writes for the same data. Reading any such stream in Java with any mix of "
  "single-byte reads, bulk reads and skips returns the written bytes.",
  ["inputs", "histories"], "every sequence of write calls and read calls with sizes at and around segment edges, several segments deep",
  "The Java tests are not run here, and write in bulk only.",
  [JW, JR, K], [("marker insertion and removal", JW + ", " + JR)], [("written / read", "physical position", JW + ", " + JR)], ["raw stream bytes", "bytes read"])

p("C29", "Java layers hold exactly the nodes they were given, in order",
  "After any sequence of adding, bulk adding, removing (one, many, all but some, by equality), clearing, sorting and compacting, a Java layer holds exactly the "
  "nodes that a plain list under the same edits would hold, in the same order: iteration, size, membership, lookup by id, and node "
  "spans between any two attached nodes agree, removed nodes are detached and may be added again, a node is equal to itself only and keeps its hash code through every edit, and requests about nodes of other layers are refused without effect.",
  ["histories"], "all short edit histories over layers of 0 to 40 nodes, crossing every compaction rule",
  "The Java tests add nodes once and remove a few.",
  [J + "Layer.java", J + "NodeSpan.java"], [("id assignment, removal and compaction", J + "Layer.java: add, remove, removeAll, retainAll, compact, sort, clear"),
   ("span iteration", J + "NodeSpan.java: iterator, size")], [("id", "position in the list of nodes", J + "Layer.java")], ["node order, ids, membership"])

p("C30", "Java documents, their schema and their layers stay consistent",
  "After any sequence of adding and removing texts, layers and fields, with or without cascade, a Java document lists exactly the texts and layers it holds, its "
  "schema describes exactly those layers, and nodes keep the values of the fields that remain. Removing a text or layer that other layers have fields for is "
  "refused without effect, or with cascade removes just those fields. Validation and encoding refuse exactly the documents with "
  "a field that refers to a text or layer they do not have. Documents made from one schema do not influence each other.",
  ["histories"], "every sequence of structural edits up to a depth on documents that start empty, from a schema, and two from one schema",
  "The Java tests never remove a text, layer or field.",
  [J + "Document.java", J + "Schema.java", J + "Layer.java"], [("referring fields", J + "Document.java: remove, isReferenceTo, validateSchema"),
   ("schema copies", J + "Schema.java")], [("schema", "layer definitions of the document", J + "Document.java")], ["texts, layers, schema, validation, encoded document"])

p("C31", "Documents cross between Java and Python unharmed or are refused",
  "A document of any content that both implementations can hold (properties, texts, layers of every field type, spans anywhere in texts with "
  "characters beyond the basic plane, references, node spans, embedded documents) reads back equal in Java after Python encoded it, and in Python and Java after Java "
  "encoded it, whatever was removed from it before. Encoding does not alter a Java document, and a second encoding gives the same bytes. A Java "
  "document that refers to nodes, texts or layers it does not contain, or a Python document with a value Java cannot hold, is refused rather than altered.",
  ["inputs", "histories"], "every document of the bounded spaces, built around removed nodes or not; every history of span and reference edits and encodings",
  "The Java tests encode and decode one document, without node references, inside Java only.",
  [J + "MsgpackCodec.java", J + "DataTypes.java", J + "Text.java", J + "Offset.java", J + "Span.java", C],
  [("node references written as ids after renumbering", J + "MsgpackCodec.java: encode; " + J + "Layer.java: compile"),
   ("spans written as segments of code points", J + "Text.java: compile; " + J + "Offset.java")], [("offset id", "segment border in the encoded text", J + "Offset.java")],
  ["decoded documents", "encoded bytes"])

p("C32", "Document files are the same for Java and Python, read by any mix of calls",
  "A document file written by Java, plain or boundary framed, with any codec, block size, and order of writes and flushes, has the bytes the format defines "
  "(header, blocks, markers pointing at block starts), and after a flush or close contains everything written; Python and Java read the same documents from it. Java "
  "reads any such file, also one cut short, by any mix of next, block, skip and count calls as its blocks say: each document once, "
  "none lost, skipped exactly as asked; files with unknown headers or codecs are refused. The buffer and compression used hold exactly the bytes given, in any pieces.",
  ["histories", "inputs", "crash_points"], "every sequence of write calls and of read calls up to a depth over block layouts, codecs and framings; every truncation",
  "The Java tests write one kind of file and read it from start to end.",
  [JO + "DocumentStreamWriter.java", JO + "DocumentStreamBoundaryWriter.java", JO + "DocumentStreamReader.java", JO + "MsgpackDocumentStreamReader.java", K],
  [("block cache and flush", JO + "DocumentStreamWriter.java: write, flushblock, flush"), ("current block", JO + "DocumentStreamReader.java: readNextBlock, nextRaw, skip, count")],
  [("block", "rest of the block being read", JO + "DocumentStreamReader.java")], ["bytes of the file", "documents and counts returned"])

p("C33", "Threads that share a Java document reader get each block exactly once",
  "When several threads take blocks from one Java document reader, or skip blocks, each block of the file is given to or skipped by exactly one of them, whole and "
  "unmixed, no call fails or hangs, and what the threads got is what some order of their calls one after another would have given.",
  ["schedules"], "every schedule up to a number of preemptions of two or three threads taking and skipping blocks",
  "No test reads with more than one thread.",
  [JO + "DocumentStreamReader.java", JO + "MsgpackDocumentStreamReader.java"], [("locked reading of a block, decompression outside", JO + "DocumentStreamReader.java: readNextBlock, nextBlock, skipBlock")],
  [("unpacker", "position in the file, shared by the threads", JO + "DocumentStreamReader.java")], ["documents each thread gets"])

H = "java/hadoop/src/main/java/se/lth/cs/docria/hadoop/"
p("C34", "Java span algorithms agree with interval arithmetic",
  "Java grouping by span gives each group node exactly the nodes of each named layer whose span intersects its span (or lies within it, when covering is asked), in "
  "whichever way layers and fields are named, keeping or leaving out groups without nodes as asked, groups and nodes in text order. Dominant-right resolution keeps the segments, nodes, or node "
  "spans that the scan from longest to shortest keeps, ignoring nodes without a span, as the Python function does. Covers, intersects, equality, order and text of Java spans agree with their offsets; what lies outside of a text or span is refused.",
  ["inputs"], "all sequences of a few spans over small texts, gaps and missing spans included, and every way to call",
  "The Java tests run one grouping and one resolution.",
  [J + "algorithms/GroupBySpan.java", J + "algorithms/DominantRight.java", J + "Span.java"], [("grouping by interval search", J + "algorithms/GroupBySpan.java"),
   ("resolution of overlaps", J + "algorithms/DominantRight.java")], [("span", "pair of offsets", J + "Span.java")], ["groups and their members", "nodes kept"])

p("C35", "Java documents read section by section agree with the whole document",
  "A lazy Java document (MsgpackDocument) asked for properties, schema, texts, layers, encoded sections or the whole document, in any order and repeatedly, gives what "
  "decoding everything gives, also after the caller has edited an earlier answer, and its sections are the bytes of the encoded document that hold them. A document assembled from sections of others holds exactly those sections. Truncated documents and "
  "compressed data are refused, each time they are asked for what is missing, never hang and never give other content.",
  ["histories", "inputs", "crash_points"], "every order of questions up to a length over the bounded documents; every truncation of encodings and of compressed data",
  "The Java tests read one lazy document in one order.",
  [J + "MsgpackDocument.java", J + "MsgpackCodec.java", JO + "DeflateCodec.java"], [("sections found once and remembered", J + "MsgpackDocument.java"), ("decompression", JO + "DeflateCodec.java")],
  [("section offsets", "borders of the sections", J + "MsgpackDocument.java")], ["properties, schema, texts, layers, bytes"])

p("C36", "Java values and nodes convert, compare, print and are edited consistently",
  "Every Java value converts to other kinds, is visited, compared and hashed consistently with its type and content, and refuses conversions it does not have. A node builder "
  "accepts exactly the values of the type of a declared field, whether or not the field has a default. Nodes and node spans can be printed whatever was removed around them. Setting, "
  "replacing and removing fields of a node, generic or application class, behaves like a map, and iteration and encoding show those fields.",
  ["inputs", "histories"], "every value of a bounded set and every pair; every field type with every value; every set of removals; every short sequence of field edits",
  "The Java tests create valid values and read them as what they are.",
  [J + "Value.java", J + "values/", J + "Node.java", J + "NodeSpan.java"], [("conversions", J + "values/"), ("fields of generic and application nodes", J + "Node.java")],
  [("fields", "map of fields", J + "Node.java")], ["converted values", "strings", "fields"])

p("C37", "Hadoop jobs read, carry and write documents unharmed",
  "A DocumentWritable always holds the document it was last given, with the changes made to it since, however it is written, read, copied, serialised or asked for its document or bytes in between. "
  "A job's output file, after close, holds every document written once, in order, in blocks of the configured size and codec. "
  "The input format gives each document of a file to exactly one split, whole, however the file is split and however short the storage reads. Threads that share a "
  "writer get each of their documents in the file once.",
  ["histories", "inputs", "schedules"], "every sequence of uses of a writable; every small file, block size, split size and read length; every schedule up to a number of preemptions",
  "The Hadoop module's one test writes and reads one file.",
  [H + "DocumentWritable.java", H + "DocriaInputFormat.java", H + "DocriaOutputFormat.java", H + "DocriaWriter.java"], [("document or bytes, whichever is current", H + "DocumentWritable.java"),
   ("records of a split", H + "DocriaInputFormat.java"), ("writer shared by threads", H + "DocriaWriter.java")], [("blob, document", "the current document", H + "DocumentWritable.java")], ["documents", "bytes of the file"])

p("C38", "Collection files name their compression and are read with it or refused",
  "After any sequence of registering, replacing and removing compression codecs, a codec name finds exactly the codec registered under it last, registering a taken name "
  "and removing an absent one are refused without effect. A file names the codec that wrote it (its alias if it has one); it is read with the codec registered under that name, refused when there is none; readers and writers already open keep theirs. A file whose "
  "magic, codec name or mode in the header is not known is refused when opened, by every way of opening.",
  ["histories", "inputs"], "every sequence of registry and file operations up to a depth; every header with one part changed",
  "The tests use the default codec.",
  [K], [("registry of codecs", K + ": register_codec, unregister_codec, get_codec"), ("header", K + ": MsgpackDocumentReader, MsgpackDocumentWriter")],
  [("codec registry", "codecs by name", K)], ["codecs found", "documents read", "refusals"])

p("C39", "A document read back lives on like the original",
  "Whatever edits came before, a document that was read back (from bytes, a stream, lazily, JSON, pickle, copy or deep copy) and from then on edited in the same way as the document it was "
  "written from stays indistinguishable from it: the same operations succeed, are refused and return the same, properties, texts, schemas, nodes, references, spans and gaps-free order look "
  "alike, queries and node spans answer alike, and both encode to equal documents. The two never influence each other, and neither do several documents taken from the same bytes, "
  "lazy document, JSON object, pickle or document.",
  ["histories"], "every edit history up to a depth, with the reading back at any point and in any way",
  "The tests compare documents right after decoding.",
  [M, C], [("decoding", C + ": MsgpackCodec.decode, JsonCodec.decode, MsgpackDocument.document"), ("copying", M + ": Document.__reduce__"), ("editing", M + ": NodeLayerCollection, Document")],
  [("twin documents", "original and document read back", M)], ["results and refusals", "documents observed", "bytes encoded"])

p("C40", "An iteration in progress survives encoding and edits",
  "An iteration over a layer, a column of it or a node span that was opened before the document is encoded, copied or printed, or before nodes are removed, retained, added, compacted or sorted, "
  "goes on to give every node that stays attached, exactly once and in the order at its opening, and nothing else but nodes that were attached again or added meanwhile: never a gap and never a node that was removed "
  "before its turn. In Java an iteration may be refused with an exception once nodes were added, but it is never silently wrong. So loops that edit the layer they go over visit every node.",
  ["histories", "schedules"], "every interleaving of iteration steps, edits and encodings up to a length, for layers around automatic compaction; every regular loop of edits",
  "The tests neither edit nor encode a layer while it is iterated.",
  [M, J + "Layer.java", J + "NodeSpan.java"], [("iteration", M + ": NodeLayerCollection.__iter__, iter_nodespan"), ("compaction", M + ": NodeLayerCollection.compact, retain, remove, sort"),
   ("Java iteration", J + "Layer.java: iterator, stream, nodespan, compact, sort")], [("open iterations", "nodes still to be given", M)], ["nodes given by an iteration"])

p("C41", "Threads that work on their own objects do not disturb each other",
  "Threads that each work on documents, readers, writers and streams of their own never influence each other, wherever one is interrupted: building, editing, sorting, querying, grouping, rendering, "
  "encoding and decoding (MessagePack, JSON, XML, lazily, pickle) and writing and reading collections (also framed) give exactly the results they give alone. So do threads that read, query, render and encode "
  "the same Python document while nobody edits it and no removed node is left to be compacted away. The same holds for the Java codec, lazy document, readers and writers on objects of their own.",
  ["schedules"], "every point at which one operation can be interrupted by another, for all pairs of operations; two switching points for some",
  "The tests use one thread.",
  [M, C, K, P, J + "MsgpackCodec.java"], [("Java codec and io package", J + "MsgpackCodec.java: encode, decode"), ("encoding", C + ": MsgpackCodec, JsonCodec, XmlCodec, Codec"), ("collections", K + ": MsgpackDocumentReader, MsgpackDocumentWriter, _BoundaryReader, _BoundaryWriter"),
   ("model", M + ": Document, NodeLayerCollection, Text"), ("rendering", P)], [("threads", "module and class level state", C)], ["results of operations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        f.write(json.dumps(q) + "\n")
print(len(props), "properties")
