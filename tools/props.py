import json
R="src/rust/fcb_core/src/"
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs or [],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

p("L01","Every reader finds each file section exactly where the writer put it",
 "For every file the writer can produce, the sequential, seekable and HTTP readers take the start of the spatial index, of every attribute index and of the feature section to be exactly the byte positions at which the writer emitted them. This holds for any header length, any feature count and whichever of the spatial and attribute indexes are present or absent.",
 ["inputs","configurations"],"all header lengths, feature counts, node sizes, branching factors, sets of attribute indexes, presence or absence of the spatial index, and all reader entry points",
 "The tests read a few sample files through a few entry points with one node size and one index set; a reader that miscounts one section under another configuration still passes.",
 [R+"writer/mod.rs",R+"reader/mod.rs",R+"reader/attr_query.rs",R+"http_reader/mod.rs",R+"packed_rtree/mod.rs"],
 [("section order on write","writer/mod.rs FcbWriter::write"),("index size computation","reader/mod.rs rtree_index_size / attr_index_size, packed_rtree index_size"),("feature base for each query kind","reader/mod.rs, attr_query.rs, http_reader/mod.rs")],
 ["FcbReader::select_*","HttpFcbReader::select_*"])

p("L02","Index entries address the feature they were built from",
 "Every position stored for a feature in the spatial index and in every attribute index is the byte offset, within the feature section, of the first byte of that same feature as it is finally emitted. Reordering the features for the spatial index never leaves an index entry pointing at another feature.",
 ["inputs","configurations"],"all feature sequences, feature sizes and index configurations",
 "Tests query a handful of features in one file; an offset that is wrong only for some feature order or only for one index kind is not exercised.",
 [R+"writer/mod.rs",R+"writer/attr_index.rs"],
 [("offset bookkeeping while features are serialised, then recomputation after the spatial sort","writer/mod.rs add_feature / write"),("attribute index built from the re-based offsets","writer/attr_index.rs build_attribute_index_generic")],
 ["bytes of the produced file"],[("feature offsets","position and size of each serialised feature in the temporary file","writer/mod.rs feat_offsets")])

p("L03","The header describes the file that was actually written",
 "In every file the writer produces, the header's feature count is the number of features in the file, it advertises a spatial index exactly when one was written and with the node size used to build it, and it lists for each attribute index exactly the emitted length, item count and branching factor.",
 ["inputs","configurations"],"all writer options and feature sequences",
 "Tests always pass consistent options for small samples; the guarantee is about every combination of options and content.",
 [R+"writer/mod.rs",R+"writer/header_writer.rs",R+"writer/attr_index.rs",R+"writer/serializer.rs"],
 [("header finished last, from what was written","writer/mod.rs FcbWriter::write, header_writer.rs finish_to_header"),("attribute index metadata","attr_index.rs AttributeIndexInfo")],
 ["Header::features_count / index_node_size / attribute_index"])

p("B01","Box queries use one exact closed-interval overlap test everywhere",
 "A spatial query keeps an index entry exactly when the entry's box and the query box share at least one point in both dimensions (touching edges count), and a point query exactly when the entry contains the point. The local in-memory search, the seekable streaming search and the HTTP search all decide this identically for every pair of boxes.",
 ["inputs"],"all query boxes and points, all entry boxes, all three searches",
 "The tests run a few boxes against sample trees; a wrong comparison on one axis or one edge shows only for boxes that touch or miss in a specific way.",
 [R+"packed_rtree/mod.rs"],
 [("overlap predicate","packed_rtree/mod.rs NodeItem::intersects"),("uses in the searches","packed_rtree/mod.rs search / stream_search / http_stream_search")],
 ["PackedRTree::search, select_query, select_query_seq, HttpFcbReader::select_query"])

p("B02","A node's box in the spatial index covers everything beneath it",
 "Every parent entry in the spatial index has a box that contains the boxes of all its children, and every leaf box contains all vertices of its feature in real-world coordinates. Therefore no feature is unreachable through the tree.",
 ["inputs","configurations"],"all feature geometries, transforms, feature counts and node sizes",
 "Sample trees are small and regular; a box that fails to grow on one side in one situation is only visible for particular data.",
 [R+"packed_rtree/mod.rs",R+"writer/feature_writer.rs",R+"writer/mod.rs"],
 [("box growth","packed_rtree/mod.rs NodeItem::expand / expand_xy / generate_nodes / calc_extent"),("feature box with the header transform","writer/feature_writer.rs, writer/mod.rs")],
 ["spatial index section of the file"])

p("B03","Spatial traversal never skips or over-runs a candidate node",
 "Starting at the root, each of the spatial searches inspects all entries of every node whose parent entry matched, no entry outside that node's level, and reports for each matching leaf entry its stored offset. The node and level boundaries it uses are those of the builder for the same item count and node size.",
 ["inputs","configurations"],"all item counts, node sizes and queries, in all three searches",
 "Level boundaries vary with item count and node size; tests exercise two or three counts.",
 [R+"packed_rtree/mod.rs"],
 [("level bounds","packed_rtree/mod.rs generate_level_bounds / index_size"),("traversal loops","packed_rtree/mod.rs search / stream_search / http_stream_search")],
 ["PackedRTree::search and its streaming and HTTP counterparts"])

p("A01","The six comparison operators select exactly the values they name",
 "For every indexed column and every comparison value, equals, not-equals, less, less-or-equal, greater and greater-or-equal select exactly the index entries whose key stands in that relation to the value. In-memory, streaming and HTTP indexes and all key types give the same answer.",
 ["inputs"],"all operators, key types, key values and index implementations",
 "Tests try some operators on some key types in one implementation; the operator tables are written out separately per implementation.",
 [R+"static_btree/query/memory.rs",R+"static_btree/query/stream.rs",R+"static_btree/query/http.rs",R+"static_btree/query/types.rs"],
 [("operator dispatch","query/memory.rs, query/stream.rs, query/http.rs macros implementing the typed search traits"),("one-sided ranges use the key type's extreme values","find_range in the three implementations")],
 ["select_attr_query, select_attr_query_seq, HttpFcbReader::select_attr_query"])

p("A02","A multi-condition query returns the intersection of its conditions",
 "A query with several attribute conditions returns exactly the features that satisfy every one of them, with no condition ignored, and a condition on a column that has no index is an error rather than an empty or complete result. All index implementations behave the same.",
 ["inputs"],"all condition lists over all indexed columns, in all implementations",
 "Tests use one or two conditions with non-empty results; a condition dropped or a union taken in one implementation is invisible for most data.",
 [R+"static_btree/query/memory.rs",R+"static_btree/query/stream.rs",R+"static_btree/query/http.rs",R+"reader/attr_query.rs"],
 [("intersection of per-condition results","query() of the multi-index types"),("conversion of the user's conditions","reader/attr_query.rs build_query")],
 ["select_attr_query and its sequential and HTTP counterparts"])

p("A03","Index lookup finds every stored key, including duplicates and extremes",
 "An exact lookup returns every offset stored under that key and a range lookup every offset whose key lies in the closed range, for any number of keys, any branching factor, any number of duplicates and for the smallest and largest representable keys, without panicking. The in-memory, streaming and HTTP traversals descend identically.",
 ["inputs","configurations"],"all key multisets, branching factors and search keys in the three traversals",
 "Tests build small trees of integers; descent decisions at node ends, duplicate groups and extreme keys depend on sizes and values that samples do not reach.",
 [R+"static_btree/stree.rs",R+"static_btree/payload.rs"],
 [("descent rules","stree.rs find_exact / find_partition / find_range and stream_/http_ counterparts"),("duplicate groups behind a tagged pointer","stree.rs build, payload.rs PayloadEntry")],
 ["Stree::find_exact / find_range and counterparts"],[("tag bit","top bit of a leaf offset marks a pointer to a duplicate group","stree.rs PAYLOAD_TAG / PAYLOAD_MASK")])

p("A04","Index keys survive storage and keep their order",
 "For every key type, the bytes written for a key have the declared fixed width and both ways of decoding them reproduce the same key, and ordering of keys is the ordering of the attribute values. The type's minimum and maximum used for one-sided ranges bound every key that can be stored.",
 ["inputs"],"all values of all key types",
 "Tests round-trip a few values per type; width, byte order and extreme values are properties of every value.",
 [R+"static_btree/key.rs",R+"static_btree/entry.rs",R+"static_btree/payload.rs"],
 [("per-type serialisation","key.rs impl Key"),("extremes","key.rs impl Min / Max"),("entry layout","entry.rs, payload.rs")],
 ["Key::write_to / read_from / from_bytes"])

p("A05","Every index is opened with the key type it was built with",
 "For every column type, the key type with which the writer builds the column's index is the key type with which the in-memory, streaming and HTTP readers open it, so no index is read with the wrong entry width or ordering. A column the writer can index is one every reader can query, and a file containing such an index stays queryable on its other columns.",
 ["inputs","configurations"],"all column types, in the writer and the three readers",
 "Tests index strings, doubles and dates only; the tables are repeated by hand in four places.",
 [R+"writer/attr_index.rs",R+"writer/attribute.rs",R+"reader/attr_query.rs",R+"http_reader/mod.rs"],
 [("writer's key type per column type","writer/attr_index.rs build_attribute_index_for_attr"),("readers' tables","reader/attr_query.rs add_indices_to_multi_*_index, http_reader add_indices_to_multi_http_index")],
 ["select_attr_query on an indexed column of each type"])

p("A06","An attribute index holds each feature's own values and no others",
 "The index of an attribute contains, for every feature, one entry per object carrying a value for that attribute, keyed by exactly that value and pointing to that feature. Objects lacking the attribute, or having it null, contribute no entry.",
 ["inputs"],"all features, objects and attribute values",
 "Tests check counts for a few queries on data without nulls.",
 [R+"writer/attribute.rs",R+"writer/attr_index.rs",R+"writer/feature_writer.rs",R+"writer/mod.rs"],
 [("entries extracted from a feature's attributes","writer/attribute.rs attribute_to_index_entries"),("entries filtered per column and keyed","writer/attr_index.rs")],
 ["results of attribute queries"])

p("A07","Consecutive index lookups on one stream do not disturb each other",
 "After any successful lookup in a streamed attribute index the stream is back where the lookup began, and each index of a multi-condition query is searched at its own position. So the answer to a condition never depends on which conditions ran before it or on whether they matched anything.",
 ["histories","inputs"],"all sequences of conditions, including ones with empty results",
 "Tests run short condition lists whose partial results are non-empty.",
 [R+"static_btree/query/stream.rs",R+"static_btree/stree.rs",R+"reader/mod.rs",R+"reader/attr_query.rs"],
 [("save and restore of the stream position","query/stream.rs typed index macro and query()"),("index offsets accumulated over all indexes","reader/attr_query.rs")],
 ["StreamMultiIndex::query, select_attr_query"])

p("V01","Every attribute value comes back with the same type and value",
 "For every column type the writer can assign to an attribute, the number of bytes it emits for a value equals the number the reader consumes, both use the same byte order and signedness, and the decoded value is the one encoded. No column type the writer can emit makes the reader fail or panic.",
 ["inputs"],"all column types and values, for object, semantic-surface and root attributes",
 "Tests round-trip a few types; a width mismatch in one type corrupts all later attributes of the object, but only for data with that type.",
 [R+"writer/attribute.rs",R+"reader/deserializer.rs"],
 [("encoder per column type","writer/attribute.rs encode_attributes_with_schema / attr_size"),("decoder per column type","reader/deserializer.rs decode_attributes")],
 ["attributes of decoded objects"])

p("V02","Each attribute value is stored under its own column",
 "Every encoded attribute value is preceded by the index of the column that carries its name and type in the schema emitted in the header, column indexes are unique, and the reader resolves a value's name and type through that same index. A null or missing attribute emits nothing and never shifts its neighbours.",
 ["inputs"],"all schemas and attribute sets",
 "Tests use schemas whose order coincides with insertion order.",
 [R+"writer/attribute.rs",R+"writer/serializer.rs",R+"reader/deserializer.rs"],
 [("schema index allocation","writer/attribute.rs AttributeSchemaMethods::add_attributes"),("columns emitted from the schema","writer/serializer.rs to_columns"),("lookup by column index","reader/deserializer.rs decode_attributes")],
 ["attributes of decoded objects"])

p("V03","Enumerated types survive the round trip, extensions included",
 "Every standard city object type, semantic surface type, geometry type, texture format, wrap mode and texture type decodes to the name it was encoded from, and no two names share a code. A name outside the standard set that follows the extension convention is carried verbatim.",
 ["inputs"],"all names the format knows and all extension names",
 "The sample data contain a handful of types; each table row is independent.",
 [R+"writer/serializer.rs",R+"writer/geom_encoder.rs",R+"reader/deserializer.rs",R+"reader/geom_decoder.rs"],
 [("encode tables","serializer.rs to_co_type, to_semantic_surface_type, geometry and texture conversions"),("decode tables","deserializer.rs to_cj_co_type, geom_decoder.rs")],
 ["decoded types"])

p("V04","Dataset metadata read back equals the metadata written",
 "Each metadata item of a dataset that the format stores (version, transform, title, identifier, reference date, reference system, extent, contact and address items, extensions, geometry templates, root attributes) is taken from its own input item and restored to that same item when the file is read. Nothing is stored under another item's name, altered or dropped on the way.",
 ["inputs"],"all combinations of present and absent metadata items",
 "The sample datasets carry few items; swapped or dropped ones are invisible when absent or equal.",
 [R+"writer/serializer.rs",R+"reader/deserializer.rs"],
 [("header construction","writer/serializer.rs to_fcb_header"),("header decoding","reader/deserializer.rs to_cj_metadata")],
 ["CityJSON metadata object returned by the reader"])

p("V05","Appearance read back equals the appearance written",
 "Each property of every material and texture of a feature, its texture coordinates and its default themes are taken from their own input item and restored to the same item. None is swapped, altered or dropped, and absent stays absent.",
 ["inputs"],"all materials, textures and combinations of optional properties",
 "Sample data use few material and texture properties.",
 [R+"writer/serializer.rs",R+"reader/deserializer.rs"],
 [("appearance encoding","writer/serializer.rs to_fcb_appearance and helpers"),("appearance decoding","reader/deserializer.rs")],
 ["appearance of decoded features"])

p("V06","City objects read back equal the city objects written",
 "For every feature, its id, objects and vertices, and for each object its type, extent, attributes, geometries, children, children roles and parents are taken from their own input item and restored to the same item. None is swapped, conditionally dropped or altered.",
 ["inputs"],"all features and objects and all combinations of optional members",
 "Sample data lack several members (roles, extents, groups), so losing them passes.",
 [R+"writer/serializer.rs",R+"reader/deserializer.rs"],
 [("feature and object encoding","writer/serializer.rs to_fcb_city_feature / to_city_object"),("decoding","reader/deserializer.rs to_cj_feature")],
 ["decoded CityJSONFeature"])

p("V07","Geometry parts travel through their own channel",
 "For every geometry, the level of detail, the solid, shell, surface, ring and vertex-index counts, the semantic surfaces with their parent, children and attributes, and the material and texture mappings are stored in and read from the same slot. An absent (null) semantic, material or texture reference is stored as a reserved marker and read back as absent, in every nesting form.",
 ["inputs"],"all geometry types and all presence patterns of semantics, materials, textures and nulls",
 "Sample geometries exercise few combinations of types with nulls and mappings.",
 [R+"writer/geom_encoder.rs",R+"writer/serializer.rs",R+"reader/geom_decoder.rs",R+"reader/deserializer.rs"],
 [("encoder","writer/geom_encoder.rs encode, writer/serializer.rs to_geometry"),("decoder","reader/geom_decoder.rs, reader/deserializer.rs")],
 ["decoded geometries"],[("null marker","all-ones value standing for an absent reference","geom_encoder.rs / geom_decoder.rs")])

p("V08","Coordinates and transforms are kept component by component",
 "Each vertex, template vertex, texture coordinate, extent corner, scale, translation and transformation-matrix component is stored in its own component without loss of precision and read back into the same component. No coordinate is silently wrapped, rounded or exchanged with another axis.",
 ["inputs"],"all coordinate values and components",
 "Tests compare a few values; exchanged equal components or silently narrowed large ones pass.",
 [R+"writer/serializer.rs",R+"reader/deserializer.rs",R+"reader/geom_decoder.rs"],
 [("component-wise construction","writer/serializer.rs to_vertices, to_transform, to_geographical_extent, ..."),("component-wise decoding","reader/deserializer.rs")],
 ["decoded coordinates"])

p("S01","Nothing is parsed before the file is recognised as this format",
 "Every way of opening a file or URL first checks the format's signature and its supported major version and fails with an error on a mismatch, before any size or content read from the file is used.",
 ["inputs","programs"],"all inputs and all opening entry points",
 "Tests open valid files only through some entry points.",
 [R+"lib.rs",R+"reader/mod.rs",R+"http_reader/mod.rs"],
 [("signature check","lib.rs check_magic_bytes, called in reader/mod.rs and http_reader/mod.rs open paths")],
 ["FcbReader::open, HttpFcbReader::open"])

p("S02","Sizes read from the file are bounded before they drive allocation",
 "The header length found in a file is checked against the format's minimum and maximum before memory for it is allocated or the header is read, on every opening path. A file claiming a larger header is rejected with an error.",
 ["inputs","programs"],"all length fields and all opening entry points",
 "No test feeds an oversized or undersized length.",
 [R+"reader/mod.rs",R+"http_reader/mod.rs",R+"const_vars.rs"],
 [("header size gate","reader/mod.rs read_header, http_reader/mod.rs _open")],
 ["FcbReader::open, HttpFcbReader::open"])

p("S03","Unverified bytes are never interpreted unless the caller opted out",
 "On every path through the verifying entry points, file or network bytes pass the structural verifier, and its failure is returned as an error, before any accessor interprets them as a header or a feature. Only the explicitly unchecked opening function and what follows from it may skip this.",
 ["inputs","programs"],"all byte contents and all paths from an opening call to an accessor",
 "Tests use well-formed files; skipping verification is undefined behaviour only for malformed ones.",
 [R+"reader/mod.rs",R+"reader/city_buffer.rs",R+"http_reader/mod.rs",R+"fb/header_generated.rs",R+"fb/feature_generated.rs"],
 [("header verification at open","reader/mod.rs read_header, http_reader/mod.rs _open"),("feature verification when iterating","reader/mod.rs FeatureIter, http_reader AsyncFeatureIter::next"),("unchecked accessors","reader/city_buffer.rs")],
 ["FcbReader::open / next"])

p("E01","No I/O, decoding or index error is swallowed",
 "Whenever an operation of the library or the command line tool that can fail does fail, the failure reaches the caller as an error. No failure is discarded, replaced by a default value or turned into a normal end of data.",
 ["fault_sequences","inputs"],"all failing reads, writes, seeks, conversions and index operations at any point",
 "Tests run on healthy files and streams, where no error ever occurs.",
 [R+"writer/mod.rs",R+"writer/attr_index.rs",R+"reader/mod.rs",R+"static_btree/key.rs",R+"static_btree/stree.rs","src/rust/cli/src/main.rs"],
 [("error propagation","all functions returning a fallible result")],
 ["return values of the public API, exit status of the tool"])

p("E02","Iteration ends only after all selected features were delivered",
 "Reading a file delivers every selected feature exactly once, in file order, and then ends; a file cut short inside a feature is reported as an error, never as a shorter result. This holds for full scans, box queries and attribute queries, sequential, seekable or over HTTP.",
 ["inputs","fault_sequences"],"all files, truncation points and selections",
 "Tests iterate over intact files, mostly to a known count.",
 [R+"reader/mod.rs",R+"http_reader/mod.rs","src/rust/cli/src/main.rs"],
 [("iterator state and remaining-items bookkeeping","reader/mod.rs FeatureIter::advance / read_feature, http_reader FeatureSelection"),("conversion loop of the tool","cli/src/main.rs deserialize")],
 ["sequence of features delivered by the iterators"])

p("H01","Remote index results are complete and addressed like local ones",
 "For every remote attribute or box query, each matching entry leads to a request for that feature at the position a local reader would use, and every member of a duplicate group is included. A duplicate group that cannot be fetched or decoded is an error, not a smaller result.",
 ["inputs","fault_sequences"],"all remote queries, duplicate group sizes and failing or short responses",
 "The HTTP tests need the network and are not run; nothing exercises the remote index code.",
 [R+"static_btree/stree.rs",R+"static_btree/query/http.rs",R+"http_reader/mod.rs",R+"packed_rtree/mod.rs"],
 [("payload resolution","stree.rs batch_resolve_payloads, prefetch_payload, read_http_payload_data"),("feature ranges","packed_rtree http_stream_search, http_reader next_buffer")],
 ["HttpFcbReader::select_attr_query / select_query"])

p("C01","Standard output carries only the requested data",
 "When the tool converts to standard output, exactly the converted document is written there; every progress or diagnostic message goes elsewhere. No library call made on the way prints to standard output.",
 ["inputs","configurations"],"all inputs and options of the conversion commands",
 "No test runs the tool with standard output as the destination.",
 ["src/rust/cli/src/main.rs",R+"writer/attribute.rs",R+"writer/attr_index.rs",R+"reader/mod.rs"],
 [("output selection","cli/src/main.rs get_writer"),("message output","all printing calls reachable from the conversion commands")],
 ["standard output of the tool"])

p("C02","A conversion that reports success has written everything",
 "When a conversion command or the library's file writer returns success, every feature of the input selection and every buffered byte has been handed to the destination, with no write or flush failure ignored. Attributes of any feature in the input are present in the output schema.",
 ["inputs","fault_sequences"],"all inputs, selections and failing writes",
 "Tests use small inputs and never a failing or full destination.",
 ["src/rust/cli/src/main.rs",R+"writer/mod.rs"],
 [("conversion loops","cli/src/main.rs serialize / deserialize"),("final copy and flush","writer/mod.rs FcbWriter::write")],
 ["exit status and output file"])

p("C03","The tool's box filter and extent follow the coordinates exactly",
 "A feature passes the conversion's box filter exactly when one of its real-world vertices lies in the closed box, and the extent stored when requested is exactly the component-wise minimum and maximum over all real-world vertices of the selected features.",
 ["inputs"],"all features, transforms and boxes",
 "No test exercises these functions.",
 ["src/rust/cli/src/main.rs"],
 [("filter","cli/src/main.rs feature_intersects_bbox / point_in_bbox_2d"),("extent","cli/src/main.rs calculate_geospatial_extent")],
 ["selected features and header extent"])

p("G01","Nested boundary arrays are restored to the identical nesting",
 "For every geometry, the decoded boundary, semantics, material and texture arrays have exactly the nesting and element order of the input, including levels with a single element and empty levels.",
 ["inputs"],"all nested arrays of all geometry types",
 "Tests round-trip a few shapes per type.",
 [R+"writer/geom_encoder.rs",R+"reader/geom_decoder.rs"],
 [("flattening","geom_encoder.rs encode"),("rebuilding","geom_decoder.rs decode")],
 ["decoded geometries"])

p("G02","Malformed but verified content never crashes the reader",
 "For every byte string that passes structural verification, decoding a header or feature and running a query ends in a value or an error and never in a panic or unbounded allocation.",
 ["inputs"],"all byte strings accepted by the verifier",
 "No test decodes adversarial content.",
 [R+"reader/deserializer.rs",R+"reader/geom_decoder.rs",R+"static_btree/stree.rs",R+"packed_rtree/mod.rs"],
 [("decoding of attribute bytes, counts and offsets","reader/deserializer.rs, geom_decoder.rs, stree.rs")],
 ["to_cj_feature, select_*"])

p("G03","Spatial ordering keeps neighbouring features close in the file",
 "Features are emitted in the order of the space-filling curve over the dataset's extent, so that a small box query touches few separate byte ranges.",
 ["inputs"],"all feature sets",
 "Tests check membership, not locality.",
 [R+"packed_rtree/mod.rs",R+"writer/mod.rs"],
 [("curve order","packed_rtree/mod.rs hilbert / hilbert_sort")],
 ["order of features in the file"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P), [ (d['id'],len(d['title'])) for d in P if len(d['title'])>80])
