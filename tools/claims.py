"""what is claimed, by which technique, with which assurance"""
BASE = (" Decided on the MIR that rustc produced from the current tree; trusts rustc's MIR, the extractor and the stated models of std/byteorder/flatbuffers calls."
        " Shapes the rule does not recognise are reported as undecided in the evidence and claim nothing.")
CLAIMS = {
    "B01": ("value-flow analysis of MIR: decision diagrams of the overlap tests evaluated over all orderings of the box coordinates",
            "Every ordering class of the eight coordinates is enumerated for each search and primitive, so the decision is exact for all finite boxes." + BASE),
    "B02": ("value-flow analysis of MIR: box growth, empty box, parent construction and leaf construction rules",
            "Per-construct rules on the box algebra; NaN coordinates are out of scope." + BASE),
    "B03": ("value-flow analysis of MIR: symbolic linear forms of node ranges, level guards and reported offsets of each traversal, entry codec and caller arguments",
            "Symbolic in item count and node size." + BASE),
    "S01": ("value-flow analysis of MIR: on every opening path the signature test, evaluated over all classes of signatures, dominates every use of later bytes",
            "All opening entry points of the library and the tool; the accepted set of signatures is decided by evaluating the test over each byte position." + BASE),
    "S02": ("value-flow analysis of MIR: guard of every header allocation or header read, evaluated at and around the format's limits",
            "The guard is evaluated at the boundary values of the announced length." + BASE),
    "S03": ("value-flow analysis of MIR: verification dominates interpretation; generated verifiers checked field by field against the generated accessors",
            "Every accessor slot is verified with the type and requiredness the accessor assumes; every stored header or feature buffer passed the verifier." + BASE),
    "E01": ("forward dataflow of every Result value in MIR: each error reaches the caller, a report or a documented test of form",
            "Every call that returns a Result in the library and the tool is one obligation. Known findings are listed in known_findings.json." + BASE),
    "V01": ("value-flow analysis of MIR: per column type, the encoder's byte expression composed with the decoder's, advance against encoded width, type table of the schema",
            "Each column type is one case of writer and reader; composition is decided on the symbolic byte terms, schema type per JSON value class. Known findings are listed in known_findings.json." + BASE),
    "V02": ("value-flow analysis of MIR: prefix, lookup, allocation and slot rules on the column index, absent values emit nothing",
            "Writer and reader are followed for every column type and for absent, null and unknown names." + BASE),
    "V03": ("composition of reader and writer value terms taken from MIR: each name and code of the enumerated types is followed through both",
            "Standard names and the extension convention; names outside the standard set without a plus sign are not covered." + BASE),
    "V04": ("composition of reader and writer value terms taken from MIR: each metadata item of the model matched against its own input item in every case of the diagram",
            "Root attributes outside the model and extension content are out of scope; known findings are listed in known_findings.json." + BASE),
    "V05": ("composition of reader and writer value terms taken from MIR: each appearance item matched against its own input item in every case of the diagram",
            "Empty material and texture maps are taken to equal absent ones." + BASE),
    "V06": ("composition of reader and writer value terms taken from MIR: each item of feature and city object matched against its own input item in every case of the diagram",
            "Empty geometry lists are taken to equal absent ones; the order between instances and other geometries of one object is not covered." + BASE),
    "V07": ("composition of reader and writer value terms taken from MIR: each geometry part matched against its own slot; marker, level and cursor rules on the recursive encoders and decoders",
            "Assumes valid instance and template geometries; the nesting that results for degenerate shapes is G01." + BASE),
    "V08": ("composition of reader and writer value terms taken from MIR: each coordinate component matched against its own component, narrowing conversions reported",
            "Component by component for vertices, templates, texture coordinates, extents, transform and matrices." + BASE),
    "L01": ("value-flow analysis of MIR: symbolic byte position of every reader at every section start, compared with the writer's emission order in six configurations of present and absent sections",
            "Positions are linear expressions over header length, index sizes and listed lengths; sequential, seekable and HTTP entry points." + BASE),
    "L02": ("value-flow analysis of MIR: places recorded per feature, order of the feature loop against the sorted boxes, place kept in index entries",
            "Bytes, order and place of every feature in the emitted section; spatial and attribute entries." + BASE),
    "L03": ("value-flow analysis of MIR: header fields against what was written in each configuration, listed indexes against emitted ones, checked narrowing",
            "Feature count, node size, attribute index list and each field of it." + BASE),
    "A01": ("value-flow analysis of MIR: each operator's answer evaluated as a set over the three key relations below, equal and above",
            "Every implementation (45) and operator (6) is one obligation; removal of matches is required to be one entry for one entry. The tree searches themselves are the subject of A03." + BASE),
    "A02": ("value-flow analysis of MIR: which conditions are evaluated, in which index, and how their results restrict the answer",
            "Three query functions: coverage of the condition list, own index per condition, intersection, missing index, empty answer." + BASE),
    "A03": ("value-flow analysis of MIR: the step of each of the six walks, the scans of ranges, the levels, the grouping and the filling of inner nodes are extracted as recurrences and decision diagrams and evaluated over every position a key can have among the entries of a node",
            "All three families of searches (memory, stream, HTTP); trees of 5 to 17 shapes, all node kinds, single offsets and groups. Steps, not runs: each step is judged under the induction hypothesis of the tree's shape. Known findings are listed in known_findings.json." + BASE),
    "A04": ("value-flow analysis of MIR: bytes written per key type composed with both decoders, declared width, bounds and comparison of the key types evaluated over below / equal / above",
            "Every type with a Key implementation, the tree's entry record, the record of a duplicate group, the key made of a text." + BASE),
    "A05": ("value-flow analysis of MIR: key type of the index built and of the index opened compared for every column type, over the writer and the readers' entry points",
            "Every column type the writer makes entries for, in the seekable, sequential and HTTP readers; item count, branching factor, column and name of every opened index." + BASE),
    "A06": ("value-flow analysis of MIR: guard, column, value and place of every index entry from the feature's attributes to the index that is built, per column type",
            "Presence, absence and null are evaluated per column type; loops over objects, attributes, features and entries must be complete. Known findings are listed in known_findings.json." + BASE),
    "A07": ("value-flow analysis of MIR: symbolic stream position before every search and at the end of every successful query",
            "Every search call of the 16 streamed implementations; positions of opaque searches are havocked." + BASE),
    "H01": ("value-flow analysis of MIR: each reference to a group of duplicates followed from the search to the request, every branch of every step covered; grouping of places into ranges by induction over the walk",
            "The ways through a step are a decision diagram; what no result, request or error covers is reported. Ranges, cache bounds and places are evaluated at and around their limits." + BASE),
    "E02": ("value-flow analysis of MIR: the step of each iterator extracted as a transition relation over its state and evaluated in every state an iteration can be in; selections followed to the iteration",
            "States are before / between / after the last feature, with and without a selection, intact or cut short; distances and counts are evaluated at representative values. What a decoded feature contains is V01-V08, what is selected A01-A07, B03 and H01." + BASE),
    "C01": ("effect analysis of MIR: what each command writes to standard output and to its destination, classified per call site, over the tool and the library functions it reaches",
            "Every print, write and file creation reachable from a subcommand is one obligation." + BASE),
    "C02": ("value-flow analysis of MIR: what reaches the writer from each input document, flush and close obligations, schema collection over features and their objects",
            "Every input value consumed by the conversion is followed to its write." + BASE),
    "C03": ("value-flow analysis of MIR: guards of the box filter evaluated over orderings of feature and query box, extent accumulation, option parsing",
            "Filter decision is enumerated over the ordering classes of the coordinates." + BASE),
}
NA = {
    "G01": "exact nesting of recursively flattened arrays is an inductive property over unbounded runtime counts; no sound static argument within reach decides it (V07 decides which channel each part travels through)",
    "G02": "absence of panics for every verified byte string quantifies over runtime values read from the file (counts, offsets, enum bytes); a sound static analysis flags nearly every index and slice in generated and hand-written decoders, so no quiet static verdict exists",
    "G03": "locality of the curve order is a quantitative property of numeric hash values over the data set",
}
