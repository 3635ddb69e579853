"""generates known_findings.json: genuine defects, fixed ones and those recorded"""
import json
FIXED = [l.split("|") for l in """
L01|987eda8|header and tree nodes were read up to the capacity of a vector, which the allocator decides, not up to their length in the file
L03|2857039|length and item count of an attribute index were cut to 32 bits in the header without a check
S03|476a64b|the result of the header's structural check was ignored, so a malformed header was interpreted
B03|59ebd9e|box queries walked the tree with the default node size instead of the one in the header
L03|75667bb|the header announced the feature count of the options instead of the features written
A06|4075c80|objects lacking an indexed attribute or having it null were indexed under a default value
V02|6890352|non-object attributes of several objects shared one column index
A05|2331216|indexes on Long and Byte columns could not be opened, or with another key type, by the readers
C01|3b3f98f|library and tool printed progress messages to standard output
E01|11c083a|a short write of an index key was ignored
H01|cc138c5|duplicate groups not covered by one fetch were cut short over HTTP
A07|8d773ce|an index lookup that found nothing left the stream at another position
E01|9c7beed|errors while building an attribute index were dropped together with the index
V01|3f86780|Byte, UByte and Binary attributes could be written but made the reader panic
C02|7509942|only the first 1000 features contributed attributes to the output schema
E01|e2c65fc|the tool's deserialize command ended silently on a read error
E02|e2c65fc|the tool's deserialize command stopped at a count taken from the header
C02|4099c3b|buffered output was not flushed before success was reported
E02|25ed289|a file cut short inside the feature section ended like a complete one
E01|b95b0b4|an attribute index size overflow over HTTP was taken for no index
E01|a959b73|an unreadable thoroughfare number silently dropped the whole address
E01|5332e00|unparsable extension content was read as null
V04|64c165c|appearance and templates of datasets without metadata were dropped, an absent extent was read as zeros
V04|11c7dfd|non-numeric reference system codes became 0 and the dataset's own appearance was not restored
L01|73497b3|attribute indexes totalling more than 4 GiB were taken for no index when locating features
B03|8486611|a box query over HTTP failed a wrong internal assertion unless the last leaf read was the last of all items
V01|f796571|attributes whose values need different column types across objects were written as 0 or made the writer panic
E02|50f79d1|a feature several of whose objects match an attribute query was delivered several times, over HTTP not in file order
A01|a21e482|ne, gt and lt dropped a feature with entries of several keys when one of them was to be excluded
A04|00204ca|the largest date-time key was the end of year 9999 UTC: times with an offset from UTC lie beyond it
A04|3bf0bbc|the smallest date-time key was 1970: ne, lt and le missed earlier dates
E02|dc64a76|a feature cut short over HTTP was handed on instead of being reported
H01|87124d4|payload requests over HTTP reached beyond the index section and failed on small files
H01|8e52446|a remote read of index nodes that came back cut short gave a smaller result in release builds
A03|6ef6314|exact lookups ran past the last node, streamed ranges stopped before the upper bound, when the key is an internal key of the tree
A01|ea0698a|le queries in memory and over HTTP missed the value itself when it is an internal key of the tree
""".strip().splitlines()]
KNOWN = [
    ("A03", "descent", "find_partition: key equal to an entry (goes left of it)", "find_range leaves out what is stored under the upper bound if that key is also the key of an inner entry, e.g. branching factor 4, keys 0 to 18, range [0, 18] or [0, 3]; test_range_search requires the incomplete answer (18 of 19 entries for [0, 18]), and test_memory_index_with_complex_data that of a query, so every repair breaks them"),
    ("A03", "descent", "http_stream_find_partition: key equal to an entry (goes left of it)", "the same in http_stream_find_range, whose tests require the answer of the search in memory"),
    ("A06", "A06.key", "String: fixed width", "the index keeps the first 50 bytes of a string, padded with zero bytes: strings that agree in these (or differ in trailing NULs) are answered alike; the width is part of the file format"),
    ("E01", "E01.result", "reader/deserializer.rs: from_utf8 #1", "decode_attributes replaces a string that is not UTF-8 by an empty one; its public signature (used by the tests) has no error"),
    ("E01", "E01.result", "reader/deserializer.rs: from_utf8 #2", "the same for date-time attributes"),
    ("E01", "E01.result", "reader/deserializer.rs: from_utf8 #3", "the same for JSON attributes"),
    ("E01", "E01.result", "writer/serializer.rs: parse #1", "to_reference_system stores version 0 for a version that is no integer (e.g. OGC/1.3); the format has an integer field only"),
    ("V01", "V01.type", "common_type(Long, ULong)", "an attribute with values above 9223372036854775807 in some objects and negative ones in others gets a Long column; the large values are stored as 0"),
    ("V01", "V01.type", "common_type(ULong, Long)", "the same, met in the other order"),
    ("V04", "V04.roundtrip", "to_cj_metadata: ReferenceSystem.base_url is dropped: the constructor's default comes back", "the format stores authority, version, code and code string only; a base other than https://www.opengis.net/def/crs comes back as that"),
    ("V04", "V04.roundtrip", "to_cj_metadata: ReferenceSystem.version comes back as '0' whatever it was", "the format stores the version as an integer; a version that is none (e.g. 1.3) comes back as 0"),
]
if __name__ == "__main__":
    out = [{"property": p, "status": "known", "rule": r, "key": k, "what": w} for p, r, k, w in KNOWN]
    out += [{"property": p, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED]
    json.dump(out, open("/verif/known_findings.json", "w"), indent=1)
