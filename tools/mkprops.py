#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the file stays well-formed)."""
import json, os
W = "src/writer.rs"; S = "src/writer/stripe.rs"; D = "src/writer/data/"; E = "src/writer/encoder/"; C = "src/writer/compression.rs"; ST = "src/writer/statistics.rs"
cols = [D + x + ".rs" for x in "binary boolean decimal double float list long map string struct_ timestamp union".split()]
stats = ["src/writer/statistics/" + x + ".rs" for x in "binary boolean decimal double generic long string timestamp".split()]
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "File tail locates and describes itself",
  "A file that was finished successfully starts with the bytes ORC, is closed by metadata, footer, postscript and one final byte in that order, and that byte is the length of the postscript. The metadata and footer lengths stored in the postscript are the byte lengths those sections really occupy, and the postscript declares the magic ORC, version 0.12, a writer version of at least 6 (lower ones are reserved for old Java writers and change how readers take the statistics), and the compression kind and block size the sections are framed with. The header and content lengths in the footer add up to the file offset where the metadata starts.",
  ["inputs", "configurations"], "for every schema, configuration and written data set",
  "No test writes a file at all; a reader needs these lengths to be exact for every section size, not for sampled ones.",
  [W, "src/writer/count_write.rs"],
  [("position differences around each section", W + ":finish"), ("postscript fields", W + ":write_postscript"), ("header", W + ":write_header"), ("byte counting", "src/writer/count_write.rs")],
  ["bytes of the output file"])
p("C02", "Stripe directory is exact and contiguous",
  "Each non-empty stripe is listed exactly once, in file order, in the footer, with the offset where its bytes start, the exact lengths of its index, data and footer sections and the number of rows handed over for it. The stripes tile the file without gap or overlap from the end of the header, the total row count in the footer is the sum of the stripe row counts, and a stripe with no rows writes nothing and is not listed.",
  ["inputs", "histories", "configurations"], "for every sequence of batches, stripe flushes and configurations",
  "No test flushes a stripe; offsets depend on the accumulated history of earlier stripes.",
  [S, W], [("section lengths from output positions", S + ":finish"), ("offset accumulation", S + ":finish"), ("stripe information in the footer", W + ":write_footer")],
  ["stripe list of the file footer"])
p("C03", "Stripe footer lists every stream written",
  "For every column each stream its type needs (row index; present when there are nulls; data, length or secondary as the ORC type requires) is written exactly once per stripe, and the stripe footer lists it with the right kind, column number and exact byte length in the order in which the bytes were written. All index streams come before all data streams. No stream is listed that was not written and none is written unlisted, including those of nested columns.",
  ["inputs", "programs", "configurations"], "for every schema (all column types, any nesting) and data",
  "Existing tests cover four encoders only; no test builds a column or a stripe.",
  [S, D + "common.rs"] + cols, [("write_index_streams / write_data_streams of each column type", D), ("write_index", D + "common.rs"), ("stripe footer", S + ":write_footer")],
  ["stream list of each stripe footer"])
p("C04", "Present streams appear exactly when there are nulls",
  "In each stripe a column has a present stream if and only if at least one null was written to it in that stripe. The row index positions of the column contain the present-stream coordinates under exactly the same condition. The decision takes every value of the stripe into account, including those of the last, incomplete row group.",
  ["inputs", "histories"], "for every placement of nulls relative to row groups and stripes",
  "The condition depends on where nulls fall relative to row-group boundaries; no test writes a null.",
  cols + ["src/writer/statistics/common.rs", S], [("has_null guard in write_data_streams", D), ("include_present in record", D), ("index before data ordering", S + ":finish")],
  ["stripe footer stream list", "row index positions"])
p("C05", "Every value reaches every stream of its column once",
  "Writing one value to a column appends exactly one presence bit saying present, and exactly the encoding of that value to each of the column's other streams (content, length, scale, tag, seconds and nanoseconds as the type requires), and counts the same value once in the column's statistics. Writing a null appends exactly one presence bit saying absent, adds nothing to any other stream, and counts one null. Every value of the column's type is accepted, without error or panic (for unions, every tag that names a variant).",
  ["inputs"], "for every column type, every value, every write entry point",
  "Column types are untested; a stream that falls out of step corrupts every later value of the stripe.",
  cols, [("write / write_i64 / write_i128 / write_nanos / write_null of each column type", D)], ["streams of the stripe", "statistics"])
p("C06", "Row index entries partition the values of a column",
  "In each stripe the values of a column are divided into consecutive row groups of exactly the configured stride, with only the last one shorter and none empty. There is one row index entry per group, in order, carrying the stream positions at which the group's first value starts and the statistics of exactly the values of that group. Row groups are groups of rows of the file: entry k of any column, nested ones included, starts at row k times the stride of the stripe.",
  ["inputs", "histories", "configurations"], "for every stride, batch split and number of values",
  "Needs all alignments of values to the stride (default 10000); no test creates a row group.",
  cols + [D + "common.rs"], [("check_row_group / finish_row_group of each column type", D), ("row index serialisation", D + "common.rs:write_index")], ["row index streams"])
p("C07", "Row index positions name the true stream coordinates",
  "The positions in a row index entry list, for each stream of the column in the order the ORC format defines for its type, where the entry's first value starts: the compressed block offset (only when compressing) and offset within the block (or the plain byte offset), then the number of values already consumed of the run being built, then, for bit streams, the number of bits consumed of the byte being built. A block offset counts exactly the bytes earlier blocks of that stream occupy, three header bytes each included.",
  ["inputs", "configurations"], "for every prefix of written values and compression setting",
  "No test reads a position; they matter only for seeks into the middle of a stripe.",
  [C] + cols + [E + x for x in ("boolean_rle.rs", "byte_rle.rs", "int_rle_v1.rs")], [("position() and record() of each stream class and column", C)], ["row index positions"])
p("C08", "Stripe and file statistics cover every value once",
  "The statistics of a column in the stripe's metadata cover every value of that stripe exactly once, including the last incomplete row group. The file-level statistics in the footer cover every value of every stripe exactly once. Combining two statistics adds counts, sums and lengths and combines minima and maxima.",
  ["inputs", "histories"], "for every number of values relative to the stride and every number of stripes",
  "No test looks at statistics; losing the tail of a stripe only shows through a reader that skips on statistics.",
  [S, W, ST] + stats + cols, [("merge into the stripe statistics when a row group closes", D), ("snapshot for the stripe", S + ":finish"), ("merge over stripes", W + ":merge_statistics")],
  ["metadata and footer statistics"])
p("C09", "Column statistics are true of the values written",
  "The number of values counts the non-null values and the null flag is set exactly when a null was counted. Minimum and maximum (integers, decimals, timestamps, strings and, in the absence of NaN, floating point) are the smallest and largest value recorded and are absent only when there was no value. Integer and decimal sums are exact or, once they overflow, absent; string and binary sums are total byte lengths; boolean counts split the values into true and false.",
  ["inputs"], "for every multiset and order of values and nulls",
  "Needs all orderings and overflow cases; no test updates a statistic.",
  stats, [("update / update_null / merge of each statistics type", "src/writer/statistics/"), ("merge_min / merge_max / merge_sum", "src/writer/statistics/")], ["ColumnStatistics messages"])
p("C10", "Statistics are serialised under the right fields",
  "Each column's statistics are serialised in the message kind the ORC format assigns to the column's type, with minimum, maximum, sum and counts each in its own field (timestamp bounds in the UTC fields too, which the declared writer version promises), a bound or sum being present exactly when it is known, and the non-null count and null flag always present. Decimal bounds and sums are printed as the exact decimal value at the column's scale.",
  ["inputs", "programs"], "for every column type and every combination of known and unknown bounds",
  "Swapped or dropped fields leave the file readable; no test parses statistics.",
  [ST, "src/writer/statistics/decimal.rs"] + cols, [("to_proto", ST + ":to_proto"), ("decimal formatting", "src/writer/statistics/decimal.rs:format")], ["ColumnStatistics messages"])
p("C11", "Row counts are verified for every column",
  "Handing over a batch panics, before anything of the batch is written out, unless every column holds exactly as many values as rows handed over: struct children as many as non-null structs, list and map children as many as the sum of the lengths written, union children as many as times their tag was written. Finishing the file likewise never produces a stripe in which a column holds more or fewer values than its rows demand.",
  ["inputs", "histories", "programs"], "for every schema nesting and sequence of writes, batches and finish",
  "The existing tests never call the writer API.",
  [W, S] + cols, [("verify_row_count of each column type", D), ("call before flush", W + ":write_batch"), ("batch row accumulation", S + ":write_batch")], ["panic or file content"])
p("C12", "Columns are numbered in preorder everywhere",
  "Columns are numbered 0, 1, 2, ... in preorder of the schema (structs by field order, map keys before values, union variants in order). The footer types, the file and stripe statistics, the stripe column encodings and the column numbers in stream entries all follow that one numbering, with exactly one entry per column. Every stripe of a file uses the same numbering.",
  ["programs", "inputs"], "for every schema",
  "Only nested schemas show a mismatch; no test builds one.",
  [W, S, D[:-1] + ".rs"] + cols, [("id assignment in each constructor", D), ("make_types", W + ":make_types"), ("column_encodings / statistics traversal", D)], ["footer types, statistics, encodings, stream columns"])
p("C13", "Footer types reproduce the schema",
  "The type list in the footer describes the schema the file was created with: each column has the type kind of its schema node, decimals their precision and scale, char and varchar their maximum length, structs their field names in order, and every compound type lists exactly its children's column numbers in order. Each schema type is stored by the column kind that implements it, and each column's encoding is declared as the one actually used.",
  ["programs"], "for every schema",
  "No test creates a schema.",
  [W, "src/schema.rs", D[:-1] + ".rs"] + cols, [("make_types", W + ":make_types"), ("dispatch from schema to column", D[:-1] + ".rs:new")], ["footer types"])
p("C14", "Compression framing loses nothing and obeys its limits",
  "When a codec is configured every stream, index, footer and metadata section is a sequence of blocks whose contents, concatenated, are exactly the bytes written to it, in order. No block holds more than the configured block size of uncompressed bytes or is empty; each is preceded by a three-byte little-endian header giving its exact stored length and whether it is stored uncompressed, which happens whenever compressing would enlarge it. Without a codec the bytes are written unframed.",
  ["inputs", "configurations"], "for every byte sequence, split into writes in any way, and every legal block size",
  "Needs writes that straddle, fill exactly, or exceed a block (default 256 KiB); tests only use uncompressed streams of a few bytes.",
  [C, "src/writer/compression/snappy.rs", "src/writer/compression/zstd.rs", "src/writer/compression/common.rs", "src/buffer.rs"],
  [("write_u8 / write_bytes / finish_block / finish", C), ("codec adapters append in place", "src/writer/compression/")], ["bytes of any section"])
p("C15", "One codec for the whole file, as declared",
  "All sections and streams of a file are framed with the codec and block size given in the configuration, and the postscript declares exactly that codec and block size. A compression level or block size set by the caller is the one used; a block size of zero or above the format limit of 8388607, or a compression level outside 1 to 22, is rejected when it is set. Row index stride and stripe size likewise take the values the caller set, and the footer declares the stride in use.",
  ["configurations"], "for every configuration",
  "No test builds a file or a compressed stream.",
  [W, S, C, "src/writer/compression/snappy.rs", "src/writer/compression/zstd.rs", "src/writer/compression/no_compression.rs"] + cols,
  [("builders", W + ":Config"), ("CompressionStream::new arguments", D), ("kind / block_size / compressor dispatch", C)], ["postscript, footer, framing"])
p("C16", "No I/O error or short write is swallowed",
  "If any write or flush on the underlying output fails, the writer operation that caused it returns an error. A sink that accepts fewer bytes than offered never leads to missing bytes in a file reported as finished. Success of finish implies that all bytes were handed to the sink and that it was flushed. Conversely, while no operation on the output has failed, no operation of the writer reports an error or, row counts being right, panics.",
  ["fault_sequences", "inputs"], "for every failure or short write at any point",
  "No test uses a failing or short-writing sink.",
  [W, S, C, "src/writer/count_write.rs", D + "common.rs"] + cols, [("error propagation with ?", W), ("byte counting from the accepted size", "src/writer/count_write.rs")], ["Result of write_batch / finish"])
p("C17", "A failed flush cannot be followed by a successful finish",
  "Once flushing a stripe has failed with an I/O error, a later attempt to continue never reports a successfully finished file that lacks rows or whose directory does not match its bytes.",
  ["fault_sequences", "histories"], "for every failure point in a stripe flush and any later calls",
  "Needs a fault in the middle of a flush followed by further calls.",
  [W, S], [("stripe state after a partial flush", S + ":finish")], ["Result of finish"])
p("C18", "Byte and boolean run-length streams decode to what was written",
  "For every sequence of bytes, the byte run-length stream decodes under the ORC byte RLE rules to exactly that sequence: runs of 3 to 130 equal bytes, literal groups of 1 to 128 bytes, in order, nothing lost, repeated or left unflushed at the end. A boolean stream decodes to exactly the bits written, most significant bit first, padded to a byte only at the end, and both encoders are ready for reuse after finishing.",
  ["inputs"], "for every byte / bit sequence",
  "Tests sample ten sequences; group limits and pending state make the input space unbounded.",
  [E + "byte_rle.rs", E + "boolean_rle.rs"], [("ByteRLE::write / finish_group / finish", E + "byte_rle.rs"), ("BooleanRLE::write / finish", E + "boolean_rle.rs")], ["stream bytes"],
  [("buf, buf_len, run_len", "pending literal bytes or pending run", E + "byte_rle.rs")])
p("C19", "Integer run-length streams decode to what was written",
  "For every sequence of 64-bit integers (signed or unsigned), the integer run-length (version 1) stream decodes to exactly that sequence: runs of 3 to 130 values with a constant difference that fits a signed byte, literal groups of 1 to 128 varints, in order, nothing lost, repeated or left unflushed at the end, and the encoder is ready for reuse after finishing.",
  ["inputs"], "for every integer sequence, wrap-around differences included",
  "Tests sample seven sequences; none reaches the group limits of literals or a difference at the byte limit.",
  [E + "int_rle_v1.rs"], [("IntRLEv1::write / finish_group / finish", E + "int_rle_v1.rs"), ("delta width predicate", E + "varint.rs:fits_i8")], ["stream bytes"],
  [("buf, run_len, last_val, delta", "pending literals or pending run", E + "int_rle_v1.rs")])
p("C20", "Variable-length integers are complete and minimal",
  "Every 64-bit and 128-bit unsigned integer is written as its base-128 little-endian varint, seven bits per byte with the continuation bit on all but the last byte and no superfluous byte. Every signed one is written as the varint of its zigzag code. Full-width values are never truncated.",
  ["inputs"], "for every 64-bit and 128-bit value",
  "Tests sample thirteen small values, none wider than 15 bits and none of 128 bits.",
  [E + "varint.rs"], [("write_varint for u64, i64, u128, i128", E + "varint.rs")], ["stream bytes"])
p("C21", "Timestamps are stored exactly",
  "Every timestamp with nanoseconds below one second is stored so that an ORC reader recovers exactly the seconds and nanoseconds given: seconds relative to 1 January 2015 UTC (one second later for times before the Unix epoch with more than 999999 nanoseconds, because readers take that second off again), nanoseconds with trailing decimal zeros stripped into the low three bits as the format defines. Every stripe footer names UTC as the writer's time zone, without which readers take the seconds as relative to 2015 in their own zone. Seconds given relative to the Unix epoch are converted to the same instant. Timestamp statistics are in milliseconds since the Unix epoch of the same instants.",
  ["inputs"], "for every second count whose milliseconds since the Unix epoch fit 64 bits, except the last second before that epoch, which the format cannot tell from the first after it, and every nanosecond value from 0 to 999999999",
  "No test writes a timestamp; the failing values are specific nanosecond patterns.",
  [D + "timestamp.rs"], [("write_nanos / write_nanos_epoch", D + "timestamp.rs")], ["timestamp streams and statistics"])
p("C22", "Stripes are cut when the configured size is exceeded",
  "After each batch handed over, if the data buffered for the stripe exceeds the configured stripe size it is written out as a stripe, and otherwise nothing is written. The buffered size accounts for every stream of every column, nested ones included, once.",
  ["inputs", "histories", "configurations"], "for every schema, stripe size and sequence of batches",
  "No test drives a stripe to its size limit; a column left out lets memory grow without bound.",
  [W] + cols + [C], [("size test", W + ":write_batch"), ("estimated_size of each column and stream", D)], ["number and size of stripes"])
p("C23", "Each stripe starts from a clean state",
  "What a stripe contains depends only on the rows of that stripe: after a stripe has been written, no stream content, pending run, statistic, row-group state, index entry or count of it carries over into the next, and the next stripe has the same schema and configuration.",
  ["histories", "inputs"], "for every sequence of stripes",
  "No test writes two stripes.",
  [S, C] + [E + x for x in ("boolean_rle.rs", "byte_rle.rs", "int_rle_v1.rs")] + cols, [("column state replaced", S + ":finish")], ["bytes of the second and later stripes"])
p("C24", "Union tags always name an existing variant",
  "The tag recorded for a non-null union value is below the number of variants and is the tag given, unchanged by narrowing to a byte. A tag out of range, and a union schema with more than 256 variants, are rejected by a panic before any part of the value is recorded.",
  ["inputs", "programs"], "for every tag and every number of variants",
  "No test writes a union; the boundary needs a tag equal to the variant count or 256 variants.",
  [D + "union.rs"], [("range check in write", D + "union.rs:write"), ("variant limit in the constructor", D + "union.rs:new")], ["tag stream"])
p("C25", "Output is a function of schema, configuration and data",
  "The bytes written depend only on the schema, the configuration and the sequence of values and calls: no clock, randomness, environment, address, thread or hash-order dependence, and no state shared between writers. The library never reads uninitialised or out-of-bounds memory of its own making.",
  ["inputs", "schedules", "configurations"], "for every program using the library, including several writers in one process",
  "A sampled run cannot show the absence of ambient influence.",
  ["src/lib.rs", W, S, C, "src/buffer.rs"] + cols, [("no globals, no ambient calls, no unsafe in the crate", "src/")], ["output bytes"])
p("C26", "Metadata messages follow the published protobuf schema",
  "For every message of the ORC protobuf schema, each field is serialised and parsed under its published field number and wire type, its computed size is the size of what is serialised, and enum values have their published numbers. Every field that is set is serialised, and setting one field changes no other.",
  ["inputs", "programs"], "for every message value",
  "No test serialises a message; the code is generated once and committed, nothing regenerates or compares it.",
  ["src/protos/orc_proto.rs", "protos/orc_proto.proto"], [("write_to_with_cached_sizes / compute_size / merge_from / setters of each message", "src/protos/orc_proto.rs")], ["serialised metadata, footers, postscript"])
p("C27", "The data tree gives access to exactly the schema's columns",
  "The writer hands out, for each schema node, the column of the matching kind: child i of a struct or union is the i-th field or variant, keys and values of a map and the child of a list are their own columns, and the typed accessor of a kind returns that very column and panics on any other kind. Operations invoked through the generic data handle act on that column exactly as if invoked on the typed column.",
  ["programs", "inputs"], "for every schema and access path",
  "No test accesses a column.",
  [D[:-1] + ".rs", W] + cols, [("dispatch", D[:-1] + ".rs"), ("child accessors", D)], ["column reached"])
p("C28", "Floating-point and raw bytes are stored verbatim",
  "Each float and double value is stored as its own IEEE 754 bytes in little-endian order, with no rounding or normalisation, and string and binary values are stored as exactly their bytes with their exact byte length. Decimal values are stored as the varint of the unscaled value with the column's scale beside every value.",
  ["inputs"], "for every value, including NaN payloads, infinities, empty and multi-block strings",
  "No test writes such a column.",
  [D + x + ".rs" for x in ("float", "double", "string", "binary", "decimal")], [("write of each column type", D)], ["data streams"])
p("N01", "An independent reader recovers every value",
  "Any conforming ORC reader given a finished file recovers exactly the rows written, for every schema, configuration and data set.",
  ["inputs", "programs", "configurations"], "for every file",
  "There is no reader in this crate and no test writes a file.",
  [W], [("the whole writer", "src/writer/")])
p("N02", "Codec libraries round-trip and bound their output",
  "Decompressing what the Snappy and Zstandard libraries produced for a block yields the block, and their output never exceeds the bound they announce.",
  ["inputs"], "for every block", "The codecs are third-party dependencies and tests never compress.",
  ["src/writer/compression/snappy.rs", "src/writer/compression/zstd.rs"], [("library calls", "src/writer/compression/")])
p("N03", "Floating-point sums are the sum of the values",
  "The floating-point sum in the statistics is the sum of the values to within rounding of the additions performed, for any order of values.",
  ["inputs"], "for every sequence of floats", "A numerical result over unbounded sequences; no test updates a statistic.",
  ["src/writer/statistics/double.rs"], [("sum", "src/writer/statistics/double.rs")])
p("N04", "Memory stays proportional to the stripe size",
  "The memory held by a writer stays within a constant factor of the configured stripe size plus the largest batch.",
  ["inputs", "histories"], "for every sequence of batches", "A quantitative resource bound; no test measures it.",
  [W, "src/buffer.rs"], [("buffers", "src/buffer.rs")])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
