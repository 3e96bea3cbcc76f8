"""Which rules decide which property, with the floor of obligations each must raise on this code base."""
import re
from orc import Rep
import r_column as col
import r_writer as wr
import r_lower as lo
import r_stats as st
import r_rle as rl
import r_stream as sm
import r_config as cf
import r_io as io_
import r_ambient as am
import r_proto as pb

ASSUMPTIONS = [
    "64-bit counters and lengths do not wrap (fewer than 2^62 values or bytes)",
    "usize is 64 bits wide",
    "standard library and protobuf runtime calls have the meaning given in sa/models.py; Clone returns an equal value",
    "no unwinding is caught: a panic ends the use of the writer",
]

PROPS = {}


def only(fn, pat):
    """the obligations of a rule whose names match (what a property needs of a lower layer)"""
    def g(ctx, rep, **kw):
        sub = Rep(rep.pid)
        fn(ctx, sub, **kw)
        rep.obs += [o for o in sub.obs if re.search(pat, o[0])]
        rep.fails += [o for o in sub.fails if re.search(pat, o[0])]
        rep.fns |= sub.fns
        rep.parts += sub.parts
    g.__name__ = fn.__name__
    g.__doc__ = fn.__doc__
    return g


COUNTS = r"(:count|:has-null|:num_present|:num_values|:paths|^Statistics:(update|null|merge|num_\w+|has_null|new).*)$"
MERGES = r"(:merge:|^Statistics:merge)"
CLONES = lambda pat, n: ("clones-equal", only(cf.clones, pat), {}, n)
CLEAN = r"(:ready|:finish:finished|:finish:reaches|:new-empty|:left-empty|:codec-kept)$"
COUNTED = ("counted-output", only(io_.counter, r"^(?!CountWrite::flush)"), {}, 10)


def prop(pid, explain, *rules):
    PROPS[pid] = {"explain": explain, "rules": [(r[0], r[1], r[2] if len(r) > 2 else {}) for r in rules], "floor": {}}
    for r in rules:
        if len(r) > 3:
            PROPS[pid]["floor"][r[0]] = max(1, r[3] // 3)    # a refactoring may merge partitions; a rule that lost its subject loses nearly all


HOW = "Abstract interpretation of the crate's MIR (gated value numbering with trace partitioning; helpers inlined, loops summarised by closed forms); nothing is run. "


COLS = "For every column (each variant of the data enum) and every exit partition of its methods: "

WR = "For every exit partition of every public method of the writer (the type holding the counting output), under an inductive invariant that is inferred by dropping candidates until what is left holds on every partition: "

prop("C01", HOW + WR + "on Ok the bytes appended are header, stripes, metadata, footer, postscript and length byte, each length field equals the byte length of the term it describes, as polynomials over the section lengths; the postscript's declared magic, version, codec and block size come from the configuration in use.",
     ("file-tail", wr.file_tail, {}, 40),
     ("declared", wr.declared, {}, 12),
     COUNTED,
     ("new-stream", sm.stream_new, {}, 20))
prop("C02", HOW + WR + "one stripe record is pushed exactly when the stripe has rows; its offset is the file position before the stripe's first byte and its lengths are those of the appended terms; the footer's list is the map of the records and the row total their sum.",
     ("stripe-directory", wr.stripe_directory, {}, 60),
     COUNTED)
prop("C03", HOW + COLS + "the bytes appended by write_index_streams / write_data_streams are exactly the concatenation of the streams pushed to the info list, in the same order, each with the column's own number, the kind that belongs to the stream object and the byte count taken around it; children follow in schema order. The stripe footer holds one entry per pushed stream, unchanged, index streams first.",
     ("stream-listing", col.stream_listing, {}, 150),
     ("footer-streams", wr.footer_streams, {}, 14),
     COUNTED)
prop("C04", HOW + COLS + "write_data_streams finishes and lists the present stream on exactly the exit partitions where the stripe statistics hold a null; a row index entry records present coordinates under the same condition, evaluated on the statistics of the whole stripe including the last row group.",
     ("present-stream", col.stream_listing, {"check_all": False}, 24),
     ("present-positions", col.index_entries, {"order": False, "stats": False}, 24),
     ("all-values-counted", col.stats_cover, {}, 100),
     ("null-flags", only(st.statistics, COUNTS), {}, 300))
prop("C05", HOW + COLS + "the effect of each writing method on each stream, as an appended sequence in closed form, is exactly one presence bit and the encoding of the argument in each content stream its ORC type demands (table of roles), and one statistics update with the same value; no exit is a panic, but for a union tag that names no variant; the counts of the statistics (rules of C09) and the stored timestamps (rules of C21) likewise.",
     ("values-once", col.values_once, {"content": True}, 300),
     ("timestamps", lo.timestamps, {}, 150),
     ("value-counts", only(st.statistics, COUNTS), {}, 300))
prop("C06", HOW + COLS + "with the row-group invariant count < stride on entry, a group is closed exactly when it reaches the stride; the entry gets the recorded start position and exactly the group's statistics, the next start is the position after the value just written, and write_index_streams adds the last incomplete group iff it is not empty. Children of nested columns must have their groups closed with the parent's.",
     ("row-groups", col.row_groups, {}, 400),
     ("entries", col.index_entries, {"presence": False, "order": False}, 24),
     ("value-counts", only(st.statistics, COUNTS), {}, 300))
prop("C07", HOW + COLS + "a row index entry records the start positions of the column's streams in the order ORC defines for its type (present first, under the condition of C04); each stream class records what its state says: the bytes of the stream's completed blocks with three header bytes each and the bytes pending, then the values of the encoder's unfinished run, then the bits of the unfinished byte, against the same symbolic states as C18, C19 and C14. The position an entry gets is the one recorded when its group began (rules of C06).",
     ("entry-order", col.index_entries, {"presence": False, "stats": False}, 24),
     ("run-positions", rl.rle_positions, {}, 60),
     ("bit-positions", rl.bool_positions, {}, 9),
     ("stream-positions", sm.stream_positions, {}, 6),
     ("framing", sm.framing, {}, 40),
     ("group-starts", only(col.row_groups, r":(entry-pos|start|start-unchanged|last-group-pos):"), {}, 500),
     CLONES(r"Position:", 15))
prop("C08", HOW + COLS + "the bag of values of the stripe statistics equals the values of the closed groups plus the open group on every path, and statistics() reports it after the last group was merged. The file statistics are merged column by column from each stripe's, once per stripe record, and both lists reach metadata and footer in full.",
     ("stats-cover", col.stats_cover, {}, 150),
     ("stats-listed", col.stats_listed, {}, 30),
     ("file-statistics", wr.file_stats, {}, 15),
     ("combining", only(st.statistics, MERGES), {}, 300),
     CLONES(r"Statistics:", 8))
prop("C09", HOW + "For each kind of statistics: construction is empty, update adds one to the count and folds the value into minimum, maximum, sum and length with the comparison of the type (checked arithmetic: an overflow clears the sum), null sets the flag, merge is the fold of both sides; the enum dispatches each to its own kind. Each writing method of each column hands the statistics the value it was given (timestamps: its milliseconds).",
     ("statistics", st.statistics, {}, 900),
     ("values-recorded", only(col.values_once, r":stat$"), {"content": True}, 120),
     ("timestamps-recorded", only(lo.timestamps, r":millis$"), {}, 60))
prop("C10", HOW + COLS + "the kind of statistics message, in the file/stripe list and in every row index entry, is the one the ORC type demands (table of kinds; date columns separate from integers); for every kind the message built from the statistics carries every field of the kind with the accumulated value, a minimum or maximum only when a value was seen, a decimal as its exact text.",
     ("kinds", col.stats_listed, {"kind": True}, 80),
     ("messages", st.messages, {}, 900))
prop("C11", HOW + COLS + "verify_row_count panics on every partition where its count differs from the rows demanded, and asks the children for exactly the demanded number. Every path of the writer that counts rows or writes a stripe has verified the tree for exactly that count before.",
     ("row-counts", col.row_counts, {}, 40),
     ("verified-first", wr.verified_first, {}, 10),
     ("value-counts", only(st.statistics, COUNTS), {}, 300))
prop("C12", HOW + COLS + "column numbers are taken in preorder by construction (own number first, then children in schema order through one shared counter) and every listing (types, statistics, encodings, streams) visits own-then-children in the same order, once.",
     ("preorder", col.preorder, {}, 300),
     ("stats-listed", col.stats_listed, {}, 30),
     ("encodings", wr.footer_encodings, {}, 4),
     ("types", wr.footer_types, {}, 100),
     ("stream-numbers", only(col.stream_listing, r":number"), {}, 40),
     ("construction", wr.data_new, {}, 60))
prop("C13", HOW + "For every schema variant the types function appends one type whose kind, subtypes, field names, length, precision and scale are the schema's own, then the children's in order; the schema a writer keeps and hands to its columns is the one it was given, never changed; every column declares the DIRECT encoding.",
     CLONES(r"^(Schema|Field):", 3),
     ("types", wr.footer_types, {}, 100),
     ("schema-kept", wr.schema_kept, {}, 60),
     ("construction", wr.data_new, {}, 60),
     ("encodings", wr.footer_encodings, {}, 4),
     ("encoding-kinds", col.direct_encodings, {}, 60))
prop("C14", HOW + "Compressed streams, by induction over the calls (and over the rounds of a writing loop): contents of the completed blocks, then the pending bytes, then what is left of the argument stay the same sequence; a block is recorded with exactly its stored length and marked uncompressed exactly when the bytes stored are the input's, is never empty nor longer than the block size, and compressed only if no longer than its input; finish writes per block three bytes, whose bits are flag and length, and that block's bytes. Each codec adapter appends exactly what its library makes of the whole input. Every stream and section is made with the configured codec.",
     ("framing", sm.framing, {}, 40),
     ("adapters", sm.adapters, {}, 6),
     ("new-stream", sm.stream_new, {}, 20),
     ("legal-block-sizes", cf.settings, {}, 40),
     ("streams-framed", only(col.config_used, r":codec"), {}, 30),
     ("sections-framed", only(wr.one_codec, r":codec$"), {}, 10),
     ("tail-framed", only(wr.file_tail, r"^finish:framed$"), {}, 3))
prop("C15", HOW + "Setters store exactly their argument in one field of their own and refuse exactly the values outside the limits; builders wrap the settings in their own codec, and a stream made from it has that codec, block size and level. " + "Every stream is created with the compression the column was given, every column with that of its parent, and header sections with that of the configuration; the postscript declares the same value's kind and block size; no method changes a configuration after the writer started.",
     ("config-used", col.config_used, {}, 120),
     ("one-codec", wr.one_codec, {}, 80),
     ("settings", cf.settings, {}, 40),
     ("builders", cf.builders, {}, 16),
     CLONES(r"^(Config|\w*Compression\w*):", 5),
     ("new-stream", sm.stream_new, {}, 20),
     ("declared", wr.declared, {}, 12))
prop("C16", HOW + "Every fallible call (write, flush, finish of a stream, a child's writing method) splits the analysis into success and failure; on every exit partition of every method of the writer, of each column, of the data handle and of each encoder and stream, a failed call is followed by an Err result, and the state of a successful exit contains no trace of a failed or short write. finish succeeds only after flushing the sink behind the last byte; an exit with an error or a panic and no failed call contradicts what the fields of a writer hold while nothing has failed. The counting output passes each call on once and counts exactly what was accepted.",
     ("io-errors", io_.io_errors, {}, 200))
prop("C17", HOW + WR + "every exit that reports an error after bytes may have been written leaves a state from which no public method reports success and no bytes are written.",
     ("sticky-failure", wr.no_finish_after_failure, {}, 30))
ENCS = "The states an encoder can be in are covered by one interval box per mode (the ways finish can go, refined by what write asks about the object), closed under write and finish by widening, with equalities kept while inductive. "

prop("C18", HOW + ENCS + "Byte runs: in every mode, what finish writes is decoded symbolically by the ORC rules (header in 0..127 a run of header+3, 128..255 a literal group of 256-header, with that many bytes following), and after write(x) it decodes to the earlier content followed by x, group limits included; finish leaves nothing behind. Bits: from new(), with fields a byte may leave changed made arbitrary, eight writes append the byte of the eight bits, most significant first, and return there; finishing after k<8 appends the zero-padded byte.",
     ("byte-rle", rl.byte_rle, {}, 24),
     ("boolean-rle", rl.boolean_rle, {}, 24))
prop("C19", HOW + ENCS + "In every mode, what finish writes is decoded symbolically by the rules of integer RLE version 1 (a run is header+3 values base + i*delta with the signed delta byte; a literal group holds as many varints as announced), and after write(x) it decodes to the earlier content followed by x, modulo 2^64; finish leaves nothing behind.",
     ("int-rle", rl.int_rle, {}, 60),
     ("varints", lo.varints, {}, 900))
prop("C20", HOW + "For write_varint on each integer type, every exit partition appends n bytes; with each value bit tracked through shifts, masks, casts and the zigzag xor (a bit-provenance domain over GF(2)), byte k carries exactly bits 7k..7k+6 of the value (of its zigzag code), the continuation bit is set on all but the last, the path's conditions imply that all higher bits are zero and that the last group is not.",
     ("varints", lo.varints, {}, 900))
prop("C21", HOW + "For every exit partition of the timestamp writers, under nanoseconds < 10^9: the seconds stream gets the argument (less 1420070400 for Unix-epoch seconds), the nanosecond stream the code k in its low three bits and above them nanoseconds / 10^(k+1), exact by the divisibility facts of the path and with no strippable zeros left, and the statistics the milliseconds of the same instant; every stripe footer names UTC.",
     ("timestamps", lo.timestamps, {}, 150),
     ("timezone", wr.timezone, {}, 4))
prop("C22", HOW + COLS + "estimated_size adds the estimate of each stream and child once. The batch method flushes exactly on the partitions where that size exceeds the configured one.",
     ("sizes", col.sizes, {}, 20),
     ("cut", wr.cut_when_exceeded, {}, 3),
     ("buffered", sm.buffered, {}, 10))
prop("C23", HOW + COLS + "the state in which writing a stripe leaves a column, or the fresh column that replaces it, has every stream, count and statistic empty and the same schema, configuration and number.",
     ("clean-start", col.clean_start, {}, 90),
     ("fresh-stripe", wr.fresh_stripe, {}, 12),
     ("rows-restart", only(wr.stripe_directory, r":rows-restart$"), {}, 3),
     ("encoders-clean", only(rl.byte_rle, CLEAN), {}, 4),
     ("bits-clean", only(rl.boolean_rle, CLEAN), {}, 2),
     ("integers-clean", only(rl.int_rle, CLEAN), {}, 6),
     ("streams-clean", only(sm.framing, CLEAN), {}, 6))
prop("C24", HOW + "UnionData: on every non-panicking path the tag recorded is below the number of children and equals the argument; a schema with more than 256 variants panics at construction.",
     ("union-tags", col.union_tags, {}, 12))
prop("C25", "Effect analysis of every function of the crate, generated code included, on its MIR: no unsafe block, function, impl or foreign function; no global that can change except the protobuf runtime's once-made message descriptors; no field that shares changeable state between values; no call of, or reference to, a function that reads the clock, environment, process, threads, files, network, randomness, hash keys or addresses; no address made a number, no contents taken in hash order.",
     ("effects", am.ambient, {}, 1500))
prop("C26", HOW + "The generated code of every message against the published schema: per combination of fields that are set, the events on the output are, per field, its tag (number, wire type) and its value in the encoding of its type, and nothing else; the computed size is the sum of the sizes of the same parts; one round of the reading loop puts each field number and wire type into its own field and keeps other numbers as unknown fields; setters, getters and clearing touch their own field; enum values have their published numbers.",
     ("protobuf", pb.protobuf, {}, 15000))

prop("C27", HOW + "Each method of the data handle, on each variant, does exactly one call of the same method on that variant's column with the same arguments; construction maps each schema kind to its column; each accessor returns a reference to that child (path resolved to the field and index) and panics on every other variant.",
     ("dispatch", wr.data_dispatch, {}, 250),
     ("construction", wr.data_new, {}, 60),
     ("accessors", wr.accessors, {}, 70))
prop("C28", HOW + COLS + "the bytes appended to the data stream are the little-endian image of the argument's bits (float, double), the argument's bytes (string, binary) with their length in the length stream, or the signed varint of the unscaled value with the column's scale (decimal).",
     ("verbatim", col.values_once, {"content": True, "only": ("Float", "Double", "String", "Binary", "Decimal")}, 60),
     ("stored-as-given", only(sm.framing, r":plain"), {}, 15),
     ("varints", lo.varints, {}, 900))

# What the rules of the upper layers take for granted about the layers below them: run along with them by --thorough.
ENCODERS = [("below:byte-rle", rl.byte_rle), ("below:boolean-rle", rl.boolean_rle), ("below:int-rle", rl.int_rle), ("below:varints", lo.varints)]
STREAMS = [("below:framing", sm.framing), ("below:adapters", sm.adapters), ("below:new-stream", sm.stream_new)]
COUNTING = [("below:counting-output", io_.counter)]
CLONING = [("below:clones", cf.clones)]
MESSAGES = [("below:protobuf", pb.protobuf)]
COLUMNS = [("below:values", col.values_once, {"content": True}), ("below:preorder", col.preorder), ("below:construction", wr.data_new), ("below:dispatch", wr.data_dispatch)]
STATS = [("below:statistics", st.statistics)]
BELOW = {
    "C01": COUNTING + STREAMS + CLONING + MESSAGES, "C02": COUNTING + STREAMS + CLONING + MESSAGES, "C03": COUNTING + STREAMS + ENCODERS + CLONING + MESSAGES,
    "C04": ENCODERS + STREAMS + STATS + CLONING, "C05": ENCODERS + STREAMS + STATS + CLONING, "C06": STATS + CLONING + COLUMNS,
    "C07": ENCODERS + STREAMS + CLONING + COLUMNS, "C08": STATS + CLONING + COLUMNS, "C09": CLONING, "C10": STATS + CLONING + MESSAGES,
    "C11": STATS + COLUMNS, "C12": COLUMNS + CLONING, "C13": COLUMNS + CLONING + MESSAGES, "C14": CLONING, "C15": CLONING + STREAMS, "C16": COUNTING + STREAMS,
    "C17": COUNTING + STREAMS, "C18": STREAMS, "C19": STREAMS, "C20": STREAMS, "C21": ENCODERS + STREAMS + STATS, "C22": COLUMNS + STREAMS,
    "C23": CLONING + STREAMS + ENCODERS, "C24": ENCODERS + STREAMS, "C27": CLONING, "C28": ENCODERS + STREAMS,
}

TECHNIQUE = "abstract interpretation of MIR (gated value numbering, trace partitioning) with repository-specific rules"
TECH = {}
NA = {
    "N01": "quantifies over the behaviour of readers outside the repository; its structural parts are claimed as C01-C15 and C18-C21, C28",
    "N02": "behaviour of the Snappy and Zstandard libraries (foreign compressed-data algorithms); no static argument in reach bounds it",
    "N03": "a numerical-accuracy statement over runtime floating-point values and their order; not visible in the shape of the code",
    "N04": "a bound on allocator behaviour over runtime quantities (capacity growth of vectors, batch sizes)",
}
