"""The published ORC protobuf schema (orc_proto.proto, ORC 1.6): message fields (name, number, label, type) and enum values."""

MESSAGES = {
    "IntegerStatistics": [
        ("minimum", 1, "optional", "sint64"),
        ("maximum", 2, "optional", "sint64"),
        ("sum", 3, "optional", "sint64"),
    ],
    "DoubleStatistics": [
        ("minimum", 1, "optional", "double"),
        ("maximum", 2, "optional", "double"),
        ("sum", 3, "optional", "double"),
    ],
    "StringStatistics": [
        ("minimum", 1, "optional", "string"),
        ("maximum", 2, "optional", "string"),
        ("sum", 3, "optional", "sint64"),
    ],
    "BucketStatistics": [
        ("count", 1, "packed", "uint64"),
    ],
    "DecimalStatistics": [
        ("minimum", 1, "optional", "string"),
        ("maximum", 2, "optional", "string"),
        ("sum", 3, "optional", "string"),
    ],
    "DateStatistics": [
        ("minimum", 1, "optional", "sint32"),
        ("maximum", 2, "optional", "sint32"),
    ],
    "TimestampStatistics": [
        ("minimum", 1, "optional", "sint64"),
        ("maximum", 2, "optional", "sint64"),
        ("minimumUtc", 3, "optional", "sint64"),
        ("maximumUtc", 4, "optional", "sint64"),
    ],
    "BinaryStatistics": [
        ("sum", 1, "optional", "sint64"),
    ],
    "ColumnStatistics": [
        ("numberOfValues", 1, "optional", "uint64"),
        ("intStatistics", 2, "optional", "msg:IntegerStatistics"),
        ("doubleStatistics", 3, "optional", "msg:DoubleStatistics"),
        ("stringStatistics", 4, "optional", "msg:StringStatistics"),
        ("bucketStatistics", 5, "optional", "msg:BucketStatistics"),
        ("decimalStatistics", 6, "optional", "msg:DecimalStatistics"),
        ("dateStatistics", 7, "optional", "msg:DateStatistics"),
        ("binaryStatistics", 8, "optional", "msg:BinaryStatistics"),
        ("timestampStatistics", 9, "optional", "msg:TimestampStatistics"),
        ("hasNull", 10, "optional", "bool"),
        ("bytesOnDisk", 11, "optional", "uint64"),
    ],
    "RowIndexEntry": [
        ("positions", 1, "packed", "uint64"),
        ("statistics", 2, "optional", "msg:ColumnStatistics"),
    ],
    "RowIndex": [
        ("entry", 1, "repeated", "msg:RowIndexEntry"),
    ],
    "BloomFilter": [
        ("numHashFunctions", 1, "optional", "uint32"),
        ("bitset", 2, "repeated", "fixed64"),
        ("utf8bitset", 3, "optional", "bytes"),
    ],
    "BloomFilterIndex": [
        ("bloomFilter", 1, "repeated", "msg:BloomFilter"),
    ],
    "Stream": [
        ("kind", 1, "optional", "enum:Stream_Kind"),
        ("column", 2, "optional", "uint32"),
        ("length", 3, "optional", "uint64"),
    ],
    "ColumnEncoding": [
        ("kind", 1, "optional", "enum:ColumnEncoding_Kind"),
        ("dictionarySize", 2, "optional", "uint32"),
        ("bloomEncoding", 3, "optional", "uint32"),
    ],
    "StripeFooter": [
        ("streams", 1, "repeated", "msg:Stream"),
        ("columns", 2, "repeated", "msg:ColumnEncoding"),
        ("writerTimezone", 3, "optional", "string"),
    ],
    "Type": [
        ("kind", 1, "optional", "enum:Type_Kind"),
        ("subtypes", 2, "packed", "uint32"),
        ("fieldNames", 3, "repeated", "string"),
        ("maximumLength", 4, "optional", "uint32"),
        ("precision", 5, "optional", "uint32"),
        ("scale", 6, "optional", "uint32"),
    ],
    "StripeInformation": [
        ("offset", 1, "optional", "uint64"),
        ("indexLength", 2, "optional", "uint64"),
        ("dataLength", 3, "optional", "uint64"),
        ("footerLength", 4, "optional", "uint64"),
        ("numberOfRows", 5, "optional", "uint64"),
    ],
    "UserMetadataItem": [
        ("name", 1, "optional", "string"),
        ("value", 2, "optional", "bytes"),
    ],
    "StripeStatistics": [
        ("colStats", 1, "repeated", "msg:ColumnStatistics"),
    ],
    "Metadata": [
        ("stripeStats", 1, "repeated", "msg:StripeStatistics"),
    ],
    "Footer": [
        ("headerLength", 1, "optional", "uint64"),
        ("contentLength", 2, "optional", "uint64"),
        ("stripes", 3, "repeated", "msg:StripeInformation"),
        ("types", 4, "repeated", "msg:Type"),
        ("metadata", 5, "repeated", "msg:UserMetadataItem"),
        ("numberOfRows", 6, "optional", "uint64"),
        ("statistics", 7, "repeated", "msg:ColumnStatistics"),
        ("rowIndexStride", 8, "optional", "uint32"),
        ("writer", 9, "optional", "uint32"),
    ],
    "PostScript": [
        ("footerLength", 1, "optional", "uint64"),
        ("compression", 2, "optional", "enum:CompressionKind"),
        ("compressionBlockSize", 3, "optional", "uint64"),
        ("version", 4, "packed", "uint32"),
        ("metadataLength", 5, "optional", "uint64"),
        ("writerVersion", 6, "optional", "uint32"),
        ("magic", 8000, "optional", "string"),
    ],
    "FileTail": [
        ("postscript", 1, "optional", "msg:PostScript"),
        ("footer", 2, "optional", "msg:Footer"),
        ("fileLength", 3, "optional", "uint64"),
        ("postscriptLength", 4, "optional", "uint64"),
    ],
}

ENUMS = {
    "Stream_Kind": [('PRESENT', 0), ('DATA', 1), ('LENGTH', 2), ('DICTIONARY_DATA', 3), ('DICTIONARY_COUNT', 4), ('SECONDARY', 5), ('ROW_INDEX', 6), ('BLOOM_FILTER', 7), ('BLOOM_FILTER_UTF8', 8)],
    "ColumnEncoding_Kind": [('DIRECT', 0), ('DICTIONARY', 1), ('DIRECT_V2', 2), ('DICTIONARY_V2', 3)],
    "Type_Kind": [('BOOLEAN', 0), ('BYTE', 1), ('SHORT', 2), ('INT', 3), ('LONG', 4), ('FLOAT', 5), ('DOUBLE', 6), ('STRING', 7), ('BINARY', 8), ('TIMESTAMP', 9), ('LIST', 10), ('MAP', 11), ('STRUCT', 12), ('UNION', 13), ('DECIMAL', 14), ('DATE', 15), ('VARCHAR', 16), ('CHAR', 17)],
    "CompressionKind": [('NONE', 0), ('ZLIB', 1), ('SNAPPY', 2), ('LZO', 3), ('LZ4', 4), ('ZSTD', 5)],
}
