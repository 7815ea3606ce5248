#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", observe=None, claimed=True):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, observe=observe, claimed=claimed))

prop("C01", "What is written to a file is read back identical",
 "Any row groups handed to the file writer are read back identical: the same number of rows, the same repetition and definition levels, and bit-identical values in the same order, for every schema, nesting, distribution of nulls, split into pages, supported encoding, dictionary, page version and compression codec. This holds through every reader of decompressed pages, and through the per-page iterators of (optional, plain or dictionary-encoded) values.",
 ["inputs", "configurations"], "every schema, data, page split, encoding, codec and page version a user can combine",
 "the tests write a handful of one-column files of about ten values; the combinations of nesting, encoding, page version, codec and multi-page/multi-row-group layouts are never crossed",
 ["src/write/file.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/compression.rs", "src/read/page/reader.rs", "src/read/compression.rs", "src/page/mod.rs", "src/deserialize/"],
 [("page writing", "src/write/page.rs"), ("page reading", "src/read/page/reader.rs"), ("page splitting", "src/page/mod.rs split_buffer"), ("page states", "src/deserialize/{native,binary,fixed_len,boolean}.rs")],
 "round-trip monitor on generated files with an independent value model", "random exploration of files; values, levels and pages are compared with the model that generated them; some pages are encoded by the harness's own reference encoders")

prop("C02", "The asynchronous readers and writers agree with the synchronous ones",
 "For the same row groups the asynchronous writer produces, byte for byte, the file of the synchronous writer. Reading the same file asynchronously yields the same metadata, pages and columns as reading it synchronously, and a file one of them rejects is not silently accepted with different data by the other. None of this depends on how the transport splits reads and writes or on when it reports being pending.",
 ["inputs", "schedules"], "every file, every page filter and every sequence of partial or pending transport results",
 "the async tests read one fixture from a cursor that is always ready and never splits a read or write",
 ["src/write/stream.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/read/stream.rs", "src/read/page/stream.rs", "src/read/column/stream.rs"],
 [("async writer", "src/write/stream.rs"), ("async page reader", "src/read/page/stream.rs"), ("async metadata", "src/read/stream.rs")],
 "differential monitor of async against sync under injected partial and pending I/O", "random exploration of files and of transport schedules")

prop("C03", "Every completed file is a well-formed, self-consistent Parquet file",
 "In every file the writer completes, the magic bytes, footer length, schema, row and value counts, offsets, compressed and uncompressed sizes, codecs, lists of encodings, page headers, and page indexes all agree with the bytes actually found at those places, as judged by a reader that shares no code with the writer. The recorded regions cover the file without gaps or overlaps, and the number of bytes reported on completion is the size of the file.",
 ["inputs", "configurations"], "every file that can be written",
 "the tests read their own files back with the same crate, so an offset or size that nothing of this crate uses can be wrong unnoticed, and only for single-column files",
 ["src/write/file.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/indexes/"],
 [("offset bookkeeping", "src/write/file.rs FileWriter::write/end"), ("chunk metadata", "src/write/column_chunk.rs build_column_chunk"), ("indexes", "src/write/indexes/")],
 "offline checker of the written bytes (independent Thrift/Parquet parser)", "random exploration of files; gzip/brotli/zstd payloads are inflated with their own crates")

prop("C04", "Compression round-trips, appends, and inter-operates",
 "For every supported codec and level, decompressing what was compressed returns the original bytes; compressing appends to the output buffer and leaves what was there untouched. The compressed bytes conform to the codec's published format (an independent decoder accepts them, whichever LZ4 implementation was compiled in), and blocks other conforming writers produce, including Hadoop-framed LZ4, are decoded. Data that does not decode to the declared size is reported as an error, not returned as garbage.",
 ["inputs", "configurations"], "every byte string, codec, level and prior content of the buffer",
 "the tests compress one repetitive string per codec and read two LZ4 fixtures that are absent offline",
 ["src/compression.rs", "src/parquet_bridge.rs"],
 [("compress/decompress", "src/compression.rs"), ("hadoop lz4", "src/compression.rs try_decompress_hadoop")],
 "round-trip monitor plus independent decoders and a differential run of the two LZ4 back ends", "random and boundary-size inputs; snappy, LZ4 and Hadoop framing judged by independent codecs, the others by their reference crates")

prop("C05", "Run-length/bit-packed hybrid levels and indices encode and decode exactly",
 "For every bit width from 0 to 32 and every sequence of values that fit in it, encoding then decoding with the hybrid encoding returns the sequence, as does decoding any valid mixture of repeated and bit-packed runs produced by another writer, including runs longer than what is asked for. Bitmaps encode and iterate bit-exactly from any bit offset and for any length, and every length announced by the decoders is exact.",
 ["inputs"], "every bit width, sequence, run structure and length",
 "tests cover a few hand-made byte strings and widths",
 ["src/encoding/hybrid_rle/"],
 [("encoder", "src/encoding/hybrid_rle/encoder.rs"), ("decoder", "src/encoding/hybrid_rle/decoder.rs"), ("values decoder", "src/encoding/hybrid_rle/mod.rs"), ("bitmaps", "src/encoding/hybrid_rle/bitmap.rs")],
 "differential monitor against an independent reference codec", "random sequences over all widths plus structured run mixtures")

prop("C06", "Bit packing round-trips at every width and length",
 "For every unsigned integer type, every bit width from 1 to the width of the type and every number of values, packing produces exactly the little-endian, least-significant-bit-first layout of the format, and unpacking returns the values, from buffers with or without trailing bytes. Skipping ahead in the unpacked sequence is the same as stepping, and the announced lengths are exact.",
 ["inputs"], "every width, length, value and buffer tail",
 "tests cover fixed vectors for some widths",
 ["src/encoding/bitpacked/"],
 [("pack", "src/encoding/bitpacked/pack.rs"), ("unpack", "src/encoding/bitpacked/unpack.rs"), ("decoder", "src/encoding/bitpacked/decode.rs"), ("encoder", "src/encoding/bitpacked/encode.rs")],
 "differential monitor against a bit-by-bit reference", "all widths and types, random values and lengths")

prop("C07", "Delta binary packing round-trips every sequence of integers",
 "Every sequence of 64-bit integers, including ones whose differences overflow, is returned unchanged by encoding followed by decoding, and the encoded bytes are a valid delta-binary-packed stream for an independent decoder. Valid streams of other writers (any legal block size, number of mini-blocks, widths) decode to their values, and the decoder reports exactly the number of values and of bytes consumed.",
 ["inputs"], "every sequence and every legal block structure",
 "tests use a few short sequences of small numbers and one block structure",
 ["src/encoding/delta_bitpacked/"],
 [("encoder", "src/encoding/delta_bitpacked/encoder.rs"), ("decoder", "src/encoding/delta_bitpacked/decoder.rs")],
 "differential monitor against an independent reference codec", "random sequences with extreme values and random block structures")

prop("C08", "Byte-array encodings and variable-length integers round-trip",
 "Every sequence of byte strings is returned unchanged by encoding followed by decoding with the delta-length and the delta (prefix) encodings, and by decoding the plain length-prefixed form, in agreement with an independent codec in both directions. Every integer round-trips through the variable-length and zig-zag encodings, which report the exact number of bytes and use the canonical form.",
 ["inputs"], "every sequence of byte strings and every integer",
 "tests use two or three words and a few integers",
 ["src/encoding/delta_length_byte_array/", "src/encoding/delta_byte_array/", "src/encoding/plain_byte_array.rs", "src/encoding/uleb128.rs", "src/encoding/zigzag_leb128.rs"],
 [("encoders and decoders", "src/encoding/")],
 "differential monitor against independent reference codecs", "random strings with shared prefixes, empties, strict prefixes; boundary integers")

prop("C09", "Statistics survive, and a chunk's statistics cover all of its pages",
 "Statistics of every physical type round-trip exactly through pages and column chunks, present or absent field by field. When every data page of a column chunk carries statistics, the chunk's minimum and maximum are bounds of all values of the chunk in the sort order of the column's type, drawn from the pages' bounds, and its null count is the sum; when some data page has none, no bound or count that ignores it is reported.",
 ["inputs", "configurations"], "every type, annotation, distribution of values and combination of present and absent page statistics",
 "unit tests reduce two pages for four types with values of equal length",
 ["src/statistics/", "src/write/statistics.rs", "src/write/column_chunk.rs", "src/metadata/sort.rs", "src/types.rs"],
 [("reduction", "src/write/statistics.rs reduce"), ("serialization", "src/statistics/mod.rs"), ("sort order", "src/metadata/sort.rs")],
 "conservation/bounds monitor on written chunks and round-trip monitor on statistics", "random statistics and values; bounds judged by independent comparators")

prop("C10", "Page indexes describe exactly the pages of the file",
 "For every column chunk of every file written, the offset index lists its data pages in order with their true position, size and first row, and the column index (when statistics are written) holds each page's bounds and null count, and flags a page as null only when it holds no value. The crate's index readers return exactly these, for any requested set of columns, and seeking to any listed page reads that page.",
 ["inputs"], "every file and every subset of columns",
 "tests check one column with one page",
 ["src/write/indexes/", "src/read/indexes/", "src/indexes/"],
 [("writing", "src/write/indexes/"), ("reading", "src/read/indexes/read.rs"), ("typed indexes", "src/indexes/index.rs")],
 "consistency monitor over written files (indexes against pages)", "random multi-page, multi-group files")

prop("C11", "Row selection through page indexes returns exactly the selected rows",
 "For any set of selected rows of a column chunk, the pages chosen with the offset index are exactly those that hold a selected row, each with the right rows within it; reading only those pages (with the dictionary when there is one) and applying the row selection yields exactly the selected rows, in order. Converting a choice of pages into rows and back loses and adds nothing, also when the columns' page boundaries differ.",
 ["inputs"], "every page layout and selection, including empty, single-row, page-boundary-aligned and straddling intervals",
 "tests use three or four hand-written intervals over two pages",
 ["src/indexes/intervals.rs", "src/read/page/indexed_reader.rs", "src/read/compression.rs", "src/deserialize/utils.rs", "src/deserialize/filtered_rle.rs"],
 [("intervals", "src/indexes/intervals.rs"), ("indexed reader", "src/read/page/indexed_reader.rs"), ("slicing iterators", "src/deserialize/utils.rs SliceFilteredIter")],
 "model-based monitor (set of row numbers) over generated layouts and real files", "random layouts and selections, exhaustive on small layouts in the thorough tier")

prop("C12", "Filters and projections return exactly the chosen subset, in order",
 "A page filter sees every data page of the chunk and the pages it accepts are returned in order and unchanged, while dictionary pages are always kept; a row-group filter keeps exactly the accepted groups with their index. Selecting columns by field name returns all and only the leaves of that field in schema order, each with its own pages, and reading several columns together gives the same pages as reading each alone.",
 ["inputs"], "every file, every filter, every projection and any order of consumption",
 "tests use filters that accept everything, on one or two columns",
 ["src/read/page/reader.rs", "src/read/column/mod.rs", "src/read/mod.rs", "src/read/metadata.rs"],
 [("page filter", "src/read/page/reader.rs"), ("column iterators", "src/read/column/mod.rs"), ("row group filter", "src/read/mod.rs filter_row_groups")],
 "differential monitor against the full read of the same file", "random files and random filters")

prop("C13", "Schemas convert to and from their stored form without loss",
 "Every valid schema tree, with any nesting, repetition, field id, physical type and legal annotation, is recovered exactly from its stored form, and its leaves have the paths, order, and maximum repetition and definition levels that the format prescribes. A stored schema that is not a well-formed tree, or an annotation that is illegal for its physical type, is rejected with an error. A projection of a schema is recognised as contained in it, and a schema with other leaves is not.",
 ["inputs"], "every schema tree and every malformed list of schema elements",
 "tests convert two or three fixed schemas",
 ["src/schema/io_thrift/", "src/schema/types/", "src/metadata/schema_descriptor.rs", "src/metadata/column_descriptor.rs", "src/parquet_bridge.rs"],
 [("from stored form", "src/schema/io_thrift/from_thrift.rs"), ("to stored form", "src/schema/io_thrift/to_thrift.rs"), ("leaves and levels", "src/metadata/schema_descriptor.rs build_tree"), ("annotation checks", "src/schema/types/spec.rs")],
 "round-trip and reference-model monitor over generated schemas", "random trees plus mutated element lists; annotation legality judged by an independent table")

prop("C14", "The textual schema language parses to the schema it denotes",
 "A schema printed in the textual message syntax, with any layout of white space, every physical type, repetition, logical and legacy annotation, field id and nesting, is parsed to exactly that schema. Any other text, however malformed, is answered with an error or a schema, never a crash or a hang.",
 ["inputs"], "every schema and every text",
 "tests parse about a dozen fixed messages",
 ["src/schema/io_message/from_message.rs"],
 [("tokenizer and parser", "src/schema/io_message/from_message.rs")],
 "printer/parser differential monitor plus crash monitor on mutated text", "independent printer over random schemas; token- and byte-level mutations")

prop("C15", "File metadata is preserved by storing and reading it back",
 "Whatever metadata a file is given (schema, version, creator, key-value pairs, row groups with every column-chunk field this crate models, of any size) is what is read back from it, by every way of reading metadata: from a seekable file, with a known size, asynchronously, from a side-car file, and after conversion to and from the stored structure. Truncating the file or changing its framing is always reported as an error.",
 ["inputs"], "every metadata content and size, and every truncation",
 "tests read small fixtures and write one row group",
 ["src/read/metadata.rs", "src/metadata/", "src/write/file.rs"],
 [("footer reading", "src/read/metadata.rs"), ("conversions", "src/metadata/file_metadata.rs, row_metadata.rs, column_chunk_metadata.rs")],
 "round-trip monitor with an independently built footer", "random metadata, footers from tens of bytes to megabytes, all truncations of small files")

prop("C16", "Bloom filters have no false negatives and follow the format",
 "Every value inserted in a bloom filter is reported as present, for every filter size the format allows and any number of other inserted values, and the bits set are exactly those of the format's split-block algorithm over its hash of the value. Inserting never clears bits, looking up never changes the filter, and a filter stored in a file is read back bit for bit for any requested column.",
 ["inputs", "histories"], "every filter size, value and history of insertions",
 "tests insert a handful of values in one 32- or 64-byte filter and read one fixture",
 ["src/bloom_filter/"],
 [("hash", "src/bloom_filter/hash.rs"), ("split block", "src/bloom_filter/split_block.rs"), ("reading", "src/bloom_filter/read.rs")],
 "model-based monitor against an independent split-block implementation (own xxhash64)", "random histories of insertions and look-ups")

prop("C17", "No file bytes can crash or hang the readers",
 "Whatever the bytes of a file or of a stored structure, reading its metadata, page indexes, bloom filters and pages, including decompression, terminates with data or an error: it never panics, overflows the stack, or loops without progress.",
 ["inputs"], "every byte string given to a reader, in particular valid files with corrupted or adversarial fields",
 "tests feed about five hand-made corrupted inputs",
 ["src/read/", "src/compression.rs", "src/metadata/", "src/schema/io_thrift/", "src/indexes/", "src/bloom_filter/read.rs", "src/page/mod.rs", "src/statistics/"],
 [("size limits and checks", "src/read/metadata.rs, src/read/page/reader.rs"), ("conversions with errors", "src/metadata/")],
 "crash/hang monitor (panic hook, overflow checks, stack and CPU supervision) under structure-aware corruption", "random and structure-aware mutations of valid files; every optional and numeric field of the footer, page headers and indexes is attacked", )

prop("C18", "No page content can crash or hang the decoders",
 "Whatever the content of a decompressed page and whatever its header declares, splitting the page into levels and values, building any of the page iterators, and stepping any of the value decoders any number of times gives values or errors and terminates: it never panics, overflows the stack, or loops without progress.",
 ["inputs"], "every page body, header and dictionary, and every byte string given to a decoder",
 "tests feed almost only valid pages",
 ["src/page/mod.rs", "src/deserialize/", "src/encoding/"],
 [("level splitting", "src/page/mod.rs"), ("decoders returning errors", "src/encoding/"), ("page states", "src/deserialize/")],
 "crash/hang monitor (panic hook, overflow checks, stack and CPU supervision) under structure-aware corruption", "random and structure-aware mutations of valid encodings and pages")

prop("C19", "Memory use is bounded by the data actually present",
 "Reading or decoding any bytes never allocates memory out of proportion to the size of what was given and of the limits the caller set: a small corrupted file cannot make metadata or page reading request large amounts of memory, and a page whose declared size exceeds the caller's limit is refused before memory for it is allocated, while a limit that no page exceeds refuses nothing.",
 ["inputs"], "every byte string and caller-set limit",
 "one test checks one metadata byte string",
 ["src/read/metadata.rs", "src/read/page/reader.rs", "src/read/page/stream.rs", "src/read/indexes/read.rs", "src/bloom_filter/read.rs", "src/read/compression.rs"],
 [("metadata allocation limit", "src/read/metadata.rs"), ("page size limit", "src/read/page/reader.rs")],
 "allocation monitor (instrumented global allocator) under corrupted and adversarial inputs", "structure-aware corruption of sizes and counts; peak and largest request measured per call")

prop("C20", "A failing or reluctant sink never yields a file that looks complete but is not",
 "Whatever the sequence of partial writes, interruptions and errors of the underlying writer, either every byte of the correct file is written, in order, exactly once, or an error is returned; a completion is never reported for a file that is not complete and correct. Partial writes and interruptions alone change nothing. This holds for the synchronous and the asynchronous writers and for side-car metadata.",
 ["fault_sequences"], "every position and kind of failure, and every split of writes",
 "tests write to memory, which never fails or splits",
 ["src/write/file.rs", "src/write/stream.rs", "src/write/page.rs", "src/write/row_group.rs", "src/write/column_chunk.rs"],
 [("error propagation", "src/write/"), ("writer state", "src/write/file.rs State")],
 "fault injection at every write call with an offline checker of the resulting bytes", "every write call of each generated file is failed once (quick: sampled for large files)", level="fault_enumeration")

prop("C21", "A failing or reluctant source never yields wrong data",
 "Whatever the sequence of short reads, interruptions, errors and early ends of the underlying reader, reading metadata, indexes or pages yields either exactly the data of the file or an error, never data that differs and never a silently shortened column. Short reads and interruptions alone change nothing.",
 ["fault_sequences"], "every position and kind of failure or truncation, and every split of reads",
 "tests read from memory, which never fails or splits",
 ["src/read/", "src/bloom_filter/read.rs"],
 [("page reader", "src/read/page/reader.rs"), ("indexed reader", "src/read/page/indexed_reader.rs"), ("metadata reader", "src/read/metadata.rs")],
 "fault injection at every read and seek call, compared with the fault-free read", "every read/seek call of each generated file is failed once (quick: sampled for large files)", level="fault_enumeration")

prop("C22", "Buffer reuse never leaks one page into another",
 "Pages produced by the reusing decompressor, compressor and page readers do not depend on what their scratch buffers held before, on the pages that preceded them, or on mixes of compressed and uncompressed pages: each equals the page obtained with fresh buffers. Handing buffers back and forth between iterators, or consuming a stream with skips, changes nothing, and after an error no stale page is presented as a new one.",
 ["histories"], "every sequence of pages, codecs, sizes, buffer contents and interleavings of get, next and skip",
 "tests reuse one buffer for one page",
 ["src/read/compression.rs", "src/write/compression.rs", "src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/read/column/mod.rs"],
 [("decompressor", "src/read/compression.rs Decompressor/BasicDecompressor"), ("compressor", "src/write/compression.rs Compressor")],
 "differential monitor against fresh buffers over random histories", "random page sequences with adversarial buffer contents")

prop("C23", "Page iterators yield the selected values, nulls and runs of the page",
 "For every valid page, the split into repetition levels, definition levels and values is exact for both page versions, and the iterators over required, optional, filtered, dictionary-encoded and run-based content yield exactly the values and nulls of the page (or of the selected rows), with exact announced lengths, however the levels were cut into runs. Runs, validity bitmaps and per-value iteration of the same levels agree with each other, and 96-bit timestamps convert to their instant and are ordered by it.",
 ["inputs"], "every page, level-run structure and row selection",
 "tests cover single-run levels and one selection",
 ["src/page/mod.rs", "src/deserialize/", "src/read/levels.rs"],
 [("splitting", "src/page/mod.rs"), ("runs", "src/deserialize/hybrid_rle.rs"), ("filtered runs", "src/deserialize/filtered_rle.rs"), ("optional values", "src/deserialize/utils.rs")],
 "model-based monitor over generated pages, runs and selections", "random pages with reference-encoded levels in arbitrary run structures")

prop("C24", "Valid files of other writers are read correctly",
 "Files laid out in any way the format allows, not only the way this crate writes them, are read to the same values: separate dictionary offsets, padding between chunks, unknown or absent optional fields, several dictionary or bit-packed/run-length mixtures, uncompressed sections in compressed second-version pages, indexes and footers placed anywhere, legacy annotations only. Metadata fields read back are those stored.",
 ["inputs", "configurations"], "every valid layout and choice of optional fields",
 "tests rely on fixtures of three other writers, absent offline",
 ["src/read/", "src/metadata/", "src/schema/io_thrift/from_thrift.rs", "src/page/mod.rs"],
 [("chunk location", "src/metadata/column_chunk_metadata.rs byte_range"), ("page reading", "src/read/page/reader.rs"), ("v2 decompression", "src/read/compression.rs")],
 "round-trip monitor over files produced by an independent writer", "random files from the harness's own file builder")

prop("C25", "Concurrent use gives the sequential result",
 "Writing and reading any number of files from many threads at once, sharing parsed metadata and moving pages, readers and statistics between threads, gives exactly the result of doing so one after the other, without data races; and the bytes written depend only on what was written, not on time, address-space layout, or hash seeds.",
 ["schedules", "histories"], "every interleaving of threads and every process",
 "no test uses threads or compares two processes",
 ["src/write/", "src/read/", "src/metadata/", "src/write/dyn_iter.rs", "src/statistics/"],
 [("no shared mutable state", "whole crate: forbid(unsafe_code)"), ("Send + Sync types", "src/write/dyn_iter.rs, src/statistics/mod.rs")],
 "stress with sequential-equivalence oracle, repeated in ThreadSanitizer and in separate processes", "schedules are those the OS produces under stress and injected yields")

prop("C26", "Misusing the writer is an error, never a silently broken file",
 "Whatever sequence of calls is made on a writer and whatever the iterators given to it produce (errors, missing row counts or statistics, mixed codecs, wrong numbers of columns, row groups of unequal lengths), a completion that reports success leaves a file that is readable and holds exactly the row groups whose writing succeeded. Finishing twice, or finishing what was never started, is handled without producing a broken file.",
 ["histories"], "every sequence of calls and every behaviour of the supplied iterators",
 "tests follow the happy path",
 ["src/write/file.rs", "src/write/stream.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/indexes/"],
 [("writer state machine", "src/write/file.rs State"), ("validation", "src/write/column_chunk.rs, src/write/indexes/serialize.rs")],
 "history monitor: random call sequences with an offline checker of the resulting bytes", "random histories over sync and async writers")

prop("C27", "Serialised metadata, schemas and selections are restored unchanged",
 "With serde support enabled, every serialisable type (row group and column chunk metadata, schema and column descriptors, types and their annotations, intervals, filtered pages and all enumerations) that is serialised and deserialised again is equal to the original, in every serde format: textual and binary, self-describing or not, with bytes kept apart from sequences or not, with maps or positional fields, and with fields in another order. Reading a file with restored row groups and page selections gives the same data. Deserialising an altered column chunk is an error or a usable value, never a crash or an allocation out of proportion.",
 ["inputs", "configurations"], "every value of the serialisable types and every kind of serde format",
 "no test enables the serde_types feature",
 ["src/metadata/column_chunk_metadata.rs", "src/metadata/row_metadata.rs", "src/metadata/schema_descriptor.rs", "src/metadata/column_descriptor.rs", "src/schema/types/", "src/parquet_bridge.rs", "src/indexes/intervals.rs"],
 [("column chunk as thrift bytes", "src/metadata/column_chunk_metadata.rs serialize_column_chunk, deserialize_column_chunk"), ("derived implementations", "src/metadata/, src/schema/types/, src/parquet_bridge.rs, src/indexes/intervals.rs")],
 "round-trip monitor through real and self-written strict serde formats, with allocation and panic monitors on altered input", "random exploration of values and formats; results are compared with the description that generated them")

prop("C28", "With fewer features enabled, everything else works and the rest is refused",
 "The crate compiles with each of its cargo features alone, with none and with all. In each such build, reading metadata, pages and indexes, and decompressing, compressing, reading and writing with the codecs that are enabled, give the same results as in a build with all codecs, whichever back end (LZ4 in C or Rust, gzip with zlib-ng) is chosen. What needs a codec that is not enabled is reported as the error naming the missing feature; it never panics, and never returns, accepts or writes data that is not (de)compressed as declared.",
 ["inputs", "configurations"], "every set of features, every file and data",
 "the tests run with one set of features; no test reads or writes with a codec that is not compiled in",
 ["src/compression.rs", "src/error.rs", "src/lib.rs", "src/parquet_bridge.rs", "src/read/mod.rs", "src/write/mod.rs", "Cargo.toml"],
 [("absent codecs", "src/compression.rs compress, decompress: cfg(not(feature = ..))"), ("features", "Cargo.toml [features]")],
 "differential monitor: the same operations on the same random files and data in builds with other features, outcomes compared with the full build", "random exploration of files and data in 14 sets of features")

NA = []
def main():
    ids = set()
    import subprocess
    out = []
    for p in P:
        out.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"] or ["public API of the crate, as a user would call it"], "hook_needed": None},
        }, ensure_ascii=False))
    open(f"{ROOT}/properties.jsonl", "w").write("\n".join(out) + "\n")
    built = set(open(f"{ROOT}/tools/built.txt").read().split())
    man = {
        "version": 1,
        "setup_cmd": "./check.sh build",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in P if p["id"] in built],
        "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in P if p["id"] not in built],
        "notes": "Every check rebuilds the harness crate (harness/) against /repo's working tree and runs it; see DESIGN.md.",
    }
    open(f"{ROOT}/MANIFEST.json", "w").write(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
main()
