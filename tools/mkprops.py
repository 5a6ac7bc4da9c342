#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                  **({"observe_at": observe} if observe else {}), "hook_needed": None}})

p("C01", "Compress then decompress returns exactly the original bytes",
  "Whatever bytes are written to a compressor, in whatever pieces and with whatever flushes in between, under every valid combination of format, strategy, compression level, memory level, window size and preset dictionary, every write, flush and close on a non-failing destination succeeds without panicking. A decompressor for the same format (or auto-detecting zlib/gzip), with the same dictionary and at least the same window size and any memory level, then returns exactly those bytes followed by a clean end of stream.",
  ["inputs", "histories", "configurations"],
  "all data contents and sizes (including incompressible data, skewed symbol frequencies and data longer than every internal buffer and window), all write/flush sequences, all option combinations",
  "the existing tests round-trip a handful of fixed files with a few option sets and one write each; they never reach incompressible data larger than 64 KiB, skewed frequencies, small windows, or flush histories",
  ["writer.go", "reader.go", "token.go", "analysis.go", "bitwriter.go", "huffman.go", "block64.go", "block32.go"],
  [("LZ77 matching and token generation", "writer.go: compressSlow, compressStore, Writer.Write, compressImpl"),
   ("block encoding (stored/static/dynamic) and bit accumulator", "writer.go: compressTokens, write*Block, outputBits*"),
   ("symbol mapping for lengths, distances and code lengths", "token.go: symbolLL, symbolD, symbolX; analysis.go: encodeTreeTokens"),
   ("decoding and window replay", "reader.go: readFlateBlock, decodeHuffmanBlock, decodeBufferWrite")],
  ["bytes written to the destination", "bytes returned by Read and its final error"])

p("C02", "Compressor output is standard-conforming and decodes identically elsewhere",
  "Everything the compressor emits, under any options and any write/flush history, is a well-formed sequence of RFC 1951, 1950 or 1952 streams: valid block types and stored lengths, prefix codes within the standard's size limits that are neither oversubscribed nor (beyond the single-code case) incomplete, only assigned symbols, no match reaching before the available history, correct header check bits, and trailer checksums and length equal to those of the data. Independent strict decoders accept the whole output, recover exactly the written bytes, and are left with no unread bytes.",
  ["inputs", "histories", "configurations"],
  "all data, option combinations and write/flush histories; decoded by a strict decoder written from the RFCs and by the Go standard library",
  "the existing tests compare against a few golden outputs; they cannot show that every code set, every block and every header produced for other inputs is legal",
  ["writer.go", "token.go", "analysis.go", "huffman.go", "bitwriter.go", "internal/adler32/adler32.go", "internal/crc32/crc32.go"],
  [("code construction and length limiting", "writer.go: compressTokens, writeDynamicBlock"),
   ("code-length code run-length coding", "analysis.go: encodeTreeTokens"),
   ("headers and trailers", "writer.go: writeHeaderZlib, writeHeaderGZIP, writeFooterZlib, writeFooterGZIP")],
  ["bytes written to the destination"])

p("C03", "Decompressor decodes every conforming stream from any producer",
  "For every conforming raw DEFLATE, zlib or gzip stream - any sequence of stored, static and dynamic blocks including empty ones, any legal code-length assignment (lengths 1 to 15, single-code or no-code distance trees, any run-length coding of the lengths), match lengths 3 to 258 and distances 1 to 32768 including self-overlapping ones, any preset dictionary, and any combination of gzip optional header fields - the decompressor returns exactly the bytes the standard defines and then a clean end of stream.",
  ["inputs", "configurations"],
  "all conforming streams, generated at token level so that shapes this compressor never produces are covered, plus streams from the Go standard library compressors at all their levels",
  "the existing tests decode a few files produced by one encoder; legal encodings no common encoder chooses, and window positions past the first 32 KiB, are not reached",
  ["reader.go", "huffman.go", "internal/adler32/adler32.go", "internal/crc32/crc32.go"],
  [("block decoding", "reader.go: readFlateBlock*, readDynamicTrees, decodeX, readSymbol, decodeLL, decodeD"),
   ("match copying from the sliding window", "reader.go: decodeHuffmanBlock, decodeBufferWrite"),
   ("header parsing", "reader.go: readHeaderZlib, readHeaderGZIP*")],
  ["bytes returned by Read and its final error"])

p("C04", "Malformed input is rejected at the first violation, with no crash and no hang",
  "For any byte sequence whatsoever and any options, decompression terminates without panicking; it ends cleanly only if the whole input is a sequence of well-formed streams, and otherwise it returns exactly the data the standard assigns to the input before the first violation (and never anything after it) followed by a corrupt-input or unexpected-end error. Reserved block types, mismatched stored lengths, oversubscribed codes, too many codes, bad code-length repeats, unassigned codes, invalid length or distance symbols, matches reaching before the start of the available history, malformed headers and bytes after the last stream that are not themselves a stream are all violations.",
  ["inputs", "configurations"],
  "all byte sequences: arbitrary bytes, mutated valid streams, and valid streams with one violation of a chosen kind planted at a chosen place",
  "the existing tests feed almost no malformed input; a violation can appear at any bit of any stream",
  ["reader.go", "header.go", "errors.go"],
  [("violation checks", "reader.go: corruptf call sites, readDynamicTrees, decodeX, decodeLL, decodeD, readFlateBlockStored"),
   ("stop after error", "reader.go: readThread, readFlateBlock, closeWithError"),
   ("extra-field parsing", "header.go: ExtraData.Parse")],
  ["bytes returned by Read and its final error", "process termination"])

p("C05", "A truncated stream yields a prefix of the data and then unexpected EOF",
  "If a conforming stream is cut at any byte position after its first byte (its second, under auto-detection) and before its end, the decompressor returns a prefix of the original data that includes at least everything in the Huffman-coded symbols and bytes of stored blocks wholly present before the cut, and then io.ErrUnexpectedEOF: never a clean end, never a corrupt-input error, and never data that is not part of the original. A cut exactly between two concatenated streams is the only kind that ends cleanly.",
  ["inputs", "crash_points"],
  "every cut position (enumerated for short streams) of generated conforming streams in every format, from any producer",
  "the existing tests do not truncate streams at all",
  ["reader.go"],
  [("end-of-input handling in every read path", "reader.go: propagateError, inputBitsFill, inputBufferRead, readSymbol, inputBufferReadStringZ")],
  ["bytes returned by Read and its final error"])

p("C06", "Checksum, length and check-bit mismatches are always reported",
  "When, in an otherwise well-formed zlib or gzip stream, the stored Adler-32, CRC-32, data length, gzip header CRC-16, zlib header check value or dictionary identifier differs in any bit from the value computed over the actual content - whether the stored value or the content was altered - the decompressor ends with a corrupt-input error, never with a clean end of stream. Conversely, a stream whose stored values all match is never reported as corrupt.",
  ["inputs", "configurations"],
  "all streams, every altered bit or swapped field, at any stream position in a concatenation",
  "the existing tests never alter a trailer or a header check field",
  ["reader.go", "internal/adler32/adler32.go", "internal/crc32/crc32.go"],
  [("trailer verification", "reader.go: readFooterZlib, readFooterGZIP"),
   ("header verification", "reader.go: readHeaderZlib, readHeaderGZIPCRC16")],
  ["final error of Read"])

p("C07", "Preset dictionaries work for every content and are identified correctly",
  "For every non-empty dictionary, whatever its content and length (all zero bytes, longer than the window), data compressed with it decompresses exactly when the same dictionary is supplied, and in zlib format the header announces the dictionary by the Adler-32 of the whole dictionary. A zlib decompressor given no dictionary or a different one (different Adler-32), or given a dictionary when the stream announces none, reports corruption without returning data; the dictionary applies afresh to every concatenated stream and is copied, so that the caller may modify its slice afterwards.",
  ["inputs", "configurations"],
  "all dictionaries, data, formats, window sizes and strategies; interoperating with the standard library's dictionary support in both directions",
  "the existing tests use at most one dictionary; all-zero or oversize dictionaries and mismatches are not exercised",
  ["options.go", "reader.go", "writer.go"],
  [("priming the window", "reader.go: readHeader; writer.go: writeHeader"),
   ("FDICT / DICTID", "reader.go: readHeaderZlib; writer.go: writeHeaderZlib"),
   ("defensive copy", "options.go: WithDictionary")],
  ["zlib header bytes", "bytes returned by Read and its final error"])

p("C08", "Window-size limits are respected on both sides",
  "A compressor configured for a window of 2^W bytes never emits a match distance greater than 2^W and, in zlib format, declares exactly W in its header. A decompressor configured for 2^W decodes every stream whose distances do not exceed 2^W, rejects with a corrupt-input error any zlib header that declares a larger window, and rejects with a corrupt-input error any match distance greater than 2^W, having returned only the data before it.",
  ["inputs", "configurations"],
  "all window sizes 8 to 15 on either side, data with repeats at every distance around the limits, all formats and strategies",
  "the existing tests use the default window size, or one other",
  ["writer.go", "reader.go", "enum_wbits.go"],
  [("match search limit", "writer.go: hybridOptions"), ("window size of the decoder", "reader.go: windowNumBits, decodeHuffmanBlock"),
   ("declared window", "writer.go: writeHeaderZlib; reader.go: readHeaderZlib")],
  ["distances in the emitted stream", "zlib header", "final error of Read"])

p("C09", "Each kind of flush delivers what it promises",
  "After a successful partial, sync, full or finish flush, everything written before it can be decoded from the bytes that have reached the destination by then; after a sync or full flush of a stream that has begun those bytes end, on a byte boundary, with an empty stored block; a partial flush of such a stream is padded with an empty static block; after a full flush the bytes that follow can be decoded without any knowledge of what came before; a finish flush completes the stream with a final block and trailer. A block flush ends the current block without ending the stream, no flush of any kind changes the decoded content, and after every successful flush the destination's own flush and sync operations, if it has them, have been invoked.",
  ["histories", "configurations"],
  "all sequences of writes and flushes (including repeated, empty and initial flushes) under all option combinations",
  "the existing tests do not inspect what has reached the destination after a flush",
  ["writer.go", "enum_flushtype.go"],
  [("flush kinds", "writer.go: Flush, flushImpl, flushGuts"), ("bit accumulator draining", "writer.go: outputBitsFlush, outputBufferWrite")],
  ["bytes at the destination after each flush", "Flush/Sync calls on the destination"])

p("C10", "Concatenated streams are all decoded, and all written",
  "Decompressing a concatenation of any number of conforming zlib or gzip streams (or raw streams in raw mode; in auto-detect mode zlib and gzip may be mixed) returns the concatenation of their contents followed by a clean end, however the input is split into reads. Data written to a compressor after a finish flush forms a new, independently decodable stream appended to the previous one.",
  ["inputs", "histories"],
  "all sequences of streams (including empty-content ones), all producers, all input chunkings and buffer sizes",
  "the existing tests decode single streams only",
  ["reader.go", "writer.go"],
  [("stream loop", "reader.go: readThread, readHeader, readFooter"), ("stream state machine", "writer.go: compressImpl, flushImpl; enum_writerstate.go")],
  ["bytes returned by Read and its final error", "bytes at the destination"])

p("C11", "Format auto-detection recognises every zlib and gzip stream",
  "With no format selected, the decompressor recognises every conforming gzip and zlib stream by its header and decodes it exactly as if that format had been selected, for each stream of a concatenation separately and however the input is split into reads; input that starts with neither header is decoded as raw DEFLATE. With a format selected, input in another format is never silently decoded as the other format.",
  ["inputs", "configurations"],
  "all streams in all formats, all first-two-byte values, all chunkings including one byte at a time and headers straddling the internal buffer's end",
  "the existing tests do not split headers across reads or buffer boundaries",
  ["reader.go", "enum_format.go"],
  [("detection", "reader.go: readHeaderAuto")],
  ["bytes returned by Read and its final error", "format reported to tracers"])

p("C12", "Gzip header metadata survives exactly, in both directions",
  "Every header accepted by SetHeader is written so that this decompressor, and independent gzip readers, recover the same file name, comment, modification time (to the second; time zero means none), extra-data records and, where set, data type and operating system, and the header's own CRC is right; a header that cannot be represented (embedded NULs, path separators in the name, names or comments of 256 bytes or more, times outside 32 bits, unknown operating systems, extra data beyond 65535 bytes) is refused with an error and leaves the previous header in effect. Any conforming gzip header from another producer is reported to tracers with exactly its field values, and automatic text/binary classification of one stream never leaks into another: a stream with no data type set is marked as text if all of its content is free of control characters (other than 9 to 13), and not if such a character is among the first bytes written.",
  ["inputs", "configurations"],
  "all header field values and combinations around their limits, streams from the standard library's gzip writer and from a token-level generator",
  "the existing tests use one fixed header",
  ["header.go", "writer.go", "reader.go", "enum_ostype.go", "enum_datatype.go", "analysis.go"],
  [("validation", "writer.go: SetHeader, checkHeader*"), ("encoding", "writer.go: writeHeaderGZIP*"), ("decoding", "reader.go: readHeaderGZIP*"),
   ("text detection", "analysis.go: isText")],
  ["gzip header bytes", "header events", "SetHeader result"])

p("C13", "Destination failures are reported, stick, and leave a valid prefix",
  "If the destination fails at any point - any of its writes (after accepting any number of bytes), or its flush or sync - the failing call or a later one returns an error matching the destination's error, and the bytes accepted by the destination are always a prefix of what a fault-free run would have produced. Once a call has returned that error, every later write or flush returns it again without touching the destination, close returns it once, and nothing panics; errors that mean only that the destination does not support syncing are ignored.",
  ["fault_sequences", "histories"],
  "a failure at every destination call and every byte offset, all write/flush/close histories, all option combinations",
  "the existing tests never use a failing destination",
  ["writer.go", "enum_writerstate.go"],
  [("error state", "writer.go: outputBufferFlush, flushImpl, Write, Flush, Close"), ("ignored sync errors", "writer.go: isIgnoredSyncError")],
  ["errors returned by Write/Flush/Close", "calls and bytes received by the destination"])

p("C14", "Source failures are reported as themselves, after all decodable data",
  "If the source returns an error other than end-of-file at any point, alone or together with data, the decompressor returns every byte decodable from the input received before the failure and then an error matching the source's error: never a clean end of stream, an unexpected-EOF or a corrupt-input error in its place. Short reads, reads of zero bytes without an error, and data returned together with end-of-file are handled like any other splitting of the input.",
  ["fault_sequences", "inputs"],
  "a source failure at every input offset, with and without accompanying data, all chunkings, all formats",
  "the existing tests read from in-memory buffers only",
  ["reader.go"],
  [("error propagation", "reader.go: inputBufferFill, propagateError, closeWithError, readSymbol")],
  ["bytes returned by Read and its final error"])

p("C15", "Decompression results do not depend on how data is chunked, and errors stick",
  "The bytes returned in total and the kind of the final error are a function of the input bytes and the format, window and dictionary options alone: they do not depend on the sizes of the buffers passed to Read, on how the source splits its data, on the memory level, or on timing. After the final error has been returned, every further Read returns zero bytes and the same error.",
  ["inputs", "schedules", "configurations"],
  "all inputs (valid, malformed, truncated), all read-size and source-chunk sequences, all memory levels, repeated runs",
  "the existing tests read each input once with one chunking",
  ["reader.go"],
  [("hand-off between background decoder and Read", "reader.go: Read, decodeBufferMustFlush, closeWithError")],
  ["bytes returned by Read, call by call, and its errors"])

p("C16", "A reset compressor behaves exactly like a new one",
  "After Reset, in any permitted state and after any history (finished, closed, failed at any point, configured differently), a compressor given a sequence of operations produces exactly the bytes, results and tracer events (counters included) of a newly built compressor with the merged options and header settings. Compressing is deterministic: the same operations with the same options always produce the same bytes.",
  ["histories", "configurations", "fault_sequences"],
  "all histories before the reset including destination failures, all option changes at the reset, all subsequent histories",
  "the existing tests reset a compressor once or not at all, never after a failure or with changed options",
  ["writer.go", "options.go", "pools.go"],
  [("state reset", "writer.go: Writer.Reset, writeHeader")],
  ["bytes at the destination after the reset", "events after the reset"])

p("C17", "A reset decompressor behaves exactly like a new one, from any state",
  "Reset on a decompressor always returns - before the first read, in the middle of a stream with output pending, after the end, after any error, after Close - and afterwards the decompressor returns for the new source exactly the data, error and tracer events (counters included) that a newly built one with the merged options would return.",
  ["histories", "schedules", "configurations"],
  "all histories before the reset (any amount read of any valid or corrupt input), all option changes, all subsequent inputs",
  "the existing tests reset, if at all, only after a complete read",
  ["reader.go", "options.go"],
  [("state reset", "reader.go: Reader.Reset, stopReadThreadLocked, readHeader")],
  ["bytes returned by Read and its final error", "return of Reset"])

p("C18", "Close always completes, releases everything, and is final",
  "Closing a decompressor at any moment (before, during or after reading, or while another goroutine is blocked in Read) returns once any call in progress on the source has returned; reads in progress end, what they have returned is a prefix of the content, and a stream interrupted by Close never appears to have ended cleanly. No background activity is left: the source is not touched after Close has returned and no goroutine remains. Closing a compressor completes the stream exactly once; a second close and every later write or flush return the standard closed-file error and emit nothing.",
  ["histories", "schedules"],
  "all read histories before Close, all inputs, concurrent Read and Close; all write/flush histories before and operations after a compressor's Close",
  "the existing tests close only after complete use",
  ["reader.go", "writer.go"],
  [("stopping the background decoder", "reader.go: Close, stopReadThreadLocked, decodeBufferMustFlush"), ("closed state", "writer.go: Close, Write, Flush")],
  ["results of Close/Read/Write/Flush", "source and destination accesses", "goroutines"])

p("C19", "Tracer events describe exactly the streams processed",
  "Tracers on either side see, for every stream in order, exactly one begin, one header, then for every block a begin, trees (Huffman blocks only) and end, then one stream end and one stream close, with block types, final flags, code lengths and tree counts equal to those in the actual bits, footer checksums equal to those of the data, the right stream number and format, and byte counters that never decrease, start from zero for each stream and equal the true stream sizes at its end. When decompression fails, the events seen are a prefix of such a sequence and never include the close of the failed stream; all tracers see all events, what an event holds is not changed afterwards, and the logging tracer renders each as valid JSON at trace priority.",
  ["inputs", "histories", "configurations"],
  "all streams (generated and self-produced), all write/flush histories, single and concatenated, valid and corrupt",
  "the existing tests attach at most a logging tracer and check nothing about events",
  ["trace.go", "reader.go", "writer.go", "enum_eventtype.go", "huffman.go"],
  [("event emission", "reader.go and writer.go: sendEvent call sites"), ("counters", "reader.go: inputBytes*/outputBytes*; writer.go: inputBytes*/outputBytes*"),
   ("log rendering", "trace.go: logTracer; MarshalJSON methods")],
  ["events received by tracers"])

p("C20", "Adler-32 and CRC-32 are exact for every content, length and splitting",
  "The checksums placed in trailers and reported to tracers by compressor and decompressor equal the standard Adler-32 and CRC-32 of the data, for every content (including long runs of 0xFF and lengths around every internal block boundary), every length, and every way the data is split into pieces, on every supported code path (vector-accelerated and generic).",
  ["inputs", "configurations"],
  "all contents and lengths up to megabytes, all piece sizes, accelerated and non-accelerated implementations",
  "the existing tests use short fixed strings on one implementation",
  ["internal/adler32/adler32.go", "internal/crc32/crc32.go", "internal/crc32/crc32_amd64.go", "internal/crc32/crc32_generic.go", "reader.go", "writer.go"],
  [("deferred modulo reduction", "internal/adler32/adler32.go: Update"), ("slicing-by-8 and CLMUL", "internal/crc32")],
  ["trailer bytes", "footer events"])

p("C21", "Strategies and levels keep their contracts, and expansion is bounded",
  "The Huffman-only strategy emits no matches, the run-length strategy emits only matches at distance one, the fixed strategy emits no dynamic-code blocks, and level 0 emits data only in stored blocks; the level hint in the header (zlib FLEVEL, gzip XFL) is that of level and strategy: fastest below level 2 and for the Huffman-only and run-length strategies, otherwise FLEVEL 1, 2, 3 for levels 2-5, 6, 7-9 and XFL 2 for level 9 alone. Output never exceeds the input by more than 1/64 plus 64 bytes plus 16 bytes per flush plus the headers and trailers, whatever the data; and at any level above 0, data consisting of at least 16 KiB of repetitions of a short block shrinks at least fourfold under the default strategy (as does a long single-byte run under the run-length strategy).",
  ["inputs", "configurations"],
  "all data from highly repetitive to incompressible, all option combinations and write sizes",
  "the existing tests do not inspect the block and token structure of the output for any strategy",
  ["writer.go", "enum_strategy.go", "enum_clevel.go"],
  [("strategy selection", "writer.go: hybridOptions, compressConfig, compressTokens"), ("stored fallback", "writer.go: compressTokens, compressStore")],
  ["block and token structure of the output", "output size"])

p("C22", "Concurrent use is safe and isolated",
  "Any number of compressors and decompressors used at the same time by different goroutines give exactly the results they give alone, and one that is held up (by its destination, its source, its tracer, or a reader that does not read) does not hold up the others. Concurrent writes to one compressor are each applied whole, in some order; concurrent reads from one decompressor together return every byte exactly once; and configuration queries, flushes and closing may run alongside without data races, deadlock or panic.",
  ["schedules", "inputs"],
  "many schedules (randomised goroutine counts, yields and chunk sizes) under the race detector",
  "the existing tests are single-threaded users",
  ["reader.go", "writer.go", "pools.go"],
  [("locking", "reader.go: mu1, mu2, cv1, cv2; writer.go: mu"), ("shared pools and tables", "pools.go, huffman.go")],
  ["results of concurrent calls", "race detector reports"])

p("C23", "The gzip command is a faithful filter with truthful exit status",
  "For any input, the command run as a filter with any valid flags for format, strategy, level, memory, window, dictionary and header fields compresses standard input to a conforming stream on standard output that honours them, and exits 0; run with the decompress flag it restores the input exactly, and it likewise handles streams of other gzip/zlib tools, concatenations included. In both directions any amount of data passes through in bounded memory, and when decompressing, whatever the input so far determines comes out without waiting for more. On corrupt or truncated input (after the data that can be decoded from it), on invalid flag values, and when its input cannot be read or its output cannot be written, it exits non-zero with a message on standard error, never with status 0.",
  ["inputs", "configurations", "fault_sequences"],
  "all inputs and flag combinations; corrupt, truncated and foreign inputs; unreadable input, unwritable output",
  "there are no tests of the command",
  ["cmd/gzip/main.go", "cmd/gzip/flags.go"],
  [("flag handling and I/O", "cmd/gzip/main.go: main, doCompressOrDecompress; cmd/gzip/flags.go")],
  ["standard output", "exit status", "standard error"])

p("C24", "Textual and JSON forms of configuration values are exact and total",
  "Every valid format, strategy, level, memory level and window value survives conversion to its text form and back (in any letter case), every other string is rejected with an error that leaves the default value, and every enumeration value has its documented name and marshals to valid JSON consistent with its text form. Checksums convert to JSON and back without loss for every 32-bit value, and code-length lists render as JSON arrays of numbers.",
  ["inputs"],
  "all values of each enumeration; all strings (generated near-misses, numbers in and out of range, case variants)",
  "the existing tests do not parse or marshal these types",
  ["enum_format.go", "enum_strategy.go", "enum_clevel.go", "enum_mlevel.go", "enum_wbits.go", "enum_method.go", "enum_ostype.go", "enum_datatype.go", "enum_eventtype.go", "enum_blocktype.go", "enum_flushtype.go", "checksum32.go", "huffman.go"],
  [("parsing and printing", "enum_*.go: Parse, String, MarshalJSON"), ("checksum text", "checksum32.go")],
  ["results of Parse/String/MarshalJSON/UnmarshalJSON"])

p("C25", "Gzip extra data parses and encodes without loss or panic",
  "Encoding any list of extra-data records of at most 65535 bytes each and parsing the result returns the same records, and parsing any byte string never panics and returns records whose encoding is the longest prefix of the input made of whole records. A decompressor meeting any extra field, well-formed or not, never crashes and decodes the rest of the stream normally; the header it reports, or captures for the caller, holds exactly those records, also after the stream has ended.",
  ["inputs"],
  "all record lists and all byte strings, including truncated and oversize record lengths",
  "the existing tests do not parse extra data",
  ["header.go", "reader.go", "writer.go"],
  [("record parsing and encoding", "header.go: ExtraData.Parse, ExtraData.AsBytes"), ("field extraction", "reader.go: readHeaderGZIPExtraData")],
  ["parsed records", "encoded bytes", "header events"])

p("C26", "Results are identical on 32-bit and 64-bit builds",
  "For every input, option combination and operation history, a 32-bit build of the library produces byte-for-byte the same compressed output, and decompresses every input to the same data and the same kind of final error, and reports the same headers, block structure and totals to tracers, as a 64-bit build.",
  ["inputs", "configurations"],
  "all generated compress and decompress cases, executed by a 386 build and an amd64 build",
  "the existing tests run on one architecture",
  ["block32.go", "block64.go", "internal/crc32/crc32_generic.go", "reader.go", "writer.go"],
  [("machine-word bit buffers", "block32.go, block64.go; reader.go: inputBits*; writer.go: outputBits*")],
  ["bytes at the destination", "bytes returned by Read and its final error", "tracer events"])

p("C27", "Options, defaults and accessors tell the truth",
  "A compressor or decompressor built or reset with any sequence of options reports, through its accessors, exactly the last value given for each option (merged with earlier options on Reset) and the documented default for the others, and behaves as one built directly with those values. The accessors answer at once at any time, even while (or by whom) the source, the destination or a tracer is being called. Slices given to or returned by the options and accessors are copies: modifying them later changes nothing; values outside the documented ranges are refused when the option is built.",
  ["configurations", "histories"],
  "all option sequences (repeats, overrides, defaults), at construction and at resets, with later mutation of the slices",
  "the existing tests never query the accessors",
  ["options.go", "reader.go", "writer.go"],
  [("option application and defaults", "options.go: apply, populateReaderDefaults, populateWriterDefaults"), ("accessors", "reader.go and writer.go: Format .. Tracers, UnderlyingReader/Writer")],
  ["accessor results", "bytes produced"])

p("C28", "Memory use does not grow with the amount of data",
  "However much data passes through a compressor or decompressor - in any number of writes or reads of any size, blocks, flushes, concatenated streams or resets, and however compressible or incompressible it is - the memory it keeps alive stays within a bound set by its options (memory level, window size, dictionary) alone, also in the middle of a single large Write, and does not grow from one part of a transfer to the next; no goroutines pile up.",
  ["inputs", "histories", "configurations"],
  "all transfers of data much larger than the internal buffers, with every option combination, split, flush pattern and reset pattern; 1.5 to 10 MiB per generated case",
  "the existing tests never measure memory",
  ["writer.go", "reader.go", "pools.go"],
  [("fixed-size buffers between the stages", "writer.go: compressImpl, compressSlow, outputBufferWrite; reader.go: inputBufferFill, decodeBufferMustFlush"), ("pooled token slices and scratch buffers", "pools.go: takeTokens, giveTokens")],
  ["live heap after garbage collection", "number of goroutines"])

p("C29", "Work grows linearly with data",
  "The processor time taken by a compressor or a decompressor is proportional to the amount of data that goes in and out: n times as much of the same kind of content, in whatever pieces, blocks, flushes, streams or uses after Reset, takes about n times as long, however repetitive or hostile the content is.",
  ["inputs", "histories", "configurations"],
  "all units of content repeated n and 16n times, with every option combination, split, flush pattern, stream length and reset pattern",
  "the existing tests handle a few kilobytes and never measure time",
  ["writer.go", "reader.go", "pools.go"],
  [("bounded work per byte", "writer.go: compressSlow, outputBufferWrite, Reset; reader.go: inputBufferRead, decodeHuffmanBlock, decodeBufferMustFlush")],
  ["CPU time of the process"])

p("C30", "Corrupt-input errors say where the violation is",
  "Whenever decompression ends with a corrupt-input error, the error can be extracted as CorruptInputError and describes the problem; its total offset is the place of the first violation in the input (just after what was examined, within a few bytes), its stream offset is the same place counted from the start of the failing stream of a concatenation, also beyond 4 GiB, and its message contains both the offset and the problem. The offsets depend only on the input and the options that affect decoding, not on chunking, memory level or earlier uses of the object.",
  ["inputs", "histories"],
  "all malformed inputs (planted violations of every kind, mutations), in any stream of a concatenation, read in any way, with a new or a reset object",
  "the existing tests never look at an offset",
  ["reader.go", "errors.go"],
  [("offsets", "reader.go: corruptf; inputBytesTotal, inputBytesStream"), ("message", "errors.go: Error")],
  ["the error returned by Read"])

p("C31", "The caller's memory is left alone and may be reused at once",
  "Writing never changes the caller's slice, not even temporarily, nor anything up to its capacity, and reading stores nothing outside the slice it is given and never touches it once the call has returned, whatever goes on in the background. No slice handed over - data, dictionary, extra-data records of a header - is kept: the caller may overwrite it as soon as the call has returned, in the middle of a block or stream, with no effect on any later result.",
  ["inputs", "histories", "schedules"],
  "all write/flush/header histories and all ways of reading, with slices of any length and spare capacity, kept or overwritten",
  "the existing tests use every slice once and never look at it again",
  ["writer.go", "reader.go", "options.go", "header.go"],
  [("copies", "writer.go: Write, SetHeader; options.go: WithDictionary; header.go: ExtraData"), ("output", "reader.go: Read")],
  ["the slices passed to Write, Read, SetHeader and the options; compressor output"])

p("C32", "What was received can be read without waiting for more",
  "A decompressor delivers everything that the input received so far wholly determines before it needs another byte: if the source falls silent at any place of any conforming stream, Read returns all data decided by the part that arrived. In particular, whatever a compressor has flushed (partial, sync, full or finish) reaches the reader at the other end of a pipe although nothing follows, so that two programs can hold a conversation without a deadlock.",
  ["inputs", "schedules", "histories"],
  "all conforming streams, all places at which a source can pause, all flush types, memory levels and chunkings, format detection, new and reset objects",
  "the existing tests give the reader the whole stream at once",
  ["reader.go", "writer.go"],
  [("input", "reader.go: inputBufferFill, readHeaderAuto"), ("delivery", "reader.go: decodeBufferMustFlush, Read, readThread"), ("flushing", "writer.go: Flush")],
  ["bytes returned by Read while the source is silent"])

p("C33", "Compression uses what the data offers to save",
  "At every level above 0 the default and fixed strategies make use of repetitions anywhere within the window: a copy of at least 300 bytes (or half the window, if that is less) of something that began up to a whole window earlier in the same stream (across writes, blocks, and block, partial and sync flushes, in every stream of a concatenation) or in the preset dictionary takes less space by at least half its length than fresh data in its place would, wherever the window is not larger than 2^(memory level + 9) bytes. A run of one byte costs the run-length strategy at most 1/12 of its length plus 40 bytes. Independent bytes of uneven frequency, 16 KiB or more of them, take the Huffman-only strategy at memory level 5 and up at most one bit per byte more than their entropy. A higher level never takes more than 2 % and 64 bytes over what a lower one takes.",
  ["inputs", "histories"],
  "all contents with a repetition, distances, window sizes, memory levels, dictionaries, write and flush histories; all byte distributions",
  "tests compare the decompressed content, which is right even if nothing is saved at all",
  ["writer.go", "huffman.go"],
  [("window and match finder", "writer.go: hybridOptions, writeHeader, flushGuts, inputBufferAdvance, compressSlow"), ("choice of block form", "writer.go: compressTokens, compressStore"), ("codes", "huffman.go: initLimitedEncoder")],
  ["size of the compressed output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
