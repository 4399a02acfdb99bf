#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Adler-32 and CRC-32 equal their published definitions",
  "For every byte sequence and every initial value (and, for the CRCs, every polynomial supported by the table), the checksum returned is the one the published definition assigns: RFC 1950 Adler-32, MSB-first CRC-32 and LSB-first (reflected) CRC-32. Long inputs, where the implementation defers its modulo reduction, are included.",
  ["inputs"], "all byte sequences, initial values and polynomials",
  "The tests checksum one fixed buffer per algorithm; the value depends on every byte and on lengths around the deferred-reduction limit.",
  ["keramics-checksums/src/adler32.rs", "keramics-checksums/src/crc32.rs"],
  [("Adler32Context::update", "keramics-checksums/src/adler32.rs"), ("Crc32Context::update and table set-up", "keramics-checksums/src/crc32.rs"), ("ReversedCrc32Context::update", "keramics-checksums/src/crc32.rs")])
p("C02", "Checksums do not depend on how the data is split, and contexts restart",
  "Feeding the same bytes to a checksum context in any sequence of pieces, including empty ones, yields the same checksum as feeding them at once. After a checksum has been finalized the context behaves as a newly created one with the same parameters.",
  ["histories", "inputs"], "all contents, all ways of splitting, all update/finalize histories",
  "The tests call update once and finalize once.",
  ["keramics-checksums/src/adler32.rs", "keramics-checksums/src/crc32.rs"],
  [("update / finalize", "keramics-checksums/src")])
p("C03", "MD5, SHA-1, SHA-224, SHA-256 and SHA-512 digests equal the standards",
  "For every message the digest produced is the one RFC 1321 respectively FIPS 180-4 defines, including messages whose padding fits in, exactly fills or spills out of the last block.",
  ["inputs"], "all messages; every message length modulo the block size",
  "The tests hash a handful of fixed messages; lengths around the padding limits and arbitrary contents are not covered.",
  ["keramics-hashes/src/md5.rs", "keramics-hashes/src/sha1.rs", "keramics-hashes/src/sha224.rs", "keramics-hashes/src/sha256.rs", "keramics-hashes/src/sha512.rs"],
  [("transform block", "keramics-hashes/src"), ("finalize (padding)", "keramics-hashes/src")])
p("C04", "Digests do not depend on how the message is split, and contexts restart",
  "Feeding the same message to a digest context in any sequence of pieces, including empty pieces and pieces that start or end inside a block, yields the same digest as feeding it at once. After finalizing, the context computes the digest of a following message as a newly created context does.",
  ["histories", "inputs"], "all messages, all ways of splitting, all update/finalize histories",
  "The tests use one or two fixed ways of feeding fixed data.",
  ["keramics-hashes/src/md5.rs", "keramics-hashes/src/sha1.rs", "keramics-hashes/src/sha224.rs", "keramics-hashes/src/sha256.rs", "keramics-hashes/src/sha512.rs"],
  [("update (block buffering)", "keramics-hashes/src")])
p("C05", "Code page decoders map every byte sequence to the published character",
  "For each supported single-byte code page and for Windows-932, every byte (or lead/trail byte pair) decodes to the Unicode code point that the published mapping of that code page assigns, and byte sequences the mapping leaves undefined are reported as an error rather than as some character.",
  ["inputs"], "all byte values (single-byte pages) and all lead/trail byte pairs (Windows-932)",
  "The tests decode a few sample strings per code page.",
  ["keramics-encodings/src"],
  [("Decoder*::next", "keramics-encodings/src")])
p("C06", "Code page encoders invert the decoders",
  "For each supported code page, every character the encoder accepts is turned into bytes that the decoder of the same code page maps back to that character; every character a decoder can produce is accepted by the encoder; and every other code point is reported as an error, never as bytes of some other character.",
  ["inputs"], "all code points from 0 to 0xffffffff and all decodable byte sequences",
  "The tests encode a few sample strings per code page; the repertoire has up to thousands of characters and the complement is unbounded.",
  ["keramics-encodings/src"],
  [("Encoder*::next", "keramics-encodings/src"), ("mapping tables", "keramics-encodings/src")])
p("C07", "UTF-8 decoding accepts exactly the well-formed sequences of RFC 3629",
  "For every byte sequence the UTF-8 decoder yields exactly the code points of its well-formed prefix and reports an error at the first ill-formed sequence: overlong forms, surrogates, values above U+10FFFF, stray continuation bytes and truncated sequences are never decoded to a character.",
  ["inputs"], "all byte sequences",
  "The tests decode a few valid strings and two invalid ones.",
  ["keramics-encodings/src/utf8.rs"],
  [("DecoderUtf8::next", "keramics-encodings/src/utf8.rs")])
p("C08", "Decoders and encoders process a string as the concatenation of its characters",
  "For every input, iterating a decoder or encoder yields for each successive character the same result it yields for that character on its own, in order and without skipping, repeating or merging input, and then signals the end. It never panics on any input.",
  ["inputs"], "all byte sequences and all code point sequences",
  "The tests iterate over fixed, fully valid strings.",
  ["keramics-encodings/src"],
  [("Decoder*/Encoder*::next", "keramics-encodings/src"), ("new_character_decoder / new_character_encoder", "keramics-encodings/src")])
p("C09", "Base64 decoding follows RFC 4648",
  "For every base64 text (with or without padding, with embedded white space where supported) whose decoded data fits the output buffer, decoding yields exactly the encoded bytes and their count; a character outside the alphabet before the padding, incomplete padding and an output buffer that is too small are reported as an error. Decoding never panics.",
  ["inputs"], "all byte sequences offered as base64 text and all binary contents",
  "The tests decode a few fixed texts.",
  ["keramics-encodings/src/base64.rs"],
  [("Base64Context decoding", "keramics-encodings/src/base64.rs")])
p("C10", "FAT date and time values convert to the calendar date they encode",
  "For every 16-bit FAT date, 16-bit FAT time and 8-bit 10 ms fraction, the conversion gives year 1980 + bits 9-15, the month and day, the hours, minutes and seconds (including the fraction) those bits encode; values that encode no calendar date or time do not panic and are never presented as a different valid date.",
  ["inputs"], "all 2^40 raw values",
  "The tests convert one or two fixed values per type.",
  ["keramics-datetime/src/fat.rs"],
  [("FatDate, FatTimeDate, FatTimeDate10Ms", "keramics-datetime/src/fat.rs")])
p("C11", "POSIX and FILETIME timestamps convert to the proleptic Gregorian date",
  "For every 32-bit POSIX timestamp, 64-bit POSIX nanosecond timestamp and 64-bit FILETIME, the string representation shows the proleptic Gregorian date, the time of day and the fraction of a second of that instant, including leap years, century rules and dates before the epoch; conversion never panics.",
  ["inputs"], "all raw timestamp values",
  "The tests convert one or two fixed instants per type.",
  ["keramics-datetime/src/posix.rs", "keramics-datetime/src/filetime.rs", "keramics-datetime/src/util.rs"],
  [("to_iso8601_string", "keramics-datetime/src"), ("day number to year, month and day", "keramics-datetime/src/util.rs")])
p("C12", "The in-memory data stream behaves as a file of its size",
  "For every sequence of reads and seeks (from start, current position and end) a read returns the number of bytes that remain, bounded by the buffer, and exactly the bytes stored at the current offset followed by zeros up to the declared size; the position advances by that number, seeking returns the new position, and seeking before the start fails and leaves the stream usable. Reading at or beyond the end returns 0 bytes.",
  ["histories", "inputs"], "all sequences of seek and read calls, buffer sizes, data and declared sizes",
  "The tests do one or two reads and seeks on a fixed stream.",
  ["keramics-core/src/fake_data_stream.rs"],
  [("FakeDataStream read / seek", "keramics-core/src/fake_data_stream.rs")])
p("C13", "Exact and positioned reads are all-or-error",
  "An exact read either fills the whole buffer with the consecutive bytes of the stream from the requested position or returns an error: it succeeds when the stream delivers all of them and never reports success with fewer, whatever sizes the stream delivers. A positioned read or exact read is equivalent to seeking there and reading.",
  ["histories", "inputs", "fault_sequences"], "all stream contents, positions, buffer sizes and ways in which the stream delivers short reads or fails",
  "The tests only read from streams that deliver everything in one piece.",
  ["keramics-core/src/data_stream.rs", "keramics-core/src/macros.rs"],
  [("DataStream::read_exact, read_at_position, read_exact_at_position", "keramics-core/src/data_stream.rs")])
p("C14", "Hexadecimal dumps and string formatting show every byte faithfully",
  "For every byte string, the hexadecimal string consists of the two lower-case hexadecimal digits of each byte in order; the hexadecimal dump shows each 16-byte line with its offset, every byte's digits in the right column and the printable characters, and abbreviates only repeated lines. Formatting an array shows every element in order, or a single one with the count when all are equal; formatting never panics.",
  ["inputs"], "all byte strings",
  "The tests format a few fixed buffers.",
  ["keramics-core/src/formatters.rs"],
  [("format_as_string, format_as_hexdump, debug_format_array", "keramics-core/src/formatters.rs")])
p("C15", "Byte strings keep and compare exactly their bytes up to the terminator",
  "A byte string created from data holds the bytes before the first NUL (or all of them when there is none), its length and emptiness agree with that, equality and ordering agree with its content, and converting it to text yields the characters its encoding assigns to those bytes, a backslash doubled and bytes that encode no character as U+FFFD. Extending it by another string appends that string's characters in its own encoding, and no input makes these operations panic.",
  ["inputs"], "all byte sequences and pairs of byte strings in every supported encoding",
  "The tests use fixed short ASCII strings.",
  ["keramics-types/src/byte_string.rs"],
  [("ByteString", "keramics-types/src/byte_string.rs")])
p("C16", "UCS-2 and UTF-16 strings keep exactly their code units and convert faithfully",
  "A UCS-2 or UTF-16 string created from little- or big-endian bytes holds the code units before the first NUL in order, for every input; an odd trailing byte is ignored. A UCS-2 string shows each unit as its character, with a backslash doubled and a surrogate as its hexadecimal value in braces, a UTF-16 string pairs surrogates per the Unicode standard and shows unpaired ones as U+FFFD, and creating a string from text stores the code units of that text; no input makes these operations panic.",
  ["inputs"], "all byte sequences, all code unit sequences and all text",
  "The tests use fixed short ASCII strings.",
  ["keramics-types/src/ucs2_string.rs", "keramics-types/src/utf16_string.rs"],
  [("Ucs2String", "keramics-types/src/ucs2_string.rs"), ("Utf16String", "keramics-types/src/utf16_string.rs")])
p("C17", "String comparisons are consistent orders and case folding is applied per unit",
  "Comparing UCS-2 strings is a total order that agrees with the numeric order of their code units and with equality; the case-insensitive comparison equals the plain comparison of the two strings after mapping each code unit through the case mapping, so it is reflexive, antisymmetric and transitive.",
  ["inputs"], "all pairs and triples of strings",
  "The tests compare fixed strings that differ in ASCII case only.",
  ["keramics-types/src/ucs2_string.rs", "keramics-types/src/constants.rs"],
  [("Ucs2String comparison", "keramics-types/src/ucs2_string.rs"), ("UCS2_CASE_MAPPINGS", "keramics-types/src/constants.rs")])
p("C18", "UUIDs round-trip between bytes and text and malformed text is rejected",
  "For every 16 bytes, a UUID read in big- or little-endian order is shown as the lower-case 8-4-4-4-12 text of those fields, and parsing that text gives back the same UUID. Text that is not 36 characters of hexadecimal digits and hyphens in the right places, optionally in braces, is reported as an error, without panic.",
  ["inputs"], "all 16-byte values and all texts",
  "The tests parse and format one fixed identifier and a few malformed texts.",
  ["keramics-types/src/uuid.rs"],
  [("Uuid::from_be_bytes/from_le_bytes/from_string/to_string", "keramics-types/src/uuid.rs")])
p("C19", "Integer readers return the value of exactly the bytes at the given offset",
  "For every buffer, offset and integer width and byte order, reading an integer gives the little- or big-endian value of exactly those bytes, with sign extension for signed types.",
  ["inputs"], "all buffers, offsets and values",
  "The tests read one fixed value per width.",
  ["keramics-types/src/macros.rs"],
  [("bytes_to_* macros", "keramics-types/src")])
p("C20", "Generated structure readers report each field at its layout offset",
  "For every data buffer at least as large as the declared structure, the generated debug reader reports every member with the value, byte order and format its layout declares, from the member's offset. Reading a structure at a position of a stream that ends before the structure does reports an error.",
  ["inputs"], "all buffers of structures using the supported member types",
  "The tests check the text generated for layouts or one fixed buffer.",
  ["keramics-layout-map/src/structure.rs", "keramics-layout-map/src/macros.rs"],
  [("LayoutMap derive", "keramics-layout-map/src")])
p("C21", "Signature scanning reports exactly the signatures present at their offsets",
  "For every set of signatures (bound to an offset from the start, from the end, or unbound) and every data content, scanning the complete data reports a signature only at an offset at which its pattern occurs and to which it is bound. If signatures bound to the start (or the end) occur, at least one of them is reported, and at every position, taken from the left and outside the occurrences already reported, at which an unbound signature occurs, one is reported. Building and scanning never panic or run without end.",
  ["inputs", "configurations"], "all data contents and sizes, and signature sets over the supported bindings",
  "The tests scan one fixed buffer with one signature set.",
  ["keramics-sigscan/src/scan_tree.rs", "keramics-sigscan/src/scan_context.rs", "keramics-sigscan/src/signature_table.rs", "keramics-sigscan/src/scanner.rs"],
  [("Scanner::build", "keramics-sigscan/src/scanner.rs"), ("ScanContext::scan_buffer", "keramics-sigscan/src/scan_context.rs")])
p("C22", "Signature scan results do not depend on how the data is split into buffers",
  "When data is scanned in any sequence of consecutive buffers, what occurs within one of the buffers is reported at the same offset as when the data is scanned in one buffer, whichever offset the buffer starts at: for every buffer the rules of scanning complete data hold for the occurrences inside that buffer, and nothing is reported that does not occur in the data.",
  ["inputs", "histories"], "all data contents and all splits into consecutive buffers",
  "The tests scan in one fixed buffer size.",
  ["keramics-sigscan/src/scan_context.rs"],
  [("ScanContext::scan_buffer", "keramics-sigscan/src/scan_context.rs")])
CW = "The unit tests decompress one recorded stream per format; arbitrary, truncated and damaged streams are not covered."
p("C23", "ADC decompression reproduces the data every valid stream encodes",
  "For every well-formed ADC stream (literals, short and long matches, overlapping matches included) decompression writes exactly the encoded data and reports its size. A stream that is cut short, refers to data before the beginning of the output or does not fit the output buffer is refused with an error; no input makes decompression panic.",
  ["inputs"], "all streams and output buffer sizes", CW,
  ["keramics-compression/src/adc.rs"],
  [("AdcContext::decompress", "keramics-compression/src/adc.rs")])
p("C24", "LZNT1 decompression reproduces the data every valid stream encodes",
  "For every well-formed LZNT1 stream, that is a sequence of compressed and stored chunks whose match tokens use the distance and size widths that belong to the position in the chunk, decompression writes exactly the encoded data and reports its size. No input, well-formed or not, makes decompression panic or write outside the output buffer.",
  ["inputs"], "all streams and output buffer sizes", CW,
  ["keramics-compression/src/lznt1.rs"],
  [("Lznt1Context::decompress", "keramics-compression/src/lznt1.rs")])
p("C25", "LZVN decompression reproduces the data every valid stream encodes",
  "For every well-formed LZVN stream (all opcode forms, the repeated distance, overlapping matches) decompression writes exactly the encoded data and reports its size. A stream that is cut short, uses an undefined opcode, a distance of 0 or one beyond the output so far, or does not fit the output buffer is refused with an error; no input makes decompression panic.",
  ["inputs"], "all streams and output buffer sizes", CW,
  ["keramics-compression/src/lzvn.rs"],
  [("LzvnContext::decompress", "keramics-compression/src/lzvn.rs")])
p("C26", "DEFLATE decompression follows RFC 1951",
  "For every valid DEFLATE stream of stored blocks, blocks with fixed codes and blocks with their own codes, decompression writes exactly the data RFC 1951 assigns to it and reports its size. This includes every length and distance code with its additional bits, overlapping matches and code sets without any distance code; no input, valid or not, makes decompression panic or write outside the output buffer.",
  ["inputs"], "all streams and output buffer sizes", CW,
  ["keramics-compression/src/deflate.rs", "keramics-compression/src/huffman.rs"],
  [("DeflateContext::decompress", "keramics-compression/src/deflate.rs"), ("HuffmanTree", "keramics-compression/src/huffman.rs")])
p("C27", "zlib decompression checks header and checksum as RFC 1950 defines",
  "For every zlib stream with a valid header, whose Adler-32 is that of the data, decompression returns exactly the data, whether or not the output buffer is larger than the data. A stream with an unsupported method, wrong header check bits or a checksum that is not that of the data is refused with an error; no input makes decompression panic.",
  ["inputs"], "all headers, data contents, checksums and output buffer sizes", CW,
  ["keramics-compression/src/zlib.rs"],
  [("ZlibContext::decompress", "keramics-compression/src/zlib.rs")])
p("C28", "bzip2 decompression reproduces the data and verifies the checksums",
  "For every valid bzip2 stream of one or more blocks of any permitted size, decompression writes exactly the data it encodes (code tables, selectors, move-to-front, inverse block sort, both run-length steps) and reports its size. A stream whose block or stream checksum is not that of the data is refused with an error; no input, valid or not, makes decompression panic or write outside the output buffer.",
  ["inputs"], "all streams and output buffer sizes", CW,
  ["keramics-compression/src/bzip2.rs", "keramics-compression/src/huffman.rs"],
  [("Bzip2Context::decompress", "keramics-compression/src/bzip2.rs")])
p("C29", "Error traces keep every message in the order in which it was added",
  "Whatever messages an error was created with and however many frames were added on its way up, directly or through the macros, its text consists of all of them, in order, none missing, merged or repeated; shown to the user they are numbered from 0. An operation on a shared stream that fails reports the cause as the first message and ends with a frame that names the caller; one that does not fail reports no error.",
  ["inputs", "histories", "fault_sequences"], "all messages, all sequences of frames, a failure of any operation of a stream",
  "There are no tests of traces; the tests of streams do not make a stream fail.",
  ["keramics-core/src/errors.rs", "keramics-core/src/macros.rs"],
  [("ErrorTrace", "keramics-core/src/errors.rs"), ("error_trace_* and data_stream_* macros", "keramics-core/src/macros.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
