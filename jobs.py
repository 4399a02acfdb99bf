"""Harness runs per property: entry, bounds (parameters), tier and witnesses."""


class Job:
    def __init__(self, entry, feature, thorough=False, quick_only=False, timeout=240, qtimeout=60000, traces=12, reach=(1,), weight=1, max_steps=0, bound="", crate="harness", **params):
        self.__dict__.update(entry=entry, feature=feature, thorough=thorough, quick_only=quick_only, timeout=timeout, qtimeout=qtimeout, traces=traces,
                             reach=list(reach), weight=weight, max_steps=max_steps, bound=bound, crate=crate, params={k: int(v) for k, v in params.items()})


COMMON_ASSUMPTIONS = [
    "The executor (engine/) interprets the LLVM IR rustc emits for /repo's crates, the harness and the linked part of std at opt-level 1 with overflow checks and debug assertions on; a release build is compiled from the same sources but is only used to replay counterexamples.",
    "rustc, LLVM's optimisation passes at opt-level 1 and Z3 are trusted; the executor is checked on every run by replaying explored paths natively and comparing all observed values.",
    "Single-threaded execution, 64-bit little-endian target; allocation does not fail.",
]

CHECKS = {}


def check(prop, bounds, jobs, assumptions=()):
    CHECKS[prop] = dict(bounds=bounds, jobs=jobs, assumptions=list(assumptions))


# --- checksums -----------------------------------------------------------------------
F = "checksums"
POLYS = [(1, 0xedb88320), (1, 0x82f63b78), (0, 0x04c11db7), (0, 0x1edc6f41)]
check("C01", "Adler-32: every initial value and content up to 12 bytes; 16 arbitrary bytes from the standard initial value; inputs of 5551..16660 bytes with filler and 2 arbitrary bytes at chosen places around the multiples of 5552. CRC-32: one byte from every register value (inductive step) for four polynomials; every polynomial for fixed bytes; two arbitrary bytes from the standard initial value.",
      [Job("h_mod_lemma", F)] +
      [Job("h_adler_def", F, n=n) for n in (0, 1)] + [Job("h_adler_def", F, n=2, thorough=True, timeout=800)] + [Job("h_adler_def", F, n=n, fold=1) for n in (2, 5, 12)] + [Job("h_adler_def", F, n=16, init=0)] +
      [Job("h_adler_long", F, n=n, at=at, fill=255, i0=i0, k=k, fold=1, thorough=(k == 2 and n > 5600)) for n, at in ((5551, 0), (5552, 0), (5552, 5550), (5553, 5551), (5556, 5552), (11104, 5551), (11105, 11103), (16660, 11103)) for k in (1, 2) for i0 in (1, 0xfff0fff0)] +
      [Job("h_adler_long", F, n=5552, at=0, fill=255, init=1, k=2, fold=1, weight=5)] +
      [Job("h_crc_step", F, rev=r, poly=p, weight=5) for r, p in POLYS] +
      [Job("h_crc_poly", F, rev=r, b=b, weight=5) for r in (0, 1) for b in (0x00, 0xff, 0x5a)] +
      [Job("h_crc_def", F, n=2, rev=r, weight=5) for r in (0, 1)] +
      [Job("h_crc_def", F, n=3, rev=1, thorough=True, weight=9), Job("h_crc_def", F, n=3, rev=0, poly=0x04c11db7, thorough=True, weight=9)])
check("C02", "Contents of up to 8 bytes, every initial value, every split into three pieces (empty ones included); long Adler-32 inputs split before, at and after multiples of 5552; restart after histories of two pieces.",
      [Job("h_adler_split", F, n=8), Job("h_adler_split", F, n=1, init=1, fold=1), Job("h_adler_split", F, n=2, init=1, fold=1, thorough=True, timeout=800)] + [Job("h_crc_split", F, n=6, rev=r, poly=p) for r, p in POLYS] +
      [Job("h_adler_split_long", F, n=n, s=s, at=at, i0=i0) for n, s, at in ((5560, 5552, 5550), (5560, 5551, 5552), (5560, 5553, 5551), (11110, 3, 5551), (11110, 5552, 5551), (11110, 11104, 0)) for i0 in (1, 0xfff0fff0)] +
      [Job("h_restart", F, kind=k, n=2 if k == 0 else 3) for k in (0, 1, 2)])

# --- hashes --------------------------------------------------------------------------
F = "hashes"
LENS = (0, 1, 3, 8, 31, 54, 55, 56, 57, 62, 63, 64, 65, 119, 120, 127, 128, 129, 200)
LENS512 = (0, 1, 7, 64, 110, 111, 112, 113, 119, 120, 126, 127, 128, 129, 239, 240, 255, 256, 257)
check("C03", "Every message of each of the lengths listed per run (0..200 bytes for 64-byte blocks, 0..257 for SHA-512: all padding cases, up to three blocks), and of 3 and 120 bytes after any number of hashed bytes below 2^60, against the algorithm text of RFC 1321 / FIPS 180-4; thorough: every length 0..140 / 0..270.",
      [Job("h_digest_def", F, alg=a, n=n, traces=4) for a in range(5) for n in (LENS512 if a == 4 else LENS)] +
      [Job("h_digest_def", F, alg=a, n=n, traces=1, thorough=True) for a in range(5) for n in range(0, 270 if a == 4 else 140) if n not in (LENS512 if a == 4 else LENS)] +
      [Job("h_digest_byte", F, alg=a, n=n, at=at, traces=4) for a in range(5) for n, at in ((3, 1), (64, 63))] +
      [Job("h_digest_far", F, alg=a, n=n, traces=2) for a in range(5) for n in (3, 120)])
check("C04", "Messages of 70 and 130 bytes (SHA-512: 140 and 260), arbitrary content: two pieces at every position, four pieces with empty ones at every pair of cuts around the block limits; restart after messages around the block size.",
      [Job("h_digest_split", F, alg=a, n=(140 if a == 4 else 70), traces=6, weight=3) for a in range(5)] +
      [Job("h_digest_split3", F, alg=a, n=n, traces=6, weight=3) for a in range(5) for n in ((128, 260) if a == 4 else (64, 130))] +
      [Job("h_digest_restart", F, alg=a, n=n, k=k, traces=2) for a in range(5) for n in ((0, 100, 112, 127, 128, 129) if a == 4 else (0, 50, 56, 63, 64, 65)) for k in (0, 5, 60)])

# --- encodings -----------------------------------------------------------------------
F = "encodings"
NENC = 36
check("C05", "Every byte of the 36 single byte code pages; every (lead byte, trail byte) pair of Windows 932.",
      [Job("h_decode", F, enc=i, traces=6) for i in range(NENC)] +
      [Job("h_decode932", F, lo=16 * i, traces=6, weight=5) for i in range(16)])
check("C06", "Every 32-bit code point value for the 36 single byte code pages and Windows 932.",
      [Job("h_encode", F, enc=i, traces=6, weight=2) for i in range(NENC)] +
      [Job("h_encode932", F, page=p, step=8, traces=2, weight=3) for p in range(0, 256, 8)] + [Job("h_encode932", F, page=0, step=0)])
check("C07", "First character of every byte string of up to 6 bytes; whole strings of up to 4 (thorough: 5) arbitrary bytes.",
      [Job("h_utf8", F, n=n) for n in range(0, 7)] + [Job("h_utf8_seq", F, n=n) for n in (1, 2, 3, 4)] + [Job("h_utf8_seq", F, n=5, thorough=True, timeout=800)] +
      [Job("h_utf8_seq", F, n=n, k=3, at=a, traces=2) for n, a in ((20, 15), (259, 254), (1028, 1022))])
check("C08", "Strings of two (thorough: three) arbitrary bytes per single byte code page, four bytes with any first byte for Windows 932, two arbitrary code points per encoder.",
      [Job("h_seq_decode", F, enc=i, n=2, traces=4) for i in range(NENC)] + [Job("h_seq_decode", F, enc=i, n=3, traces=4, thorough=True) for i in range(NENC)] +
      [Job("h_seq_decode", F, enc=i, n=n, k=2, at=n - 2, traces=2) for i in range(0, NENC, 5) for n in (258,)] +
      [Job("h_seq_bad932", F, part=i, traces=4) for i in range(6)] +
      [Job("h_seq_decode932", F, n=4, traces=4, weight=5)] + [Job("h_seq_encode", F, enc=i, traces=4, weight=3) for i in range(NENC)])
check("C09", "Round trip of 0..4 (thorough: 5) arbitrary bytes, padded and unpadded, and of 7, 12 and 23 bytes of which any 3 adjacent are arbitrary; every text of up to 5 (thorough: 6) characters, with sufficient and insufficient output buffers; streams of up to 4 (5) arbitrary bytes with and without white space skipping.",
      [Job("h_base64_trip", F, n=n, pad=p, extra=n % 2) for n in (0, 1, 2, 3, 4) for p in (0, 1)] + [Job("h_base64_trip", F, n=5, pad=p, thorough=True, timeout=800) for p in (0, 1)] +
      [Job("h_base64_trip", F, n=n, pad=p, k=3, at=a, extra=1) for n in (7, 12, 23) for p in (0, 1) for a in range(0, n - 2, 2 if n < 12 else 5)] +
      [Job("h_base64", F, n=n, cap=c) for n, c in ((0, 0), (1, 1), (2, 1), (2, 0), (3, 1), (3, 2), (4, 16))] + [Job("h_base64", F, n=n, cap=c, weight=9) for n, c in ((5, 3), (5, 2))] + [Job("h_base64", F, n=6, cap=4, thorough=True, timeout=800)] +
      [Job("h_base64_stream", F, n=n, skip=s, off=o) for n, o in ((0, 0), (1, 0), (2, 0), (3, 0), (3, 1), (4, 0)) for s in (0, 1)] + [Job("h_base64_stream", F, n=5, skip=s, thorough=True, timeout=800) for s in (0, 1)])
# --- datetime ------------------------------------------------------------------------
F = "datetime"
check("C10", "Every FAT date, every FAT date with every FAT time, every FAT time with every 10 ms fraction (dates of one month).",
      [Job("h_fat_date", F), Job("h_fat_time_date", F), Job("h_fat_10ms", F), Job("h_from_bytes", F)])
check("C11", "PosixTime32: every 32-bit timestamp. PosixTime64Ns: every second of the years around 0, 1970 and 10000 and of days around year 146 thousand million; every three adjacent digits of the fraction. Filetime: every second of 1601..1650 (thorough: ..2600) and of years around 1970, 10000, 30458 and the last year; three adjacent digits of the fraction.",
      [Job("h_posix32", F, base=b, days=min(3107, 24855 - b), part=4, weight=9) for b in range(-24855, 24855, 3107)] +
      [Job("h_posix32", F, base=24855, part=2, hours=3), Job("h_posix32", F, base=-24856, part=2, hour=21, hours=3)] +
      [Job("h_posix32", F, base=24855, part=3, tod=10800 + i, secs=min(240, 848 - i)) for i in range(0, 848, 240)] + [Job("h_posix32", F, base=-24856, part=3, tod=74752 + i, secs=min(240, 848 - i)) for i in range(0, 848, 240)] +
      [Job("h_posix64", F, base=b, days=1500, part=4, weight=4) for b in (-720200, -720, 2932500, 2**62 // 86400)] + [Job("h_posix64", F, base=-1, part=2, fraction=123456789)] +
      [Job("h_posix64", F, base=0, part=0, days=1, scale=s, fraction=f) for s, f in ((1, 987654000), (1000, 987000321), (10**6, 654321))] +
      [Job("h_filetime", F, base=b, days=n, part=4, weight=5) for b, n in ((-134774, 9000), (-134774 + 9000, 9000), (-400, 800), (2932500, 500), (10540000, 200))] + [Job("h_filetime", F, base=21215500, days=60, part=0, weight=9)] +
      [Job("h_filetime", F, base=b, days=9000, part=4, thorough=True, timeout=800) for b in range(-134774 + 18000, 230000, 9000)] +
      [Job("h_filetime", F, base=0, part=2, fraction=9999999)] +
      [Job("h_filetime", F, base=0, part=0, days=1, scale=s, fraction=f) for s, f in ((1, 9876000), (10**4, 4321))])

# --- core ----------------------------------------------------------------------------
F = "core"
check("C12", "Data of 0..4 arbitrary bytes, declared sizes 0..6 (smaller than, equal to and larger than the data); two seeks with every 64-bit offset followed by a read; every sequence of three (thorough: four) reads of up to 4 bytes and seeks within two bytes beyond either end.",
      [Job("h_stream_seek", F, n=n, size=s, k=2, reach=(1, 2)) for n, s in ((0, 0), (3, 3), (3, 5), (4, 2))] + [Job("h_stream_seek", F, n=3, size=2**63 + 5, k=1, reach=(1, 2))] +
      [Job("h_stream_ops", F, n=n, size=s, k=2, reach=(1, 2)) for n, s in ((0, 0), (0, 2), (3, 3), (3, 5), (4, 2), (2, 6))] + [Job("h_stream_ops", F, n=n, size=s, k=3, reach=(1, 2), weight=9, thorough=(n != 2)) for n, s in ((2, 3), (3, 3), (1, 4), (3, 2))] +
      [Job("h_stream_large", F, n=n, size=s, len=l, k=2, at=n - 2) for n, s, l in ((600, 600, 256), (600, 1000, 300), (300, 100000, 17), (5000, 5000, 4096), (5000, 9000, 4097), (300, 2**33, 64), (300, 2**63, 65))],
      ["File streams of the operating system (system calls) are outside: only the in-memory stream is covered."])
check("C13", "Streams of 0..4 arbitrary bytes, buffers of 0..5 bytes, every position within one byte of the stream from start, current position and end; a stream that delivers pieces of every size or fails; two consecutive positioned reads of the in-memory stream.",
      [Job("h_exact", F, n=n, how=h, reach=(1, 2)) for n in (0, 1, 3, 4) for h in (0, 1)] + [Job("h_exact_fake", F, n=n, len=l) for n, l in ((0, 2), (1, 2), (2, 3))] + [Job("h_exact_fake", F, n=4, len=5, thorough=True)] +
      [Job("h_exact_large", F, len=l, start=st, how=h, reach=(1, 2)) for l in (8, 16, 17, 33, 64, 129, 256, 512, 4096, 5000) for st, h in ((0, 0), (3, 1), (9, 2))])
check("C14", "Hexadecimal dumps of 0..33 bytes and of 48..80 with any three adjacent bytes arbitrary; up to six lines equal or different at an arbitrary byte, with and without a partial last line; hexadecimal strings of up to 8 arbitrary bytes; arrays of 0..50 elements.",
      [Job("h_hexdump", F, n=n, at=max(0, n - 2), k=2, group=n % 2, traces=4) for n in range(0, 34)] + [Job("h_hexdump", F, n=n, at=a, k=3, group=g, traces=4) for n, a in ((16, 0), (16, 6), (16, 13), (20, 14), (48, 30), (63, 46), (80, 62)) for g in (0, 1)] +
      [Job("h_hexdump_group", F, lines=l, tail=t, at=a, traces=4) for l, t, a in ((1, 3, 0), (2, 0, 15), (2, 1, 0), (3, 0, 3), (3, 16, 7), (4, 5, 8), (5, 0, 15))] + [Job("h_hexdump_group", F, lines=l, tail=t, at=3, traces=2, **{"from": l - 2}) for l, t in ((300, 5), (2100, 0), (4200, 3))] +
      [Job("h_hexstring", F, n=n) for n in (0, 1, 2, 5, 8)] + [Job("h_hexstring", F, n=n, k=2, at=n - 2) for n in (64, 257, 1025)] + [Job("h_hexdump", F, n=n, at=n - 3, k=2, group=0, traces=2) for n in (257, 300)] + [Job("h_array", F, n=n, at=a, k=2, eq=e, traces=4) for e in (0, 1) for n, a in ((0, 0), (1, 0), (2, 0), (15, 13), (16, 14), (17, 15), (20, 3), (31, 29), (32, 15), (33, 31), (50, 48))])

check("C29", "Traces of a message and up to 4 frames (thorough: 5) of 0..3 arbitrary ASCII characters each, in all mixtures of direct calls and macros, messages that repeat; behind up to 120 frames with fixed messages. The stream macros over a stream of which any operation fails with an arbitrary message.",
      [Job("h_error_trace", F, frames=f, n=n, reach=(1, 2)) for f, n in ((1, 0), (1, 3), (2, 2), (3, 1), (4, 1))] + [Job("h_error_trace", F, frames=5, n=2, reach=(1, 2), thorough=True)] + [Job("h_error_trace", F, frames=f, n=1, many=k, reach=(1, 2)) for f, k in ((2, 8), (1, 30), (1, 120))] + [Job("h_error_trace", F, frames=1, n=200, reach=(1, 2))] +
      [Job("h_error_stream", F, n=n, reach=(1, 2)) for n in (1, 3)])

# --- types ---------------------------------------------------------------------------
F = "types"
check("C15", "Contents of up to 6 arbitrary bytes; two reads of up to 3 bytes; pairs of strings of up to 3 bytes; text of up to 3 arbitrary bytes in seven encodings (the decoders themselves are decided by C05 and C07); extension by up to 2 bytes between five encodings.",
      [Job("h_bytes", F, n=n, vec=v) for n in (0, 1, 3, 6) for v in (0, 1)] + [Job("h_bytes_read", F, n=n, m=m) for n, m in ((0, 0), (0, 2), (2, 0), (3, 3))] + [Job(e, F, n=n, k=4, at=a, traces=4) for e in ("h_bytes", "h_bytes_read") for n, a in ((20, 14), (70, 62), (140, 126), (300, 254), (300, 296), (1030, 1022), (4100, 4094))] +
      [Job("h_bytes_cmp", F, n=n, m=m, k=2, at=a, traces=4) for n, m, a in ((20, 20, 15), (300, 300, 255), (300, 299, 255), (260, 300, 257))] +
      [Job("h_bytes_cmp", F, n=n, m=m) for n in range(4) for m in range(4)] + [Job("h_bytes_text", F, n=n, enc=e) for n in (0, 1, 2) for e in range(7) if n < 2 or e != 3] + [Job("h_bytes_text", F, n=2, enc=3, lead=l) for l in (0x5c, 0x81, 0xa1, 0xa0)] +
      [Job("h_bytes_text", F, n=3, enc=e) for e in (0, 1, 6)] +
      [Job("h_bytes_extend", F, n=n, src=a, dst=b) for n in (1, 2) for a, b in ((1, 1), (1, 2), (2, 1), (6, 2), (4, 0), (0, 5), (6, 6), (2, 4), (3, 3))] + [Job("h_bytes_extend_utf8", F)],
      ["Encodings without a decoder or encoder in the code (an explicit 'not implemented' panic) are outside."])
check("C16", "Up to 7 arbitrary bytes (odd lengths included) in either byte order; text of up to 3 arbitrary code units; creation from up to two arbitrary characters.",
      [Job("h_u16_bytes", F, n=n, how=h) for n in range(8) for h in range(6)] + [Job("h_ucs2_text", F, n=n) for n in (0, 1, 2, 3)] + [Job("h_ucs2_from_text", F, n=n, string=n % 2) for n in (0, 1, 2)] + [Job("h_utf16_text", F, n=n) for n in (0, 1, 2, 3)] + [Job("h_utf16_text", F, n=4, thorough=True)] +
      [Job("h_u16_bytes", F, n=n, how=h, k=4, at=a, traces=4) for h in range(6) for n, a in ((40, 32), (301, 254), (600, 510), (600, 596))] + [Job(e, F, n=300, k=4, at=a, traces=2) for e in ("h_ucs2_text", "h_utf16_text") for a in (254, 510)])
check("C17", "Pairs of strings of up to 3 arbitrary code units; case folding with arbitrary mapping results for strings of up to 3 code units of which each is mapped or not; every entry of the case mapping.",
      [Job("h_ucs2_cmp", F, n=n, m=m) for n in range(4) for m in range(4)] + [Job("h_ucs2_cmp", F, n=n, m=m, k=4, at=a, traces=4) for n, m, a in ((20, 20, 32), (300, 300, 510), (300, 280, 510), (256, 300, 508))] + [Job("h_fold", F, n=n) for n in (0, 1, 3)] + [Job("h_fold_cmp", F, n=n, m=m) for n, m in ((0, 1), (1, 1), (2, 2), (2, 1), (1, 2))] + [Job("h_fold_table", F)],
      ["Keys of the case mapping are fixed in the runs over arbitrary mapping results, because the mapping is looked up by a hash of the key."])
check("C18", "Every value of each field (with the other bytes fixed) in either byte order; texts with any two or three adjacent characters arbitrary, with and without braces; texts of every length up to 41 with arbitrary first two and last characters.",
      [Job("h_uuid_bytes", F, at=a, k=k, le=l, fill=f) for a, k in ((0, 4), (4, 2), (6, 2), (8, 2), (10, 6), (3, 3)) for l in (0, 1) for f in (0, 255, 256)] +
      [Job("h_uuid_text", F, at=a, k=2, braces=b) for a in range(0, 35) for b in (0, 1)] + [Job("h_uuid_text", F, at=a, k=3) for a in (7, 12, 17, 22, 33)] +
      [Job("h_uuid_length", F, n=n, k=2, end=1) for n in range(0, 42) if n != 36])
check("C19", "Buffers of 8 to 20 arbitrary bytes, every offset.", [Job("h_integers", F, n=n) for n in (8, 11, 20)])

# --- generated structure readers -----------------------------------------------------
F = "layout"
check("C20", "Five structures covering the member types, byte orders, formats, sequences, strings, nested structures, bit fields and dates, with any two adjacent bytes arbitrary (three in the bit fields), with and without data after the structure; members that depend on the size of data of 2..13 bytes; structures read at every position of a stream.",
      [Job("h_layout", F, kind=kd, at=a, k=3 if kd == 3 else 2, extra=a % 2, traces=4) for kd, n in ((0, 35), (1, 51), (2, 46), (3, 33)) for a in range(0, n, 1 if kd in (0, 3) else 2)] + [Job("h_layout", F, kind=4, at=a, k=2 if a < 11 or a > 26 else 1, extra=a % 2, traces=4) for a in (0, 2, 4, 6, 8, 9, 11, 12, 13, 19, 20, 25, 26) + tuple(range(27, 60, 2))] +
      [Job("h_layout_group", F, reach=(1, 2)), Job("h_layout_position", F, reach=(1, 2), n=37), Job("h_layout_position", F, n=34)] +
      [Job("h_layout_bits_modifier", F), Job("h_layout_group_array", F)],
      ["The macro is exercised on the structures declared in the harness: that it generates right code for any other declaration is outside."])

# --- signature scanning --------------------------------------------------------------
F = "sigscan"


def sig(entry, **k):
    return Job(entry, F, hashconst=1, **k)


HASHING = ["Hash maps are executed with a hash function that is the same for every key: what look-ups and insertions do then depends on comparing keys only, which is what a map promises; the iteration order, random in a native run, is one of the possible ones, and a counterexample is replayed with 64 random orders."]
check("C21", "Sixteen sets of two to six signatures of one to four bytes (shared prefixes, patterns and offsets, all bindings) on every data of up to 7 (thorough: 8) bytes; every set of two (thorough: three) signatures with arbitrary patterns of up to 2 bytes and arbitrary offsets 0..2 on every data of 3 bytes; the 23 signatures of the file format scanner on 300..5000 bytes with any four adjacent bytes at the places of the patterns; buffers that do not agree with the declared size.",
      [sig("h_scan", set=s, n=n, reach=(1, 2) if n > 5 else (1,), weight=3 if n > 6 else 1, thorough=(n == 7 and s in (2, 13))) for s in range(16) if s != 12 for n in (0, 1, 2, 3, 5, 6, 7)] + [sig("h_scan", set=12, n=n) for n in (1, 4, 5)] + [sig("h_scan", set=12, n=6, weight=9, thorough=True, timeout=800)] +
      [sig("h_scan", set=s, n=8, thorough=True, timeout=800) for s in (0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15)] +
      [sig("h_scan_any", kind=k, n=n, m=2, l0=a, l1=b, reach=(1, 2), weight=2) for k in (0, 1, 2) for n, a, b in ((2, 1, 1), (3, 2, 1), (3, 2, 2))] + [sig("h_scan_any", kind=k, n=3, m=3, l0=1, l1=2, l2=1, reach=(1, 2), weight=9, thorough=(k == 2), timeout=800 if k == 2 else 240) for k in (0, 1, 2)] +
      [sig("h_scan_any", kind=k, n=3, m=3, l0=2, l1=2, l2=2, thorough=True, timeout=800) for k in (0, 1)] +
      [sig("h_scan_formats", n=n, at=a, k=4, have=h, reach=(1, 2) if h else (1,), weight=5) for n, a, h in ((4200, 0, 0), (4200, 509, 1 << 6), (4200, 1023, 1 << 11), (5000, 4488, 0), (600, 88, 0), (300, 3, 1 << 18), (2049, 2046, 1 << 12), (1090, 1080, 0))] +
      [sig("h_scan_robust", set=s, n=n, size=z, start=t) for s in (5, 9, 12, 13) for n, z, t in ((1, 0, 0), (4, 2, 0), (3, 9, 7), (3, 5, 9))],
      HASHING + ["A set that the scanner rejects with an error is outside (the check accepts that only for sets of three or more).", "Where several signatures with the same binding occur, any of them may be reported."])
check("C22", "Every split into two (thorough: three) buffers, empty ones included, of data of up to 6 bytes with the sixteen signature sets; the 23 signatures of the file format scanner with the data split at the end of the header range, in the middle of patterns and before the footer range.",
      [sig("h_scan", set=s, n=n, parts=2, reach=(1, 2), weight=3 if n > 5 else 1) for s in range(16) if s not in (2, 12) for n in (4, 6) if n < 6 or s not in (13,)] + [sig("h_scan", set=s, n=5, parts=2, reach=(1, 2), weight=5) for s in (2, 13)] + [sig("h_scan", set=12, n=4, parts=2, reach=(1, 2), weight=3)] +
      [sig("h_scan", set=s, n=6, parts=3, reach=(1, 2), thorough=s in (0, 1, 3), timeout=800 if s in (0, 1, 3) else 240) for s in range(16) if s not in (2, 12, 13)] + [sig("h_scan", set=s, n=5, parts=3, thorough=True, timeout=800) for s in (2, 13, 12)] +
      [sig("h_scan_formats", n=n, at=a, k=3, split=p, have=h, reach=(1, 2) if h else (1,), weight=5) for n, a, p, h in ((4200, 510, 4104, 0), (4200, 510, 511, 1 << 7), (4200, 1022, 600, 1 << 12), (5000, 4488, 4400, 0), (5000, 4488, 4490, 1 << 11), (600, 88, 60, 0))],
      HASHING + ["Occurrences that extend over the end of a buffer are not found by this scanner and are outside."])

# --- decompression -------------------------------------------------------------------
F = "compression"
SHADOW = ["keramics-compression itself does not build (a module it names is missing); the check builds a crate from the modules that exist, read from /repo on every run."]
LITERAL_TAIL = "Malformed and truncated streams: no crash, no write behind the reported size."
check("C23", "Every stream of up to 8 (thorough: 10) bytes into 12 bytes of output; behind 40..1100 bytes of output every literal and match size with fixed distances and every distance of the short and the long form. Every stream: well-formed ones decode to their data, the others are refused.",
      [Job("h_adc", F, n=n, cap=12, reach=(1, 2) if n else (1,)) for n in (0, 1, 2, 4, 6)] + [Job("h_adc", F, n=8, cap=12, reach=(1, 2), weight=5)] + [Job("h_adc", F, n=10, cap=12, reach=(1, 2), thorough=True, timeout=800)] +
      [Job("h_adc", F, n=3, cap=10, fixed=1, bytes=64, pre=1000, reach=(1, 2)), Job("h_adc", F, n=2, cap=10, fixed=1, bytes=3, pre=1100, reach=(1,)), Job("h_adc", F, n=2, cap=10, fixed=1, bytes=2, pre=700, reach=(1, 2)), Job("h_adc", F, n=3, cap=80, fixed=6, bytes=0x110000, pre=40, reach=(1, 2)), Job("h_adc", F, n=3, cap=66, fixed=6, bytes=0x010000, pre=300, reach=(1, 2)), Job("h_adc", F, n=3, cap=10, fixed=3, bytes=0xff40, pre=65530, reach=(1, 2), weight=2), Job("h_adc", F, n=130, cap=130, fixed=1, bytes=255, reach=(1,)), Job("h_adc", F, n=129, cap=130, fixed=1, bytes=254, reach=(1,))], SHADOW)
check("C24", "Every stream of up to 8 (thorough: 10) bytes; every 4 to 6 bytes that continue a compressed chunk behind 3..4096 literals (each of the nine distance sizes), every 4 bytes behind a stored chunk. " + LITERAL_TAIL,
      [Job("h_lznt1", F, n=n, cap=c, reach=(1, 2) if n > 1 else ()) for n, c in ((0, 8), (1, 8), (2, 8), (4, 8), (6, 8), (8, 8), (8, 20), (7, 3))] + [Job("h_lznt1", F, n=10, cap=20, reach=(1, 2), thorough=True, timeout=800)] +
      [Job("h_lznt1", F, n=6, chunk=1, pre=p, cap=10, reach=(1, 2)) for p in (3, 8, 15, 16, 17, 24)] +
      [Job("h_lznt1", F, n=4, chunk=1, pre=p, cap=10, reach=(1, 2)) for p in (31, 32, 33, 63, 64, 65, 128, 129, 256, 257, 511, 512, 513, 1024, 1025)] + [Job("h_lznt1", F, n=4, chunk=1, pre=p, cap=10, reach=(1, 2), weight=2) for p in (2048, 2049)] + [Job("h_lznt1", F, n=4, chunk=1, pre=3600, cap=10, reach=(1, 2), thorough=True, timeout=800)] +
      [Job("h_lznt1", F, n=3, chunk=1, pre=9, cap=14, reach=(1, 2), weight=2)] + [Job("h_lznt1", F, n=4, chunk=1, pre=3, run=r, cap=10, reach=(1, 2), weight=2) for r in (13, 14, 30, 61, 62, 300, 1100, 4000)] + [Job("h_lznt1", F, n=3, chunk=1, pre=p, cap=80, reach=(1, 2), thorough=True, timeout=800) for p in (9, 1032)] +
      [Job("h_lznt1", F, n=4, pre=p, cap=10, reach=(1, 2)) for p in (1, 100, 4096)], SHADOW)
check("C25", "Every stream of up to 4 (thorough: 5) bytes; every 2 or 3 bytes behind 1 and 20 bytes of output; opcodes of each kind with every distance behind 2100 bytes of output; every byte behind a match with a fixed distance (the previous distance, large matches); literals of 271 bytes. Every stream: well-formed ones decode to their data, the others are refused.",
      [Job("h_lzvn", F, n=n, cap=10, reach=(1, 2)) for n in (1, 2, 3, 4)] + [Job("h_lzvn", F, n=4, cap=3, reach=(1, 2))] + [Job("h_lzvn", F, n=5, cap=10, reach=(1, 2), thorough=True, timeout=800)] +
      [Job("h_lzvn", F, n=3, cap=12, pre=1, reach=(1, 2), weight=2), Job("h_lzvn", F, n=2, cap=20, pre=20, reach=(1, 2), weight=2)] +
      [Job("h_lzvn", F, n=n, cap=40, pre=2100, fixed=1, bytes=b, reach=(1, 2), weight=2) for n, b in ((3, 0x07), (3, 0x3f), (5, 0x87), (3, 0xa0), (4, 0xaf), (6, 0xbf), (2, 0x05), (5, 0xcd))] +
      [Job("h_lzvn", F, n=n, cap=40, pre=50, fixed=7, bytes=b, reach=(1,), weight=2) for n, b in ((4, 0x460a00), (4, 0xf10a00), (4, 0xf00a00), (4, 0x0c0a00), (5, 0xe20a00))] +
      [Job("h_lzvn", F, n=273, cap=300, fixed=3, bytes=0xffe0, reach=(1,)), Job("h_lzvn", F, n=272, cap=300, fixed=3, bytes=0xffe0, reach=(2,)), Job("h_lzvn", F, n=4, cap=300, pre=3, fixed=7, bytes=0xf00200, reach=(1, 2), weight=2)], SHADOW)
check("C26", "Stored blocks: arbitrary padding and contents, sizes 0..8, 255, 256, 65535, each bit of the complement wrong, cut short or behind the end of the output, followed by another block. Fixed codes: every 29 bits behind the block header (thorough: 37); one match of every length symbol with every distance symbol and every additional bits, at distances up to 32768 of up to 300 (chosen length symbols: 33000) bytes of output. Blocks with their own codes: six sets of code lengths with every 8 to 16 bits as the body, the last one to three code lengths arbitrary, code lengths written plainly and as runs, every 8 bits (thorough: 16) within the code lengths. " + LITERAL_TAIL,
      [Job("h_deflate", F, n=n, skip=3, head=h, reach=(1, 2) if h < 2 else (2,)) for n, h in ((2, 6), (2, 7))] + [Job("h_deflate_stored", F, n=n, last=l, cap=c, reach=(1, 2)) for n, l, c in ((0, 1, 8), (4, 1, 8), (8, 1, 8), (9, 1, 3), (300, 1, 260))] + [Job("h_deflate_stored", F, n=3, last=0, cap=8, reach=(1, 2), weight=2)] + [Job("h_deflate", F, n=n, skip=3, head=3, reach=(1, 2) if n > 1 else (2,), weight=3) for n in (1, 2, 3, 4)] + [Job("h_deflate", F, n=n, skip=3, head=h, reach=(1, 2), weight=w, thorough=t, timeout=800) for n, h, w, t in ((3, 2, 3, False), (5, 3, 9, True))] +
      [Job("h_deflate", F, n=2, reach=(2,), weight=2)] +
      [Job("h_deflate", F, n=10, skip=40, head=0xfffe000101 & 0xffffffffff, reach=(1,))] +
      [Job("h_deflate_match", F, sym=s, pre=300, cap=260, reach=(1, 2), weight=2) for s in (257, 264)] +
      [Job("h_deflate_match", F, sym=s, pre=2, cap=260, dist=0, reach=(1,)) for s in range(257, 286)] + [Job("h_deflate_match", F, sym=s, pre=2, cap=260, dist=1, reach=(2,)) for s in (286, 287)] +
      [Job("h_deflate_match", F, sym=257, pre=33000, cap=260, dist=40, reach=(1,), weight=4)] + [Job("h_deflate_match", F, sym=257, pre=33000, cap=260, dist=d, reach=(1,), weight=2) for d in range(16, 22)] + [Job("h_deflate_match", F, sym=257, pre=33000, cap=260, dist=d, reach=(1,), weight=2, thorough=True, timeout=800) for d in range(22, 30)] +
      [Job("h_deflate_dynamic", F, set=s, n=n, cap=8, reach=(1, 2) if s != 4 else (2,), weight=3) for s, n in ((0, 2), (1, 1), (2, 2), (3, 2), (4, 1), (5, 2))] + [Job("h_deflate_dynamic", F, set=1, n=2, cap=8, reach=(1, 2), weight=9)] +
      [Job("h_deflate_dynamic", F, set=s, n=1, vary=v, runs=r, cap=8, reach=(1, 2) if s != 1 else (2,), weight=3) for s, v, r in ((2, 1, 0), (2, 3, 0), (1, 2, 1), (0, 2, 0), (0, 3, 1))] + [Job("h_deflate_dynamic", F, set=s, n=2, runs=1, cap=8, reach=(1, 2), weight=2) for s in (0, 2, 3, 5)] +
      [Job("h_deflate_runs", F, n=1, reach=(2,), nl=l) for l in (257, 260)] + [Job("h_deflate_runs", F, n=2, reach=(1, 2), nl=257, thorough=True, timeout=800)], SHADOW)
check("C27", "Every header; every checksum over 0..20 bytes, the first two of them arbitrary, in a stored block and in a block with fixed codes, the buffer as large as the data or larger, with and without bytes behind the checksum, with the field of a preset dictionary.",
      [Job("h_zlib", F, k=k, type=t, room=r, more=m, reach=(1, 2)) for k, t, r, m in ((0, 0, 0, 0), (0, 1, 4, 0), (2, 0, 0, 0), (2, 1, 0, 0), (2, 0, 3, 0), (2, 1, 3, 1), (3, 0, 0, 1), (8, 0, 1, 0), (20, 0, 1, 0), (9, 1, 2, 0), (2, 0, 0, 9))] +
      [Job("h_zlib", F, k=k, type=t, header=1, reach=(1, 2, 3)) for k, t in ((0, 0), (2, 0), (1, 1))] + [Job("h_zlib", F, k=2, header=2, room=r, reach=(1, 2)) for r in (0, 2)] + [Job("h_zlib", F, k=2, sum=n, reach=(1,)) for n in (0, 3)], SHADOW)
check("C28", "One and two blocks with four sets of symbols and code lengths, every body of 8 (one set and two blocks: 5) bits and every origin up to 4, also behind a beginning of 50 symbols with more than one code table, runs of equal bytes with counts; every block and stream checksum; every 8 to 12 bits at the place of the selectors and code lengths; (thorough) a block of more than 100000 bytes. " + LITERAL_TAIL,
      [Job("h_bzip2", F, set=s, n=8, reach=(1, 2), weight=4) for s in (0, 1, 2, 4)] + [Job("h_bzip2", F, set=3, n=5, reach=(1, 2), weight=4)] + [Job("h_bzip2", F, set=s, n=10, reach=(1, 2), weight=9, thorough=True, timeout=800) for s in (0, 2, 4)] +
      [Job("h_bzip2", F, set=s, n=5, blocks=2, reach=(1, 2), weight=4) for s in (0, 2)] +
      [Job("h_bzip2", F, set=s, n=6, crc=c, reach=(1, 2), weight=2) for s in (0, 4) for c in (1, 2)] + [Job("h_bzip2", F, set=2, n=5, crc=c, blocks=2, reach=(1, 2), weight=2) for c in (1, 2)] +
      [Job("h_bzip2", F, set=4, n=4, skip=k, head=h, cap=c, reach=(1, 2), weight=2) for k, h, c in ((4, 0, 40), (3, 2, 12), (5, 0, 70))] +
      [Job("h_bzip2_tables", F, n=8, reach=(2,)), Job("h_bzip2_tables", F, n=12, keep=20, reach=(2,), weight=2), Job("h_bzip2_tables", F, n=8, keep=3, reach=(2,), weight=2), Job("h_bzip2_large", F, reach=(1,), thorough=True, timeout=850, weight=9)], SHADOW)

NOT_APPLICABLE = {}
