#!/usr/bin/env python3
"""Writes harness/src/enc_tables.rs: the published code page tables, taken from
sources independent of /repo (CPython's codecs; Perl's Encode for MacDingbats;
Apple's CELTIC.TXT and GAELIC.TXT differences to MacRoman written out below)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = ["Ascii:ascii", "Iso8859_1:iso8859_1"] + ["Iso8859_%d:iso8859_%d" % (i, i) for i in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16)] + [
    "Koi8R:koi8_r", "Koi8U:koi8_u", "MacArabic:mac_arabic", "MacCeltic:", "MacCentralEurRoman:mac_latin2", "MacCroatian:mac_croatian", "MacCyrillic:mac_cyrillic",
    "MacDingbats:", "MacFarsi:mac_farsi", "MacGaelic:", "Windows874:cp874"] + ["Windows125%d:cp125%d" % (i, i) for i in range(9)]
U = 0xffff
def py(c):
    r = []
    for b in range(256):
        try:
            r.append(ord(bytes([b]).decode(c)))
        except UnicodeDecodeError:
            r.append(U)
    return r
def perl(c):
    o = subprocess.check_output(["perl", "-MEncode", "-e", 'for $i (0..255){$s=eval{decode("%s",chr($i),Encode::FB_CROAK)};printf "%%x\\n",(defined $s && length $s)?ord($s):0xffff;}' % c], text=True)
    return [int(x, 16) for x in o.split()]
roman = py("mac_roman")
celtic = list(roman)
for b, u in {0xDE: 0x176, 0xDF: 0x177, 0xE2: 0x1EF2, 0xE3: 0x1EF3, 0xF0: 0x2663, 0xF5: 0x131, 0xF6: 0xDD, 0xF7: 0xFD, 0xF8: 0x174, 0xF9: 0x175, 0xFA: 0x1E84, 0xFB: 0x1E85,
             0xFC: 0x1E80, 0xFD: 0x1E81, 0xFE: 0x1E82, 0xFF: 0x1E83}.items():
    celtic[b] = u
gaelic = list(celtic)
for b, u in {0xB0: 0x1E02, 0xB4: 0x1E03, 0xB5: 0x10A, 0xB6: 0x10B, 0xB7: 0x1E0A, 0xB8: 0x1E0B, 0xB9: 0x1E1E, 0xBA: 0x1E1F, 0xBB: 0x120, 0xBC: 0x121, 0xBD: 0x1E40, 0xC0: 0x1E41,
             0xC1: 0x1E56, 0xC2: 0x1E57, 0xC3: 0x27C, 0xC5: 0x17F, 0xC6: 0x1E60, 0xD6: 0x1E61, 0xD7: 0x1E9B, 0xDA: 0x1E6A, 0xE0: 0x1E6B, 0xE4: 0x204A}.items():
    gaelic[b] = u
T = {}
def main():
    import sys
    out = []
    for n in NAMES:
        k, c = n.split(":")
        if c:
            T[k] = py(c)
        elif k == "MacDingbats":
            T[k] = perl("MacDingbats")
            T[k][0x7f] = 0x7f
        elif k == "MacCeltic":
            T[k] = celtic
        else:
            T[k] = gaelic
    if len(sys.argv) > 1:
        return
    out.append("// generated by tools/mktables.py")
    out.append("use keramics_encodings::CharacterEncoding;")
    out.append("pub const N: usize = %d;" % len(T))
    out.append("pub static TABLES: [[u16; 256]; N] = [")
    for k, t in T.items():
        out.append("    // " + k)
        out.append("    [" + ",".join("0x%x" % x for x in t) + "],")
    out.append("];")
    out.append("pub fn encoding(i: u64) -> CharacterEncoding {\n    match i {")
    for i, k in enumerate(T):
        out.append("        %d => CharacterEncoding::%s," % (i, k))
    out.append("        _ => CharacterEncoding::Windows932,\n    }\n}")
    # Windows 932: Unicode.org CP932.TXT = CPython's cp932 without Microsoft's private use extras
    rows = []
    for a in range(256):
        row = []
        if not (0x81 <= a <= 0x9f or 0xe0 <= a <= 0xfc) or 0xf0 <= a <= 0xf9:
            rows.append(None)
            continue
        for b in range(256):
            try:
                s = bytes([a, b]).decode("cp932")
                row.append(ord(s) if len(s) == 1 else U)
            except UnicodeDecodeError:
                row.append(U)
        rows.append(row if any(x != U for x in row) else None)
    used = [r for r in rows if r]
    out.append("pub static CP932: [[u16; 256]; %d] = [" % len(used))
    for r in used:
        out.append("    [" + ",".join("0x%x" % x for x in r) + "],")
    out.append("];")
    ix, n = [], 0
    for r in rows:
        ix.append(n if r else 255)
        n += 1 if r else 0
    out.append("pub static CP932_ROW: [u8; 256] = [" + ",".join(map(str, ix)) + "];")
    open(V + "/harness/src/enc_tables.rs", "w").write("\n".join(out) + "\n")
main()
