#!/usr/bin/env python3
"""Writes harness/src/oracle.rs from /verif/oracle/tables (published mapping
tables; never from /repo/src).  Every single-byte table is cross-checked here
against Python's own codec of the same name, and the two WHATWG indexes against
Python's big5hkscs / cp932 codecs where those overlap (a disagreement count is
printed)."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__)) + "/.."
T = H + "/oracle/tables"

SB = [("ascii", None, "ascii"), ("ibm_866", "ibm-cp866", "cp866")]
SB += [("iso_8859_%d" % i, "iso-8859-%d" % i, "iso8859_%d" % i) for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16)]
SB += [("koi8_r", "koi8-r", "koi8_r"), ("koi8_u", "koi8-u", "koi8_u"), ("mac_roman", "mac-roman", "mac_roman"),
       ("mac_cyrillic", "mac-cyrillic", "mac_cyrillic"), ("windows_874", "windows-cp874", "cp874")]
SB += [("windows_125%d" % i, "windows-cp125%d" % i, "cp125%d" % i) for i in range(9)]
assert len(SB) == 31


def load(path, base):
    t = {}
    for line in open(path):
        p = line.split()
        if len(p) < 2 or p[0].startswith("#") or p[1].startswith("#"):
            continue
        k = int(p[0], base)
        assert k not in t, (path, k)
        t[k] = int(p[1], 16)
    return t


def sb_table(name, f, codec):
    if f is None:
        return [0xFFFD] * 128
    t = load("%s/single_byte/%s.txt" % (T, f), 16)
    for b in range(128):
        assert t[b] == b
    out = []
    diff = 0
    for b in range(128, 256):
        v = t.get(b, 0xFFFD)
        try:
            c = ord(bytes([b]).decode(codec))
        except UnicodeDecodeError:
            c = 0xFFFD
        if c != v:
            diff += 1
        out.append(v)
    assert diff == 0, (name, diff)
    return out


def dedupe(t, last):
    """code point -> pointer: the last pointer for the code points in `last`, else the first"""
    e = {}
    for p in sorted(t):
        c = t[p]
        if c in last or c not in e:
            e[c] = p
    return e


def two_level(enc):
    """page index and pages of 64 code points; 0 is 'absent'"""
    pages, idx = [[0] * 64], []
    for pg in range(0x30000 >> 6):
        row = [enc.get((pg << 6) + k, 0) for k in range(64)]
        if any(row):
            idx.append(len(pages))
            pages.append(row)
        else:
            idx.append(0)
    return idx, pages


def w(f, name, ty, vals, fmt="%d"):
    f.write("pub static %s: %s = [\n" % (name, ty))
    for i in range(0, len(vals), 16):
        f.write("    " + ",".join(fmt % v for v in vals[i:i + 16]) + ",\n")
    f.write("];\n")


def main():
    o = open(H + "/harness/src/oracle.rs", "w")
    o.write("// Written by tools/gen_oracle.py from oracle/tables.\n")
    o.write("pub static SB: [[u16; 128]; 31] = [\n")
    for n, f, c in SB:
        o.write("    // %s\n    [%s],\n" % (n, ",".join("0x%X" % v for v in sb_table(n, f, c))))
    o.write("];\n")

    b5 = load(T + "/index-big5.txt", 10)
    n5 = max(b5) + 1
    w(o, "BIG5_DEC", "[u32; %d]" % n5, [b5.get(i, 0) for i in range(n5)])
    def b5_bytes(p):
        t = p % 157
        return ((p // 157 + 0x81) << 8) | (t + (0x40 if t < 0x3F else 0x62))
    e = dedupe(b5, {0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345})
    i, p = two_level({c: b5_bytes(x) for c, x in e.items()})
    w(o, "BIG5_PAGE", "[u16; %d]" % len(i), i)
    w(o, "BIG5_ENC", "[[u16; 64]; %d]" % len(p), ["[" + ",".join(map(str, r)) + "]" for r in p], "%s")
    agree = dis = 0
    for x, c in b5.items():
        bb = b5_bytes(x).to_bytes(2, "big")
        try:
            s = bb.decode("big5hkscs")
        except UnicodeDecodeError:
            continue
        if s == chr(c):
            agree += 1
        else:
            dis += 1
    print("big5: %d pointers, agree with python big5hkscs %d, differ %d" % (len(b5), agree, dis))

    sj = load(T + "/index-jis0208.txt", 10)
    ns = max(sj) + 1
    w(o, "SJIS_DEC", "[u32; %d]" % ns, [sj.get(i, 0) for i in range(ns)])
    def sj_bytes(p):
        l, t = p // 188, p % 188
        return ((l + (0x81 if l < 0x1F else 0xC1)) << 8) | (t + (0x40 if t < 0x3F else 0x41))
    # WHATWG "index Shift_JIS pointer": the index without pointers 8272 to 8835, first entry wins
    e = dedupe({k: v for k, v in sj.items() if not 8272 <= k <= 8835}, set())
    assert not any(0xE000 <= c <= 0xE757 or c in (0xA5, 0x203E, 0x2212) or 0xFF61 <= c <= 0xFF9F for c in e)
    enc = {c: sj_bytes(x) for c, x in e.items()}
    enc[0x2212] = enc[0xFF0D]
    for c in range(0xE000, 0xE758):
        enc[c] = sj_bytes(c - 0xE000 + 8836)
    enc[0x80] = 0x80
    enc[0xA5] = 0x5C
    enc[0x203E] = 0x7E
    for c in range(0xFF61, 0xFFA0):
        enc[c] = c - 0xFF61 + 0xA1
    i, p = two_level(enc)
    w(o, "SJIS_PAGE", "[u16; %d]" % len(i), i)
    w(o, "SJIS_ENC", "[[u16; 64]; %d]" % len(p), ["[" + ",".join(map(str, r)) + "]" for r in p], "%s")
    agree = dis = 0
    for x, c in sj.items():
        bb = sj_bytes(x).to_bytes(2, "big")
        try:
            s = bb.decode("cp932")
        except UnicodeDecodeError:
            continue
        if s == chr(c):
            agree += 1
        else:
            dis += 1
    print("jis0208: %d pointers, agree with python cp932 %d, differ %d" % (len(sj), agree, dis))


main()
