"""The jobs of each property: which harness, which encoding, which window of
arbitrary bytes or characters, in which surroundings, with which buffer size.

A job is (harness, [p, e, fill, pre, n, suf, m, end, lo, hi, split, x]); the
meaning of the arguments is given in harness/src/body.rs.  Every job's symbolic
window is covered completely; what is enumerated here is everything around it.
"""
import random

UTF8, U16L, U16B, U32L, U32B, BIG5, SJIS, SB0 = 0, 1, 2, 3, 4, 5, 6, 7
NAMES = ["utf8", "utf16_le", "utf16_be", "utf32_le", "utf32_be", "big5_whatwg", "shiftjis_whatwg"] + [
    "single_byte::" + x for x in (
        "ascii ibm_866 iso_8859_1 iso_8859_2 iso_8859_3 iso_8859_4 iso_8859_5 iso_8859_6 iso_8859_7 "
        "iso_8859_8 iso_8859_9 iso_8859_10 iso_8859_11 iso_8859_13 iso_8859_14 iso_8859_15 iso_8859_16 "
        "koi8_r koi8_u mac_roman mac_cyrillic windows_874 windows_1250 windows_1251 windows_1252 "
        "windows_1253 windows_1254 windows_1255 windows_1256 windows_1257 windows_1258").split()]
SB = list(range(SB0, SB0 + 31))
UTF = [UTF8, U16L, U16B, U32L, U32B]
DBCS = [BIG5, SJIS]
ALL = UTF + DBCS + SB
SB_OWN = [SB0, SB0 + 2, SB0 + 24]  # ascii, iso_8859_1, windows_1252: the likeliest to get code of their own
ISEND_DEC = UTF + DBCS          # decoders with is_end
ISEND_ENC = [BIG5]              # encoders with is_end

# characters whose loss is a recorded finding, see known-findings.json
KNOWN_LOSSY = 0xA5 | 0x203E << 21 | 0x2212 << 42


def enc_max(e, fill):
    """Most bytes one filler character takes when encoded."""
    if fill == 0:
        return {U16L: 2, U16B: 2, U32L: 4, U32B: 4}.get(e, 1)
    return {UTF8: 4, U16L: 4, U16B: 4, U32L: 4, U32B: 4, BIG5: 2, SJIS: 2}.get(e, 1)


def txt_max(e, fill):
    if fill == 0:
        return 1
    return 4 if e <= BIG5 else 3


class W:
    """A window of arbitrary bytes (n = number) or characters (n = slot classes)."""

    def __init__(self, n, split=0, lo=0, hi=255):
        self.n, self.split, self.lo, self.hi = n, split, lo, hi


class Jobs:
    def __init__(self, p, tier, seed):
        self.p, self.tier, self.seed = p, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(seed * 1000003 + p)
        self.out = {}

    def _add(self, kind, w, e, c, m, end, x, needtext, needenc):
        fill, pre, suf = c
        small_in, small_out = 150 if kind != "ascii" else 190, 230
        big = "" if max(needtext, needenc) <= small_in and (m is None or m <= small_out) else "_l"
        if big and max(needtext, needenc) > 5150:
            big = "_x"
        if m is None:
            m = {"": 230, "_l": 5380, "_x": 70400}[big]
        k = ("h_" + kind + big, (self.p, e, fill, pre, w.n, suf, m, end, w.lo, w.hi, w.split, x))
        self.out[k] = None

    def dec(self, w, e, c=(1, 1, 0), m=None, end=1, x=0):
        k = c[1] + c[2]
        self._add("dec", w, e, c, m, end, x, k * txt_max(e, c[0]) + 3 * w.n, k * enc_max(e, c[0]) + w.n)

    def enc(self, w, e, c=(1, 1, 0), m=None, end=1, x=0):
        k = c[1] + c[2]
        s = len("%x" % w.n)
        self._add("enc", w, e, c, m, end, x, k * txt_max(e, c[0]) + 4 * s, k * enc_max(e, c[0]) + 4 * s)

    def ascii(self, n, e, c, m=None, end=1, x=0):
        k = c[1] + c[2]
        self._add("ascii", W(n), e, c, m, end, x, k * txt_max(e, c[0]) + n, k * enc_max(e, c[0]) + n)

    def list(self):
        return list(self.out)


# ------------------------------------------------------------------ windows

def leads(e, k, rng):
    """k lead bytes of a double-byte encoding: edges first, then random ones."""
    if e == BIG5:
        edge = [0x88, 0x81, 0xFE, 0xA1, 0xC6, 0xA4, 0xF9, 0x87, 0xC8, 0x9D, 0xFA]
        al = list(range(0x81, 0xFF))
    else:
        edge = [0x81, 0xF0, 0xE0, 0x9F, 0xFC, 0xED, 0xF9, 0xFA, 0xEE, 0x88, 0xEA]
        al = list(range(0x81, 0xA0)) + list(range(0xE0, 0xFD))
    r = edge[:k]
    rest = [x for x in al if x not in r]
    rng.shuffle(rest)
    return r + rest[: max(0, k - len(r))]


def two_pairs(e, rng, k):
    """Windows of two pairs with both leads given: usual text, edges, random ones."""
    c = [(0xA5, 0xB0), (0xA4, 0xA4), (0xB0, 0x88), (0xFE, 0xA1)] if e == BIG5 else [(0x88, 0x8A), (0x82, 0x83), (0x83, 0xE0), (0xFC, 0x81)]
    c += list(zip(leads(e, 40, rng)[11:], leads(e, 40, rng)[11:]))
    return [W(4, 256 | b << 32, a, a) for a, b in c[:k]]


def dec_w(e, full, rng=None):
    """Windows of arbitrary input bytes.  full 0: light, 1: quick, 2: thorough."""
    if e == UTF8:
        return [W(n) for n in ([3], [1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6, 7])[full]]
    if e in (U16L, U16B):
        return [W(n) for n in ([4], [1, 2, 3, 4, 5, 6], [1, 2, 3, 4, 5, 6, 7, 8, 9])[full]]
    if e in (U32L, U32B):
        r = [W(n) for n in ([5], [1, 2, 3, 4, 5, 6, 7, 8], [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12])[full]]
        return r
    if e >= SB0:
        return [W(n) for n in ([2], [1, 2, 3], [1, 2, 3, 4])[full]]
    # double byte
    first = 0x81
    if full == 0:
        return [W(1)] + [W(2, 256, x, x) for x in (leads(e, 4, rng or random.Random(0)))] + [W(2, 256, 0xFF, 0xFF), W(2, 512, 0x41, 0x41)]
    r = [W(1), W(2, 256, 0, 0x3F), W(2, 256, 0x40, 0x7F), W(2, 256, 0x80, 0x9F), W(2, 256, 0xA0, 0xBF),
         W(2, 256, 0xC0, 0xDF), W(2, 256, 0xE0, 0xFF)]
    # three bytes: a lead, anything, anything; and one byte before an arbitrary pair
    if full == 1:
        r += [W(3, 256, a, a) for a in leads(e, 6, rng or random.Random(0))]
        r += two_pairs(e, rng or random.Random(0), 6)
    else:
        for a in range(0x80, 0x100, 4):
            if e == BIG5 or not 0xA0 <= a < 0xE0:
                r.append(W(3, 256, a, a + 3))
        for a in ([0x41] if e == BIG5 else [0x41, 0xA1, 0xB5, 0xDF]):
            for _ in range(1):
                r.append(W(3, 512, a, a))
        # two pairs: the first lead fixed, the second split
        r += [W(4, 256 | 1024, a, a) for a in leads(e, 8, rng or random.Random(0))]
        r += two_pairs(e, rng or random.Random(0), 20)
    return r


def enc_w(e, full, rng=None):
    """Windows of arbitrary characters."""
    two = [a | b << 4 for a in range(1, 5) for b in range(1, 5)]
    if e in UTF:
        r = [W(n) for n in range(1, 5)]
        if full >= 1:
            r += [W(n) for n in two]
        if full == 2:
            r += [W(a | b << 4 | c << 8) for a in range(1, 5) for b in range(1, 5) for c in range(1, 5)]
        return r
    if e >= SB0:
        r = [W(1), W(2), W(3, 1), W(4)]
        if full >= 1:
            r += [W(0x11), W(0x12, 1), W(0x21, 1), W(0x41), W(0x14), W(0x31, 1), W(0x13, 1)]
        if full == 2:
            r += [W(0x22, 1), W(0x23, 1), W(0x32, 1), W(0x24, 1), W(0x42, 1), W(0x33, 1), W(0x111), W(0x121, 1), W(0x131, 1)]
        return r
    # double byte
    if full == 0:
        r = [W(1), W(2, 1, 0xC2, 0xC3), W(2, 1, 0xCE, 0xCE), W(3, 3, 0xE3, 0xE3), W(3, 3, 0xE4, 0xE4), W(3, 3, 0xEF, 0xEF), W(4, 1, 0xF4, 0xF4)]
        if e == BIG5:
            r += [W(5), W(0x65), W(4, 7, 0xF0, 0xF0)] if full else [W(5), W(0x65)]
        return r
    r = [W(1), W(2, 1)] + [W(3, 3, a, a) for a in range(0xE0, 0xF0)] + [W(4, 1, 0xF1, 0xF4)]
    r += [W(4, 7, 0xF0, 0xF0)]
    r += [W(0x11), W(0x21, 1), W(0x12, 1)]
    r += [W(0x31, 3, 0x61, 0x61), W(0x13, 3, 0xE3, 0xE4), W(0x13, 3, 0xEF, 0xEF)]
    if e == BIG5:
        r += [W(n) for n in (0x65, 0x56, 0x55, 0x66, 0x655, 0x665, 0x555, 0x565, 0x656, 0x15, 0x51, 0x16, 0x165, 0x651)]
        r += [W(n, 1) for n in (0x77, 0x25, 0x52, 0x26, 0x62, 0x265, 0x652)]
        r += [W(0x35, 3), W(0x45, 7, 0, 255)] if full == 2 else [W(0x85, 3)]
        r += [W(n, 7) for n in (0xB5, 0x5B, 0xB65)]
    if full == 2:
        for a in (0xE3, 0xE4, 0xEF):
            r += [W(0xA3, 3, a, a), W(0x83, 3, a, a)]
        r += [W(0x22, 1), W(0x32, 3, 0xC3, 0xC3), W(0x23, 3, 0xE3, 0xE4), W(0x23, 3, 0xEF, 0xEF), W(0x111), W(0x131, 3, 0x61, 0x61)]
    return r


# ------------------------------------------------------------------ contexts
# (filler kind, characters before, characters after)

BASE = [(1, 1, 0), (0, 0, 0)]
NEAR = [(1, 4, 0), (1, 2, 3), (0, 1, 1), (2, 2, 2)]
# ASCII around the window in amounts that shift it through word-sized steps
ALIGN = [(0, a, b) for a in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33) for b in (0, 1, 7, 8, 16)]
ALIGN_Q = [(0, a, b) for a, b in ((3, 0), (7, 1), (8, 0), (8, 8), (9, 7), (15, 17), (16, 0), (16, 16), (31, 1), (32, 32), (33, 3))]
LONG = [(0, 300, 0), (1, 300, 5), (0, 1030, 3), (0, 5000, 9), (2, 260, 2)]


# around multiples of the sizes code works in blocks of
BLOCKS = [(0, 62, 4), (0, 63, 1), (0, 127, 2), (0, 255, 2), (0, 1023, 2), (0, 4095, 2)]
ROOMS = [((0, 150, 2), (31, 32, 33, 63, 64, 65, 127, 128, 129)), ((1, 120, 2), (32, 48, 63, 64, 65, 66, 96, 127, 128, 129, 130)),
         ((2, 60, 2), (32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130)),
         ((0, 5000, 2), (511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097))]
# runs of one sort of non-ASCII character
RUNS = [(3, 8, 0), (3, 3, 9), (3, 17, 2), (4, 8, 1), (4, 5, 8), (4, 16, 0)]
# the window in every place of a block of eight or sixteen
LANES = [(0, a, 24 - a) for a in (2, 4, 5, 6, 10, 11, 12, 13, 14)] + [(3, a, 17 - a) for a in (4, 5, 6, 7, 10)] + [(4, a, 17 - a) for a in (2, 3, 4, 6, 7)]


# what cannot be decoded or encoded behind the window
JUNK = [(5, 0, 1), (5, 1, 2), (5, 2, 11), (5, 9, 40)]


def ctxs(j, full):
    """(context, window level) pairs."""
    r = [(c, full) for c in BASE]
    r += [(c, 0) for c in BLOCKS + RUNS + (JUNK if j.p not in (13, 14) else [])]
    r += [(c, 0 if not j.thorough else 1) for c in NEAR]
    r += [(c, 0) for c in (ALIGN if j.thorough else ALIGN_Q)]
    r += [(c, 0) for c in LONG + LANES]
    return r


# more than 65,536 bytes before the window
def huge(j, encs, kind, ms=(None,), x=0):
    sb = SB_OWN + [SB0 + (j.p * 7 + j.seed + i * 13) % 31 for i in range(2)]
    for e in encs:
        if e >= SB0 and e not in sb and not j.thorough:
            continue
        c = (0, 65550, 3) if e in DBCS or e >= SB0 or e == UTF8 else (2, 16390, 2)
        if e in UTF and e != UTF8:
            # just behind, and across, 65,536 bytes of the encoding
            for c2 in ((0, 32767, 3), (1, 26213, 3)) if e in (U16L, U16B) else ((0, 16383, 3),):
                for m in set(ms[:1]) | ({65536, 65537, 65538} & set(ms)):
                    if kind == "dec":
                        j.dec(W(4, 16), e, c2, m, 1, x)
                    else:
                        j.enc(W(2, 1, 0xC3, 0xC3), e, c2, m, 1, x)
        for m in ms:
            if kind == "dec":
                w = W(2, 256, 0x81, 0x81) if e in DBCS else W(3) if e == UTF8 else W(4, 16) if e in UTF else W(1)
                j.dec(w, e, c, m, 1, x)
            else:
                j.enc(W(2, 1, 0xC3, 0xC3), e, c, m, 1, x)


def ends(e, kind):
    return (0, 1) if e in (ISEND_DEC if kind == "dec" else ISEND_ENC) else (1,)


def sb_pick(j, e, c):
    """Long and aligned surroundings for every single-byte encoding cost little, but
    31 times little adds up: quick runs take every encoding with the first contexts and
    a rotating third of the encodings with the others."""
    if e < SB0 or j.thorough:
        return True
    if c[0] == 4:  # the same as kind 3
        return False
    return c in BASE or e in SB_OWN or (hash((c, e, j.seed)) % 3 == 0)


def each(j, encs, full):
    for e in encs:
        for c, lv in ctxs(j, full):
            if sb_pick(j, e, c):
                yield e, c, lv


# ------------------------------------------------------------------ properties

def make(pid, tier, seed):
    p = int(pid[1:])
    j = Jobs(p, tier, seed)
    t = j.thorough
    full = 2 if t else 1
    {1: total_dec, 2: total_enc, 3: exact, 4: exact, 5: exact, 6: exact, 7: exact, 8: exact, 9: exact, 10: exact, 11: exact,
     12: exact, 13: enc_dec, 14: dec_enc, 15: chunk_dec, 16: chunk_enc, 17: small_dec, 18: small_enc, 19: err_dec, 20: err_enc,
     21: is_end, 22: progress, 23: ascii_through, 24: dirty, 25: place, 26: again, 27: recover_dec,
     28: recover_enc, 29: stream, 30: mirror, 31: prefix, 32: capacity}[p](j, full)
    return j.list()


def sizes(lo, hi, extra=()):
    return sorted(set(list(range(lo, hi)) + list(extra)))


def total_dec(j, full):
    huge(j, ALL, "dec", (None, 65550, 65551, 65552, 65553))
    for e in ALL:
        for end in ends(e, "dec"):
            # every buffer length around what the input needs
            for m in sizes(0, 6) + [230]:
                for w in dec_w(e, full if m in (0, 3, 5, 230) and (e != BIG5 or m in (3, 230)) else 0):
                    j.dec(w, e, (1, 1, 0), m, end)
            for m in (range(0, 24) if j.thorough or e < SB0 else range(0, 24, 5)):
                for w in dec_w(e, 0):
                    j.dec(w, e, (1, 4, 1), m, end)
    for e, c, lv in each(j, ALL, 1 if not j.thorough else 1):
        for end in ends(e, "dec"):
            for w in dec_w(e, lv if e not in DBCS else 0):
                j.dec(w, e, c, None, end)
                if c[1] >= 8:
                    for m in (c[1] + 1, c[1] + 2, c[1] + 3):
                        j.dec(w, e, c, m, end)


def total_enc(j, full):
    huge(j, ALL, "enc", (None, 65550, 65551, 65552, 65553))
    for e in ALL:
        for end in ends(e, "enc"):
            for m in sizes(0, 6) + [230]:
                for w in enc_w(e, full if m in (1, 230) else 0):
                    j.enc(w, e, (1, 1, 0), m, end)
            for m in (range(0, 24) if j.thorough or e < SB0 else range(0, 24, 5)):
                for w in enc_w(e, 0):
                    j.enc(w, e, (1, 4, 1), m, end)
    for e, c, lv in each(j, ALL, 1):
        for end in ends(e, "enc"):
            for w in enc_w(e, 0):
                j.enc(w, e, c, None, end)
                if c[1] >= 8:
                    for m in (c[1] + 1, c[1] + 2, c[1] + 3):
                        j.enc(w, e, c, m, end)


EXACT = {3: ([UTF8], [UTF8]), 4: ([U16L, U16B], []), 5: ([U32L, U32B], []), 6: ([], UTF), 7: (SB, []), 8: ([], SB),
         9: ([BIG5], []), 10: ([], [BIG5]), 11: ([SJIS], []), 12: ([], [SJIS])}


def exact(j, full):
    de, en = EXACT[j.p]
    for e, c, lv in each(j, de, full):
        for end in ends(e, "dec"):
            for w in dec_w(e, lv, j.rng):
                j.dec(w, e, c, None, end)
    for e, c, lv in each(j, en, full):
        for end in ends(e, "enc"):
            for w in enc_w(e, lv, j.rng):
                j.enc(w, e, c, None, end)
    t = j.thorough
    # deeper windows where the surroundings are plain
    for e in de:
        for end in ends(e, "dec"):
            for w in dec_w(e, 2, j.rng):
                if t or e != BIG5 or not w.split & 1024:
                    j.dec(w, e, BASE[0], None, end)
    for e in en:
        for end in ends(e, "enc"):
            for w in enc_w(e, 2, j.rng):
                if t or e != BIG5 or w.n not in (0xA3, 0x83):
                    j.enc(w, e, BASE[0], None, end)
    huge(j, de, "dec")
    huge(j, en, "enc")


def enc_dec(j, full):
    for e, c, lv in each(j, ALL, full):
        for w in enc_w(e, lv, j.rng):
            j.enc(w, e, c, None, 1, KNOWN_LOSSY if e == SJIS else 0)
    huge(j, UTF + DBCS, "enc")


def dec_enc(j, full):
    for e, c, lv in each(j, ALL, full):
        for w in dec_w(e, lv, j.rng):
            j.dec(w, e, c, None, 1)


def chunk_dec(j, full):
    huge(j, ALL, "dec")
    huge(j, ALL, "dec", x=65537)
    for e, c, lv in each(j, ALL, full):
        for w in dec_w(e, lv, j.rng):
            j.dec(w, e, c, None, 1)
            if c in ((0, 8, 8), (0, 16, 16), (0, 3, 0), (1, 2, 3), (1, 300, 5)):
                # cuts away from the window too
                n = c[1] * enc_max(e, c[0]) + w.n + c[2] * enc_max(e, c[0])
                for cut in ({0, 1, 2, 3, 5, 8, n // 2, n - 5, n - 2, n - 1} if c[1] < 100 else {1, 256, 257}):
                    ln = c[1] * enc_max(e, c[0]) + w.n + c[2] * enc_max(e, c[0]) if c[0] == 0 else c[1] + w.n
                    if 0 <= cut <= ln:
                        j.dec(w, e, c, None, 1, cut + 1)


def chunk_enc(j, full):
    huge(j, ALL, "enc")
    for e, c, lv in each(j, ALL, full):
        for w in enc_w(e, lv, j.rng):
            j.enc(w, e, c, None, 1)


def small_dec(j, full):
    huge(j, ALL, "dec", (None, 4096, 8192, 16384, 32768, 65535, 65536, 65537))
    for e in ALL:
        for end in ends(e, "dec"):
            for m in (range(0, 14) if j.thorough else range(0, 10)):
                lv = full if m in (1, 2, 3, 4, 5, 7) and e < SB0 and e not in DBCS else 0
                if e in DBCS and m in (3, 4, 5):
                    lv = 1
                for w in dec_w(e, lv, j.rng):
                    if w.n >= 3 and e in DBCS and not j.thorough and m != 4:
                        continue
                    j.dec(w, e, (1, 1, 0), m, end, 12 if m >= 4 and (e not in DBCS or m == 8) else 0)
            for m in range(0, 30, 1 if j.thorough or e < SB0 else 4):
                for w in dec_w(e, 0, j.rng):
                    j.dec(w, e, (1, 5, 2), m, end, 24 if m in (4, 5, 8, 11, 16, 21) else 0)
            for c in [(0, 8, 8), (0, 16, 16), (0, 31, 1), (2, 9, 3)]:
                if not sb_pick(j, e, c):
                    continue
                base = c[1] * (1 if c[0] == 0 else txt_max(e, c[0]))
                for m in sorted({4, 8, 15, 16, 17} | set(range(max(0, base - 2), base + 7)) | {base + c[2] + 2}):
                    for w in dec_w(e, 0, j.rng):
                        j.dec(w, e, c, m, end, 0)
            for c in [(0, 300, 0), (0, 1030, 3), (1, 300, 5), (0, 5000, 2)]:
                if not sb_pick(j, e, c):
                    continue
                for m in (255, 256, 257, c[1] - 1, c[1], c[1] + 1, c[1] + 2, c[1] + 3, c[1] + 4):
                    for w in dec_w(e, 0, j.rng):
                        j.dec(w, e, c, m, end, 24 if 255 <= m <= 257 and c[1] == 300 else 0)
        # rooms around the sizes code works in blocks of
        for c, ms in ROOMS:
            if sb_pick(j, e, c):
                for m in ms:
                    w = W(2, 256, 0x81, 0x88) if e in DBCS else W(3) if e < BIG5 else W(1)
                    j.dec(w, e, c, m, 1, 0)


def small_enc(j, full):
    huge(j, ALL, "enc", (None, 4096, 8192, 16384, 32768, 65535, 65536, 65537))
    for e in ALL:
        unit = {U16L: 2, U16B: 2, U32L: 4, U32B: 4}.get(e, 1)
        for end in ends(e, "enc"):
            for m in (range(0, 14) if j.thorough else range(0, 10)):
                for w in enc_w(e, full if m in (1, 2, 3, 4) and (e < BIG5 or j.thorough or m in (1, 4) and e < SB0) else 0, j.rng):
                    j.enc(w, e, (1, 1, 0), m, end, 12 if m >= 4 and (e not in DBCS or m == 6) else 0)
            if e == BIG5:
                for m in range(0, 8):
                    for n in (0x65, 0x56, 0x655, 0x665, 0x565, 0x165, 0x651):
                        j.enc(W(n), e, (1, 1, 1), m, end, 12 if m >= 4 else 0)
            for m in range(0, 30, 1 if j.thorough or e < SB0 else 4):
                for w in enc_w(e, 0, j.rng) + [W(0x11)]:
                    j.enc(w, e, (1, 5, 2), m, end, 24 if m in (4, 5, 8, 11, 16, 21) else 0)
            for c in [(0, 8, 8), (0, 16, 16), (0, 31, 1), (2, 9, 3)]:
                if not sb_pick(j, e, c):
                    continue
                base = c[1] * (unit if c[0] == 0 else enc_max(e, c[0]))
                for m in sorted({4, 8, 15, 16, 17} | set(range(max(0, base - 2), base + 7)) | {base + c[2] + 2}):
                    for w in enc_w(e, 0, j.rng) + [W(0x11)]:
                        j.enc(w, e, c, m, end, 0)
            for c in [(0, 300, 0), (0, 1030, 3), (1, 300, 5), (0, 5000, 2)]:
                if not sb_pick(j, e, c) or c[1] * unit > 5100 and not j.thorough:
                    continue
                b = c[1] * unit
                for m in (255, 256, 257, b - 1, b, b + 1, b + 2, b + 3, b + 4):
                    for w in enc_w(e, 0, j.rng):
                        j.enc(w, e, c, m, end, 24 if 255 <= m <= 257 and c[1] == 300 else 0)
        # rooms around the sizes code works in blocks of
        for c, ms in ROOMS:
            if sb_pick(j, e, c):
                for m in ms:
                    w = W(2, 1, 0xC3, 0xC3)
                    j.enc(w, e, c, m, 1, 0)


def err_dec(j, full):
    huge(j, ALL, "dec")
    for e, c, lv in each(j, ALL, full):
        for end in ends(e, "dec"):
            for w in dec_w(e, lv, j.rng):
                j.dec(w, e, c, None, end)
            for m in (range(0, 9) if c in BASE else ()):
                for w in dec_w(e, 0, j.rng):
                    j.dec(w, e, c, m, end)


def err_enc(j, full):
    huge(j, DBCS + SB, "enc", x=1)
    for e, c, lv in each(j, [BIG5, SJIS] + SB, full):
        for end in ends(e, "enc"):
            for w in enc_w(e, lv, j.rng):
                j.enc(w, e, c, None, end, 1)
            for m in (range(0, 6) if c in BASE else ()):
                for w in enc_w(e, 0, j.rng):
                    j.enc(w, e, c, m, end)


def is_end(j, full):
    huge(j, ISEND_DEC, "dec", x=1)
    for e, c, lv in each(j, ISEND_DEC, full):
        for w in dec_w(e, lv, j.rng):
            j.dec(w, e, c, None, 1, 1)
        for m in (range(0, 9) if c in BASE else ()):
            for w in dec_w(e, 0 if e in DBCS else lv, j.rng):
                j.dec(w, e, c, m, 1, 0)


def progress(j, full):
    huge(j, ALL, "dec", (4, 65536, 65552))
    huge(j, ALL, "enc", (4, 65536, 65552))
    for e in ALL:
        for m in (4, 5, 6, 7, 9):
            for c in ((0, 0, 0), (1, 1, 0), (1, 3, 1), (0, 0, 9), (0, 8, 0)):
                for w in dec_w(e, full if c == (0, 0, 0) and (m == 4 or j.thorough) else 0, j.rng):
                    j.dec(w, e, c, m, 1)
                for w in enc_w(e, full if c == (0, 0, 0) and (m == 4 or j.thorough) else 0, j.rng):
                    j.enc(w, e, c, m, 1)
        for c in LONG[:3]:
            if sb_pick(j, e, c):
                for m in (4, 256, 300, 301, 5000):
                    for w in dec_w(e, 0, j.rng):
                        j.dec(w, e, c, m, 1)
                    for w in enc_w(e, 0, j.rng):
                        j.enc(w, e, c, m, 1)


def ascii_through(j, full):
    asc = [UTF8] + DBCS + SB
    for e in asc:
        for end in (0, 1):
            for n in (1, 2, 3, 5, 8, 13, 16, 33) + ((64, 96, 120) if j.thorough else (64,)):
                for c in ((0, 0, 0), (1, 1, 0), (1, 0, 1), (1, 3, 2), (2, 4, 4)):
                    j.ascii(n, e, c, None, end, 1 if c == (0, 0, 0) else 0)
                for m in sorted({0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, n - 1, n, n + 1}):
                    if m <= n + 1:
                        j.ascii(n, e, (0, 0, 0), m, end, 1)
                for pre in (7, 8, 9, 16):
                    for m in sorted({0, 7, 8, 9, pre + n - 1, pre + n}):
                        j.ascii(n, e, (0, pre, 0), m, end, 1)
        for n, c in ((100, (0, 300, 40)), (20, (1, 300, 3)), (100, (0, 120, 80)), (120, (0, 150, 0))):
            if sb_pick(j, e, (1, n, c[1])):
                for end in (0, 1):
                    j.ascii(n, e, c, None, end, 1 if c[0] == 0 else 0)
                    for m in ((255, 256, 257) if c[0] == 0 else ()):
                        j.ascii(n, e, c, m, end, 1)


def dirty(j, full):
    huge(j, ALL, "dec", (None, 65553))
    huge(j, ALL, "enc", (None, 65553))
    for e in ALL:
        for end in ends(e, "dec"):
            for m in (0, 1, 2, 3, 4, 5, 6, 8, 12, 20):
                for w in dec_w(e, full if m == 6 and e not in DBCS else 0, j.rng):
                    j.dec(w, e, (1, 1, 0), m, end)
                for w in dec_w(e, 0, j.rng):
                    j.dec(w, e, (1, 3, 1), m, end)
            if e in DBCS:
                for w in dec_w(e, full, j.rng):
                    j.dec(w, e, (1, 1, 0), 10, end)
            for c in [(0, 8, 0), (0, 16, 16), (0, 300, 0)]:
                for w in dec_w(e, 0, j.rng):
                    j.dec(w, e, c, c[1] + c[2] + 6, end)
        for end in ends(e, "enc"):
            for m in (0, 1, 2, 3, 4, 5, 6, 8, 12, 20):
                for w in enc_w(e, full if m == 6 and e not in DBCS else 0, j.rng):
                    j.enc(w, e, (1, 1, 0), m, end)
                for w in enc_w(e, 0, j.rng):
                    j.enc(w, e, (1, 3, 1), m, end)
            if e in DBCS:
                for w in enc_w(e, full, j.rng):
                    j.enc(w, e, (1, 1, 0), 10, end)
            for c in [(0, 8, 0), (0, 16, 16), (0, 300, 0)]:
                for w in enc_w(e, 0, j.rng):
                    j.enc(w, e, c, c[1] + c[2] + 6, end)


def place(j, full):
    few = (0x01, 0x10, 0x53, 0x27, 0x44, 0x80, 0x08)
    shifts = few + ((0x02, 0x33, 0x16, 0x61, 0x75) if j.thorough else ())
    for e in ALL:
        for c in [(1, 1, 0), (0, 0, 0), (1, 4, 2), (0, 8, 8), (0, 16, 16), (0, 24, 33), (0, 33, 3), (1, 64, 5), (0, 80, 40)]:
            if not sb_pick(j, e, c):
                continue
            for i, x in enumerate(shifts if c[1] > 1 else shifts[:2]):
                # buffers: large; about full; ending inside what comes before the window
                k = c[1] + c[2]
                ms = (None,) if k < 2 else (None, c[1] + 2, c[1] + c[2] // 2)
                for k, m in enumerate(ms):
                    if c[1] > 1 and not j.thorough and (i + k + e) % 3 == 2:
                        continue
                    for end in ends(e, "dec"):
                        if m is None or end:
                            for w in dec_w(e, 1 if j.thorough and c[1] < 2 else 0, j.rng):
                                j.dec(w, e, c, m or 200, end, x)
                    for end in ends(e, "enc"):
                        if m is None or end:
                            for w in enc_w(e, 0, j.rng):
                                j.enc(w, e, c, m or 190, end, x)


    # across the border between two pages
    for e in ALL:
        for c in ((0, 20, 20), (1, 8, 8), (0, 40, 3), (0, 9, 70)):
            if sb_pick(j, e, c):
                u = {U16L: 2, U16B: 2, U32L: 4, U32B: 4}.get(e, 1) if c[0] == 0 else 2
                for w in dec_w(e, 0, j.rng):
                    for k in {c[1] * u, c[1] * u + 1, c[1] * u + 2, 7}:
                        j.dec(w, e, c, 200, 1, 256 | k << 9)
                for w in enc_w(e, 0, j.rng):
                    for k in {c[1], c[1] + 1, c[1] + 2, 7}:
                        j.enc(w, e, c, 200, 1, 256 | k << 9)


def again(j, full):
    for e in ALL:
        others = {e, UTF8, U16L, U16B, U32L, U32B, BIG5, SJIS, SB0 + 1 + e % 30, SB0 + (e * 7 + 3) % 31}
        for c in [(1, 1, 0), (0, 0, 0), (1, 3, 2), (0, 8, 8)]:
            if not sb_pick(j, e, c):
                continue
            for e2 in sorted(others):
                for x in (e2, e2 | 64):
                    if c != (1, 1, 0) and e2 != e and not j.thorough:
                        continue
                    # the search in a large table is only tractable character by character
                    hard = e2 in DBCS and x & 64 and e not in DBCS
                    for w in dec_w(e, 0, j.rng):
                        if hard and e != UTF8:
                            continue
                        if hard:
                            w = W(2, 256, 0xC3, 0xC3) if w.n == 3 else W(1)
                        if w.n < 3 or e2 in (e, UTF8) or j.thorough:
                            for end in ends(e, "dec") if e2 == e else (1,):
                                j.dec(w, e, c, None, end, x)
                    for w in enc_w(e2 if hard else e, 0, j.rng):
                        for end in ends(e, "enc") if e2 == e else (1,):
                            j.enc(w, e, c, None, end, x)
                    if e2 == e and (x == e2 or e in DBCS or e < SB0 and c == (1, 1, 0)):
                        # the other call with the other flag, with little room, with less input
                        for v in (256, 512, 1024, 256 | 1024, 256 | 512):
                            for w in dec_w(e, 0, j.rng) + ([W(2)] if e == UTF8 else []):
                                for end in ends(e, "dec") if v & 256 else (1,):
                                    if v & 512 == 0 or w.n < 3 or e not in DBCS:
                                        j.dec(w, e, c, None, end, x | v)
                            for w in enc_w(e, 0, j.rng):
                                for end in ends(e, "enc") if v & 256 else (1,):
                                    if v != 256 or e == BIG5:
                                        j.enc(w, e, c, None, end, x | v)
                    if e2 == e and c == (1, 1, 0):
                        # after hundreds of calls
                        j.dec(W(1), e, c, None, 1, x | 128)
                        j.enc(W(1), e, c, None, 1, x | 128)
                        if e == BIG5:
                            j.enc(W(0x65), e, c, None, 1, x | 128)
                        if e < SB0:
                            j.dec(W(2, 256, 0x81, 0x88) if e in DBCS else W(4, 16) if e in UTF else W(2), e, c, None, 1, x | 128)
                            j.enc(W(2, 1, 0xC3, 0xC3), e, c, None, 1, x | 128)


def recover_dec(j, full):
    huge(j, ALL, "dec", (None, 32768))
    for e, c, lv in each(j, ALL, full):
        for w in dec_w(e, lv, j.rng):
            if e == UTF8 and w.n > 4 and not j.thorough:
                continue
            j.dec(w, e, c, None, 1)
            if c in BASE or c in NEAR:
                for m in (4, 7) if j.thorough or c == (1, 1, 0) else (5,):
                    j.dec(w, e, c, m, 1)


def recover_enc(j, full):
    huge(j, DBCS + SB, "enc", (None, 32768))
    for e, c, lv in each(j, ALL, full):
        if e in UTF and not j.thorough and c not in BASE:
            continue
        if e in DBCS and not j.thorough and c in LANES:
            continue
        for w in enc_w(e, lv, j.rng):
            j.enc(w, e, c, None, 1)
            if e in DBCS and not j.thorough and c == (0, 0, 0):
                continue
            if c in BASE or c in NEAR:
                for m in (4, 7) if j.thorough or c == (1, 1, 0) and e not in DBCS else (5,):
                    j.enc(w, e, c, m, 1)


def stream(j, full):
    for e in ALL:
        for c in BASE + NEAR + [(0, 16, 16), (0, 64, 1), (1, 40, 2)]:
            if not sb_pick(j, e, c):
                continue
            base = c in BASE
            for q, m in ((1, 4), (2, 5), (3, 4), (3, 7), (5, 16), (8, 9)) if base or j.thorough else ((1, 5), (3, 6), (8, 16), (7, 32)):
                for w in dec_w(e, full if base and q in (1, 3) and (e not in DBCS or (q, m) == (1, 4)) else 0, j.rng):
                    j.dec(w, e, c, m, 1, q)
                for w in enc_w(e, full if base and q in (1, 3) and (e not in DBCS or (q, m) == (1, 4) and c[1]) else 0, j.rng):
                    j.enc(w, e, c, m, 1, q)


def mirror(j, full):
    two = [U16L, U32L]
    huge(j, two, "dec")
    huge(j, two, "enc")
    for e, c, lv in each(j, two, full):
        for end in (0, 1):
            for w in dec_w(e, lv, j.rng):
                j.dec(w, e, c, None, end)
        for w in enc_w(e, lv, j.rng):
            j.enc(w, e, c, None, 1)
    for e in two:
        for c, ms in (((1, 1, 0), range(0, 12)), ((0, 0, 0), range(0, 9)), ((1, 5, 2), range(0, 40)), ((0, 16, 16), range(10, 150, 3)), ((2, 9, 3), range(20, 60))):
            for m in ms:
                for end in (0, 1):
                    for w in dec_w(e, full if c[1] < 2 else 0, j.rng):
                        j.dec(w, e, c, m, end)
                for w in enc_w(e, full if c[1] < 2 else 0, j.rng):
                    j.enc(w, e, c, m, 1)
        for c, ms in ROOMS:
            for m in ms:
                j.dec(W(4, 16), e, c, m, 1)
                j.enc(W(2), e, c, m, 1)


def prefix(j, full):
    huge(j, ALL, "dec", (None, 65536))
    huge(j, ALL, "enc", (None, 65536))
    for e, c, lv in each(j, ALL, full):
        for end in ends(e, "dec"):
            for w in dec_w(e, lv if e not in DBCS or c == BASE[0] else 0, j.rng):
                j.dec(w, e, c, None, end)
        for end in ends(e, "enc"):
            for w in enc_w(e, lv if e not in DBCS or c == BASE[0] else 0, j.rng):
                j.enc(w, e, c, None, end)
    for e in ALL:
        for c, ms in (((1, 1, 0), range(0, 9)), ((1, 5, 2), range(0, 30, 1 if e < SB0 or j.thorough else 4)), ((0, 16, 16), (15, 16, 17, 18, 19, 20))):
            if not sb_pick(j, e, c):
                continue
            for m in ms:
                for end in ends(e, "dec"):
                    for w in dec_w(e, 0, j.rng):
                        j.dec(w, e, c, m, end)
                for end in ends(e, "enc"):
                    for w in enc_w(e, 0, j.rng):
                        j.enc(w, e, c, m, end)


def capacity(j, full):
    for e in ALL:
        for c in BASE + NEAR + ALIGN_Q + RUNS + LANES + JUNK[:2] + [(1, 20, 9), (2, 9, 9), (2, 30, 2), (3, 60, 3), (4, 61, 2), (0, 300, 2), (2, 65, 1)]:
            if not sb_pick(j, e, c):
                continue
            lv = full if c in BASE else 0
            k = c[1] + c[2]
            for end in ends(e, "dec"):
                for w in dec_w(e, lv, j.rng):
                    j.dec(w, e, c, max(8, 3 * (k * enc_max(e, c[0]) + w.n)), end)
            for end in ends(e, "enc"):
                for w in enc_w(e, lv, j.rng):
                    s = len("%x" % w.n)
                    j.enc(w, e, c, max(8, 4 * (k * txt_max(e, c[0]) + 4 * s)), end)


if __name__ == "__main__":
    import sys
    for i in range(1, 33):
        pid = "C%02d" % i
        print(pid, len(make(pid, "quick", 1)), len(make(pid, "thorough", 1)))
