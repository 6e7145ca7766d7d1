//! The reference model: a direct transcription of the Unicode standard, the
//! WHATWG encoding standard's Big5 and Shift_JIS decoders/encoders and the
//! published single-byte mapping tables.  It shares no code or table with
//! /repo/src (tables: oracle.rs, made from /verif/oracle/tables).
use crate::oracle::*;

pub const UTF8: u64 = 0;
pub const UTF16LE: u64 = 1;
pub const UTF16BE: u64 = 2;
pub const UTF32LE: u64 = 3;
pub const UTF32BE: u64 = 4;
pub const BIG5: u64 = 5;
pub const SJIS: u64 = 6;
pub const SB0: u64 = 7; // .. 37
pub const NENC: u64 = 38;

pub const CHAR: u8 = 0; // a complete valid unit
pub const BAD: u8 = 1; // ill-formed or undefined
pub const SHORT: u8 = 2; // input stops inside a so far valid unit

/// One decoded unit.
#[derive(Clone, Copy)]
pub struct Unit {
    pub k: u8,
    pub used: usize, // input bytes of the unit (CHAR), of the error (BAD) or of the tail (SHORT)
    pub cp: u32,
    pub cp2: u32, // second character of the four Big5 two-character codes, else 0
}
const fn unit(k: u8, used: usize, cp: u32) -> Unit {
    Unit { k, used, cp, cp2: 0 }
}

pub fn is_byte_oriented(e: u64) -> bool {
    e == UTF8 || e >= BIG5
}
pub fn align_of(e: u64) -> usize {
    match e {
        UTF16LE | UTF16BE => 2,
        UTF32LE | UTF32BE => 4,
        _ => 1,
    }
}

/// Unicode 3.9 D92, table 3-7.
fn utf8_unit(d: &[u8]) -> Unit {
    let a = d[0];
    if a < 0x80 {
        return unit(CHAR, 1, a as u32);
    }
    if a < 0xC2 || a > 0xF4 {
        return unit(BAD, 1, 0);
    }
    let n = if a < 0xE0 {
        2
    } else if a < 0xF0 {
        3
    } else {
        4
    };
    if d.len() < 2 {
        return unit(SHORT, 1, 0);
    }
    let b = d[1];
    let lo = if a == 0xE0 {
        0xA0
    } else if a == 0xF0 {
        0x90
    } else {
        0x80
    };
    let hi = if a == 0xED {
        0x9F
    } else if a == 0xF4 {
        0x8F
    } else {
        0xBF
    };
    if b < lo || b > hi {
        return unit(BAD, 1, 0);
    }
    if n == 2 {
        return unit(CHAR, 2, ((a as u32 & 0x1F) << 6) | (b as u32 & 0x3F));
    }
    if d.len() < 3 {
        return unit(SHORT, 2, 0);
    }
    let c = d[2];
    if c < 0x80 || c > 0xBF {
        return unit(BAD, 2, 0);
    }
    if n == 3 {
        return unit(CHAR, 3, ((a as u32 & 0xF) << 12) | ((b as u32 & 0x3F) << 6) | (c as u32 & 0x3F));
    }
    if d.len() < 4 {
        return unit(SHORT, 3, 0);
    }
    let e = d[3];
    if e < 0x80 || e > 0xBF {
        return unit(BAD, 3, 0);
    }
    unit(
        CHAR,
        4,
        ((a as u32 & 7) << 18) | ((b as u32 & 0x3F) << 12) | ((c as u32 & 0x3F) << 6) | (e as u32 & 0x3F),
    )
}

fn u16_at(d: &[u8], i: usize, be: bool) -> u32 {
    if be {
        (d[i] as u32) << 8 | d[i + 1] as u32
    } else {
        (d[i + 1] as u32) << 8 | d[i] as u32
    }
}

fn utf16_unit(d: &[u8], be: bool) -> Unit {
    if d.len() < 2 {
        return unit(SHORT, d.len(), 0);
    }
    let u = u16_at(d, 0, be);
    if u < 0xD800 || u > 0xDFFF {
        return unit(CHAR, 2, u);
    }
    if u >= 0xDC00 {
        return unit(BAD, 2, 0);
    }
    if d.len() < 4 {
        return unit(SHORT, d.len(), 0);
    }
    let v = u16_at(d, 2, be);
    if v < 0xDC00 || v > 0xDFFF {
        return unit(BAD, 2, 0);
    }
    unit(CHAR, 4, 0x10000 + (u - 0xD800) * 0x400 + (v - 0xDC00))
}

fn utf32_unit(d: &[u8], be: bool) -> Unit {
    if d.len() < 4 {
        return unit(SHORT, d.len(), 0);
    }
    let v = if be {
        (d[0] as u32) << 24 | (d[1] as u32) << 16 | (d[2] as u32) << 8 | d[3] as u32
    } else {
        (d[3] as u32) << 24 | (d[2] as u32) << 16 | (d[1] as u32) << 8 | d[0] as u32
    };
    if v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) {
        return unit(BAD, 4, 0);
    }
    unit(CHAR, 4, v)
}

/// WHATWG Big5 decoder.
fn big5_unit(d: &[u8]) -> Unit {
    let a = d[0];
    if a < 0x80 {
        return unit(CHAR, 1, a as u32);
    }
    if a == 0x80 || a == 0xFF {
        return unit(BAD, 1, 0);
    }
    if d.len() < 2 {
        return unit(SHORT, 1, 0);
    }
    let b = d[1];
    if (b >= 0x40 && b <= 0x7E) || (b >= 0xA1 && b <= 0xFE) {
        let off = if b < 0x7F { 0x40 } else { 0x62 };
        let p = (a as usize - 0x81) * 157 + (b as usize - off);
        if p == 1133 {
            return Unit { k: CHAR, used: 2, cp: 0xCA, cp2: 0x304 };
        }
        if p == 1135 {
            return Unit { k: CHAR, used: 2, cp: 0xCA, cp2: 0x30C };
        }
        if p == 1164 {
            return Unit { k: CHAR, used: 2, cp: 0xEA, cp2: 0x304 };
        }
        if p == 1166 {
            return Unit { k: CHAR, used: 2, cp: 0xEA, cp2: 0x30C };
        }
        let c = if p < BIG5_DEC.len() { BIG5_DEC[p] } else { 0 };
        if c != 0 {
            return unit(CHAR, 2, c);
        }
    }
    unit(BAD, if b < 0x80 { 1 } else { 2 }, 0)
}

/// WHATWG Shift_JIS decoder.
fn sjis_unit(d: &[u8]) -> Unit {
    let a = d[0];
    if a <= 0x80 {
        return unit(CHAR, 1, a as u32);
    }
    if a >= 0xA1 && a <= 0xDF {
        return unit(CHAR, 1, 0xFF61 - 0xA1 + a as u32);
    }
    if a == 0xA0 || a > 0xFC {
        return unit(BAD, 1, 0);
    }
    if d.len() < 2 {
        return unit(SHORT, 1, 0);
    }
    let b = d[1];
    if (b >= 0x40 && b <= 0x7E) || (b >= 0x80 && b <= 0xFC) {
        let off = if b < 0x7F { 0x40 } else { 0x41 };
        let lead = if a < 0xA0 { 0x81 } else { 0xC1 };
        let p = (a as usize - lead) * 188 + (b as usize - off);
        if p >= 8836 && p <= 10715 {
            return unit(CHAR, 2, (0xE000 - 8836 + p) as u32);
        }
        let c = if p < SJIS_DEC.len() { SJIS_DEC[p] } else { 0 };
        if c != 0 {
            return unit(CHAR, 2, c);
        }
    }
    unit(BAD, if b < 0x80 { 1 } else { 2 }, 0)
}

fn sb_unit(e: u64, d: &[u8]) -> Unit {
    let a = d[0];
    if a < 0x80 {
        return unit(CHAR, 1, a as u32);
    }
    let c = SB[(e - SB0) as usize][a as usize - 0x80] as u32;
    if c == 0xFFFD {
        unit(BAD, 1, 0)
    } else {
        unit(CHAR, 1, c)
    }
}

/// The first unit of the non-empty `d`.
#[inline(never)]
pub fn next_unit(e: u64, d: &[u8]) -> Unit {
    match e {
        UTF8 => utf8_unit(d),
        UTF16LE => utf16_unit(d, false),
        UTF16BE => utf16_unit(d, true),
        UTF32LE => utf32_unit(d, false),
        UTF32BE => utf32_unit(d, true),
        BIG5 => big5_unit(d),
        SJIS => sjis_unit(d),
        _ => sb_unit(e, d),
    }
}

pub fn len_utf8(cp: u32) -> usize {
    if cp < 0x80 {
        1
    } else if cp < 0x800 {
        2
    } else if cp < 0x10000 {
        3
    } else {
        4
    }
}
/// UTF-8 length of a decoded unit.
pub fn unit_len8(u: &Unit) -> usize {
    len_utf8(u.cp) + if u.cp2 != 0 { 2 } else { 0 }
}

/// UTF-8 bytes of a code point.
pub fn put_utf8(cp: u32, o: &mut [u8; 4]) -> usize {
    let n = len_utf8(cp);
    if n == 1 {
        o[0] = cp as u8;
    } else if n == 2 {
        o[0] = 0xC0 | (cp >> 6) as u8;
        o[1] = 0x80 | (cp & 0x3F) as u8;
    } else if n == 3 {
        o[0] = 0xE0 | (cp >> 12) as u8;
        o[1] = 0x80 | ((cp >> 6) & 0x3F) as u8;
        o[2] = 0x80 | (cp & 0x3F) as u8;
    } else {
        o[0] = 0xF0 | (cp >> 18) as u8;
        o[1] = 0x80 | ((cp >> 12) & 0x3F) as u8;
        o[2] = 0x80 | ((cp >> 6) & 0x3F) as u8;
        o[3] = 0x80 | (cp & 0x3F) as u8;
    }
    n
}

/// The character at `t[i..]` of well-formed text: (code point, length).
#[inline(never)]
pub fn char_at(t: &[u8], i: usize) -> (u32, usize) {
    let a = t[i] as u32;
    if a < 0x80 {
        return (a, 1);
    }
    let b = t[i + 1] as u32 & 0x3F;
    if a < 0xE0 {
        return ((a & 0x1F) << 6 | b, 2);
    }
    let c = t[i + 2] as u32 & 0x3F;
    if a < 0xF0 {
        return ((a & 0xF) << 12 | b << 6 | c, 3);
    }
    let d = t[i + 3] as u32 & 0x3F;
    ((a & 7) << 18 | b << 12 | c << 6 | d, 4)
}

/// Encoded bytes of one character on its own; length 0: not representable.
#[inline(never)]
pub fn enc_char(e: u64, cp: u32, o: &mut [u8; 4]) -> usize {
    match e {
        UTF8 => put_utf8(cp, o),
        UTF16LE | UTF16BE => {
            let (hi, lo) = if e == UTF16BE { (0, 1) } else { (1, 0) };
            if cp < 0x10000 {
                o[hi] = (cp >> 8) as u8;
                o[lo] = cp as u8;
                2
            } else {
                let v = cp - 0x10000;
                let (x, y) = (0xD800 + (v >> 10), 0xDC00 + (v & 0x3FF));
                o[hi] = (x >> 8) as u8;
                o[lo] = x as u8;
                o[2 + hi] = (y >> 8) as u8;
                o[2 + lo] = y as u8;
                4
            }
        }
        UTF32LE | UTF32BE => {
            for k in 0..4 {
                let at = if e == UTF32BE { 3 - k } else { k };
                o[at] = (cp >> (8 * k)) as u8;
            }
            4
        }
        BIG5 => {
            if cp < 0x80 {
                o[0] = cp as u8;
                return 1;
            }
            if cp >= 0x30000 {
                return 0;
            }
            let v = BIG5_ENC[BIG5_PAGE[(cp >> 6) as usize] as usize][(cp & 63) as usize];
            if v == 0 {
                return 0;
            }
            o[0] = (v >> 8) as u8;
            o[1] = v as u8;
            2
        }
        SJIS => {
            if cp < 0x80 {
                o[0] = cp as u8;
                return 1;
            }
            if cp >= 0x30000 {
                return 0;
            }
            let v = SJIS_ENC[SJIS_PAGE[(cp >> 6) as usize] as usize][(cp & 63) as usize];
            if v == 0 {
                return 0;
            }
            if v < 0x100 {
                o[0] = v as u8;
                return 1;
            }
            o[0] = (v >> 8) as u8;
            o[1] = v as u8;
            2
        }
        _ => {
            if cp < 0x80 {
                o[0] = cp as u8;
                return 1;
            }
            let t = &SB[(e - SB0) as usize];
            let mut r = 0u32;
            for k in 0..128u32 {
                let m = (t[k as usize] as u32 == cp) & (cp != 0xFFFD);
                r |= (0u32.wrapping_sub(m as u32)) & (k + 0x80);
            }
            if r == 0 {
                return 0;
            }
            o[0] = r as u8;
            1
        }
    }
}

pub const HOLD: u8 = 2; // text stops after a character that may combine with the next
/// One encoded unit of text.
pub struct EUnit {
    pub k: u8, // CHAR, BAD or HOLD
    pub used: usize,
    pub cp: u32,
    pub out: [u8; 4],
    pub len: usize,
}

/// The first encoded unit of `t[i..]` (non-empty).
#[inline(never)]
pub fn next_eunit(e: u64, t: &[u8], i: usize, is_end: bool) -> EUnit {
    let (cp, n) = char_at(t, i);
    let mut u = EUnit { k: CHAR, used: n, cp, out: [0; 4], len: 0 };
    if e == BIG5 && (cp == 0xCA || cp == 0xEA) {
        if i + n == t.len() {
            if !is_end {
                u.k = HOLD;
                return u;
            }
        } else {
            let (c2, n2) = char_at(t, i + n);
            if c2 == 0x304 || c2 == 0x30C {
                u.used = n + n2;
                u.len = 2;
                u.out[0] = 0x88;
                u.out[1] = if cp == 0xCA {
                    if c2 == 0x304 {
                        0x62
                    } else {
                        0x64
                    }
                } else if c2 == 0x304 {
                    0xA3
                } else {
                    0xA5
                };
                return u;
            }
        }
    }
    u.len = enc_char(e, cp, &mut u.out);
    if u.len == 0 {
        u.k = BAD;
    }
    u
}
