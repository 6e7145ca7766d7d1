//! Checks of the public API of text_encoding against the model in spec.rs.
//! Compiled twice from this one source: to LLVM IR (sym/), where the `sym_*`
//! functions are handled by the symbolic executor, and natively (replay/),
//! where they read a recorded input and report failed assertions.
use crate::oracle::SB;
use crate::spec::*;
use text_encoding::*;

extern "C-unwind" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_observe(v: u64);
    fn sym_split(v: u64) -> u64;
}
fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
fn ck(c: bool, id: u32) {
    unsafe { sym_assert(c, id) }
}
fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
fn split(v: u8) {
    unsafe {
        sym_split(v as u64);
    }
}

// ---------------------------------------------------------------- calls

/// Outcome of one call.
#[derive(Clone, Copy)]
pub struct R {
    pub ok: bool,
    pub n: usize,  // consumed (ok)
    pub w: usize,  // bytes of output: returned slice (ok) or output_bytes_written
    pub es: usize, // error range
    pub ee: usize,
    pub aux: u32, // decode: cause (0 InvalidData); encode: the character
    pub at_start: bool, // the returned slice starts where the buffer starts
}
fn same(a: &R, b: &R, id: u32) {
    ck(a.ok == b.ok, id);
    ck(a.n == b.n, id);
    ck(a.w == b.w, id);
    ck(a.es == b.es, id);
    ck(a.ee == b.ee, id);
    ck(a.aux == b.aux, id);
    ck(a.at_start == b.at_start, id);
}

macro_rules! sb {
    ($f:ident, $e:expr, $i:expr, $o:expr, $($k:literal $m:ident),*) => {
        match $e { $($k => single_byte::$m::$f($i, $o),)* _ => single_byte::ascii::$f($i, $o) }
    };
}

#[inline(never)]
fn dec_any<'a>(e: u64, i: &[u8], o: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {
    match e {
        UTF8 => utf8::decode_to_str(i, o, is_end),
        UTF16LE => utf16_le::decode_to_str(i, o, is_end),
        UTF16BE => utf16_be::decode_to_str(i, o, is_end),
        UTF32LE => utf32_le::decode_to_str(i, o, is_end),
        UTF32BE => utf32_be::decode_to_str(i, o, is_end),
        BIG5 => big5_whatwg::decode_to_str(i, o, is_end),
        SJIS => shiftjis_whatwg::decode_to_str(i, o, is_end),
        _ => sb!(decode_to_str, e - SB0, i, o, 1 ibm_866, 2 iso_8859_1, 3 iso_8859_2, 4 iso_8859_3, 5 iso_8859_4,
            6 iso_8859_5, 7 iso_8859_6, 8 iso_8859_7, 9 iso_8859_8, 10 iso_8859_9, 11 iso_8859_10, 12 iso_8859_11,
            13 iso_8859_13, 14 iso_8859_14, 15 iso_8859_15, 16 iso_8859_16, 17 koi8_r, 18 koi8_u, 19 mac_roman,
            20 mac_cyrillic, 21 windows_874, 22 windows_1250, 23 windows_1251, 24 windows_1252, 25 windows_1253,
            26 windows_1254, 27 windows_1255, 28 windows_1256, 29 windows_1257, 30 windows_1258),
    }
}
#[inline(never)]
fn enc_any<'a>(e: u64, i: &str, o: &'a mut [u8], is_end: bool) -> EncodeResult<'a> {
    match e {
        UTF8 => utf8::encode_from_str(i, o),
        UTF16LE => utf16_le::encode_from_str(i, o),
        UTF16BE => utf16_be::encode_from_str(i, o),
        UTF32LE => utf32_le::encode_from_str(i, o),
        UTF32BE => utf32_be::encode_from_str(i, o),
        BIG5 => big5_whatwg::encode_from_str(i, o, is_end),
        SJIS => shiftjis_whatwg::encode_from_str(i, o),
        _ => sb!(encode_from_str, e - SB0, i, o, 1 ibm_866, 2 iso_8859_1, 3 iso_8859_2, 4 iso_8859_3, 5 iso_8859_4,
            6 iso_8859_5, 7 iso_8859_6, 8 iso_8859_7, 9 iso_8859_8, 10 iso_8859_9, 11 iso_8859_10, 12 iso_8859_11,
            13 iso_8859_13, 14 iso_8859_14, 15 iso_8859_15, 16 iso_8859_16, 17 koi8_r, 18 koi8_u, 19 mac_roman,
            20 mac_cyrillic, 21 windows_874, 22 windows_1250, 23 windows_1251, 24 windows_1252, 25 windows_1253,
            26 windows_1254, 27 windows_1255, 28 windows_1256, 29 windows_1257, 30 windows_1258),
    }
}

fn dec(e: u64, i: &[u8], o: &mut [u8], is_end: bool) -> R {
    let p = o.as_ptr();
    match dec_any(e, i, o, is_end) {
        Ok((s, n)) => R { ok: true, n, w: s.len(), es: 0, ee: 0, aux: 0, at_start: s.as_ptr() == p },
        Err(x) => R {
            ok: false,
            n: 0,
            w: x.output_bytes_written,
            es: x.error_range.0,
            ee: x.error_range.1,
            aux: (x.cause != DecodeErrorCause::InvalidData) as u32,
            at_start: true,
        },
    }
}
fn text(t: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(t) }
}
/// `t` must be well-formed UTF-8.
fn enc(e: u64, t: &[u8], o: &mut [u8], is_end: bool) -> R {
    let p = o.as_ptr();
    match enc_any(e, text(t), o, is_end) {
        Ok((s, n)) => R { ok: true, n, w: s.len(), es: 0, ee: 0, aux: 0, at_start: s.as_ptr() == p },
        Err(x) => R {
            ok: false,
            n: 0,
            w: x.output_bytes_written,
            es: x.error_range.0,
            ee: x.error_range.1,
            aux: x.character as u32,
            at_start: true,
        },
    }
}

fn show(r: &R, o: &[u8]) {
    observe(r.ok as u64);
    observe(r.n as u64);
    observe(r.w as u64);
    observe(r.es as u64);
    observe(r.ee as u64);
    observe(r.aux as u64);
    let k = if r.w < o.len() { r.w } else { o.len() };
    let from = if k > 24 { k - 24 } else { 0 };
    for j in from..k {
        observe(o[j] as u64);
    }
}

// ---------------------------------------------------------------- inputs

fn sb_high(e: u64, k: usize) -> u32 {
    let t = &SB[(e - SB0) as usize];
    let mut seen = 0;
    for j in 0..128 {
        let c = t[(0x61 + j * 7) & 127];
        if c != 0xFFFD {
            if seen == k {
                return c as u32;
            }
            seen += 1;
        }
    }
    b'z' as u32
}
/// Surrounding text: character k of filler kind `kind`, representable in `e`.
fn fill_cp(e: u64, kind: u64, k: usize) -> u32 {
    let asc = b'a' as u32 + (k % 26) as u32;
    if kind == 0 {
        return asc;
    }
    let j = (k % 16) as u32;
    if kind == 3 {
        // runs of one sort of character
        return match e {
            UTF8 => 0x410 + j,
            UTF16LE | UTF16BE | UTF32LE | UTF32BE => 0x3042 + j,
            BIG5 => 0x4E00,
            SJIS => 0xFF71 + j,
            _ => sb_high(e, k % 5),
        };
    }
    if kind == 4 {
        return match e {
            UTF8 | SJIS => 0x3042 + j,
            UTF16LE | UTF16BE | UTF32LE | UTF32BE => 0x410 + j,
            BIG5 => if k % 2 == 0 { 0xCA } else { 0x4E00 },
            _ => sb_high(e, k % 5),
        };
    }
    if e < BIG5 {
        if kind == 2 {
            return 0x1F63A;
        }
        return [0xE9, asc, 0x20AC, 0x1F63A][k % 4];
    }
    if e == BIG5 {
        if kind == 2 {
            return 0x27967;
        }
        return [0x4E00, asc, 0xE9, 0x27967][k % 4];
    }
    if e == SJIS {
        if kind == 2 {
            return 0x4E9C;
        }
        return [0x3042, asc, 0xFF71, 0xE000][k % 4];
    }
    if kind == 2 || k % 2 == 0 {
        return sb_high(e, k % 5);
    }
    asc
}

/// What cannot be decoded, or encoded; one unit of it.
fn junk(e: u64, k: usize, o: &mut [u8; 4], as_text: bool) -> usize {
    if as_text {
        return put_utf8(if k % 3 == 2 { 0x530 } else { 0xF00 }, o);
    }
    let (b, n) = match e {
        UTF8 => ([0x80 | (k % 64) as u8, 0, 0, 0], 1),
        UTF16LE => ([k as u8, 0xDC, 0, 0], 2),
        UTF16BE => ([0xDC, k as u8, 0, 0], 2),
        UTF32LE => ([k as u8, 0xD8, 0, 0], 4),
        UTF32BE => ([0, 0xD8, 0, k as u8], 4),
        _ => ([0xFF, 0, 0, 0], 1),
    };
    *o = b;
    n
}

/// Writes filler so that it ends at b[..end]; returns where it starts.
fn fill_bytes_back(e: u64, kind: u64, units: usize, b: &mut [u8], end: usize, as_text: bool) -> usize {
    let mut at = end;
    let mut k = units;
    let mut o = [0u8; 4];
    while k > 0 {
        k -= 1;
        let n = if kind == 6 {
            junk(e, k, &mut o, as_text)
        } else {
            let cp = fill_cp(e, kind, k);
            if as_text { put_utf8(cp, &mut o) } else { enc_char(e, cp, &mut o) }
        };
        at -= n;
        for j in 0..n {
            b[at + j] = o[j];
        }
    }
    at
}

/// Where the input sits inside its array: it ends at the array's end, so that
/// reading past it leaves the object.
#[derive(Clone, Copy)]
struct Win {
    at: usize,  // start of the input
    w0: usize,  // start of the symbolic window
    w1: usize,  // its end
}

/// prefix filler ++ n arbitrary bytes ++ suffix filler
#[inline(never)]
fn bytes_input(b: &mut [u8], c: &Cfg) -> Win {
    let end = b.len();
    // kind 5: ASCII before, junk after
    let (before, after) = if c.fill == 5 { (0, 6) } else { (c.fill, c.fill) };
    let w1 = fill_bytes_back(c.e, after, c.suf as usize, b, end, false);
    let n = c.n as usize;
    let w0 = w1 - n;
    unsafe { sym_bytes(b.as_mut_ptr().add(w0), n) };
    if n > 0 {
        assume((b[w0] >= c.lo as u8) & (b[w0] <= c.hi as u8));
        if c.e == UTF32LE && c.split & 16 != 0 {
            // keep the values near the code space
            for j in 0..n / 4 {
                assume(b[w0 + j * 4 + 3] == 0);
            }
        }
        if c.e == UTF32BE && c.split & 16 != 0 {
            for j in 0..n / 4 {
                assume(b[w0 + j * 4] == 0);
            }
        }
    }
    if c.split >> 32 != 0 && n > 2 {
        // the third byte is given
        assume(b[w0 + 2] == (c.split >> 32) as u8);
        split(b[w0 + 2]);
    }
    for j in 0..n {
        if c.split >> (8 + j) & 1 == 1 {
            split(b[w0 + j]);
        }
    }
    let at = fill_bytes_back(c.e, before, c.pre as usize, b, w0, false);
    Win { at, w0, w1 }
}

fn slot_len(d: u64) -> usize {
    match d {
        1 => 1,
        2 | 5 | 6 | 7 | 9 => 2,
        3 | 10 => 3,
        4 | 11 => 4,
        8 => 3,
        _ => 0,
    }
}
/// prefix filler ++ one arbitrary character per slot ++ suffix filler.
/// Slot classes (hex digits of c.n, first slot lowest): 1-4 any character of that UTF-8
/// length, 5 U+00CA/U+00EA, 6 U+0304/U+030C, 7 any with lead C3 or CC, 8 any with lead EF or E2,
/// 9 any with lead C2, C3, CC or CE, A any with lead E3 or E4,
/// B U+2A000-2AFFF and U+10F000-10FFFF.
#[inline(never)]
fn text_input(b: &mut [u8], c: &Cfg) -> Win {
    let end = b.len();
    let (before, after) = if c.fill == 5 { (0, 6) } else { (c.fill, c.fill) };
    let w1 = fill_bytes_back(c.e, after, c.suf as usize, b, end, true);
    let mut total = 0;
    let mut s = c.n;
    while s != 0 {
        total += slot_len(s & 15);
        s >>= 4;
    }
    let w0 = w1 - total;
    unsafe { sym_bytes(b.as_mut_ptr().add(w0), total) };
    let mut p = w0;
    let mut s = c.n;
    let mut first = true;
    while s != 0 {
        let d = s & 15;
        let n = slot_len(d);
        let a = b[p];
        match d {
            1 => assume(a < 0x80),
            2 => assume((a >= 0xC2) & (a <= 0xDF)),
            3 => assume((a >= 0xE0) & (a <= 0xEF)),
            4 => assume((a >= 0xF0) & (a <= 0xF4)),
            5 => {
                assume(a == 0xC3);
                assume((b[p + 1] == 0x8A) | (b[p + 1] == 0xAA));
            }
            6 => {
                assume(a == 0xCC);
                assume((b[p + 1] == 0x84) | (b[p + 1] == 0x8C));
            }
            7 => assume((a == 0xC3) | (a == 0xCC)),
            8 => assume((a == 0xEF) | (a == 0xE2)),
            9 => assume((a == 0xC2) | (a == 0xC3) | (a == 0xCC) | (a == 0xCE)),
            11 => assume(((a == 0xF0) & (b[p + 1] == 0xAA)) | ((a == 0xF4) & (b[p + 1] == 0x8F))),
            _ => assume((a == 0xE3) | (a == 0xE4)),
        }
        if first {
            assume((a >= c.lo as u8) & (a <= c.hi as u8));
        }
        if c.split & 1 == 1 && n > 1 {
            split(a);
        }
        for j in 1..n {
            assume(b[p + j] & 0xC0 == 0x80);
        }
        if n == 3 {
            assume((a != 0xE0) | (b[p + 1] >= 0xA0));
            assume((a != 0xED) | (b[p + 1] <= 0x9F));
        }
        if n == 4 {
            assume((a != 0xF0) | (b[p + 1] >= 0x90));
            assume((a != 0xF4) | (b[p + 1] <= 0x8F));
        }
        if c.split & 2 == 2 && n > 2 {
            split(b[p + 1]);
        }
        if c.split & 4 == 4 && n > 3 {
            split(b[p + 2]);
        }
        first = false;
        p += n;
        s >>= 4;
    }
    let at = fill_bytes_back(c.e, before, c.pre as usize, b, w0, true);
    Win { at, w0, w1 }
}

/// One job.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub p: u64,    // property
    pub e: u64,    // encoding
    pub fill: u64, // filler kind: 0 ASCII, 1 mixed, 2 all long, 3 and 4 runs of one sort, 5 ASCII before and junk after
    pub pre: u64,  // filler characters before the window
    pub n: u64,    // arbitrary bytes in the window / slot classes
    pub suf: u64,  // filler characters after it
    pub m: u64,    // output buffer length
    pub end: u64,  // is_end
    pub lo: u64,   // bounds of the window's first byte
    pub hi: u64,
    pub split: u64, // which bytes to split on
    pub x: u64,     // specific to the property
}

const GUARD: u8 = 0x5A;
const G: usize = 8;

/// An output array whose last m bytes are the buffer handed to the code; the G
/// bytes before it are watched.
#[repr(C, align(64))]
struct Out<const M: usize> {
    m: usize,
    b: [u8; M],
}
/// An input array (aligned, so that addresses modulo 64 are the same in every run).
/// N and M + 8 are multiples of 64: the arrays end where their objects do.
#[repr(C, align(64))]
struct In<const N: usize>([u8; N]);
impl<const M: usize> Out<M> {
    #[inline(always)]
    fn new(m: usize, v: u8) -> Self {
        const { assert!((M + 8) % 64 == 0) };
        let mut o = Out { m, b: [v; M] };
        for j in 0..G {
            o.b[M - m - G + j] = GUARD;
        }
        o
    }
    fn s(&mut self) -> &mut [u8] {
        &mut self.b[M - self.m..]
    }
    fn r(&self) -> &[u8] {
        &self.b[M - self.m..]
    }
    fn guard(&self, id: u32) {
        for j in 0..G {
            ck(self.b[M - self.m - G + j] == GUARD, id);
        }
    }
}

fn eq(a: &[u8], b: &[u8], id: u32) {
    ck(a.len() == b.len(), id);
    if a.len() == b.len() {
        for j in 0..a.len() {
            ck(a[j] == b[j], id);
        }
    }
}

#[inline(never)]
fn check_utf8(b: &[u8], id: u32) {
    let mut i = 0;
    while i < b.len() {
        let u = next_unit(UTF8, &b[i..]);
        ck(u.k == CHAR, id);
        if u.k != CHAR {
            return;
        }
        i += u.used;
    }
}

// ---------------------------------------------------------------- decoding

/// Position of the first unit that is not a valid character, walking the model.
struct Walk {
    i: usize,   // input consumed by valid units
    o: usize,   // UTF-8 bytes they decode to
    k: u8,      // CHAR: reached the end of the input or of the room; else what stopped it
    used: usize, // length of the offending unit
}
/// Walks valid units while their text fits in `room`.
#[inline(never)]
fn walk(e: u64, d: &[u8], room: usize) -> Walk {
    let mut i = 0;
    let mut o = 0;
    while i < d.len() {
        let u = next_unit(e, &d[i..]);
        if u.k != CHAR {
            return Walk { i, o, k: u.k, used: u.used };
        }
        let l = unit_len8(&u);
        if o + l > room {
            return Walk { i, o, k: CHAR, used: 0 };
        }
        i += u.used;
        o += l;
    }
    Walk { i, o, k: CHAR, used: 0 }
}

/// C01: totality, safety, well-formed output.
fn p_total<const M: usize>(c: &Cfg, d: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0xFF);
    let r = dec(c.e, d, o.s(), c.end == 1);
    let m = o.m;
    o.guard(101);
    ck(r.w <= m, 102);
    if r.ok {
        ck(r.at_start, 103);
        ck(r.n <= d.len(), 104);
        cover(1);
    } else {
        ck(r.es < r.ee, 105);
        ck(r.ee <= d.len(), 106);
        cover(2);
    }
    if r.w <= m {
        check_utf8(&o.r()[..r.w], 107);
    }
    show(&r, o.r());
}

/// C03, C04, C05, C07, C09, C11: the decoded text and errors are the model's.
fn p_exact<const M: usize>(c: &Cfg, d: &[u8]) {
    let id = c.p as u32 * 100;
    let mut o = Out::<M>::new(c.m as usize, 0);
    let is_end = c.end == 1;
    let r = dec(c.e, d, o.s(), is_end);
    let out = o.r();
    let mut i = 0;
    let mut at = 0;
    let mut want = CHAR;
    let mut used = 0;
    let mut b = [0u8; 4];
    while i < d.len() {
        let u = next_unit(c.e, &d[i..]);
        if u.k != CHAR {
            want = u.k;
            used = u.used;
            break;
        }
        let n = put_utf8(u.cp, &mut b);
        if at + n > r.w {
            break;
        }
        for j in 0..n {
            ck(out[at + j] == b[j], id + 1);
        }
        at += n;
        if u.cp2 != 0 {
            let n = put_utf8(u.cp2, &mut b);
            if at + n > r.w {
                break;
            }
            for j in 0..n {
                ck(out[at + j] == b[j], id + 2);
            }
            at += n;
        }
        i += u.used;
    }
    if want == CHAR || (want == SHORT && !is_end) {
        ck(r.ok, id + 3);
        if r.ok {
            ck(r.n == i, id + 4);
            ck(r.w == at, id + 5);
        }
        if want == CHAR {
            ck(i == d.len(), id + 6);
            cover(1);
        } else {
            cover(3);
        }
    } else {
        ck(!r.ok, id + 7);
        if !r.ok {
            ck(r.es == i, id + 8);
            ck(r.w == at, id + 9);
            ck(r.aux == 0, id + 10);
            if want == SHORT {
                ck(r.ee == d.len(), id + 11);
                cover(4);
            } else {
                if c.e != UTF8 {
                    ck(r.ee == i + used, id + 12);
                }
                cover(2);
            }
        }
    }
    show(&r, out);
}

/// C15: cutting the input changes nothing.
fn p_chunk<const M: usize>(c: &Cfg, d: &[u8], cut: usize) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let mut o1 = Out::<M>::new(c.m as usize, 0);
    let mut o2 = Out::<M>::new(c.m as usize, 0);
    let whole = dec(c.e, d, o.s(), true);
    let a = dec(c.e, &d[..cut], o1.s(), false);
    show(&whole, o.r());
    show(&a, o1.r());
    ck(a.w <= whole.w, 1501);
    if !a.ok {
        // a true error of the first part is the error of the whole
        ck(!whole.ok, 1502);
        ck(a.es == whole.es, 1503);
        ck(a.w == whole.w, 1504);
        let w = walk(c.e, &d[..cut], usize::MAX);
        ck(w.k == BAD, 1505);
        ck(w.i == a.es, 1506);
        eq(&o1.r()[..a.w], &o.r()[..whole.w], 1507);
        cover(2);
        return;
    }
    ck(a.n <= cut, 1508);
    let b = dec(c.e, &d[a.n..], o2.s(), true);
    show(&b, o2.r());
    ck(b.ok == whole.ok, 1509);
    ck(a.w + b.w == whole.w, 1510);
    if a.w + b.w == whole.w {
        eq(&o1.r()[..a.w], &o.r()[..a.w], 1511);
        eq(&o2.r()[..b.w], &o.r()[a.w..a.w + b.w], 1512);
    }
    if b.ok && whole.ok {
        ck(a.n + b.n == whole.n, 1513);
        ck(whole.n == d.len(), 1514);
        cover(1);
        if a.n < cut {
            cover(4);
        }
    }
    if !b.ok && !whole.ok {
        ck(a.n + b.es == whole.es, 1515);
        cover(3);
    }
}

/// C17: a small buffer.
fn p_small_dec<const M: usize>(c: &Cfg, d: &[u8]) {
    let is_end = c.end == 1;
    let mut o = Out::<M>::new(M - 2 * G, 0);
    let mut s = Out::<M>::new(c.m as usize, 0);
    let full = dec(c.e, d, o.s(), is_end);
    let r = dec(c.e, d, s.s(), is_end);
    show(&full, o.r());
    show(&r, s.r());
    let m = c.m as usize;
    ck(r.w <= m, 1701);
    ck(r.w <= full.w, 1702);
    if r.w <= m && r.w <= full.w {
        eq(&s.r()[..r.w], &o.r()[..r.w], 1703);
    }
    if r.ok {
        let w = walk(c.e, d, m);
        ck(r.n == w.i, 1704);
        ck(r.w == w.o, 1705);
        cover(1);
    } else {
        ck(!full.ok, 1706);
        ck(r.es == full.es, 1707);
        ck(r.ee == full.ee, 1708);
        ck(r.w == full.w, 1709);
        cover(2);
        return;
    }
    if c.x == 0 {
        return;
    }
    // keep going with fresh buffers of the same size
    let mut i = r.n;
    let mut at = r.w;
    let mut last = r;
    let mut k = 0;
    while k < c.x && last.n > 0 && i < d.len() {
        let mut s = Out::<M>::new(m, 0);
        last = dec(c.e, &d[i..], s.s(), is_end);
        ck(last.w <= m, 1710);
        ck(at + last.w <= full.w, 1711);
        if last.w > m || at + last.w > full.w {
            return;
        }
        eq(&s.r()[..last.w], &o.r()[at..at + last.w], 1712);
        at += last.w;
        if !last.ok {
            ck(!full.ok, 1713);
            ck(i + last.es == full.es, 1714);
            ck(at == full.w, 1715);
            cover(4);
            return;
        }
        i += last.n;
        k += 1;
    }
    ck(k < c.x, 1716);
    if m >= 8 {
        // every unit fits, so the loop only stops when all is done
        ck(full.ok, 1717);
        ck(i == full.n, 1718);
        ck(at == full.w, 1719);
        cover(3);
    }
}

/// C19: errors.
fn p_err_dec<const M: usize>(c: &Cfg, d: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let is_end = c.end == 1;
    let r = dec(c.e, d, o.s(), is_end);
    show(&r, o.r());
    if r.ok {
        cover(1);
        return;
    }
    cover(2);
    let w = walk(c.e, d, usize::MAX);
    ck(w.k == BAD || (w.k == SHORT && is_end), 1901);
    ck(r.es == w.i, 1902);
    ck(r.w == w.o, 1903);
    ck(r.aux == 0, 1904);
    ck(r.es < r.ee, 1905);
    ck(r.ee <= d.len(), 1906);
    if r.es >= d.len() || r.ee > d.len() || r.w > o.m {
        return;
    }
    if c.e == UTF8 {
        let mut j = r.es + 1;
        while j < r.ee {
            ck(d[j] >= 0x80, 1907);
            let u = next_unit(c.e, &d[j..]);
            ck(u.k != CHAR, 1908);
            ck(d[j] & 0xC0 == 0x80 || d[j] >= 0xF8, 1915);
            j += 1;
        }
        // the whole run of bytes that have not the form of a starting byte
        ck(j == d.len() || !(d[j] & 0xC0 == 0x80 || d[j] >= 0xF8), 1916);
    } else {
        if is_byte_oriented(c.e) {
            for j in r.es..r.ee {
                ck(d[j] >= 0x80, 1909);
            }
        }
        ck(r.ee == w.i + w.used, 1910);
    }
    // what precedes the error is complete and correct
    let mut p = Out::<M>::new(M - 2 * G, 0);
    let b = dec(c.e, &d[..r.es], p.s(), true);
    ck(b.ok, 1911);
    ck(b.n == r.es, 1912);
    ck(b.w == r.w, 1913);
    if b.w == r.w {
        eq(&p.r()[..b.w], &o.r()[..r.w], 1914);
    }
}

/// C21: is_end.
fn p_end<const M: usize>(c: &Cfg, d: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let mut q = Out::<M>::new(c.m as usize, 0);
    let t = dec(c.e, d, o.s(), true);
    let f = dec(c.e, d, q.s(), false);
    show(&t, o.r());
    show(&f, q.r());
    let w = walk(c.e, d, usize::MAX);
    ck(t.w == f.w, 2101);
    if t.w == f.w && t.w <= o.m {
        eq(&o.r()[..t.w], &q.r()[..f.w], 2102);
    }
    if w.k != SHORT {
        same(&t, &f, 2103);
        cover(1);
    } else {
        ck(d.len() - w.i <= 3, 2104);
        ck(f.ok, 2105);
        if t.ok {
            // only when the room ran out before the tail
            same(&t, &f, 2106);
            ck(t.n <= w.i, 2107);
        } else {
            ck(t.es == w.i, 2108);
            ck(t.ee == d.len(), 2109);
            ck(f.n == w.i, 2110);
            cover(2);
        }
    }
    if c.x == 1 {
        // plenty of room
        if t.ok {
            ck(t.n == d.len(), 2111);
        }
        if f.ok {
            ck(f.n == if w.k == SHORT { w.i } else { d.len() }, 2112);
        }
        if w.k == SHORT {
            ck(!t.ok, 2113);
        }
    }
}

/// C22: progress.
fn p_progress_dec<const M: usize>(c: &Cfg, d: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let r = dec(c.e, d, o.s(), true);
    show(&r, o.r());
    if r.ok {
        ck(r.n >= 1, 2201);
        ck(r.w >= 1, 2202);
        cover(1);
    } else {
        cover(2);
    }
}

/// C24: old buffer contents (of long buffers, the last 100 bytes are arbitrary and the
/// others differ).
fn p_dirty_dec<const M: usize>(c: &Cfg, d: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let mut q = Out::<M>::new(c.m as usize, 0xC3);
    let m = c.m as usize;
    let k = if m > 100 { m - 100 } else { 0 };
    unsafe { sym_bytes(q.s()[k..].as_mut_ptr(), m - k) };
    let a = dec(c.e, d, o.s(), c.end == 1);
    let b = dec(c.e, d, q.s(), c.end == 1);
    show(&a, o.r());
    same(&a, &b, 2401);
    if a.w == b.w && a.w <= m {
        eq(&o.r()[..a.w], &q.r()[..a.w], 2402);
    }
    if a.ok {
        cover(1);
    } else {
        cover(2);
    }
}

/// C14: decode, then encode.
fn p_dec_enc<const M: usize>(c: &Cfg, d: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let mut p = Out::<M>::new(c.m as usize, 0);
    let r = dec(c.e, d, o.s(), true);
    show(&r, o.r());
    if !r.ok {
        cover(2);
        return;
    }
    ck(r.n == d.len(), 1401);
    let x = enc(c.e, &o.r()[..r.w], p.s(), true);
    show(&x, p.r());
    ck(x.ok, 1402);
    ck(x.n == r.w, 1403);
    if !x.ok || x.w > p.m {
        return;
    }
    cover(1);
    if c.e == BIG5 || c.e == SJIS {
        let mut q = Out::<M>::new(c.m as usize, 0);
        let y = dec(c.e, &p.r()[..x.w], q.s(), true);
        ck(y.ok, 1404);
        ck(y.n == x.w, 1405);
        ck(y.w == r.w, 1406);
        if y.w == r.w {
            eq(&q.r()[..r.w], &o.r()[..r.w], 1407);
        }
    } else {
        eq(&p.r()[..x.w], d, 1408);
    }
}

#[inline(always)]
fn run_dec<const N: usize, const M: usize>(c: &Cfg) {
    let mut b = In([0u8; N]);
    let w = bytes_input(&mut b.0, c);
    let d = &b.0[w.at..];
    match c.p {
        1 => p_total::<M>(c, d),
        3 | 4 | 5 | 7 | 9 | 11 => p_exact::<M>(c, d),
        14 => p_dec_enc::<M>(c, d),
        15 => {
            if c.x > 0 {
                p_chunk::<M>(c, d, c.x as usize - 1)
            } else {
                // every cut in or next to the window
                let mut k = w.w0 - w.at;
                while k <= w.w1 - w.at {
                    p_chunk::<M>(c, d, k);
                    k += 1;
                }
            }
        }
        17 => p_small_dec::<M>(c, d),
        19 => p_err_dec::<M>(c, d),
        21 => p_end::<M>(c, d),
        22 => p_progress_dec::<M>(c, d),
        24 => p_dirty_dec::<M>(c, d),
        25 => p_place::<N, M>(c, d, false),
        26 => p_again::<M>(c, d, false),
        27 => p_recover_dec::<M>(c, d),
        29 => p_stream_dec::<M>(c, d),
        30 => p_mirror::<N, M>(c, d, false),
        31 => p_prefix::<M>(c, d, false),
        32 => p_capacity::<M>(c, d, false),
        _ => ck(false, 1),
    }
}

// ---------------------------------------------------------------- encoding

fn boundary(t: &[u8], i: usize) -> bool {
    i == 0 || i == t.len() || (i < t.len() && t[i] & 0xC0 != 0x80)
}

struct EWalk {
    i: usize,
    o: usize,
    k: u8,
    used: usize,
    cp: u32,
}
#[inline(never)]
fn ewalk(e: u64, t: &[u8], room: usize, is_end: bool) -> EWalk {
    let mut i = 0;
    let mut o = 0;
    while i < t.len() {
        let u = next_eunit(e, t, i, is_end);
        if u.k != CHAR {
            return EWalk { i, o, k: u.k, used: u.used, cp: u.cp };
        }
        if o + u.len > room {
            return EWalk { i, o, k: CHAR, used: 0, cp: 0 };
        }
        i += u.used;
        o += u.len;
    }
    EWalk { i, o, k: CHAR, used: 0, cp: 0 }
}

/// C02
fn p_total_enc<const M: usize>(c: &Cfg, t: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0xFF);
    let r = enc(c.e, t, o.s(), c.end == 1);
    o.guard(201);
    ck(r.w <= o.m, 202);
    if r.ok {
        ck(r.at_start, 203);
        ck(r.n <= t.len(), 204);
        ck(boundary(t, r.n), 205);
        cover(1);
    } else {
        ck(r.es < r.ee, 206);
        ck(r.ee <= t.len(), 207);
        ck(boundary(t, r.es), 208);
        ck(boundary(t, r.ee), 209);
        cover(2);
    }
    show(&r, o.r());
}

/// C06, C08, C10, C12 (and C03's encoder half): bytes and errors are the model's.
fn p_exact_enc<const M: usize>(c: &Cfg, t: &[u8]) {
    let id = c.p as u32 * 100 + 50;
    let is_end = c.end == 1;
    let mut o = Out::<M>::new(c.m as usize, 0);
    let r = enc(c.e, t, o.s(), is_end);
    let out = o.r();
    show(&r, out);
    let mut i = 0;
    let mut at = 0;
    while i < t.len() {
        let u = next_eunit(c.e, t, i, is_end);
        if u.k == BAD {
            ck(!r.ok, id + 1);
            ck(r.es == i, id + 2);
            ck(r.ee == i + u.used, id + 3);
            ck(r.aux == u.cp, id + 4);
            ck(r.w == at, id + 5);
            cover(2);
            return;
        }
        if u.k == HOLD {
            cover(3);
            break;
        }
        if at + u.len > r.w {
            break;
        }
        for j in 0..u.len {
            ck(out[at + j] == u.out[j], id + 6);
        }
        at += u.len;
        i += u.used;
    }
    ck(r.ok, id + 7);
    if r.ok {
        ck(r.n == i, id + 8);
        ck(r.w == at, id + 9);
        cover(1);
    }
    let hold = i < t.len() && next_eunit(c.e, t, i, is_end).k == HOLD;
    ck(i == t.len() || hold, id + 10);
}

/// C13: encode, then decode.  c.x bit 0: the text is allowed to be one of the
/// known-lossy characters given in lo/hi/… (asserted under its own id).
fn p_enc_dec<const M: usize>(c: &Cfg, t: &[u8], w: &Win) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let mut p = Out::<M>::new(c.m as usize, 0);
    let r = enc(c.e, t, o.s(), true);
    show(&r, o.r());
    if !r.ok {
        cover(2);
        return;
    }
    ck(r.n == t.len(), 1301);
    if r.w > o.m {
        return;
    }
    let x = dec(c.e, &o.r()[..r.w], p.s(), true);
    show(&x, p.r());
    let mut id = 1302;
    if c.x != 0 {
        // c.x: up to three known findings, 21 bits each
        let mut i = w.w0 - w.at;
        while i < w.w1 - w.at {
            let (cp, n) = char_at(t, i);
            for k in 0..3 {
                let v = (c.x >> (21 * k)) as u32 & 0x1F_FFFF;
                if v != 0 && v == cp {
                    id = 1390 + k as u32;
                }
            }
            i += n;
        }
    }
    ck(x.ok, id);
    if x.ok {
        ck(x.n == r.w, id);
        ck(x.w == t.len(), id);
        if x.w == t.len() {
            for j in 0..t.len() {
                ck(p.r()[j] == t[j], id);
            }
        }
        cover(1);
    }
}

/// C16: cutting the text changes nothing.
fn p_chunk_enc<const M: usize>(c: &Cfg, t: &[u8], cut: usize) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let mut o1 = Out::<M>::new(c.m as usize, 0);
    let mut o2 = Out::<M>::new(c.m as usize, 0);
    let whole = enc(c.e, t, o.s(), true);
    let a = enc(c.e, &t[..cut], o1.s(), false);
    show(&whole, o.r());
    show(&a, o1.r());
    ck(a.w <= whole.w, 1601);
    if !a.ok {
        same(&a, &whole, 1602);
        if a.w == whole.w {
            eq(&o1.r()[..a.w], &o.r()[..whole.w], 1603);
        }
        cover(2);
        return;
    }
    ck(a.n <= cut, 1604);
    ck(boundary(t, a.n), 1605);
    if a.n > cut || !boundary(t, a.n) {
        return;
    }
    let b = enc(c.e, &t[a.n..], o2.s(), true);
    show(&b, o2.r());
    ck(b.ok == whole.ok, 1606);
    ck(a.w + b.w == whole.w, 1607);
    if a.w + b.w == whole.w {
        eq(&o1.r()[..a.w], &o.r()[..a.w], 1608);
        eq(&o2.r()[..b.w], &o.r()[a.w..a.w + b.w], 1609);
    }
    if b.ok && whole.ok {
        ck(a.n + b.n == whole.n, 1610);
        ck(whole.n == t.len(), 1611);
        cover(1);
        if a.n < cut {
            cover(4);
        }
    }
    if !b.ok && !whole.ok {
        ck(a.n + b.es == whole.es, 1612);
        ck(a.n + b.ee == whole.ee, 1613);
        ck(b.aux == whole.aux, 1614);
        cover(3);
    }
}

/// C18: a small buffer.
fn p_small_enc<const M: usize>(c: &Cfg, t: &[u8]) {
    let is_end = c.end == 1;
    let m = c.m as usize;
    let mut o = Out::<M>::new(M - 2 * G, 0);
    let mut s = Out::<M>::new(m, 0);
    let full = enc(c.e, t, o.s(), is_end);
    let r = enc(c.e, t, s.s(), is_end);
    show(&full, o.r());
    show(&r, s.r());
    ck(r.w <= m, 1801);
    ck(r.w <= full.w, 1802);
    if r.w <= m && r.w <= full.w {
        eq(&s.r()[..r.w], &o.r()[..r.w], 1803);
    }
    if r.ok {
        let w = ewalk(c.e, t, m, is_end);
        ck(r.n == w.i, 1804);
        ck(r.w == w.o, 1805);
        cover(1);
    } else {
        same(&r, &full, 1806);
        cover(2);
        return;
    }
    if c.x == 0 {
        return;
    }
    let mut i = r.n;
    let mut at = r.w;
    let mut last = r;
    let mut k = 0;
    while k < c.x && last.n > 0 && i < t.len() {
        let mut s = Out::<M>::new(m, 0);
        last = enc(c.e, &t[i..], s.s(), is_end);
        ck(last.w <= m, 1807);
        ck(at + last.w <= full.w, 1808);
        if last.w > m || at + last.w > full.w {
            return;
        }
        eq(&s.r()[..last.w], &o.r()[at..at + last.w], 1809);
        at += last.w;
        if !last.ok {
            ck(!full.ok, 1810);
            ck(i + last.es == full.es, 1811);
            ck(i + last.ee == full.ee, 1812);
            ck(last.aux == full.aux, 1813);
            ck(at == full.w, 1814);
            cover(4);
            return;
        }
        ck(boundary(t, i + last.n), 1815);
        if !boundary(t, i + last.n) {
            return;
        }
        i += last.n;
        k += 1;
    }
    ck(k < c.x, 1816);
    if m >= 4 {
        ck(full.ok, 1817);
        ck(i == full.n, 1818);
        ck(at == full.w, 1819);
        cover(3);
    }
}

/// C20: errors.
fn p_err_enc<const M: usize>(c: &Cfg, t: &[u8]) {
    let is_end = c.end == 1;
    let mut o = Out::<M>::new(c.m as usize, 0);
    let r = enc(c.e, t, o.s(), is_end);
    show(&r, o.r());
    if r.ok {
        cover(1);
        return;
    }
    cover(2);
    let w = ewalk(c.e, t, usize::MAX, is_end);
    ck(w.k == BAD, 2001);
    ck(r.es == w.i, 2002);
    ck(r.ee == w.i + w.used, 2003);
    ck(r.aux == w.cp, 2004);
    ck(r.w == w.o, 2005);
    if r.es > t.len() || !boundary(t, r.es) || r.w > o.m {
        return;
    }
    let mut p = Out::<M>::new(M - 2 * G, 0);
    let b = enc(c.e, &t[..r.es], p.s(), true);
    ck(b.ok, 2006);
    ck(b.n == r.es, 2007);
    ck(b.w == r.w, 2008);
    if b.w == r.w {
        eq(&p.r()[..b.w], &o.r()[..r.w], 2009);
    }
    // and the rest can be encoded from there
    if r.ee <= t.len() && boundary(t, r.ee) && c.x == 1 {
        let mut q = Out::<M>::new(M - 2 * G, 0);
        let z = enc(c.e, &t[r.ee..], q.s(), is_end);
        let w = ewalk(c.e, &t[r.ee..], usize::MAX, is_end);
        ck(z.ok == (w.k != BAD), 2010);
        ck(z.w == w.o, 2011);
        if z.ok {
            ck(z.n == w.i, 2012);
        } else {
            ck(z.es == w.i, 2013);
        }
    }
}

/// C22
fn p_progress_enc<const M: usize>(c: &Cfg, t: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let r = enc(c.e, t, o.s(), true);
    show(&r, o.r());
    if r.ok {
        ck(r.n >= 1, 2251);
        ck(r.w >= 1, 2252);
        cover(1);
    } else {
        cover(2);
    }
}

/// C24
fn p_dirty_enc<const M: usize>(c: &Cfg, t: &[u8]) {
    let mut o = Out::<M>::new(c.m as usize, 0);
    let mut q = Out::<M>::new(c.m as usize, 0xC3);
    let m = c.m as usize;
    let k = if m > 100 { m - 100 } else { 0 };
    unsafe { sym_bytes(q.s()[k..].as_mut_ptr(), m - k) };
    let a = enc(c.e, t, o.s(), c.end == 1);
    let b = enc(c.e, t, q.s(), c.end == 1);
    show(&a, o.r());
    same(&a, &b, 2451);
    if a.w == b.w && a.w <= m {
        eq(&o.r()[..a.w], &q.r()[..a.w], 2452);
    }
    if a.ok {
        cover(1);
    } else {
        cover(2);
    }
}

#[inline(always)]
fn run_enc<const N: usize, const M: usize>(c: &Cfg) {
    let mut b = In([0u8; N]);
    let w = text_input(&mut b.0, c);
    let t = &b.0[w.at..];
    match c.p {
        2 => p_total_enc::<M>(c, t),
        3 | 6 | 8 | 10 | 12 => p_exact_enc::<M>(c, t),
        13 => p_enc_dec::<M>(c, t, &w),
        16 => {
            let mut k = w.w0 - w.at;
            while k <= w.w1 - w.at {
                if boundary(t, k) {
                    p_chunk_enc::<M>(c, t, k);
                }
                k += 1;
            }
        }
        18 => p_small_enc::<M>(c, t),
        20 => p_err_enc::<M>(c, t),
        22 => p_progress_enc::<M>(c, t),
        24 => p_dirty_enc::<M>(c, t),
        25 => p_place::<N, M>(c, t, true),
        26 => p_again::<M>(c, t, true),
        28 => p_recover_enc::<M>(c, t),
        29 => p_stream_enc::<M>(c, t),
        30 => p_mirror::<N, M>(c, t, true),
        31 => p_prefix::<M>(c, t, true),
        32 => p_capacity::<M>(c, t, true),
        _ => ck(false, 1),
    }
}

// ---------------------------------------------------------------- both directions

fn call(enc_: bool, e: u64, i: &[u8], o: &mut [u8], is_end: bool) -> R {
    if enc_ {
        enc(e, i, o, is_end)
    } else {
        dec(e, i, o, is_end)
    }
}

#[repr(C, align(64))]
struct Near<const N: usize, const M: usize> {
    lo: [u8; N],
    q: [u8; M],
    hi: [u8; N],
}
#[repr(C, align(4096))]
struct Pages([u8; 8192]);

/// C25: the same call with input and buffer elsewhere.  c.x: how far the copies are from
/// the ends of their arrays (input, 16 * buffer).
fn p_place<const N: usize, const M: usize>(c: &Cfg, d: &[u8], enc_: bool) {
    let is_end = c.end == 1;
    let m = c.m as usize;
    let (s, t) = ((c.x & 15) as usize, (c.x >> 4 & 15) as usize);
    let mut o = Out::<M>::new(m, 0);
    if c.x >> 8 & 1 == 1 {
        // c.x >> 9: so many bytes of the input, and of the buffer, are in one page, the others in the next
        let k = (c.x >> 9) as usize;
        let mut b = Pages([0u8; 8192]);
        let mut q = Pages([0u8; 8192]);
        b.0[4096 - k..4096 - k + d.len()].copy_from_slice(d);
        let r = call(enc_, c.e, d, o.s(), is_end);
        show(&r, o.r());
        let z = call(enc_, c.e, &b.0[4096 - k..4096 - k + d.len()], &mut q.0[4096 - k..4096 - k + m], is_end);
        same(&r, &z, 2503);
        if r.w == z.w && r.w <= m {
            eq(&q.0[4096 - k..4096 - k + r.w], &o.r()[..r.w], 2504);
        }
        cover(if r.ok { 1 } else { 2 });
        return;
    }
    // the input below the buffer, then above it
    let mut b = Near::<N, M> { lo: [0u8; N], q: [0u8; M], hi: [0u8; N] };
    let at = N - s - d.len();
    b.lo[at..at + d.len()].copy_from_slice(d);
    b.hi[at..at + d.len()].copy_from_slice(d);
    let r = call(enc_, c.e, d, o.s(), is_end);
    show(&r, o.r());
    let q0 = M - 2 * G - t - m;
    let z = call(enc_, c.e, &b.lo[at..at + d.len()], &mut b.q[q0..q0 + m], is_end);
    same(&r, &z, 2501);
    if r.w == z.w && r.w <= m {
        eq(&b.q[q0..q0 + r.w], &o.r()[..r.w], 2502);
    }
    let z = call(enc_, c.e, &b.hi[at..at + d.len()], &mut b.q[q0..q0 + m], is_end);
    same(&r, &z, 2505);
    if r.w == z.w && r.w <= m {
        eq(&b.q[q0..q0 + r.w], &o.r()[..r.w], 2506);
    }
    cover(if r.ok { 1 } else { 2 });
}

/// C26: the same call again, after another one.  c.x: encoding of the other call, 64 * its direction,
/// 128 * whether it is preceded by 300 more, 256 * whether its is_end is the opposite,
/// 512 * whether it has too little room, 1024 * whether it is given less input.
fn p_again<const M: usize>(c: &Cfg, d: &[u8], enc_: bool) {
    let is_end = c.end == 1;
    let m = c.m as usize;
    let mut o = Out::<M>::new(m, 0);
    let mut p = Out::<M>::new(M - 2 * G, 0);
    let mut q = Out::<M>::new(m, 0);
    let r = call(enc_, c.e, d, o.s(), is_end);
    show(&r, o.r());
    let other = c.x >> 6 & 1 == 1;
    let (e2, w) = (c.x & 63, if r.w <= m { r.w } else { m });
    if c.x >> 7 & 1 == 1 {
        for _ in 0..300 {
            call(other, e2, b"ab", p.s(), is_end);
        }
    }
    // what the other call is given: its flag, its room, its input
    let end2 = is_end ^ (c.x >> 8 & 1 == 1);
    let room = if c.x >> 9 & 1 == 1 { if w > 0 { w - 1 } else { 0 } } else { p.s().len() };
    let room = if room <= p.s().len() { room } else { 0 };
    let room = &mut p.s()[..room];
    // what was decoded is text, what was encoded is bytes
    let d2 = if other == enc_ { d } else { &o.r()[..w] };
    let d2 = if c.x >> 10 & 1 == 1 && !d2.is_empty() && (!other || d2[0] < 0x80) { &d2[1..] } else { d2 };
    call(other, e2, d2, room, end2);
    let z = call(enc_, c.e, d, q.s(), is_end);
    same(&r, &z, 2601);
    if r.w == z.w && r.w <= m {
        eq(&q.r()[..r.w], &o.r()[..r.w], 2602);
    }
    cover(if r.ok { 1 } else { 2 });
}

/// C30: the two byte orders mirror each other.
fn p_mirror<const N: usize, const M: usize>(c: &Cfg, d: &[u8], enc_: bool) {
    let is_end = c.end == 1;
    let m = c.m as usize;
    let u = if c.e == UTF16LE { 2 } else { 4 };
    let mut o = Out::<M>::new(m, 0);
    let mut q = Out::<M>::new(m, 0);
    let r = call(enc_, c.e, d, o.s(), is_end);
    show(&r, o.r());
    if enc_ {
        let z = call(enc_, c.e + 1, d, q.s(), is_end);
        same(&r, &z, 3001);
        ck(r.w % u == 0, 3002);
        if r.w == z.w && r.w <= m {
            let (a, b) = (o.r(), q.r());
            for j in 0..r.w / u {
                for k in 0..u {
                    ck(a[j * u + k] == b[j * u + u - 1 - k], 3003);
                }
            }
        }
    } else {
        let mut b = In([0u8; N]);
        let at = N - d.len();
        b.0[at..].copy_from_slice(d);
        for j in 0..d.len() / u {
            for k in 0..u {
                b.0[at + j * u + k] = d[j * u + u - 1 - k];
            }
        }
        let z = call(enc_, c.e + 1, &b.0[at..], q.s(), is_end);
        same(&r, &z, 3011);
        if r.w == z.w && r.w <= m {
            eq(&o.r()[..r.w], &q.r()[..r.w], 3012);
        }
    }
    cover(if r.ok { if r.n == d.len() { 1 } else { 2 } } else { 3 });
}

/// C31: what was consumed is exactly what was converted.
fn p_prefix<const M: usize>(c: &Cfg, d: &[u8], enc_: bool) {
    let m = c.m as usize;
    let mut o = Out::<M>::new(m, 0);
    let mut q = Out::<M>::new(M - 2 * G, 0);
    let r = call(enc_, c.e, d, o.s(), c.end == 1);
    show(&r, o.r());
    let k = if r.ok { r.n } else { r.es };
    ck(k <= d.len(), 3101);
    ck(r.w <= m, 3102);
    if k > d.len() || r.w > m {
        return;
    }
    if enc_ {
        ck(boundary(d, k), 3103);
        if !boundary(d, k) {
            return;
        }
    }
    let z = call(enc_, c.e, &d[..k], q.s(), true);
    ck(z.ok, 3104);
    ck(z.n == k, 3105);
    ck(z.w == r.w, 3106);
    if z.w == r.w {
        eq(&o.r()[..r.w], &q.r()[..r.w], 3107);
    }
    cover(if r.ok { if k == d.len() { 1 } else { 2 } } else { 3 });
}

/// C32: a buffer of the worst-case size takes everything in one call.
fn p_capacity<const M: usize>(c: &Cfg, d: &[u8], enc_: bool) {
    let is_end = c.end == 1;
    let n = d.len();
    let m = if enc_ {
        match c.e {
            UTF16LE | UTF16BE => n * 2,
            UTF32LE | UTF32BE => n * 4,
            _ => n,
        }
    } else {
        match c.e {
            UTF8 | UTF32LE | UTF32BE => n,
            UTF16LE | UTF16BE => n * 3 / 2,
            BIG5 => n * 2,
            _ => n * 3,
        }
    };
    let mut o = Out::<M>::new(m, 0);
    let mut q = Out::<M>::new(M - 2 * G, 0);
    let r = call(enc_, c.e, d, o.s(), is_end);
    show(&r, o.r());
    if r.ok {
        ck(r.n <= n, 3201);
        ck(if is_end { r.n == n } else { r.n + 3 >= n }, 3202);
    }
    let z = call(enc_, c.e, d, q.s(), is_end);
    same(&r, &z, 3203);
    if r.w == z.w && r.w <= m {
        eq(&o.r()[..r.w], &q.r()[..r.w], 3204);
    }
    cover(if r.ok { 1 } else { 2 });
}

/// C27: decode, skip what each error names, go on until all is done.
fn p_recover_dec<const M: usize>(c: &Cfg, d: &[u8]) {
    let m = c.m as usize;
    let mut i = 0;
    let mut k = 0;
    let mut bad = 0;
    let mut b = [0u8; 4];
    while i < d.len() && k < d.len() + 2 {
        k += 1;
        let mut o = Out::<M>::new(m, 0);
        let r = dec(c.e, &d[i..], o.s(), true);
        show(&r, o.r());
        ck(r.w <= m, 2701);
        let stop = if r.ok { r.n } else { r.es };
        ck(stop <= d.len() - i, 2702);
        if r.w > m || stop > d.len() - i {
            return;
        }
        // up to there: valid characters, each decoded
        let (mut j, mut at) = (i, 0);
        while j < i + stop {
            let u = next_unit(c.e, &d[j..]);
            ck(u.k == CHAR, 2703);
            if u.k != CHAR {
                return;
            }
            let l = put_utf8(u.cp, &mut b);
            ck(at + l <= r.w, 2704);
            if at + l > r.w {
                return;
            }
            for x in 0..l {
                ck(o.r()[at + x] == b[x], 2705);
            }
            at += l;
            if u.cp2 != 0 {
                let l = put_utf8(u.cp2, &mut b);
                ck(at + l <= r.w, 2704);
                if at + l > r.w {
                    return;
                }
                for x in 0..l {
                    ck(o.r()[at + x] == b[x], 2705);
                }
                at += l;
            }
            j += u.used;
        }
        ck(j == i + stop, 2706);
        ck(at == r.w, 2707);
        if r.ok {
            ck(r.n > 0, 2708);
            if r.n == 0 {
                return;
            }
            i += r.n;
        } else {
            // what is skipped holds no valid character
            ck(r.es < r.ee && r.ee <= d.len() - i, 2709);
            if r.es >= r.ee || r.ee > d.len() - i {
                return;
            }
            while j < i + r.ee {
                let u = next_unit(c.e, &d[j..]);
                ck(u.k != CHAR, 2710);
                if u.k == CHAR {
                    return;
                }
                j += u.used;
            }
            ck(j == i + r.ee, 2711);
            i += r.ee;
            bad += 1;
        }
    }
    ck(i == d.len(), 2712);
    if bad == 0 {
        cover(1);
    } else if bad == 1 {
        cover(2);
    } else {
        cover(3);
    }
}

/// C28: encode, skip the character each error names, go on until all is done.
fn p_recover_enc<const M: usize>(c: &Cfg, t: &[u8]) {
    let m = c.m as usize;
    let mut i = 0;
    let mut k = 0;
    let mut bad = 0;
    while i < t.len() && k < t.len() + 2 {
        k += 1;
        let mut o = Out::<M>::new(m, 0);
        let r = enc(c.e, &t[i..], o.s(), true);
        show(&r, o.r());
        ck(r.w <= m, 2801);
        let stop = if r.ok { r.n } else { r.es };
        ck(stop <= t.len() - i, 2802);
        if r.w > m || stop > t.len() - i {
            return;
        }
        let (mut j, mut at) = (i, 0);
        while j < i + stop {
            let u = next_eunit(c.e, t, j, true);
            ck(u.k == CHAR, 2803);
            if u.k != CHAR {
                return;
            }
            ck(at + u.len <= r.w, 2804);
            if at + u.len > r.w {
                return;
            }
            for x in 0..u.len {
                ck(o.r()[at + x] == u.out[x], 2805);
            }
            at += u.len;
            j += u.used;
        }
        ck(j == i + stop, 2806);
        ck(at == r.w, 2807);
        if r.ok {
            ck(r.n > 0, 2808);
            if r.n == 0 || j != i + stop {
                return;
            }
            i += r.n;
        } else {
            if j != i + stop {
                return;
            }
            let u = next_eunit(c.e, t, j, true);
            ck(u.k == BAD, 2809);
            ck(i + r.ee == j + u.used, 2810);
            ck(r.aux == u.cp, 2811);
            if i + r.ee != j + u.used {
                return;
            }
            i += r.ee;
            bad += 1;
        }
    }
    ck(i == t.len(), 2812);
    if bad == 0 {
        cover(1);
    } else if bad == 1 {
        cover(2);
    } else {
        cover(3);
    }
}

/// C29: input arrives c.x bytes at a time, the buffer holds c.m bytes.
fn p_stream_dec<const M: usize>(c: &Cfg, d: &[u8]) {
    let m = c.m as usize;
    let q = c.x as usize;
    let mut o = Out::<M>::new(M - 2 * G, 0);
    let full = dec(c.e, d, o.s(), true);
    show(&full, o.r());
    let (mut i, mut at, mut have, mut k) = (0, 0, 0, 0);
    loop {
        k += 1;
        ck(k <= 3 * d.len() + 4, 2901);
        if k > 3 * d.len() + 4 {
            return;
        }
        let end = have == d.len();
        let mut s = Out::<M>::new(m, 0);
        let r = dec(c.e, &d[i..have], s.s(), end);
        ck(r.w <= m && at + r.w <= full.w, 2902);
        if r.w > m || at + r.w > full.w {
            return;
        }
        eq(&s.r()[..r.w], &o.r()[at..at + r.w], 2903);
        at += r.w;
        if !r.ok {
            ck(!full.ok, 2904);
            ck(i + r.es == full.es, 2905);
            ck(at == full.w, 2906);
            cover(2);
            return;
        }
        ck(r.n <= have - i, 2907);
        if r.n > have - i {
            return;
        }
        i += r.n;
        if end && i == have {
            break;
        }
        if r.n == 0 || i == have {
            ck(!end, 2908);
            if end {
                return;
            }
            have = if have + q < d.len() { have + q } else { d.len() };
        }
    }
    ck(full.ok, 2909);
    ck(at == full.w, 2910);
    cover(1);
}

/// C29: text arrives about c.x bytes at a time, the buffer holds c.m bytes.
fn p_stream_enc<const M: usize>(c: &Cfg, t: &[u8]) {
    let m = c.m as usize;
    let q = c.x as usize;
    let mut o = Out::<M>::new(M - 2 * G, 0);
    let full = enc(c.e, t, o.s(), true);
    show(&full, o.r());
    let (mut i, mut at, mut have, mut k) = (0, 0, 0, 0);
    loop {
        k += 1;
        ck(k <= 3 * t.len() + 4, 2951);
        if k > 3 * t.len() + 4 {
            return;
        }
        let end = have == t.len();
        let mut s = Out::<M>::new(m, 0);
        let r = enc(c.e, &t[i..have], s.s(), end);
        ck(r.w <= m && at + r.w <= full.w, 2952);
        if r.w > m || at + r.w > full.w {
            return;
        }
        eq(&s.r()[..r.w], &o.r()[at..at + r.w], 2953);
        at += r.w;
        if !r.ok {
            ck(!full.ok, 2954);
            ck(i + r.es == full.es, 2955);
            ck(i + r.ee == full.ee, 2956);
            ck(r.aux == full.aux, 2957);
            ck(at == full.w, 2958);
            cover(2);
            return;
        }
        ck(r.n <= have - i, 2959);
        if r.n > have - i || !boundary(t, i + r.n) {
            return;
        }
        i += r.n;
        if end && i == have {
            break;
        }
        if r.n == 0 || i == have {
            ck(!end, 2960);
            if end {
                return;
            }
            have = if have + q < t.len() { have + q } else { t.len() };
            while !boundary(t, have) {
                have += 1;
            }
        }
    }
    ck(full.ok, 2961);
    ck(at == full.w, 2962);
    cover(1);
}

// ---------------------------------------------------------------- ASCII

/// C23: filler ++ n arbitrary ASCII characters ++ filler, both directions.
#[inline(always)]
fn run_ascii<const N: usize, const M: usize>(c: &Cfg) {
    let (mut b, mut t) = (In([0u8; N]), In([0u8; N]));
    let b = &mut b.0; // encoded
    let t = &mut t.0; // text
    let n = c.n as usize;
    let b1 = fill_bytes_back(c.e, c.fill, c.suf as usize, b, N, false);
    let t1 = fill_bytes_back(c.e, c.fill, c.suf as usize, t, N, true);
    unsafe { sym_bytes(b.as_mut_ptr().add(b1 - n), n) };
    for j in 0..n {
        assume(b[b1 - n + j] < 0x80);
        t[t1 - n + j] = b[b1 - n + j];
    }
    let b0 = fill_bytes_back(c.e, c.fill, c.pre as usize, b, b1 - n, false);
    let t0 = fill_bytes_back(c.e, c.fill, c.pre as usize, t, t1 - n, true);
    let (d, s) = (&b[b0..], &t[t0..]);
    let m = c.m as usize;
    let mut o = Out::<M>::new(m, 0);
    let mut p = Out::<M>::new(m, 0);
    let r = dec(c.e, d, o.s(), c.end == 1);
    let x = enc(c.e, s, p.s(), c.end == 1);
    show(&r, o.r());
    show(&x, p.r());
    ck(r.ok, 2301);
    ck(x.ok, 2302);
    if !r.ok || !x.ok {
        return;
    }
    // decoding
    if c.x == 1 {
        // text of ASCII only: exactly as much as fits
        let k = if m < d.len() { m } else { d.len() };
        ck(r.n == k, 2303);
        ck(r.w == k, 2304);
        ck(x.n == k, 2305);
        ck(x.w == k, 2306);
    } else {
        ck(r.n == d.len(), 2307);
        ck(r.w == s.len(), 2308);
        ck(x.n == s.len(), 2309);
        ck(x.w == d.len(), 2310);
    }
    if r.w <= s.len() && r.w <= m {
        eq(&o.r()[..r.w], &s[..r.w], 2311);
    }
    if x.w <= d.len() && x.w <= m {
        eq(&p.r()[..x.w], &d[..x.w], 2312);
    }
    cover(1);
}

macro_rules! export {
    ($name:ident, $f:ident, $n:expr, $m:expr) => {
        #[no_mangle]
        #[inline(never)]
        pub extern "C-unwind" fn $name(
            p: u64,
            e: u64,
            fill: u64,
            pre: u64,
            n: u64,
            suf: u64,
            m: u64,
            end: u64,
            lo: u64,
            hi: u64,
            split: u64,
            x: u64,
        ) {
            $f::<$n, $m>(&Cfg { p, e, fill, pre, n, suf, m, end, lo, hi, split, x })
        }
    };
}
// input array, output array
export!(h_dec, run_dec, 192, 248);
export!(h_enc, run_enc, 192, 248);
export!(h_ascii, run_ascii, 192, 248);
export!(h_dec_l, run_dec, 5248, 5432);
export!(h_enc_l, run_enc, 5248, 5432);
export!(h_ascii_l, run_ascii, 5248, 5432);
export!(h_dec_x, run_dec, 70016, 70520);
export!(h_enc_x, run_enc, 70016, 70520);
