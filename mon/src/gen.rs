//! Generators for numbers, lengths and contents.
use crate::kit::*;
use bytes::Bytes;

pub const MAX31: u32 = 0x7FFF_FFFF;
pub const MAX63: u64 = 0x7FFF_FFFF_FFFF_FFFF;
pub const MAX24: usize = 0xFF_FFFF;

const EDGES: &[u64] = &[
    0,
    1,
    2,
    3,
    4,
    5,
    0x0A,
    0x0C,
    0x7F,
    0x80,
    0xFF,
    0x100,
    0x101,
    0x102,
    0x3FF,
    0x400,
    0x7FFF,
    0x8000,
    0xFFFF,
    0x1_0000,
    0xFF_FFFF,
    0x100_0000,
    0x3FFF_FFFF,
    0x4000_0000,
    0x7FFF_FFFE,
    0x7FFF_FFFF,
    0x8000_0000,
    0xFFFF_FFFE,
    0xFFFF_FFFF,
    0x1_0000_0000,
    0x0102_0304,
    0x7FFF_FFFF_FFFF_FFFE,
    0x7FFF_FFFF_FFFF_FFFF,
    0x8000_0000_0000_0000,
    0xFFFF_FFFF_FFFF_FFFF,
    0x0102_0304_0506_0708,
];

/// Any number of `bits` bits, with the interesting ones favoured.
pub fn num(cx: &mut Cx, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let v = match cx.rng.below(10) {
        0..=2 => *cx.rng.pick(EDGES),
        3 => 1u64 << cx.rng.below(bits as usize),
        4 => !(1u64 << cx.rng.below(bits as usize)),
        5 => {
            // Low run or high run of ones.
            let k = cx.rng.below(bits as usize + 1);
            let m = if k == 64 { u64::MAX } else { (1u64 << k) - 1 };
            if cx.rng.bool() {
                m
            } else {
                !m
            }
        }
        6 if !cx.dict.nums.is_empty() => {
            let v = *cx.rng.pick(&cx.dict.nums);
            match cx.rng.below(4) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                _ => v,
            }
        }
        7 => cx.rng.below(20) as u64,
        _ => cx.rng.u64(),
    };
    v & mask
}

pub fn u31(cx: &mut Cx) -> u32 {
    num(cx, 31) as u32
}

pub fn u31nz(cx: &mut Cx) -> u32 {
    match u31(cx) {
        0 => 1,
        n => n,
    }
}

pub fn u63(cx: &mut Cx) -> u64 {
    num(cx, 63)
}

const LEN_EDGES: &[usize] = &[
    15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 254,
    255, 256, 257, 300, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025,
    1500, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8191, 8192, 8193, 10000,
    16383, 16384, 16385, 32767, 32768, 32769, 65279, 65280, 65534, 65535,
    65536, 65537, 65791, 65792, 66000, 131071, 131072, 131073,
];

const BIG: &[usize] = &[
    196_608, 262_143, 262_144, 262_145, 524_288, 1_000_000, 1_048_575,
    1_048_576, 1_048_577, 2_097_152, 4_194_303, 4_194_304, 8_388_607,
    8_388_608, 8_388_609, 16_711_680, 16_777_214, 16_777_215,
];

/// A length up to `max`. Large ones are rare.
pub fn len(cx: &mut Cx, max: usize) -> usize {
    let n = match cx.rng.below(2000) {
        0..=899 => cx.rng.below(9),
        900..=1299 => cx.rng.below(40),
        1300..=1549 => cx.rng.below(301),
        1550..=1849 => {
            let e = *cx.rng.pick(LEN_EDGES);
            // The longest edges are expensive.
            if e > 3000 && cx.rng.chance(3, 4) {
                *cx.rng.pick(&LEN_EDGES[..30])
            } else {
                e
            }
        }
        1850..=1949 if !cx.dict.nums.is_empty() => {
            let v = *cx.rng.pick(&cx.dict.nums);
            let v = v.wrapping_add(cx.rng.below(3) as u64).wrapping_sub(1);
            let cap = if cx.rng.chance(1, 10) { 1 << 24 } else { 70_000 };
            if v <= cap {
                v as usize
            } else {
                cx.rng.below(20)
            }
        }
        1950..=1997 => 1 << cx.rng.below(13),
        1998 => cx.rng.below(70_000),
        _ => {
            if cx.rng.chance(1, 4) {
                let b = *cx.rng.pick(BIG);
                if b > 300_000 && cx.rng.chance(3, 4) {
                    cx.rng.below(150_000)
                } else {
                    b
                }
            } else {
                cx.rng.below(5000)
            }
        }
    };
    n.min(max).min(if cfg!(miri) { 60 } else { usize::MAX })
}

/// Byte strings that code tends to treat specially.
pub const NOTABLE: &[&[u8]] = &[
    b"\xEF\xBB\xBF", b"\xEF\xBF\xBE", b"\xFF\xFE", b"\xFE\xFF",
    b"\xE2\x80\x8B", b"\xC2\xA0", b"\xC2\x85", b"\xE2\x80\xA8",
    b"\xE2\x80\x8F", b"\xE2\x80\xAE", b"\xCC\x81", b"e\xCC\x81",
    b"\xEF\xBF\xBD", b"\xEE\x80\x80", b"\xEF\xB7\x90", b"\xE3\x80\x80",
    b"\xF4\x8F\xBF\xBF", b"\xED\x9F\xBF", b"\xC3\x9F", b"\xC4\xB0",
    b"\r\n", b"\n", b"\r", b"\t", b" ", b"  ", b"\0", b"\0\0\0\0",
    b"\x7F", b"\x1B[0m", b"\x1A", b"\x0B", b"\x0C", b"\"", b"'", b"\\",
    b"%", b"%s", b"%00", b"{}", b"{0}", b"[]", b"null", b"undefined", b"nil",
    b"none", b"-", b"--", b"/", b"//", b".", b"..", b"*", b"*/*", b";", b",",
    b":", b": ", b"=", b"&", b"?", b"#", b"+", b"~", b"@", b"$", b"|", b"0",
    b"-1", b"0x", b"true", b"false", b"\x1F\x8B\x08", b"PK\x03\x04",
    b"\x80\x00\x00\x00", b"\x7F\xFF\xFF\xFF", b"\xFF\xFF\xFF\xFF",
    b"\x00\x00\x00\x01", b"\x00\x00\x00", b"\xFF\xFF\xFF", b"\xC0\x80",
    b"message/x.rsocket.routing.v0", b"application/binary", b"utf-8",
];

/// Puts notable byte strings in front, behind or anywhere.
pub fn adorn(cx: &mut Cx, v: &mut [u8]) {
    for _ in 0..1 + cx.rng.below(2) {
        let s = *cx.rng.pick(NOTABLE);
        if s.len() > v.len() {
            continue;
        }
        let at = match cx.rng.below(3) {
            0 => 0,
            1 => v.len() - s.len(),
            _ => cx.rng.below(v.len() - s.len() + 1),
        };
        v[at..at + s.len()].copy_from_slice(s);
    }
}

/// Contents of the given length.
pub fn content(cx: &mut Cx, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if cx.rng.chance(1, 12) {
        // Nothing but one notable string.
        let s = *cx.rng.pick(NOTABLE);
        for (i, b) in v.iter_mut().enumerate() {
            *b = s[i % s.len()];
        }
        return v;
    }
    match cx.rng.below(10) {
        0 => {}
        1 => v.fill(0xFF),
        2 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = b'a' + (i % 26) as u8;
            }
        }
        3 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = i as u8;
            }
        }
        4 => {
            // Multi-byte text, cut at the length, so often invalid at the end.
            let t = "aé€😀ß".as_bytes();
            for (i, b) in v.iter_mut().enumerate() {
                *b = t[i % t.len()];
            }
        }
        5 if !cx.dict.strs.is_empty() => {
            cx.rng.fill(&mut v);
            let s = cx.rng.pick(&cx.dict.strs).clone();
            if s.len() <= n {
                let at = match cx.rng.below(3) {
                    0 => 0,
                    1 => n - s.len(),
                    _ => cx.rng.below(n - s.len() + 1),
                };
                v[at..at + s.len()].copy_from_slice(&s);
            }
        }
        6 => {
            // Looks like a frame.
            let h = [0, 0, 0, 1, 0x14, 0x80, 0, 0, 3, 1, 2, 3];
            for (i, b) in v.iter_mut().enumerate() {
                *b = h[i % h.len()];
            }
        }
        _ => cx.rng.fill(&mut v),
    }
    if cx.rng.chance(1, 6) {
        adorn(cx, &mut v);
    }
    v
}

pub fn bytes_of(cx: &mut Cx, n: usize) -> Bytes {
    if n > 0 && cx.rng.chance(1, 20) && !cx.dict.strs.is_empty() {
        return Bytes::from(cx.rng.pick(&cx.dict.strs).clone());
    }
    Bytes::from(content(cx, n))
}

/// Absent, empty or some bytes.
pub fn part(cx: &mut Cx, max: usize) -> Option<Bytes> {
    match cx.rng.below(8) {
        0 => None,
        1 => Some(Bytes::new()),
        _ => {
            let n = len(cx, max);
            Some(bytes_of(cx, n))
        }
    }
}

/// The same bytes or nearly: the same value, a copy, one byte more, less or
/// different, the same length, reversed.
pub fn alike(cx: &mut Cx, b: &Bytes) -> Bytes {
    let mut v = match cx.rng.below(9) {
        0 | 1 => return b.clone(),
        2 => return b.slice(b.len() / 2..),
        3 => return b.slice(..b.len() / 2),
        _ => b.to_vec(),
    };
    let n = v.len();
    match cx.rng.below(7) {
        0 => v.push(7),
        1 => {
            v.pop();
        }
        2 if n > 0 => {
            let i = *cx.rng.pick(&[0, n / 2, n - 1]);
            v[i] ^= 1;
        }
        3 => cx.rng.fill(&mut v),
        4 => v.reverse(),
        _ => {}
    }
    v.into()
}

/// Two parts, sometimes alike.
pub fn parts(cx: &mut Cx, max: usize) -> (Option<Bytes>, Option<Bytes>) {
    let (a, b) = (part(cx, max), part(cx, max));
    if let (Some(a), Some(b)) = (&a, &b) {
        match cx.rng.below(12) {
            0 | 1 => {
                let b = alike(cx, a);
                return (Some(a.clone()), Some(b));
            }
            2 => {
                let (a, b) = neighbours(cx, a, b);
                return (Some(a), Some(b));
            }
            _ => {}
        }
    }
    (a, b)
}

/// The same two parts as slices of one buffer, side by side in either order
/// or with something between them; or two that overlap.
pub fn neighbours(cx: &mut Cx, a: &Bytes, b: &Bytes) -> (Bytes, Bytes) {
    let (x, y) = (a.len(), b.len());
    let gap = [0, 0, 0, 1, 3][cx.rng.below(5)];
    let mut v = Vec::with_capacity(x + y + gap);
    let order = cx.rng.below(3);
    let (first, second) = if order == 1 { (b, a) } else { (a, b) };
    v.extend_from_slice(first);
    v.resize(v.len() + gap, 0xA5);
    v.extend_from_slice(second);
    let all = Bytes::from(v);
    match order {
        0 => (all.slice(..x), all.slice(x + gap..)),
        1 => (all.slice(y + gap..), all.slice(..y)),
        _ => {
            // Each has its length.
            let (i, j) = (cx.rng.below(all.len() - x + 1), cx.rng.below(all.len() - y + 1));
            (all.slice(i..i + x), all.slice(j..j + y))
        }
    }
}

pub fn ascii(cx: &mut Cx, max: usize) -> String {
    let n = match cx.rng.below(8) {
        0 => 0,
        1 => *cx.rng.pick(&[1, 2, 126, 127, 128, 129, 253, 254, 255]),
        2 => cx.rng.below(256),
        _ => cx.rng.range(1, 30),
    }
    .min(max);
    if cx.rng.chance(1, 6) {
        let known = [
            "application/binary",
            "application/json",
            "message/x.rsocket.routing.v0",
            "text/plain; charset=utf-8",
        ];
        let s = *cx.rng.pick(&known);
        if s.len() <= max {
            return s.to_string();
        }
    }
    let mut s: String = (0..n)
        .map(|_| match cx.rng.below(10) {
            0 => '\0',
            1 => '\x7f',
            2 => '\n',
            _ => (0x20 + cx.rng.below(95)) as u8 as char,
        })
        .collect();
    if cx.rng.chance(1, 4) {
        let x = *cx.rng.pick(NOTABLE);
        if x.is_ascii() && x.len() + s.len() <= max {
            let at = if cx.rng.bool() { 0 } else { s.len() };
            s.insert_str(at, std::str::from_utf8(x).unwrap());
        }
    }
    s
}

/// ASCII text with a few other characters somewhere.
pub fn nearly_ascii(cx: &mut Cx, max: usize) -> String {
    let mut s = ascii(cx, max - 8);
    for _ in 0..1 + cx.rng.below(2) {
        let c = *cx.rng.pick(&['é', 'ß', '\u{80}', '\u{7FF}', '€', '😀', 'ａ']);
        // Often behind a separator or at an end.
        let at: Vec<usize> = s
            .char_indices()
            .filter(|(_, c)| c.is_ascii_punctuation() || *c == ' ')
            .map(|(i, _)| i + 1)
            .collect();
        let i = match cx.rng.below(4) {
            0 => 0,
            1 => s.len(),
            2 if !at.is_empty() => *cx.rng.pick(&at),
            _ => cx.rng.below(s.len() + 1),
        };
        let i = (0..=i).rev().find(|i| s.is_char_boundary(*i)).unwrap();
        s.insert(i, c);
    }
    s
}

/// The shape of a length, for counting distinct cases.
pub fn len_class(n: Option<usize>) -> u64 {
    match n {
        None => 0,
        Some(n) if n < 600 => 1 + n as u64,
        Some(n) if n > 1 << 40 => 2000,
        Some(n) => {
            let up = n.next_power_of_two();
            1000 + (up.trailing_zeros() as u64) * 4
                + if n == up {
                    0
                } else if n == up - 1 {
                    1
                } else if n == up / 2 + 1 {
                    2
                } else {
                    3
                }
        }
    }
}

/// Groups of 64 characters that `chars` knows.
pub const CHARS: u64 = 0x11_0000 / 64;

/// Texts with each character of a group.
pub fn chars(group: u64) -> Vec<Vec<u8>> {
    (group * 64..group * 64 + 64)
        .filter_map(|c| char::from_u32(c as u32))
        .flat_map(|c| [format!("{c}"), format!("{c}te{c}xt{c}")])
        .map(String::into_bytes)
        .collect()
}
