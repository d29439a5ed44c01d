//! Model strings: sequences of 16-bit code units, with independent Modified-UTF-8 and WTF-8 codecs.

use crate::engine::Source;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct MStr(pub Vec<u16>);

impl std::fmt::Debug for MStr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "\"")?;
        for (i, &u) in self.0.iter().enumerate() {
            if i == 120 {
                return write!(f, "\"...({} units)", self.0.len());
            }
            if (0x20..0x7f).contains(&u) {
                write!(f, "{}", u as u8 as char)?;
            } else {
                write!(f, "\\u{:04X}", u)?;
            }
        }
        write!(f, "\"")
    }
}

impl From<&str> for MStr {
    fn from(s: &str) -> MStr {
        MStr(s.encode_utf16().collect())
    }
}

pub fn ms(s: &str) -> MStr {
    s.into()
}

fn hi(u: u16) -> bool {
    (0xD800..0xDC00).contains(&u)
}
fn lo(u: u16) -> bool {
    (0xDC00..0xE000).contains(&u)
}

/// Code points of a unit sequence: surrogate pairs combine, lone surrogates stay.
pub fn code_points(units: &[u16]) -> Vec<u32> {
    let mut v = vec![];
    let mut i = 0;
    while i < units.len() {
        if hi(units[i]) && i + 1 < units.len() && lo(units[i + 1]) {
            v.push(0x10000 + (((units[i] as u32) & 0x3ff) << 10) + ((units[i + 1] as u32) & 0x3ff));
            i += 2;
        } else {
            v.push(units[i] as u32);
            i += 1;
        }
    }
    v
}

pub fn push_cp(v: &mut Vec<u16>, c: u32) {
    if c >= 0x10000 {
        let c = c - 0x10000;
        v.push(0xD800 | (c >> 10) as u16);
        v.push(0xDC00 | (c & 0x3ff) as u16);
    } else {
        v.push(c as u16);
    }
}

pub fn utf8_push(b: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        b.push(c as u8);
    } else if c < 0x800 {
        b.push(0xC0 | (c >> 6) as u8);
        b.push(0x80 | (c & 0x3f) as u8);
    } else if c < 0x10000 {
        b.push(0xE0 | (c >> 12) as u8);
        b.push(0x80 | ((c >> 6) & 0x3f) as u8);
        b.push(0x80 | (c & 0x3f) as u8);
    } else {
        b.push(0xF0 | (c >> 18) as u8);
        b.push(0x80 | ((c >> 12) & 0x3f) as u8);
        b.push(0x80 | ((c >> 6) & 0x3f) as u8);
        b.push(0x80 | (c & 0x3f) as u8);
    }
}

/// canonical WTF-8
pub fn to_wtf8(units: &[u16]) -> Vec<u8> {
    let mut b = vec![];
    for c in code_points(units) {
        utf8_push(&mut b, c);
    }
    b
}

/// Strict generalized-UTF-8 decoding of one code point at the front: (code point, length).
pub fn gen_utf8_one(b: &[u8]) -> Option<(u32, usize)> {
    let cont = |i: usize| -> Option<u32> {
        let x = *b.get(i)?;
        if x & 0xC0 == 0x80 {
            Some((x & 0x3f) as u32)
        } else {
            None
        }
    };
    let f = *b.first()?;
    if f < 0x80 {
        Some((f as u32, 1))
    } else if (0xC2..=0xDF).contains(&f) {
        Some((((f & 0x1f) as u32) << 6 | cont(1)?, 2))
    } else if (0xE0..=0xEF).contains(&f) {
        let c = ((f & 0x0f) as u32) << 12 | cont(1)? << 6 | cont(2)?;
        if c < 0x800 {
            None
        } else {
            Some((c, 3))
        }
    } else if (0xF0..=0xF4).contains(&f) {
        let c = ((f & 0x07) as u32) << 18 | cont(1)? << 12 | cont(2)? << 6 | cont(3)?;
        if !(0x10000..=0x10FFFF).contains(&c) {
            None
        } else {
            Some((c, 4))
        }
    } else {
        None
    }
}

/// Strict WTF-8: generalized UTF-8 with no high surrogate directly followed by a low one.
pub fn from_wtf8(b: &[u8]) -> Option<Vec<u16>> {
    let mut v = vec![];
    let mut i = 0;
    let mut prev_hi = false;
    while i < b.len() {
        let (c, n) = gen_utf8_one(&b[i..])?;
        if prev_hi && (0xDC00..0xE000).contains(&c) {
            return None;
        }
        prev_hi = (0xD800..0xDC00).contains(&c);
        push_cp(&mut v, c);
        i += n;
    }
    Some(v)
}

/// Java's modified UTF-8 (JVMS 4.4.7)
pub fn to_mutf8(units: &[u16]) -> Vec<u8> {
    let mut b = vec![];
    for &u in units {
        if u != 0 && u < 0x80 {
            b.push(u as u8);
        } else if u < 0x800 {
            b.push(0xC0 | (u >> 6) as u8);
            b.push(0x80 | (u & 0x3f) as u8);
        } else {
            b.push(0xE0 | (u >> 12) as u8);
            b.push(0x80 | ((u >> 6) & 0x3f) as u8);
            b.push(0x80 | (u & 0x3f) as u8);
        }
    }
    b
}

/// Strict decoding: only what `to_mutf8` produces.
pub fn from_mutf8(b: &[u8]) -> Option<Vec<u16>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let f = b[i];
        let cont = |k: usize| -> Option<u16> {
            let x = *b.get(i + k)?;
            if x & 0xC0 == 0x80 {
                Some((x & 0x3f) as u16)
            } else {
                None
            }
        };
        if f != 0 && f < 0x80 {
            v.push(f as u16);
            i += 1;
        } else if f & 0xE0 == 0xC0 {
            let u = ((f & 0x1f) as u16) << 6 | cont(1)?;
            if u != 0 && u < 0x80 {
                return None;
            }
            v.push(u);
            i += 2;
        } else if f & 0xF0 == 0xE0 {
            let u = ((f & 0x0f) as u16) << 12 | cont(1)? << 6 | cont(2)?;
            if u < 0x800 {
                return None;
            }
            v.push(u);
            i += 3;
        } else {
            return None;
        }
    }
    Some(v)
}

impl MStr {
    pub fn mutf8(&self) -> Vec<u8> {
        to_mutf8(&self.0)
    }
    pub fn lone_free(&self) -> bool {
        String::from_utf16(&self.0).is_ok()
    }
    pub fn to_string(&self) -> Option<String> {
        String::from_utf16(&self.0).ok()
    }
    pub fn eq_str(&self, s: &str) -> bool {
        self.0.iter().copied().eq(s.encode_utf16())
    }
    pub fn push_str(&mut self, s: &str) {
        self.0.extend(s.encode_utf16())
    }
    pub fn push_ms(&mut self, s: &MStr) {
        self.0.extend_from_slice(&s.0)
    }
}

pub fn wtf(s: &MStr) -> wtf_8::Wtf8String {
    // SAFETY: to_wtf8 yields canonical WTF-8; going through bytes keeps the model independent of
    // the library's own conversions
    unsafe { wtf_8::Wtf8String::from_bytes_unchecked(to_wtf8(&s.0)) }
}

pub fn cow(s: &MStr) -> std::borrow::Cow<'static, wtf_8::Wtf8Str> {
    std::borrow::Cow::Owned(wtf(s))
}

/// units of a coffer string, by its raw bytes
pub fn unwtf(s: &wtf_8::Wtf8Str) -> Result<MStr, String> {
    from_wtf8(s.as_bytes()).map(MStr).ok_or_else(|| format!("string is not canonical WTF-8: {:02x?}", s.as_bytes()))
}

/// Interesting single unit.
pub fn gen_unit(src: &mut Source) -> u16 {
    match src.below(8) {
        0..=2 => b'a' as u16 + src.below(26) as u16,
        3 => src.below(0x80) as u16,
        4 => *src.pick(&[
            0u16, 1, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0xd800, 0xdbff, 0xdc00,
            0xdfff,
        ]),
        5 => 0xD800 + src.below(0x400) as u16,
        6 => 0xDC00 + src.below(0x400) as u16,
        _ => src.below(0x10000) as u16,
    }
}

/// A text of middle length, or one that the code under test names.
fn long(src: &mut Source, any: bool) -> MStr {
    let n = match src.below(3) {
        0 => src.range(5, 40),
        1 => src.range(5, 300),
        _ => (src.known_int().unsigned_abs() % 4500) as usize + 1,
    };
    let k = src.range(1, 4);
    let part: Vec<u16> = (0..k).map(|_| if any { gen_unit(src) } else { b'a' as u16 + src.below(26) as u16 }).collect();
    MStr(part.into_iter().cycle().take(n).collect())
}

/// Arbitrary text for places that take any string.
pub fn gen_any(src: &mut Source, max: usize) -> MStr {
    match src.below(8) {
        0 => MStr(vec![]),
        1..=3 => gen_name(src),
        6 => ms(src.pick(&crate::dict::get().texts)),
        7 if src.chance(1, 6) => long(src, true),
        _ => {
            let n = src.range(0, max);
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                if src.chance(1, 8) {
                    push_cp(&mut v, 0x10000 + src.below(0x100000) as u32);
                } else {
                    v.push(gen_unit(src));
                }
            }
            MStr(v)
        }
    }
}

const NAMES: &[&str] = &[
    "a", "b", "Foo", "x1", "I", "V", "D", "Document", "Bar$Baz", "L", "Ljava", "Code", "foo", "T", "Value", "Zoo", "Byte", "Cat", "Jar",
    "Short", "value", "$", "_", "\u{e9}t\u{e9}", "\u{4e16}\u{754c}", "\u{1F600}", "a\u{10FFFF}b",
];

/// An unqualified name: no `. ; [ /` and (for safety in signatures) no `< > :`.
pub fn gen_name(src: &mut Source) -> MStr {
    match src.below(9) {
        8 if src.chance(1, 20) => long(src, false),
        8 => ms(src.pick(&crate::dict::get().names)),
        0..=4 => ms(*src.pick(NAMES)),
        5 | 6 => {
            let n = src.range(1, 6);
            MStr((0..n).map(|_| b'a' as u16 + src.below(26) as u16).collect())
        }
        _ => {
            let n = src.range(1, 5);
            let mut v = vec![];
            while v.len() < n {
                let u = gen_unit(src);
                if !u8::try_from(u).map_or(false, |b| b".;[/<>:".contains(&b)) {
                    v.push(u);
                } else {
                    v.push(b'q' as u16);
                }
            }
            MStr(v)
        }
    }
}

/// Internal class name (slash-separated), never an array descriptor.
pub fn gen_class_name(src: &mut Source) -> MStr {
    if src.chance(1, 10) {
        return ms(src.pick(&crate::dict::get().classes));
    }
    if src.chance(1, 3) {
        return ms(*src.pick(&["java/lang/Object", "java/lang/String", "a/b/C", "I", "Ljava", "java/util/Map$Entry", "Document", "Z"]));
    }
    let mut s = gen_name(src);
    let n = src.len(3);
    for _ in 0..n {
        s.push_str("/");
        s.push_ms(&gen_name(src));
    }
    s
}
