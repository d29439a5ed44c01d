//! C09 (modified UTF-8), C10 (WTF-8 strings), C19 (floats).

use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use coffer::mod_utf8::{modified_utf8_to_string, string_to_modified_utf8};
use coffer::total_floats::{TotalF32, TotalF64};
use coffer::ReadWrite;
use wtf_8::{Codepoint, Wtf8Str, Wtf8String};

use crate::engine::*;
use crate::mstr::*;

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {:?}, got {:?}", what, want, got))
    }
}

// ---- C09

/// strict units, plus the two deviations the library documents by accepting UTF-8: a raw NUL byte
/// and four-byte sequences
fn lenient_mutf8(b: &[u8]) -> Option<Vec<u16>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0xC0 && b.get(i + 1) == Some(&0x80) {
            v.push(0);
            i += 2;
            continue;
        }
        let (c, n) = gen_utf8_one(&b[i..])?;
        push_cp(&mut v, c);
        i += n;
    }
    Some(v)
}

fn units(src: &mut Source, thorough: bool) -> Vec<u16> {
    match src.below(64) {
        0 => {
            // near the length limit
            let w = *src.pick(&[1usize, 2, 3]);
            let total = 65535 - src.range(0, 7);
            let u = match w {
                1 => b'a' as u16,
                2 => *src.pick(&[0u16, 0x80, 0x7ff]),
                _ => *src.pick(&[0x800u16, 0xffff, 0xd800, 0xdc00]),
            };
            let mut v = vec![u; total / w];
            if w == 3 && src.bool() {
                for (i, x) in v.iter_mut().enumerate() {
                    *x = if i % 2 == 0 { 0xD83D } else { 0xDE00 };
                }
            }
            v
        }
        1..=3 => {
            let n = src.range(0, if thorough { 2000 } else { 300 });
            (0..n).map(|_| gen_unit(src)).collect()
        }
        4..=9 => {
            // a full plane sweep over short strings
            let a = src.below(0x10000) as u16;
            let b = src.below(0x10000) as u16;
            vec![a, b]
        }
        10..=13 => {
            let n = src.range(1, 5);
            let mut v = vec![];
            for _ in 0..n {
                push_cp(&mut v, 0x10000 + src.below(0x100000) as u32);
            }
            v
        }
        _ => gen_any(src, 12).0,
    }
}

fn bad_bytes(src: &mut Source) -> Vec<u8> {
    let mut b = to_mutf8(&gen_any(src, 8).0);
    match src.below(6) {
        0 => {
            let n = src.range(1, 8);
            (0..n).map(|_| src.below(256) as u8).collect()
        }
        1 => {
            // raw bytes of interesting classes
            let n = src.range(1, 9);
            (0..n)
                .map(|_| {
                    *src.pick(&[
                        0u8, 0x41, 0x7f, 0x80, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xee, 0xef, 0xf0, 0xf4, 0xf5,
                        0xf8, 0xfe, 0xff, 0x90, 0x8f,
                    ])
                })
                .collect()
        }
        2 => {
            // truncate
            let k = src.usize(b.len() + 1);
            b.truncate(k);
            b
        }
        3 if !b.is_empty() => {
            let k = src.usize(b.len());
            b[k] = src.below(256) as u8;
            b
        }
        4 => {
            let k = src.usize(b.len() + 1);
            b.insert(k, src.below(256) as u8);
            b
        }
        _ => {
            if !b.is_empty() {
                let k = src.usize(b.len());
                b.remove(k);
            }
            let t = to_mutf8(&gen_any(src, 4).0);
            b.extend(t);
            b
        }
    }
}

fn c09(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.below(3) < 2 {
        let u = units(src, ctx.thorough);
        let want = to_mutf8(&u);
        if want.len() > 65535 {
            return pass(false, 0);
        }
        checkpoint(src);
        let s = wtf(&MStr(u.clone()));
        same("encoding", &want, &string_to_modified_utf8(&s))?;
        let back = modified_utf8_to_string(&want).map_err(|e| format!("decoding {:02x?}: {}", want, e))?;
        same("decoding", MStr(u.clone()), unwtf(&back)?)?;
        // with the length in front
        let mut framed = (want.len() as u16).to_be_bytes().to_vec();
        framed.extend(&want);
        let mut o = vec![];
        s.write_to(&mut o).map_err(|e| format!("writing: {}", e))?;
        same("written owned string", &framed, &o)?;
        let c: Cow<Wtf8Str> = Cow::Borrowed(&s);
        let mut o = vec![];
        c.write_to(&mut o).map_err(|e| format!("writing: {}", e))?;
        same("written borrowed string", &framed, &o)?;
        let mut o = vec![];
        coffer::cp::StrRef(&s).write_to(&mut o).map_err(|e| format!("writing: {}", e))?;
        same("written string reference", &framed, &o)?;
        let mut o = vec![];
        coffer::cp::ConstEntryRef::UTF8(coffer::cp::StrRef(&s)).write_to(&mut o).map_err(|e| format!("writing: {}", e))?;
        same("written constant reference", (1u8, &framed[..]), (o[0], &o[1..]))?;
        framed.extend([0xAB, 0xCD]);
        let mut r = &framed[..];
        let x = Wtf8String::read_from(&mut r).map_err(|e| format!("reading: {}", e))?;
        same("read owned string", MStr(u.clone()), unwtf(&x)?)?;
        same("bytes left", &[0xABu8, 0xCD][..], r)?;
        let mut r = &framed[..];
        let x = <Cow<Wtf8Str> as ReadWrite>::read_from(&mut r).map_err(|e| format!("reading: {}", e))?;
        same("read string", MStr(u.clone()), unwtf(&x)?)?;
        same("bytes left", &[0xABu8, 0xCD][..], r)?;
        if u.iter().any(|x| (0xD800..0xE000).contains(x)) {
            ctx.count("strings with surrogates");
        }
        if want.len() > 65000 {
            ctx.count("near the length limit");
        }
        Ok(Pass {
            nontrivial: u.iter().any(|&x| x == 0 || x > 0x7f),
            digest: hash_bytes(&want),
            sample: ctx.want_sample.then(|| format!("{:?}", MStr(u))),
        })
    } else {
        let b = bad_bytes(src);
        checkpoint(src);
        let got = modified_utf8_to_string(&b);
        let mut framed = (b.len() as u16).to_be_bytes().to_vec();
        framed.extend(&b);
        let got2 = Wtf8String::read_from(&mut &framed[..]);
        if got.is_ok() != got2.is_ok() {
            return Err(format!("{:02x?}: the two readers disagree: {:?} / {:?}", b, got, got2));
        }
        let strict = from_mutf8(&b);
        let lenient = lenient_mutf8(&b);
        let kind;
        match (&strict, &lenient, &got) {
            (Some(u), _, Ok(s)) => {
                kind = "well-formed";
                same("decoding", MStr(u.clone()), unwtf(s)?)?
            }
            (Some(_), _, Err(e)) => return Err(format!("{:02x?} is well-formed but was refused: {}", b, e)),
            (None, Some(u), Ok(s)) => {
                kind = "plain UTF-8";
                same("decoding", MStr(u.clone()), unwtf(s)?)?
            }
            (None, Some(_), Err(_)) => kind = "plain UTF-8",
            (None, None, Ok(s)) => return Err(format!("{:02x?} is malformed but was decoded as {:?}", b, unwtf(s))),
            (None, None, Err(_)) => kind = "malformed, refused",
        }
        ctx.count(kind);
        Ok(Pass { nontrivial: strict.is_none(), digest: hash_bytes(&b) ^ 1, sample: ctx.want_sample.then(|| format!("{:02x?} ({})", b, kind)) })
    }
}

pub static C09: Check = Check {
    id: "C09",
    quick: 6_000_000,
    thorough: 60_000_000,
    rule: "a case is a code-unit string (encoded, decoded, written and read with its length by every entry point) or a byte string classified by an independent decoder; non-trivial: the string has a unit outside 1..7F, or the bytes are not well-formed modified UTF-8",
    assumptions: &["a raw NUL byte and four-byte UTF-8 sequences may be accepted or refused, but if accepted they must decode to what UTF-8 says"],
    level: "exploration",
    run: c09,
    hang_s: 60,
};

// ---- C10

fn cp_of(src: &mut Source) -> u32 {
    match src.below(6) {
        0 => 0xD800 + src.below(0x400) as u32,
        1 => 0xDC00 + src.below(0x400) as u32,
        2 => 0x10000 + src.below(0x100000) as u32,
        3 => *src.pick(&[0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff]),
        _ => gen_unit(src) as u32,
    }
}

fn text(src: &mut Source) -> String {
    let n = src.range(0, 4);
    (0..n).filter_map(|_| char::from_u32(cp_of(src))).collect()
}

fn frag(src: &mut Source) -> Vec<u16> {
    let n = src.range(0, 4);
    let mut v = vec![];
    for _ in 0..n {
        push_cp(&mut v, cp_of(src));
    }
    v
}

fn bounds(bytes: &[u8]) -> Vec<usize> {
    (0..=bytes.len()).filter(|&i| i == bytes.len() || bytes[i] & 0xC0 != 0x80).collect()
}

fn lossy(u: &[u16]) -> String {
    char::decode_utf16(u.iter().copied()).map(|r| r.unwrap_or('\u{FFFD}')).collect()
}

fn debug_form(u: &[u16]) -> String {
    let mut s = String::from("\"");
    for r in char::decode_utf16(u.iter().copied()) {
        match r {
            Ok(c) => s.extend(c.escape_debug()),
            Err(e) => s.push_str(&format!("\\u{{{:x}}}", e.unpaired_surrogate())),
        }
    }
    s.push('"');
    s
}

fn case_map(u: &[u16], up: bool) -> Vec<u16> {
    u.iter()
        .map(|&x| match u8::try_from(x) {
            Ok(b) if b.is_ascii() => {
                if up {
                    b.to_ascii_uppercase() as u16
                } else {
                    b.to_ascii_lowercase() as u16
                }
            }
            _ => x,
        })
        .collect()
}

fn views(s: &Wtf8Str, u: &[u16]) -> Result<(), String> {
    let bytes = to_wtf8(u);
    same("bytes", &bytes[..], s.as_bytes())?;
    same("len", bytes.len(), s.len())?;
    same("is_empty", bytes.is_empty(), s.is_empty())?;
    same("is_ascii", u.iter().all(|x| *x < 0x80), s.is_ascii())?;
    let cps = code_points(u);
    // iterators, with their hints at every step
    let mut it = s.codepoints();
    let mut rest = s.codepoints();
    for k in 0..=cps.len() {
        let (lo, hi) = it.size_hint();
        let left = cps.len() - k;
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("code point iterator: hint {:?} with {} left", (lo, hi), left));
        }
        let mut tail = vec![];
        for c in &cps[k..] {
            utf8_push(&mut tail, *c);
        }
        same("remaining string of the code point iterator", &tail[..], rest.as_str().as_bytes())?;
        rest.next();
        same("code point", cps.get(k).copied(), it.next().map(|c| c.to_u32()))?;
    }
    let mut it = s.encode_wide();
    for k in 0..=u.len() {
        let (lo, hi) = it.size_hint();
        let left = u.len() - k;
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("wide iterator: hint {:?} with {} left", (lo, hi), left));
        }
        same("wide unit", u.get(k).copied(), it.next())?;
    }
    same("wide iterator after its end", None, it.next())?;
    let utf8 = String::from_utf16(u).ok();
    same("as_str", utf8.as_deref(), s.as_str())?;
    same("to_string_lossy", lossy(u), s.to_string_lossy().into_owned())?;
    same("display", lossy(u), format!("{}", s))?;
    same("debug", debug_form(u), format!("{:?}", s))?;
    let o = s.to_owned();
    same("to_owned", &bytes[..], o.as_bytes())?;
    same("debug of the owned string", debug_form(u), format!("{:?}", o))?;
    same("into_string", utf8.clone().ok_or(()), o.clone().into_string().map_err(|_| ()))?;
    if utf8.is_none() {
        if let Err(x) = o.clone().into_string() {
            same("string given back by into_string", &bytes[..], x.as_bytes())?;
        }
    }
    same("into_string_lossy", lossy(u), o.clone().into_string_lossy())?;
    same("hash of owned and borrowed", hash(s), hash(&o))?;
    let b = s.into_box();
    same("boxed", &bytes[..], b.as_bytes())?;
    same("unboxed", &bytes[..], Wtf8String::from_box(b).as_bytes())?;
    same("owned boxed", &bytes[..], o.clone().into_box().as_bytes())?;
    same("empty box", 0, Wtf8Str::empty_box().as_bytes().len())?;
    same("borrowed cow", &bytes[..], Cow::<Wtf8Str>::from(s).as_bytes())?;
    same("rc", &bytes[..], s.into_rc().as_bytes())?;
    same("arc", &bytes[..], s.into_arc().as_bytes())?;
    same("into_bytes", &bytes, &o.clone().into_bytes())?;
    let low = to_wtf8(&case_map(u, false));
    let up = to_wtf8(&case_map(u, true));
    same("to_ascii_lowercase", &low[..], s.to_ascii_lowercase().as_bytes())?;
    same("to_ascii_uppercase", &up[..], s.to_ascii_uppercase().as_bytes())?;
    let mut m = o.clone();
    m.make_ascii_lowercase();
    same("make_ascii_lowercase", &low[..], m.as_bytes())?;
    if !s.eq_ignore_ascii_case(&m) {
        return Err("not equal to its lower case, ignoring case".into());
    }
    m.make_ascii_uppercase();
    same("make_ascii_uppercase", &up[..], m.as_bytes())?;
    for (i, b) in bytes.iter().enumerate() {
        same("ascii_byte_at", if b.is_ascii() { *b } else { 0xFF }, s.ascii_byte_at(i))?;
    }
    same("from_wide", &bytes[..], Wtf8String::from_wide(u).as_bytes())?;
    let it: Wtf8String = cps.iter().map(|c| Codepoint::from_u32(*c).expect("code point")).collect();
    same("collected", &bytes[..], it.as_bytes())?;
    let it: Wtf8String = u.iter().map(|c| Codepoint::from_u32(*c as u32).expect("code point")).collect();
    same("collected from halves", &bytes[..], it.as_bytes())?;
    match Wtf8Str::from_bytes(&bytes) {
        Ok(x) => same("from_bytes", &bytes[..], x.as_bytes())?,
        Err(e) => return Err(format!("canonical bytes {:02x?} refused: {}", bytes, e)),
    }
    if let Some(t) = &utf8 {
        if !(*s == **t) || !(o == **t) || !(o == &t[..]) {
            return Err("not equal to the same text".into());
        }
        same("new", &bytes[..], Wtf8Str::new(t).as_bytes())?;
        same("from_borrowed", &bytes[..], Wtf8String::from_borrowed(t).as_bytes())?;
        same("from String", &bytes[..], Wtf8String::from(t.clone()).as_bytes())?;
    }
    Ok(())
}

/// Wtf8Str slicing must fail exactly off the boundaries.
fn slicing(s: &Wtf8Str, bytes: &[u8], src_pairs: &[(usize, usize)]) -> Result<(), String> {
    let bs = bounds(bytes);
    let ok = |i: usize| bs.binary_search(&i).is_ok();
    for &(a, b) in src_pairs {
        let want = (a <= b && ok(a) && ok(b)).then(|| bytes[a..b].to_vec());
        let got = guard(|| s[a..b].as_bytes().to_vec()).ok();
        same(&format!("slice {}..{} of {:02x?}", a, b, bytes), want, got)?;
        let want = ok(a).then(|| bytes[a..].to_vec());
        let got = guard(|| s[a..].as_bytes().to_vec()).ok();
        same(&format!("slice {}.. of {:02x?}", a, bytes), want, got)?;
        let want = ok(b).then(|| bytes[..b].to_vec());
        let got = guard(|| s[..b].as_bytes().to_vec()).ok();
        same(&format!("slice ..{} of {:02x?}", b, bytes), want, got)?;
    }
    same("slice ..", bytes, s[..].as_bytes())?;
    Ok(())
}

fn validation(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let mut b = to_wtf8(&frag(src));
    match src.below(8) {
        0 => {
            let n = src.range(1, 7);
            b = (0..n).map(|_| src.below(256) as u8).collect();
        }
        1 | 2 => {
            let n = src.range(1, 9);
            b = (0..n)
                .map(|_| {
                    *src.pick(&[
                        0x41u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
                        0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff,
                    ])
                })
                .collect();
        }
        3 => {
            // concatenation of canonical parts, not joined
            for _ in 0..src.range(1, 4) {
                let f = to_wtf8(&frag(src));
                b.extend(f);
            }
        }
        4 if !b.is_empty() => {
            let k = src.usize(b.len());
            b[k] = src.below(256) as u8;
        }
        5 if !b.is_empty() => {
            let k = src.usize(b.len());
            b.remove(k);
        }
        6 => {
            // generalized UTF-8 of raw units: halves not combined
            let n = src.range(1, 5);
            b.clear();
            for _ in 0..n {
                let c = cp_of(src);
                utf8_push(&mut b, c);
            }
        }
        _ => {
            let k = src.usize(b.len() + 1);
            b.insert(k, src.below(256) as u8);
        }
    }
    checkpoint(src);
    let want = from_wtf8(&b);
    let mut mb = b.clone();
    let results = [
        wtf_8::validate_wtf8(&b).map_err(|e| e),
        Wtf8Str::from_bytes(&b).map(|_| ()),
        Wtf8String::from_bytes(b.clone()).map(|_| ()),
        Wtf8Str::from_bytes_mut(&mut mb).map(|_| ()),
    ];
    for r in results {
        match (&want, r) {
            (Some(_), Ok(())) => {}
            (None, Err(e)) => {
                // the prefix reported valid must be valid
                let k = e.valid_up_to();
                if k > b.len() || from_wtf8(&b[..k]).is_none() {
                    return Err(format!("{:02x?}: reported valid up to {}, which is not so", b, k));
                }
                let _ = format!("{} {:?}", e, e.error_len());
            }
            (Some(_), Err(e)) => return Err(format!("canonical WTF-8 {:02x?} refused: {}", b, e)),
            (None, Ok(())) => return Err(format!("{:02x?} is not canonical WTF-8 but was accepted", b)),
        }
    }
    if let Some(u) = &want {
        views(Wtf8Str::from_bytes(&b).unwrap(), u)?;
    }
    ctx.count(if want.is_some() { "bytes accepted" } else { "bytes refused" });
    Ok(Pass { nontrivial: b.iter().any(|x| *x >= 0x80), digest: hash_bytes(&b) ^ 2, sample: ctx.want_sample.then(|| format!("validate {:02x?}", b)) })
}

fn c10(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.below(4) == 3 {
        return validation(src, ctx);
    }
    // a history
    let mut u: Vec<u16> = vec![];
    let mut s = match src.below(6) {
        0 => Wtf8String::new(),
        1 => Wtf8String::with_capacity(src.usize(40)),
        2 => {
            u = frag(src);
            Wtf8String::from_wide(&u)
        }
        3 => {
            let t = text(src);
            u = t.encode_utf16().collect();
            Wtf8String::from_string(t)
        }
        4 => {
            u = frag(src);
            Wtf8String::from_bytes(to_wtf8(&u)).map_err(|e| format!("canonical bytes refused: {}", e))?
        }
        _ => Wtf8String::default(),
    };
    let mut h = 0u64;
    let mut joined = false;
    let mut trace = String::new();
    let n = src.range(1, if ctx.thorough { 20 } else { 10 });
    for _ in 0..n {
        let before = to_wtf8(&u).len();
        let op = src.below(15);
        let mut add = 0;
        match op {
            0..=2 => {
                let c = cp_of(src);
                s.push(Codepoint::from_u32(c).expect("code point"));
                push_cp(&mut u, c);
                utf8_len(&mut add, c);
            }
            3 => {
                if let Some(c) = char::from_u32(cp_of(src)) {
                    s.push_char(c);
                    push_cp(&mut u, c as u32);
                    utf8_len(&mut add, c as u32);
                }
            }
            4 => {
                let t = text(src);
                s.push_str(&t);
                u.extend(t.encode_utf16());
                add = t.len();
            }
            5..=7 => {
                let f = frag(src);
                let o = wtf(&MStr(f.clone()));
                s.push_wtf8(&o);
                u.extend(&f);
                add = o.len();
            }
            8 => {
                let f: Vec<u32> = (0..src.range(0, 5)).map(|_| cp_of(src)).collect();
                s.extend(f.iter().map(|c| Codepoint::from_u32(*c).unwrap()));
                for c in f {
                    push_cp(&mut u, c);
                    utf8_len(&mut add, c);
                }
            }
            9 => {
                let b = to_wtf8(&u);
                let k = src.usize(b.len() + 3);
                let ok = bounds(&b).contains(&k);
                let mut t = s.clone();
                let r = guard(|| {
                    t.truncate(k);
                    t
                });
                match (ok, r) {
                    (true, Ok(t)) => {
                        s = t;
                        u = from_wtf8(&b[..k]).ok_or("model")?;
                    }
                    (false, Err(_)) => {}
                    (true, Err(e)) => return Err(format!("truncating {:02x?} to {}: {}", b, k, e)),
                    (false, Ok(_)) => return Err(format!("truncating {:02x?} to {} succeeded", b, k)),
                }
            }
            10 => {
                // slice and rejoin
                let b = to_wtf8(&u);
                let bs = bounds(&b);
                let k = *src.pick(&bs);
                let mut t = s[..k].to_owned();
                t.push_wtf8(&s[k..]);
                same("rejoined slices", &b[..], t.as_bytes())?;
                s = t;
            }
            11 => {
                let mut o = wtf(&MStr(frag(src)));
                (*s).clone_into(&mut o);
                s = o;
            }
            12 => {
                if src.bool() {
                    s.make_ascii_uppercase();
                    u = case_map(&u, true);
                } else {
                    s.make_ascii_lowercase();
                    u = case_map(&u, false);
                }
            }
            13 => match src.below(7) {
                0 => s.clear_and(&mut u),
                1 => s.reserve(src.usize(50)),
                2 => s.reserve_exact(src.usize(50)),
                3 => s.shrink_to_fit(),
                4 => s.shrink_to(src.usize(20)),
                5 => s.try_reserve(src.usize(50)).map_err(|e| format!("try_reserve: {}", e))?,
                _ => s.try_reserve_exact(src.usize(50)).map_err(|e| format!("try_reserve_exact: {}", e))?,
            },
            _ => {
                s = match src.below(5) {
                    0 => Wtf8String::from_box(s.into_box()),
                    1 => Wtf8String::from(&*s),
                    2 => s.codepoints().collect(),
                    3 => Wtf8String::from_wide(&s.encode_wide().collect::<Vec<_>>()),
                    _ => {
                        let c: Cow<Wtf8Str> = s.into();
                        c.into_owned()
                    }
                }
            }
        }
        h = mix(h, op);
        if ctx.want_sample {
            trace.push_str(&format!("op{}->{:?} ", op, MStr(u.clone())));
        }
        let b = to_wtf8(&u);
        if add > 0 && b.len() < before + add {
            joined = true;
        }
        same(&format!("bytes after operation {}", op), &b[..], s.as_bytes())?;
        if s.capacity() < s.len() {
            return Err("capacity below length".into());
        }
    }
    checkpoint(src);
    views(&s, &u)?;
    let b = to_wtf8(&u);
    let pairs: Vec<(usize, usize)> = (0..3).map(|_| (src.usize(b.len() + 2), src.usize(b.len() + 2))).collect();
    slicing(&s, &b, &pairs)?;
    // comparisons with another string, often related
    let v: Vec<u16> = match src.below(4) {
        0 => u.clone(),
        1 => {
            let mut v = u.clone();
            let k = src.usize(v.len() + 1);
            v.truncate(k);
            v.push(gen_unit(src));
            v
        }
        2 => case_map(&u, src.bool()),
        _ => frag(src),
    };
    let t = wtf(&MStr(v.clone()));
    same("equality", u == v, s == t)?;
    same("equality of slices", u == v, *s == *t)?;
    same("mixed equality", u == v, s == *t && *s == t && s == &*t && &*s == t)?;
    same("order", code_points(&u).cmp(&code_points(&v)), s.cmp(&t))?;
    same("order of slices", Some(code_points(&u).cmp(&code_points(&v))), (*s).partial_cmp(&*t))?;
    same("equality ignoring case", case_map(&u, false) == case_map(&v, false), s.eq_ignore_ascii_case(&t))?;
    if u == v {
        same("hashes", hash(&s), hash(&t))?;
    }
    if let Ok(x) = String::from_utf16(&v) {
        same("equality with text", u == v, *s == *x)?;
    }
    // code points
    let c = cp_of(src);
    let cp = Codepoint::from_u32(c).ok_or("a code point was refused")?;
    same("code point value", c, cp.to_u32())?;
    same("code point char", char::from_u32(c), cp.to_char())?;
    same("code point lossy char", char::from_u32(c).unwrap_or('\u{FFFD}'), cp.to_char_lossy())?;
    same("code point text", format!("U+{:04X}", c), format!("{:?}", cp))?;
    let c2 = cp_of(src);
    let cp2 = Codepoint::from_u32(c2).ok_or("a code point was refused")?;
    same("equality of code points", c == c2, cp == cp2)?;
    same("order of code points", c.cmp(&c2), cp.cmp(&cp2))?;
    same("hash of equal code points", hash(&cp), hash(&Codepoint::from_u32(c).unwrap()))?;
    if let Some(ch) = char::from_u32(c) {
        same("code point of a char", c, Codepoint::from(ch).to_u32())?;
        same("equal to the char", true, cp == ch)?;
    }
    let over = match src.below(3) {
        0 => 0x110000 + src.below(16) as u32,
        1 => 0x110000 + src.below(1 << 20) as u32,
        _ => u32::MAX - src.below(1 << 30) as u32,
    };
    if Codepoint::from_u32(over).is_some() {
        return Err("a value above 10FFFF was accepted as a code point".into());
    }
    if joined {
        ctx.count("surrogates joined");
    }
    Ok(Pass {
        nontrivial: u.iter().any(|x| (0xD800..0xE000).contains(x)),
        digest: mix(h, hash_bytes(&b)),
        sample: ctx.want_sample.then_some(trace),
    })
}

fn utf8_len(n: &mut usize, c: u32) {
    let mut b = vec![];
    utf8_push(&mut b, c);
    *n += b.len();
}

trait ClearBoth {
    fn clear_and(&mut self, u: &mut Vec<u16>);
}
impl ClearBoth for Wtf8String {
    fn clear_and(&mut self, u: &mut Vec<u16>) {
        self.clear();
        u.clear();
    }
}

pub static C10: Check = Check {
    id: "C10",
    quick: 4_500_000,
    thorough: 40_000_000,
    rule: "a case is a history of operations on a WTF-8 string run against a list of 16-bit units, followed by every view of the result (or a byte string offered for validation); non-trivial: the final string contains surrogates, or the bytes are not ASCII",
    assumptions: &["the exact error position and length of a failed validation is not claimed beyond the reported prefix being valid"],
    level: "exploration",
    run: c10,
    hang_s: 60,
};

// ---- C19

macro_rules! float_case {
    ($name:ident, $t:ident, $f:ty, $b:ty) => {
        fn $name(x: $b, y: $b, z: $b) -> Result<(), String> {
            let (a, b, c) = ($t(<$f>::from_bits(x)), $t(<$f>::from_bits(y)), $t(<$f>::from_bits(z)));
            let what = format!("{:x} {:x} {:x}", x, y, z);
            // equality is bit equality (no two patterns merge), and consistent everywhere
            same(&format!("equality of {}", what), x == y, a == b)?;
            same(&format!("inequality of {}", what), x != y, a != b)?;
            same(&format!("mixed equality of {}", what), x == y, a == b.0)?;
            same(&format!("mixed equality of {}", what), x == y, a.0 == b)?;
            if a != a {
                return Err(format!("{:x} is not equal to itself", x));
            }
            if x == y {
                same(&format!("hash of {}", what), hash(&a), hash(&b))?;
            }
            // total order laws
            let ab = a.cmp(&b);
            same(&format!("order and equality of {}", what), x == y, ab.is_eq())?;
            same(&format!("antisymmetry of {}", what), ab, b.cmp(&a).reverse())?;
            same(&format!("partial order of {}", what), Some(ab), a.partial_cmp(&b))?;
            if ab.is_le() && b.cmp(&c).is_le() && !a.cmp(&c).is_le() {
                return Err(format!("order of {} is not transitive", what));
            }
            same(&format!("operators on {}", what), (ab.is_lt(), ab.is_le(), ab.is_gt(), ab.is_ge()), (a < b, a <= b, a > b, a >= b))?;
            // numeric order
            if let Some(o) = a.0.partial_cmp(&b.0) {
                if o.is_ne() {
                    same(&format!("numeric order of {}", what), o, ab)?;
                }
            }
            // bits through conversions and the coder
            same("bits", x, <$f>::from(a).to_bits())?;
            same("bits", x, $t::from(<$f>::from_bits(x)).0.to_bits())?;
            let mut o = vec![];
            a.write_to(&mut o).map_err(|e| format!("writing: {}", e))?;
            same("written bits", &x.to_be_bytes()[..], &o[..])?;
            let back = $t::read_from(&mut &o[..]).map_err(|e| format!("reading: {}", e))?;
            same("read bits", x, back.0.to_bits())?;
            same("display", format!("{}", a.0), format!("{}", a))?;
            same("debug", format!("{:?}", a.0), format!("{:?}", a))?;
            let mut v = [a, b, c];
            v.sort();
            let mut w = [x, y, z];
            w.sort_by(|p, q| $t(<$f>::from_bits(*p)).cmp(&$t(<$f>::from_bits(*q))));
            same("sorting", w.to_vec(), v.iter().map(|f| f.0.to_bits()).collect::<Vec<_>>())?;
            Ok(())
        }
    };
}
float_case!(f32_case, TotalF32, f32, u32);
float_case!(f64_case, TotalF64, f64, u64);

fn near32(src: &mut Source, x: u32) -> u32 {
    match src.below(4) {
        0 => x ^ (1 << src.below(32)),
        1 => x ^ 0x8000_0000,
        2 => x,
        _ => src.f32bits(),
    }
}
fn near64(src: &mut Source, x: u64) -> u64 {
    match src.below(4) {
        0 => x ^ (1 << src.below(64)),
        1 => x ^ (1 << 63),
        2 => x,
        _ => src.f64bits(),
    }
}

fn c19(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    use coffer::ConstantPoolWriter;
    let x = src.f32bits();
    let (y, z) = (near32(src, x), near32(src, x));
    let p = src.f64bits();
    let (q, r) = (near64(src, p), near64(src, p));
    checkpoint(src);
    f32_case(x, y, z)?;
    f64_case(p, q, r)?;
    // as pool constants: distinct patterns are separate entries with their exact bits
    let mut cp = coffer::cp::VecCp::new();
    let mut want: Vec<(bool, u64)> = vec![];
    let mut idx = vec![];
    for (d, b) in [(false, x as u64), (true, p), (false, y as u64), (true, q), (false, z as u64), (true, r)] {
        let i = cp.insert_raw(if d {
            coffer::cp::RawConstantEntry::Double(TotalF64(f64::from_bits(b)))
        } else {
            coffer::cp::RawConstantEntry::Float(TotalF32(f32::from_bits(b as u32)))
        });
        idx.push(((d, b), i));
        if !want.contains(&(d, b)) {
            want.push((d, b));
        }
    }
    for a in &idx {
        for b in &idx {
            same(&format!("sharing of {:x?} and {:x?}", a, b), a.0 == b.0, a.1 == b.1)?;
        }
    }
    let mut o = vec![];
    cp.write_to(&mut o).map_err(|e| format!("pool: {}", e))?;
    let mut w = vec![];
    let mut n = 1u16;
    for (d, b) in &want {
        if *d {
            w.push(6);
            w.extend(b.to_be_bytes());
            n += 2;
        } else {
            w.push(4);
            w.extend((*b as u32).to_be_bytes());
            n += 1;
        }
    }
    let mut full = n.to_be_bytes().to_vec();
    full.extend(&w);
    same("pool bytes", full.len(), o.len())?;
    let pool = crate::conv::read_pool(&o)?;
    for ((d, b), i) in &idx {
        match pool.entries.get(i) {
            Some(coffer::cp::RawConstantEntry::Float(f)) if !*d => same("pool float", *b as u32, f.0.to_bits())?,
            Some(coffer::cp::RawConstantEntry::Double(f)) if *d => same("pool double", *b, f.0.to_bits())?,
            o => return Err(format!("pool entry {}: {:?}", i, o)),
        }
    }
    let special = f32::from_bits(x).is_nan() || f64::from_bits(p).is_nan() || x == 0x8000_0000 || p == 1 << 63;
    if special {
        ctx.count("with NaN or negative zero");
    }
    Ok(Pass {
        nontrivial: x != y || p != q,
        digest: mix(mix(x as u64, y as u64), mix(p, q)),
        sample: ctx.want_sample.then(|| format!("{:08x} {:08x} {:08x} / {:016x} {:016x} {:016x}", x, y, z, p, q, r)),
    })
}

pub static C19: Check = Check {
    id: "C19",
    quick: 1_500_000,
    thorough: 20_000_000,
    rule: "a case is three float and three double bit patterns (special values, bit flips and sign flips of each other, random) put through every comparison, the coder and a constant pool; non-trivial: at least two patterns differ",
    assumptions: &["float constants inside whole classes are compared bit by bit by the checks of C01 to C04 and C13"],
    level: "exploration",
    run: c19,
    hang_s: 60,
};
