//! C15: arbitrary bytes offered as a class file.

use coffer::clazz::Class;
use coffer::ReadWrite;

use super::write;
use crate::conv;
use crate::enc;
use crate::engine::*;
use crate::gen::{self, Focus};
use crate::mem;
use crate::model::*;

type R<T> = Result<T, String>;

const MB: usize = 1 << 20;

/// What a reader may use at most: a reserve (tables of 65535 entries may be set aside before they are
/// filled), and room for every reference to a pool constant to be a copy of that constant.
fn allowance(len: usize) -> usize {
    64 * MB + 64usize.saturating_mul(len).saturating_mul(len)
}

struct Outcome {
    ok: bool,
    consumed: usize,
    model: Option<MClass>,
    written: Option<bool>,
}

fn attempt(b: &[u8]) -> R<Outcome> {
    let mut rest = b;
    let (r, used) = mem::peak(|| guard(|| <Class as ReadWrite>::read_from(&mut rest)));
    let r = r.map_err(|p| format!("reading {} bytes panics: {}", b.len(), p))?;
    if used > allowance(b.len()) {
        return Err(format!("reading {} bytes takes {} bytes of memory", b.len(), used));
    }
    let consumed = b.len() - rest.len();
    let c = match r {
        Err(_) => return Ok(Outcome { ok: false, consumed, model: None, written: None }),
        Ok(c) => c,
    };
    let (w, used) = mem::peak(|| guard(|| write(&c)));
    let w = w.map_err(|p| format!("writing what was read from {} bytes panics: {}", b.len(), p))?;
    if used > allowance(b.len()) {
        return Err(format!("writing what was read from {} bytes takes {} bytes of memory", b.len(), used));
    }
    let model = conv::from_coffer(&c).ok().map(|mut m| {
        norm_class(&mut m);
        m
    });
    guard(move || drop(c)).map_err(|p| format!("dropping the value panics: {}", p))?;
    Ok(Outcome { ok: true, consumed, model, written: Some(w.is_ok()) })
}

/// The bytes twice, on a stack of the usual size for threads.
fn judge(b: Vec<u8>, small_stack: bool) -> R<Outcome> {
    let go = move || {
        let x = attempt(&b)?;
        let y = attempt(&b)?;
        if x.ok != y.ok {
            return Err("the same bytes are accepted once and refused once".to_string());
        }
        if x.consumed != y.consumed && x.ok {
            return Err(format!("the same bytes give a value after {} and after {} bytes", x.consumed, y.consumed));
        }
        if x.model != y.model {
            return Err("the same bytes give different values".to_string());
        }
        Ok(x)
    };
    if small_stack {
        std::thread::Builder::new()
            .stack_size(2 * MB)
            .spawn(go)
            .map_err(|e| format!("harness: {}", e))?
            .join()
            .unwrap_or_else(|e| Err(panic_text(e)))
    } else {
        go()
    }
}

// ---- mutations of well-formed files

fn interesting(src: &mut Source, width: usize) -> u64 {
    let max = (1u128 << (8 * width)) - 1;
    let v: u64 = match src.below(10) {
        0 => 0,
        1 => 1,
        2 => max as u64,
        3 => (max >> 1) as u64,
        4 => (max >> 1) as u64 + 1,
        5 => src.below(24),
        6 => (max as u64).wrapping_sub(src.below(24)),
        7 => 1 << src.below(8 * width as u64),
        8 => *src.pick(&[0x00ff_ffffu64, 0x1000_0000, 0x4000_0000, 65535, 65536, 32767, 32768, 256, 255]),
        _ => src.u64(),
    };
    (v as u128 & max) as u64
}
fn put(b: &mut [u8], at: usize, width: usize, v: u64) {
    for i in 0..width {
        if let Some(x) = b.get_mut(at + i) {
            *x = (v >> (8 * (width - 1 - i))) as u8;
        }
    }
}
fn get(b: &[u8], at: usize, width: usize) -> u64 {
    (0..width).fold(0, |a, i| a << 8 | *b.get(at + i).unwrap_or(&0) as u64)
}

struct File {
    b: Vec<u8>,
    /// offset of attribute_length, length
    attrs: Vec<(usize, usize)>,
    body_at: usize,
}

impl File {
    fn new(src: &mut Source, focus: Focus) -> File {
        let m = gen::gen_class(src, focus);
        let e = enc::encode(&m, src.u64());
        File { attrs: e.attrs.iter().map(|a| (a.len_at, a.len)).collect(), body_at: e.body_at, b: e.bytes }
    }
    /// a place to change: anywhere, in the pool, behind it, or within one attribute
    fn place(&self, src: &mut Source) -> usize {
        let n = self.b.len().max(1);
        match src.below(8) {
            0 => src.usize(n),
            1 => src.usize(self.body_at.max(1)),
            2 => self.body_at + src.usize((n - self.body_at.min(n)).max(1)),
            _ if !self.attrs.is_empty() => {
                let (at, len) = *src.pick(&self.attrs);
                at.saturating_sub(2) + src.usize(len + 6)
            }
            _ => src.usize(n),
        }
    }
    /// replaces `n` bytes at `at` with `new` and keeps the attribute lengths around it right
    fn splice(&mut self, at: usize, n: usize, new: &[u8]) {
        let at = at.min(self.b.len());
        let n = n.min(self.b.len() - at);
        self.b.splice(at..at + n, new.iter().copied());
        let delta = new.len() as isize - n as isize;
        let mut fix = vec![];
        for (p, len) in self.attrs.iter_mut() {
            if *p >= at + n {
                *p = (*p as isize + delta) as usize;
            } else if *p + 4 <= at && at + n <= *p + 4 + *len {
                *len = (*len as isize + delta) as usize;
                fix.push((*p, *len));
            }
        }
        for (p, len) in fix {
            put(&mut self.b, p, 4, len as u64);
        }
        if at + n <= self.body_at {
            self.body_at = (self.body_at as isize + delta) as usize;
        }
    }
    fn mutate(&mut self, src: &mut Source) -> &'static str {
        let at = self.place(src);
        match src.below(14) {
            0 => {
                let k = src.below(8);
                if let Some(x) = self.b.get_mut(at) {
                    *x ^= 1 << k;
                }
                "bit"
            }
            1 | 2 => {
                let v = interesting(src, 1);
                put(&mut self.b, at, 1, v);
                "byte"
            }
            3 | 4 => {
                let v = interesting(src, 2);
                put(&mut self.b, at, 2, v);
                "two bytes"
            }
            5 => {
                let v = interesting(src, 4);
                put(&mut self.b, at, 4, v);
                "four bytes"
            }
            6 => {
                // a small step up or down
                let w = *src.pick(&[1, 2, 4]);
                let d = src.range(0, 6) as i64 - 3;
                let v = get(&self.b, at, w).wrapping_add(d as u64);
                put(&mut self.b, at, w, v);
                "step"
            }
            7 => {
                let n = src.range(1, 12);
                self.splice(at, n, &[]);
                "removed, lengths kept right"
            }
            8 => {
                let new: Vec<u8> = (0..src.range(1, 12)).map(|_| src.u8()).collect();
                self.splice(at, 0, &new);
                "inserted, lengths kept right"
            }
            9 => {
                // copy a piece of the file over another place
                let from = self.place(src).min(self.b.len());
                let n = src.range(1, 40).min(self.b.len() - from);
                let new = self.b[from..from + n].to_vec();
                let cut = if src.bool() { n } else { 0 };
                self.splice(at, cut, &new);
                "copied within the file"
            }
            10 => {
                let n = self.b.len();
                self.b.truncate(at.min(n));
                if src.bool() {
                    for _ in 0..src.range(1, 30) {
                        let x = src.u8();
                        self.b.push(x);
                    }
                }
                "cut off"
            }
            11 => {
                // raw insertion or removal: everything behind it moves, lengths are wrong
                let at = at.min(self.b.len());
                if src.bool() {
                    let x = src.u8();
                    self.b.insert(at, x);
                } else if at < self.b.len() {
                    self.b.remove(at);
                }
                "shifted"
            }
            12 => {
                if self.attrs.is_empty() {
                    return "nothing";
                }
                let (p, len) = *src.pick(&self.attrs);
                let v = match src.below(4) {
                    0 => (len as u64).wrapping_add(src.range(0, 8) as u64).wrapping_sub(4) & 0xffff_ffff,
                    1 => 0,
                    _ => interesting(src, 4),
                };
                put(&mut self.b, p, 4, v);
                "attribute length"
            }
            _ => {
                if self.attrs.is_empty() {
                    return "nothing";
                }
                // the bytes of one attribute under the name of another
                let (p, _) = *src.pick(&self.attrs);
                let (q, _) = *src.pick(&self.attrs);
                let name = get(&self.b, p.saturating_sub(2), 2);
                put(&mut self.b, q.saturating_sub(2), 2, name);
                "attribute name"
            }
        }
    }
}

/// A well-formed file with a few places changed such that it may still be accepted.
pub fn dented(src: &mut Source, focus: Focus) -> Vec<u8> {
    let mut f = File::new(src, focus);
    for _ in 0..1 + src.len(3) {
        f.mutate(src);
    }
    f.b
}

fn mutated(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let focus = *src.pick(&[Focus::All, Focus::Insn, Focus::Position, Focus::Dyn, Focus::Anno, Focus::Attr]);
    let mut f = File::new(src, focus);
    let orig = f.b.clone();
    let n = if src.bool() { 1 } else { 1 + src.len(6) };
    let mut how = vec![];
    for _ in 0..n {
        if src.chance(1, 30) {
            // the tail of another file
            let g = File::new(src, Focus::All);
            let (a, c) = (f.place(src).min(f.b.len()), g.place(src).min(g.b.len()));
            f.b.truncate(a);
            f.b.extend_from_slice(&g.b[c..]);
            how.push("tail of another file");
        } else {
            how.push(f.mutate(src));
        }
    }
    checkpoint(src);
    let (body_at, b) = (f.body_at, f.b);
    let changed = b != orig;
    let digest = hash_bytes(&b);
    let len = b.len();
    let o = judge(b, false)?;
    for h in how.iter() {
        ctx.count(h);
    }
    ctx.count(if o.ok { "mutants accepted" } else { "mutants refused" });
    if o.written == Some(false) {
        ctx.count("mutants read but refused on writing");
    }
    let deep = o.ok || o.consumed > body_at;
    let sample = if ctx.want_sample {
        Some(format!("{} bytes, mutations {:?}: {} after {}", len, how, if o.ok { "accepted" } else { "refused" }, o.consumed))
    } else {
        None
    };
    Ok(Pass { nontrivial: changed && deep, digest, sample })
}

// ---- declarations that are deep, large or circular

#[derive(Default)]
struct Cf {
    pool: Vec<u8>,
    n: u16,
}
fn w2(o: &mut Vec<u8>, x: usize) {
    o.extend((x as u16).to_be_bytes());
}
fn w4(o: &mut Vec<u8>, x: u64) {
    o.extend((x as u32).to_be_bytes());
}
impl Cf {
    fn ent(&mut self, b: &[u8]) -> usize {
        self.pool.extend_from_slice(b);
        self.n += 1;
        self.n as usize
    }
    fn utf8(&mut self, b: &[u8]) -> usize {
        let mut e = vec![1];
        w2(&mut e, b.len());
        e.extend_from_slice(b);
        self.ent(&e)
    }
    fn refs(&mut self, tag: u8, xs: &[usize]) -> usize {
        let mut e = vec![tag];
        xs.iter().for_each(|x| w2(&mut e, *x));
        self.ent(&e)
    }
    fn attr(&mut self, name: &str, body: &[u8]) -> Vec<u8> {
        let n = self.utf8(name.as_bytes());
        let mut o = vec![];
        w2(&mut o, n);
        w4(&mut o, body.len() as u64);
        o.extend_from_slice(body);
        o
    }
    /// `fields` and `methods` as (descriptor, attributes)
    fn finish(mut self, major: u16, fields: Vec<(Vec<u8>, Vec<Vec<u8>>)>, methods: Vec<(Vec<u8>, Vec<Vec<u8>>)>, attrs: Vec<Vec<u8>>) -> Vec<u8> {
        let a = self.utf8(b"A");
        let this = self.refs(7, &[a]);
        let mut body = vec![];
        w2(&mut body, 0x21);
        w2(&mut body, this);
        w2(&mut body, 0);
        w2(&mut body, 0);
        for l in [fields, methods] {
            w2(&mut body, l.len());
            for (d, at) in l {
                let d = self.utf8(&d);
                w2(&mut body, 1);
                w2(&mut body, a);
                w2(&mut body, d);
                w2(&mut body, at.len());
                at.iter().for_each(|x| body.extend_from_slice(x));
            }
        }
        w2(&mut body, attrs.len());
        attrs.iter().for_each(|x| body.extend_from_slice(x));
        let mut o = vec![0xca, 0xfe, 0xba, 0xbe, 0, 0];
        w2(&mut o, major as usize);
        w2(&mut o, self.n as usize + 1);
        o.extend(self.pool);
        o.extend(body);
        o
    }
    /// `where_`: on the class, a field, a method, or within code
    fn with_attr(mut self, where_: u64, name: &str, body: &[u8]) -> Vec<u8> {
        let a = self.attr(name, body);
        match where_ {
            0 => self.finish(52, vec![], vec![], vec![a]),
            1 => self.finish(52, vec![(b"I".to_vec(), vec![a])], vec![], vec![]),
            2 => self.finish(52, vec![], vec![(b"()V".to_vec(), vec![a])], vec![]),
            _ => self.with_code(&[0xb1], vec![a], 52, vec![]),
        }
    }
    fn with_code(mut self, code: &[u8], attrs: Vec<Vec<u8>>, major: u16, class_attrs: Vec<Vec<u8>>) -> Vec<u8> {
        let mut c = vec![];
        w2(&mut c, 4);
        w2(&mut c, 4);
        w4(&mut c, code.len() as u64);
        c.extend_from_slice(code);
        w2(&mut c, 0);
        w2(&mut c, attrs.len());
        attrs.iter().for_each(|x| c.extend_from_slice(x));
        let c = self.attr("Code", &c);
        self.finish(major, vec![], vec![(b"()V".to_vec(), vec![c])], class_attrs)
    }
}

fn depth(src: &mut Source, max: usize) -> usize {
    let d = match src.below(6) {
        0 => src.range(1, 20),
        1 => src.range(200, 300),
        2 => src.range(400, 1500),
        3 => src.range(2000, 20_000),
        4 => src.range(20_000, 200_000),
        _ => max,
    };
    d.min(max)
}

/// element_value nested `d` deep
fn nested_value(src: &mut Source, cf: &mut Cf, d: usize) -> Vec<u8> {
    let ty = cf.utf8(b"LA;");
    let name = cf.utf8(b"v");
    let k = cf.refs(3, &[0, 7]);
    let count = *src.pick(&[1usize, 1, 1, 2, 65535]);
    let style = src.below(3);
    let mut o = vec![];
    for i in 0..d {
        if style == 0 || style == 2 && i % 2 == 0 {
            o.push(b'[');
            w2(&mut o, count);
        } else {
            o.push(b'@');
            w2(&mut o, ty);
            w2(&mut o, count);
            w2(&mut o, name);
        }
    }
    // unless cut off, end properly
    if src.chance(3, 4) {
        if src.bool() {
            o.push(b'I');
            w2(&mut o, k);
        } else {
            o.push(b'[');
            w2(&mut o, 0);
        }
    }
    o
}

fn deep_annotation(src: &mut Source) -> Vec<u8> {
    let mut cf = Cf::default();
    let d = depth(src, 100_000);
    let v = nested_value(src, &mut cf, d);
    if src.chance(1, 5) {
        return cf.with_attr(2, "AnnotationDefault", &v);
    }
    let ty = cf.utf8(b"LA;");
    let name = cf.utf8(b"w");
    let mut anno = vec![];
    w2(&mut anno, ty);
    w2(&mut anno, 1);
    w2(&mut anno, name);
    anno.extend(v);
    let vis = src.bool();
    let mut o = vec![];
    let where_ = src.below(4);
    let name = match src.below(3) {
        0 if where_ < 3 => {
            w2(&mut o, 1);
            if vis {
                "RuntimeVisibleAnnotations"
            } else {
                "RuntimeInvisibleAnnotations"
            }
        }
        1 if where_ == 2 => {
            o.push(1);
            w2(&mut o, 1);
            if vis {
                "RuntimeVisibleParameterAnnotations"
            } else {
                "RuntimeInvisibleParameterAnnotations"
            }
        }
        _ => {
            w2(&mut o, 1);
            match where_ {
                0 => o.extend([0x10, 0, 0]),
                1 => o.push(0x13),
                2 => o.push(0x14),
                _ => o.extend([0x44, 0, 0]),
            }
            o.push(0);
            if vis {
                "RuntimeVisibleTypeAnnotations"
            } else {
                "RuntimeInvisibleTypeAnnotations"
            }
        }
    };
    o.extend(anno);
    cf.with_attr(where_, name, &o)
}

/// a signature or descriptor nested as deep as 65535 bytes allow
fn deep_text(src: &mut Source) -> (Vec<u8>, bool) {
    let mut s = vec![];
    let rep = |s: &mut Vec<u8>, x: &[u8], d: usize| (0..d).for_each(|_| s.extend_from_slice(x));
    let (open, inner, close): (&[u8], &[u8], &[u8]) = *src.pick(&[
        (&b"La<"[..], &b"*"[..], &b">;"[..]),
        (b"La<", b"TT;", b">;"),
        (b"La<+", b"La;", b">;"),
        (b"La<-[", b"I", b">;"),
        (b"La<*[La<", b"[[J", b">;>;"),
        (b"La<*>.b<", b"*", b">;"),
        (b"[", b"I", b""),
        (b"[", b"La;", b""),
        (b".b", b"", b""),
        (b"(", b"V", b")"),
        (b"<A:", b"La;", b">"),
        (b"La<", b"", b""),
        (b"La;", b"", b""),
        (b"^TT;", b"", b""),
    ]);
    let max = (65000 / (open.len() + close.len())).max(1);
    let d = depth(src, max);
    let wrap = src.below(4);
    match wrap {
        1 => s.extend(b"("),
        2 => s.extend(b"<T:"),
        3 => s.extend(b"()"),
        _ => {}
    }
    rep(&mut s, open, d);
    s.extend(inner);
    if src.chance(5, 6) {
        rep(&mut s, close, d);
    }
    match wrap {
        1 => s.extend(b")V"),
        2 => s.extend(b">La;"),
        _ => {}
    }
    (s, wrap == 1 || wrap == 3)
}

fn deep_signature(src: &mut Source) -> Vec<u8> {
    let (t, _) = deep_text(src);
    let mut cf = Cf::default();
    let s = cf.utf8(&t);
    let mut o = vec![];
    let where_ = src.below(4);
    if where_ == 3 {
        // LocalVariableTypeTable
        let n = cf.utf8(b"x");
        w2(&mut o, 1);
        w2(&mut o, 0);
        w2(&mut o, 1);
        w2(&mut o, n);
        w2(&mut o, s);
        w2(&mut o, 0);
        return cf.with_attr(3, "LocalVariableTypeTable", &o);
    }
    w2(&mut o, s);
    cf.with_attr(where_, "Signature", &o)
}

fn deep_descriptor(src: &mut Source) -> Vec<u8> {
    let (t, method) = deep_text(src);
    let mut cf = Cf::default();
    match src.below(4) {
        0 => cf.finish(52, vec![(t, vec![])], vec![], vec![]),
        1 => cf.finish(52, vec![], vec![(t, vec![])], vec![]),
        2 => {
            let s = cf.utf8(&t);
            let a = cf.utf8(b"A");
            let c = cf.refs(7, &[a]);
            let nt = cf.refs(12, &[a, s]);
            let m = cf.refs(if method { 10 } else { 9 }, &[c, nt]);
            let op = if method { 0xb8 } else { 0xb2 };
            cf.with_code(&[op, (m >> 8) as u8, m as u8, 0xb1], vec![], 52, vec![])
        }
        _ => {
            let s = cf.utf8(&t);
            let c = cf.refs(*src.pick(&[7, 16]), &[s]);
            let op = *src.pick(&[0x13, 0xbd, 0xc0, 0xc5]);
            cf.with_code(&[op, (c >> 8) as u8, c as u8, 0xff, 0xb1], vec![], 52, vec![])
        }
    }
}

fn bootstraps(src: &mut Source) -> Vec<u8> {
    let mut cf = Cf::default();
    let a = cf.utf8(b"A");
    let c = cf.refs(7, &[a]);
    let md = cf.utf8(b"()V");
    let fd = cf.utf8(b"I");
    let nt = cf.refs(12, &[a, md]);
    let m = cf.refs(10, &[c, nt]);
    let h = {
        let mut e = vec![15, 6];
        w2(&mut e, m);
        cf.ent(&e)
    };
    let ft = cf.refs(12, &[a, fd]);
    let n = match src.below(5) {
        0 => src.range(1, 8),
        1 => src.range(200, 300),
        2 => src.range(15, 40),
        _ => depth(src, 20_000),
    };
    let fan = if src.bool() { 1 } else { src.range(2, 5) };
    let shape = src.below(6);
    let first = cf.n as usize + 1;
    for i in 0..n {
        cf.refs(17, &[i, ft]);
    }
    let at = |i: usize| first + i;
    let mut o = vec![];
    w2(&mut o, n);
    for i in 0..n {
        let args: Vec<usize> = match shape {
            // one leads to the next
            0 if i + 1 < n => vec![at(i + 1); fan],
            1 if i > 0 => vec![at(i - 1); fan],
            // in a circle
            2 => vec![at((i + 1) % n); fan],
            // itself
            3 => vec![at(i)],
            // anything
            4 => (0..fan).map(|_| at(src.usize(n))).collect(),
            // every later one, near the front
            5 => (i + 1..n.min(i + 12)).map(at).collect(),
            _ => vec![],
        };
        w2(&mut o, h);
        w2(&mut o, args.len());
        args.iter().for_each(|x| w2(&mut o, *x));
    }
    let mut code = vec![];
    for _ in 0..src.range(0, 4) {
        let x = at(src.usize(n));
        code.extend([0x13, (x >> 8) as u8, x as u8]);
    }
    if src.bool() {
        let x = cf.refs(18, &[src.usize(n), nt]);
        code.extend([0xba, (x >> 8) as u8, x as u8, 0, 0]);
    }
    code.push(0xb1);
    let b = cf.attr("BootstrapMethods", &o);
    cf.with_code(&code, vec![], 55, vec![b])
}

fn switches(src: &mut Source) -> Vec<u8> {
    let cf = Cf::default();
    let mut code = vec![0; src.range(0, 4)];
    let table = src.bool();
    code.push(if table { 0xaa } else { 0xab });
    while code.len() % 4 != 0 {
        code.push(0);
    }
    w4(&mut code, interesting(src, 4));
    if table {
        let lo = interesting(src, 4);
        let hi = if src.bool() { lo.wrapping_add(interesting(src, 4)) } else { interesting(src, 4) };
        w4(&mut code, lo);
        w4(&mut code, hi);
    } else {
        w4(&mut code, interesting(src, 4));
    }
    for _ in 0..src.range(0, 40) {
        w4(&mut code, interesting(src, 4));
    }
    code.push(0xb1);
    cf.with_code(&code, vec![], 52, vec![])
}

/// small files whose declared counts and lengths are not backed by bytes
fn empty_promises(src: &mut Source) -> Vec<u8> {
    const CLASS: &[&str] = &[
        "InnerClasses", "NestMembers", "ModulePackages", "Module", "RuntimeVisibleAnnotations", "RuntimeInvisibleTypeAnnotations",
        "BootstrapMethods", "SourceDebugExtension", "EnclosingMethod", "x.Unknown", "Signature", "SourceFile", "Deprecated", "NestHost",
    ];
    const FIELD: &[&str] = &["RuntimeVisibleAnnotations", "RuntimeVisibleTypeAnnotations", "ConstantValue", "x.Unknown", "Signature", "Synthetic"];
    const METHOD: &[&str] = &[
        "Code", "Exceptions", "MethodParameters", "RuntimeInvisibleParameterAnnotations", "RuntimeVisibleAnnotations", "AnnotationDefault",
        "x.Unknown", "RuntimeInvisibleTypeAnnotations",
    ];
    const CODE: &[&str] = &[
        "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable", "RuntimeVisibleTypeAnnotations", "x.Unknown",
    ];
    let mut cf = Cf::default();
    let where_ = src.below(4);
    let name = *src.pick([CLASS, FIELD, METHOD, CODE][where_ as usize]);
    // mostly high bytes: large counts at every level
    let body: Vec<u8> = (0..src.range(0, 60)).map(|_| *src.pick(&[0xff, 0xff, 0xff, 0x7f, 0x80, 0, 0, 1, 2, b'[', b'@'])).collect();
    let mut a = cf.attr(name, &body);
    let v = match src.below(3) {
        0 => body.len() as u64,
        1 => interesting(src, 4),
        _ => *src.pick(&[0xffff_ffffu64, 0x7fff_ffff, 0x8000_0000, 0x1000_0000, 0x0400_0000, 65536]),
    };
    put(&mut a, 2, 4, v);
    let mut b = match where_ {
        0 => cf.finish(52, vec![], vec![], vec![a]),
        1 => cf.finish(52, vec![(b"I".to_vec(), vec![a])], vec![], vec![]),
        2 => cf.finish(52, vec![], vec![(b"()V".to_vec(), vec![a])], vec![]),
        _ => cf.with_code(&[0xb1], vec![a], 52, vec![]),
    };
    if src.chance(1, 4) {
        // a large count in front of nothing
        let n = b.len();
        let at = n - 1 - src.usize(n.min(30));
        b.truncate(at);
        b.extend([0xff; 4]);
    }
    b
}

fn crowds(src: &mut Source) -> Vec<u8> {
    let n = *src.pick(&[300usize, 3000, 30_000, 65535]);
    let mut cf = Cf::default();
    let name = cf.utf8(b"x.Y");
    let mut a = vec![];
    w2(&mut a, name);
    w4(&mut a, 0);
    match src.below(5) {
        0 => cf.finish(52, vec![], vec![], vec![a; n]),
        1 => cf.finish(52, vec![(b"I".to_vec(), vec![a; n])], vec![], vec![]),
        2 => cf.with_code(&[0xb1], vec![a; n], 52, vec![]),
        3 => {
            // every line number on the same position
            let mut o = vec![];
            w2(&mut o, n);
            (0..n).for_each(|i| {
                w2(&mut o, 0);
                w2(&mut o, i);
            });
            let l = cf.attr("LineNumberTable", &o);
            cf.with_code(&[0xb1], vec![l], 52, vec![])
        }
        _ => {
            // as many jumps as fit, all over the place
            let mut code = vec![];
            while code.len() + 4 <= n {
                let t = src.below(n as u64) as i64 / 3 * 3 - code.len() as i64;
                code.push(*src.pick(&[0xa7, 0x99, 0xa8, 0xc6]));
                w2(&mut code, t as i16 as u16 as usize);
            }
            code.push(0xb1);
            cf.with_code(&code, vec![], 52, vec![])
        }
    }
}

fn pools(src: &mut Source) -> Vec<u8> {
    let mut cf = Cf::default();
    let n = src.range(1, 30);
    for _ in 0..n {
        let t = *src.pick(&[1u8, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 7, 8, 12]);
        let mut i = || src.range(0, n + 3);
        match t {
            1 => {
                let b: Vec<u8> = (0..src.range(0, 6)).map(|_| src.u8()).collect();
                cf.utf8(&b);
            }
            3 | 4 => {
                let (x, y) = (i(), i());
                cf.refs(t, &[x, y]);
            }
            5 | 6 => {
                let (x, y) = (i(), i());
                cf.refs(t, &[x, y, 0, 0]);
                if src.chance(5, 6) {
                    cf.n += 1;
                }
            }
            7 | 8 | 16 | 19 | 20 => {
                let x = i();
                cf.refs(t, &[x]);
            }
            15 => {
                let x = i();
                let mut e = vec![15, src.below(11) as u8];
                w2(&mut e, x);
                cf.ent(&e);
            }
            _ => {
                let (x, y) = (i(), i());
                cf.refs(t, &[x, y]);
            }
        }
    }
    let mut code = vec![];
    for _ in 0..src.range(0, 12) {
        let op = *src.pick(&[0x12u8, 0x13, 0x14, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xbb, 0xbd, 0xc0, 0xc1, 0xc5]);
        let x = src.range(0, cf.n as usize + 2);
        code.push(op);
        if op == 0x12 {
            code.push(x as u8);
        } else {
            w2(&mut code, x);
        }
        match op {
            0xb9 => code.extend([1, 0]),
            0xba => code.extend([0, 0]),
            0xc5 => code.push(src.u8()),
            _ => {}
        }
    }
    code.push(0xb1);
    let mut b = cf.with_code(&code, vec![], 55, vec![]);
    if src.chance(1, 4) {
        // this class, super class: any entry
        let v = src.below(n as u64 + 3);
        let at = b.len().saturating_sub(1 + src.usize(60));
        put(&mut b, at, 2, v);
    }
    b
}

fn noise(src: &mut Source) -> Vec<u8> {
    let mut b = if src.bool() { vec![0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 52] } else { vec![] };
    for _ in 0..src.range(0, 200) {
        b.push(src.u8());
    }
    b
}

fn c15(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let k = src.below(40);
    if k < 28 {
        return mutated(src, ctx);
    }
    let (what, b) = match k {
        28 | 29 => ("nested annotation values", deep_annotation(src)),
        30 => ("nested signature", deep_signature(src)),
        31 => ("nested descriptor", deep_descriptor(src)),
        32 | 33 => ("bootstrap methods", bootstraps(src)),
        34 => ("switches", switches(src)),
        35 | 36 => ("declared counts and lengths", empty_promises(src)),
        37 => {
            if src.chance(1, 12) {
                ("many of a kind", crowds(src))
            } else {
                ("noise", noise(src))
            }
        }
        _ => ("cross-linked pool", pools(src)),
    };
    checkpoint(src);
    let digest = hash_bytes(&b);
    let len = b.len();
    let o = judge(b, true)?;
    ctx.count(what);
    ctx.count(if o.ok { "crafted files accepted" } else { "crafted files refused" });
    let sample =
        if ctx.want_sample { Some(format!("{} bytes of {}: {}", len, what, if o.ok { "accepted" } else { "refused" })) } else { None };
    Ok(Pass { nontrivial: what != "noise" || o.consumed > 10, digest, sample })
}

pub static C15: Check = Check {
    id: "C15",
    quick: 150_000,
    thorough: 4_000_000,
    rule: "a mutated well-formed file counts when its bytes changed and the reader accepted it or got past the constant pool; a crafted file (deep, circular, overlong or cross-linked declarations) always counts, noise when more than 10 bytes were consumed",
    assumptions: &[
        "memory is allowed up to 64 MB plus 64 times the square of the input's length, since each of its references may be a copy of a pool constant",
        "stack: 2 MB for crafted files, 8 MB for mutants, in an optimised build",
        "no result after 60 s counts as not terminating",
    ],
    level: "exploration",
    run: c15,
    hang_s: 60,
};
