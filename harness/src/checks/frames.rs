//! C20 (stack-map frames) and C21 (method handles).

use std::convert::TryFrom;
use std::sync::Arc;

use coffer::code::{Catch, Label, RawFrame, VerificationType};
use coffer::cp::{MapCp, RawConstantEntry};
use coffer::dynamic::BootstrapMethod;
use coffer::loadable::{Constant, MethodHandle, MethodHandleKind};
use coffer::{ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter};
use once_cell::sync::OnceCell;

use super::pool::{raw, raw_bytes};
use super::read;
use crate::conv;
use crate::dec::{Pool, Raw, Rd};
use crate::enc;
use crate::engine::*;
use crate::gen::{self, Focus, Gen};
use crate::model::*;
use crate::mstr::*;

type R<T> = Result<T, String>;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> R<()> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {:?}, got {:?}", what, want, got))
    }
}

/// A reader whose labels are the offsets plus a constant, to tell them apart from other numbers.
struct LabelRead {
    cp: MapCp,
    add: u32,
}
impl ConstantPoolReader for LabelRead {
    fn read_raw(&mut self, i: u16) -> Option<RawConstantEntry> {
        self.cp.read_raw(i)
    }
    fn resolve_later(&mut self, i: u16, b: Arc<OnceCell<BootstrapMethod>>) {
        self.cp.resolve_later(i, b)
    }
    fn bootstrap_methods(&mut self, b: &[BootstrapMethod]) -> coffer::Result<()> {
        self.cp.bootstrap_methods(b)
    }
    fn get_label(&mut self, i: u32) -> Label {
        Label(i + self.add)
    }
    fn get_catch(&mut self, _: u16) -> Option<Catch> {
        None
    }
}
/// A writer that does not share entries and remembers them.
struct LabelWrite {
    e: Vec<RawConstantEntry>,
    add: u32,
}
impl ConstantPoolWriter for LabelWrite {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 {
        self.e.push(v);
        self.e.len() as u16
    }
    fn insert_bsm(&mut self, _: BootstrapMethod) -> u16 {
        0
    }
    fn label(&mut self, l: &Label) -> u16 {
        (l.0 - self.add) as u16
    }
    fn catch(&mut self, _: &Catch) -> Option<u16> {
        None
    }
}

// ---- frames

/// Verification types as (tag, operand); the operand of 7 is a class, of 8 an offset.
#[derive(Clone, Debug, PartialEq)]
enum V {
    Plain(u8),
    Object(MStr),
    Uninit(u16),
}
#[derive(Clone, Debug, PartialEq)]
enum F {
    Same(u16),
    One(u16, V),
    Chop(u16, u8),
    Append(u16, Vec<V>),
    Full(u16, Vec<V>, Vec<V>),
}

fn gen_v(src: &mut Source, names: &mut Vec<MStr>) -> V {
    match src.below(9) {
        7 => {
            if !names.is_empty() && src.bool() {
                let i = src.usize(names.len());
                V::Object(names[i].clone())
            } else {
                let n = Gen::new(src, Focus::All).class_operand();
                names.push(n.clone());
                V::Object(n)
            }
        }
        8 => V::Uninit(src.u16()),
        t => V::Plain(t as u8),
    }
}
fn gen_f(src: &mut Source, names: &mut Vec<MStr>) -> F {
    let d = match src.below(3) {
        0 => *src.pick(&[0u16, 1, 62, 63, 64, 65, 127, 128, 255, 256, 65535]),
        1 => src.below(80) as u16,
        _ => src.u16(),
    };
    let vs = |src: &mut Source, names: &mut Vec<MStr>, n: usize| (0..n).map(|_| gen_v(src, names)).collect::<Vec<V>>();
    match src.below(6) {
        0 => F::Same(d),
        1 | 2 => F::One(d, gen_v(src, names)),
        3 => F::Chop(d, src.range(1, 3) as u8),
        4 => {
            let n = src.range(1, 3);
            F::Append(d, vs(src, names, n))
        }
        _ => {
            let (a, b) = if src.chance(1, 40) { (src.range(0, 300), src.range(0, 300)) } else { (src.len(6), src.len(6)) };
            F::Full(d, vs(src, names, a), vs(src, names, b))
        }
    }
}
fn v_bytes(v: &V, o: &mut Vec<u8>, class: &mut dyn FnMut(&MStr) -> u16) {
    match v {
        V::Plain(t) => o.push(*t),
        V::Object(c) => {
            o.push(7);
            o.extend(class(c).to_be_bytes());
        }
        V::Uninit(x) => {
            o.push(8);
            o.extend(x.to_be_bytes());
        }
    }
}
fn f_bytes(f: &F, long: bool, o: &mut Vec<u8>, class: &mut dyn FnMut(&MStr) -> u16) {
    let tag = |o: &mut Vec<u8>, t: u8, d: u16| {
        o.push(t);
        o.extend(d.to_be_bytes());
    };
    match f {
        F::Same(d) if *d < 64 && !long => o.push(*d as u8),
        F::Same(d) => tag(o, 251, *d),
        F::One(d, v) => {
            if *d < 64 && !long {
                o.push(64 + *d as u8);
            } else {
                tag(o, 247, *d);
            }
            v_bytes(v, o, class);
        }
        F::Chop(d, k) => tag(o, 251 - k, *d),
        F::Append(d, v) => {
            tag(o, 251 + v.len() as u8, *d);
            v.iter().for_each(|v| v_bytes(v, o, class));
        }
        F::Full(d, a, b) => {
            tag(o, 255, *d);
            for l in [a, b] {
                o.extend((l.len() as u16).to_be_bytes());
                l.iter().for_each(|v| v_bytes(v, o, class));
            }
        }
    }
}
fn parse_v(r: &mut Rd, class: &dyn Fn(u16) -> R<MStr>) -> R<V> {
    Ok(match r.u1()? {
        t @ 0..=6 => V::Plain(t),
        7 => V::Object(class(r.u2()?)?),
        8 => V::Uninit(r.u2()?),
        t => return Err(format!("verification tag {}", t)),
    })
}
fn parse_f(r: &mut Rd, class: &dyn Fn(u16) -> R<MStr>) -> R<F> {
    Ok(match r.u1()? {
        t @ 0..=63 => F::Same(t as u16),
        t @ 64..=127 => F::One(t as u16 - 64, parse_v(r, class)?),
        247 => F::One(r.u2()?, parse_v(r, class)?),
        t @ 248..=250 => F::Chop(r.u2()?, 251 - t),
        251 => F::Same(r.u2()?),
        t @ 252..=254 => {
            let d = r.u2()?;
            let mut v = vec![];
            for _ in 251..t {
                v.push(parse_v(r, class)?);
            }
            F::Append(d, v)
        }
        255 => {
            let d = r.u2()?;
            let mut l = [vec![], vec![]];
            for x in l.iter_mut() {
                for _ in 0..r.u2()? {
                    x.push(parse_v(r, class)?);
                }
            }
            let [a, b] = l;
            F::Full(d, a, b)
        }
        t => return Err(format!("frame tag {}", t)),
    })
}
fn to_v(v: &V, add: u32) -> VerificationType {
    use VerificationType as T;
    match v {
        V::Plain(0) => T::Top,
        V::Plain(1) => T::Int,
        V::Plain(2) => T::Float,
        V::Plain(3) => T::Double,
        V::Plain(4) => T::Long,
        V::Plain(5) => T::Null,
        V::Plain(_) => T::UninitializedThis,
        V::Object(c) => T::Object(cow(c)),
        V::Uninit(x) => T::UninitializedVariable(Label(*x as u32 + add)),
    }
}
fn to_f(f: &F, add: u32) -> RawFrame {
    let vs = |v: &Vec<V>| v.iter().map(|v| to_v(v, add)).collect();
    match f {
        F::Same(d) => RawFrame::Same(*d),
        F::One(d, v) => RawFrame::SameLocalsOneStack(*d, to_v(v, add)),
        F::Chop(d, k) => RawFrame::Chop(*d, *k),
        F::Append(d, v) => RawFrame::Append(*d, vs(v)),
        F::Full(d, a, b) => RawFrame::Full(*d, vs(a), vs(b)),
    }
}
/// pool: Utf8, Class pairs in order of first use, at odd/even indices shifted by `shift` integers
struct Classes {
    shift: u16,
    names: Vec<MStr>,
}
impl Classes {
    fn get(&mut self, c: &MStr) -> u16 {
        let k = match self.names.iter().position(|x| x == c) {
            Some(k) => k,
            None => {
                self.names.push(c.clone());
                self.names.len() - 1
            }
        };
        self.shift + 2 + 2 * k as u16
    }
    fn bytes(&self) -> Vec<u8> {
        let mut b = (1 + self.shift + 2 * self.names.len() as u16).to_be_bytes().to_vec();
        for i in 0..self.shift {
            raw_bytes(&Raw::Int(i as i32), &mut b);
        }
        for (k, n) in self.names.iter().enumerate() {
            raw_bytes(&Raw::Utf8(n.clone()), &mut b);
            raw_bytes(&Raw::Class(self.shift + 1 + 2 * k as u16), &mut b);
        }
        b
    }
}
fn written_class(e: &[RawConstantEntry], i: u16) -> R<MStr> {
    let at = |i: u16| e.get((i as usize).wrapping_sub(1)).ok_or_else(|| format!("index {} was not given out", i));
    match raw(at(i)?)? {
        Raw::Class(n) => match raw(at(n)?)? {
            Raw::Utf8(s) => Ok(s),
            o => Err(format!("class name is {:?}", o)),
        },
        o => Err(format!("class wanted, found {:?}", o)),
    }
}

fn frames_alone(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let mut names = vec![];
    let f = gen_f(src, &mut names);
    let long = src.chance(1, 3);
    let add = if src.bool() { 0 } else { src.below(1 << 20) as u32 };
    let shift = src.len(300) as u16;
    let fault = src.below(8);
    let reserved = src.range(128, 246) as u8;
    let badv = if src.bool() { 9 } else { src.range(9, 255) as u8 };
    let cut_at = src.u64();
    let tail = src.len(3);
    checkpoint(src);
    let show = || format!("frame {:?}", f);
    let mut cl = Classes { shift, names: vec![] };
    let mut b = vec![];
    f_bytes(&f, long, &mut b, &mut |c| cl.get(c));
    let pool = cl.bytes();
    let reader = || -> R<LabelRead> { Ok(LabelRead { cp: conv::read_pool(&pool)?, add }) };
    let try_read = |b: &[u8]| -> R<(Result<RawFrame, coffer::Error>, usize)> {
        let mut cp = reader()?;
        let mut r = b;
        let x = guard(|| <RawFrame as ConstantPoolReadWrite>::read_from(&mut cp, &mut r)).map_err(|p| format!("panic: {}; {}", p, show()))?;
        Ok((x, b.len() - r.len()))
    };
    let digest = hash_bytes(format!("{:?}{}{}", f, long, fault).as_bytes());
    let nontrivial = !matches!(f, F::Same(0));
    match fault {
        0 => {
            let mut x = b.clone();
            x[0] = reserved;
            if let (Ok(g), _) = try_read(&x)? {
                return Err(format!("frame tag {} was read as {:?}", reserved, g));
            }
            ctx.count("reserved frame tags refused");
            return pass(true, mix(digest, reserved as u64));
        }
        1 => {
            // an undefined verification tag in place of the first verification type
            let at = match &f {
                F::One(d, _) => Some(if *d < 64 && !long { 1 } else { 3 }),
                F::Append(..) => Some(3),
                F::Full(_, a, c) if !a.is_empty() || !c.is_empty() => Some(if a.is_empty() { 7 } else { 5 }),
                _ => None,
            };
            if let Some(at) = at {
                let mut x = b.clone();
                x[at] = badv;
                if let (Ok(g), _) = try_read(&x)? {
                    return Err(format!("verification tag {} was read as {:?} in {}", badv, g, show()));
                }
                ctx.count("undefined verification tags refused");
                return pass(true, mix(digest, badv as u64));
            }
        }
        2 => {
            let cut = (cut_at % b.len() as u64) as usize;
            if let (Ok(g), _) = try_read(&b[..cut])? {
                return Err(format!("the first {} of {} bytes of {} were read as {:?}", cut, b.len(), show(), g));
            }
            ctx.count("cut frames refused");
            return pass(true, mix(digest, cut as u64));
        }
        3 => {
            // values with no form
            let bad = match &f {
                F::Chop(d, _) => Some(RawFrame::Chop(*d, if badv % 4 == 0 { 0 } else { 4 + badv % 200 })),
                F::Append(d, v) => {
                    let v = if badv % 4 == 0 { vec![] } else { v.iter().cycle().take(4 + badv as usize % 9).map(|v| to_v(v, add)).collect() };
                    Some(RawFrame::Append(*d, v))
                }
                _ => None,
            };
            if let Some(bad) = bad {
                let mut w = LabelWrite { e: vec![], add };
                let mut o = vec![];
                if guard(|| ConstantPoolWriter_write(&bad, &mut w, &mut o)).map_err(|p| format!("panic writing {:?}: {}", bad, p))?.is_ok() {
                    return Err(format!("{:?} was written as {:02x?}", bad, o));
                }
                ctx.count("frame values without a form refused");
                return pass(true, mix(digest, badv as u64));
            }
        }
        _ => {}
    }
    // reading
    let body = b.len();
    let mut x = b.clone();
    x.extend(std::iter::repeat(0xEE).take(tail));
    let (got, used) = try_read(&x)?;
    let got = got.map_err(|e| format!("refused ({}): {} from {:02x?}", e, show(), b))?;
    let want = to_f(&f, add);
    same(&format!("frame read from {:02x?}", b), &want, &got)?;
    same(&format!("bytes used by {}", show()), body, used)?;
    // writing
    let mut w = LabelWrite { e: (0..shift).map(|i| RawConstantEntry::Int(i as i32)).collect(), add };
    let mut o = vec![];
    guard(|| ConstantPoolWriter_write(&want, &mut w, &mut o))
        .map_err(|p| format!("panic writing {}: {}", show(), p))?
        .map_err(|e| format!("refused on writing ({}): {}", e, show()))?;
    let e = w.e;
    let mut r = Rd::new(&o);
    let back = parse_f(&mut r, &|i| written_class(&e, i)).and_then(|x| r.done().map(|_| x)).map_err(|m| format!("{} was written ill-formed as {:02x?}: {}", show(), o, m))?;
    same(&format!("meaning of the bytes {:02x?} written", o), &f, &back)?;
    // wide types
    let wide = |v: &V| matches!(v, V::Plain(3) | V::Plain(4));
    if let F::One(_, v) = &f {
        same(&format!("is_wide of {:?}", v), wide(v), to_v(v, add).is_wide())?;
    }
    Ok(Pass { nontrivial, digest, sample: if ctx.want_sample { Some(format!("{:?} as {:02x?}", f, b)) } else { None } })
}
#[allow(non_snake_case)]
fn ConstantPoolWriter_write(f: &RawFrame, w: &mut LabelWrite, o: &mut Vec<u8>) -> coffer::Result<()> {
    f.write_to(w, o)
}

/// The table inside a method: accepted when right, refused when a frame is not one.
fn frames_in_class(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let mut m = gen::minimal();
    let mut g = Gen::new(src, Focus::Position);
    let mut c = g.code();
    let n = c.insns.len();
    let k = g.src.range(1, 4);
    let mut at: Vec<usize> = (0..k).map(|_| g.src.usize(n)).collect();
    at.sort_unstable();
    at.dedup();
    let frames: Vec<(usize, MFrame)> = at.into_iter().map(|p| (p, g.frame(n))).collect();
    c.frames = Some(frames.clone());
    m.methods.push(gen::method_with(c));
    let seed = src.u64();
    let bad = src.chance(1, 2);
    let t = src.range(128, 246) as u8;
    let v = src.range(9, 255) as u8;
    checkpoint(src);
    let mut e = enc::encode(&m, seed);
    let mark = e.attrs.iter().find(|a| a.name == "StackMapTable").ok_or("harness: no StackMapTable")?;
    let at = mark.len_at + 6;
    let digest = mix(super::class::digest(&m, seed), bad as u64);
    if !bad {
        super::class::must_read(&m, &e)?;
        ctx.count("tables inside methods read");
    } else {
        let old = e.bytes[at];
        let vpos = match (old, &frames[0].1) {
            (64..=127, _) => Some(at + 1),
            (247, _) | (252..=254, _) => Some(at + 3),
            (255, MFrame::Full(l, _)) if !l.is_empty() => Some(at + 5),
            _ => None,
        };
        let what = match vpos {
            Some(p) if t % 2 == 0 => {
                e.bytes[p] = v;
                format!("verification tag {}", v)
            }
            _ => {
                e.bytes[at] = t;
                format!("frame tag {}", t)
            }
        };
        if guard(|| read(&e.bytes)).map_err(|p| format!("panic on {}: {}", what, p))?.is_ok() {
            return Err(format!("a class whose stack map has {} was accepted; frames {:?}", what, frames));
        }
        ctx.count("tables inside methods refused");
    }
    pass(true, digest)
}

fn c20(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 16) {
        frames_in_class(src, ctx)
    } else {
        frames_alone(src, ctx)
    }
}

pub static C20: Check = Check {
    id: "C20",
    quick: 10_000_000,
    thorough: 200_000_000,
    rule: "a case is one frame of any kind with boundary deltas and any verification types, read from either encoding and written, or a table of frames inside a method, or one of these with a reserved tag, an undefined verification tag, a cut or a value without a form; non-trivial: not the empty same-frame with delta 0",
    assumptions: &["labels of uninitialised types are the offsets the pool reader and writer map them to; whole-class reading discards the table, as documented"],
    level: "exploration",
    run: c20,
    hang_s: 60,
};

// ---- method handles

/// What the documentation of `MethodHandle::check` allows; None: it leaves it open.
fn valid(kind: u8, m: &MMember) -> Option<bool> {
    let (init, clinit) = (m.name.eq_str("<init>"), m.name.eq_str("<clinit>"));
    match kind {
        1..=4 if m.desc.is_method() => Some(false),
        // a field so named is not a constructor or initialiser
        1..=4 if init || clinit => None,
        1..=4 => Some(true),
        5..=9 if !m.desc.is_method() => Some(false),
        8 => Some(init),
        _ => Some(!init && !clinit),
    }
}

fn c21(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 24) {
        return handle_in_class(src, ctx);
    }
    let kind = if src.chance(1, 6) { src.u8() } else { 1 + src.below(9) as u8 };
    let method = match src.below(8) {
        0 => src.bool(),
        _ => kind >= 5,
    };
    let mut g = Gen::new(src, Focus::All);
    let mut m = if method {
        let i = g.src.bool();
        g.method_ref(i)
    } else {
        g.field_ref()
    };
    match src.below(6) {
        0 | 1 => m.name = ms("<init>"),
        2 => m.name = ms("<clinit>"),
        3 => m.name = ms(*src.pick(&["<init", "init>", "init", "clinit", "<clinit", "<INIT>", "<init>2", "<<init>", "", "<>", "<cinit>", "<clinit>x"])),
        _ => {}
    }
    let wrong_ref = src.chance(1, 24);
    checkpoint(src);
    let show = || format!("kind {} with {:?}", kind, m);
    // pool: 1 owner, 2 class, 3 name, 4 descriptor, 5 name and type, 6 member, 7 handle
    let tag = match (m.desc.is_method(), m.itf) {
        (false, _) => 9,
        (true, false) => 10,
        (true, true) => 11,
    };
    let e = [
        Raw::Utf8(m.owner.clone()),
        Raw::Class(1),
        Raw::Utf8(m.name.clone()),
        Raw::Utf8(m.desc.print()),
        Raw::Nat(3, 4),
        Raw::Ref(tag, 2, 5),
        Raw::Handle(kind, if wrong_ref { 2 } else { 6 }),
    ];
    let mut pool = (e.len() as u16 + 1).to_be_bytes().to_vec();
    e.iter().for_each(|x| raw_bytes(x, &mut pool));
    let mut cp = conv::read_pool(&pool)?;
    let known = (1..=9).contains(&kind);
    // the kind alone
    let k = MethodHandleKind::try_from(kind);
    same(&format!("kind {} known", kind), known, k.is_ok())?;
    if let Ok(k) = k {
        same("kind kept", kind, conv::unkind(k))?;
        same("kind number", kind, k as u8)?;
    }
    // the pool entry keeps kind and member
    let norm = |h: &MethodHandle| -> R<MHandle> {
        let mut x = conv::unhandle(h)?;
        if !x.member.desc.is_method() {
            x.member.itf = false;
        }
        Ok(x)
    };
    let want = if known && !wrong_ref { Some(MHandle { kind, member: m.clone() }) } else { None };
    let ok = want.is_some();
    let got = cp.read_method_handle(7).as_ref().map(norm).transpose()?;
    let legal = valid(kind, &m) == Some(true);
    // a handle whose kind and member disagree may be refused here or later
    if got != want && !(got.is_none() && ok && !legal) {
        return Err(format!("read_method_handle of {}: expected {:?}, got {:?}", show(), want, got));
    }
    let got = match cp.read_constant(7) {
        Some(Constant::MethodHandle(h)) => Some(norm(&h)?),
        Some(o) => return Err(format!("a handle was read as {:?}", o)),
        None => None,
    };
    if got != want && !(got.is_none() && ok && !legal) {
        return Err(format!("read_constant of {}: expected {:?}, got {:?}", show(), want, got));
    }
    // the handle's own form: kind byte, member index
    let at = if wrong_ref { 2u16 } else { 6 };
    let mut b = vec![kind];
    b.extend(at.to_be_bytes());
    let mut r = &b[..];
    let got = guard(|| <MethodHandle as ConstantPoolReadWrite>::read_from(&mut cp, &mut r)).map_err(|p| format!("panic: {}; {}", p, show()))?;
    let expect = if ok { valid(kind, &m) } else { Some(false) };
    match (&got, expect) {
        (_, None) => {}
        (Ok(h), Some(true)) => same(&format!("handle read, {}", show()), want.clone(), Some(norm(h)?))?,
        (Err(_), Some(false)) => ctx.count("combinations refused"),
        (Ok(h), Some(false)) => return Err(format!("{} was accepted as {:?}", show(), h)),
        (Err(e), Some(true)) => return Err(format!("{} was refused: {}", show(), e)),
    }
    // in memory
    if known {
        let h = MethodHandle { kind: conv::kind(kind), member: conv::member(&m) };
        let v = valid(kind, &m);
        if let Some(v) = v {
            same(&format!("check() accepts {}", show()), v, h.check().is_ok())?;
        }
        let mut w = LabelWrite { e: vec![], add: 0 };
        let mut o = vec![];
        let r = guard(|| h.write_to(&mut w, &mut o)).map_err(|p| format!("panic: {}; {}", p, show()))?;
        if let Some(v) = v {
            same(&format!("writing accepts {}", show()), v, r.is_ok())?;
        }
        if r.is_ok() {
            same("bytes of a handle", 3, o.len())?;
            same(&format!("kind written for {}", show()), kind, o[0])?;
            let got = written_member(&w.e, u16::from_be_bytes([o[1], o[2]]))?;
            same(&format!("member written for {}", show()), &m, &got)?;
        }
        // as a pool constant
        let mut w = LabelWrite { e: vec![], add: 0 };
        for i in [w.insert_method_handle(h.clone()), w.insert_constant(Constant::MethodHandle(h.clone()))] {
            match raw(&w.e[i as usize - 1])? {
                Raw::Handle(k, x) => {
                    same(&format!("kind of the pool entry for {}", show()), kind, k)?;
                    same(&format!("member of the pool entry for {}", show()), &m, &written_member(&w.e, x)?)?;
                }
                o => return Err(format!("{} was inserted as {:?}", show(), o)),
            }
        }
    }
    let digest = hash_bytes(format!("{}{:?}{}", kind, m, wrong_ref).as_bytes());
    Ok(Pass { nontrivial: known, digest, sample: if ctx.want_sample { Some(show()) } else { None } })
}

fn written_member(e: &[RawConstantEntry], i: u16) -> R<MMember> {
    let mut b = (e.len() as u16 + 1).to_be_bytes().to_vec();
    for x in e {
        raw_bytes(&raw(x)?, &mut b);
    }
    Pool::read_entries(&mut Rd::new(&b))?.member(i)
}

/// Handles as constants and bootstrap handles of a class: kept when right, refused when undefined.
fn handle_in_class(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let mut m = gen::minimal();
    let mut g = Gen::new(src, Focus::Dyn);
    let mut insns = vec![];
    let n = g.src.range(1, 3);
    for _ in 0..n {
        let h = g.handle();
        insns.push(match g.src.below(3) {
            0 => MI::Push(MConst::Handle(h)),
            1 => {
                let mut d = g.dynamic(true);
                d.bsm.handle = h;
                MI::InvokeDyn(d)
            }
            _ => {
                let mut d = g.dynamic(false);
                d.bsm.args.push(MConst::Handle(h));
                MI::Push(MConst::Dyn(Box::new(d)))
            }
        });
    }
    insns.push(MI::Op(177));
    let c = MCode { max_stack: 9, insns, ..MCode::default() };
    m.methods.push(gen::method_with(c));
    let seed = src.u64();
    let bad = src.chance(1, 2);
    let kind = *src.pick(&[0u8, 10, 11, 12, 15, 16, 127, 128, 200, 255]);
    checkpoint(src);
    let mut e = enc::encode(&m, seed);
    let digest = mix(super::class::digest(&m, seed), bad as u64 * (1 + kind as u64));
    if bad {
        // every handle of the pool gets the undefined kind
        let mut r = Rd::new(&e.bytes[8..]);
        let count = r.u2()?;
        let mut i = 1;
        let mut at = vec![];
        while i < count {
            let t = r.u1()?;
            i += 1;
            let l = match t {
                1 => r.u2()? as usize,
                3 | 4 => 4,
                5 | 6 => {
                    i += 1;
                    8
                }
                7 | 8 | 16 | 19 | 20 => 2,
                15 => {
                    at.push(8 + r.p);
                    3
                }
                _ => 4,
            };
            r.take(l)?;
        }
        for p in at {
            e.bytes[p] = kind;
        }
        if guard(|| read(&e.bytes)).map_err(|p| format!("panic on handle kind {}: {}", kind, p))?.is_ok() {
            return Err(format!("a class using handles of kind {} was accepted: {:?}", kind, m));
        }
        ctx.count("classes with undefined kinds refused");
    } else {
        let c = super::class::must_read(&m, &e)?;
        let b = super::write(&c).map_err(|x| format!("writing the class read fails: {}", x))?;
        let got = crate::dec::decode(&b).map_err(|x| format!("the class written is ill-formed: {}", x))?;
        let hs = |c: &MClass| -> Vec<MI> { c.codes().flat_map(|c| c.insns.clone()).collect() };
        same("instructions with handles after reading and writing", hs(&m), hs(&got))?;
        ctx.count("classes with handles read and written");
    }
    pass(true, digest)
}

pub static C21: Check = Check {
    id: "C21",
    quick: 5_000_000,
    thorough: 100_000_000,
    rule: "a case is a kind 0-255 with a field, method or interface-method member of any name (constructor, initialiser, near misses), in the pool, in its own coded form, in memory, and as constant, bootstrap handle or argument of a class; non-trivial: the kind is defined",
    assumptions: &["a field named <init> or <clinit> under a field kind is left open; whether a kind wants a class or interface method is not checked by the library and not claimed"],
    level: "exploration",
    run: c21,
    hang_s: 60,
};
