//! C07: the constant pool, writing and reading.

use std::collections::HashMap;

use coffer::cp::{ConstEntryRef, MapCp, RawConstantEntry as RE, StrRef, VecCp};
use coffer::loadable::Constant;
use coffer::total_floats::{TotalF32, TotalF64};
use coffer::{ConstantPoolReader, ConstantPoolWriter, ReadWrite};

use crate::conv;
use crate::dec::{Pool, Raw, Rd};
use crate::desc::*;
use crate::enc::Ent;
use crate::engine::*;
use crate::gen::{Focus, Gen};
use crate::model::*;
use crate::mstr::*;

type R<T> = Result<T, String>;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> R<()> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {:?}, got {:?}", what, want, got))
    }
}

pub fn raw(e: &RE) -> R<Raw> {
    Ok(match e {
        RE::WTF8(s) => Raw::Utf8(unwtf(s)?),
        RE::Int(x) => Raw::Int(*x),
        RE::Float(x) => Raw::Float(x.0.to_bits()),
        RE::Long(x) => Raw::Long(*x),
        RE::Double(x) => Raw::Double(x.0.to_bits()),
        RE::Class(x) => Raw::Class(*x),
        RE::String(x) => Raw::Str(*x),
        RE::Field(a, b) => Raw::Ref(9, *a, *b),
        RE::Method(a, b) => Raw::Ref(10, *a, *b),
        RE::InterfaceMethod(a, b) => Raw::Ref(11, *a, *b),
        RE::NameAndType(a, b) => Raw::Nat(*a, *b),
        RE::MethodHandle(a, b) => Raw::Handle(*a, *b),
        RE::MethodType(a) => Raw::MethodType(*a),
        RE::Dynamic(a, b) => Raw::Dyn(17, *a, *b),
        RE::InvokeDynamic(a, b) => Raw::Dyn(18, *a, *b),
        RE::Module(a) => Raw::Module(*a),
        RE::Package(a) => Raw::Package(*a),
    })
}
fn unraw(r: &Raw) -> RE {
    match r {
        Raw::Hole => unreachable!(),
        Raw::Utf8(s) => RE::WTF8(cow(s)),
        Raw::Int(x) => RE::Int(*x),
        Raw::Float(x) => RE::Float(TotalF32(f32::from_bits(*x))),
        Raw::Long(x) => RE::Long(*x),
        Raw::Double(x) => RE::Double(TotalF64(f64::from_bits(*x))),
        Raw::Class(x) => RE::Class(*x),
        Raw::Str(x) => RE::String(*x),
        Raw::Ref(9, a, b) => RE::Field(*a, *b),
        Raw::Ref(10, a, b) => RE::Method(*a, *b),
        Raw::Ref(_, a, b) => RE::InterfaceMethod(*a, *b),
        Raw::Nat(a, b) => RE::NameAndType(*a, *b),
        Raw::Handle(a, b) => RE::MethodHandle(*a, *b),
        Raw::MethodType(a) => RE::MethodType(*a),
        Raw::Dyn(17, a, b) => RE::Dynamic(*a, *b),
        Raw::Dyn(_, a, b) => RE::InvokeDynamic(*a, *b),
        Raw::Module(a) => RE::Module(*a),
        Raw::Package(a) => RE::Package(*a),
    }
}
fn borrowed<'a>(r: &RE, w: &'a wtf_8::Wtf8Str) -> ConstEntryRef<'a> {
    match r {
        RE::WTF8(_) => ConstEntryRef::UTF8(StrRef(w)),
        RE::Int(x) => ConstEntryRef::Int(*x),
        RE::Float(x) => ConstEntryRef::Float(x.0),
        RE::Long(x) => ConstEntryRef::Long(*x),
        RE::Double(x) => ConstEntryRef::Double(x.0),
        RE::Class(x) => ConstEntryRef::Class(*x),
        RE::String(x) => ConstEntryRef::String(*x),
        RE::Field(a, b) => ConstEntryRef::Field(*a, *b),
        RE::Method(a, b) => ConstEntryRef::Method(*a, *b),
        RE::InterfaceMethod(a, b) => ConstEntryRef::InterfaceMethod(*a, *b),
        RE::NameAndType(a, b) => ConstEntryRef::NameAndType(*a, *b),
        RE::MethodHandle(a, b) => ConstEntryRef::MethodHandle(*a, *b),
        RE::MethodType(a) => ConstEntryRef::MethodType(*a),
        RE::Dynamic(a, b) => ConstEntryRef::Dynamic(*a, *b),
        RE::InvokeDynamic(a, b) => ConstEntryRef::InvokeDynamic(*a, *b),
        RE::Module(a) => ConstEntryRef::Module(*a),
        RE::Package(a) => ConstEntryRef::Package(*a),
    }
}
pub fn raw_bytes(r: &Raw, o: &mut Vec<u8>) {
    let u2 = |o: &mut Vec<u8>, x: u16| o.extend(x.to_be_bytes());
    match r {
        Raw::Hole => {}
        Raw::Utf8(s) => {
            let b = s.mutf8();
            o.push(1);
            u2(o, b.len() as u16);
            o.extend(b);
        }
        Raw::Int(x) => {
            o.push(3);
            o.extend(x.to_be_bytes());
        }
        Raw::Float(x) => {
            o.push(4);
            o.extend(x.to_be_bytes());
        }
        Raw::Long(x) => {
            o.push(5);
            o.extend(x.to_be_bytes());
        }
        Raw::Double(x) => {
            o.push(6);
            o.extend(x.to_be_bytes());
        }
        Raw::Class(x) | Raw::Str(x) | Raw::MethodType(x) | Raw::Module(x) | Raw::Package(x) => {
            o.push(match r {
                Raw::Class(_) => 7,
                Raw::Str(_) => 8,
                Raw::MethodType(_) => 16,
                Raw::Module(_) => 19,
                _ => 20,
            });
            u2(o, *x);
        }
        Raw::Ref(t, a, b) | Raw::Dyn(t, a, b) => {
            o.push(*t);
            u2(o, *a);
            u2(o, *b);
        }
        Raw::Nat(a, b) => {
            o.push(12);
            u2(o, *a);
            u2(o, *b);
        }
        Raw::Handle(a, b) => {
            o.push(15);
            o.push(*a);
            u2(o, *b);
        }
    }
}
fn wide(r: &Raw) -> bool {
    matches!(r, Raw::Long(_) | Raw::Double(_))
}

// ---- what an index of a pool means, by the format

/// `Err` carries a combination that the property leaves open.
enum Skip {
    No,
    Open,
}
type O<T> = Result<T, Skip>;
struct View<'a>(&'a [Raw]);
impl<'a> View<'a> {
    fn at(&self, i: u16) -> O<&Raw> {
        match self.0.get(i as usize) {
            None | Some(Raw::Hole) => Err(Skip::No),
            Some(x) => Ok(x),
        }
    }
    fn utf8(&self, i: u16) -> O<MStr> {
        match self.at(i)? {
            Raw::Utf8(s) => Ok(s.clone()),
            _ => Err(Skip::No),
        }
    }
    fn indirect(&self, tag: u8, i: u16) -> O<MStr> {
        match (tag, self.at(i)?) {
            (7, Raw::Class(x)) | (8, Raw::Str(x)) | (19, Raw::Module(x)) | (20, Raw::Package(x)) => self.utf8(*x),
            _ => Err(Skip::No),
        }
    }
    fn desc(&self, i: u16) -> O<MType> {
        let s = self.utf8(i)?;
        match parse_any(&s) {
            Some(t) => Ok(t),
            // the library is more lenient than the grammar with empty names
            None if s.0.windows(2).any(|w| w[0] == b'L' as u16 && w[1] == b';' as u16) => Err(Skip::Open),
            None => Err(Skip::No),
        }
    }
    fn nat(&self, i: u16) -> O<(MStr, MType)> {
        match self.at(i)? {
            Raw::Nat(a, b) => Ok((self.utf8(*a)?, self.desc(*b)?)),
            _ => Err(Skip::No),
        }
    }
    fn member(&self, i: u16) -> O<MMember> {
        match self.at(i)? {
            Raw::Ref(t, a, b) => {
                let owner = self.indirect(7, *a)?;
                let (name, desc) = self.nat(*b)?;
                if desc.is_method() != (*t != 9) {
                    return Err(Skip::Open);
                }
                Ok(MMember { owner, name, desc, itf: *t == 11 })
            }
            _ => Err(Skip::No),
        }
    }
    fn handle(&self, i: u16) -> O<MHandle> {
        match self.at(i)? {
            Raw::Handle(k, m) => {
                let member = self.member(*m)?;
                if !(1..=9).contains(k) {
                    return Err(Skip::No);
                }
                // which member a kind may have is another property
                Ok(MHandle { kind: *k, member })
            }
            _ => Err(Skip::No),
        }
    }
    fn constant(&self, i: u16) -> O<MConst> {
        Ok(match self.at(i)? {
            Raw::Int(x) => MConst::Int(*x),
            Raw::Float(x) => MConst::Float(*x),
            Raw::Long(x) => MConst::Long(*x),
            Raw::Double(x) => MConst::Double(*x),
            Raw::Class(x) => MConst::Class(self.utf8(*x)?),
            Raw::Str(x) => MConst::Str(self.utf8(*x)?),
            Raw::MethodType(x) => {
                let t = self.desc(*x)?;
                if !t.is_method() {
                    return Err(Skip::Open);
                }
                MConst::MethodType(t)
            }
            Raw::Handle(..) => MConst::Handle(self.handle(i)?),
            // the library has a constant for members, which the format has not
            Raw::Ref(..) => return Err(Skip::Open),
            _ => return Err(Skip::No),
        })
    }
    fn dynamic(&self, tag: u8, i: u16) -> O<(u16, MStr, MType)> {
        match self.at(i)? {
            Raw::Dyn(t, b, n) if *t == tag => {
                let (name, d) = self.nat(*n)?;
                if d.is_method() != (tag == 18) {
                    return Err(Skip::Open);
                }
                Ok((*b, name, d))
            }
            _ => Err(Skip::No),
        }
    }
}

fn cmp<T: PartialEq + std::fmt::Debug>(what: &str, i: u16, want: O<T>, got: Option<T>) -> R<()> {
    let want = match want {
        Ok(x) => Some(x),
        Err(Skip::No) => None,
        Err(Skip::Open) => return Ok(()),
    };
    if want != got {
        return Err(format!("{} at index {}: expected {:?}, got {:?}", what, i, want, got));
    }
    Ok(())
}
fn opt<T, U>(x: Option<T>, f: impl Fn(&T) -> R<U>) -> R<Option<U>> {
    x.as_ref().map(f).transpose()
}

/// Every lookup of `cp` at index `i` against the entries.
fn lookups(cp: &mut MapCp, e: &[Raw], i: u16) -> R<()> {
    let v = View(e);
    cmp("read_raw", i, v.at(i).map(|x| x.clone()), opt(cp.read_raw(i), raw)?)?;
    cmp("read_wtf8", i, v.utf8(i), opt(cp.read_wtf8(i), |s| unwtf(s))?)?;
    for t in [7u8, 8, 19, 20] {
        cmp("read_indirect_str", i, v.indirect(t, i), opt(cp.read_indirect_str(t, i), |s| unwtf(s))?)?;
    }
    cmp("read_class", i, v.indirect(7, i), opt(cp.read_class(i), |s| unwtf(s))?)?;
    cmp("read_nameandtype", i, v.nat(i), opt(cp.read_nameandtype(i), |(a, b)| Ok((unwtf(a)?, conv::unty(b)?)))?)?;
    let int = |k: fn(&Raw) -> Option<u64>| v.at(i).and_then(|x| k(x).ok_or(Skip::No));
    cmp("read_int", i, int(|x| if let Raw::Int(x) = x { Some(*x as u32 as u64) } else { None }), cp.read_int(i).map(|x| x as u32 as u64))?;
    cmp("read_long", i, int(|x| if let Raw::Long(x) = x { Some(*x as u64) } else { None }), cp.read_long(i).map(|x| x as u64))?;
    cmp("read_float", i, int(|x| if let Raw::Float(x) = x { Some(*x as u64) } else { None }), cp.read_float(i).map(|x| x.to_bits() as u64))?;
    cmp("read_double", i, int(|x| if let Raw::Double(x) = x { Some(*x) } else { None }), cp.read_double(i).map(|x| x.to_bits()))?;
    let ity = |m: &coffer::loadable::MemberRef| -> R<MMember> {
        let mut x = conv::unmember(m)?;
        if !x.desc.is_method() {
            x.itf = false;
        }
        Ok(x)
    };
    if matches!(v.member(i), Err(Skip::Open)) {
        let _ = cp.read_member(i);
    } else {
        cmp("read_member", i, v.member(i), opt(cp.read_member(i), |m| ity(m))?)?;
    }
    let hd = |h: &coffer::loadable::MethodHandle| -> R<MHandle> { Ok(MHandle { kind: conv::unkind(h.kind), member: ity(&h.member)? }) };
    if matches!(v.handle(i), Err(Skip::Open)) {
        let _ = cp.read_method_handle(i);
    } else {
        cmp("read_method_handle", i, v.handle(i), opt(cp.read_method_handle(i), |h| hd(h))?)?;
    }
    if matches!(v.constant(i), Err(Skip::Open)) {
        let _ = cp.read_constant(i);
    } else {
        let got = opt(cp.read_constant(i), |c| match c {
            Constant::MethodHandle(h) => Ok(MConst::Handle(hd(h)?)),
            c => conv::unconstant(c),
        })?;
        cmp("read_constant", i, v.constant(i), got)?;
    }
    // dynamics register their bootstrap index: observe it by resolving
    for (tag, what) in [(17u8, "read_dynamic"), (18, "read_invokedynamic")] {
        let d = if tag == 17 { cp.read_dynamic(i) } else { cp.read_invokedynamic(i) };
        let w = v.dynamic(tag, i);
        if let Err(Skip::Open) = w {
            continue;
        }
        let got = opt(d, |d| Ok((unwtf(&d.name)?, conv::unty(&d.descriptor)?)))?;
        cmp(what, i, w.map(|(_, a, b)| (a, b)), got)?;
    }
    // or-dynamic: the dynamic if there is one, otherwise the static reading
    let got = cp.read_or_dynamic(i, |c, i| c.read_int(i));
    let got = match got {
        None => None,
        Some(coffer::dynamic::OrDynamic::Static(x)) => Some(Ok(x)),
        Some(coffer::dynamic::OrDynamic::Dynamic(d)) => Some(Err(unwtf(&d.name)?)),
    };
    let want = match v.dynamic(17, i) {
        Ok((_, n, _)) => Ok(Err(n)),
        Err(Skip::Open) => Err(Skip::Open),
        Err(Skip::No) => match v.at(i) {
            Ok(Raw::Int(x)) => Ok(Ok(*x)),
            _ => Err(Skip::No),
        },
    };
    cmp("read_or_dynamic", i, want, got)
}

// ---- generation

struct Names {
    pool: Vec<MStr>,
}
fn text(src: &mut Source, n: &mut Names) -> MStr {
    if !n.pool.is_empty() && src.chance(1, 2) {
        let i = src.usize(n.pool.len());
        return n.pool[i].clone();
    }
    let s = match src.below(8) {
        0 | 1 => gen_name(src),
        2 => gen_class_name(src),
        3 | 4 => gen_field_type(src).print(),
        5 => gen_method_type(src).print(),
        6 => gen_any(src, 10),
        _ => ms(*src.pick(&["", "V", "[", "()", "L", "La", "II", "(I", "()VV", "[V", "Q", "<init>"])),
    };
    n.pool.push(s.clone());
    s
}

fn gen_raw(src: &mut Source, n: &mut Names, size: u16) -> Raw {
    let idx = |src: &mut Source| match src.below(12) {
        0 => src.u16(),
        1 => size.wrapping_add(src.below(3) as u16),
        2 => 0,
        _ => 1 + src.below(size.max(2) as u64 - 1) as u16,
    };
    match src.below(18) {
        0..=3 => Raw::Utf8(text(src, n)),
        4 => Raw::Int(src.i32()),
        5 => Raw::Float(src.f32bits()),
        6 => Raw::Long(src.i64()),
        7 => Raw::Double(src.f64bits()),
        8 => Raw::Class(idx(src)),
        9 => Raw::Str(idx(src)),
        10 => Raw::Ref(9 + src.below(3) as u8, idx(src), idx(src)),
        11 => Raw::Ref(10, idx(src), idx(src)),
        12 => Raw::Nat(idx(src), idx(src)),
        13 => Raw::Handle(if src.chance(1, 4) { src.u8() } else { 1 + src.below(9) as u8 }, idx(src)),
        14 => Raw::MethodType(idx(src)),
        15 => {
            let t = 17 + src.below(2) as u8;
            let b = src.u16();
            Raw::Dyn(t, b, idx(src))
        }
        16 => Raw::Module(idx(src)),
        _ => Raw::Package(idx(src)),
    }
}

/// Points the references of an entry at entries of the kind they need, where there are any.
fn straighten(src: &mut Source, e: &mut [Raw]) {
    let kinds = |e: &[Raw], f: &dyn Fn(&Raw) -> bool| -> Vec<u16> { (1..e.len()).filter(|&i| f(&e[i])).map(|i| i as u16).collect() };
    let u: Vec<u16> = kinds(e, &|x| matches!(x, Raw::Utf8(_)));
    let dm: Vec<u16> = kinds(e, &|x| matches!(x, Raw::Utf8(s) if parse_method(s).is_some()));
    let df: Vec<u16> = kinds(e, &|x| matches!(x, Raw::Utf8(s) if parse_field(s).is_some()));
    let cl = kinds(e, &|x| matches!(x, Raw::Class(_)));
    let one = |src: &mut Source, v: &Vec<u16>, x: &mut u16| {
        if !v.is_empty() && src.chance(7, 8) {
            *x = *src.pick(v);
        }
    };
    for i in 1..e.len() {
        match &mut e[i] {
            Raw::Class(x) | Raw::Str(x) | Raw::Module(x) | Raw::Package(x) => one(src, &u, x),
            Raw::MethodType(x) => one(src, &dm, x),
            Raw::Nat(a, b) => {
                one(src, &u, a);
                let d = if src.bool() { &dm } else { &df };
                one(src, d, b);
            }
            _ => {}
        }
    }
    let nat = |e: &[Raw], m: bool| -> Vec<u16> {
        let v = View(e);
        (1..e.len() as u16).filter(|&i| matches!(v.nat(i), Ok((_, d)) if d.is_method() == m)).collect()
    };
    let (nm, nf) = (nat(e, true), nat(e, false));
    for i in 1..e.len() {
        match &mut e[i] {
            Raw::Ref(t, a, b) => {
                one(src, &cl, a);
                one(src, if *t == 9 { &nf } else { &nm }, b);
            }
            Raw::Dyn(t, _, b) => one(src, if *t == 17 { &nf } else { &nm }, b),
            _ => {}
        }
    }
    let refs = kinds(e, &|x| matches!(x, Raw::Ref(..)));
    for i in 1..e.len() {
        if let Raw::Handle(_, m) = &mut e[i] {
            one(src, &refs, m);
        }
    }
}

fn reader(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let big = src.chance(1, 600);
    let n = if big { src.range(3, 40) } else { src.range(1, 24) };
    let mut names = Names { pool: vec![] };
    let mut e = vec![Raw::Hole];
    let guess = n as u16 + 4;
    for _ in 0..n {
        let x = gen_raw(src, &mut names, guess);
        let w = wide(&x);
        e.push(x);
        if w {
            e.push(Raw::Hole);
        }
    }
    straighten(src, &mut e);
    let mut interesting: Vec<u16> = (0..e.len() as u16 + 3).collect();
    if big {
        // fill to the end with integers, possibly ending in a wide entry
        let seed = src.u64();
        let mut r = Rng::new(seed);
        let endwide = src.bool();
        let total = *src.pick(&[65535usize, 65534, 65533, 32768, 32770]);
        while e.len() < total - if endwide { 2 } else { 0 } {
            if e.len() % 7 == 0 && e.len() + 2 < total - 2 {
                e.push(Raw::Long(r.next() as i64));
                e.push(Raw::Hole);
            } else {
                e.push(Raw::Int(r.next() as i32));
            }
        }
        if endwide {
            e.push(Raw::Double(r.next()));
            e.push(Raw::Hole);
        }
        interesting.extend((e.len().saturating_sub(6) as u16)..=65535u16);
        interesting.extend((0..60).map(|_| r.next() as u16));
        ctx.count("large pools");
    }
    interesting.push(65535);
    interesting.push(32768);
    let mut b = (e.len() as u16).to_be_bytes().to_vec();
    let mut tags = vec![];
    for x in &e {
        if !matches!(x, Raw::Hole) {
            tags.push(b.len());
        }
        raw_bytes(x, &mut b);
    }
    let body = b.len();
    // something after the pool must be left alone
    let tail = src.len(5);
    for i in 0..tail {
        b.push(0xA0 + i as u8);
    }
    let fault = src.below(12);
    let which = *src.pick(&tags);
    let bad = *src.pick(&[0u8, 2, 13, 14, 21, 22, 64, 127, 128, 254, 255]);
    let cut = src.usize(body);
    checkpoint(src);
    let d = hash_bytes(&b);
    match fault {
        0 => {
            b[which] = bad;
            let mut r = &b[..];
            if guard(|| <MapCp as ReadWrite>::read_from(&mut r)).map_err(|p| format!("panic on tag {}: {}", bad, p))?.is_ok() {
                return Err(format!("a pool with tag {} at byte {} was accepted; pool {:?}", bad, which, short(&e)));
            }
            ctx.count("undefined tags refused");
            return pass(true, mix(d, bad as u64));
        }
        1 => {
            let mut r = &b[..cut];
            if guard(|| <MapCp as ReadWrite>::read_from(&mut r)).map_err(|p| format!("panic on a cut pool: {}", p))?.is_ok() {
                return Err(format!("a pool cut to {} of {} bytes was accepted; pool {:?}", cut, body, short(&e)));
            }
            ctx.count("cut pools refused");
            return pass(true, mix(d, cut as u64));
        }
        _ => {}
    }
    let mut r = &b[..];
    let mut cp = guard(|| <MapCp as ReadWrite>::read_from(&mut r))
        .map_err(|p| format!("panic reading a pool: {}", p))?
        .map_err(|x| format!("a pool was refused ({}): {:?}", x, short(&e)))?;
    same("bytes consumed by the pool", body, b.len() - r.len())?;
    same("number of entries", tags.len(), cp.entries.len())?;
    let mut found = 0u64;
    for &i in &interesting {
        guard(|| lookups(&mut cp, &e, i)).map_err(|p| format!("panic looking up {}: {}", i, p)).and_then(|x| x).map_err(|m| format!("{}; pool {:?}", m, short(&e)))?;
        found += View(&e).at(i).is_ok() as u64;
    }
    ctx.add("indices looked up", interesting.len() as u64);
    // the raw entries in both directions, owned and borrowed
    for x in e.iter().take(30) {
        if let Raw::Hole = x {
            continue;
        }
        let mut want = vec![];
        raw_bytes(x, &mut want);
        let re = unraw(x);
        let mut got = vec![];
        re.write_to(&mut got).map_err(|e| format!("entry refused: {}", e))?;
        same(&format!("bytes of entry {:?}", x), &want, &got)?;
        let w = match &re {
            RE::WTF8(s) => s.clone().into_owned(),
            _ => wtf(&ms("")),
        };
        let mut got = vec![];
        borrowed(&re, &w).write_to(&mut got).map_err(|e| format!("borrowed entry refused: {}", e))?;
        same(&format!("bytes of borrowed entry {:?}", x), &want, &got)?;
        same("size of an entry", 1 + wide(x) as u16, re.size())?;
        same("is_wide", wide(x), re.is_wide())?;
    }
    Ok(Pass { nontrivial: found >= 2, digest: d, sample: if ctx.want_sample { Some(format!("reader: {:?}", short(&e))) } else { None } })
}

fn short(e: &[Raw]) -> Vec<Raw> {
    e.iter().take(40).cloned().collect()
}

// ---- writer histories

#[derive(Clone, Debug)]
enum Op {
    Raw(Raw),
    Utf8(MStr),
    Ind(u8, MStr),
    Class(MStr),
    Package(MStr),
    Nat(MStr, MStr),
    Int(i32),
    Float(u32),
    Long(i64),
    Double(u64),
    Const(MConst),
    Member(MMember),
    ConstMember(MMember),
    Handle(MHandle),
    Dynamic(MDyn),
    OrDyn(MConst),
    Bsm(MBsm),
}

fn member_ent(m: &MMember) -> Ent {
    let tag = match (m.desc.is_method(), m.itf) {
        (false, _) => 9,
        (true, false) => 10,
        (true, true) => 11,
    };
    Ent::Ref(tag, m.owner.clone(), m.name.clone(), m.desc.print())
}
fn const_ent(c: &MConst, dynamic: &mut dyn FnMut(&MDyn) -> Ent) -> Ent {
    match c {
        MConst::Int(x) => Ent::Int(*x),
        MConst::Float(x) => Ent::Float(*x),
        MConst::Long(x) => Ent::Long(*x),
        MConst::Double(x) => Ent::Double(*x),
        MConst::Str(x) => Ent::Str(x.clone()),
        MConst::Class(x) => Ent::Class(x.clone()),
        MConst::MethodType(t) => Ent::MethodType(t.print()),
        MConst::Handle(h) => Ent::Handle(h.kind, Box::new(member_ent(&h.member))),
        MConst::Dyn(d) => dynamic(d),
    }
}

/// The entry an index of the emitted pool denotes, with everything it refers to.
fn resolve(e: &[Raw], i: u16) -> R<Ent> {
    let at = |i: u16| match e.get(i as usize) {
        None | Some(Raw::Hole) => Err(format!("index {} is not an entry", i)),
        Some(x) => Ok(x),
    };
    let utf8 = |i: u16| match at(i)? {
        Raw::Utf8(s) => Ok(s.clone()),
        o => Err(format!("index {} should be text, is {:?}", i, o)),
    };
    let nat = |i: u16| match at(i)? {
        Raw::Nat(a, b) => Ok((utf8(*a)?, utf8(*b)?)),
        o => Err(format!("index {} should be a name and type, is {:?}", i, o)),
    };
    Ok(match at(i)? {
        Raw::Hole => unreachable!(),
        Raw::Utf8(s) => Ent::Utf8(s.clone()),
        Raw::Int(x) => Ent::Int(*x),
        Raw::Float(x) => Ent::Float(*x),
        Raw::Long(x) => Ent::Long(*x),
        Raw::Double(x) => Ent::Double(*x),
        Raw::Class(x) => Ent::Class(utf8(*x)?),
        Raw::Str(x) => Ent::Str(utf8(*x)?),
        Raw::Ref(t, a, b) => {
            let c = match at(*a)? {
                Raw::Class(x) => utf8(*x)?,
                o => return Err(format!("index {} should be a class, is {:?}", a, o)),
            };
            let (n, d) = nat(*b)?;
            Ent::Ref(*t, c, n, d)
        }
        Raw::Nat(a, b) => Ent::Nat(utf8(*a)?, utf8(*b)?),
        Raw::Handle(k, m) => Ent::Handle(*k, Box::new(resolve(e, *m)?)),
        Raw::MethodType(x) => Ent::MethodType(utf8(*x)?),
        Raw::Dyn(t, b, n) => {
            let (n, d) = nat(*n)?;
            Ent::Dyn(*t, *b, n, d)
        }
        Raw::Module(x) => Ent::Module(utf8(*x)?),
        Raw::Package(x) => Ent::Package(utf8(*x)?),
    })
}

fn gen_op(src: &mut Source, names: &mut Names, consts: &mut Vec<MConst>, bsms: &mut Vec<MBsm>) -> Op {
    let pooled_const = |src: &mut Source, v: &mut Vec<MConst>, bsms: &Vec<MBsm>, dy: bool| {
        if !v.is_empty() && src.chance(1, 3) {
            let c = src.pick(v).clone();
            if dy || !matches!(c, MConst::Dyn(_)) {
                return c;
            }
        }
        let mut g = Gen::new(src, Focus::Dyn);
        g.bsms = if dy { bsms.clone() } else { vec![] };
        let c = g.constant(dy);
        v.push(c.clone());
        c
    };
    match src.below(20) {
        0 => {
            let s = names.pool.len() as u16 + 8;
            Op::Raw(gen_raw(src, names, s))
        }
        1 | 2 => Op::Utf8(text(src, names)),
        3 | 4 => {
            let t = *src.pick(&[7u8, 8, 19, 20]);
            Op::Ind(t, text(src, names))
        }
        5 => Op::Class(text(src, names)),
        6 => Op::Package(text(src, names)),
        7 => Op::Nat(text(src, names), text(src, names)),
        8 => Op::Int(src.i32()),
        9 => Op::Float(src.f32bits()),
        10 => Op::Long(src.i64()),
        11 => Op::Double(src.f64bits()),
        12 | 13 => Op::Const(pooled_const(src, consts, bsms, false)),
        14 => {
            let m = src.bool();
            let mut g = Gen::new(src, Focus::Dyn);
            let r = if m {
                let i = g.src.bool();
                g.method_ref(i)
            } else {
                g.field_ref()
            };
            if src.chance(1, 3) {
                Op::ConstMember(r)
            } else {
                Op::Member(r)
            }
        }
        15 => Op::Handle(Gen::new(src, Focus::Dyn).handle()),
        16 | 17 => {
            let i = src.bool();
            let mut g = Gen::new(src, Focus::Dyn);
            g.bsms = bsms.clone();
            Op::Dynamic(g.dynamic(i))
        }
        18 => Op::OrDyn(pooled_const(src, consts, bsms, true)),
        _ => {
            let mut g = Gen::new(src, Focus::Dyn);
            g.bsms = bsms.clone();
            let b = g.bsm();
            bsms.push(b.clone());
            Op::Bsm(b)
        }
    }
}

/// Entries that two operations share must share indices: what is known about one index.
#[derive(Clone, Debug, PartialEq)]
enum Known {
    Raw(Raw),
    Ent(Ent),
}

fn writer(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let big = src.chance(1, 600);
    let n = src.range(1, 30);
    let mut names = Names { pool: vec![] };
    let (mut consts, mut bsms) = (vec![], vec![]);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        if !ops.is_empty() && src.chance(1, 5) {
            let i = src.usize(ops.len());
            let o = ops[i].clone();
            ops.push(o);
            continue;
        }
        let o = gen_op(src, &mut names, &mut consts, &mut bsms);
        ops.push(o);
    }
    let fill = if big { src.range(20000, 65000) } else { 0 };
    let fill_at = src.usize(ops.len());
    let tail = src.len(4);
    let plain = src.bool();
    checkpoint(src);
    let digest = hash_bytes(format!("{:?}{}", ops, fill).as_bytes());
    let show = || format!("operations {:?}", ops);

    let mut cp = if plain { VecCp::new() } else { VecCp::default() };
    let mut know: Vec<(u16, Known)> = vec![];
    let mut bidx: HashMap<MBsm, u16> = HashMap::new();
    for (k, o) in ops.iter().enumerate() {
        if big && k == fill_at {
            for j in 0..fill {
                let i = cp.insert_int(j as i32 * 3 + 100_000);
                if j % 999 == 0 {
                    know.push((i, Known::Ent(Ent::Int(j as i32 * 3 + 100_000))));
                }
            }
        }
        // the bootstrap index of a dynamic is learnt by inserting its bootstrap method beforehand,
        // half of the time, and afterwards otherwise: both must agree with the entry
        let dynent = |cp: &mut VecCp, d: &MDyn| {
            let i = cp.insert_bsm(conv::bsm(&d.bsm));
            (i, Ent::Dyn(if d.desc.is_method() { 18 } else { 17 }, i, d.name.clone(), d.desc.print()))
        };
        let before = k % 2 == 0;
        let mut note = |i: u16, b: &MBsm| -> R<()> {
            if let Some(&j) = bidx.get(b) {
                return same("index of a bootstrap method inserted before", j, i);
            }
            if let Some((o, _)) = bidx.iter().find(|(_, j)| **j == i) {
                return Err(format!("bootstrap methods {:?} and {:?} share index {}", o, b, i));
            }
            bidx.insert(b.clone(), i);
            Ok(())
        };
        let r: R<Option<(u16, Known)>> = guard(|| {
            Ok(Some(match o {
                Op::Raw(x) => (cp.insert_raw(unraw(x)), Known::Raw(x.clone())),
                Op::Utf8(s) => (cp.insert_wtf8(cow(s)), Known::Ent(Ent::Utf8(s.clone()))),
                Op::Ind(t, s) => (
                    cp.insert_indirect_str(*t, cow(s)),
                    Known::Ent(match t {
                        7 => Ent::Class(s.clone()),
                        8 => Ent::Str(s.clone()),
                        19 => Ent::Module(s.clone()),
                        _ => Ent::Package(s.clone()),
                    }),
                ),
                Op::Class(s) => (cp.insert_class(cow(s)), Known::Ent(Ent::Class(s.clone()))),
                Op::Package(s) => (cp.insert_package(cow(s)), Known::Ent(Ent::Package(s.clone()))),
                Op::Nat(a, b) => (cp.insert_nameandtype(cow(a), cow(b)), Known::Ent(Ent::Nat(a.clone(), b.clone()))),
                Op::Int(x) => (cp.insert_int(*x), Known::Ent(Ent::Int(*x))),
                Op::Float(x) => (cp.insert_float(f32::from_bits(*x)), Known::Ent(Ent::Float(*x))),
                Op::Long(x) => (cp.insert_long(*x), Known::Ent(Ent::Long(*x))),
                Op::Double(x) => (cp.insert_double(f64::from_bits(*x)), Known::Ent(Ent::Double(*x))),
                Op::Const(c) => (cp.insert_constant(conv::constant(c)), Known::Ent(const_ent(c, &mut |_| unreachable!()))),
                Op::Member(m) => (cp.insert_member(conv::member(m)), Known::Ent(member_ent(m))),
                Op::ConstMember(m) => (cp.insert_constant(Constant::Member(conv::member(m))), Known::Ent(member_ent(m))),
                Op::Handle(h) => (
                    cp.insert_method_handle(conv::handle(h)),
                    Known::Ent(Ent::Handle(h.kind, Box::new(member_ent(&h.member)))),
                ),
                Op::Dynamic(d) => {
                    if before {
                        let (b, e) = dynent(&mut cp, d);
                        note(b, &d.bsm)?;
                        (cp.insert_dynamic(conv::dynamic(d)), Known::Ent(e))
                    } else {
                        let i = cp.insert_dynamic(conv::dynamic(d));
                        let (b, e) = dynent(&mut cp, d);
                        note(b, &d.bsm)?;
                        (i, Known::Ent(e))
                    }
                }
                Op::OrDyn(c) => {
                    let i = cp.insert_ordynamic(conv::od(c), |c, x| c.insert_constant(x));
                    let e = match c {
                        MConst::Dyn(d) => {
                            let (b, e) = dynent(&mut cp, d);
                            note(b, &d.bsm)?;
                            e
                        }
                        c => const_ent(c, &mut |_| unreachable!()),
                    };
                    (i, Known::Ent(e))
                }
                Op::Bsm(b) => {
                    let i = cp.insert_bsm(conv::bsm(b));
                    note(i, b)?;
                    return Ok(None);
                }
            }))
        })
        .map_err(|p| format!("panic: {}", p))
        .and_then(|x| x);
        match r {
            Ok(Some(x)) => know.push(x),
            Ok(None) => {}
            Err(m) => return Err(format!("operation {} ({:?}): {}; {}", k, o, m, show())),
        }
    }
    let mut b = vec![];
    guard(|| cp.write_to(&mut b)).map_err(|p| format!("panic: {}; {}", p, show()))?.map_err(|e| format!("writing the pool: {}; {}", e, show()))?;
    let pool_len = b.len();
    let mut rd = Rd::new(&b);
    let e = Pool::read_entries(&mut rd).and_then(|p| rd.done().map(|_| p)).map_err(|m| format!("the written pool is ill-formed: {}; {}", m, show()))?.e;
    // no two equal entries
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    for (i, x) in e.iter().enumerate() {
        if let Raw::Hole = x {
            continue;
        }
        let mut k = vec![];
        raw_bytes(x, &mut k);
        if let Some(j) = seen.insert(k, i) {
            return Err(format!("entries {} and {} are both {:?}; {}", j, i, x, show()));
        }
    }
    for (i, k) in &know {
        let got = match k {
            Known::Raw(_) => match e.get(*i as usize) {
                None | Some(Raw::Hole) => Err(format!("index {} is not an entry", i)),
                Some(x) => Ok(Known::Raw(x.clone())),
            },
            Known::Ent(_) => resolve(&e, *i).map(Known::Ent),
        }
        .map_err(|m| format!("inserted {:?} at {}: {}; {}", k, i, m, show()))?;
        if got != *k {
            return Err(format!("at the index {} returned for {:?} the pool has {:?}; {}", i, k, got, show()));
        }
    }
    for a in &know {
        for c in &know {
            if (a.0 == c.0) != (a.1 == c.1) {
                if let (Known::Raw(_), Known::Ent(_)) | (Known::Ent(_), Known::Raw(_)) = (&a.1, &c.1) {
                    continue; // the same entry under two descriptions
                }
                return Err(format!("{:?} has index {} and {:?} has index {}; {}", a.1, a.0, c.1, c.0, show()));
            }
        }
    }
    // and the library reads its own pool
    b.extend(std::iter::repeat(0xEE).take(tail));
    let mut r = &b[..];
    let mut m = guard(|| <MapCp as ReadWrite>::read_from(&mut r))
        .map_err(|p| format!("panic: {}; {}", p, show()))?
        .map_err(|e| format!("reading the written pool: {}; {}", e, show()))?;
    same("bytes consumed by the pool", pool_len, b.len() - r.len())?;
    let upto = if big { 80 } else { e.len() as u16 + 2 };
    for i in (0..upto).chain(know.iter().map(|k| k.0)) {
        guard(|| lookups(&mut m, &e, i)).map_err(|p| format!("panic: {}", p)).and_then(|x| x).map_err(|x| format!("{}; {}", x, show()))?;
    }
    ctx.add("insertions", ops.len() as u64);
    if big {
        ctx.count("large pools");
    }
    let shared = (0..know.len()).any(|i| (0..i).any(|j| know[i].0 == know[j].0));
    Ok(Pass { nontrivial: shared || know.len() >= 3, digest, sample: if ctx.want_sample { Some(format!("writer: {:?}", ops)) } else { None } })
}

fn c07(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.bool() {
        writer(src, ctx)
    } else {
        reader(src, ctx)
    }
}

pub static C07: Check = Check {
    id: "C07",
    quick: 1_500_000,
    thorough: 40_000_000,
    rule: "a case is a history of insertions of every kind with repeats, whose emitted pool is parsed independently and looked up at every index, or a random pool (right, dangling, wrong-kind, wide, nearly full, cut, bad tag) looked up at every index by every accessor; non-trivial: two entries or a shared one",
    assumptions: &[
        "open by the property: references whose descriptor is of the other kind than their tag, and members read as loadable constants",
    ],
    level: "exploration",
    run: c07,
    hang_s: 60,
};
