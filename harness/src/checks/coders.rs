//! C22 (the stand-alone coders of the public API) and C23 (values compare by content; convenience
//! constructors and queries).

use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

use coffer::annotation::*;
use coffer::code::*;
use coffer::cp::{MapCp, RawConstantEntry, VecCp};
use coffer::dynamic::{BootstrapMethod, Dynamic, OrDynamic};
use coffer::flags::*;
use coffer::helper::{self, ConstantPoolReadWriteAs, ReadWriteAs};
use coffer::loadable::{Constant, MemberRef, MethodHandleKind};
use coffer::total_floats::{TotalF32, TotalF64};
use coffer::ty::Type;
use coffer::version::{JavaVersion, MajorVersion};
use coffer::{ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter, ReadWrite};
use wtf_8::{Wtf8Str, Wtf8String};

use crate::conv;
use crate::dec::{Pool, Rd};
use crate::desc::*;
use crate::engine::*;
use crate::gen::{self, Focus, Gen};
use crate::model::*;
use crate::mstr::*;
use crate::vary;

type R<T> = Result<T, String>;
type Str = Cow<'static, Wtf8Str>;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> R<()> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {:?}, got {:?}", what, want, got))
    }
}

/// One coder: how to read and how to write a value, as seen from outside.
struct Io<'a, T> {
    what: &'a str,
    read: &'a dyn Fn(&mut &[u8]) -> coffer::Result<T>,
    write: &'a dyn Fn(&T, &mut Vec<u8>) -> coffer::Result<()>,
    /// what a value is, in comparable form
    view: &'a dyn Fn(&T) -> String,
}

fn short(b: &[u8]) -> String {
    if b.len() <= 48 {
        format!("{:02x?}", b)
    } else {
        format!("{:02x?}.. ({} bytes)", &b[..48], b.len())
    }
}

impl<'a, T> Io<'a, T> {
    /// `bytes` is the form of `value`: reading gives it and takes exactly these bytes, every
    /// proper prefix is refused.
    fn reads(&self, src: &mut Source, value: &T, bytes: &[u8]) -> R<()> {
        let mut b = bytes.to_vec();
        let tail = src.range(0, 3);
        for _ in 0..tail {
            b.push(src.u8());
        }
        let mut r = &b[..];
        match guard(|| (self.read)(&mut r)).map_err(|p| format!("{}: reading {} panics: {}", self.what, short(bytes), p))? {
            Ok(v) => {
                same(&format!("{}: value read from {}", self.what, short(bytes)), (self.view)(value), (self.view)(&v))?;
                same(&format!("{}: bytes left after reading {}", self.what, short(bytes)), tail, r.len())?;
            }
            Err(e) => return Err(format!("{}: reading {} fails: {}", self.what, short(bytes), e)),
        }
        for k in 0..bytes.len().min(24) {
            let cut = if bytes.len() <= 24 { k } else { src.usize(bytes.len()) };
            let mut r = &bytes[..cut];
            if guard(|| (self.read)(&mut r)).map_err(|p| format!("{}: reading a prefix panics: {}", self.what, p))?.is_ok() {
                return Err(format!("{}: the first {} bytes of {} were accepted", self.what, cut, short(bytes)));
            }
        }
        Ok(())
    }
    fn written(&self, value: &T) -> R<Vec<u8>> {
        let mut o = vec![];
        guard(|| (self.write)(value, &mut o))
            .map_err(|p| format!("{}: writing {} panics: {}", self.what, (self.view)(value), p))?
            .map_err(|e| format!("{}: writing {} fails: {}", self.what, (self.view)(value), e))?;
        Ok(o)
    }
    fn exact(&self, src: &mut Source, value: &T, bytes: &[u8]) -> R<()> {
        let o = self.written(value)?;
        if o != bytes {
            return Err(format!("{}: {} written as {}, expected {}", self.what, (self.view)(value), short(&o), short(bytes)));
        }
        self.reads(src, value, bytes)
    }
    fn refuses(&self, bytes: &[u8]) -> R<()> {
        let mut r = bytes;
        match guard(|| (self.read)(&mut r)).map_err(|p| format!("{}: reading {} panics: {}", self.what, short(bytes), p))? {
            Ok(v) => Err(format!("{}: {} was accepted as {}", self.what, short(bytes), (self.view)(&v))),
            Err(_) => Ok(()),
        }
    }
}

fn rw<T: ReadWrite>(what: &str, f: impl FnOnce(&Io<T>) -> R<()>, view: &dyn Fn(&T) -> String) -> R<()> {
    f(&Io { what, read: &|r| T::read_from(r), write: &|x, w| x.write_to(w), view })
}
fn rwd<T: ReadWrite + std::fmt::Debug>(what: &str, f: impl FnOnce(&Io<T>) -> R<()>) -> R<()> {
    rw::<T>(what, f, &|x| format!("{:?}", x))
}

fn numbers(src: &mut Source) -> R<()> {
    let hi = src.u64();
    let lo = src.i64() as u64;
    let x = match src.below(3) {
        0 => lo as u128,
        1 => (hi as u128) << 64 | lo as u128,
        _ => lo as i64 as i128 as u128,
    };
    macro_rules! int {
        ($($t:ty),*) => {[$(|src: &mut Source, x: u128| rwd::<$t>(stringify!($t), |io| io.exact(src, &(x as $t), &(x as $t).to_be_bytes())) as R<()>),*]};
    }
    let all: [fn(&mut Source, u128) -> R<()>; 10] = int!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128);
    let k = src.usize(14);
    let b4 = src.f32bits();
    let b8 = src.f64bits();
    match k {
        10 => rw::<f32>("f32", |io| io.exact(src, &f32::from_bits(b4), &b4.to_be_bytes()), &|x| format!("{:08x}", x.to_bits())),
        11 => rw::<f64>("f64", |io| io.exact(src, &f64::from_bits(b8), &b8.to_be_bytes()), &|x| format!("{:016x}", x.to_bits())),
        12 => rw::<TotalF32>("TotalF32", |io| io.exact(src, &TotalF32(f32::from_bits(b4)), &b4.to_be_bytes()), &|x| format!("{:08x}", x.0.to_bits())),
        13 => rw::<TotalF64>("TotalF64", |io| io.exact(src, &TotalF64(f64::from_bits(b8)), &b8.to_be_bytes()), &|x| format!("{:016x}", x.0.to_bits())),
        k => all[k](src, x),
    }
}

fn string_bytes(s: &MStr) -> Vec<u8> {
    let b = s.mutf8();
    let mut o = (b.len() as u16).to_be_bytes().to_vec();
    o.extend(b);
    o
}
fn strings(src: &mut Source) -> R<()> {
    let mut s = gen_any(src, 12);
    if src.chance(1, 60) {
        // up to and past the limit
        let n = *src.pick(&[65535usize, 65534, 65536, 65537, 131072, 255, 256, 257]);
        let have = s.mutf8().len();
        let fill = n.saturating_sub(have);
        s.0.extend(std::iter::repeat(b'x' as u16).take(fill));
    }
    let long = s.mutf8().len() > 65535;
    let b = if long { vec![] } else { string_bytes(&s) };
    macro_rules! go {
        ($t:ty, $w:expr, $v:expr) => {
            rw::<$t>(
                stringify!($t),
                |io| {
                    if long {
                        let mut o = vec![];
                        return match guard(|| (io.write)(&$w, &mut o)).map_err(|p| format!("writing a long string panics: {}", p))? {
                            Ok(()) => Err(format!("a string of {} bytes was written", s.mutf8().len())),
                            Err(_) => Ok(()),
                        };
                    }
                    io.exact(src, &$w, &b)
                },
                $v,
            )
        };
    }
    match src.below(2) {
        0 => go!(Wtf8String, wtf(&s), &|x| format!("{:?}", unwtf(x))),
        _ => go!(Str, cow(&s), &|x| format!("{:?}", unwtf(x))),
    }
}

/// Everything with a tag, a fixed set of bits or fixed fields.
fn fixed(src: &mut Source) -> R<()> {
    let bits = src.u16() ^ src.u16();
    macro_rules! flags {
        ($src:expr, $t:ty, $mask:expr) => {{
            let v = bits & $mask;
            // JVMS 4: the bits defined for this place; other bits are dropped
            let val = <$t>::from_bits(v).ok_or_else(|| format!("{}: {:04x} has undefined bits", stringify!($t), v))?;
            same(stringify!($t), $mask, <$t>::all().bits())?;
            rw::<$t>(stringify!($t), |io| {
                io.exact($src, &val, &v.to_be_bytes())?;
                io.reads($src, &val, &bits.to_be_bytes())
            }, &|x| format!("{:04x}", x.bits()))
        }};
    }
    let (a, b, c) = (src.u8(), src.u8(), src.u16());
    match src.below(15) {
        0 => flags!(src, ClassFlags, 0xF631u16),
        1 => flags!(src, FieldFlags, 0x50DFu16),
        2 => flags!(src, MethodFlags, 0x1DFFu16),
        3 => flags!(src, InnerClassFlags, 0x761Fu16),
        4 => flags!(src, MethodParameterFlags, 0x9010u16),
        5 => flags!(src, ModuleFlags, 0x9020u16),
        6 => flags!(src, RequireFlags, 0x9060u16),
        7 => flags!(src, ExOpFlags, 0x9000u16),
        8 => {
            let major = if src.chance(3, 4) { 45 + src.below(15) as u16 } else { c };
            let mut b = c.to_be_bytes().to_vec();
            b.extend(major.to_be_bytes());
            let ok = (45..=59).contains(&major);
            rwd::<MajorVersion>("MajorVersion", |io| {
                if ok {
                    io.exact(src, &conv::version(c, major).major, &major.to_be_bytes())
                } else {
                    io.refuses(&major.to_be_bytes())
                }
            })?;
            rwd::<JavaVersion>("JavaVersion", |io| if ok { io.exact(src, &conv::version(c, major), &b) } else { io.refuses(&b) })
        }
        9 => {
            let k = if src.chance(3, 4) { 1 + src.below(9) as u8 } else { a };
            let ok = (1..=9).contains(&k);
            same(&format!("MethodHandleKind::try_from({})", k), ok, MethodHandleKind::try_from(k).is_ok())?;
            rwd::<MethodHandleKind>("MethodHandleKind", |io| {
                if ok {
                    same("MethodHandleKind::try_from", conv::kind(k), MethodHandleKind::try_from(k).map_err(|_| "refused")?)?;
                    io.exact(src, &conv::kind(k), &[k])
                } else {
                    io.refuses(&[k, 0, 0])
                }
            })
        }
        10 => rwd::<LineNumber>("LineNumber", |io| {
            let mut o = c.to_be_bytes().to_vec();
            o.extend(bits.to_be_bytes());
            io.exact(src, &LineNumber(c, bits), &o)
        }),
        11 => {
            let cb = c.to_be_bytes();
            rwd::<ClassTypeAnnotationTarget>("ClassTypeAnnotationTarget", |io| match src.below(4) {
                0 => io.exact(src, &ClassTypeAnnotationTarget::GenericTypeParameter(a), &[0, a]),
                1 => io.exact(src, &ClassTypeAnnotationTarget::ExtendsImplementsClause(c), &[0x10, cb[0], cb[1]]),
                2 => io.exact(src, &ClassTypeAnnotationTarget::GenericTypeParameterBound(a, b), &[0x11, a, b]),
                _ if matches!(a, 0 | 0x10 | 0x11) => Ok(()),
                _ => io.refuses(&[a, 0, 0, 0, 0]),
            })
        }
        12 => {
            let cb = c.to_be_bytes();
            rwd::<MethodTypeAnnotationTarget>("MethodTypeAnnotationTarget", |io| match src.below(7) {
                0 => io.exact(src, &MethodTypeAnnotationTarget::GenericTypeParameter(a), &[1, a]),
                1 => io.exact(src, &MethodTypeAnnotationTarget::GenericTypeParameterBound(a, b), &[0x12, a, b]),
                2 => io.exact(src, &MethodTypeAnnotationTarget::Return, &[0x14]),
                3 => io.exact(src, &MethodTypeAnnotationTarget::Reciever, &[0x15]),
                4 => io.exact(src, &MethodTypeAnnotationTarget::FormalParameter(a), &[0x16, a]),
                5 => io.exact(src, &MethodTypeAnnotationTarget::Throws(c), &[0x17, cb[0], cb[1]]),
                _ if matches!(a, 1 | 0x12 | 0x14..=0x17) => Ok(()),
                _ => io.refuses(&[a, 0, 0, 0, 0]),
            })
        }
        13 => rwd::<FieldTarget>("FieldTarget", |io| if a == 0x13 || src.bool() { io.exact(src, &FieldTarget::Field, &[0x13]) } else { io.refuses(&[a, 0, 0]) }),
        _ => rwd::<TypePath>("TypePath", |io| match src.below(5) {
            0 => io.exact(src, &TypePath::Array(a), &[0, a]),
            1 => io.exact(src, &TypePath::Nested(a), &[1, a]),
            2 => io.exact(src, &TypePath::TypeBound(a), &[2, a]),
            3 => io.exact(src, &TypePath::TypeArgument(a), &[3, a]),
            _ if a < 4 => Ok(()),
            _ => io.refuses(&[a, 0, 0]),
        }),
    }
}

/// Lists counted by 8, 16 or 32 bits, without a pool.
fn lists(src: &mut Source, ctx: &mut Ctx) -> R<()> {
    fn go<H: ReadWriteAs<Vec<T>>, T: std::fmt::Debug>(what: &str, src: &mut Source, width: usize, max: u64, v: Vec<T>, each: &[Vec<u8>]) -> R<()> {
        let io = Io::<Vec<T>> { what, read: &|r| H::read_from(r), write: &|x, w| H::write_to(x, w), view: &|x| format!("{:?}", x) };
        if v.len() as u64 > max {
            let mut o = vec![];
            return match guard(|| H::write_to(&v, &mut o)).map_err(|p| format!("{}: panic on a long list: {}", what, p))? {
                Ok(()) => Err(format!("{}: {} entries were written", what, v.len())),
                Err(_) => Ok(()),
            };
        }
        let mut b = (v.len() as u32).to_be_bytes()[4 - width..].to_vec();
        for e in each {
            b.extend(e);
        }
        io.exact(src, &v, &b)
    }
    let w = src.below(3);
    let big = src.chance(1, 40);
    let n = if big { *src.pick(&[254usize, 255, 256, 257, 300, 65535, 65536, 65537]) } else { src.len(9) };
    if big {
        ctx.count("lists at the limit of their counter");
    }
    // long lists repeat a short run
    let run = src.range(1, 6);
    macro_rules! with {
        ($t:ty, $gen:expr, $enc:expr) => {{
            let first: Vec<$t> = (0..n.min(run)).map(|_| $gen(src)).collect();
            let v: Vec<$t> = (0..n).map(|i| first[i % run.min(n)].clone()).collect();
            let e: Vec<Vec<u8>> = v.iter().map($enc).collect();
            match w {
                0 => go::<helper::Vec8, $t>(concat!("Vec8 of ", stringify!($t)), src, 1, 255, v, &e),
                1 => go::<helper::Vec16, $t>(concat!("Vec16 of ", stringify!($t)), src, 2, 65535, v, &e),
                _ => go::<helper::Vec32, $t>(concat!("Vec32 of ", stringify!($t)), src, 4, u32::MAX as u64, v, &e),
            }
        }};
    }
    match src.below(6) {
        0 => with!(u8, |s: &mut Source| s.u8(), |x| vec![*x]),
        1 => with!(u16, |s: &mut Source| s.u16(), |x| x.to_be_bytes().to_vec()),
        2 => with!(i32, |s: &mut Source| s.i32(), |x| x.to_be_bytes().to_vec()),
        3 => with!(i64, |s: &mut Source| s.i64(), |x| x.to_be_bytes().to_vec()),
        4 if n < 300 => {
            // lists of lists
            let v: Vec<Vec<u16>> = (0..n).map(|_| (0..src.len(3)).map(|_| src.u16()).collect()).collect();
            let inner = src.bool();
            let e: Vec<Vec<u8>> = v
                .iter()
                .map(|x| {
                    let mut o = if inner { vec![x.len() as u8] } else { (x.len() as u32).to_be_bytes().to_vec() };
                    for y in x {
                        o.extend(y.to_be_bytes());
                    }
                    o
                })
                .collect();
            if inner {
                go::<helper::Vec16<helper::Vec8>, _>("Vec16 of Vec8", src, 2, 65535, v, &e)
            } else {
                go::<helper::Vec8<helper::Vec32>, _>("Vec8 of Vec32", src, 1, 255, v, &e)
            }
        }
        _ => with!(TypePath, |s: &mut Source| TypePath::TypeArgument(s.u8()), |x| match x {
            TypePath::TypeArgument(k) => vec![3, *k],
            _ => unreachable!(),
        }),
    }
}

// ---- with a pool

/// What a pool reference stands for.
#[derive(Clone, Debug, PartialEq)]
enum Item {
    Int(i32),
    Long(i64),
    Float(u32),
    Double(u64),
    Text(MStr),
    NoText,
    Nat(Option<(MStr, MType)>),
    Desc(MType),
    Const(MConst),
    Member(MMember),
    /// tag and text
    Ind(u8, MStr),
    NoInd(u8),
}
fn gen_item(src: &mut Source) -> Item {
    let text = |src: &mut Source| if src.bool() { gen_name(src) } else { gen_any(src, 8) };
    match src.below(14) {
        0 => Item::Int(src.i32()),
        1 => Item::Long(src.i64()),
        2 => Item::Float(src.f32bits()),
        3 => Item::Double(src.f64bits()),
        4 => Item::Text(text(src)),
        5 => Item::NoText,
        6 => Item::Nat(if src.chance(1, 4) {
            None
        } else {
            let n = text(src);
            Some((n, if src.bool() { gen_method_type(src) } else { gen_field_type(src) }))
        }),
        7 => Item::Desc(if src.bool() { gen_method_type(src) } else { gen_field_type(src) }),
        8 => Item::Const(Gen::new(src, Focus::Dyn).constant(false)),
        9 => {
            let mut g = Gen::new(src, Focus::Dyn);
            Item::Member(if g.src.bool() {
                g.field_ref()
            } else {
                let i = g.src.bool();
                g.method_ref(i)
            })
        }
        10 => Item::NoInd(*src.pick(&[7, 8, 19, 20])),
        _ => {
            let t = *src.pick(&[7u8, 8, 19, 20]);
            Item::Ind(t, text(src))
        }
    }
}
fn tag_text(p: &Pool, t: u8, i: u16) -> R<MStr> {
    use crate::dec::Raw;
    match (t, p.at(i)?) {
        (7, Raw::Class(x)) | (8, Raw::Str(x)) | (19, Raw::Module(x)) | (20, Raw::Package(x)) => p.utf8(*x),
        (_, e) => Err(format!("index {} is {:?}", i, e)),
    }
}
fn const_at(p: &Pool, i: u16) -> R<MConst> {
    use crate::dec::Raw;
    Ok(match p.at(i)? {
        Raw::Int(x) => MConst::Int(*x),
        Raw::Float(x) => MConst::Float(*x),
        Raw::Long(x) => MConst::Long(*x),
        Raw::Double(x) => MConst::Double(*x),
        Raw::Class(x) => MConst::Class(p.utf8(*x)?),
        Raw::Str(x) => MConst::Str(p.utf8(*x)?),
        Raw::MethodType(x) => MConst::MethodType(p.mdesc(*x)?),
        Raw::Handle(..) => MConst::Handle(p.handle(i)?),
        e => return Err(format!("index {} is {:?}", i, e)),
    })
}
/// What index `i` says, taken as the kind of `like`.
fn said(p: &Pool, like: &Item, i: u16) -> R<Item> {
    use crate::dec::Raw;
    Ok(match like {
        Item::Int(_) | Item::Long(_) | Item::Float(_) | Item::Double(_) => match p.at(i)? {
            Raw::Int(x) => Item::Int(*x),
            Raw::Long(x) => Item::Long(*x),
            Raw::Float(x) => Item::Float(*x),
            Raw::Double(x) => Item::Double(*x),
            e => return Err(format!("index {} is {:?}", i, e)),
        },
        Item::Text(_) => Item::Text(p.utf8(i)?),
        Item::NoText if i == 0 => Item::NoText,
        Item::NoText => Item::Text(p.utf8(i)?),
        Item::Nat(_) if i == 0 => Item::Nat(None),
        Item::Nat(_) => Item::Nat(Some(p.nat(i)?)),
        Item::Desc(_) => Item::Desc(p.desc(i)?),
        Item::Const(_) => Item::Const(const_at(p, i)?),
        Item::Member(_) => Item::Member(p.member(i)?),
        Item::NoInd(t) if i == 0 => Item::NoInd(*t),
        Item::Ind(t, _) | Item::NoInd(t) => Item::Ind(*t, tag_text(p, *t, i)?),
    })
}

trait As<T>: ConstantPoolReadWriteAs<T> {}
impl<T, H: ConstantPoolReadWriteAs<T>> As<T> for H {}

type Back = Box<dyn Fn(&mut MapCp, &mut &[u8]) -> coffer::Result<Item>>;
/// Writes the item with one of the coders that can; gives the matching reader.
fn write_item(src: &mut Source, it: &Item, cp: &mut VecCp, o: &mut Vec<u8>) -> R<(Back, &'static str)> {
    type C = VecCp;
    macro_rules! own {
        ($t:ty, $v:expr, $un:expr) => {{
            <$t as ConstantPoolReadWrite>::write_to(&$v, cp, o).map_err(|e| format!("writing {:?} fails: {}", it, e))?;
            let un = $un;
            (Box::new(move |c: &mut MapCp, r: &mut &[u8]| <$t as ConstantPoolReadWrite>::read_from(c, r).map(&un)) as Back, stringify!($t))
        }};
    }
    fn via<H: As<T> + 'static, T: 'static>(it: &Item, v: T, cp: &mut C, o: &mut Vec<u8>, un: impl Fn(T) -> Item + 'static) -> R<Back> {
        H::write_to(&v, cp, o).map_err(|e| format!("writing {:?} fails: {}", it, e))?;
        Ok(Box::new(move |c: &mut MapCp, r: &mut &[u8]| H::read_from(c, r).map(&un)))
    }
    let t = |x: &Wtf8Str| unwtf(x).unwrap_or_else(|e| ms(&format!("ill-formed: {}", e)));
    let alt = src.bool();
    Ok(match it.clone() {
        Item::Int(x) => own!(i32, x, Item::Int),
        Item::Long(x) => own!(i64, x, Item::Long),
        Item::Float(x) if alt => own!(f32, f32::from_bits(x), |x: f32| Item::Float(x.to_bits())),
        Item::Float(x) => own!(TotalF32, TotalF32(f32::from_bits(x)), |x: TotalF32| Item::Float(x.0.to_bits())),
        Item::Double(x) if alt => own!(f64, f64::from_bits(x), |x: f64| Item::Double(x.to_bits())),
        Item::Double(x) => own!(TotalF64, TotalF64(f64::from_bits(x)), |x: TotalF64| Item::Double(x.0.to_bits())),
        Item::Text(s) if alt => own!(Str, cow(&s), move |x: Str| Item::Text(t(&x))),
        Item::Text(s) => own!(Option<Str>, Some(cow(&s)), move |x: Option<Str>| x.map_or(Item::NoText, |x| Item::Text(t(&x)))),
        Item::NoText => own!(Option<Str>, None, move |x: Option<Str>| x.map_or(Item::NoText, |x| Item::Text(t(&x)))),
        Item::Nat(v) => own!(Option<(Str, Type)>, v.map(|(a, b)| (cow(&a), conv::ty(&b))), move |x: Option<(Str, Type)>| {
            Item::Nat(x.map(|(a, b)| (t(&a), conv::unty(&b).unwrap_or(MType::Prim('?')))))
        }),
        Item::Desc(d) => own!(Type, conv::ty(&d), |x: Type| Item::Desc(conv::unty(&x).unwrap_or(MType::Prim('?')))),
        Item::Const(c) => own!(Constant, conv::constant(&c), |x: Constant| Item::Const(conv::unconstant(&x).unwrap_or(MConst::Int(-77)))),
        Item::Member(m) => own!(MemberRef, conv::member(&m), |x: MemberRef| Item::Member({
            let mut m = conv::unmember(&x).unwrap();
            m.itf &= m.desc.is_method();
            m
        })),
        Item::Ind(tag, s) if alt => {
            let un = move |x: Str| Item::Ind(tag, t(&x));
            let b = match tag {
                7 => via::<helper::Class, Str>(it, cow(&s), cp, o, un)?,
                8 => via::<helper::String, Str>(it, cow(&s), cp, o, un)?,
                19 => via::<helper::Module, Str>(it, cow(&s), cp, o, un)?,
                _ => via::<helper::Package, Str>(it, cow(&s), cp, o, un)?,
            };
            (b, "StringCp")
        }
        Item::Ind(tag, _) | Item::NoInd(tag) => {
            let v = if let Item::Ind(_, s) = it { Some(cow(s)) } else { None };
            let un = move |x: Option<Str>| x.map_or(Item::NoInd(tag), |x| Item::Ind(tag, t(&x)));
            let b = match tag {
                7 => via::<helper::Class, Option<Str>>(it, v, cp, o, un)?,
                8 => via::<helper::String, Option<Str>>(it, v, cp, o, un)?,
                19 => via::<helper::Module, Option<Str>>(it, v, cp, o, un)?,
                _ => via::<helper::Package, Option<Str>>(it, v, cp, o, un)?,
            };
            (b, "optional StringCp")
        }
    })
}

fn pooled(src: &mut Source, ctx: &mut Ctx) -> R<()> {
    let n = src.range(1, 6);
    let mut cp = VecCp::new();
    let mut o = vec![];
    let mut backs = vec![];
    let mut items = vec![];
    for _ in 0..n {
        let it = gen_item(src);
        let at = o.len();
        let (b, what) = guard(|| write_item(src, &it, &mut cp, &mut o)).map_err(|p| format!("panic writing {:?}: {}", it, p))??;
        same(&format!("{}: bytes written for {:?}", what, it), 2, o.len() - at)?;
        backs.push((b, what));
        items.push(it);
    }
    ctx.add("pool references written and read", n as u64);
    let mut pb = vec![];
    cp.write_to(&mut pb).map_err(|e| format!("writing the pool fails: {}", e))?;
    let pool = {
        let mut r = Rd::new(&pb);
        let p = Pool::read_entries(&mut r)?;
        r.done()?;
        p
    };
    for (k, it) in items.iter().enumerate() {
        let i = u16::from_be_bytes([o[2 * k], o[2 * k + 1]]);
        let got = said(&pool, it, i).map_err(|e| format!("{}: {:?} written as index {}: {}", backs[k].1, it, i, e))?;
        same(&format!("{}: what index {} says", backs[k].1, i), it, &got)?;
    }
    let mut mc = conv::read_pool(&pb)?;
    let mut r = &o[..];
    for (k, it) in items.iter().enumerate() {
        let left = r.len();
        let got = guard(|| (backs[k].0)(&mut mc, &mut r)).map_err(|p| format!("{}: panic: {}", backs[k].1, p))?.map_err(|e| format!("{}: reading {:?} back fails: {}", backs[k].1, it, e))?;
        same(&format!("{}: read back", backs[k].1), it, &got)?;
        same(&format!("{}: bytes read", backs[k].1), 2, left - r.len())?;
        for cut in 0..2 {
            let mut s = &o[2 * k..2 * k + cut];
            if (backs[k].0)(&mut mc, &mut s).is_ok() {
                return Err(format!("{}: {} byte(s) were accepted", backs[k].1, cut));
            }
        }
    }
    // one coder reading another's index: exactly what the index says under that kind, or refused
    let i = src.usize(n);
    let j = src.usize(n);
    let idx = match src.below(6) {
        0 => 0,
        1 => pool_len(&pb),
        2 => src.u16(),
        _ => u16::from_be_bytes([o[2 * j], o[2 * j + 1]]),
    };
    let b = idx.to_be_bytes();
    let mut r = &b[..];
    let got = guard(|| (backs[i].0)(&mut mc, &mut r)).map_err(|p| format!("{}: panic at index {}: {}", backs[i].1, idx, p))?;
    // optional coders take index 0; the mandatory ones must not
    let optional = backs[i].1.starts_with("Option") || backs[i].1.starts_with("optional");
    let want = if idx == 0 && !optional { Err(String::new()) } else { said(&pool, &loosen(&items[i], optional), idx) };
    match (want, got) {
        (Ok(w), Ok(g)) => {
            // numbers come back as the kind asked for only
            if std::mem::discriminant(&w) != std::mem::discriminant(&items[i]) && matches!(items[i], Item::Int(_) | Item::Long(_) | Item::Float(_) | Item::Double(_)) {
                return Err(format!("{}: index {} says {:?} but was read as {:?}", backs[i].1, idx, w, g));
            }
            same(&format!("{}: read at index {}", backs[i].1, idx), w, g)?;
        }
        (Ok(w), Err(e)) => {
            if std::mem::discriminant(&w) == std::mem::discriminant(&loosen(&items[i], optional)) || optional {
                return Err(format!("{}: index {} says {:?} but is refused: {}", backs[i].1, idx, w, e));
            }
        }
        (Err(_), Err(_)) => ctx.count("references of another kind refused"),
        (Err(e), Ok(g)) => {
            // members as constants and descriptors of the other kind are left open
            let open = matches!(items[i], Item::Const(_)) || matches!(&items[i], Item::Member(_) | Item::Nat(_) | Item::Desc(_));
            if !open {
                return Err(format!("{}: index {} was read as {:?} ({})", backs[i].1, idx, g, e));
            }
        }
    }
    Ok(())
}
fn loosen(it: &Item, optional: bool) -> Item {
    match it {
        Item::Text(_) if optional => Item::NoText,
        Item::Ind(t, _) if optional => Item::NoInd(*t),
        it => it.clone(),
    }
}
fn pool_len(pb: &[u8]) -> u16 {
    u16::from_be_bytes([pb[0], pb[1]])
}

/// Lists of pool references with 8- and 16-bit counts.
fn pooled_lists(src: &mut Source) -> R<()> {
    let big = src.chance(1, 30);
    let n = if big { *src.pick(&[254usize, 255, 256, 257, 511, 512]) } else { src.len(7) };
    let names: Vec<MStr> = (0..n.clamp(1, 5)).map(|_| if src.bool() { gen_name(src) } else { gen_any(src, 6) }).collect();
    let v: Vec<MStr> = (0..n).map(|i| names[i % names.len()].clone()).collect();
    let vals: Vec<Str> = v.iter().map(cow).collect();
    let wide = src.bool();
    let kind = src.below(5);
    let mut cp = VecCp::new();
    let mut o = vec![];
    fn w<H: As<Vec<T>>, T>(x: &Vec<T>, cp: &mut VecCp, o: &mut Vec<u8>) -> coffer::Result<()> {
        H::write_to(x, cp, o)
    }
    use helper as h;
    let nums: Vec<u16> = v.iter().map(|s| s.0.len() as u16).collect();
    let r = guard(|| match (kind, wide) {
        (0, false) => w::<h::Vec8<h::Class>, Str>(&vals, &mut cp, &mut o),
        (0, true) => w::<h::Vec16<h::Class>, Str>(&vals, &mut cp, &mut o),
        (1, false) => w::<h::Vec8<h::Module>, Str>(&vals, &mut cp, &mut o),
        (1, true) => w::<h::Vec16<h::Module>, Str>(&vals, &mut cp, &mut o),
        (2, false) => w::<h::Vec8<h::Package>, Str>(&vals, &mut cp, &mut o),
        (2, true) => w::<h::Vec16<h::String>, Str>(&vals, &mut cp, &mut o),
        (3, false) => w::<h::Vec8, Str>(&vals, &mut cp, &mut o),
        (3, true) => w::<h::Vec16, Str>(&vals, &mut cp, &mut o),
        (_, false) => w::<h::Vec8<h::Normal>, u16>(&nums, &mut cp, &mut o),
        (_, true) => w::<h::Vec16<h::Normal>, u16>(&nums, &mut cp, &mut o),
    })
    .map_err(|p| format!("panic writing a list of {}: {}", n, p))?;
    if !wide && n > 255 {
        return match r {
            Ok(()) => Err(format!("{} entries were written under an 8-bit count", n)),
            Err(_) => Ok(()),
        };
    }
    r.map_err(|e| format!("writing a list of {} fails: {}", n, e))?;
    let hd = if wide { 2 } else { 1 };
    same("bytes of a list", hd + 2 * n, o.len())?;
    same("count of a list", n, if wide { u16::from_be_bytes([o[0], o[1]]) as usize } else { o[0] as usize })?;
    let mut pb = vec![];
    cp.write_to(&mut pb).map_err(|e| format!("writing the pool fails: {}", e))?;
    let pool = Pool::read_entries(&mut Rd::new(&pb))?;
    let tag = match (kind, wide) {
        (0, _) => 7,
        (1, _) => 19,
        (2, false) => 20,
        (2, true) => 8,
        _ => 0,
    };
    for k in 0..n {
        let i = u16::from_be_bytes([o[hd + 2 * k], o[hd + 2 * k + 1]]);
        match kind {
            0..=2 => same("entry of a list", &v[k], &tag_text(&pool, tag, i)?)?,
            3 => same("entry of a list", &v[k], &pool.utf8(i)?)?,
            _ => same("number of a list", nums[k], i)?,
        }
    }
    let mut mc = conv::read_pool(&pb)?;
    fn rd<H: As<Vec<Str>>>(c: &mut MapCp, r: &mut &[u8]) -> coffer::Result<Vec<MStr>> {
        Ok(H::read_from(c, r)?.iter().map(|s| unwtf(s).unwrap_or_else(|e| ms(&e))).collect())
    }
    fn rn<H: As<Vec<u16>>>(c: &mut MapCp, r: &mut &[u8]) -> coffer::Result<Vec<MStr>> {
        Ok(H::read_from(c, r)?.iter().map(|s| MStr(vec![*s])).collect())
    }
    let mut back = |r: &mut &[u8]| match (kind, wide) {
        (0, false) => rd::<h::Vec8<h::Class>>(&mut mc, r),
        (0, true) => rd::<h::Vec16<h::Class>>(&mut mc, r),
        (1, false) => rd::<h::Vec8<h::Module>>(&mut mc, r),
        (1, true) => rd::<h::Vec16<h::Module>>(&mut mc, r),
        (2, false) => rd::<h::Vec8<h::Package>>(&mut mc, r),
        (2, true) => rd::<h::Vec16<h::String>>(&mut mc, r),
        (3, false) => rd::<h::Vec8>(&mut mc, r),
        (3, true) => rd::<h::Vec16>(&mut mc, r),
        (_, false) => rn::<h::Vec8<h::Normal>>(&mut mc, r),
        (_, true) => rn::<h::Vec16<h::Normal>>(&mut mc, r),
    };
    let want = if kind == 4 { nums.iter().map(|x| MStr(vec![*x])).collect() } else { v };
    let mut b = o.clone();
    b.extend([1, 2, 3]);
    let mut r = &b[..];
    same("list read back", want, back(&mut r).map_err(|e| format!("reading the list back fails: {}", e))?)?;
    same("bytes left after a list", 3, r.len())?;
    for _ in 0..8 {
        let cut = src.usize(o.len());
        if back(&mut &o[..cut]).is_ok() {
            return Err(format!("the first {} of {} bytes of a list were accepted", cut, o.len()));
        }
    }
    Ok(())
}

fn c22(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let k = src.below(7);
    let name = ["numbers", "strings", "flags, versions, tags", "counted lists", "pool references", "pool references", "lists of pool references"][k as usize];
    ctx.count(name);
    match k {
        0 => numbers(src)?,
        1 => strings(src)?,
        2 => fixed(src)?,
        3 => lists(src, ctx)?,
        4 | 5 => pooled(src, ctx)?,
        _ => pooled_lists(src)?,
    }
    let digest = src.log.iter().fold(k, |a, &b| mix(a, b));
    Ok(Pass { nontrivial: k != 0, digest, sample: if ctx.want_sample { Some(format!("{}: choices {:?}", name, &src.log[..src.log.len().min(24)])) } else { None } })
}

pub static C22: Check = Check {
    id: "C22",
    quick: 8_000_000,
    thorough: 100_000_000,
    rule: "a case is one coder (a number, string, flag set, version, tagged value, counted list or pool reference, read and written outside a class) with a generated value, its exact bytes, its truncations, and indices and tags of another kind; non-trivial: not a plain number",
    assumptions: &["descriptors and members of the other kind (field against method) are left open here"],
    level: "exploration",
    run: c22,
    hang_s: 60,
};

// ---------------------------------------------------------------------------------------------
// C23

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn compare<T: PartialEq + Hash + Clone + std::fmt::Debug>(what: &str, same_model: bool, a: &T, b: &T) -> R<()> {
    for (x, y) in [(a, b), (b, a)] {
        if (x == y) != same_model || (x != y) == same_model {
            return Err(format!("{}: {:?} and {:?} compare {}", what, x, y, if x == y { "equal" } else { "different" }));
        }
    }
    if a != &a.clone() || hash(a) != hash(&a.clone()) {
        return Err(format!("{}: {:?} differs from its clone", what, a));
    }
    if same_model && hash(a) != hash(b) {
        return Err(format!("{}: equal values {:?} hash differently", what, a));
    }
    Ok(())
}

/// Lets the dynamic values of `y` share the bootstrap cells of `x` wherever these are equal, as they do
/// in a clone of `x` that was changed afterwards.
fn share(x: &[OrDynamic<Constant>], y: &mut [OrDynamic<Constant>]) -> R<()> {
    for (a, b) in x.iter().zip(y) {
        if let (OrDynamic::Dynamic(a), OrDynamic::Dynamic(b)) = (a, b) {
            share_cell(a, b)?;
        }
    }
    Ok(())
}
fn share_cell(a: &Dynamic, b: &mut Dynamic) -> R<()> {
    if conv::undynamic(a, 0)?.bsm == conv::undynamic(b, 0)?.bsm {
        b.bsm = a.bsm.clone();
    } else {
        let mut m = b.get_bsm().clone();
        share(&a.get_bsm().arguments, &mut m.arguments)?;
        *b = Dynamic::new(m, b.name.clone(), b.descriptor.clone());
    }
    Ok(())
}

/// Equality and hashing follow the content.
fn equality(src: &mut Source, ctx: &mut Ctx) -> R<bool> {
    let mut g = Gen::new(src, Focus::Dyn);
    let vary = g.src.chance(3, 4);
    let kind = g.src.below(6);
    let sharing = g.src.bool();
    macro_rules! two {
        ($what:expr, $a:expr, $vary:expr, $conv:expr) => {
            two!($what, $a, $vary, $conv, |_: &_, _: &mut _| -> R<()> { Ok(()) })
        };
        ($what:expr, $a:expr, $vary:expr, $conv:expr, $share:expr) => {{
            let a = $a;
            let b = if vary { $vary(&mut g, &a) } else { a.clone() };
            let eq = a == b;
            let (x, mut y) = ($conv(&a), $conv(&b));
            if sharing {
                $share(&x, &mut y)?;
            }
            ctx.count(if eq { "equal pairs" } else { "near-duplicates told apart" });
            compare($what, eq, &x, &y)?;
            Ok(!eq)
        }};
    }
    match kind {
        0 => two!("Constant", g.constant(false), |g: &mut Gen, a: &MConst| loop {
            let b = g.vary_const(a);
            if !matches!(b, MConst::Dyn(_)) {
                break b;
            }
        }, conv::constant),
        1 => two!("MemberRef", {
            let i = g.src.bool();
            if g.src.bool() { g.field_ref() } else { g.method_ref(i) }
        }, |g: &mut Gen, a: &MMember| g.vary_member(a, false, true), conv::member),
        2 => two!("MethodHandle", g.handle(), |g: &mut Gen, a: &MHandle| g.vary_handle(a), conv::handle),
        3 => two!("BootstrapMethod", g.bsm(), |g: &mut Gen, a: &MBsm| g.vary_bsm(a), conv::bsm, |x: &BootstrapMethod, y: &mut BootstrapMethod| share(&x.arguments, &mut y.arguments)),
        4 => two!("Dynamic", {
            let c = g.src.bool();
            g.dynamic(c)
        }, |g: &mut Gen, a: &MDyn| g.vary_dyn(a), conv::dynamic, share_cell),
        _ => two!("Type", if g.src.bool() { gen_field_type(g.src) } else { gen_method_type(g.src) }, |g: &mut Gen, a: &MType| if a.is_method() { vary::method_type(g.src, a, false) } else { vary::field_type(g.src, a) }, conv::ty),
    }
}

/// The instruction a convenience constructor builds, by what it is written as.
fn instructions(src: &mut Source, ctx: &mut Ctx) -> R<()> {
    let n = src.range(1, 4);
    let mut want = vec![];
    let mut insns = vec![];
    let target = Label(src.below(1 << 32) as u32);
    let last = n;
    for _ in 0..n {
        let ix = src.u16();
        let ty = src.below(5) as u8;
        let lt = [LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference][ty as usize];
        let od = |src: &mut Source, m: &MMember| -> OrDynamic<MemberRef> {
            let m = conv::member(m);
            if src.bool() {
                m.into()
            } else {
                OrDynamic::Static(m)
            }
        };
        let ops: [(IntOperation, u8); 12] = [
            (IntOperation::Add, 96),
            (IntOperation::Subtract, 100),
            (IntOperation::Multiply, 104),
            (IntOperation::Divide, 108),
            (IntOperation::Remainder, 112),
            (IntOperation::Negate, 116),
            (IntOperation::ShiftLeft, 120),
            (IntOperation::ShiftRight, 122),
            (IntOperation::UnsignedShiftRight, 124),
            (IntOperation::And, 126),
            (IntOperation::Or, 128),
            (IntOperation::ExclusiveOr, 130),
        ];
        let (m, i) = match src.below(16) {
            0 => {
                let r = Gen::new(src, Focus::Insn).field_ref();
                (MI::Field(178, r.clone()), Instruction::getstatic(od(src, &r)))
            }
            1 => {
                let r = Gen::new(src, Focus::Insn).method_ref(false);
                (MI::Invoke(182, r.clone()), Instruction::invokevirtual(od(src, &r)))
            }
            2 => {
                let itf = src.bool();
                let r = Gen::new(src, Focus::Insn).method_ref(itf);
                (MI::Invoke(184, r.clone()), Instruction::invokestatic(od(src, &r)))
            }
            3 => (MI::Local(true, ty, ix), Instruction::store(lt, ix)),
            4 => (MI::Local(false, ty, ix), Instruction::load(lt, ix)),
            5 => {
                let (o, b) = *src.pick(&ops);
                (MI::Op(b), Instruction::iop(o))
            }
            6 => (MI::Op(96), Instruction::iadd()),
            7 => (MI::Op(100), Instruction::isub()),
            8 => (MI::Op(112), Instruction::irem()),
            9 => (MI::Op(104), Instruction::imul()),
            10 => (MI::Op(116), Instruction::ineg()),
            11 => (MI::Jump(153, last), Instruction::ifeq(target)),
            12 => (MI::Jump(159, last), Instruction::if_icmpeq(target)),
            13 => (MI::Jump(160, last), Instruction::if_icmpne(target)),
            14 => (MI::Jump(164, last), Instruction::if_icmple(target)),
            _ => (MI::Jump(163, last), Instruction::if_icmpgt(target)),
        };
        want.push(m);
        insns.push(i);
    }
    want.push(MI::Op(177));
    insns.push(Instruction::Label(target));
    insns.push(Instruction::Return(None));
    ctx.add("instructions built by name", n as u64);
    let mut m = gen::minimal();
    m.methods.push(gen::method_with(MCode { max_stack: 9, insns: vec![MI::Op(177)], ..MCode::default() }));
    let mut c = conv::to_coffer(&m, 1)?;
    for x in &mut c.methods {
        for a in &mut x.attributes {
            if let coffer::member::MethodAttribute::Code(k) = a {
                k.code = insns.clone();
            }
        }
    }
    let b = super::write(&c).map_err(|e| format!("writing {:?} fails: {}", insns, e))?;
    let d = crate::dec::decode(&b).map_err(|e| format!("{:?} written ill-formed: {}", insns, e))?;
    let got: Vec<MI> = d.codes().flat_map(|c| c.insns.clone()).collect();
    same("instructions built by name", want, got)
}

fn small(src: &mut Source) -> R<()> {
    match src.below(10) {
        0 => {
            // Type constructors and queries
            let f = gen_field_type(src);
            let t = conv::ty(&f);
            let n = 1 + src.below(3) as u8;
            let (d, e) = match &f {
                MType::Array(d, e) => (*d as u32 + n as u32, (**e).clone()),
                f => (n as u32, f.clone()),
            };
            if d <= 255 {
                same("Type::array", MType::Array(d as u8, Box::new(e)), conv::unty(&Type::array(n, t.clone()))?)?;
            }
            same("Type::is_wide", matches!(f, MType::Prim('J') | MType::Prim('D')), t.is_wide())?;
            same("Type::is_method", false, t.is_method())?;
            same("Type::as_method", true, t.as_method().is_none())?;
            let m = gen_method_type(src);
            if let MType::Method(p, r) = &m {
                let ps: Vec<Type> = p.iter().map(conv::ty).collect();
                let x = Type::method(ps.clone(), r.as_ref().map(|r| conv::ty(r)));
                same("Type::method", &m, &conv::unty(&x)?)?;
                same("Type::is_method", true, x.is_method())?;
                same("Type::is_wide", false, x.is_wide())?;
                let (a, b) = x.as_method().ok_or("as_method gives nothing for a method type")?;
                same("Type::as_method", (&ps, r.as_ref().map(|r| conv::ty(r))), (a, b.as_deref().cloned()))?;
            }
            let s = gen_class_name(src);
            same("Type::reference", MType::Ref(s.clone()), conv::unty(&Type::reference(cow(&s)))?)?;
            same("Type::reference", MType::Ref(s.clone()), conv::unty(&Type::reference(wtf(&s)))?)
        }
        1 => {
            // array classes as class names
            let f = gen_field_type(src);
            let d = match &f {
                MType::Array(d, _) => 255 - d,
                _ => 255,
            };
            let n = 1 + src.below(d.clamp(1, 6) as u64) as u8;
            let got: Str = ClassType::Array(n, conv::ty(&f)).into();
            let mut w = MStr(vec![b'[' as u16; n as usize]);
            w.push_ms(&f.print());
            same("class name of an array type", w, unwtf(&got)?)?;
            let s = gen_class_name(src);
            let got: Str = ClassType::Object(cow(&s)).into();
            same("class name of a class", s, unwtf(&got)?)
        }
        2 => {
            let c = Gen::new(src, Focus::Dyn).constant(false);
            let k = conv::constant(&c);
            same("Constant::is_wide", matches!(c, MConst::Long(_) | MConst::Double(_)), k.is_wide())?;
            let i = src.i32();
            same("Constant::from(i32)", Constant::I32(i), Constant::from(i))?;
            let s = gen_any(src, 8);
            same("Constant::string", MConst::Str(s.clone()), conv::unconstant(&Constant::string(wtf(&s)))?)?;
            // ... and what stands for either
            let od: OrDynamic<Constant> = k.clone().into();
            same("OrDynamic::from(Constant)", OrDynamic::Static(k.clone()), od.clone())?;
            same("OrDynamic::map_static", OrDynamic::Static((1, k.clone())), od.map_static(|c| (1, c)))
        }
        3 => {
            let call = src.bool();
            let d = Gen::new(src, Focus::Dyn).dynamic(call);
            let x = Dynamic::new(conv::bsm(&d.bsm), wtf(&d.name), conv::ty(&d.desc));
            same("Dynamic::new", &d, &conv::undynamic(&x, 0)?)?;
            same("Dynamic::get_bsm", &conv::bsm(&d.bsm), x.get_bsm())?;
            let od: OrDynamic<MemberRef> = x.clone().into();
            match od.map_static(|_| ()) {
                OrDynamic::Dynamic(y) => same("OrDynamic::from(Dynamic)", &d, &conv::undynamic(&y, 0)?),
                OrDynamic::Static(_) => Err("OrDynamic::from(Dynamic) is static".into()),
            }
        }
        4 => {
            // pool entries and how many indices they take
            let e = match src.below(6) {
                0 => RawConstantEntry::Int(src.i32()),
                1 => RawConstantEntry::Float(TotalF32(f32::from_bits(src.f32bits()))),
                2 => RawConstantEntry::Long(src.i64()),
                3 => RawConstantEntry::Double(TotalF64(f64::from_bits(src.f64bits()))),
                4 => RawConstantEntry::WTF8(cow(&gen_name(src))),
                _ => RawConstantEntry::NameAndType(src.u16(), src.u16()),
            };
            let w = matches!(e, RawConstantEntry::Long(_) | RawConstantEntry::Double(_));
            same("RawConstantEntry::is_wide", w, e.is_wide())?;
            same("RawConstantEntry::size", 1 + w as u16, e.size())
        }
        5 => {
            let v = [
                VerificationType::Top,
                VerificationType::Int,
                VerificationType::Float,
                VerificationType::Double,
                VerificationType::Long,
                VerificationType::Null,
                VerificationType::UninitializedThis,
                VerificationType::Object(cow(&gen_class_name(src))),
                VerificationType::UninitializedVariable(Label(src.u16() as u32)),
            ];
            let i = src.usize(9);
            same("VerificationType::is_wide", i == 3 || i == 4, v[i].is_wide())
        }
        6 => {
            let double = src.bool();
            let f = if double { FloatType::Double } else { FloatType::Float };
            same("StackValueType::from", if double { StackValueType::Two } else { StackValueType::One }, f.into())?;
            same("LocalType::from", if double { LocalType::Double } else { LocalType::Float }, f.into())?;
            let b = src.f64bits();
            same("TotalF64 from and into f64", b, f64::from(TotalF64::from(f64::from_bits(b))).to_bits())?;
            let b = src.f32bits();
            same("TotalF32 from and into f32", b, f32::from(TotalF32::from(f32::from_bits(b))).to_bits())
        }
        7 => {
            // opcodes of conditions (JVMS 6.5), and their complements
            let all = [153u8, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 198, 199];
            let op = *src.pick(&all);
            let c = conv::cond(op);
            same("opcode of a condition", op, u8::from(c))?;
            let neg = match op {
                167 => None,
                198 | 199 => Some(397 - op as u16),
                o => Some(if o % 2 == 1 { o as u16 + 1 } else { o as u16 - 1 }),
            };
            same("complement of a condition", neg, (-c).map(|c| u8::from(c) as u16))?;
            same("complement of a condition", neg, (-&c).map(|c| u8::from(c) as u16))
        }
        8 => {
            let (minor, k) = (src.u16(), src.usize(15));
            let v = conv::version(minor, 45 + k as u16);
            same("JavaVersion::J8", conv::version(0, 52), JavaVersion::J8)?;
            let t = v.to_string();
            let release = match k {
                0 if minor <= 3 => "1.0.2",
                0 => "1.1",
                1 => "1.2",
                2 => "1.3",
                3 => "1.4",
                4 => "5.0",
                5 => "6.0",
                _ => ["7", "8", "9", "10", "11", "12", "13", "14", "15"][k - 6],
            };
            let words: Vec<&str> = t.split(|c: char| c == ' ' || c == ',').collect();
            if !words.contains(&release) || !words.contains(&minor.to_string().as_str()) {
                return Err(format!("version {}.{} is displayed as {:?}, which does not name release {}", 45 + k, minor, t, release));
            }
            Ok(())
        }
        _ => {
            let name = gen_any(src, 8);
            let n = src.len(10);
            let b: Vec<u8> = (0..n).map(|_| src.u8()).collect();
            let r = coffer::attr::RawAttribute::new(wtf(&name), b.clone());
            same("RawAttribute::new", (name.clone(), b), (unwtf(&r.name)?, r.inner.to_vec()))?;
            let to: Vec<MStr> = (0..src.len(3)).map(|_| gen_name(src)).collect();
            let fl = *src.pick(&[0u16, 0x1000, 0x8000, 0x9000]);
            let e = coffer::module::Export::new(wtf(&name), ExOpFlags::from_bits_truncate(fl), to.iter().map(cow).collect::<Vec<_>>());
            same(
                "Export::new",
                (name, fl, to),
                (unwtf(&e.package)?, e.flags.bits(), e.to.iter().map(|s| unwtf(s)).collect::<R<Vec<_>>>()?),
            )
        }
    }
}

fn c23(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let k = src.below(8);
    let (name, nt) = match k {
        0..=3 => ("equality", equality(src, ctx)?),
        4 | 5 => {
            small(src)?;
            ctx.count("constructors, conversions and queries");
            ("constructors", true)
        }
        _ => {
            instructions(src, ctx)?;
            ("instructions", true)
        }
    };
    let digest = src.log.iter().fold(k, |a, &b| mix(a, b));
    Ok(Pass { nontrivial: nt, digest, sample: if ctx.want_sample { Some(format!("{}: choices {:?}", name, &src.log[..src.log.len().min(24)])) } else { None } })
}

pub static C23: Check = Check {
    id: "C23",
    quick: 10_000_000,
    thorough: 30_000_000,
    rule: "a case is a pair of values built separately, equal or differing in one part, compared and hashed; or a value from a convenience constructor, conversion or query, against what it is named for (instructions: by the opcode written); non-trivial: the pair differs, or a constructor was used",
    assumptions: &["field references ignore the interface flag, so it is not varied on them"],
    level: "exploration",
    run: c23,
    hang_s: 60,
};
