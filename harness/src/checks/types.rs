//! C11 (descriptors) and C12 (signatures).

use coffer::signature::*;
use coffer::ty::{parse_type, write_type, Type};
use coffer::ConstantPoolReadWrite;
use wtf_8::Wtf8String;

use crate::conv;
use crate::desc::*;
use crate::engine::*;
use crate::mstr::*;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {:?}, got {:?}", what, want, got))
    }
}

fn lossy(m: &MStr) -> String {
    char::decode_utf16(m.0.iter().copied()).map(|r| r.unwrap_or('\u{FFFD}')).collect()
}

// ---- C11

/// Is there an `L;` in it?  The grammar excludes empty names, the library does not look.
fn empty_name(t: &MType) -> bool {
    match t {
        MType::Prim(_) => false,
        MType::Ref(n) => n.0.is_empty(),
        MType::Array(_, t) => empty_name(t),
        MType::Method(p, r) => p.iter().any(empty_name) || r.as_ref().map_or(false, |r| empty_name(r)),
    }
}

fn big_type(src: &mut Source) -> MType {
    match src.below(10) {
        0..=3 => gen_field_type(src),
        4..=7 => gen_method_type(src),
        8 => {
            // names of arbitrary characters
            let mut n = gen_any(src, 10);
            n.0.retain(|&u| u != b';' as u16);
            if n.0.is_empty() {
                n = ms("x");
            }
            let t = MType::Ref(n);
            match src.below(3) {
                0 => t,
                1 => MType::Array(src.range(1, 255) as u8, Box::new(t)),
                _ => MType::Method(vec![t.clone(), MType::Prim('J'), t.clone()], Some(Box::new(t))),
            }
        }
        _ => {
            let n = src.range(0, 255);
            let e = gen_field_type(src);
            MType::Method((0..n).map(|i| if i % 7 == 3 { MType::Prim('D') } else { e.clone() }).collect(), None)
        }
    }
}

fn slots(t: &MType) -> bool {
    matches!(t, MType::Prim('J') | MType::Prim('D'))
}

fn mutate(src: &mut Source, s: &MStr, alphabet: &str) -> MStr {
    let mut v = s.0.clone();
    let al: Vec<u16> = alphabet.encode_utf16().collect();
    for _ in 0..src.range(1, 2) {
        match src.below(7) {
            0 => {
                let k = src.usize(v.len() + 1);
                v.truncate(k);
            }
            1 if !v.is_empty() => {
                let k = src.usize(v.len());
                v.remove(k);
            }
            2 => {
                let k = src.usize(v.len() + 1);
                v.insert(k, *src.pick(&al));
            }
            3 if !v.is_empty() => {
                let k = src.usize(v.len());
                v[k] = *src.pick(&al);
            }
            4 => {
                // trailing text
                for _ in 0..src.range(1, 3) {
                    v.push(*src.pick(&al));
                }
            }
            5 if v.len() >= 2 => {
                let k = src.usize(v.len() - 1);
                v.swap(k, k + 1);
            }
            _ if !v.is_empty() => {
                let a = src.usize(v.len());
                let b = (a + src.range(1, 4)).min(v.len());
                let part: Vec<u16> = v[a..b].to_vec();
                let k = src.usize(v.len() + 1);
                for (i, x) in part.into_iter().enumerate() {
                    v.insert(k + i, x);
                }
            }
            _ => v.push(*src.pick(&al)),
        }
    }
    MStr(v)
}

fn read_through_pool(text: &MStr) -> Result<coffer::Result<Type>, String> {
    let mut cp = conv::read_pool(&conv::utf8_pool(&[text]))?;
    Ok(<Type as ConstantPoolReadWrite>::read_from(&mut cp, &mut &[0u8, 1][..]))
}

fn c11(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.below(2) == 0 {
        let t = big_type(src);
        checkpoint(src);
        let text = t.print();
        let v = conv::ty(&t);
        // parsing
        let p = parse_type(&wtf(&text)).map_err(|e| format!("{:?} refused: {}", text, e))?;
        same(&format!("parse of {:?}", text), t.clone(), conv::unty(&p)?)?;
        same("equality with the built value", &v, &p)?;
        if text.mutf8().len() <= 65535 {
            let q = read_through_pool(&text)?.map_err(|e| format!("{:?} refused from the pool: {}", text, e))?;
            same("type read from the pool", &v, &q)?;
            let mut r = conv::Rec::default();
            let mut b = vec![];
            ConstantPoolReadWrite::write_to(&v, &mut r, &mut b).map_err(|e| format!("writing {:?}: {}", text, e))?;
            match r.e.as_slice() {
                [coffer::cp::RawConstantEntry::WTF8(x)] => same("type written to the pool", &text, &unwtf(x)?)?,
                o => return Err(format!("written pool: {:?}", o)),
            }
        }
        // printing
        same("printed type", &text, &unwtf(&Wtf8String::from(&v))?)?;
        let mut s = Wtf8String::from_borrowed("pre\u{fffd}");
        write_type(&v, &mut s);
        let mut want = ms("pre\u{fffd}");
        want.push_ms(&text);
        same("appended type", &want, &unwtf(&s)?)?;
        same("displayed type", lossy(&text), format!("{}", v))?;
        // helpers
        same("is_method", t.is_method(), v.is_method())?;
        same("is_wide", slots(&t), v.is_wide())?;
        match &t {
            MType::Method(ps, r) => {
                let (a, b) = v.as_method().ok_or("as_method of a method type is nothing")?;
                same("parameters", ps.len(), a.len())?;
                for (x, y) in ps.iter().zip(a) {
                    same("parameter", x.clone(), conv::unty(y)?)?;
                }
                same("return type", r.as_ref().map(|x| (**x).clone()), b.as_ref().map(|x| conv::unty(x)).transpose()?)?;
                same("method constructor", &v, &Type::method(a.clone(), b.clone().map(|x| *x)))?;
            }
            MType::Array(d, e) => {
                let k = src.range(0, *d as usize) as u8;
                // dimensions add up
                let inner = if k == 0 { conv::ty(e) } else { Type::array(k, conv::ty(e)) };
                if *d > k {
                    same("nested array constructor", &v, &Type::array(*d - k, inner))?;
                }
                same("as_method", true, v.as_method().is_none())?;
            }
            MType::Ref(n) => same("reference constructor", &v, &Type::reference(cow(n)))?,
            _ => {}
        }
        Ok(Pass { nontrivial: !matches!(t, MType::Prim(_)), digest: hash_bytes(&text.mutf8()), sample: ctx.want_sample.then(|| format!("{:?}", text)) })
    } else {
        let base = match src.below(4) {
            0 => MStr(vec![]),
            1 => {
                // around the dimension limit
                let mut s = MStr(vec![b'[' as u16; 250 + src.range(0, 12)]);
                s.push_str(*src.pick(&["I", "La;", "", "V", "()V"]));
                if src.chance(1, 3) {
                    let mut m = ms("(");
                    m.push_ms(&s);
                    m.push_str(")V");
                    s = m;
                }
                s
            }
            _ => big_type(src).print(),
        };
        let text = if src.chance(1, 8) { base } else { mutate(src, &base, "BCDFIJSZVL;[()/a<>.:\u{e9}X") };
        checkpoint(src);
        let want = parse_any(&text);
        let got = parse_type(&wtf(&text));
        let pooled = if text.mutf8().len() <= 65535 { Some(read_through_pool(&text)?.is_ok()) } else { None };
        if let Some(p) = pooled {
            same(&format!("parsing {:?} directly and from the pool", text), got.is_ok(), p)?;
        }
        match (&want, &got) {
            (Some(t), Ok(g)) => same(&format!("parse of {:?}", text), t.clone(), conv::unty(g)?)?,
            (None, Err(_)) => ctx.count("refused"),
            (Some(t), Err(_)) if empty_name(t) => {}
            (Some(_), Err(e)) => return Err(format!("{:?} is a descriptor but was refused: {}", text, e)),
            (None, Ok(g)) => return Err(format!("{:?} is no descriptor but was accepted as {:?}", text, g)),
        }
        Ok(Pass { nontrivial: want.is_none(), digest: hash_bytes(&text.mutf8()) ^ 1, sample: ctx.want_sample.then(|| format!("{:?} ({})", text, if want.is_some() { "valid" } else { "invalid" })) })
    }
}

pub static C11: Check = Check {
    id: "C11",
    quick: 10_000_000,
    thorough: 100_000_000,
    rule: "a case is a type of the descriptor grammar (parsed, printed, through the pool) or a mutated text classified by an independent recogniser; non-trivial: the type is not a primitive, or the text is not a descriptor",
    assumptions: &["which characters class names may contain is not checked; a descriptor with an empty class name may be accepted or refused"],
    level: "exploration",
    run: c11,
    hang_s: 60,
};

// ---- C12

fn st(m: &MStr) -> String {
    m.to_string().expect("no lone surrogates")
}
fn b_ref(r: &SRef) -> RefTypeSignature {
    match r {
        SRef::Var(n) => RefTypeSignature::TypeVariable(st(n).into()),
        SRef::Array(d, t) => RefTypeSignature::ArrayRef(*d, Box::new(b_type(t))),
        SRef::Class(c) => RefTypeSignature::ClassType(b_class(c)),
    }
}
fn b_type(t: &SType) -> TypeSignature {
    match t {
        SType::Prim('B') => TypeSignature::Byte,
        SType::Prim('C') => TypeSignature::Char,
        SType::Prim('D') => TypeSignature::Double,
        SType::Prim('F') => TypeSignature::Float,
        SType::Prim('I') => TypeSignature::Int,
        SType::Prim('J') => TypeSignature::Long,
        SType::Prim('Z') => TypeSignature::Boolean,
        SType::Prim(_) => TypeSignature::Short,
        SType::Ref(r) => TypeSignature::Ref(b_ref(r)),
    }
}
fn b_simple(s: &SSimple) -> SimpleClassTypeSignature {
    SimpleClassTypeSignature {
        name: st(&s.name).into(),
        type_arguments: s
            .args
            .iter()
            .map(|a| match a {
                SArg::Any => TypeArgument::Any,
                SArg::Exact(r) => TypeArgument::Exact(b_ref(r)),
                SArg::Extends(r) => TypeArgument::Extends(b_ref(r)),
                SArg::Super(r) => TypeArgument::Super(b_ref(r)),
            })
            .collect(),
    }
}
fn b_class(c: &SClass) -> ClassTypeSignature {
    ClassTypeSignature { package: c.package.iter().map(|p| st(p).into()).collect(), name: b_simple(&c.name), suffix: c.suffix.iter().map(b_simple).collect() }
}
fn b_params(v: &[SParam]) -> Vec<TypeParameter> {
    v.iter()
        .map(|p| TypeParameter { name: st(&p.name).into(), class_bound: p.class_bound.as_ref().map(b_ref), interface_bounds: p.itf_bounds.iter().map(b_ref).collect() })
        .collect()
}
fn b_class_sig(c: &SClassSig) -> ClassSignature {
    ClassSignature { type_parameters: b_params(&c.params), super_class: b_class(&c.sup), interfaces: c.itfs.iter().map(b_class).collect() }
}
fn b_method_sig(m: &SMethodSig) -> MethodSignature {
    MethodSignature {
        type_parameters: b_params(&m.params),
        parameters: m.args.iter().map(b_type).collect(),
        return_type: m.ret.as_ref().map(b_type),
        throws: m
            .throws
            .iter()
            .map(|t| match t {
                SThrows::Var(n) => Throws::TypeParameter(st(n).into()),
                SThrows::Class(c) => Throws::Class(b_class(c)),
            })
            .collect(),
    }
}

fn nested(src: &mut Source) -> SClass {
    // deep type arguments
    let n = src.range(1, 200);
    let mut c = SClass { package: vec![], name: SSimple { name: ms("A"), args: vec![] }, suffix: vec![] };
    for i in 0..n {
        let r = if i % 5 == 4 { SRef::Array(1, Box::new(SType::Ref(SRef::Class(c)))) } else { SRef::Class(c) };
        let a = match src.below(3) {
            0 => SArg::Exact(r),
            1 => SArg::Extends(r),
            _ => SArg::Super(r),
        };
        c = SClass { package: vec![], name: SSimple { name: ms("B"), args: vec![a] }, suffix: vec![] };
    }
    c
}

/// Reads and writes a signature as an attribute of a class (any text allowed).
fn through_class<T: ConstantPoolReadWrite>(text: &MStr) -> Result<coffer::Result<T>, String> {
    let mut cp = conv::read_pool(&conv::utf8_pool(&[text]))?;
    Ok(<T as ConstantPoolReadWrite>::read_from(&mut cp, &mut &[0u8, 1][..]))
}
fn written<T: ConstantPoolReadWrite>(t: &T) -> Result<MStr, String> {
    let mut r = conv::Rec::default();
    let mut b = vec![];
    t.write_to(&mut r, &mut b).map_err(|e| format!("writing: {}", e))?;
    match r.e.as_slice() {
        [coffer::cp::RawConstantEntry::WTF8(x)] => unwtf(x),
        o => Err(format!("written pool: {:?}", o)),
    }
}

fn c12(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let depth = src.range(0, 3);
    let which = src.below(3);
    if src.below(2) == 0 {
        let text;
        let rich;
        match which {
            0 => {
                let r = if src.chance(1, 20) { SRef::Class(nested(src)) } else { g_ref(src, depth) };
                checkpoint(src);
                text = r.text();
                rich = !matches!(r, SRef::Var(_));
                let t = st(&text);
                let f: FieldSignature = t.parse().map_err(|e| format!("field signature {:?} refused: {}", t, e))?;
                same("field signature printed", &t, &format!("{}", f))?;
                same("field signature written", &text, &written(&f)?)?;
                if text.mutf8().len() < 65536 {
                    let g = through_class::<FieldSignature>(&text)?.map_err(|e| format!("field signature {:?} refused: {}", t, e))?;
                    same("field signature read", &f, &g)?;
                }
                // its structure, seen through a method signature
                let m: MethodSignature = format!("({})V", t).parse().map_err(|e| format!("method signature ({})V refused: {}", t, e))?;
                same("structure", vec![TypeSignature::Ref(b_ref(&r))], m.parameters)?;
                same("reference printed", &t, &format!("{}", b_ref(&r)))?;
                // another text is another value
                let r2 = g_ref(src, depth);
                if let Ok(f2) = st(&r2.text()).parse::<FieldSignature>() {
                    same("equality of field signatures", r == r2, f == f2)?;
                }
            }
            1 => {
                let mut c = g_class_sig(src, depth);
                if src.chance(1, 20) {
                    c.sup = nested(src);
                }
                checkpoint(src);
                text = c.text();
                rich = !c.params.is_empty() || !c.itfs.is_empty();
                let t = st(&text);
                let f: ClassSignature = t.parse().map_err(|e| format!("class signature {:?} refused: {}", t, e))?;
                same(&format!("class signature {}", t), &b_class_sig(&c), &f)?;
                same("class signature printed", &t, &format!("{}", b_class_sig(&c)))?;
                same("class signature written", &text, &written(&f)?)?;
                if text.mutf8().len() < 65536 {
                    let g = through_class::<ClassSignature>(&text)?.map_err(|e| format!("class signature {:?} refused: {}", t, e))?;
                    same("class signature read", &f, &g)?;
                }
            }
            _ => {
                let c = g_method_sig(src, depth);
                checkpoint(src);
                text = c.text();
                rich = !c.params.is_empty() || !c.args.is_empty() || !c.throws.is_empty();
                let t = st(&text);
                let f: MethodSignature = t.parse().map_err(|e| format!("method signature {:?} refused: {}", t, e))?;
                same(&format!("method signature {}", t), &b_method_sig(&c), &f)?;
                same("method signature printed", &t, &format!("{}", b_method_sig(&c)))?;
                same("method signature written", &text, &written(&f)?)?;
                if text.mutf8().len() < 65536 {
                    let g = through_class::<MethodSignature>(&text)?.map_err(|e| format!("method signature {:?} refused: {}", t, e))?;
                    same("method signature read", &f, &g)?;
                }
            }
        }
        Ok(Pass { nontrivial: rich, digest: hash_bytes(&text.mutf8()) ^ which, sample: ctx.want_sample.then(|| format!("{:?}", text)) })
    } else {
        let base = match which {
            0 => g_ref(src, depth).text(),
            1 => g_class_sig(src, depth).text(),
            _ => g_method_sig(src, depth).text(),
        };
        let base = if which != 1 && src.chance(1, 12) {
            let mut s = ms(if which == 0 { "" } else { "(" });
            s.0.extend(std::iter::repeat(b'[' as u16).take(250 + src.range(0, 12)));
            s.push_str(*src.pick(&["I", "TT;", "La;", ""]));
            if which == 2 {
                s.push_str(")V");
            }
            s
        } else {
            base
        };
        let text = if src.chance(1, 16) {
            // a lone surrogate has no form as text of a signature: refused, not replaced
            let mut b = base.clone();
            let k = src.usize(b.0.len() + 1);
            b.0.insert(k, 0xD800 + src.below(0x800) as u16);
            b
        } else if src.chance(1, 8) {
            base
        } else {
            mutate(src, &base, "BCDFIJSZVLT;[()/a<>.:*+-^\u{e9}X")
        };
        checkpoint(src);
        let (strict, lenient, got): (Option<String>, bool, Option<String>);
        macro_rules! judge {
            ($t:ty, $parse:ident, $form:literal, $build:expr) => {{
                let pooled = through_class::<$t>(&text)?;
                let direct = match text.to_string() {
                    Some(t) => {
                        let d = t.parse::<$t>();
                        same(&format!("parsing {:?} directly and from the pool", text), d.is_ok(), pooled.is_ok())?;
                        d.ok()
                    }
                    None => pooled.ok(),
                };
                lenient = $parse(&text, true).is_some();
                strict = if text.lone_free() { $parse(&text, false).filter(|x| x.1).map(|x| format!($form, $build(&x.0))) } else { None };
                got = direct.map(|d| format!($form, d));
            }};
        }
        match which {
            0 => judge!(FieldSignature, parse_sig_field, "{}", |r: &SRef| b_ref(r)),
            1 => judge!(ClassSignature, parse_sig_class, "{:?}", |c: &SClassSig| b_class_sig(c)),
            _ => judge!(MethodSignature, parse_sig_method, "{:?}", |m: &SMethodSig| b_method_sig(m)),
        }
        let kind;
        match (&strict, &got) {
            (Some(w), Some(g)) => {
                kind = "valid";
                same(&format!("structure of {:?}", text), w, g)?;
            }
            (Some(_), None) => return Err(format!("signature {:?} was refused", text)),
            (None, Some(g)) if !text.lone_free() => return Err(format!("signature {:?} with half a character was accepted as {}", text, g)),
            (None, Some(g)) if !lenient => return Err(format!("{:?} is no signature but was accepted as {}", text, g)),
            (None, Some(_)) => kind = "odd names",
            (None, None) => {
                kind = if lenient { "odd names" } else { "refused" };
            }
        }
        ctx.count(kind);
        Ok(Pass { nontrivial: kind == "refused", digest: hash_bytes(&text.mutf8()) ^ which, sample: ctx.want_sample.then(|| format!("{:?} ({})", text, kind)) })
    }
}

pub static C12: Check = Check {
    id: "C12",
    quick: 8_000_000,
    thorough: 100_000_000,
    rule: "a case is a signature structure (printed, parsed, compared part by part, through the pool) or a mutated text classified by independent strict and lenient recognisers; non-trivial: the structure has parts, or the text is certainly no signature",
    assumptions: &["which characters names may contain, empty names and an empty <> are not checked", "a type parameter without bounds directly before one whose name starts with L or T is not claimed", "type arguments nested deeper than 256 are not claimed"],
    level: "exploration",
    run: c12,
    hang_s: 60,
};
