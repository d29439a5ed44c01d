//! C18: in-memory values with no class-file form.

use std::borrow::Cow;
use std::collections::{HashMap, HashSet};

use coffer::annotation::{CodeTypeAnnotation, CodeTypeAnnotationTarget as T, LocalVarTarget};
use coffer::clazz::Class;
use coffer::code::{Catch, ClassType, Code, CodeAttribute, Instruction, Label, LocalVariable};
use coffer::dynamic::{BootstrapMethod, Dynamic, OrDynamic};
use coffer::loadable::{Constant, MethodHandle};
use coffer::member::{MemberRef, MethodAttribute};
use coffer::ty::Type;
use wtf_8::Wtf8Str;

use super::write;
use crate::conv;
use crate::dec;
use crate::engine::*;
use crate::gen::{self, Focus, Gen};
use crate::mstr::*;

fn codes(c: &mut Class) -> Vec<&mut Code> {
    c.methods
        .iter_mut()
        .flat_map(|m| m.attributes.iter_mut())
        .filter_map(|a| match a {
            MethodAttribute::Code(c) => Some(c),
            _ => None,
        })
        .collect()
}

fn placed(c: &Code) -> HashSet<Label> {
    c.code.iter().filter_map(|i| if let Instruction::Label(l) = i { Some(*l) } else { None }).collect()
}
fn referenced(c: &Code) -> HashSet<Label> {
    let mut s = HashSet::new();
    for i in &c.code {
        match i {
            Instruction::Jump(_, l) | Instruction::Jsr(l) => {
                s.insert(*l);
            }
            Instruction::TableSwitch { default, offsets, .. } => {
                s.insert(*default);
                s.extend(offsets.iter().copied());
            }
            Instruction::LookupSwitch { default, table } => {
                s.insert(*default);
                s.extend(table.values().copied());
            }
            _ => {}
        }
    }
    for c in &c.catches {
        s.extend([c.start, c.end, c.handler]);
    }
    for a in &c.attrs {
        if let CodeAttribute::LocalVariables(v) = a {
            v.iter().for_each(|x| s.extend([x.start, x.end]));
        }
    }
    s
}
/// a label that is nowhere in the code
fn missing(src: &mut Source, used: &HashSet<Label>) -> Label {
    let mut x = match src.below(3) {
        0 => src.below(8) as u32,
        1 => src.below(1 << 32) as u32,
        _ => used.iter().map(|l| l.0).max().unwrap_or(0).wrapping_add(1),
    };
    while used.contains(&Label(x)) {
        x = x.wrapping_add(1);
    }
    Label(x)
}
/// two new labels around all of the code
fn around(src: &mut Source, c: &mut Code) -> (Label, Label) {
    let mut used = placed(c);
    let a = missing(src, &used);
    used.insert(a);
    let b = missing(src, &used);
    c.code.insert(0, Instruction::Label(a));
    c.code.push(Instruction::Label(b));
    (a, b)
}
fn anno(target: T) -> CodeTypeAnnotation {
    CodeTypeAnnotation { target, type_path: vec![], annotation_type: Type::Int, element_values: HashMap::new() }
}
fn add_anno(src: &mut Source, c: &mut Code, t: T) {
    let vis = src.bool();
    // into an attribute of its own or an existing one, first or last
    for a in c.attrs.iter_mut() {
        if let CodeAttribute::VisibleTypeAnnotations(v) | CodeAttribute::InvisibleTypeAnnotations(v) = a {
            let at = if src.bool() { 0 } else { v.len() };
            v.insert(at, anno(t));
            return;
        }
    }
    let v = vec![anno(t)];
    let at = src.usize(c.attrs.len() + 1);
    c.attrs.insert(at, if vis { CodeAttribute::VisibleTypeAnnotations(v) } else { CodeAttribute::InvisibleTypeAnnotations(v) });
}
fn add_local(src: &mut Source, c: &mut Code, start: Label, end: Label, typed: bool) {
    let sig = typed && src.chance(1, 3);
    let both = sig && src.bool();
    let l = LocalVariable {
        start,
        end,
        name: cow(&ms("v")),
        descriptor: if typed && (!sig || both) { Some(Type::Int) } else { None },
        signature: if sig { conv::field_signature(&ms("TX;")).ok() } else { None },
        index: src.u16(),
    };
    for a in c.attrs.iter_mut() {
        if let CodeAttribute::LocalVariables(v) = a {
            let at = if src.bool() { 0 } else { v.len() };
            v.insert(at, l);
            return;
        }
    }
    c.attrs.push(CodeAttribute::LocalVariables(vec![l]));
}
fn insert(src: &mut Source, c: &mut Code, i: Instruction) {
    let at = src.usize(c.code.len() + 1);
    c.code.insert(at, i);
}

/// Makes the code inconsistent and says how.
fn spoil(src: &mut Source, c: &mut Code) -> &'static str {
    let used = placed(c);
    let no = missing(src, &used);
    let yes = |src: &mut Source, c: &mut Code| around(src, c).0;
    match src.below(20) {
        0 | 1 => {
            let op = *src.pick(&[153u8, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 198, 199]);
            insert(src, c, Instruction::Jump(conv::cond(op), no));
            "jump to a missing label"
        }
        2 => {
            insert(src, c, Instruction::Jsr(no));
            "jsr to a missing label"
        }
        3 | 4 => {
            let l = yes(src, c);
            let no = missing(src, &placed(c));
            let n = src.range(1, 4);
            let mut offsets = vec![l; n];
            let mut default = l;
            match src.usize(n + 1) {
                0 => default = no,
                k => offsets[k - 1] = no,
            }
            let low = src.below(100) as i32 - 50;
            insert(src, c, Instruction::TableSwitch { default, low, offsets });
            "table switch with a missing label"
        }
        5 | 6 => {
            let l = yes(src, c);
            let used = placed(c);
            let no = missing(src, &used);
            let n = src.range(0, 4);
            let which = src.usize(n + 1);
            let mut table = indexmap::IndexMap::new();
            for k in 0..n {
                table.insert(k as i32 * 7 - 9, if which == k + 1 { no } else { l });
            }
            insert(src, c, Instruction::LookupSwitch { default: if which == 0 { no } else { l }, table });
            "lookup switch with a missing label"
        }
        7 | 8 => {
            // take away a label that something names
            let r: Vec<Label> = {
                let mut v: Vec<Label> = referenced(c).into_iter().filter(|l| used.contains(l)).collect();
                v.sort();
                v
            };
            if r.is_empty() {
                insert(src, c, Instruction::Jump(conv::cond(167), no));
                return "jump to a missing label";
            }
            let l = *src.pick(&r);
            c.code.retain(|i| *i != Instruction::Label(l));
            "removed a label in use"
        }
        9 | 10 => {
            let (a, b) = around(src, c);
            let no = missing(src, &placed(c));
            let (mut start, mut end, mut handler) = (a, b, a);
            match src.below(3) {
                0 => start = no,
                1 => end = no,
                _ => handler = no,
            }
            let at = src.usize(c.catches.len() + 1);
            let class = if src.bool() { None } else { Some(cow(&ms("a/E"))) };
            c.catches.insert(at, Catch { start, end, handler, catch: class });
            "handler with a missing label"
        }
        11 => {
            let (a, b) = around(src, c);
            let no = missing(src, &placed(c));
            let (s, e) = if src.bool() { (no, b) } else { (a, no) };
            add_local(src, c, s, e, true);
            "variable with a missing label"
        }
        12 => {
            let (a, b) = around(src, c);
            add_local(src, c, b, a, true);
            "variable with an inverted range"
        }
        13 => {
            let (a, b) = around(src, c);
            add_local(src, c, a, b, false);
            "variable without a type"
        }
        14 => {
            let x = src.u8();
            let t = match src.below(9) {
                0 => T::InstanceOf(no),
                1 => T::Constructor(no),
                2 => T::ConstructorRef(no),
                3 => T::MethodRef(no),
                4 => T::Cast(no, x),
                5 => T::GenericConstructor(no, x),
                6 => T::GenericMethod(no, x),
                7 => T::GenericConstructorRef(no, x),
                _ => T::GenericMethodRef(no, x),
            };
            add_anno(src, c, t);
            "annotation at a missing label"
        }
        15 | 16 => {
            let (a, b) = around(src, c);
            let no = missing(src, &placed(c));
            let (start, end, what) = match src.below(3) {
                0 => (no, b, "annotated variable with a missing label"),
                1 => (a, no, "annotated variable with a missing label"),
                _ => (b, a, "annotated variable with an inverted range"),
            };
            let mut v = vec![LocalVarTarget { start, end, idx: src.u16() }];
            for _ in 0..src.len(2) {
                let at = src.usize(v.len() + 1);
                v.insert(at, LocalVarTarget { start: a, end: b, idx: 1 });
            }
            let t = if src.bool() { T::LocalVariable(v) } else { T::ResourceVariable(v) };
            add_anno(src, c, t);
            what
        }
        17 => {
            let (a, b) = around(src, c);
            let class: Option<Cow<'static, Wtf8Str>> = if src.bool() { None } else { Some(cow(&ms("no/Such"))) };
            // differs from every handler of the table by its labels
            add_anno(src, c, T::CatchParameter(Catch { start: a, end: b, handler: b, catch: class }));
            "annotation of an absent handler"
        }
        18 => {
            let (l, _) = around(src, c);
            let low = src.i32();
            insert(src, c, Instruction::TableSwitch { default: l, low, offsets: vec![] });
            "empty table switch"
        }
        _ => {
            let (l, _) = around(src, c);
            let n = src.range(2, 6);
            let low = i32::MAX - src.below(n as u64 - 1) as i32;
            insert(src, c, Instruction::TableSwitch { default: l, low, offsets: vec![l; n] });
            "overflowing table switch"
        }
    }
}

// ---- arbitrary values

fn odd_type(src: &mut Source, depth: usize) -> Type {
    match src.below(if depth == 0 { 4 } else { 7 }) {
        0 => Type::Int,
        1 => conv::ty(&crate::desc::gen_field_type(src)),
        2 => Type::Ref(cow(&gen_any(src, 6))),
        3 => Type::Long,
        4 => Type::ArrayRef(*src.pick(&[0u8, 1, 2, 254, 255]), Box::new(odd_type(src, depth - 1))),
        5 => Type::ArrayRef(src.u8(), Box::new(odd_type(src, depth - 1))),
        _ => Type::Method { parameters: (0..src.len(3)).map(|_| odd_type(src, depth - 1)).collect(), ret: if src.bool() { None } else { Some(Box::new(odd_type(src, depth - 1))) } },
    }
}
fn odd_text(src: &mut Source) -> Cow<'static, Wtf8Str> {
    match src.below(8) {
        0 => cow(&ms("")),
        1 => cow(&ms(*src.pick(&["[", "[I", "L;", "<init>", "<clinit>", "a.b;c[/", "()V", "[[", "I"]))),
        2 => cow(&MStr(vec![b'x' as u16; *src.pick(&[65534usize, 65535, 65536, 70000])])),
        _ => cow(&gen_any(src, 8)),
    }
}
fn odd_label(src: &mut Source, c: &Code) -> Label {
    let mut v: Vec<Label> = placed(c).into_iter().collect();
    v.sort();
    if v.is_empty() || src.chance(1, 12) {
        Label(src.below(1 << 32) as u32)
    } else {
        *src.pick(&v)
    }
}
fn odd_member(src: &mut Source) -> MemberRef {
    MemberRef { owner: odd_text(src), name: odd_text(src), descriptor: odd_type(src, 2), itfs: src.bool() }
}
fn odd_handle(src: &mut Source) -> MethodHandle {
    MethodHandle { kind: conv::kind(src.range(1, 9) as u8), member: odd_member(src) }
}
fn odd_constant(src: &mut Source) -> Constant {
    match src.below(6) {
        0 => Constant::I32(src.i32()),
        1 => Constant::I64(src.i64()),
        2 => Constant::Class(odd_text(src)),
        3 => Constant::MethodType(odd_type(src, 2)),
        4 => Constant::MethodHandle(odd_handle(src)),
        _ => Constant::String(odd_text(src).into_owned().into()),
    }
}
fn odd_dynamic(src: &mut Source, depth: usize) -> Dynamic {
    let n = src.len(3);
    let arguments = (0..n).map(|_| odd_or(src, depth, odd_constant)).collect();
    Dynamic::new(BootstrapMethod { handle: odd_handle(src), arguments }, odd_text(src), odd_type(src, 2))
}
fn odd_or<T>(src: &mut Source, depth: usize, f: impl FnOnce(&mut Source) -> T) -> OrDynamic<T> {
    if depth > 0 && src.chance(1, 3) {
        OrDynamic::Dynamic(odd_dynamic(src, depth - 1))
    } else {
        OrDynamic::Static(f(src))
    }
}
fn odd_class(src: &mut Source) -> ClassType {
    if src.bool() {
        ClassType::Object(odd_text(src))
    } else {
        ClassType::Array(*src.pick(&[0u8, 1, 2, 255]), odd_type(src, 2))
    }
}
fn odd_insn(src: &mut Source, c: &Code) -> Instruction {
    use coffer::code::{GetOrPut, MemberType};
    let mt = if src.bool() { MemberType::Static } else { MemberType::Virtual };
    match src.below(16) {
        0 => Instruction::Push(odd_or(src, 2, odd_constant)),
        1 => Instruction::CheckCast(odd_or(src, 1, odd_class)),
        2 => Instruction::InstanceOf(odd_or(src, 1, odd_class)),
        3 => Instruction::New(odd_or(src, 1, odd_text)),
        4 | 5 => {
            let t = odd_or(src, 1, |s| odd_type(s, 2));
            Instruction::NewArray(t, *src.pick(&[0u8, 1, 2, 3, 255]))
        }
        6 => Instruction::Field(if src.bool() { GetOrPut::Get } else { GetOrPut::Put }, mt, odd_or(src, 1, odd_member)),
        7 => Instruction::InvokeExact(mt, odd_or(src, 1, odd_member)),
        8 => Instruction::InvokeSpecial(odd_or(src, 1, odd_member)),
        9 => Instruction::InvokeDynamic(odd_dynamic(src, 2)),
        10 => Instruction::InvokeInterface(odd_or(src, 1, odd_member), src.u8()),
        11 => Instruction::LineNumber(src.u16()),
        12 => Instruction::Label(odd_label(src, c)),
        13 => {
            let n = if src.chance(1, 20) { *src.pick(&[16380usize, 16383, 16384, 20000]) } else { src.len(5) };
            let l = odd_label(src, c);
            Instruction::TableSwitch { default: odd_label(src, c), low: if src.bool() { src.i32() } else { i32::MAX - src.below(5) as i32 }, offsets: vec![l; n] }
        }
        14 => {
            let n = src.len(5);
            Instruction::LookupSwitch { default: odd_label(src, c), table: (0..n).map(|_| (src.i32(), odd_label(src, c))).collect() }
        }
        _ => Instruction::Jump(conv::cond(*src.pick(&[167u8, 153, 198, 165])), odd_label(src, c)),
    }
}
fn distort_code(src: &mut Source, c: &mut Code) {
    match src.below(12) {
        0..=4 => {
            let i = odd_insn(src, c);
            insert(src, c, i);
        }
        5 => {
            let k = src.usize(c.code.len() + 1);
            c.code.truncate(k);
        }
        6 => c.code.reverse(),
        7 => {
            let (start, end, handler) = (odd_label(src, c), odd_label(src, c), odd_label(src, c));
            let catch = if src.bool() { None } else { Some(odd_text(src)) };
            c.catches.push(Catch { start, end, handler, catch });
        }
        8 => {
            let (start, end) = (odd_label(src, c), odd_label(src, c));
            let l = LocalVariable {
                start,
                end,
                name: odd_text(src),
                descriptor: if src.bool() { Some(odd_type(src, 2)) } else { None },
                signature: if src.bool() { conv::field_signature(&ms("TX;")).ok() } else { None },
                index: src.u16(),
            };
            let v = if src.bool() { vec![l] } else { vec![] };
            c.attrs.push(CodeAttribute::LocalVariables(v));
        }
        9 => {
            let t = match src.below(4) {
                0 => T::Cast(odd_label(src, c), src.u8()),
                1 => T::CatchParameter(Catch { start: odd_label(src, c), end: odd_label(src, c), handler: odd_label(src, c), catch: None }),
                2 if !c.catches.is_empty() => T::CatchParameter(c.catches[src.usize(c.catches.len())].clone()),
                _ => T::LocalVariable((0..src.len(3)).map(|_| LocalVarTarget { start: odd_label(src, c), end: odd_label(src, c), idx: src.u16() }).collect()),
            };
            add_anno(src, c, t);
        }
        10 => {
            // more than fits, or nearly
            let n = *src.pick(&[32760usize, 32768, 65530, 65535, 65536]);
            let at = src.usize(c.code.len() + 1);
            c.code.splice(at..at, std::iter::repeat(Instruction::NoOp).take(n));
        }
        _ => {
            if c.code.len() > 1 {
                let (a, b) = (src.usize(c.code.len()), src.usize(c.code.len()));
                c.code.swap(a, b);
            }
        }
    }
}
fn distort(src: &mut Source, v: &mut Class) {
    match src.below(12) {
        0 => v.name = odd_text(src),
        1 => v.super_name = Some(odd_text(src)),
        2 => {
            if !v.fields.is_empty() {
                let k = src.usize(v.fields.len());
                match src.below(3) {
                    0 => v.fields[k].descriptor = odd_type(src, 3),
                    1 => v.fields[k].name = odd_text(src),
                    _ => v.fields[k].attrs.push(coffer::member::FieldAttribute::ConstantValue(odd_constant(src))),
                }
            }
        }
        3 => {
            let k = src.usize(v.methods.len());
            match src.below(2) {
                0 => v.methods[k].descriptor = odd_type(src, 3),
                _ => v.methods[k].name = odd_text(src),
            }
        }
        4 => {
            let k = src.usize(v.methods.len());
            let mut val = coffer::annotation::AnnotationValue::String(odd_text(src));
            for _ in 0..*src.pick(&[0usize, 1, 3, 100]) {
                val = coffer::annotation::AnnotationValue::Array(vec![val]);
            }
            v.methods[k].attributes.push(MethodAttribute::AnnotationDefault(val));
        }
        5 => {
            let b = (0..src.len(3)).map(|_| BootstrapMethod { handle: odd_handle(src), arguments: vec![odd_or(src, 2, odd_constant)] }).collect();
            v.attributes.push(coffer::attr::ClassAttribute::BootstrapMethods(b));
        }
        _ => {
            let mut cs = codes(v);
            let k = src.usize(cs.len());
            distort_code(src, cs[k]);
        }
    }
}

/// Only the frame of a class file: counts and lengths add up to the last byte.
fn framed(b: &[u8]) -> Result<(), String> {
    let mut r = dec::Rd::new(b);
    r.take(8)?;
    let pool = dec::Pool::read_entries(&mut r)?;
    r.take(6)?;
    let n = r.u2()?;
    r.take(2 * n as usize)?;
    fn attrs(r: &mut dec::Rd, pool: &dec::Pool, deep: bool) -> Result<(), String> {
        for _ in 0..r.u2()? {
            let name = pool.utf8(r.u2()?)?;
            let n = r.u4()?;
            let body = r.take(n as usize)?;
            if deep && name == ms("Code") {
                let mut c = dec::Rd::new(body);
                c.take(4)?;
                let n = c.u4()?;
                c.take(n as usize)?;
                let n = c.u2()?;
                c.take(8 * n as usize)?;
                attrs(&mut c, pool, false)?;
                c.done()?;
            }
        }
        Ok(())
    }
    for methods in [false, true] {
        for _ in 0..r.u2()? {
            r.take(6)?;
            attrs(&mut r, &pool, methods)?;
        }
    }
    attrs(&mut r, &pool, false)?;
    r.done()
}

fn distorted(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let mut m = gen::minimal();
    if src.bool() {
        m = gen::gen_class(src, Focus::All);
    }
    let c = Gen::new(src, Focus::Position).code();
    m.methods.push(gen::method_with(c));
    let lseed = src.u64();
    let mut v = conv::to_coffer(&m, lseed)?;
    for _ in 0..src.range(1, 4) {
        distort(src, &mut v);
    }
    checkpoint(src);
    let a = guard(|| write(&v)).map_err(|p| format!("panic writing a distorted class: {}", p))?;
    let b = guard(|| write(&v)).map_err(|p| format!("panic writing a distorted class again: {}", p))?;
    let digest = super::class::digest(&m, hash_bytes(format!("{:?}", v.methods.last()).as_bytes()));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a != b {
                return Err("a distorted class is written differently the second time".into());
            }
            framed(&a).map_err(|e| format!("a distorted class is written without error, but its frame does not add up: {}", e))?;
            ctx.count("distorted and written");
            // where the file is well-formed and the value can be viewed, they agree
            // (two entries for one variable have no distinct form: types and
            // signatures lie in two tables)
            let twice = |m: &crate::model::MClass| {
                m.codes().any(|c| {
                    let mut seen = HashSet::new();
                    c.locals.iter().any(|l| !seen.insert((l.start, l.end, l.index, l.name.clone())))
                })
            };
            let both = (dec::decode(&a), conv::from_coffer(&v));
            if let (Ok(mut got), Ok(mut want)) = both {
                if twice(&want) {
                    ctx.count("a variable twice");
                    return Ok(Pass { nontrivial: true, digest, sample: None });
                }
                // a class named like "[Z" or "a;b" has no text of its own within a type
                let text = format!("{:?}", want);
                if text.split("Ref(\"").skip(1).any(|n| n.starts_with('[') || n.split('"').next().map_or(false, |n| n.contains(';'))) {
                    ctx.count("a class named like an array");
                    return Ok(Pass { nontrivial: true, digest, sample: None });
                }
                crate::model::norm_class(&mut got);
                crate::model::norm_class(&mut want);
                crate::cmp::class_but_bsms(&want, &got).map_err(|e| format!("a distorted class is written as a well-formed file that says something else: {}", e))?;
                ctx.count("distorted, written and well-formed");
            }
        }
        (Err(_), Err(_)) => ctx.count("distorted and refused"),
        _ => return Err("a distorted class is refused only sometimes".into()),
    }
    Ok(Pass { nontrivial: true, digest, sample: None })
}

fn c18(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 3) {
        return distorted(src, ctx);
    }
    let mut m = if src.chance(1, 3) { gen::gen_class(src, Focus::Position) } else { gen::minimal() };
    let extra = src.range(if m.codes().count() == 0 { 1 } else { 0 }, 2);
    for _ in 0..extra {
        let c = Gen::new(src, Focus::Position).code();
        m.methods.push(gen::method_with(c));
    }
    let lseed = src.u64();
    let good = conv::to_coffer(&m, lseed)?;
    let mut bad = good.clone();
    let mut how = vec![];
    {
        let mut cs = codes(&mut bad);
        let k = src.usize(cs.len());
        let n = if src.chance(1, 5) { 2 } else { 1 };
        for _ in 0..n {
            how.push(spoil(src, cs[k]));
        }
    }
    checkpoint(src);
    let before = guard(|| write(&good)).map_err(|p| format!("panic on a consistent class: {}", p))?.map_err(|e| format!("a consistent class is refused: {}", e))?;
    match guard(|| write(&bad)) {
        Err(p) => return Err(format!("panic writing a class with {:?}: {}", how, p)),
        Ok(Ok(b)) => {
            let say = match dec::decode(&b) {
                Ok(_) => "well-formed".to_string(),
                Err(e) => format!("ill-formed: {}", e),
            };
            return Err(format!("a class with {:?} was written ({} bytes, {})", how, b.len(), say));
        }
        Ok(Err(_)) => ctx.count(how[0]),
    }
    let after = write(&good).map_err(|e| format!("a consistent class is refused after a refusal: {}", e))?;
    if before != after {
        return Err("a consistent class is written otherwise after a refusal".into());
    }
    let d = mix(super::class::digest(&m, lseed), hash_bytes(format!("{:?}", how).as_bytes()));
    Ok(Pass { nontrivial: true, digest: d, sample: if ctx.want_sample { Some(format!("{:?}", how)) } else { None } })
}

pub static C18: Check = Check {
    id: "C18",
    quick: 600_000,
    thorough: 20_000_000,
    rule: "two thirds of the cases: a random class whose writing succeeds, and the same with one or two inconsistencies of twelve kinds put into one method, whose writing must be refused; one third: a random class with one to three arbitrary distortions, whose writing must not panic, must repeat itself, and must give a file whose counts and lengths add up and which, if well-formed, says what the value says; every case is non-trivial",
    assumptions: &["the inconsistencies that must be refused are the listed kinds; duplicate labels and operands of the wrong shape may be written or refused", "a dynamic constant whose bootstrap method was never set is not generated"],
    level: "exploration",
    run: c18,
    hang_s: 60,
};
