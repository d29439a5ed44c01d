//! C24: histories of edits on classes that were read: change, merge, save, reload.

use std::collections::HashSet;

use coffer::annotation::CodeTypeAnnotationTarget as T;
use coffer::attr::ClassAttribute;
use coffer::clazz::Class;
use coffer::code::{Catch, Code, CodeAttribute, Instruction, Label, LocalVariable};
use coffer::dynamic::{Dynamic, OrDynamic};
use coffer::member::{Method, MethodAttribute};
use coffer::ty::Type;

use super::class::{digest, must_write};
use super::read;
use crate::cmp;
use crate::conv;
use crate::enc;
use crate::engine::*;
use crate::gen::{self, Focus, Gen};
use crate::model::*;
use crate::mstr::*;

fn codes(c: &mut Class) -> Vec<&mut Code> {
    c.methods
        .iter_mut()
        .flat_map(|m| m.attributes.iter_mut())
        .filter_map(|a| match a {
            MethodAttribute::Code(c) => Some(c),
            _ => None,
        })
        .collect()
}
fn labels(c: &Code) -> Vec<Label> {
    c.code.iter().filter_map(|i| if let Instruction::Label(l) = i { Some(*l) } else { None }).collect()
}
fn branches(i: &Instruction) -> bool {
    matches!(i, Instruction::Jump(..) | Instruction::Jsr(_) | Instruction::TableSwitch { .. } | Instruction::LookupSwitch { .. })
}
fn dynamics(c: &mut Class) -> Vec<&mut Dynamic> {
    let mut v = vec![];
    for c in codes(c) {
        for i in c.code.iter_mut() {
            match i {
                Instruction::InvokeDynamic(d) => v.push(d),
                Instruction::Push(OrDynamic::Dynamic(d)) => v.push(d),
                _ => {}
            }
        }
    }
    v
}

/// What a class file can say: ranges in order and inside the code, no two descriptions of one
/// variable, annotated handlers in the table.
fn sayable(m: &MClass) -> bool {
    m.codes().all(|c| {
        let n = c.insns.len();
        let jumps = c.insns.iter().all(|i| match i {
            MI::Jump(_, t) | MI::Jsr(t) => *t < n,
            MI::Table(d, _, v) => *d < n && v.iter().all(|t| *t < n),
            MI::Lookup(d, v) => *d < n && v.iter().all(|x| x.1 < n),
            _ => true,
        });
        let vars: HashSet<_> = c.locals.iter().map(|l| (l.start, l.end, l.index, l.name.clone())).collect();
        n > 0
            && jumps
            && c.catches.iter().all(|x| x.start < x.end && x.end <= n && x.handler < n)
            && c.lines.iter().all(|l| l.0 < n)
            && c.locals.iter().all(|l| l.start <= l.end && l.start < n)
            && vars.len() == c.locals.len()
            && c.attrs.iter().all(|a| match a {
                MCodeAttr::TypeAnnos(_, v) => v.iter().all(|t| match &t.target {
                    MTarget::Locals(_, v) => v.iter().all(|x| x.0 <= x.1 && x.0 < n),
                    MTarget::Catch(x) => c.catches.contains(x),
                    MTarget::Off(_, p) | MTarget::OffArg(_, p, _) => *p < n,
                    _ => true,
                }),
                MCodeAttr::Raw(..) => true,
            })
    }) && m.methods.iter().all(|x| x.attrs.iter().filter(|a| matches!(a, MAttr::Code(_))).count() <= 1)
}

/// The handlers that are annotated are those of the table, by name: an annotation of a handler
/// that was removed is not one of another handler that came to lie at the same place.
fn named(v: &Class) -> bool {
    let code = |c: &Code| {
        c.attrs.iter().all(|a| match a {
            CodeAttribute::VisibleTypeAnnotations(v) | CodeAttribute::InvisibleTypeAnnotations(v) => v.iter().all(|t| match &t.target {
                T::CatchParameter(x) => c.catches.contains(x),
                _ => true,
            }),
            _ => true,
        })
    };
    v.methods.iter().flat_map(|m| m.attributes.iter()).all(|a| if let MethodAttribute::Code(c) = a { code(c) } else { true })
}

/// A conditional jump that may have to be made far needs an instruction after it.
fn far_ok(v: &Class) -> bool {
    v.methods.iter().flat_map(|m| m.attributes.iter()).all(|a| match a {
        MethodAttribute::Code(c) if c.code.len() > LONG => {
            !matches!(c.code.iter().rev().find(|i| !matches!(i, Instruction::Label(_) | Instruction::LineNumber(_))), Some(Instruction::Jump(..)))
        }
        _ => true,
    })
}
const LONG: usize = 10000;
fn long(v: &Class) -> bool {
    v.methods.iter().flat_map(|m| m.attributes.iter()).any(|a| matches!(a, MethodAttribute::Code(c) if c.code.len() > LONG))
}

fn a_plain(src: &mut Source) -> Instruction {
    let mut g = Gen::new(src, Focus::Insn);
    for _ in 0..4 {
        let i = g.insn(1);
        if !matches!(i, MI::Jump(..) | MI::Jsr(_) | MI::Table(..) | MI::Lookup(..)) {
            return conv::insn(&i, &mut conv::Labels::new(0));
        }
    }
    Instruction::NoOp
}

fn edit_code(src: &mut Source, c: &mut Code, donors: &[Class]) -> &'static str {
    let at = src.usize(c.code.len() + 1);
    let here = labels(c);
    if src.chance(1, 500) {
        // what is on both sides comes to lie farther apart than a short jump reaches
        let size: usize = c
            .code
            .iter()
            .map(|i| match i {
                Instruction::TableSwitch { offsets, .. } => 16 + 4 * offsets.len(),
                Instruction::LookupSwitch { table, .. } => 12 + 8 * table.len(),
                _ => 8,
            })
            .sum();
        if size < 20000 {
            let n = 32767 - size.min(60) + src.usize(120);
            let fill = if src.bool() { Instruction::NoOp } else { Instruction::Swap };
            c.code.splice(at..at, std::iter::repeat(fill).take(n));
            return "insert a long stretch";
        }
    }
    match src.below(16) {
        0 | 1 => {
            c.code.insert(at, a_plain(src));
            "insert an instruction"
        }
        2 | 3 => {
            if at < c.code.len() && !matches!(c.code[at], Instruction::Label(_)) {
                c.code.remove(at);
            }
            "remove an instruction or line"
        }
        4 | 5 => {
            // from some method of some class, wherever it was read
            let mut d = donors[src.usize(donors.len())].clone();
            let mut cs = codes(&mut d);
            if !cs.is_empty() {
                let k = src.usize(cs.len());
                let o = &mut cs[k].code;
                let from = src.usize(o.len().max(1)).min(o.len());
                let n = src.range(1, 5);
                let part: Vec<Instruction> = o.drain(from..(from + n).min(o.len())).filter(|i| !branches(i) && !matches!(i, Instruction::Label(_))).collect();
                for (k, i) in part.into_iter().enumerate() {
                    c.code.insert(at + k, i);
                }
            }
            "copy instructions from another method"
        }
        6 | 7 => {
            // a new label, and something that goes there
            let mut x = match src.below(3) {
                0 => here.iter().map(|l| l.0).max().map_or(0, |x| x.wrapping_add(1)),
                1 => src.below(20) as u32,
                _ => src.below(1 << 32) as u32,
            };
            while here.contains(&Label(x)) {
                x = x.wrapping_add(1);
            }
            c.code.insert(at, Instruction::Label(Label(x)));
            let to = src.usize(c.code.len() + 1);
            let i = branch(src, &[&here[..], &[Label(x)]].concat());
            c.code.insert(to, i);
            "add a label and a branch"
        }
        8 => {
            if here.is_empty() {
                return "nothing";
            }
            let i = branch(src, &here);
            c.code.insert(at, i);
            "add a branch to an existing label"
        }
        9 => {
            c.code.insert(at, Instruction::LineNumber(src.u16()));
            "add a line"
        }
        10 => {
            if here.len() < 2 {
                return "nothing";
            }
            let (s, e, h) = (src.usize(here.len()), src.usize(here.len()), src.usize(here.len()));
            let class = if src.bool() { None } else { Some(cow(&gen_class_name(src))) };
            let k = src.usize(c.catches.len() + 1);
            c.catches.insert(k, Catch { start: here[s.min(e)], end: here[s.max(e)], handler: here[h], catch: class });
            "add a handler"
        }
        11 => {
            if !c.catches.is_empty() {
                let k = src.usize(c.catches.len());
                if src.bool() {
                    c.catches.remove(k);
                } else {
                    let x = c.catches.remove(k);
                    c.catches.insert(0, x);
                }
            }
            "remove or promote a handler"
        }
        12 => {
            if here.len() < 2 {
                return "nothing";
            }
            let (s, e) = (src.usize(here.len()), src.usize(here.len()));
            let l = LocalVariable {
                start: here[s.min(e)],
                end: here[s.max(e)],
                name: cow(&gen_name(src)),
                descriptor: Some(Type::Int),
                signature: if src.bool() { conv::field_signature(&ms("TX;")).ok() } else { None },
                index: src.u16(),
            };
            for a in c.attrs.iter_mut() {
                if let CodeAttribute::LocalVariables(v) = a {
                    v.push(l);
                    return "add a variable";
                }
            }
            c.attrs.push(CodeAttribute::LocalVariables(vec![l]));
            "add a variable"
        }
        13 => {
            // pseudo-instructions and instructions change places
            if c.code.len() > 1 {
                let k = src.usize(c.code.len() - 1);
                c.code.swap(k, k + 1);
            }
            "swap neighbours"
        }
        14 => {
            if !c.attrs.is_empty() {
                let k = src.usize(c.attrs.len());
                c.attrs.remove(k);
            }
            "remove a code attribute"
        }
        _ => {
            c.max_stack = src.u16();
            c.max_locals = src.u16();
            "change the limits"
        }
    }
}

fn branch(src: &mut Source, to: &[Label]) -> Instruction {
    let l = |src: &mut Source| to[src.usize(to.len())];
    match src.below(5) {
        0 => Instruction::Jsr(l(src)),
        1 => {
            let n = src.range(1, 4);
            let low = src.i32().min(i32::MAX - 4);
            Instruction::TableSwitch { default: l(src), low, offsets: (0..n).map(|_| l(src)).collect() }
        }
        2 => {
            let n = src.len(4);
            Instruction::LookupSwitch { default: l(src), table: (0..n).map(|_| (src.i32(), l(src))).collect() }
        }
        _ => {
            let op = if src.chance(1, 4) { 167 } else { *src.pick(CONDS) };
            Instruction::Jump(conv::cond(op), l(src))
        }
    }
}

fn shift<T: Clone>(src: &mut Source, v: &mut Vec<T>, donor: &[T]) -> &'static str {
    match src.below(4) {
        0 if !v.is_empty() => {
            let k = src.usize(v.len());
            v.remove(k);
            "remove"
        }
        1 if v.len() > 1 => {
            let (a, b) = (src.usize(v.len()), src.usize(v.len()));
            v.swap(a, b);
            "swap"
        }
        2 if !v.is_empty() => {
            let k = src.usize(v.len());
            let x = v[k].clone();
            v.insert(src.usize(v.len() + 1), x);
            "duplicate"
        }
        _ if !donor.is_empty() => {
            let x = donor[src.usize(donor.len())].clone();
            v.insert(src.usize(v.len() + 1), x);
            "copy from another class"
        }
        _ => "nothing",
    }
}

fn edit(src: &mut Source, v: &mut Class, donors: &[Class]) -> &'static str {
    let d = &donors[src.usize(donors.len())];
    match src.below(20) {
        0 | 1 => {
            shift(src, &mut v.methods, &d.methods);
            "methods"
        }
        2 => {
            shift(src, &mut v.fields, &d.fields);
            "fields"
        }
        3 => {
            let table = v.attributes.iter().any(|a| matches!(a, ClassAttribute::BootstrapMethods(_)));
            let d: Vec<ClassAttribute> = d.attributes.iter().filter(|a| !(table && matches!(a, ClassAttribute::BootstrapMethods(_)))).cloned().collect();
            shift(src, &mut v.attributes, &d);
            let mut seen = false;
            v.attributes.retain(|a| !matches!(a, ClassAttribute::BootstrapMethods(_)) || !std::mem::replace(&mut seen, true));
            "class attributes"
        }
        4 => {
            shift(src, &mut v.interfaces, &d.interfaces);
            "interfaces"
        }
        5 => {
            match src.below(4) {
                0 => v.name = d.name.clone(),
                1 => v.super_name = d.super_name.clone(),
                2 => v.version = d.version,
                _ => v.access = d.access,
            }
            "header"
        }
        6 => {
            // attributes of members
            if src.bool() {
                if let Some(k) = (!v.methods.is_empty()).then(|| src.usize(v.methods.len())) {
                    let pool: Vec<MethodAttribute> =
                        d.methods.iter().flat_map(|m: &Method| m.attributes.iter()).filter(|a| !matches!(a, MethodAttribute::Code(_))).cloned().collect();
                    shift(src, &mut v.methods[k].attributes, &pool);
                }
            } else if let Some(k) = (!v.fields.is_empty()).then(|| src.usize(v.fields.len())) {
                let pool: Vec<_> = d.fields.iter().flat_map(|m| m.attrs.iter()).cloned().collect();
                shift(src, &mut v.fields[k].attrs, &pool);
            }
            "member attributes"
        }
        7 => {
            // the explicit bootstrap table
            let pool: Vec<_> = d
                .attributes
                .iter()
                .filter_map(|a| if let ClassAttribute::BootstrapMethods(b) = a { Some(b.clone()) } else { None })
                .flatten()
                .collect();
            for a in v.attributes.iter_mut() {
                if let ClassAttribute::BootstrapMethods(b) = a {
                    if src.chance(1, 4) {
                        b.clear();
                    } else {
                        shift(src, b, &pool);
                    }
                    return "bootstrap table";
                }
            }
            v.attributes.insert(src.usize(v.attributes.len() + 1), ClassAttribute::BootstrapMethods(pool));
            "bootstrap table"
        }
        8 | 9 => {
            let mut other = d.clone();
            let mut theirs = dynamics(&mut other);
            let mut mine = dynamics(v);
            if mine.is_empty() {
                return "nothing";
            }
            let k = src.usize(mine.len());
            match src.below(3) {
                0 => mine[k].name = cow(&gen_name(src)),
                1 if !theirs.is_empty() => {
                    let j = src.usize(theirs.len());
                    mine[k].bsm = theirs.swap_remove(j).bsm.clone();
                }
                _ => {
                    // a bootstrap method of its own, with one argument more
                    let mut b = mine[k].get_bsm().clone();
                    let x = src.i32();
                    b.arguments.push(OrDynamic::Static(conv::constant(&MConst::Int(x))));
                    let (n, t) = (mine[k].name.clone(), mine[k].descriptor.clone());
                    *mine[k] = Dynamic::new(b, n, t);
                }
            }
            "dynamic values"
        }
        _ => {
            let mut cs = codes(v);
            if cs.is_empty() {
                return "nothing";
            }
            let k = src.usize(cs.len());
            edit_code(src, cs[k], donors)
        }
    }
}

fn view(v: &Class) -> Result<MClass, String> {
    let mut m = conv::from_coffer(v)?;
    norm_class(&mut m);
    Ok(m)
}

fn c24(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 3);
    let mut donors = vec![];
    for _ in 0..n {
        let f = match src.below(6) {
            0 => Focus::All,
            1 => Focus::Insn,
            2 | 3 => Focus::Position,
            4 => Focus::Dyn,
            _ => Focus::Attr,
        };
        let m = gen::gen_class(src, f);
        let e = enc::encode(&m, src.below(1 << 20));
        let (c, _) = read(&e.bytes).map_err(|x| format!("reading a well-formed class file fails: {}", x))?;
        donors.push(c);
    }
    let mut v = donors[0].clone();
    let mut done: Vec<&'static str> = vec![];
    let steps = src.range(1, 14);
    let mut m = view(&v)?;
    for k in 0..steps {
        match src.below(8) {
            // save
            6 => {
                checkpoint(src);
                must_write(&m, &v).map_err(|e| format!("after {:?}: {}", done, e))?;
                done.push("save");
                ctx.count("save");
            }
            // save and reload
            7 if k > 0 => {
                checkpoint(src);
                let b = must_write(&m, &v).map_err(|e| format!("after {:?}: {}", done, e))?;
                v = read(&b).map_err(|e| format!("after {:?}: reading what was written fails: {}", done, e))?.0;
                let again = view(&v).map_err(|e| format!("after {:?}: {}", done, e))?;
                // far conditional jumps come back as two instructions
                if !long(&v) {
                    cmp::class_but_bsms(&m, &again).map_err(|e| format!("after {:?}: reloaded: {}", done, e))?;
                }
                m = again;
                done.push("reload");
                ctx.count("reload");
            }
            _ => {
                let mut next = v.clone();
                let how = edit(src, &mut next, &donors);
                let after = view(&next)?;
                if sayable(&after) && named(&next) && far_ok(&next) {
                    v = next;
                    m = after;
                    if how != "nothing" {
                        done.push(how);
                        ctx.count(how);
                    }
                } else {
                    ctx.count("edits without a class-file form, taken back");
                }
            }
        }
    }
    checkpoint(src);
    must_write(&m, &v).map_err(|e| format!("after {:?}: {}", done, e))?;
    // what was read before is as it was
    let first = view(&donors[0])?;
    must_write(&first, &donors[0]).map_err(|e| format!("the first class, after edits of its copy {:?}: {}", done, e))?;
    let edits = done.iter().filter(|x| !matches!(**x, "save" | "reload")).count();
    Ok(Pass { nontrivial: edits >= 2, digest: digest(&m, edits as u64), sample: ctx.want_sample.then(|| format!("{} classes: {:?}", n, done)) })
}

pub static C24: Check = Check {
    id: "C24",
    quick: 200_000,
    thorough: 8_000_000,
    rule: "a case is one to three classes read from generated files and a history of up to 14 edits, saves and reloads of the first (with parts of the others); non-trivial: at least two edits took effect",
    assumptions: &["edits that leave no class-file form (inverted ranges, targets past the code, twice-described variables) are taken back; C18 covers refusal"],
    level: "exploration",
    run: c24,
    hang_s: 60,
};
