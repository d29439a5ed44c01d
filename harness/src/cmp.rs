//! Comparison of models, tolerant of one thing only: a far conditional jump may be written as the
//! complementary jump over a goto.

use std::fmt::Debug;

use crate::model::*;

fn show<T: Debug>(x: &T) -> String {
    let t = format!("{:?}", x);
    if t.chars().count() > 700 {
        t.chars().take(700).collect::<String>() + "…"
    } else {
        t
    }
}

pub fn eq<T: PartialEq + Debug>(what: &str, want: &T, got: &T) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: expected {}, found {}", what, show(want), show(got)))
    }
}

fn list<T: PartialEq + Debug>(what: &str, want: &[T], got: &[T]) -> Result<(), String> {
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        eq(&format!("{}[{}]", what, i), a, b)?;
    }
    if want.len() != got.len() {
        return Err(format!("{}: expected {} entries, found {} ({})", what, want.len(), got.len(), show(&got)));
    }
    Ok(())
}

/// Rewrites `got` so that lowered conditional jumps look like the jumps they stand for in `want`.
pub fn align(want: &MCode, got: &MCode) -> Result<MCode, String> {
    // new index of each instruction of `got`; None inside a lowered jump
    let mut new: Vec<Option<usize>> = Vec::with_capacity(got.insns.len() + 1);
    let mut out: Vec<MI> = vec![];
    let mut g = 0;
    let mut lowered = false;
    while g < got.insns.len() {
        let e = out.len();
        if let (Some(MI::Jump(c, _)), MI::Jump(d, over)) = (want.insns.get(e), &got.insns[g]) {
            if *c != 167 && *d != 167 && negated(*c) == *d && *over == g + 2 {
                if let Some(MI::Jump(167, t)) = got.insns.get(g + 1) {
                    new.push(Some(e));
                    new.push(None);
                    out.push(MI::Jump(*c, *t));
                    g += 2;
                    lowered = true;
                    continue;
                }
            }
        }
        new.push(Some(e));
        out.push(got.insns[g].clone());
        g += 1;
    }
    new.push(Some(out.len()));
    if !lowered {
        return Ok(got.clone());
    }
    let at = |p: &mut usize| -> Result<(), String> {
        *p = new[*p].ok_or("a position points inside a lowered conditional jump")?;
        Ok(())
    };
    let mut c = got.clone();
    c.insns = out;
    for i in c.insns.iter_mut() {
        match i {
            MI::Jump(_, t) | MI::Jsr(t) => at(t)?,
            MI::Table(d, _, v) => {
                at(d)?;
                v.iter_mut().try_for_each(&at)?;
            }
            MI::Lookup(d, v) => {
                at(d)?;
                v.iter_mut().try_for_each(|x| at(&mut x.1))?;
            }
            _ => {}
        }
    }
    let fix_catch = |x: &mut MCatch| -> Result<(), String> {
        at(&mut x.start)?;
        at(&mut x.end)?;
        at(&mut x.handler)
    };
    c.catches.iter_mut().try_for_each(&fix_catch)?;
    c.lines.iter_mut().try_for_each(|x| at(&mut x.0))?;
    for l in c.locals.iter_mut() {
        at(&mut l.start)?;
        at(&mut l.end)?;
    }
    for a in c.attrs.iter_mut() {
        if let MCodeAttr::TypeAnnos(_, v) = a {
            for t in v.iter_mut() {
                match &mut t.target {
                    MTarget::Locals(_, v) => {
                        for x in v.iter_mut() {
                            at(&mut x.0)?;
                            at(&mut x.1)?;
                        }
                    }
                    MTarget::Catch(c) => fix_catch(c)?,
                    MTarget::Off(_, p) | MTarget::OffArg(_, p, _) => at(p)?,
                    _ => {}
                }
            }
        }
    }
    Ok(c)
}

/// Both sides normalised.
pub fn code(want: &MCode, got: &MCode) -> Result<(), String> {
    let got = align(want, got)?;
    eq("max_stack", &want.max_stack, &got.max_stack)?;
    eq("max_locals", &want.max_locals, &got.max_locals)?;
    list("instruction", &want.insns, &got.insns)?;
    list("handler", &want.catches, &got.catches)?;
    list("line", &want.lines, &got.lines)?;
    list("local", &want.locals, &got.locals)?;
    list("code attribute", &want.attrs, &got.attrs)
}

fn attrs(what: &str, want: &[MAttr], got: &[MAttr]) -> Result<(), String> {
    if want.len() == got.len() {
        for (i, (a, b)) in want.iter().zip(got).enumerate() {
            if let (MAttr::Code(a), MAttr::Code(b)) = (a, b) {
                code(a, b).map_err(|m| format!("{} code: {}", what, m))?;
            } else {
                eq(&format!("{} attribute[{}]", what, i), a, b)?;
            }
        }
        Ok(())
    } else {
        list(&format!("{} attribute", what), want, got)
    }
}

fn mems(what: &str, want: &[MMem], got: &[MMem]) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("{}: expected {}, found {}", what, want.len(), got.len()));
    }
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        let w = format!("{}[{}]", what, i);
        eq(&format!("{} access", w), &a.access, &b.access)?;
        eq(&format!("{} name", w), &a.name, &b.name)?;
        eq(&format!("{} descriptor", w), &a.desc, &b.desc)?;
        attrs(&w, &a.attrs, &b.attrs)?;
    }
    Ok(())
}

/// Everything but the bootstrap table.  Both sides normalised.
pub fn class_but_bsms(want: &MClass, got: &MClass) -> Result<(), String> {
    eq("minor version", &want.minor, &got.minor)?;
    eq("major version", &want.major, &got.major)?;
    eq("access", &want.access, &got.access)?;
    eq("name", &want.name, &got.name)?;
    eq("super name", &want.super_name, &got.super_name)?;
    list("interface", &want.interfaces, &got.interfaces)?;
    mems("field", &want.fields, &got.fields)?;
    mems("method", &want.methods, &got.methods)?;
    attrs("class", &want.attrs, &got.attrs)
}

pub fn class(want: &MClass, got: &MClass) -> Result<(), String> {
    class_but_bsms(want, got)?;
    match (&want.bsms, &got.bsms) {
        (Some(a), Some(b)) => list("bootstrap method", a, b),
        (a, b) => eq("bootstrap table", a, b),
    }
}
