//! Whole-class checks: C01 C02 C03 C04 C06 C08 C13 C14.

use std::collections::HashSet;

use super::{read, write};
use crate::cmp;
use crate::conv;
use crate::dec;
use crate::desc::MType;
use crate::enc;
use crate::engine::*;
use crate::gen::{self, Focus};
use crate::model::*;
use crate::mstr;
use crate::vary;

pub fn digest(m: &MClass, extra: u64) -> u64 {
    struct H(u64);
    impl std::fmt::Write for H {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 = mix(self.0, hash_bytes(s.as_bytes()));
            Ok(())
        }
    }
    let mut h = H(1);
    let insns: usize = m.codes().map(|c| c.insns.len()).sum();
    if insns > 5000 {
        // stretched: the filler says nothing
        let mut m = m.clone();
        for x in m.methods.iter_mut() {
            for a in x.attrs.iter_mut() {
                if let MAttr::Code(c) = a {
                    c.insns.retain(|i| !matches!(i, MI::Op(0) | MI::Push(MConst::Int(1000))));
                }
            }
        }
        let _ = std::fmt::write(&mut h, format_args!("{:?}", m));
    } else {
        let _ = std::fmt::write(&mut h, format_args!("{:?}", m));
    }
    mix(mix(h.0, insns as u64), extra)
}

/// The file says `m`; the library must report exactly that.
pub fn must_read(m: &MClass, e: &enc::Encoded) -> Result<coffer::clazz::Class, String> {
    let want = enc::expected(m, e);
    let (c, used) = read(&e.bytes).map_err(|x| format!("reading a well-formed class file fails: {}", x))?;
    if used != e.bytes.len() {
        return Err(format!("reading consumed {} of {} bytes", used, e.bytes.len()));
    }
    let mut got = conv::from_coffer(&c).map_err(|x| format!("value read: {}", x))?;
    norm_class(&mut got);
    cmp::class(&want, &got).map_err(|x| format!("read: {}", x))?;
    Ok(c)
}

fn used_const(c: &MConst, out: &mut HashSet<MBsm>) {
    if let MConst::Dyn(d) = c {
        used_bsm(&d.bsm, out);
    }
}
fn used_bsm(b: &MBsm, out: &mut HashSet<MBsm>) {
    if out.insert(b.clone()) {
        b.args.iter().for_each(|a| used_const(a, out));
    }
}
pub fn used_bsms(m: &MClass) -> HashSet<MBsm> {
    let mut s = HashSet::new();
    for c in m.codes() {
        for i in &c.insns {
            match i {
                MI::Push(c) => used_const(c, &mut s),
                MI::InvokeDyn(d) => used_bsm(&d.bsm, &mut s),
                _ => {}
            }
        }
    }
    for b in m.bsms.iter().flatten() {
        b.args.iter().for_each(|a| used_const(a, &mut s));
    }
    s
}

/// The value says `m`; the written file must be well-formed and say exactly that.
pub fn must_write(m: &MClass, c: &coffer::clazz::Class) -> Result<Vec<u8>, String> {
    let b = write(c).map_err(|x| format!("writing a consistent value fails: {}", x))?;
    let mut got = dec::decode(&b).map_err(|x| format!("written file is ill-formed: {}", x))?;
    norm_class(&mut got);
    let mut want = m.clone();
    norm_class(&mut want);
    want.access &= CLASS_FLAGS;
    cmp::class_but_bsms(&want, &got).map_err(|x| format!("written: {}", x))?;
    let used = used_bsms(m);
    let explicit: &[MBsm] = m.bsms.as_deref().unwrap_or(&[]);
    let rest: HashSet<&MBsm> = used.iter().filter(|b| !explicit.contains(b)).collect();
    let table: &[MBsm] = got.bsms.as_deref().unwrap_or(&[]);
    if m.bsms.is_some() && got.bsms.is_none() {
        return Err("written: the bootstrap table is missing".into());
    }
    if table.len() < explicit.len() || &table[..explicit.len()] != explicit {
        return Err(format!("written: bootstrap table {:?} does not start with the value's table {:?}", table, explicit));
    }
    let tail: HashSet<&MBsm> = table[explicit.len()..].iter().collect();
    if tail != rest || table.len() != explicit.len() + rest.len() {
        return Err(format!(
            "written: {} bootstrap methods besides the value's own {}, {} distinct ones are needed",
            table.len() - explicit.len(),
            explicit.len(),
            rest.len()
        ));
    }
    Ok(b)
}

fn describe(m: &MClass) -> String {
    let insns: usize = m.codes().map(|c| c.insns.len()).sum();
    let f: Vec<String> = m
        .codes()
        .flat_map(|c| c.insns.iter().take(3))
        .take(3)
        .map(|i| format!("{:?}", i).chars().take(60).collect())
        .collect();
    let at: Vec<String> = m.attrs.iter().map(|a| format!("{:?}", a).split(['(', ' ']).next().unwrap_or("").to_string()).collect();
    format!(
        "class v{}.{} {} interfaces, {} fields, {} methods, {} instructions {:?}, class attributes {:?}, bootstrap {:?}",
        m.major,
        m.minor,
        m.interfaces.len(),
        m.fields.len(),
        m.methods.len(),
        insns,
        f,
        at,
        m.bsms.as_ref().map(|b| b.len())
    )
}

fn nontrivial(m: &MClass) -> bool {
    let attrs = m.attrs.len() + m.fields.iter().chain(&m.methods).map(|x| x.attrs.len()).sum::<usize>();
    m.fields.len() + m.methods.len() >= 1 && attrs >= 1
}

fn done(m: &MClass, ctx: &mut Ctx, extra: u64, nt: bool) -> CaseResult {
    let sample = if ctx.want_sample { Some(describe(m)) } else { None };
    Ok(Pass { nontrivial: nt, digest: digest(m, extra), sample })
}

fn any_focus(src: &mut Source) -> Focus {
    match src.below(8) {
        0..=2 => Focus::All,
        3 => Focus::Insn,
        4 => Focus::Position,
        5 => Focus::Dyn,
        6 => Focus::Anno,
        _ => Focus::Attr,
    }
}

fn enc_seed(src: &mut Source) -> u64 {
    src.below(1 << 20)
}
fn pad(src: &mut Source) -> usize {
    if src.chance(1, 1000) {
        // indices with the top bit set
        *src.pick(&[27250usize, 27300, 40000, 50000])
    } else if src.chance(1, 6) {
        *src.pick(&[200usize, 250, 254, 255, 256, 300])
    } else {
        0
    }
}

fn c01(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 1000) {
        let (what, n, m) = super::limits::big_model(src);
        let es = enc_seed(src);
        let e = enc::encode(&m, es);
        checkpoint(src);
        must_read(&m, &e).map_err(|x| format!("{} {}: {}", n, what, x.chars().take(400).collect::<String>()))?;
        ctx.count("large tables and strings");
        return Ok(Pass { nontrivial: true, digest: mix(es, mix(hash_bytes(what.as_bytes()), n as u64)), sample: ctx.want_sample.then(|| format!("{} {}", n, what)) });
    }
    let f = any_focus(src);
    let mut m = gen::gen_class(src, f);
    if src.chance(1, 400) && vary::stretch_class(src, &mut m, true) {
        ctx.count("methods of more than 32767 bytes");
    }
    let (es, p) = (enc_seed(src), pad(src));
    let e = enc::encode_with(&m, es, p);
    checkpoint(src);
    must_read(&m, &e)?;
    done(&m, ctx, es, nontrivial(&m))
}
pub static C01: Check = Check {
    id: "C01",
    quick: 800_000,
    thorough: 15_000_000,
    rule: "a case is a generated class model encoded by the independent encoder with a drawn encoding seed; non-trivial: at least one member and one attribute",
    assumptions: &[
        "well-formed means what the generator and the independent encoder produce per JVMS 4 (majors 45-59)",
        "stack-map tables are discarded, undefined flag bits dropped, element pairs of an annotation unordered",
    ],
    level: "exploration",
    run: c01,
    hang_s: 60,
};

fn write_case(src: &mut Source, f: Focus) -> Result<(MClass, u64), String> {
    let mut m = gen::gen_class(src, f);
    if src.chance(1, 400) {
        vary::stretch_class(src, &mut m, false);
    }
    strip_frames(&mut m);
    let seed = src.below(1 << 20);
    let c = conv::to_coffer(&m, seed)?;
    checkpoint(src);
    must_write(&m, &c)?;
    Ok((m, seed))
}
pub fn strip_frames(m: &mut MClass) {
    for x in m.methods.iter_mut() {
        for a in x.attrs.iter_mut() {
            if let MAttr::Code(c) = a {
                c.frames = None;
            }
        }
    }
}

fn c02(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 1500) {
        let (what, n, m) = super::limits::big_model(src);
        let seed = src.below(1 << 20);
        let c = conv::to_coffer(&m, seed)?;
        checkpoint(src);
        must_write(&m, &c).map_err(|x| format!("{} {}: {}", n, what, x.chars().take(400).collect::<String>()))?;
        ctx.count("large tables and strings");
        return done(&m, ctx, seed, true);
    }
    let f = any_focus(src);
    let (m, seed) = write_case(src, f)?;
    done(&m, ctx, seed, nontrivial(&m))
}
pub static C02: Check = Check {
    id: "C02",
    quick: 1_200_000,
    thorough: 15_000_000,
    rule: "a case is a generated class value (labels named and aliased by a drawn seed), written and decoded by the strict independent decoder; non-trivial: at least one member and one attribute",
    assumptions: &["consistent values are those the generator builds: JVMS-legal member/handle/constant combinations within the format's limits"],
    level: "exploration",
    run: c02,
    hang_s: 60,
};

fn hash_order_matters(m: &MClass, len: usize) -> bool {
    // a pool that can reach index 256 before some ldc, with annotation pairs in hash order
    len > 1500 && format!("{:?}", m).contains("MAnno")
}

/// Files that are not well-formed in some respect, where the reader accepts them all the same.
fn c03_dented(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let f = any_focus(src);
    let b = super::fuzz::dented(src, f);
    checkpoint(src);
    let digest = hash_bytes(&b);
    let v = match read(&b) {
        Ok((v, _)) => v,
        Err(_) => {
            ctx.count("changed files refused");
            return pass(false, digest);
        }
    };
    let mut first = match conv::from_coffer(&v) {
        Ok(m) => m,
        Err(_) => return pass(false, digest),
    };
    norm_class(&mut first);
    if wrong_kinds(&first) {
        ctx.count("changed files with operands of the wrong kind");
        return pass(false, digest);
    }
    let b = match write(&v) {
        Ok(b) => b,
        Err(_) => {
            ctx.count("changed files read but not written");
            return pass(false, digest);
        }
    };
    ctx.count("changed files read, written and read");
    let (c, used) = read(&b).map_err(|x| format!("an accepted file: reading what was written fails: {}", x))?;
    if used != b.len() {
        return Err(format!("an accepted file: {} bytes of {} consumed", used, b.len()));
    }
    let mut got = conv::from_coffer(&c).map_err(|x| format!("an accepted file: {}", x))?;
    norm_class(&mut got);
    cmp::class(&first, &got).map_err(|x| format!("an accepted file: {}", x))?;
    Ok(Pass { nontrivial: true, digest, sample: if ctx.want_sample { Some(format!("changed file, accepted: {}", describe(&first))) } else { None } })
}

/// call sites without method descriptors, constants with them
fn wrong_kinds(m: &MClass) -> bool {
    let is_method = |d: &MDyn| matches!(d.desc, MType::Method(..));
    fn in_const(c: &MConst, f: &dyn Fn(&MDyn) -> bool) -> bool {
        match c {
            MConst::Dyn(d) => f(d) || d.bsm.args.iter().any(|a| in_const(a, f)),
            _ => false,
        }
    }
    m.bsms.iter().flatten().any(|b| b.args.iter().any(|a| in_const(a, &is_method)))
        || m.codes().flat_map(|c| &c.insns).any(|i| match i {
            MI::Push(c) => in_const(c, &is_method),
            MI::InvokeDyn(d) => !is_method(d) || d.bsm.args.iter().any(|a| in_const(a, &is_method)),
            _ => false,
        })
}

/// The local variables of each method in the order in which the value lists them.
fn variables(m: &MClass) -> Vec<Vec<(mstr::MStr, u16, Option<MType>)>> {
    m.codes().map(|c| c.locals.iter().map(|l| (l.name.clone(), l.index, l.desc.clone())).collect()).collect()
}

fn c03(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 2) {
        return c03_dented(src, ctx);
    }
    let f = any_focus(src);
    let m = if src.chance(1, 2000) { super::limits::big_model(src).2 } else { gen::gen_class(src, f) };
    let (es, p) = (enc_seed(src), pad(src));
    let cycles = src.range(2, 4);
    let e = enc::encode_with(&m, es, p);
    checkpoint(src);
    let mut v = must_read(&m, &e)?;
    let mut first = conv::from_coffer(&v)?;
    let mut vars = variables(&first);
    norm_class(&mut first);
    let mut size = None;
    for k in 1..=cycles {
        let b = write(&v).map_err(|x| format!("cycle {}: writing what was read fails: {}", k, x))?;
        let b2 = write(&v).map_err(|x| format!("cycle {}: writing a second time fails: {}", k, x))?;
        if b != b2 {
            return Err(format!("cycle {}: writing one value twice gives different bytes", k));
        }
        match size {
            None => size = Some(b.len()),
            Some(s) if s != b.len() && !hash_order_matters(&m, s) => return Err(format!("cycle {}: file size went from {} to {}", k, s, b.len())),
            _ => {}
        }
        let (c, used) = read(&b).map_err(|x| format!("cycle {}: reading what was written fails: {}", k, x))?;
        if used != b.len() {
            return Err(format!("cycle {}: {} bytes of {} consumed", k, used, b.len()));
        }
        let mut got = conv::from_coffer(&c).map_err(|x| format!("cycle {}: {}", k, x))?;
        let now = variables(&got);
        for (a, b) in vars.iter().zip(&now) {
            // without a descriptor, a variable is in another table
            if a.iter().all(|x| x.2.is_some()) && a != b {
                return Err(format!("cycle {}: the variables {:?} come back as {:?}", k, a, b));
            }
        }
        vars = now;
        norm_class(&mut got);
        // the file gains a table when the source file's dynamics were the only mention of it
        cmp::class(&first, &got).map_err(|x| format!("cycle {}: {}", k, x))?;
        v = c;
    }
    done(&m, ctx, es, nontrivial(&m))
}
pub static C03: Check = Check {
    id: "C03",
    quick: 500_000,
    thorough: 8_000_000,
    rule: "a case reads a generated class file and runs 2-4 write/read cycles (non-trivial: at least one member and one attribute), or reads a mutated one and cycles it once (non-trivial: accepted and written)",
    assumptions: &["size stability is not compared when annotation pair order can move constants across pool index 255"],
    level: "exploration",
    run: c03,
    hang_s: 60,
};

fn c04(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    match src.below(8) {
        0..=3 => {
            let m = gen::gen_class(src, Focus::Insn);
            let (es, p) = (enc_seed(src), pad(src));
            let e = enc::encode_with(&m, es, p);
            checkpoint(src);
            must_read(&m, &e)?;
            ctx.add("instructions read", m.codes().map(|c| c.insns.len() as u64).sum());
            done(&m, ctx, es, true)
        }
        4..=6 => {
            let (m, seed) = write_case(src, Focus::Insn)?;
            ctx.add("instructions written", m.codes().map(|c| c.insns.len() as u64).sum());
            done(&m, ctx, seed, true)
        }
        _ => bad_opcode(src, ctx),
    }
}

fn bad_opcode(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    // a method of no-ops with one undefined opcode or malformed wide prefix patched in
    let n = src.range(8, 24);
    let at = src.usize(n - 7);
    let mut m = gen::minimal();
    m.methods.push(gen::method_with(MCode { insns: vec![MI::Op(0); n], ..Default::default() }));
    let e = enc::encode(&m, 0);
    let code = e.attrs.iter().find(|a| a.name == "Code").unwrap();
    let body = code.len_at + 4 + 8;
    let mut b = e.bytes.clone();
    let what = match src.below(2) {
        0 => {
            let op = 203 + src.below(51) as u8;
            b[body + at] = op;
            format!("opcode {}", op)
        }
        _ => {
            b[body + at] = 196;
            let ok = |o: u8| matches!(o, 21..=25 | 54..=58 | 169 | 132);
            let mut op = src.below(256) as u8;
            while ok(op) {
                op = op.wrapping_add(1);
            }
            b[body + at + 1] = op;
            format!("wide {}", op)
        }
    };
    checkpoint(src);
    if read(&b).is_ok() {
        return Err(format!("code with {} at {} is accepted", what, at));
    }
    ctx.count("undefined opcodes refused");
    pass(true, mix(hash_bytes(&b), 1))
}
pub static C04: Check = Check {
    id: "C04",
    quick: 700_000,
    thorough: 12_000_000,
    rule: "a case reads or writes methods of drawn instructions in drawn encodings, or offers an undefined opcode; all are non-trivial",
    assumptions: &["operand ranges are drawn with boundary values; constants come from a pool padded across index 255 in part of the cases"],
    level: "exploration",
    run: c04,
    hang_s: 60,
};

fn c06(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let big = src.chance(1, 100);
    if src.bool() {
        let mut m = gen::gen_class(src, Focus::Position);
        if big && vary::stretch_class(src, &mut m, true) {
            ctx.count("stretched methods read");
        }
        let (es, p) = (enc_seed(src), pad(src));
        let e = enc::encode_with(&m, es, p);
        checkpoint(src);
        let c = must_read(&m, &e)?;
        // and onwards: instruction encodings change size here
        let mut w = m.clone();
        strip_frames(&mut w);
        w.attrs.retain(|a| *a != MAttr::Bootstrap);
        w.bsms = enc::expected(&m, &e).bsms;
        must_write(&w, &c)?;
        let nt = m.codes().any(|c| c.catches.len() + c.lines.len() + c.locals.len() > 0);
        done(&m, ctx, es, nt)
    } else if big {
        let (m, seed) = super::jump::far_class(src, true);
        let c = conv::to_coffer(&m, seed)?;
        checkpoint(src);
        must_write(&m, &c)?;
        ctx.count("methods with far jumps");
        pass(true, mix(seed, m.codes().map(|c| c.insns.len() as u64).sum()))
    } else {
        let (m, seed) = write_case(src, Focus::Position)?;
        let nt = m.codes().any(|c| c.catches.len() + c.lines.len() + c.locals.len() > 0);
        done(&m, ctx, seed, nt)
    }
}
pub static C06: Check = Check {
    id: "C06",
    quick: 400_000,
    thorough: 10_000_000,
    rule: "a case reads (and rewrites) or writes methods with handlers, lines, variables and code annotations; non-trivial: at least one such entry",
    assumptions: &["a line entry past the last instruction is not generated"],
    level: "exploration",
    run: c06,
    hang_s: 60,
};

/// More bootstrap methods than a byte counts, each used.
fn c08_many(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let n = match src.below(128) {
        0..=15 => src.range(505, 530),
        16..=23 => src.range(1000, 1100),
        24..=25 => src.range(2040, 2060),
        26 => src.range(4090, 4110),
        _ => src.range(250, 400),
    };
    let mut m = gen::minimal();
    m.major = 55;
    let mut g = gen::Gen::new(src, Focus::Dyn);
    let mut b = g.bsm();
    let mut insns = vec![];
    for k in 0..n {
        b.args = vec![MConst::Int(k as i32)];
        if g.src.chance(1, 8) {
            let p: &MI = match insns.is_empty() {
                true => &MI::Op(0),
                false => &insns[g.src.usize(insns.len())],
            };
            if let MI::Push(c @ MConst::Dyn(d)) = p {
                if !d.bsm.args.iter().any(|a| matches!(a, MConst::Dyn(_))) {
                    b.args.push(c.clone());
                }
            }
        }
        let call = g.src.bool();
        let name = mstr::ms("d");
        insns.push(if call {
            MI::InvokeDyn(MDyn { bsm: b.clone(), name, desc: MType::Method(vec![], None) })
        } else {
            let desc = MType::Prim(*g.src.pick(&['I', 'J', 'F', 'D']));
            MI::Push(MConst::Dyn(Box::new(MDyn { bsm: b.clone(), name, desc })))
        });
    }
    insns.push(MI::Op(177));
    m.methods.push(gen::method_with(MCode { insns, ..Default::default() }));
    let seed = enc_seed(src);
    if src.bool() {
        let e = enc::encode(&m, seed);
        checkpoint(src);
        let c = must_read(&m, &e)?;
        let mut w = m.clone();
        w.bsms = enc::expected(&m, &e).bsms;
        must_write(&w, &c)?;
    } else {
        let c = conv::to_coffer(&m, seed)?;
        checkpoint(src);
        must_write(&m, &c)?;
    }
    ctx.count("classes with more than 256 bootstrap methods");
    done(&m, ctx, seed, true)
}

/// A dynamic value whose bootstrap method takes a dynamic value whose bootstrap method ...
fn c08_deep(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let n = if src.chance(1, 4) { src.range(20, 200) } else { src.range(3, 20) };
    let mut m = gen::minimal();
    m.major = 55;
    let mut g = gen::Gen::new(src, Focus::Dyn);
    let handle = g.handle();
    let same = g.src.bool();
    let mut chain: Vec<MDyn> = vec![];
    for k in 0..n {
        let mut args = vec![];
        if g.src.chance(1, 4) {
            args.push(g.constant(false));
        }
        if let Some(d) = chain.last() {
            args.push(MConst::Dyn(Box::new(d.clone())));
        }
        if g.src.chance(1, 4) {
            args.push(g.constant(false));
        }
        let handle = if same { handle.clone() } else { g.handle() };
        let name = if g.src.chance(1, 4) { mstr::ms(&format!("d{}", k)) } else { mstr::ms("d") };
        chain.push(MDyn { bsm: MBsm { handle, args }, name, desc: MType::Prim('I') });
    }
    let mut insns = vec![];
    for _ in 0..src.usize(3) {
        insns.push(MI::Push(MConst::Dyn(Box::new(chain[src.usize(n)].clone()))));
    }
    let mut d = chain.pop().unwrap();
    if src.bool() {
        d.desc = MType::Method(vec![], None);
        insns.push(MI::InvokeDyn(d));
    } else {
        insns.push(MI::Push(MConst::Dyn(Box::new(d))));
    }
    insns.push(MI::Op(177));
    m.methods.push(gen::method_with(MCode { insns, ..Default::default() }));
    let seed = enc_seed(src);
    if src.bool() {
        let e = enc::encode(&m, seed);
        checkpoint(src);
        let c = must_read(&m, &e)?;
        let mut w = m.clone();
        w.bsms = enc::expected(&m, &e).bsms;
        must_write(&w, &c)?;
    } else {
        let c = conv::to_coffer(&m, seed)?;
        checkpoint(src);
        must_write(&m, &c)?;
    }
    ctx.count("deeply nested dynamic values");
    done(&m, ctx, seed, true)
}

/// The in-memory form lets every instruction that names a class or member name a dynamic value
/// instead. Such code keeps each dynamic value, with its bootstrap method, through the file.
fn c08_operands(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    use coffer::code::{GetOrPut, Instruction as I, MemberType};
    use coffer::dynamic::OrDynamic::Dynamic as D;
    use coffer::member::MethodAttribute;
    let mut m = gen::minimal();
    m.major = 55;
    let mut g = gen::Gen::new(src, Focus::Dyn);
    let mut want: Vec<(I, MDyn)> = vec![];
    for _ in 0..g.src.range(1, 12) {
        let d = g.dynamic(false);
        let v = conv::dynamic(&d);
        let i = match g.src.below(12) {
            0 => I::CheckCast(D(v)),
            1 => I::InstanceOf(D(v)),
            2 => I::NewArray(D(v), 1),
            3 => I::NewArray(D(v), g.src.range(2, 255) as u8),
            4 => I::New(D(v)),
            5 => I::Field(if g.src.bool() { GetOrPut::Get } else { GetOrPut::Put }, MemberType::Static, D(v)),
            6 => I::Field(if g.src.bool() { GetOrPut::Get } else { GetOrPut::Put }, MemberType::Virtual, D(v)),
            7 => I::InvokeExact(MemberType::Static, D(v)),
            8 => I::InvokeExact(MemberType::Virtual, D(v)),
            9 => I::InvokeSpecial(D(v)),
            10 => I::InvokeInterface(D(v), g.src.range(1, 255) as u8),
            _ => I::Push(D(v)),
        };
        want.push((i, d));
    }
    m.methods.push(gen::method_with(MCode { insns: vec![MI::Op(177)], ..Default::default() }));
    let mut c = conv::to_coffer(&m, 0)?;
    checkpoint(src);
    for a in c.methods[0].attributes.iter_mut() {
        if let MethodAttribute::Code(k) = a {
            k.code.splice(0..0, want.iter().map(|x| x.0.clone()));
        }
    }
    let b = match write(&c) {
        Ok(b) => b,
        Err(_) => return pass(false, 0),
    };
    let r = match read(&b) {
        Ok(r) => r,
        Err(_) => return pass(false, 0),
    };
    let code = r.0.methods.iter().flat_map(|m| m.attributes.iter()).find_map(|a| if let MethodAttribute::Code(k) = a { Some(k) } else { None });
    let code: Vec<&I> = code.ok_or("the code is gone")?.code.iter().filter(|i| !matches!(i, I::Label(_))).collect();
    if code.len() != want.len() + 1 {
        return Err(format!("{} instructions with dynamic operands come back as {}", want.len() + 1, code.len()));
    }
    for (k, (i, d)) in want.iter().enumerate() {
        let got = match code[k] {
            I::CheckCast(D(v)) | I::InstanceOf(D(v)) | I::NewArray(D(v), _) | I::New(D(v)) | I::Field(_, _, D(v)) | I::InvokeExact(_, D(v)) | I::InvokeSpecial(D(v)) | I::InvokeInterface(D(v), _) | I::Push(D(v)) => v,
            x => return Err(format!("{:?} comes back as {:?}", i, x)),
        };
        if code[k] != i {
            return Err(format!("{:?} comes back as {:?}", i, code[k]));
        }
        let got = conv::undynamic(got, 0)?;
        if got != *d {
            return Err(format!("operand {:?} of {:?} comes back as {:?}", d, i, got));
        }
    }
    ctx.count("instructions with dynamic operands");
    pass(true, hash_bytes(&b))
}

fn c08(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 400) {
        return c08_many(src, ctx);
    }
    if src.chance(1, 300) {
        return c08_deep(src, ctx);
    }
    if src.chance(1, 16) {
        return c08_operands(src, ctx);
    }
    match src.below(8) {
        0..=2 => {
            let m = gen::gen_class(src, Focus::Dyn);
            let es = enc_seed(src);
            let e = enc::encode(&m, es);
            checkpoint(src);
            let c = must_read(&m, &e)?;
            let mut w = m.clone();
            strip_frames(&mut w);
            w.attrs.retain(|a| *a != MAttr::Bootstrap);
            w.bsms = enc::expected(&m, &e).bsms;
            must_write(&w, &c)?;
            done(&m, ctx, es, !used_bsms(&m).is_empty())
        }
        3..=5 => {
            let (m, seed) = write_case(src, Focus::Dyn)?;
            done(&m, ctx, seed, !used_bsms(&m).is_empty())
        }
        _ => {
            // break the designation: shorten the table below an index in use
            let m = gen::gen_class(src, Focus::Dyn);
            let used = used_bsms(&m);
            let e = enc::encode(&m, 0);
            if used.is_empty() || !e.has_bsm_attr {
                return pass(false, 0);
            }
            let k = src.usize(e.bsms.len().max(1));
            let b = enc::with_bsm_count(&e, k);
            checkpoint(src);
            // some designation in the file must now be missing
            let mut cut = m.clone();
            cut.bsms = Some(e.bsms[..k].to_vec());
            let missing = used_bsms(&cut).iter().any(|b| !e.bsms[..k].contains(b));
            if !missing {
                return pass(false, 0);
            }
            match dec::decode(&b) {
                Ok(_) => return Err("harness: the mutilated file still decodes".into()),
                Err(_) => {}
            }
            if read(&b).is_ok() {
                return Err(format!("a class whose dynamics designate bootstrap entries at or past {} is accepted with a table of {}", k, k));
            }
            ctx.count("missing entries refused");
            pass(true, hash_bytes(&b))
        }
    }
}
pub static C08: Check = Check {
    id: "C08",
    quick: 700_000,
    thorough: 15_000_000,
    rule: "a case reads, writes or mutilates a class using dynamic constants and call sites (in memory also as operands of instructions that name classes or members); non-trivial: at least one bootstrap method is in use",
    assumptions: &["bootstrap arguments nest to a bounded depth; self-referring tables are only required to be refused or read without a crash (C15)"],
    level: "exploration",
    run: c08,
    hang_s: 60,
};

/// An annotation somewhere whose value tag, target or path kind the specification does not define.
fn c13_undefined(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let mut m = gen::minimal();
    m.fields.push(MMem { access: 1, name: mstr::ms("f"), desc: MType::Prim('I'), attrs: vec![] });
    m.methods.push(gen::method_with(MCode { insns: vec![MI::Op(0), MI::Op(177)], ..Default::default() }));
    let vis = src.bool();
    let kind = src.below(3);
    let place = src.below(4);
    let defined = |t: u8| match kind {
        0 => b"BCDFIJSZsec@[".contains(&t),
        1 => matches!(t, 0 | 1 | 0x10..=0x17 | 0x40..=0x4B),
        _ => t < 4,
    };
    let mut tag = src.u8();
    while defined(tag) {
        tag = tag.wrapping_add(1);
    }
    let anno = |v: Option<MVal>| MAnno { ty: MType::Ref(mstr::ms("A")), pairs: v.into_iter().map(|v| (mstr::ms("v"), v)).collect() };
    let b = if kind == 0 {
        // the file is the same for a byte and a short, except for the tag
        let depth = src.below(4);
        let shape = src.below(3);
        let es = enc_seed(src);
        let file = |v: MVal| {
            let mut v = v;
            for k in 0..depth {
                v = if (k + shape) % 2 == 0 { MVal::Array(vec![MVal::Bool(true), v]) } else { MVal::Anno(anno(Some(v))) };
            }
            let mut m = m.clone();
            let a = MAttr::Annos(vis, vec![anno(Some(v.clone()))]);
            match place {
                0 => m.attrs.push(a),
                1 => m.fields[0].attrs.push(a),
                2 if shape == 0 => m.methods[0].attrs.push(MAttr::AnnoDefault(v)),
                2 if shape == 1 => m.methods[0].attrs.push(MAttr::ParamAnnos(vis, vec![vec![], vec![anno(Some(v))]])),
                _ => m.methods[0].attrs.push(a),
            }
            enc::encode(&m, es).bytes
        };
        let (mut x, y) = (file(MVal::Byte(5)), file(MVal::Short(5)));
        let at: Vec<usize> = (0..x.len()).filter(|i| x[*i] != y[*i]).collect();
        if x.len() != y.len() || at.len() != 1 || read(&x).is_err() || read(&y).is_err() {
            return Err("harness: the tag of the value was not found".into());
        }
        x[at[0]] = tag;
        x
    } else {
        let (a, c) = (src.u8(), src.u16());
        let (mut target, path) = match (kind, place) {
            (1, 0) => (match src.below(3) {
                0 => MTarget::U8(tag, a),
                1 => MTarget::U16(tag, c),
                _ => MTarget::U8U8(tag, a, a),
            }, vec![]),
            (1, 1 | 2) => (MTarget::Empty(tag), vec![]),
            (1, _) => (match src.below(3) {
                0 => MTarget::Locals(tag, vec![(0, 1, c)]),
                1 => MTarget::Off(tag, 1),
                _ => MTarget::OffArg(tag, 0, a),
            }, vec![]),
            (_, 0) => (MTarget::U8(0, a), vec![(3, a), (tag, a)]),
            (_, 1) => (MTarget::Empty(0x13), vec![(tag, 0)]),
            (_, 2) => (MTarget::Empty(0x14), vec![(0, 0), (tag, a), (1, 0)]),
            _ => (MTarget::Off(0x44, 1), vec![(tag, 0)]),
        };
        if kind == 1 && place == 2 && src.bool() {
            target = MTarget::U8(tag, a);
        }
        let t = MTAnno { target, path, anno: anno(None) };
        match place {
            0 => m.attrs.push(MAttr::TypeAnnos(vis, vec![t])),
            1 => m.fields[0].attrs.push(MAttr::TypeAnnos(vis, vec![t])),
            2 => m.methods[0].attrs.push(MAttr::TypeAnnos(vis, vec![t])),
            _ => {
                if let MAttr::Code(c) = &mut m.methods[0].attrs[0] {
                    c.attrs.push(MCodeAttr::TypeAnnos(vis, vec![t]));
                }
            }
        }
        enc::encode(&m, enc_seed(src)).bytes
    };
    checkpoint(src);
    if read(&b).is_ok() {
        return Err(format!("an annotation with the undefined {} {:#04x} is accepted", ["value tag", "target", "path kind"][kind as usize], tag));
    }
    ctx.count("undefined tags refused");
    pass(true, hash_bytes(&b))
}

fn c13(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    if src.chance(1, 12) {
        return c13_undefined(src, ctx);
    }
    if src.bool() {
        let mut m = gen::gen_class(src, Focus::Anno);
        if src.chance(1, 200) {
            vary::stretch_class(src, &mut m, true);
        }
        let es = enc_seed(src);
        let e = enc::encode(&m, es);
        checkpoint(src);
        must_read(&m, &e)?;
        let nt = format!("{:?}", m).contains("MAnno");
        done(&m, ctx, es, nt)
    } else {
        let (m, seed) = write_case(src, Focus::Anno)?;
        let nt = format!("{:?}", m).contains("MAnno");
        done(&m, ctx, seed, nt)
    }
}
pub static C13: Check = Check {
    id: "C13",
    quick: 700_000,
    thorough: 12_000_000,
    rule: "a case reads or writes a class carrying annotations at class, field, method, parameter, default and code positions, or offers one with an undefined value tag, target or path kind; non-trivial: at least one annotation",
    assumptions: &["element names within one annotation are distinct (JVMS does not allow otherwise)"],
    level: "exploration",
    run: c13,
    hang_s: 60,
};

fn c14(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    match src.below(6) {
        0 | 1 => {
            let m = gen::gen_class(src, Focus::Attr);
            let es = enc_seed(src);
            let e = enc::encode(&m, es);
            checkpoint(src);
            let c = must_read(&m, &e)?;
            let mut w = m.clone();
            strip_frames(&mut w);
            w.attrs.retain(|a| *a != MAttr::Bootstrap);
            w.bsms = enc::expected(&m, &e).bsms;
            must_write(&w, &c)?;
            done(&m, ctx, es, nontrivial(&m))
        }
        2 | 3 => {
            let (m, seed) = write_case(src, Focus::Attr)?;
            done(&m, ctx, seed, nontrivial(&m))
        }
        _ => {
            // a recognised attribute whose content does not fill its declared length
            let f = if src.bool() { Focus::Attr } else { Focus::All };
            let m = gen::gen_class(src, f);
            let es = enc_seed(src);
            let e = enc::encode(&m, es);
            let cand: Vec<&enc::AttrMark> =
                e.attrs.iter().filter(|a| gen::recognised(a.loc, &a.name) && a.name != "SourceDebugExtension").collect();
            if cand.is_empty() {
                return pass(false, 0);
            }
            let a = cand[src.usize(cand.len())].clone();
            let end = a.len_at + 4 + a.len;
            let grow = a.len == 0 || src.bool();
            let k = if grow { src.range(1, 4) } else { src.range(1, a.len.min(4)) };
            let mut b = e.bytes.clone();
            if grow {
                let fill: Vec<u8> = (0..k).map(|_| if src.bool() { 0 } else { src.u8() }).collect();
                b.splice(end..end, fill);
            } else {
                b.drain(end - k..end);
            }
            for x in &e.attrs {
                let (s, t) = (x.len_at + 4, x.len_at + 4 + x.len);
                if (x.len_at == a.len_at) || (s <= a.len_at && end <= t && x.len_at < a.len_at) {
                    let n = if grow { x.len + k } else { x.len - k };
                    b[x.len_at..x.len_at + 4].copy_from_slice(&(n as u32).to_be_bytes());
                }
            }
            checkpoint(src);
            if read(&b).is_ok() {
                return Err(format!(
                    "{} ({:?}) whose content of {} bytes is declared and delivered as {} is accepted",
                    a.name,
                    a.loc,
                    a.len,
                    if grow { a.len + k } else { a.len - k }
                ));
            }
            ctx.count("misfit attributes refused");
            pass(true, hash_bytes(&b))
        }
    }
}
pub static C14: Check = Check {
    id: "C14",
    quick: 800_000,
    thorough: 12_000_000,
    rule: "a case reads/writes a class full of attributes (raw ones included), or lengthens/shortens one recognised attribute; non-trivial: at least one attribute involved",
    assumptions: &["SourceDebugExtension has no inner framing and is not lengthened"],
    level: "exploration",
    run: c14,
    hang_s: 60,
};
