//! C05: jumps and switches at every distance and alignment.

use super::class::*;
use crate::conv;
use crate::enc;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::mstr::ms;

/// An upper bound of the written size.
pub fn max_size(i: &MI) -> usize {
    match i {
        MI::Op(_) => 1,
        MI::Push(_) => 3,
        MI::Local(..) => 4,
        MI::Inc(..) => 6,
        MI::Ret(_) => 4,
        MI::Jump(167, _) | MI::Jsr(_) => 5,
        MI::Jump(..) => 8,
        MI::Table(_, _, v) => 16 + 4 * v.len(),
        MI::Lookup(_, v) => 12 + 8 * v.len(),
        _ => 5,
    }
}

pub fn filler(src: &mut Source, n: usize, out: &mut Vec<MI>) {
    // n bytes of straight-line code
    if src.chance(1, 6) {
        out.extend(std::iter::repeat(MI::Op(0)).take(n));
    } else {
        for _ in 0..n / 3 {
            out.push(MI::Push(MConst::Int(1000)));
        }
        out.extend(std::iter::repeat(MI::Op(0)).take(n % 3));
    }
}

fn filler_size(src: &mut Source) -> usize {
    match src.below(8) {
        0..=2 => src.range(0, 7),
        3 => src.range(0, 60),
        4 => 32767 - 30 + src.range(0, 45),
        5 => src.range(0, 4000),
        6 => 32767 / 2 - 10 + src.range(0, 20),
        _ => src.range(0, 34000),
    }
}

/// A method whose jumps span large distances; `tables`: with handlers, lines, variables as well.
pub fn far_insns(src: &mut Source) -> Vec<MI> {
    let mut out: Vec<MI> = vec![];
    let mut size = 0usize;
    let mut blocks: Vec<usize> = vec![]; // indices where control instructions sit
    let k = src.range(1, 14);
    for _ in 0..k {
        let f = filler_size(src);
        if size + f + 64 > 65000 {
            let f = src.range(0, 8);
            filler(src, f, &mut out);
            size += f;
        } else {
            filler(src, f, &mut out);
            size += f;
        }
        for _ in 0..src.range(1, 4) {
            let i = match src.below(10) {
                0..=4 => MI::Jump(*src.pick(CONDS), 0),
                5 | 6 => MI::Jump(167, 0),
                7 => MI::Jsr(0),
                8 => MI::Table(0, src.i32().min(1 << 30), vec![0; src.range(1, 4)]),
                _ => {
                    let n = src.range(0, 3);
                    MI::Lookup(0, (0..n).map(|q| (q as i32 * 1000 - 500 + src.below(900) as i32, 0)).collect())
                }
            };
            if size + max_size(&i) + 40 > 65400 {
                break;
            }
            size += max_size(&i);
            blocks.push(out.len());
            out.push(i);
        }
    }
    out.push(MI::Op(177));
    // targets: near control points, ends, or anywhere
    let n = out.len();
    let pick = |src: &mut Source, here: usize| -> usize {
        let t = match src.below(6) {
            0 | 1 => blocks[src.usize(blocks.len())] as i64 + src.below(5) as i64 - 2,
            2 => n as i64 - 1 - src.below(4) as i64,
            3 => src.below(4) as i64,
            4 => here as i64 + src.below(9) as i64 - 4,
            _ => src.usize(n) as i64,
        };
        t.clamp(0, n as i64 - 1) as usize
    };
    for here in blocks.clone() {
        let mut i = out[here].clone();
        match &mut i {
            MI::Jump(_, t) | MI::Jsr(t) => *t = pick(src, here),
            MI::Table(d, _, v) => {
                *d = pick(src, here);
                v.iter_mut().for_each(|t| *t = pick(src, here));
            }
            MI::Lookup(d, v) => {
                *d = pick(src, here);
                v.iter_mut().for_each(|t| t.1 = pick(src, here));
            }
            _ => {}
        }
        out[here] = i;
    }
    out
}

pub fn far_class(src: &mut Source, tables: bool) -> (MClass, u64) {
    let insns = far_insns(src);
    let n = insns.len();
    let mut c = MCode { max_stack: 1, max_locals: 1, insns, ..Default::default() };
    if tables {
        for _ in 0..src.range(1, 4) {
            let start = src.usize(n);
            let end = src.range(start + 1, n);
            c.catches.push(MCatch { start, end, handler: src.usize(n), class: None });
        }
        for _ in 0..src.range(1, 6) {
            c.lines.push((src.usize(n), src.u16()));
        }
        for i in 0..src.range(1, 4) {
            let (start, end) = gen::range(src, n);
            c.locals.push(MLocal { start, end, name: ms(&format!("v{}", i)), desc: Some(crate::desc::MType::Prim('I')), sig: None, index: i as u16 });
        }
    }
    let mut m = gen::minimal();
    m.methods.push(gen::method_with(c));
    let seed = src.below(1 << 20);
    (m, seed)
}

/// Small methods: every mix of jumps and switch alignments at short range.
fn near_class(src: &mut Source) -> (MClass, u64) {
    let k = src.range(1, 30);
    let mut insns = vec![];
    for _ in 0..k {
        insns.push(match src.below(8) {
            0..=2 => MI::Op(0),
            3 => MI::Push(MConst::Int(300)),
            4 => MI::Jump(*src.pick(CONDS), src.usize(k)),
            5 => {
                if src.bool() {
                    MI::Jsr(src.usize(k))
                } else {
                    MI::Jump(167, src.usize(k))
                }
            }
            6 => {
                let n = if src.chance(1, 60) { src.range(100, 2000) } else { src.range(1, 5) };
                let low = src.i32().min(i32::MAX - n as i32 + 1);
                MI::Table(src.usize(k), low, (0..n).map(|_| src.usize(k)).collect())
            }
            _ => {
                let n = if src.chance(1, 60) { src.range(100, 900) } else { src.range(0, 5) };
                let mut t: Vec<(i32, usize)> = vec![];
                let mut keys = std::collections::HashSet::new();
                for _ in 0..n {
                    let key = src.i32();
                    if keys.insert(key) {
                        t.push((key, src.usize(k)));
                    }
                }
                MI::Lookup(src.usize(k), t)
            }
        });
    }
    // more than a method holds: leave the large switches out
    while insns.iter().map(max_size).sum::<usize>() > 65000 {
        let at = (0..insns.len()).max_by_key(|&i| max_size(&insns[i])).unwrap();
        insns[at] = MI::Op(0);
    }
    let mut m = gen::minimal();
    m.methods.push(gen::method_with(MCode { insns, ..Default::default() }));
    let seed = src.below(1 << 20);
    (m, seed)
}

/// One jump whose distance in its short form is exactly at the edge of 16 bits, with other jumps
/// inside the span whose width may push it over.
fn edge_class(src: &mut Source) -> (MClass, u64) {
    let back = src.bool();
    let d = 32764 + src.usize(9);
    let mut insns: Vec<MI> = vec![];
    // what stands in front
    for _ in 0..src.usize(3) {
        insns.push(match src.below(4) {
            0 | 1 => MI::Op(0),
            2 => MI::Push(MConst::Int(1000)),
            _ => MI::Jump(167, usize::MAX),
        });
    }
    let jump = |src: &mut Source| match src.below(4) {
        0 => MI::Jump(167, 0),
        1 => MI::Jsr(0),
        _ => MI::Jump(*src.pick(CONDS), 0),
    };
    let edge = jump(src);
    let first = insns.len();
    let mut at = 0;
    if !back {
        at = insns.len();
        insns.push(edge.clone());
    }
    let inner = src.usize(4);
    let mut fill = d - 3 * inner - if back { 0 } else { 3 };
    for k in 0..=inner {
        let n = if k == inner {
            fill
        } else {
            match src.below(3) {
                0 => src.usize(3),
                1 => src.usize(fill.min(300)),
                _ => src.usize(fill),
            }
        };
        filler(src, n, &mut insns);
        fill -= n;
        if k < inner {
            let j = jump(src);
            insns.push(j);
        }
    }
    let last = insns.len();
    if back {
        at = last;
        insns.push(edge);
    }
    for _ in 0..src.usize(3) {
        insns.push(if src.chance(1, 3) { MI::Jump(167, 0) } else { MI::Op(0) });
    }
    insns.push(MI::Op(177));
    let n = insns.len();
    for k in 0..n {
        if let MI::Jump(_, t) | MI::Jsr(t) = &mut insns[k] {
            *t = if k == at {
                if back {
                    first
                } else {
                    last
                }
            } else {
                match src.below(4) {
                    0 => (k + src.usize(4)).min(n - 1),
                    1 => k.saturating_sub(src.usize(4)),
                    2 => (first + src.usize(3)).min(n - 1),
                    _ => (last + src.usize(3)).saturating_sub(1).min(n - 1),
                }
            };
        }
    }
    let mut m = gen::minimal();
    m.methods.push(gen::method_with(MCode { insns, ..Default::default() }));
    let seed = src.below(1 << 20);
    (m, seed)
}

/// Jumps that each come out of reach only when their neighbour has been made wide.
fn cascade_class(src: &mut Source) -> (MClass, u64) {
    let back = src.bool();
    let k = match src.below(4) {
        0 => src.range(2, 8),
        1 | 2 => src.range(8, 80),
        _ => src.range(80, 700),
    };
    let only = src.below(4);
    let jumps: Vec<MI> = (0..k)
        .map(|_| match if only == 3 { src.below(3) } else { only } {
            0 => MI::Jump(167, 0),
            1 => MI::Jsr(0),
            _ => MI::Jump(*src.pick(CONDS), 0),
        })
        .collect();
    let gaps: Vec<usize> = (0..k).map(|_| if src.chance(1, 4) { src.usize(4) } else { 0 }).collect();
    let growth = |j: &MI| if matches!(j, MI::Jump(167, _) | MI::Jsr(_)) { 2 } else { 5 };
    // the chain: position 0 is out of reach from the start, every other one after the one before it
    let chain: Vec<usize> = if back { (0..k).collect() } else { (0..k).rev().collect() };
    let limit = if back { 32768 } else { 32767 };
    let mut dist = vec![0usize; k];
    let mut grown = 0;
    for (q, &j) in chain.iter().enumerate() {
        if q == 0 {
            dist[j] = limit + 1 + src.usize(3);
        } else {
            let g = growth(&jumps[chain[q - 1]]);
            dist[j] = limit - grown - src.usize(g);
            grown += g;
        }
    }
    // where they stand in the short layout, from the start of the block of jumps
    let mut pos = vec![0usize; k];
    let mut len = 0;
    for j in 0..k {
        len += gaps[j];
        pos[j] = len;
        len += 3;
    }
    let front = src.usize(4);
    let mut insns: Vec<MI> = vec![MI::Op(0); front];
    // the bytes in which the targets lie are single instructions
    let (lo, hi) = if back {
        let far = (0..k).map(|j| dist[j] as i64 - pos[j] as i64).max().unwrap();
        let near = (0..k).map(|j| dist[j] as i64 - pos[j] as i64).min().unwrap();
        (far as usize, near.max(0) as usize) // distances back from the block
    } else {
        let t = |j: usize| pos[j] + dist[j] - len; // distances from the end of the block
        ((0..k).map(t).min().unwrap(), (0..k).map(t).max().unwrap())
    };
    let mut targets = vec![0usize; k];
    let put = |insns: &mut Vec<MI>| {
        let base = insns.len();
        let mut at = vec![0; k];
        for j in 0..k {
            insns.extend(std::iter::repeat(MI::Op(0)).take(gaps[j]));
            at[j] = insns.len();
            insns.push(jumps[j].clone());
        }
        (base, at)
    };
    let at;
    if back {
        let start = insns.len();
        insns.extend(std::iter::repeat(MI::Op(0)).take(lo - hi + 1));
        filler(src, hi.max(1) - 1, &mut insns);
        let (_, a) = put(&mut insns);
        at = a;
        for j in 0..k {
            targets[j] = start + (lo - (dist[j] - pos[j]));
        }
    } else {
        let (_, a) = put(&mut insns);
        at = a;
        filler(src, lo, &mut insns);
        let start = insns.len();
        insns.extend(std::iter::repeat(MI::Op(0)).take(hi - lo + 1));
        for j in 0..k {
            targets[j] = start + (pos[j] + dist[j] - len - lo);
        }
    }
    insns.push(MI::Op(177));
    for j in 0..k {
        if let MI::Jump(_, t) | MI::Jsr(t) = &mut insns[at[j]] {
            *t = targets[j];
        }
    }
    let mut m = gen::minimal();
    m.methods.push(gen::method_with(MCode { insns, ..Default::default() }));
    let seed = src.below(1 << 20);
    (m, seed)
}

fn negation() -> Result<(), String> {
    for &op in CONDS {
        let n: Option<coffer::code::JumpCondition> = -conv::cond(op);
        if n != Some(conv::cond(negated(op))) {
            return Err(format!("the negation of {:?} is {:?}", conv::cond(op), n));
        }
        let n: Option<coffer::code::JumpCondition> = -&conv::cond(op);
        if n != Some(conv::cond(negated(op))) {
            return Err(format!("the negation of &{:?} is {:?}", conv::cond(op), n));
        }
        let b: u8 = conv::cond(op).into();
        if b != op {
            return Err(format!("{:?} has opcode {}", conv::cond(op), b));
        }
    }
    if (-coffer::code::JumpCondition::Always).is_some() {
        return Err("an unconditional jump has a negation".into());
    }
    Ok(())
}

fn c05(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let far = src.chance(3, 8);
    let reading = src.chance(1, 3);
    let (m, seed) = match far {
        true if src.bool() => {
            if src.chance(1, 4) {
                cascade_class(src)
            } else {
                edge_class(src)
            }
        }
        true => far_class(src, false),
        _ => near_class(src),
    };
    checkpoint(src);
    negation()?;
    if reading {
        let e = enc::encode(&m, seed);
        // a producer's encoding may need wide jumps the format lacks: only legal files count
        if crate::dec::decode(&e.bytes).is_err() {
            return pass(false, 0);
        }
        let mut want = m.clone();
        let mut file = crate::dec::decode(&e.bytes).unwrap();
        norm_class(&mut want);
        norm_class(&mut file);
        if crate::cmp::class(&want, &file).is_err() {
            // the encoder lowered a jump itself: the file says what it says
            want = file;
        }
        must_read(&want, &e)?;
        ctx.count(if far { "far read" } else { "near read" });
    } else {
        let c = conv::to_coffer(&m, seed)?;
        must_write(&m, &c)?;
        ctx.count(if far { "far written" } else { "near written" });
    }
    let jumps = m.codes().flat_map(|c| c.insns.iter()).filter(|i| matches!(i, MI::Jump(..) | MI::Jsr(_) | MI::Table(..) | MI::Lookup(..))).count();
    let sample = if ctx.want_sample {
        let n: usize = m.codes().map(|c| c.insns.len()).sum();
        Some(format!("{} method of {} instructions with {} jumps, {}", if far { "far" } else { "near" }, n, jumps, if reading { "read" } else { "written" }))
    } else {
        None
    };
    Ok(Pass { nontrivial: jumps > 0, digest: digest(&m, seed), sample })
}
pub static C05: Check = Check {
    id: "C05",
    quick: 50_000,
    thorough: 1_000_000,
    rule: "a case writes or reads a method of jumps and switches with fillers sized around the 16-bit reach; non-trivial: at least one jump",
    assumptions: &["methods whose size could exceed 65535 bytes under the widest encodings are not generated here (C16 covers the limit)"],
    level: "exploration",
    run: c05,
    hang_s: 60,
};
