//! Variations of generated models: near-duplicates that differ in exactly one place, and methods
//! stretched so that their positions lie past 32767.

use crate::desc::*;
use crate::engine::Source;
use crate::gen::Gen;
use crate::model::*;
use crate::mstr::*;

/// A different string: one unit changed, added or taken away.
pub fn name(s: &mut Source, n: &MStr) -> MStr {
    let mut o = n.clone();
    o.push_str(*s.pick(&["a", "b", "1", "_"]));
    o
}

pub fn field_type(s: &mut Source, t: &MType) -> MType {
    match t {
        MType::Ref(n) if s.bool() => MType::Ref(name(s, n)),
        MType::Array(d, e) => match s.below(3) {
            0 if *d > 1 => MType::Array(d - 1, e.clone()),
            1 if *d < 255 => MType::Array(d + 1, e.clone()),
            _ => (**e).clone(),
        },
        t => {
            if s.bool() {
                MType::Array(1, Box::new(t.clone()))
            } else {
                gen_field_type(s)
            }
        }
    }
}

pub fn method_type(s: &mut Source, t: &MType, keep_return: bool) -> MType {
    let (mut p, mut r) = match t {
        MType::Method(p, r) => (p.clone(), r.clone()),
        _ => return t.clone(),
    };
    let room = p.iter().map(|t| t.slots()).sum::<usize>() < 200;
    match s.below(4) {
        0 if !keep_return => {
            r = match r {
                None => Some(Box::new(gen_field_type(s))),
                Some(_) => None,
            }
        }
        1 if !p.is_empty() => {
            let k = s.usize(p.len());
            p.remove(k);
        }
        2 if !p.is_empty() => {
            let k = s.usize(p.len());
            let x = field_type(s, &p[k]);
            p[k] = x;
        }
        _ if room => p.push(gen_field_type(s)),
        _ => {}
    }
    MType::Method(p, r)
}

impl<'a> Gen<'a> {
    pub fn vary_member(&mut self, m: &MMember, fixed: bool, itf: bool) -> MMember {
        let mut o = m.clone();
        let meth = matches!(m.desc, MType::Method(..));
        match self.src.below(4) {
            0 if !fixed => o.name = name(self.src, &m.name),
            1 => o.owner = self.class_operand(),
            2 if itf && meth => o.itf = !m.itf,
            _ => o.desc = if meth { method_type(self.src, &m.desc, fixed) } else { field_type(self.src, &m.desc) },
        }
        o
    }
    pub fn vary_handle(&mut self, h: &MHandle) -> MHandle {
        if self.src.bool() {
            let kind = match h.kind {
                k @ 1..=4 => 1 + (k + self.src.below(3) as u8) % 4,
                5 => *self.src.pick(&[6, 7]),
                6 | 7 if h.member.itf => *self.src.pick(&[9, 13 - h.kind]),
                6 | 7 => *self.src.pick(&[5, 13 - h.kind]),
                9 => *self.src.pick(&[6, 7]),
                k => k,
            };
            if kind != h.kind {
                return MHandle { kind, member: h.member.clone() };
            }
        }
        let member = self.vary_member(&h.member, h.kind == 8, matches!(h.kind, 6 | 7));
        MHandle { kind: h.kind, member }
    }
    pub fn vary_const(&mut self, c: &MConst) -> MConst {
        if self.src.chance(1, 8) {
            return self.constant(false);
        }
        match c {
            MConst::Int(i) => match self.src.below(3) {
                0 => MConst::Int(i ^ (1 << self.src.below(32))),
                1 => MConst::Float(*i as u32),
                _ => MConst::Long(*i as i64),
            },
            MConst::Float(i) => match self.src.below(2) {
                0 => MConst::Float(i ^ (1 << self.src.below(32))),
                _ => MConst::Int(*i as i32),
            },
            MConst::Long(i) => match self.src.below(3) {
                0 => MConst::Long(i ^ (1 << self.src.below(64))),
                1 => MConst::Double(*i as u64),
                _ => MConst::Int(*i as i32),
            },
            MConst::Double(i) => match self.src.below(2) {
                0 => MConst::Double(i ^ (1 << self.src.below(64))),
                _ => MConst::Long(*i as i64),
            },
            MConst::Str(s) => MConst::Str(name(self.src, s)),
            MConst::Class(s) if self.src.bool() => MConst::Str(s.clone()),
            MConst::Class(_) => MConst::Class(self.class_operand()),
            MConst::MethodType(t) if self.src.bool() => MConst::Str(t.print()),
            MConst::MethodType(t) => MConst::MethodType(method_type(self.src, t, false)),
            MConst::Handle(h) => MConst::Handle(self.vary_handle(h)),
            MConst::Dyn(d) => MConst::Dyn(Box::new(self.vary_dyn(d))),
        }
    }
    pub fn vary_bsm(&mut self, b: &MBsm) -> MBsm {
        let mut o = b.clone();
        let n = o.args.len();
        match self.src.below(5) {
            0 => o.handle = self.vary_handle(&b.handle),
            1 if n > 0 => {
                o.args.remove(self.src.usize(n));
            }
            2 if n > 1 => {
                let k = self.src.usize(n - 1);
                o.args.swap(k, k + 1);
            }
            _ if n > 0 => {
                // a dynamic argument if there is one
                let d: Vec<usize> = (0..n).filter(|&k| matches!(o.args[k], MConst::Dyn(_))).collect();
                let k = if !d.is_empty() && self.src.chance(2, 3) { d[self.src.usize(d.len())] } else { self.src.usize(n) };
                o.args[k] = self.vary_const(&b.args[k]);
            }
            _ => {
                let c = self.constant(false);
                o.args.push(c);
            }
        }
        o
    }
    pub fn vary_dyn(&mut self, d: &MDyn) -> MDyn {
        let mut o = d.clone();
        match self.src.below(4) {
            0 | 1 => o.name = name(self.src, &d.name),
            2 => {
                o.desc = match &d.desc {
                    t @ MType::Method(..) => method_type(self.src, t, false),
                    t => field_type(self.src, t),
                }
            }
            // bootstrap methods of a designated list only: the nesting stays bounded
            _ if self.bsms.contains(&d.bsm) => o.bsm = self.bsms[self.src.usize(self.bsms.len())].clone(),
            _ => o.bsm.handle = self.vary_handle(&d.bsm.handle),
        }
        o
    }
}

/// Inserts straight-line code before instruction `p`; positions at or after `p` move along.  With `reading`
/// conditional jumps across the filler are turned to their own side (their 16-bit form could not
/// reach), otherwise they stay and the writer has to expand them.
pub fn stretch(c: &mut MCode, p: usize, filler: Vec<MI>, reading: bool) {
    let n = filler.len();
    let mv = |i: &mut usize| {
        if *i >= p {
            *i += n
        }
    };
    for (here, i) in c.insns.iter_mut().enumerate() {
        match i {
            MI::Jump(op, t) => {
                if reading && *op != 167 && (here >= p) != (*t >= p) {
                    *t = here;
                }
                mv(t)
            }
            MI::Jsr(t) => mv(t),
            MI::Table(d, _, v) => {
                mv(d);
                v.iter_mut().for_each(mv);
            }
            MI::Lookup(d, v) => {
                mv(d);
                v.iter_mut().for_each(|x| mv(&mut x.1));
            }
            _ => {}
        }
    }
    c.insns.splice(p..p, filler);
    let mvc = |x: &mut MCatch| {
        mv(&mut x.start);
        mv(&mut x.end);
        mv(&mut x.handler);
    };
    c.catches.iter_mut().for_each(mvc);
    c.lines.iter_mut().for_each(|x| mv(&mut x.0));
    for l in c.locals.iter_mut() {
        mv(&mut l.start);
        mv(&mut l.end);
    }
    for a in c.attrs.iter_mut() {
        if let MCodeAttr::TypeAnnos(_, v) = a {
            for t in v.iter_mut() {
                match &mut t.target {
                    MTarget::Locals(_, v) => v.iter_mut().for_each(|x| {
                        mv(&mut x.0);
                        mv(&mut x.1);
                    }),
                    MTarget::Catch(c) => mvc(c),
                    MTarget::Off(_, i) | MTarget::OffArg(_, i, _) => mv(i),
                    _ => {}
                }
            }
        }
    }
    let mvv = |v: &mut MVerif| {
        if let MVerif::Uninit(i) = v {
            mv(i)
        }
    };
    for (at, f) in c.frames.iter_mut().flatten() {
        mv(at);
        match f {
            MFrame::One(v) => mvv(v),
            MFrame::Append(v) => v.iter_mut().for_each(mvv),
            MFrame::Full(a, b) => a.iter_mut().chain(b).for_each(mvv),
            _ => {}
        }
    }
}

/// Stretches one method of the class so that it gets close to the 65535 bytes a method may have.
pub fn stretch_class(src: &mut Source, m: &mut MClass, reading: bool) -> bool {
    let mut codes: Vec<&mut MCode> =
        m.methods.iter_mut().flat_map(|m| m.attrs.iter_mut()).filter_map(|a| if let MAttr::Code(c) = a { Some(c) } else { None }).collect();
    if codes.is_empty() {
        return false;
    }
    let k = src.usize(codes.len());
    let c = &mut *codes[k];
    if !matches!(c.insns.last(), Some(MI::Op(172..=177))) {
        // an expanded conditional jump needs an instruction behind it
        c.insns.push(MI::Op(177));
    }
    let body: usize = c.insns.iter().map(crate::checks::jump::max_size).sum::<usize>() + 8;
    let room = 65535usize.saturating_sub(body);
    let n = match src.below(4) {
        0 => 32760 + src.usize(16),
        1 => src.range(32768, 60000),
        2 => room - src.usize(4),
        _ => src.range(1, 40000),
    };
    let p = match src.below(3) {
        0 => 0,
        _ => src.usize(c.insns.len()),
    };
    let mut fill = vec![];
    crate::checks::jump::filler(src, n.min(room), &mut fill);
    stretch(c, p, fill, reading);
    true
}
