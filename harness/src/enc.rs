//! Independent class-file encoder.  It exercises the encoding freedom a producer has: pool order,
//! duplicate and unused entries, instruction forms, table splitting, attribute placement.
//! `seed == 0` gives the plain canonical encoding.

use std::collections::HashMap;

use crate::desc::*;
use crate::engine::Rng;
use crate::model::*;
use crate::mstr::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ent {
    Utf8(MStr),
    Int(i32),
    Float(u32),
    Long(i64),
    Double(u64),
    Class(MStr),
    Str(MStr),
    /// 9, 10, 11
    Ref(u8, MStr, MStr, MStr),
    Nat(MStr, MStr),
    Handle(u8, Box<Ent>),
    MethodType(MStr),
    /// 17, 18
    Dyn(u8, u16, MStr, MStr),
    Module(MStr),
    Package(MStr),
}

pub struct Enc {
    /// structural decisions: restarted before each pass so that all passes agree
    rng: Rng,
    /// choices among equal pool entries, which only the emitting pass makes
    pick: Rng,
    free: bool,
    /// entries in order of discovery (pass 1) and their assigned indices (pass 2)
    ents: Vec<Ent>,
    seen: HashMap<Ent, Vec<u16>>,
    assigned: bool,
    pub bsms: Vec<MBsm>,
    bsm_dup: bool,
    /// byte offsets of every attribute_length field with the attribute's start, for fault injection
    pub attr_marks: Vec<AttrMark>,
}

#[derive(Clone, Debug)]
pub struct AttrMark {
    pub name: String,
    /// offset of the u4 length within the class file
    pub len_at: usize,
    pub len: usize,
    pub loc: crate::gen::Loc,
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub bsms: Vec<MBsm>,
    pub has_bsm_attr: bool,
    pub attrs: Vec<AttrMark>,
    /// offset just after the constant pool
    pub body_at: usize,
}

struct Buf(Vec<u8>);
impl Buf {
    fn u1(&mut self, x: u8) {
        self.0.push(x)
    }
    fn u2(&mut self, x: u16) {
        self.0.extend_from_slice(&x.to_be_bytes())
    }
    fn u4(&mut self, x: u32) {
        self.0.extend_from_slice(&x.to_be_bytes())
    }
}

fn member_ent(m: &MMember) -> Ent {
    let tag = if !m.desc.is_method() {
        9
    } else if m.itf {
        11
    } else {
        10
    };
    Ent::Ref(tag, m.owner.clone(), m.name.clone(), m.desc.print())
}

fn handle_ent(h: &MHandle) -> Ent {
    Ent::Handle(h.kind, Box::new(member_ent(&h.member)))
}

impl Enc {
    fn r(&mut self, n: u64) -> u64 {
        if self.free {
            self.rng.below(n)
        } else {
            0
        }
    }

    fn p(&mut self, n: u64) -> u64 {
        if self.free {
            self.pick.below(n)
        } else {
            0
        }
    }

    fn need(&mut self, e: Ent) {
        if self.seen.contains_key(&e) {
            return;
        }
        self.seen.insert(e.clone(), vec![]);
        for c in children(&e) {
            self.need(c);
        }
        self.ents.push(e);
    }

    fn ix(&mut self, e: Ent) -> u16 {
        if !self.assigned {
            self.need(e);
            return 1;
        }
        let v = self.seen.get(&e).unwrap_or_else(|| panic!("entry not collected: {:?}", e)).clone();
        if v.len() == 1 {
            v[0]
        } else {
            v[self.p(v.len() as u64) as usize]
        }
    }

    fn bsm_ix(&mut self, b: &MBsm) -> u16 {
        if !self.assigned {
            // collect nested first or last: both legal
            if !self.bsms.contains(b) || (self.bsm_dup && self.p(6) == 1) {
                self.bsms.push(b.clone());
                self.bsm_body(b);
            }
        }
        let c: Vec<usize> = self.bsms.iter().enumerate().filter(|x| x.1 == b).map(|x| x.0).collect();
        let k = if self.assigned { self.p(c.len() as u64) as usize } else { 0 };
        c[k] as u16
    }

    /// All the (bsm index) choices must be known before entries are assigned, so a Dyn entry is
    /// requested for one deterministic index per bsm value.
    fn dyn_ent(&mut self, d: &MDyn) -> Ent {
        if !self.assigned {
            self.bsm_ix(&d.bsm);
        }
        let cands: Vec<u16> = self.bsms.iter().enumerate().filter(|x| *x.1 == d.bsm).map(|x| x.0 as u16).collect();
        let i = cands[0];
        // use the last duplicate for half of the names
        let i = if self.assigned && self.free && cands.len() > 1 && d.name.0.len() % 2 == 0 { *cands.last().unwrap() } else { i };
        let tag = if d.desc.is_method() { 18 } else { 17 };
        Ent::Dyn(tag, i, d.name.clone(), d.desc.print())
    }

    fn const_ent(&mut self, c: &MConst) -> Ent {
        match c {
            MConst::Int(i) => Ent::Int(*i),
            MConst::Float(b) => Ent::Float(*b),
            MConst::Long(l) => Ent::Long(*l),
            MConst::Double(b) => Ent::Double(*b),
            MConst::Str(s) => Ent::Str(s.clone()),
            MConst::Class(s) => Ent::Class(s.clone()),
            MConst::MethodType(t) => Ent::MethodType(t.print()),
            MConst::Handle(h) => handle_ent(h),
            MConst::Dyn(d) => self.dyn_ent(d),
        }
    }

    fn bsm_body(&mut self, b: &MBsm) -> Vec<u8> {
        let mut o = Buf(vec![]);
        let h = self.ix(handle_ent(&b.handle));
        o.u2(h);
        o.u2(b.args.len() as u16);
        for a in &b.args {
            let e = self.const_ent(a);
            let i = self.ix(e);
            o.u2(i);
        }
        o.0
    }

    fn utf(&mut self, s: &MStr) -> u16 {
        self.ix(Ent::Utf8(s.clone()))
    }
    fn cls(&mut self, s: &MStr) -> u16 {
        self.ix(Ent::Class(s.clone()))
    }

    fn attr(&mut self, o: &mut Buf, loc: crate::gen::Loc, name: &str, body: Vec<u8>, inner: Vec<AttrMark>) {
        let i = self.utf(&ms(name));
        o.u2(i);
        let at = o.0.len();
        o.u4(body.len() as u32);
        self.attr_marks.push(AttrMark { name: name.to_string(), len_at: at, len: body.len(), loc });
        for mut m in inner {
            m.len_at += at + 4;
            self.attr_marks.push(m);
        }
        o.0.extend_from_slice(&body);
    }

    fn anno(&mut self, o: &mut Buf, a: &MAnno) {
        let t = self.utf(&a.ty.print());
        o.u2(t);
        self.pairs(o, a);
    }
    fn pairs(&mut self, o: &mut Buf, a: &MAnno) {
        o.u2(a.pairs.len() as u16);
        for (k, v) in &a.pairs {
            let k = self.utf(k);
            o.u2(k);
            self.val(o, v);
        }
    }
    fn val(&mut self, o: &mut Buf, v: &MVal) {
        let (tag, idx) = match v {
            MVal::Byte(x) => (b'B', self.ix(Ent::Int(*x as i32))),
            MVal::Char(x) => (b'C', self.ix(Ent::Int(*x as i32))),
            MVal::Double(x) => (b'D', self.ix(Ent::Double(*x))),
            MVal::Float(x) => (b'F', self.ix(Ent::Float(*x))),
            MVal::Int(x) => (b'I', self.ix(Ent::Int(*x))),
            MVal::Long(x) => (b'J', self.ix(Ent::Long(*x))),
            MVal::Short(x) => (b'S', self.ix(Ent::Int(*x as i32))),
            MVal::Bool(x) => (b'Z', self.ix(Ent::Int(*x as i32))),
            MVal::Str(s) => (b's', self.utf(s)),
            MVal::Enum(t, n) => {
                o.u1(b'e');
                let a = self.utf(&t.print());
                let b = self.utf(n);
                o.u2(a);
                o.u2(b);
                return;
            }
            MVal::Class(t) => (b'c', self.utf(&t.as_ref().map_or(ms("V"), |t| t.print()))),
            MVal::Anno(a) => {
                o.u1(b'@');
                self.anno(o, a);
                return;
            }
            MVal::Array(vs) => {
                o.u1(b'[');
                o.u2(vs.len() as u16);
                for v in vs {
                    self.val(o, v);
                }
                return;
            }
        };
        o.u1(tag);
        o.u2(idx);
    }

    fn tanno(&mut self, o: &mut Buf, t: &MTAnno, pos: &[usize], catches: &[MCatch]) {
        match &t.target {
            MTarget::Empty(g) => o.u1(*g),
            MTarget::U8(g, a) => {
                o.u1(*g);
                o.u1(*a);
            }
            MTarget::U16(g, a) => {
                o.u1(*g);
                o.u2(*a);
            }
            MTarget::U8U8(g, a, b) => {
                o.u1(*g);
                o.u1(*a);
                o.u1(*b);
            }
            MTarget::Locals(g, v) => {
                o.u1(*g);
                o.u2(v.len() as u16);
                for (a, b, i) in v {
                    o.u2(pos[*a] as u16);
                    o.u2((pos[*b] - pos[*a]) as u16);
                    o.u2(*i);
                }
            }
            MTarget::Catch(c) => {
                o.u1(0x42);
                let same: Vec<usize> = catches.iter().enumerate().filter(|x| x.1 == c).map(|x| x.0).collect();
                let k = self.r(same.len() as u64) as usize;
                o.u2(same[k] as u16);
            }
            MTarget::Off(g, p) => {
                o.u1(*g);
                o.u2(pos[*p] as u16);
            }
            MTarget::OffArg(g, p, a) => {
                o.u1(*g);
                o.u2(pos[*p] as u16);
                o.u1(*a);
            }
        }
        o.u1(t.path.len() as u8);
        for (k, i) in &t.path {
            o.u1(*k);
            o.u1(*i);
        }
        self.anno(o, &t.anno);
    }

    fn names(&mut self, v: &[MStr], f: fn(MStr) -> Ent) -> Vec<u8> {
        let mut b = Buf(vec![]);
        b.u2(v.len() as u16);
        for s in v {
            let i = self.ix(f(s.clone()));
            b.u2(i);
        }
        b.0
    }

    fn vis(v: bool, suffix: &str) -> String {
        format!("Runtime{}{}", if v { "Visible" } else { "Invisible" }, suffix)
    }

    fn attrs(&mut self, o: &mut Buf, attrs: &[MAttr], loc: crate::gen::Loc) {
        o.u2(attrs.len() as u16);
        for a in attrs {
            let mut b = Buf(vec![]);
            let mut inner = vec![];
            let name: String = match a {
                MAttr::Deprecated => "Deprecated".into(),
                MAttr::Synthetic => "Synthetic".into(),
                MAttr::Signature(s) => {
                    let i = self.utf(s);
                    b.u2(i);
                    "Signature".into()
                }
                MAttr::SourceFile(s) => {
                    let i = self.utf(s);
                    b.u2(i);
                    "SourceFile".into()
                }
                MAttr::InnerClasses(v) => {
                    b.u2(v.len() as u16);
                    for (i, ou, n, f) in v {
                        let i = self.cls(i);
                        b.u2(i);
                        let x = ou.as_ref().map_or(0, |s| self.cls(s));
                        b.u2(x);
                        let x = n.as_ref().map_or(0, |s| self.utf(s));
                        b.u2(x);
                        b.u2(*f);
                    }
                    "InnerClasses".into()
                }
                MAttr::EnclosingMethod(c, m) => {
                    let i = self.cls(c);
                    b.u2(i);
                    let x = m.as_ref().map_or(0, |(n, t)| self.ix(Ent::Nat(n.clone(), t.print())));
                    b.u2(x);
                    "EnclosingMethod".into()
                }
                MAttr::SourceDebugExtension(s) => {
                    b.0 = s.mutf8();
                    "SourceDebugExtension".into()
                }
                MAttr::Module(m) => {
                    let i = self.ix(Ent::Module(m.name.clone()));
                    b.u2(i);
                    b.u2(m.flags);
                    let x = m.version.as_ref().map_or(0, |s| self.utf(s));
                    b.u2(x);
                    b.u2(m.requires.len() as u16);
                    for (n, f, v) in &m.requires {
                        let i = self.ix(Ent::Module(n.clone()));
                        b.u2(i);
                        b.u2(*f);
                        let x = v.as_ref().map_or(0, |s| self.utf(s));
                        b.u2(x);
                    }
                    for list in [&m.exports, &m.opens] {
                        b.u2(list.len() as u16);
                        for (n, f, to) in list {
                            let i = self.ix(Ent::Package(n.clone()));
                            b.u2(i);
                            b.u2(*f);
                            let t = self.names(to, Ent::Module);
                            b.0.extend(t);
                        }
                    }
                    let t = self.names(&m.uses, Ent::Class);
                    b.0.extend(t);
                    b.u2(m.provides.len() as u16);
                    for (n, w) in &m.provides {
                        let i = self.cls(n);
                        b.u2(i);
                        let t = self.names(w, Ent::Class);
                        b.0.extend(t);
                    }
                    "Module".into()
                }
                MAttr::ModulePackages(v) => {
                    b.0 = self.names(v, Ent::Package);
                    "ModulePackages".into()
                }
                MAttr::ModuleMainClass(s) => {
                    let i = self.cls(s);
                    b.u2(i);
                    "ModuleMainClass".into()
                }
                MAttr::NestHost(s) => {
                    let i = self.cls(s);
                    b.u2(i);
                    "NestHost".into()
                }
                MAttr::NestMembers(v) => {
                    b.0 = self.names(v, Ent::Class);
                    "NestMembers".into()
                }
                MAttr::Annos(vis, v) => {
                    b.u2(v.len() as u16);
                    for x in v {
                        self.anno(&mut b, x);
                    }
                    Self::vis(*vis, "Annotations")
                }
                MAttr::TypeAnnos(vis, v) => {
                    b.u2(v.len() as u16);
                    for x in v {
                        self.tanno(&mut b, x, &[], &[]);
                    }
                    Self::vis(*vis, "TypeAnnotations")
                }
                MAttr::ParamAnnos(vis, v) => {
                    b.u1(v.len() as u8);
                    for p in v {
                        b.u2(p.len() as u16);
                        for x in p {
                            self.anno(&mut b, x);
                        }
                    }
                    Self::vis(*vis, "ParameterAnnotations")
                }
                MAttr::AnnoDefault(v) => {
                    self.val(&mut b, v);
                    "AnnotationDefault".into()
                }
                MAttr::Exceptions(v) => {
                    b.0 = self.names(v, Ent::Class);
                    "Exceptions".into()
                }
                MAttr::MethodParameters(v) => {
                    b.u1(v.len() as u8);
                    for (n, f) in v {
                        let x = n.as_ref().map_or(0, |s| self.utf(s));
                        b.u2(x);
                        b.u2(*f);
                    }
                    "MethodParameters".into()
                }
                MAttr::ConstantValue(c) => {
                    let e = self.const_ent(c);
                    let i = self.ix(e);
                    b.u2(i);
                    "ConstantValue".into()
                }
                MAttr::Code(c) => {
                    let saved = std::mem::take(&mut self.attr_marks);
                    self.code(&mut b, c);
                    inner = std::mem::replace(&mut self.attr_marks, saved);
                    "Code".into()
                }
                MAttr::Bootstrap => {
                    let t = self.bsms.clone();
                    b.u2(t.len() as u16);
                    for x in &t {
                        let y = self.bsm_body(x);
                        b.0.extend(y);
                    }
                    "BootstrapMethods".into()
                }
                MAttr::Raw(n, bytes) => {
                    let i = self.utf(n);
                    o.u2(i);
                    self.attr_marks.push(AttrMark { name: "<raw>".into(), len_at: o.0.len(), len: bytes.len(), loc });
                    o.u4(bytes.len() as u32);
                    o.0.extend_from_slice(bytes);
                    continue;
                }
            };
            self.attr(o, loc, &name, b.0, inner);
        }
    }

    /// One instruction at `at`; `wide_jump` chooses goto_w/jsr_w.  `pos` gives target positions
    /// (empty during sizing).
    fn insn(&mut self, i: &MI, form: u64, at: usize, pos: &[usize], wide_jump: bool) -> Vec<u8> {
        let mut o = Buf(vec![]);
        let off = |t: usize| -> i64 { if pos.is_empty() { 0 } else { pos[t] as i64 - at as i64 } };
        match i {
            MI::Op(x) => o.u1(*x),
            MI::Push(c) => {
                let mut forms: Vec<Vec<u8>> = vec![];
                match c {
                    MConst::Int(v) => {
                        if (-1..=5).contains(v) {
                            forms.push(vec![(3 + v) as u8]);
                        }
                        if let Ok(b) = i8::try_from(*v) {
                            forms.push(vec![16, b as u8]);
                        }
                        if let Ok(b) = i16::try_from(*v) {
                            let b = b.to_be_bytes();
                            forms.push(vec![17, b[0], b[1]]);
                        }
                    }
                    MConst::Long(v @ 0..=1) => forms.push(vec![9 + *v as u8]),
                    MConst::Float(0) => forms.push(vec![11]),
                    MConst::Float(0x3F80_0000) => forms.push(vec![12]),
                    MConst::Float(0x4000_0000) => forms.push(vec![13]),
                    MConst::Double(0) => forms.push(vec![14]),
                    MConst::Double(0x3FF0_0000_0000_0000) => forms.push(vec![15]),
                    _ => {}
                }
                // pool forms
                if forms.is_empty() || form % 3 == 1 {
                    let e = self.const_ent(c);
                    let ix = self.ix(e);
                    let b = ix.to_be_bytes();
                    if c.wide() {
                        forms = vec![vec![20, b[0], b[1]]];
                    } else if ix <= 255 && form % 2 == 0 {
                        forms = vec![vec![18, b[1]]];
                    } else {
                        forms = vec![vec![19, b[0], b[1]]];
                    }
                }
                let k = (form / 3) as usize % forms.len();
                o.0 = forms[k].clone();
            }
            MI::Local(st, ty, ix) => {
                let base = if *st { 54 } else { 21 } + ty;
                let short = if *st { 59 } else { 26 } + ty * 4;
                if *ix < 4 && form % 3 == 0 {
                    o.u1(short + *ix as u8);
                } else if *ix < 256 && form % 3 != 1 {
                    o.u1(base);
                    o.u1(*ix as u8);
                } else {
                    o.u1(196);
                    o.u1(base);
                    o.u2(*ix);
                }
            }
            MI::Inc(ix, v) => {
                if *ix < 256 && i8::try_from(*v).is_ok() && form % 3 != 1 {
                    o.u1(132);
                    o.u1(*ix as u8);
                    o.u1(*v as i8 as u8);
                } else {
                    o.u1(196);
                    o.u1(132);
                    o.u2(*ix);
                    o.u2(*v as u16);
                }
            }
            MI::Ret(ix) => {
                if *ix < 256 && form % 3 != 1 {
                    o.u1(169);
                    o.u1(*ix as u8);
                } else {
                    o.u1(196);
                    o.u1(169);
                    o.u2(*ix);
                }
            }
            MI::Jump(167, t) => {
                if wide_jump {
                    o.u1(200);
                    o.u4(off(*t) as i32 as u32);
                } else {
                    o.u1(167);
                    o.u2(off(*t) as i16 as u16);
                }
            }
            MI::Jump(c, t) => {
                o.u1(*c);
                o.u2(off(*t) as i16 as u16);
            }
            MI::Jsr(t) => {
                if wide_jump {
                    o.u1(201);
                    o.u4(off(*t) as i32 as u32);
                } else {
                    o.u1(168);
                    o.u2(off(*t) as i16 as u16);
                }
            }
            MI::Table(d, low, ts) => {
                o.u1(170);
                while (at + o.0.len()) % 4 != 0 {
                    o.u1(0);
                }
                o.u4(off(*d) as i32 as u32);
                o.u4(*low as u32);
                o.u4((*low + (ts.len() as i32 - 1)) as u32);
                for t in ts {
                    o.u4(off(*t) as i32 as u32);
                }
            }
            MI::Lookup(d, ts) => {
                o.u1(171);
                while (at + o.0.len()) % 4 != 0 {
                    o.u1(0);
                }
                o.u4(off(*d) as i32 as u32);
                o.u4(ts.len() as u32);
                let mut ts = ts.clone();
                ts.sort_by_key(|x| x.0);
                for (k, t) in ts {
                    o.u4(k as u32);
                    o.u4(off(t) as i32 as u32);
                }
            }
            MI::Field(op, m) | MI::Invoke(op, m) => {
                o.u1(*op);
                let x = self.ix(member_ent(m));
                o.u2(x);
            }
            MI::InvokeItf(m, c) => {
                o.u1(185);
                let x = self.ix(member_ent(m));
                o.u2(x);
                o.u1(*c);
                o.u1(0);
            }
            MI::InvokeDyn(d) => {
                o.u1(186);
                let e = self.dyn_ent(d);
                let x = self.ix(e);
                o.u2(x);
                o.u2(0);
            }
            MI::New(s) => {
                o.u1(187);
                let x = self.cls(s);
                o.u2(x);
            }
            MI::CheckCast(s) => {
                o.u1(192);
                let x = self.cls(s);
                o.u2(x);
            }
            MI::InstanceOf(s) => {
                o.u1(193);
                let x = self.cls(s);
                o.u2(x);
            }
            MI::NewArray(t, dims) => {
                let (d, e) = match t {
                    MType::Array(d, e) => (*d, e),
                    _ => panic!("array type expected"),
                };
                if *dims == 1 && form % 4 != 1 {
                    if d == 1 {
                        match &**e {
                            MType::Prim(c) => {
                                o.u1(188);
                                o.u1(match c {
                                    'Z' => 4,
                                    'C' => 5,
                                    'F' => 6,
                                    'D' => 7,
                                    'B' => 8,
                                    'S' => 9,
                                    'I' => 10,
                                    _ => 11,
                                });
                            }
                            MType::Ref(n) => {
                                o.u1(189);
                                let x = self.cls(n);
                                o.u2(x);
                            }
                            _ => panic!("bad element"),
                        }
                    } else {
                        o.u1(189);
                        let x = self.cls(&MType::Array(d - 1, e.clone()).print());
                        o.u2(x);
                    }
                } else {
                    o.u1(197);
                    let x = self.cls(&t.print());
                    o.u2(x);
                    o.u1(*dims);
                }
            }
        }
        o.0
    }

    pub fn layout(&mut self, c: &MCode) -> (Vec<u8>, Vec<usize>) {
        let n = c.insns.len();
        let forms: Vec<u64> = (0..n).map(|_| if self.free { self.rng.next() >> 8 } else { 0 }).collect();
        let mut wide: Vec<bool> = (0..n).map(|_| self.r(8) == 1).collect();
        // operand-independent sizes
        let mut fixed: Vec<Option<usize>> = Vec::with_capacity(n);
        for (k, i) in c.insns.iter().enumerate() {
            fixed.push(match i {
                MI::Jump(..) | MI::Jsr(_) | MI::Table(..) | MI::Lookup(..) => None,
                MI::Op(_) => Some(1),
                // index choices among duplicates can change the form: both calls choose alike
                _ => {
                    self.pick = Rng::new(forms[k]);
                    Some(self.insn(i, forms[k], 0, &[], false).len())
                }
            });
        }
        let mut pos;
        loop {
            pos = Vec::with_capacity(n + 1);
            let mut p = 0usize;
            for (k, i) in c.insns.iter().enumerate() {
                pos.push(p);
                p += match (&fixed[k], i) {
                    (Some(s), _) => *s,
                    (None, MI::Table(_, _, t)) => 1 + (3 - p % 4) + 12 + 4 * t.len(),
                    (None, MI::Lookup(_, t)) => 1 + (3 - p % 4) + 8 + 8 * t.len(),
                    (None, MI::Jump(167, _)) | (None, MI::Jsr(_)) => {
                        if wide[k] {
                            5
                        } else {
                            3
                        }
                    }
                    _ => 3,
                };
            }
            pos.push(p);
            let mut changed = false;
            for (k, i) in c.insns.iter().enumerate() {
                if let MI::Jump(167, t) | MI::Jsr(t) = i {
                    if !wide[k] && i16::try_from(pos[*t] as i64 - pos[k] as i64).is_err() {
                        wide[k] = true;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut bytes = Vec::with_capacity(pos[n]);
        for (k, i) in c.insns.iter().enumerate() {
            let b = match i {
                MI::Op(x) => vec![*x],
                _ => {
                    self.pick = Rng::new(forms[k]);
                    self.insn(i, forms[k], pos[k], &pos, wide[k])
                }
            };
            assert_eq!(b.len(), pos[k + 1] - pos[k], "size of {:?}", i);
            bytes.extend(b);
        }
        (bytes, pos)
    }

    fn verif(&mut self, o: &mut Buf, v: &MVerif, pos: &[usize]) {
        match v {
            MVerif::Top => o.u1(0),
            MVerif::Int => o.u1(1),
            MVerif::Float => o.u1(2),
            MVerif::Double => o.u1(3),
            MVerif::Long => o.u1(4),
            MVerif::Null => o.u1(5),
            MVerif::UninitThis => o.u1(6),
            MVerif::Object(s) => {
                o.u1(7);
                let x = self.cls(s);
                o.u2(x);
            }
            MVerif::Uninit(p) => {
                o.u1(8);
                o.u2(pos[*p] as u16);
            }
        }
    }

    pub fn frame(&mut self, o: &mut Vec<u8>, f: &MFrame, delta: u16, pos: &[usize]) {
        let mut b = Buf(vec![]);
        let ext = self.r(4) == 1;
        match f {
            MFrame::Same => {
                if delta < 64 && !ext {
                    b.u1(delta as u8);
                } else {
                    b.u1(251);
                    b.u2(delta);
                }
            }
            MFrame::One(v) => {
                if delta < 64 && !ext {
                    b.u1(64 + delta as u8);
                } else {
                    b.u1(247);
                    b.u2(delta);
                }
                self.verif(&mut b, v, pos);
            }
            MFrame::Chop(k) => {
                b.u1(251 - k);
                b.u2(delta);
            }
            MFrame::Append(vs) => {
                b.u1(251 + vs.len() as u8);
                b.u2(delta);
                for v in vs {
                    self.verif(&mut b, v, pos);
                }
            }
            MFrame::Full(l, s) => {
                b.u1(255);
                b.u2(delta);
                b.u2(l.len() as u16);
                for v in l {
                    self.verif(&mut b, v, pos);
                }
                b.u2(s.len() as u16);
                for v in s {
                    self.verif(&mut b, v, pos);
                }
            }
        }
        o.extend(b.0);
    }

    fn code(&mut self, o: &mut Buf, c: &MCode) {
        let (bytes, pos) = self.layout(c);
        o.u2(c.max_stack);
        o.u2(c.max_locals);
        o.u4(bytes.len() as u32);
        o.0.extend_from_slice(&bytes);
        o.u2(c.catches.len() as u16);
        for k in &c.catches {
            o.u2(pos[k.start] as u16);
            o.u2(pos[k.end] as u16);
            o.u2(pos[k.handler] as u16);
            let x = k.class.as_ref().map_or(0, |s| self.cls(s));
            o.u2(x);
        }
        // attributes: (name, body)
        let mut list: Vec<(String, Option<MStr>, Vec<u8>)> = vec![];
        for a in &c.attrs {
            match a {
                MCodeAttr::TypeAnnos(vis, v) => {
                    let mut b = Buf(vec![]);
                    b.u2(v.len() as u16);
                    for t in v {
                        self.tanno(&mut b, t, &pos, &c.catches);
                    }
                    list.push((Self::vis(*vis, "TypeAnnotations"), None, b.0));
                }
                MCodeAttr::Raw(n, b) => list.push(("<raw>".into(), Some(n.clone()), b.clone())),
            }
        }
        let mut extra: Vec<(String, Vec<u8>)> = vec![];
        // line numbers, possibly split into tables; order at one position is kept
        if !c.lines.is_empty() || self.r(12) == 1 {
            let mut rest: Vec<(usize, u16)> = c.lines.clone();
            if self.r(3) == 0 {
                rest.sort_by_key(|x| x.0);
            }
            loop {
                let k = if self.r(3) == 1 { self.r(rest.len() as u64 + 1) as usize } else { rest.len() };
                let tail = rest.split_off(k);
                let mut b = Buf(vec![]);
                b.u2(rest.len() as u16);
                for (p, l) in &rest {
                    b.u2(pos[*p] as u16);
                    b.u2(*l);
                }
                extra.push(("LineNumberTable".into(), b.0));
                rest = tail;
                if rest.is_empty() {
                    break;
                }
            }
        }
        let mut vars: Vec<(String, Vec<u8>)> = vec![];
        for sig in [false, true] {
            let mut rest: Vec<&MLocal> = c.locals.iter().filter(|l| if sig { l.sig.is_some() } else { l.desc.is_some() }).collect();
            if rest.is_empty() {
                continue;
            }
            loop {
                let k = if self.r(3) == 1 { self.r(rest.len() as u64 + 1) as usize } else { rest.len() };
                let tail = rest.split_off(k);
                let mut b = Buf(vec![]);
                b.u2(rest.len() as u16);
                for l in &rest {
                    b.u2(pos[l.start] as u16);
                    b.u2((pos[l.end] - pos[l.start]) as u16);
                    let x = self.utf(&l.name);
                    b.u2(x);
                    let t = if sig { l.sig.clone().unwrap() } else { l.desc.as_ref().unwrap().print() };
                    let x = self.utf(&t);
                    b.u2(x);
                    b.u2(l.index);
                }
                // in any order among each other
                let at = vars.len() - self.r(vars.len() as u64 + 1) as usize;
                vars.insert(at, (if sig { "LocalVariableTypeTable" } else { "LocalVariableTable" }.into(), b.0));
                rest = tail;
                if rest.is_empty() {
                    break;
                }
            }
        }
        for v in vars {
            let at = extra.len() - self.r(extra.len() as u64 + 1) as usize;
            extra.insert(at, v);
        }
        if let Some(fs) = &c.frames {
            let mut b = Buf(vec![]);
            b.u2(fs.len() as u16);
            let mut prev: Option<usize> = None;
            for (p, f) in fs {
                let at = pos[*p];
                let delta = match prev {
                    None => at,
                    Some(q) => at - q - 1,
                };
                prev = Some(at);
                self.frame(&mut b.0, f, delta as u16, &pos);
            }
            let at = extra.len() - self.r(extra.len() as u64 + 1) as usize;
            extra.insert(at, ("StackMapTable".into(), b.0));
        }
        // interleave the extra tables anywhere, keeping their own order for line numbers
        let mut at = 0usize;
        for (n, b) in extra {
            at += self.r((list.len() - at) as u64 + 1) as usize;
            list.insert(at.min(list.len()), (n, None, b));
            at = (at + 1).min(list.len());
        }
        o.u2(list.len() as u16);
        for (n, raw, b) in list {
            match raw {
                Some(r) => {
                    let i = self.utf(&r);
                    o.u2(i);
                    self.attr_marks.push(AttrMark { name: n, len_at: o.0.len(), len: b.len(), loc: crate::gen::Loc::Code });
                    o.u4(b.len() as u32);
                    o.0.extend(b);
                }
                None => self.attr(o, crate::gen::Loc::Code, &n, b, vec![]),
            }
        }
    }

    fn body(&mut self, c: &MClass, attrs: &[MAttr]) -> Vec<u8> {
        let mut o = Buf(vec![]);
        o.u2(c.access);
        let x = self.cls(&c.name);
        o.u2(x);
        let x = c.super_name.as_ref().map_or(0, |s| self.cls(s));
        o.u2(x);
        let t = self.names(&c.interfaces, Ent::Class);
        o.0.extend(t);
        for (loc, list) in [(crate::gen::Loc::Field, &c.fields), (crate::gen::Loc::Method, &c.methods)] {
            o.u2(list.len() as u16);
            for m in list {
                o.u2(m.access);
                let x = self.utf(&m.name);
                o.u2(x);
                let x = self.utf(&m.desc.print());
                o.u2(x);
                self.attrs(&mut o, &m.attrs, loc);
            }
        }
        self.attrs(&mut o, attrs, crate::gen::Loc::Class);
        o.0
    }

    fn pool_bytes(&mut self, order: &[Ent]) -> Vec<u8> {
        let mut o = Buf(vec![]);
        let mut count = 1usize;
        for e in order {
            count += size(e);
        }
        assert!(count <= 65535, "pool too big for the encoder ({} slots)", count);
        o.u2(count as u16);
        for e in order {
            match e {
                Ent::Utf8(s) => {
                    o.u1(1);
                    let b = s.mutf8();
                    assert!(b.len() <= 65535);
                    o.u2(b.len() as u16);
                    o.0.extend(b);
                }
                Ent::Int(i) => {
                    o.u1(3);
                    o.u4(*i as u32);
                }
                Ent::Float(b) => {
                    o.u1(4);
                    o.u4(*b);
                }
                Ent::Long(l) => {
                    o.u1(5);
                    o.0.extend_from_slice(&l.to_be_bytes());
                }
                Ent::Double(b) => {
                    o.u1(6);
                    o.0.extend_from_slice(&b.to_be_bytes());
                }
                Ent::Class(s) | Ent::Str(s) | Ent::MethodType(s) | Ent::Module(s) | Ent::Package(s) => {
                    o.u1(match e {
                        Ent::Class(_) => 7,
                        Ent::Str(_) => 8,
                        Ent::MethodType(_) => 16,
                        Ent::Module(_) => 19,
                        _ => 20,
                    });
                    let x = self.utf(s);
                    o.u2(x);
                }
                Ent::Ref(t, ow, n, d) => {
                    o.u1(*t);
                    let a = self.cls(ow);
                    let b = self.ix(Ent::Nat(n.clone(), d.clone()));
                    o.u2(a);
                    o.u2(b);
                }
                Ent::Nat(n, d) => {
                    o.u1(12);
                    let a = self.utf(n);
                    let b = self.utf(d);
                    o.u2(a);
                    o.u2(b);
                }
                Ent::Handle(k, m) => {
                    o.u1(15);
                    o.u1(*k);
                    let x = self.ix((**m).clone());
                    o.u2(x);
                }
                Ent::Dyn(t, i, n, d) => {
                    o.u1(*t);
                    o.u2(*i);
                    let b = self.ix(Ent::Nat(n.clone(), d.clone()));
                    o.u2(b);
                }
            }
        }
        o.0
    }
}

fn size(e: &Ent) -> usize {
    match e {
        Ent::Long(_) | Ent::Double(_) => 2,
        _ => 1,
    }
}

fn children(e: &Ent) -> Vec<Ent> {
    match e {
        Ent::Class(s) | Ent::Str(s) | Ent::MethodType(s) | Ent::Module(s) | Ent::Package(s) => vec![Ent::Utf8(s.clone())],
        Ent::Ref(_, o, n, d) => vec![Ent::Class(o.clone()), Ent::Nat(n.clone(), d.clone())],
        Ent::Nat(n, d) => vec![Ent::Utf8(n.clone()), Ent::Utf8(d.clone())],
        Ent::Handle(_, m) => vec![(**m).clone()],
        Ent::Dyn(_, _, n, d) => vec![Ent::Nat(n.clone(), d.clone())],
        _ => vec![],
    }
}

pub fn encode(c: &MClass, seed: u64) -> Encoded {
    encode_with(c, seed, 0)
}

/// `pad_pool`: number of junk entries put in front of the pool (to push indices over 255).
pub fn encode_with(c: &MClass, seed: u64, pad_pool: usize) -> Encoded {
    let mut e = Enc {
        rng: Rng::new(seed),
        pick: Rng::new(seed ^ 0x5eed),
        free: seed != 0,
        ents: vec![],
        seen: HashMap::new(),
        assigned: false,
        bsms: c.bsms.clone().unwrap_or_default(),
        bsm_dup: seed % 3 == 1,
        attr_marks: vec![],
    };
    // pass 1: collect
    let explicit = c.bsms.is_some();
    let mut attrs = c.attrs.clone();
    for b in e.bsms.clone() {
        e.bsm_body(&b);
    }
    e.rng = Rng::new(seed ^ 0xB0D1);
    e.body(c, &attrs);
    if !explicit && !e.bsms.is_empty() {
        let at = e.r(attrs.len() as u64 + 1) as usize;
        attrs.insert(at, MAttr::Bootstrap);
    }
    // nested bootstrap methods
    let mut k = 0;
    while k < e.bsms.len() {
        let b = e.bsms[k].clone();
        e.bsm_body(&b);
        k += 1;
    }
    e.rng = Rng::new(seed ^ 0xB0D1);
    e.body(c, &attrs);
    let has_bsm_attr = attrs.contains(&MAttr::Bootstrap);
    // Dyn entries for duplicate bsm indices may be asked for in pass 2
    let dyns: Vec<Ent> = e.ents.iter().filter(|x| matches!(x, Ent::Dyn(..))).cloned().collect();
    for d in dyns {
        if let Ent::Dyn(t, i, n, ds) = d {
            let b = e.bsms[i as usize].clone();
            // (the first or the last of equal rows, see dyn_ent)
            if let Some(j) = (0..e.bsms.len()).rev().find(|j| e.bsms[*j] == b) {
                e.need(Ent::Dyn(t, j as u16, n.clone(), ds.clone()));
            }
        }
    }
    // order, duplicates, unused entries
    let mut order = e.ents.clone();
    if e.free {
        let mode = e.r(4);
        if mode >= 1 {
            for i in (1..order.len()).rev() {
                let j = e.rng.below(i as u64 + 1) as usize;
                order.swap(i, j);
            }
        }
        if mode >= 2 && !order.is_empty() {
            for _ in 0..e.r(6) {
                let x = order[e.rng.below(order.len() as u64) as usize].clone();
                let at = e.rng.below(order.len() as u64 + 1) as usize;
                order.insert(at, x);
            }
            for _ in 0..e.r(6) {
                let x = match e.r(5) {
                    0 => Ent::Long(e.rng.next() as i64),
                    1 => Ent::Double(e.rng.next()),
                    2 => Ent::Int(e.rng.next() as i32),
                    3 => Ent::Float(e.rng.next() as u32),
                    _ => Ent::Utf8(MStr(vec![e.rng.next() as u16, e.rng.next() as u16])),
                };
                let at = e.rng.below(order.len() as u64 + 1) as usize;
                order.insert(at, x);
            }
        }
    }
    // never more junk than leaves room for what the class needs
    let room = 65534usize.saturating_sub(order.iter().map(size).sum::<usize>());
    let pad_pool = if pad_pool + pad_pool / 5 + 1 > room { room.saturating_sub(1) * 5 / 6 } else { pad_pool };
    let padding: Vec<Ent> = (0..pad_pool)
        .rev()
        .map(|k| if k % 5 == 4 { Ent::Long(0x1234_0000_0000 + k as i64) } else { Ent::Int(0x4000_0000 + k as i32) })
        .collect();
    order.splice(0..0, padding);
    for v in e.seen.values_mut() {
        v.clear();
    }
    let mut i = 1usize;
    for x in &order {
        e.seen.entry(x.clone()).or_default().push(i as u16);
        i += size(x);
    }
    e.assigned = true;
    let pool = e.pool_bytes(&order);
    e.attr_marks.clear();
    e.rng = Rng::new(seed ^ 0xB0D1);
    let body = e.body(c, &attrs);
    let mut o = Buf(vec![]);
    o.u4(0xCAFE_BABE);
    o.u2(c.minor);
    o.u2(c.major);
    o.0.extend(pool);
    let body_at = o.0.len();
    o.0.extend(body);
    let mut marks = std::mem::take(&mut e.attr_marks);
    for m in marks.iter_mut() {
        m.len_at += body_at;
    }
    Encoded { bytes: o.0, bsms: e.bsms, has_bsm_attr, attrs: marks, body_at }
}

/// What reading the encoded file must give.
pub fn expected(c: &MClass, enc: &Encoded) -> MClass {
    let mut m = c.clone();
    m.bsms = if enc.has_bsm_attr { Some(enc.bsms.clone()) } else { None };
    m.access &= CLASS_FLAGS;
    crate::model::norm_class(&mut m);
    m
}

/// The same file with the bootstrap table cut to its first `k` entries.
pub fn with_bsm_count(e: &Encoded, k: usize) -> Vec<u8> {
    let a = e.attrs.iter().find(|a| a.name == "BootstrapMethods" && a.loc == crate::gen::Loc::Class).expect("table");
    let s = a.len_at + 4;
    let u2 = |p: usize| u16::from_be_bytes([e.bytes[p], e.bytes[p + 1]]) as usize;
    let n = u2(s);
    let mut p = s + 2;
    for _ in 0..k.min(n) {
        p += 4 + 2 * u2(p + 2);
    }
    let mut b = e.bytes[..a.len_at].to_vec();
    b.extend(((p - s) as u32).to_be_bytes());
    b.extend((k.min(n) as u16).to_be_bytes());
    b.extend(&e.bytes[s + 2..p]);
    b.extend(&e.bytes[s + a.len..]);
    b
}
