//! Generators of model classes.  Everything generated is well-formed by the class-file format and
//! within its limits, so it is valid both as a file to read and as a value to write.

use crate::desc::*;
use crate::engine::Source;
use crate::model::*;
use crate::mstr::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    All,
    Insn,
    Position,
    Dyn,
    Anno,
    Attr,
}

pub struct Gen<'a> {
    pub src: &'a mut Source,
    pub focus: Focus,
    pub bsms: Vec<MBsm>,
    /// what was drawn before, for near-duplicates
    seen_dyns: Vec<MDyn>,
    seen_members: Vec<MMember>,
}

const RAW_NAMES: &[&str] = &[
    "Foo",
    "Custom",
    "Record",
    "PermittedSubclasses",
    "code",
    "Code2",
    "Cod",
    "",
    "Signature2",
    "StackMap",
    "RuntimeVisibleAnnotation",
    "org.example.Attr",
    "\u{1F600}",
    "Code",
    "ConstantValue",
    "LineNumberTable",
    "LocalVariableTable",
    "LocalVariableTypeTable",
    "StackMapTable",
    "Exceptions",
    "SourceFile",
    "InnerClasses",
    "BootstrapMethods",
    "Module",
    "MethodParameters",
    "AnnotationDefault",
    "Signature",
    "Deprecated",
    "Synthetic",
    "EnclosingMethod",
    "SourceDebugExtension",
    "ModulePackages",
    "ModuleMainClass",
    "NestHost",
    "NestMembers",
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
];

pub fn recognised(loc: Loc, n: &str) -> bool {
    let common = ["Deprecated", "Synthetic", "Signature", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"];
    let ta = ["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];
    if ta.contains(&n) {
        return true;
    }
    match loc {
        Loc::Class => {
            common.contains(&n)
                || [
                    "SourceFile",
                    "InnerClasses",
                    "EnclosingMethod",
                    "SourceDebugExtension",
                    "BootstrapMethods",
                    "Module",
                    "ModulePackages",
                    "ModuleMainClass",
                    "NestHost",
                    "NestMembers",
                ]
                .contains(&n)
        }
        Loc::Field => common.contains(&n) || n == "ConstantValue",
        Loc::Method => {
            common.contains(&n)
                || [
                    "Code",
                    "Exceptions",
                    "AnnotationDefault",
                    "MethodParameters",
                    "RuntimeVisibleParameterAnnotations",
                    "RuntimeInvisibleParameterAnnotations",
                ]
                .contains(&n)
        }
        Loc::Code => ["LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable"].contains(&n),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Loc {
    Class,
    Field,
    Method,
    Code,
}

pub fn gen_class(src: &mut Source, focus: Focus) -> MClass {
    src.start_burst();
    let mut g = Gen { src, focus, bsms: vec![], seen_dyns: vec![], seen_members: vec![] };
    let m = g.class();
    src.end_burst();
    m
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Source, focus: Focus) -> Gen<'a> {
        Gen { src, focus, bsms: vec![], seen_dyns: vec![], seen_members: vec![] }
    }

    fn fl(&mut self, mask: u16) -> u16 {
        match self.src.below(4) {
            0 => 0,
            1 => 1 & mask,
            2 => mask,
            _ => self.src.below(65536) as u16 & mask,
        }
    }

    pub fn class(&mut self) -> MClass {
        let f = self.focus;
        let nb = match f {
            Focus::Dyn => self.src.range(1, 6),
            Focus::All => self.src.len(3),
            Focus::Insn => self.src.len(2),
            _ => 0,
        };
        for _ in 0..nb {
            let b = if !self.bsms.is_empty() && self.src.chance(1, 3) {
                // one that differs from an earlier one in a single place
                let b = self.bsms[self.src.usize(self.bsms.len())].clone();
                self.vary_bsm(&b)
            } else {
                self.bsm()
            };
            self.bsms.push(b);
        }
        let major = 45 + self.src.below(15) as u16;
        let minor = if self.src.chance(1, 4) { self.src.u16() } else { 0 };
        let access = self.fl(CLASS_FLAGS);
        let name = gen_class_name(self.src);
        let super_name = if self.src.chance(1, 6) { None } else { Some(gen_class_name(self.src)) };
        let interfaces = (0..self.src.len(5)).map(|_| gen_class_name(self.src)).collect();
        let (nf, nm) = match f {
            Focus::Insn | Focus::Position => (0, self.src.range(1, 2)),
            Focus::Attr | Focus::Anno => (self.src.range(1, 3), self.src.range(1, 3)),
            _ => (self.src.len(4), self.src.len(4).max((f == Focus::Dyn) as usize)),
        };
        let mut fields: Vec<MMem> = (0..nf).map(|_| self.field()).collect();
        let mut methods: Vec<MMem> = (0..nm).map(|_| self.method()).collect();
        if matches!(f, Focus::All | Focus::Attr) {
            self.again(&mut fields, |g, x| match g.src.below(3) {
                0 => x.access = g.fl(FIELD_FLAGS),
                1 => x.desc = gen_field_type(g.src),
                _ => x.name = gen_name(g.src),
            });
            self.again(&mut methods, |g, x| match g.src.below(3) {
                0 => x.access = g.fl(METHOD_FLAGS),
                1 => x.desc = gen_method_type(g.src),
                _ => x.name = g.method_name(),
            });
        }
        let attrs = self.class_attrs();
        let bsms = if f != Focus::Position && self.src.chance(1, 4) {
            // explicit table: some of the used ones, maybe unused ones, maybe repeated
            let mut t = vec![];
            for b in self.bsms.clone() {
                if self.src.bool() {
                    t.push(b);
                }
            }
            for _ in 0..self.src.len(2) {
                let b = self.bsm();
                let at = self.src.usize(t.len() + 1);
                t.insert(at, b);
            }
            if !t.is_empty() && self.src.chance(1, 4) {
                let b = t[self.src.usize(t.len())].clone();
                t.push(b);
            }
            Some(t)
        } else {
            None
        };
        let mut attrs: Vec<MAttr> = attrs;
        if bsms.is_some() {
            let at = self.src.usize(attrs.len() + 1);
            attrs.insert(at, MAttr::Bootstrap);
        }
        MClass { minor, major, access, name, super_name, interfaces, fields, methods, attrs, bsms }
    }

    fn shuffle<T>(&mut self, v: Vec<T>) -> Vec<T> {
        let mut o: Vec<T> = Vec::with_capacity(v.len());
        for x in v {
            // 0 = append at the end
            let back = self.src.usize(o.len() + 1);
            let at = o.len() - back;
            o.insert(at, x);
        }
        o
    }

    fn p_attr(&mut self) -> bool {
        match self.focus {
            Focus::Attr => self.src.chance(1, 3),
            Focus::All => self.src.chance(1, 7),
            _ => self.src.chance(1, 24),
        }
    }
    fn p_anno(&mut self) -> bool {
        match self.focus {
            Focus::Anno => self.src.chance(3, 5),
            Focus::All | Focus::Attr => self.src.chance(1, 7),
            _ => false,
        }
    }

    pub fn raw(&mut self, loc: Loc) -> (MStr, Vec<u8>) {
        let name = loop {
            let s = if self.src.chance(1, 5) { gen_any(self.src, 6) } else { ms(*self.src.pick(RAW_NAMES)) };
            match s.to_string() {
                Some(t) if recognised(loc, &t) => {
                    // take the next free name deterministically: prefix it
                    let mut p = ms("x");
                    p.push_ms(&s);
                    break p;
                }
                _ => break s,
            }
        };
        let n = if self.src.chance(1, 8) { self.src.range(0, 300) } else { self.src.len(24) };
        (name, (0..n).map(|_| self.src.below(256) as u8).collect())
    }

    fn raws(&mut self, loc: Loc) -> usize {
        let _ = loc;
        match self.focus {
            Focus::Attr => self.src.len(3),
            Focus::All => {
                if self.src.chance(1, 4) {
                    self.src.range(1, 2)
                } else {
                    0
                }
            }
            _ => self.src.chance(1, 12) as usize,
        }
    }

    fn class_attrs(&mut self) -> Vec<MAttr> {
        let mut v = vec![];
        if self.p_attr() {
            v.push(MAttr::Signature(g_class_sig(self.src, 2).text()));
        }
        if self.p_attr() {
            v.push(MAttr::Synthetic);
        }
        if self.p_attr() {
            v.push(MAttr::Deprecated);
        }
        if self.p_attr() {
            v.push(MAttr::SourceFile(gen_any(self.src, 10)));
        }
        if self.p_attr() {
            let n = self.src.len(4);
            let one = |g: &mut Self| {
                let a = gen_class_name(g.src);
                let b = if g.src.bool() { Some(gen_class_name(g.src)) } else { None };
                let c = if g.src.bool() { Some(gen_name(g.src)) } else { None };
                (a, b, c, g.fl(INNER_FLAGS))
            };
            let mut t: Vec<_> = (0..n).map(|_| one(self)).collect();
            self.again(&mut t, |g, x| {
                let o = one(g);
                match g.src.below(4) {
                    0 => x.0 = o.0,
                    1 => x.1 = o.1,
                    2 => x.2 = o.2,
                    _ => x.3 = o.3,
                }
            });
            v.push(MAttr::InnerClasses(t));
        }
        if self.p_attr() {
            let c = gen_class_name(self.src);
            let m = if self.src.bool() { Some((self.method_name(), gen_method_type(self.src))) } else { None };
            v.push(MAttr::EnclosingMethod(c, m));
        }
        if self.p_attr() {
            v.push(MAttr::SourceDebugExtension(gen_any(self.src, 40)));
        }
        if self.p_attr() {
            let m = self.module();
            v.push(MAttr::Module(m));
        }
        if self.p_attr() {
            v.push(MAttr::ModulePackages(self.names()));
        }
        if self.p_attr() {
            v.push(MAttr::ModuleMainClass(gen_class_name(self.src)));
        }
        if self.p_attr() {
            v.push(MAttr::NestHost(gen_class_name(self.src)));
        }
        if self.p_attr() {
            v.push(MAttr::NestMembers(self.names()));
        }
        self.annos(&mut v, Loc::Class);
        for _ in 0..self.raws(Loc::Class) {
            let (n, b) = self.raw(Loc::Class);
            v.push(MAttr::Raw(n, b));
        }
        self.shuffle(v)
    }

    fn names(&mut self) -> Vec<MStr> {
        let mut v: Vec<MStr> = vec![];
        for _ in 0..self.src.len(4) {
            let x = if !v.is_empty() && self.src.chance(1, 6) { v[self.src.usize(v.len())].clone() } else { gen_class_name(self.src) };
            v.push(x);
        }
        v
    }

    /// Sometimes puts an element in a second time, with at most one part different.
    fn again<T: Clone>(&mut self, v: &mut Vec<T>, change: impl Fn(&mut Self, &mut T)) {
        if !v.is_empty() && self.src.chance(1, 5) {
            let mut x = v[self.src.usize(v.len())].clone();
            if self.src.chance(3, 4) {
                change(self, &mut x);
            }
            let at = v.len() - self.src.usize(v.len() + 1);
            v.insert(at, x);
        }
    }
    fn vary_anno(&mut self, a: &mut MAnno) {
        match self.src.below(4) {
            0 => a.ty = self.anno_type(),
            1 if !a.pairs.is_empty() => {
                let k = self.src.usize(a.pairs.len());
                a.pairs.remove(k);
            }
            2 if !a.pairs.is_empty() => {
                let k = self.src.usize(a.pairs.len());
                let v = self.val(1);
                a.pairs[k].1 = v;
            }
            _ => {
                let mut k = gen_name(self.src);
                while a.pairs.iter().any(|p| p.0 == k) {
                    k.push_str("x");
                }
                let v = self.val(0);
                a.pairs.push((k, v));
            }
        }
    }
    fn vary_tanno(&mut self, a: &mut MTAnno, loc: Loc, n: usize, catches: &[MCatch]) {
        let o = self.tanno(loc, n, catches);
        match self.src.below(3) {
            0 => a.target = o.target,
            1 => a.path = o.path,
            _ => self.vary_anno(&mut a.anno),
        }
    }

    fn module(&mut self) -> MModule {
        let opt = |s: &mut Source| if s.bool() { Some(gen_any(s, 5)) } else { None };
        MModule {
            name: gen_class_name(self.src),
            flags: self.fl(MODULE_FLAGS),
            version: opt(self.src),
            requires: (0..self.src.len(3)).map(|_| (gen_class_name(self.src), self.fl(REQUIRE_FLAGS), opt(self.src))).collect(),
            exports: (0..self.src.len(3)).map(|_| (gen_class_name(self.src), self.fl(EXOP_FLAGS), self.names())).collect(),
            opens: (0..self.src.len(3)).map(|_| (gen_class_name(self.src), self.fl(EXOP_FLAGS), self.names())).collect(),
            uses: self.names(),
            provides: (0..self.src.len(3)).map(|_| (gen_class_name(self.src), self.names())).collect(),
        }
    }

    fn annos(&mut self, v: &mut Vec<MAttr>, loc: Loc) {
        for vis in [true, false] {
            if self.p_anno() {
                let n = self.src.len(3);
                let mut t: Vec<_> = (0..n).map(|_| self.anno(2)).collect();
                self.again(&mut t, |g, a| g.vary_anno(a));
                v.push(MAttr::Annos(vis, t));
            }
            if self.p_anno() {
                let n = self.src.len(3);
                let mut t: Vec<_> = (0..n).map(|_| self.tanno(loc, 0, &[])).collect();
                self.again(&mut t, |g, a| g.vary_tanno(a, loc, 0, &[]));
                v.push(MAttr::TypeAnnos(vis, t));
            }
        }
    }

    pub fn anno(&mut self, depth: usize) -> MAnno {
        let ty = self.anno_type();
        let n = self.src.len(4);
        let mut pairs: Vec<(MStr, MVal)> = vec![];
        for i in 0..n {
            let mut k = gen_name(self.src);
            if pairs.iter().any(|p| p.0 == k) {
                k.push_str(&format!("{}", i));
            }
            if pairs.iter().any(|p| p.0 == k) {
                continue;
            }
            let v = self.val(depth);
            pairs.push((k, v));
        }
        MAnno { ty, pairs }
    }

    fn anno_type(&mut self) -> MType {
        MType::Ref(gen_class_name(self.src))
    }

    pub fn val(&mut self, depth: usize) -> MVal {
        let mut v = self.flat_val(depth);
        if depth >= 2 && self.src.chance(1, 200) {
            // deeply nested; the reader takes 256 levels
            for _ in 0..if self.src.chance(1, 3) { self.src.range(20, 220) } else { self.src.range(2, 20) } {
                v = match self.src.below(4) {
                    0 => MVal::Array(vec![v]),
                    1 => MVal::Array(vec![MVal::Int(1), v]),
                    2 => MVal::Array(vec![v, MVal::Bool(true)]),
                    _ => MVal::Anno(MAnno { ty: MType::Ref(ms("A")), pairs: vec![(ms("v"), v)] }),
                };
            }
        }
        v
    }

    fn flat_val(&mut self, depth: usize) -> MVal {
        match self.src.below(if depth > 0 { 13 } else { 11 }) {
            0 => MVal::Int(self.src.i32()),
            1 => MVal::Byte(self.src.u8() as i8),
            2 => MVal::Char(self.src.u16()),
            3 => MVal::Double(self.src.f64bits()),
            4 => MVal::Float(self.src.f32bits()),
            5 => MVal::Long(self.src.i64()),
            6 => MVal::Short(self.src.u16() as i16),
            7 => MVal::Bool(self.src.bool()),
            8 => MVal::Str(gen_any(self.src, 8)),
            9 => MVal::Enum(MType::Ref(gen_class_name(self.src)), gen_name(self.src)),
            10 => MVal::Class(if self.src.chance(1, 3) { None } else { Some(gen_field_type(self.src)) }),
            11 => MVal::Anno(self.anno(depth - 1)),
            _ => {
                let n = self.src.len(5);
                MVal::Array((0..n).map(|_| self.val(depth - 1)).collect())
            }
        }
    }

    /// A type annotation for a location; `n` = instructions in the code, for code targets.
    pub fn tanno(&mut self, loc: Loc, n: usize, catches: &[MCatch]) -> MTAnno {
        let s = &mut *self.src;
        let target = match loc {
            Loc::Class => match s.below(3) {
                0 => MTarget::U8(0x00, s.u8()),
                1 => MTarget::U16(0x10, s.u16()),
                _ => MTarget::U8U8(0x11, s.u8(), s.u8()),
            },
            Loc::Field => MTarget::Empty(0x13),
            Loc::Method => match s.below(6) {
                0 => MTarget::Empty(0x14),
                1 => MTarget::Empty(0x15),
                2 => MTarget::U8(0x01, s.u8()),
                3 => MTarget::U8U8(0x12, s.u8(), s.u8()),
                4 => MTarget::U8(0x16, s.u8()),
                _ => MTarget::U16(0x17, s.u16()),
            },
            Loc::Code => match s.below(4) {
                0 => MTarget::Off(*s.pick(&[0x43, 0x44, 0x45, 0x46]), s.usize(n)),
                1 => MTarget::OffArg(*s.pick(&[0x47, 0x48, 0x49, 0x4A, 0x4B]), s.usize(n), s.u8()),
                2 if !catches.is_empty() => MTarget::Catch(s.pick(catches).clone()),
                _ => {
                    let k = s.len(3);
                    MTarget::Locals(
                        0x40 + s.below(2) as u8,
                        (0..k)
                            .map(|_| {
                                let (a, b) = range(s, n);
                                (a, b, s.u16())
                            })
                            .collect(),
                    )
                }
            },
        };
        let k = self.src.len(4);
        let path = (0..k)
            .map(|_| {
                let kind = self.src.below(4) as u8;
                (kind, if kind == 3 { self.src.u8() } else { 0 })
            })
            .collect();
        MTAnno { target, path, anno: self.anno(1) }
    }

    fn field(&mut self) -> MMem {
        let access = self.fl(FIELD_FLAGS);
        let name = gen_name(self.src);
        let desc = gen_field_type(self.src);
        let mut v = vec![];
        if self.p_attr() {
            v.push(MAttr::Deprecated);
        }
        if self.p_attr() {
            v.push(MAttr::Synthetic);
        }
        if self.p_attr() {
            v.push(MAttr::Signature(g_ref(self.src, 2).text()));
        }
        if self.p_attr() {
            let c = match self.src.below(5) {
                0 => MConst::Int(self.src.i32()),
                1 => MConst::Float(self.src.f32bits()),
                2 => MConst::Long(self.src.i64()),
                3 => MConst::Double(self.src.f64bits()),
                _ => MConst::Str(gen_any(self.src, 10)),
            };
            v.push(MAttr::ConstantValue(c));
        }
        self.annos(&mut v, Loc::Field);
        for _ in 0..self.raws(Loc::Field) {
            let (n, b) = self.raw(Loc::Field);
            v.push(MAttr::Raw(n, b));
        }
        let attrs = self.shuffle(v);
        MMem { access, name, desc, attrs }
    }

    fn method_name(&mut self) -> MStr {
        match self.src.below(8) {
            0 => ms("<init>"),
            1 => ms("<clinit>"),
            _ => gen_name(self.src),
        }
    }

    fn method(&mut self) -> MMem {
        let access = self.fl(METHOD_FLAGS);
        let name = self.method_name();
        let desc = gen_method_type(self.src);
        let mut v = vec![];
        let code = match self.focus {
            Focus::Insn | Focus::Position => true,
            Focus::Dyn => self.src.chance(4, 5),
            _ => self.src.chance(1, 2),
        };
        if code {
            let c = self.code();
            v.push(MAttr::Code(c));
        }
        if self.p_attr() {
            v.push(MAttr::Deprecated);
        }
        if self.p_attr() {
            v.push(MAttr::Synthetic);
        }
        if self.p_attr() {
            v.push(MAttr::Signature(g_method_sig(self.src, 2).text()));
        }
        if self.p_attr() {
            v.push(MAttr::Exceptions(self.names()));
        }
        if self.p_attr() {
            let n = self.src.len(4);
            let mut t: Vec<_> = (0..n).map(|_| (if self.src.bool() { Some(gen_name(self.src)) } else { None }, self.fl(PARAM_FLAGS))).collect();
            self.again(&mut t, |g, x| x.1 = g.fl(PARAM_FLAGS));
            v.push(MAttr::MethodParameters(t));
        }
        if self.p_anno() {
            v.push(MAttr::AnnoDefault(self.val(2)));
        }
        for vis in [true, false] {
            if self.p_anno() {
                let n = self.src.len(3);
                v.push(MAttr::ParamAnnos(vis, (0..n).map(|_| (0..self.src.len(2)).map(|_| self.anno(1)).collect()).collect()));
            }
        }
        self.annos(&mut v, Loc::Method);
        for _ in 0..self.raws(Loc::Method) {
            let (n, b) = self.raw(Loc::Method);
            v.push(MAttr::Raw(n, b));
        }
        let attrs = self.shuffle(v);
        MMem { access, name, desc, attrs }
    }

    // --- constants ---------------------------------------------------------------------------

    pub fn field_ref(&mut self) -> MMember {
        if let Some(m) = self.similar(|m| !matches!(m.desc, MType::Method(..))) {
            return m;
        }
        let m = MMember { owner: self.owner(), name: gen_name(self.src), desc: gen_field_type(self.src), itf: false };
        self.remember(m)
    }
    pub fn method_ref(&mut self, itf: bool) -> MMember {
        if let Some(mut m) = self.similar(|m| matches!(m.desc, MType::Method(..))) {
            m.itf = itf;
            return m;
        }
        let m = MMember { owner: self.owner(), name: gen_name(self.src), desc: gen_method_type(self.src), itf };
        self.remember(m)
    }
    fn remember(&mut self, m: MMember) -> MMember {
        if self.seen_members.len() < 8 {
            self.seen_members.push(m.clone());
        }
        m
    }
    /// an earlier member, the same or changed in one place
    fn similar(&mut self, f: impl Fn(&MMember) -> bool) -> Option<MMember> {
        if self.seen_members.is_empty() || !self.src.chance(1, 6) {
            return None;
        }
        let c: Vec<MMember> = self.seen_members.iter().filter(|m| f(m)).cloned().collect();
        if c.is_empty() {
            return None;
        }
        let m = &c[self.src.usize(c.len())];
        Some(if self.src.chance(1, 3) { m.clone() } else { self.vary_member(m, false, false) })
    }
    fn owner(&mut self) -> MStr {
        self.class_operand()
    }
    /// class name or array descriptor, as a CONSTANT_Class may hold
    pub fn class_operand(&mut self) -> MStr {
        if self.src.chance(1, 5) {
            let d = self.src.range(1, 3) as u8;
            let e = if self.src.bool() { MType::Prim(*self.src.pick(PRIMS)) } else { MType::Ref(gen_class_name(self.src)) };
            MType::Array(d, Box::new(e)).print()
        } else {
            gen_class_name(self.src)
        }
    }
    pub fn handle(&mut self) -> MHandle {
        let kind = 1 + self.src.below(9) as u8;
        let member = match kind {
            1..=4 => self.field_ref(),
            5 => self.method_ref(false),
            6 | 7 => {
                let i = self.src.bool();
                self.method_ref(i)
            }
            8 => {
                let mut m = self.method_ref(false);
                m.name = ms("<init>");
                if let MType::Method(_, r) = &mut m.desc {
                    *r = None;
                }
                m
            }
            _ => self.method_ref(true),
        };
        MHandle { kind, member }
    }
    pub fn bsm(&mut self) -> MBsm {
        let handle = self.handle();
        let n = self.src.len(4);
        let args = (0..n).map(|_| self.constant(true)).collect();
        MBsm { handle, args }
    }
    pub fn dynamic(&mut self, callsite: bool) -> MDyn {
        if !self.seen_dyns.is_empty() && self.src.chance(1, 5) {
            let c: Vec<MDyn> = self.seen_dyns.iter().filter(|d| matches!(d.desc, MType::Method(..)) == callsite).cloned().collect();
            if !c.is_empty() {
                let d = &c[self.src.usize(c.len())];
                return if self.src.chance(1, 3) { d.clone() } else { self.vary_dyn(d) };
            }
        }
        let d = self.fresh_dynamic(callsite);
        if self.seen_dyns.len() < 8 {
            self.seen_dyns.push(d.clone());
        }
        d
    }
    fn fresh_dynamic(&mut self, callsite: bool) -> MDyn {
        let bsm = if self.bsms.is_empty() || self.src.chance(1, 10) {
            // a fresh one without nested arguments
            let saved = std::mem::take(&mut self.bsms);
            let handle = self.handle();
            let n = self.src.len(3);
            let args = (0..n).map(|_| self.constant(false)).collect();
            self.bsms = saved;
            MBsm { handle, args }
        } else {
            let i = self.src.usize(self.bsms.len());
            self.bsms[i].clone()
        };
        let name = gen_name(self.src);
        let desc = if callsite { gen_method_type(self.src) } else { gen_field_type(self.src) };
        MDyn { bsm, name, desc }
    }
    pub fn constant(&mut self, dynamic: bool) -> MConst {
        let p = if self.focus == Focus::Dyn { 4 } else { 12 };
        if dynamic && !self.bsms.is_empty() && self.src.chance(1, p) {
            return MConst::Dyn(Box::new(self.dynamic(false)));
        }
        match self.src.below(8) {
            0 => MConst::Int(self.src.i32()),
            1 => MConst::Float(self.src.f32bits()),
            2 => MConst::Long(self.src.i64()),
            3 => MConst::Double(self.src.f64bits()),
            4 => MConst::Str(gen_any(self.src, 12)),
            5 => MConst::Class(self.class_operand()),
            6 => MConst::MethodType(gen_method_type(self.src)),
            _ => MConst::Handle(self.handle()),
        }
    }

    // --- code --------------------------------------------------------------------------------

    pub fn code(&mut self) -> MCode {
        let max = match self.focus {
            Focus::Insn => 40,
            Focus::Position => 24,
            _ => 14,
        };
        let n = if self.src.chance(1, 60) { self.src.range(1, 20 * max) } else { self.src.range(1, max) };
        let insns = (0..n).map(|_| self.insn(n)).collect();
        self.code_around(insns)
    }

    /// Adds tables and attributes to a list of instructions.
    pub fn code_around(&mut self, insns: Vec<MI>) -> MCode {
        let n = insns.len();
        let pos = self.focus == Focus::Position;
        let some = |g: &mut Self, max: usize| -> usize {
            if pos {
                g.src.range(0, max)
            } else if g.src.chance(1, 3) {
                g.src.len(3)
            } else {
                0
            }
        };
        let mut catches: Vec<MCatch> = vec![];
        for _ in 0..some(self, 5) {
            let start = self.src.usize(n);
            let end = self.src.range(start + 1, n);
            let handler = self.src.usize(n);
            let class = if self.src.bool() { Some(gen_class_name(self.src)) } else { None };
            let mut c = MCatch { start, end, handler, class };
            if !catches.is_empty() && self.src.chance(1, 3) {
                // an earlier one again, but for at most one part
                let o = catches[self.src.usize(catches.len())].clone();
                c = match self.src.below(6) {
                    0 => o,
                    1 if start < o.end => MCatch { start, ..o },
                    2 if end > o.start => MCatch { end, ..o },
                    3 => MCatch { handler, ..o },
                    4 => MCatch { class: c.class, ..o },
                    _ => c,
                };
            }
            catches.push(c);
        }
        let mut lines: Vec<(usize, u16)> = vec![];
        for _ in 0..some(self, 8) {
            let mut l = (self.src.usize(n), self.src.u16());
            if !lines.is_empty() && self.src.chance(1, 3) {
                let o = lines[self.src.usize(lines.len())];
                match self.src.below(4) {
                    0 => l = o,
                    1 | 2 => l.0 = o.0,
                    _ => l.1 = o.1,
                }
            }
            lines.push(l);
        }
        let mut locals: Vec<MLocal> = vec![];
        for i in 0..some(self, 6) {
            let (mut start, mut end) = range(self.src, n);
            let mut name = gen_name(self.src);
            let mut index = self.src.u16();
            if !locals.is_empty() && self.src.chance(1, 3) {
                // an earlier one again, but for one part
                let o = locals[self.src.usize(locals.len())].clone();
                match self.src.below(4) {
                    0 if start <= o.end => (end, name, index) = (o.end, o.name, o.index),
                    1 if end >= o.start => (start, name, index) = (o.start, o.name, o.index),
                    2 => (start, end, index) = (o.start, o.end, o.index),
                    _ => (start, end, name) = (o.start, o.end, o.name),
                }
            }
            if locals.iter().any(|l| l.start == start && l.end == end && l.index == index && l.name == name) {
                name.push_str(&format!("{}", i));
            }
            if locals.iter().any(|l| l.start == start && l.end == end && l.index == index && l.name == name) {
                continue;
            }
            let kind = self.src.below(3);
            let desc = if kind != 1 { Some(gen_field_type(self.src)) } else { None };
            let sig = if kind != 0 { Some(g_ref(self.src, 1).text()) } else { None };
            locals.push(MLocal { start, end, name, desc, sig, index });
        }
        let mut attrs = vec![];
        for vis in [true, false] {
            let yes = match self.focus {
                Focus::Position | Focus::Anno => self.src.chance(1, 2),
                Focus::All => self.src.chance(1, 8),
                _ => false,
            };
            if yes {
                let k = self.src.len(3);
                let mut t: Vec<_> = (0..k).map(|_| self.tanno(Loc::Code, n, &catches)).collect();
                self.again(&mut t, |g, a| g.vary_tanno(a, Loc::Code, n, &catches));
                attrs.push(MCodeAttr::TypeAnnos(vis, t));
            }
        }
        for _ in 0..self.raws(Loc::Code) {
            let (n, b) = self.raw(Loc::Code);
            attrs.push(MCodeAttr::Raw(n, b));
        }
        let attrs = self.shuffle(attrs);
        let frames = if self.src.chance(1, 4) {
            let mut at: Vec<usize> = (0..self.src.len(4)).map(|_| self.src.usize(n)).collect();
            at.sort();
            at.dedup();
            Some(at.into_iter().map(|p| (p, self.frame(n))).collect())
        } else {
            None
        };
        MCode { max_stack: self.src.u16(), max_locals: self.src.u16(), insns, catches, lines, locals, attrs, frames }
    }

    pub fn verif(&mut self, n: usize) -> MVerif {
        match self.src.below(9) {
            0 => MVerif::Top,
            1 => MVerif::Int,
            2 => MVerif::Float,
            3 => MVerif::Double,
            4 => MVerif::Long,
            5 => MVerif::Null,
            6 => MVerif::UninitThis,
            7 => MVerif::Object(self.class_operand()),
            _ => MVerif::Uninit(self.src.usize(n)),
        }
    }
    pub fn frame(&mut self, n: usize) -> MFrame {
        match self.src.below(5) {
            0 => MFrame::Same,
            1 => MFrame::One(self.verif(n)),
            2 => MFrame::Chop(self.src.range(1, 3) as u8),
            3 => {
                let k = self.src.range(1, 3);
                MFrame::Append((0..k).map(|_| self.verif(n)).collect())
            }
            _ => {
                let (a, b) = (self.src.len(4), self.src.len(4));
                MFrame::Full((0..a).map(|_| self.verif(n)).collect(), (0..b).map(|_| self.verif(n)).collect())
            }
        }
    }

    pub fn local_index(&mut self) -> u16 {
        match self.src.below(3) {
            0 => self.src.below(6) as u16,
            1 => *self.src.pick(&[3, 4, 254, 255, 256, 257, 65535, 32768]),
            _ => self.src.u16(),
        }
    }

    /// One instruction; jump targets among 0..n.
    pub fn insn(&mut self, n: usize) -> MI {
        let dynw = if self.focus == Focus::Dyn { 4 } else { 1 };
        let k = self.src.below(19 + dynw);
        match k {
            0..=3 => MI::Op(*self.src.pick(&plain_ops())),
            4..=6 => MI::Push(self.constant(true)),
            7 | 8 => MI::Local(self.src.bool(), self.src.below(5) as u8, self.local_index()),
            9 => match self.src.below(3) {
                0 => {
                    let v = self.src.i32() as i16;
                    MI::Inc(self.local_index(), v)
                }
                1 => MI::Inc(self.local_index(), self.src.u8() as i8 as i16),
                _ => MI::Ret(self.local_index()),
            },
            10 | 11 => {
                let t = self.src.usize(n);
                match self.src.below(8) {
                    0 => MI::Jump(167, t),
                    1 => MI::Jsr(t),
                    _ => MI::Jump(*self.src.pick(CONDS), t),
                }
            }
            12 => {
                let m = self.src.range(1, 5);
                let low = match self.src.below(3) {
                    0 => 0,
                    1 => *self.src.pick(&[-1i32, i32::MIN, i32::MAX - m as i32 + 1]),
                    _ => self.src.i32().min(i32::MAX - m as i32 + 1),
                };
                let d = self.src.usize(n);
                MI::Table(d, low, (0..m).map(|_| self.src.usize(n)).collect())
            }
            13 => {
                let m = self.src.len(5);
                let d = self.src.usize(n);
                let mut t: Vec<(i32, usize)> = vec![];
                for _ in 0..m {
                    let k = self.src.i32();
                    if t.iter().all(|x| x.0 != k) {
                        t.push((k, self.src.usize(n)));
                    }
                }
                MI::Lookup(d, t)
            }
            14 => MI::Field(178 + self.src.below(4) as u8, self.field_ref()),
            15 => {
                let op = 182 + self.src.below(3) as u8;
                let itf = op != 182 && self.src.bool();
                let mut m = self.method_ref(itf);
                if op == 183 && self.src.bool() {
                    m.name = ms("<init>");
                }
                MI::Invoke(op, m)
            }
            16 => {
                let m = self.method_ref(true);
                let cnt = match &m.desc {
                    MType::Method(p, _) => 1 + p.iter().map(|t| t.slots()).sum::<usize>(),
                    _ => 1,
                };
                MI::InvokeItf(m, cnt as u8)
            }
            17 => match self.src.below(3) {
                0 => MI::New(gen_class_name(self.src)),
                1 => MI::CheckCast(self.class_operand()),
                _ => MI::InstanceOf(self.class_operand()),
            },
            18 => self.new_array(),
            _ => {
                if self.bsms.is_empty() && self.focus != Focus::All && self.focus != Focus::Insn {
                    MI::Op(0)
                } else {
                    MI::InvokeDyn(self.dynamic(true))
                }
            }
        }
    }

    fn new_array(&mut self) -> MI {
        let e = if self.src.bool() { MType::Ref(gen_class_name(self.src)) } else { MType::Prim(*self.src.pick(PRIMS)) };
        let d = if self.src.chance(1, 10) { *self.src.pick(&[255u8, 254, 128, 4]) } else { self.src.range(1, 4) as u8 };
        let k = if self.src.chance(1, 8) { self.src.range(1, d as usize) as u8 } else { 1 + self.src.usize((d as usize).min(3)) as u8 };
        MI::NewArray(MType::Array(d, Box::new(e)), k)
    }
}

/// start <= end, both possible label positions 0..=n (start is an instruction)
pub fn range(s: &mut Source, n: usize) -> (usize, usize) {
    match s.below(4) {
        0 => (0, n),
        1 => {
            let a = s.usize(n);
            (a, a)
        }
        _ => {
            let a = s.usize(n);
            (a, s.range(a, n))
        }
    }
}

/// The smallest class.
pub fn minimal() -> MClass {
    MClass {
        minor: 0,
        major: 52,
        access: 0x21,
        name: ms("a/B"),
        super_name: Some(ms("java/lang/Object")),
        interfaces: vec![],
        fields: vec![],
        methods: vec![],
        attrs: vec![],
        bsms: None,
    }
}
pub fn method_with(c: MCode) -> MMem {
    MMem { access: 9, name: ms("m"), desc: MType::Method(vec![], None), attrs: vec![MAttr::Code(c)] }
}
