//! Model descriptors (JVMS 4.3) and generic signatures (JVMS 4.7.9.1).

use crate::engine::Source;
use crate::mstr::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum MType {
    /// one of B C D F I J S Z
    Prim(char),
    Ref(MStr),
    Array(u8, Box<MType>),
    Method(Vec<MType>, Option<Box<MType>>),
}

pub const PRIMS: &[char] = &['I', 'B', 'C', 'D', 'F', 'J', 'S', 'Z'];

impl MType {
    pub fn print(&self) -> MStr {
        let mut s = MStr(vec![]);
        self.print_to(&mut s);
        s
    }
    fn print_to(&self, s: &mut MStr) {
        match self {
            MType::Prim(c) => s.0.push(*c as u16),
            MType::Ref(n) => {
                s.push_str("L");
                s.push_ms(n);
                s.push_str(";");
            }
            MType::Array(d, t) => {
                for _ in 0..*d {
                    s.push_str("[");
                }
                t.print_to(s);
            }
            MType::Method(p, r) => {
                s.push_str("(");
                for t in p {
                    t.print_to(s);
                }
                s.push_str(")");
                match r {
                    Some(t) => t.print_to(s),
                    None => s.push_str("V"),
                }
            }
        }
    }
    pub fn is_method(&self) -> bool {
        matches!(self, MType::Method(..))
    }
    pub fn slots(&self) -> usize {
        match self {
            MType::Prim('J') | MType::Prim('D') => 2,
            _ => 1,
        }
    }
}

/// Strict parser of one field type at the front.
fn field_type(u: &[u16]) -> Option<(MType, usize)> {
    let f = *u.first()?;
    let c = char::from_u32(f as u32)?;
    if PRIMS.contains(&c) {
        return Some((MType::Prim(c), 1));
    }
    match c {
        'L' => {
            let end = u.iter().position(|&x| x == b';' as u16)?;
            Some((MType::Ref(MStr(u[1..end].to_vec())), end + 1))
        }
        '[' => {
            let d = u.iter().take_while(|&&x| x == b'[' as u16).count();
            if d > 255 {
                return None;
            }
            let (t, n) = field_type(&u[d..])?;
            Some((MType::Array(d as u8, Box::new(t)), d + n))
        }
        _ => None,
    }
}

pub fn parse_field(s: &MStr) -> Option<MType> {
    let (t, n) = field_type(&s.0)?;
    if n == s.0.len() {
        Some(t)
    } else {
        None
    }
}

pub fn parse_method(s: &MStr) -> Option<MType> {
    let u = &s.0;
    if *u.first()? != b'(' as u16 {
        return None;
    }
    let mut i = 1;
    let mut ps = vec![];
    while *u.get(i)? != b')' as u16 {
        let (t, n) = field_type(&u[i..])?;
        ps.push(t);
        i += n;
    }
    i += 1;
    if u[i..] == [b'V' as u16] {
        return Some(MType::Method(ps, None));
    }
    let (t, n) = field_type(&u[i..])?;
    if i + n == u.len() {
        Some(MType::Method(ps, Some(Box::new(t))))
    } else {
        None
    }
}

pub fn parse_any(s: &MStr) -> Option<MType> {
    parse_field(s).or_else(|| parse_method(s))
}

pub fn gen_field_type(src: &mut Source) -> MType {
    match src.below(8) {
        0..=2 => MType::Prim(*src.pick(PRIMS)),
        3..=5 => MType::Ref(gen_class_name(src)),
        _ => {
            let d = if src.chance(1, 12) { *src.pick(&[2u8, 254, 255, 3, 128]) } else { src.range(1, 3) as u8 };
            let e = if src.bool() { MType::Prim(*src.pick(PRIMS)) } else { MType::Ref(gen_class_name(src)) };
            MType::Array(d, Box::new(e))
        }
    }
}

pub fn gen_method_type(src: &mut Source) -> MType {
    let n = src.len(6).min(120);
    let ps = (0..n).map(|_| gen_field_type(src)).collect();
    let r = if src.chance(2, 3) { Some(Box::new(gen_field_type(src))) } else { None };
    MType::Method(ps, r)
}

// ---------------------------------------------------------------------------------------------
// signatures

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SRef {
    Var(MStr),
    Array(u8, Box<SType>),
    Class(SClass),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SType {
    Prim(char),
    Ref(SRef),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SArg {
    Any,
    Exact(SRef),
    Extends(SRef),
    Super(SRef),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SSimple {
    pub name: MStr,
    pub args: Vec<SArg>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SClass {
    pub package: Vec<MStr>,
    pub name: SSimple,
    pub suffix: Vec<SSimple>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SParam {
    pub name: MStr,
    pub class_bound: Option<SRef>,
    pub itf_bounds: Vec<SRef>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SThrows {
    Var(MStr),
    Class(SClass),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SClassSig {
    pub params: Vec<SParam>,
    pub sup: SClass,
    pub itfs: Vec<SClass>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SMethodSig {
    pub params: Vec<SParam>,
    pub args: Vec<SType>,
    pub ret: Option<SType>,
    pub throws: Vec<SThrows>,
}

pub trait Print {
    fn p(&self, s: &mut MStr);
    fn text(&self) -> MStr {
        let mut s = MStr(vec![]);
        self.p(&mut s);
        s
    }
}
impl Print for SRef {
    fn p(&self, s: &mut MStr) {
        match self {
            SRef::Var(n) => {
                s.push_str("T");
                s.push_ms(n);
                s.push_str(";");
            }
            SRef::Array(d, t) => {
                for _ in 0..*d {
                    s.push_str("[");
                }
                t.p(s);
            }
            SRef::Class(c) => c.p(s),
        }
    }
}
impl Print for SType {
    fn p(&self, s: &mut MStr) {
        match self {
            SType::Prim(c) => s.0.push(*c as u16),
            SType::Ref(r) => r.p(s),
        }
    }
}
impl Print for SArg {
    fn p(&self, s: &mut MStr) {
        match self {
            SArg::Any => s.push_str("*"),
            SArg::Exact(r) => r.p(s),
            SArg::Extends(r) => {
                s.push_str("+");
                r.p(s);
            }
            SArg::Super(r) => {
                s.push_str("-");
                r.p(s);
            }
        }
    }
}
impl Print for SSimple {
    fn p(&self, s: &mut MStr) {
        s.push_ms(&self.name);
        if !self.args.is_empty() {
            s.push_str("<");
            for a in &self.args {
                a.p(s);
            }
            s.push_str(">");
        }
    }
}
impl Print for SClass {
    fn p(&self, s: &mut MStr) {
        s.push_str("L");
        for p in &self.package {
            s.push_ms(p);
            s.push_str("/");
        }
        self.name.p(s);
        for x in &self.suffix {
            s.push_str(".");
            x.p(s);
        }
        s.push_str(";");
    }
}
impl Print for SParam {
    fn p(&self, s: &mut MStr) {
        s.push_ms(&self.name);
        s.push_str(":");
        if let Some(b) = &self.class_bound {
            b.p(s);
        }
        for b in &self.itf_bounds {
            s.push_str(":");
            b.p(s);
        }
    }
}
impl Print for SThrows {
    fn p(&self, s: &mut MStr) {
        s.push_str("^");
        match self {
            SThrows::Var(n) => {
                s.push_str("T");
                s.push_ms(n);
                s.push_str(";");
            }
            SThrows::Class(c) => c.p(s),
        }
    }
}
fn params(ps: &[SParam], s: &mut MStr) {
    if !ps.is_empty() {
        s.push_str("<");
        for p in ps {
            p.p(s);
        }
        s.push_str(">");
    }
}
impl Print for SClassSig {
    fn p(&self, s: &mut MStr) {
        params(&self.params, s);
        self.sup.p(s);
        for i in &self.itfs {
            i.p(s);
        }
    }
}
impl Print for SMethodSig {
    fn p(&self, s: &mut MStr) {
        params(&self.params, s);
        s.push_str("(");
        for a in &self.args {
            a.p(s);
        }
        s.push_str(")");
        match &self.ret {
            Some(r) => r.p(s),
            None => s.push_str("V"),
        }
        for t in &self.throws {
            t.p(s);
        }
    }
}

/// Identifier without lone surrogates (the library models signatures as `str`).
fn ident(src: &mut Source) -> MStr {
    let n = gen_name(src);
    if n.lone_free() {
        n
    } else {
        ms("Sur")
    }
}

pub fn g_ref(src: &mut Source, depth: usize) -> SRef {
    match src.below(6) {
        0 | 1 => SRef::Var(ident(src)),
        2 if depth > 0 => {
            let d = if src.chance(1, 16) { *src.pick(&[2u8, 255, 254]) } else { src.range(1, 3) as u8 };
            let t = match g_type(src, depth - 1) {
                // the array dimension is written as one run of brackets
                SType::Ref(SRef::Array(_, t)) => *t,
                t => t,
            };
            SRef::Array(d, Box::new(t))
        }
        _ => SRef::Class(g_class(src, depth)),
    }
}
pub fn g_type(src: &mut Source, depth: usize) -> SType {
    if src.chance(1, 3) {
        SType::Prim(*src.pick(PRIMS))
    } else {
        SType::Ref(g_ref(src, depth))
    }
}
fn g_simple(src: &mut Source, depth: usize) -> SSimple {
    let name = ident(src);
    let args = if depth > 0 && src.chance(2, 5) {
        let n = src.range(1, 3);
        (0..n)
            .map(|_| match src.below(4) {
                0 => SArg::Any,
                1 => SArg::Exact(g_ref(src, depth - 1)),
                2 => SArg::Extends(g_ref(src, depth - 1)),
                _ => SArg::Super(g_ref(src, depth - 1)),
            })
            .collect()
    } else {
        vec![]
    };
    SSimple { name, args }
}
pub fn g_class(src: &mut Source, depth: usize) -> SClass {
    let package = (0..src.len(3)).map(|_| ident(src)).collect();
    let name = g_simple(src, depth);
    let suffix = if src.chance(1, 4) { (0..src.range(1, 3)).map(|_| g_simple(src, depth)).collect() } else { vec![] };
    SClass { package, name, suffix }
}
fn g_params(src: &mut Source, depth: usize) -> Vec<SParam> {
    let n = src.len(4);
    let mut v: Vec<SParam> = vec![];
    for _ in 0..n {
        let mut name = ident(src);
        if let Some(p) = v.last() {
            // an empty bound directly before a name starting with L or T cannot be told from a bound
            if p.class_bound.is_none() && p.itf_bounds.is_empty() {
                name.0.insert(0, b'q' as u16);
            }
        }
        v.push(SParam {
            name,
            class_bound: if src.bool() { Some(g_ref(src, depth)) } else { None },
            itf_bounds: (0..src.len(3)).map(|_| g_ref(src, depth)).collect(),
        });
    }
    v
}
pub fn g_class_sig(src: &mut Source, depth: usize) -> SClassSig {
    SClassSig { params: g_params(src, depth), sup: g_class(src, depth), itfs: (0..src.len(4)).map(|_| g_class(src, depth)).collect() }
}
pub fn g_method_sig(src: &mut Source, depth: usize) -> SMethodSig {
    SMethodSig {
        params: g_params(src, depth),
        args: (0..src.len(5)).map(|_| g_type(src, depth)).collect(),
        ret: if src.bool() { Some(g_type(src, depth)) } else { None },
        throws: (0..src.len(4))
            .map(|_| if src.bool() { SThrows::Var(ident(src)) } else { SThrows::Class(g_class(src, depth)) })
            .collect(),
    }
}

// --- strict recognisers (used by the class-file decoder and by C12) --------------------------

struct P<'a> {
    u: &'a [u16],
    i: usize,
    /// accept empty or odd identifiers and empty `<>` (used to find texts that are certainly wrong)
    lenient: bool,
    /// the text needs more than one symbol of lookahead
    ambiguous: bool,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.u.get(self.i).map(|&x| char::from_u32(x as u32).unwrap_or('\u{fffd}'))
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek()? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn ident(&mut self, lenient_stop: &str) -> Option<MStr> {
        let a = self.i;
        let stop = if self.lenient { lenient_stop } else { ".;[/<>:" };
        while let Some(c) = self.peek() {
            if stop.contains(c) {
                break;
            }
            self.i += 1;
        }
        if self.i == a && !self.lenient {
            None
        } else {
            Some(MStr(self.u[a..self.i].to_vec()))
        }
    }
    fn rf(&mut self) -> Option<SRef> {
        match self.peek()? {
            'T' => {
                self.i += 1;
                let n = self.ident(";")?;
                self.eat(';')?;
                Some(SRef::Var(n))
            }
            '[' => {
                let mut d = 0usize;
                while self.peek() == Some('[') {
                    self.i += 1;
                    d += 1;
                }
                if d > 255 {
                    return None;
                }
                Some(SRef::Array(d as u8, Box::new(self.ty()?)))
            }
            'L' => Some(SRef::Class(self.class()?)),
            _ => None,
        }
    }
    fn ty(&mut self) -> Option<SType> {
        let c = self.peek()?;
        if PRIMS.contains(&c) {
            self.i += 1;
            Some(SType::Prim(c))
        } else {
            Some(SType::Ref(self.rf()?))
        }
    }
    fn args(&mut self) -> Option<Vec<SArg>> {
        let mut v = vec![];
        if self.peek() == Some('<') {
            self.i += 1;
            if self.lenient && self.peek()? == '>' {
                self.i += 1;
                return Some(v);
            }
            loop {
                v.push(match self.peek()? {
                    '*' => {
                        self.i += 1;
                        SArg::Any
                    }
                    '+' => {
                        self.i += 1;
                        SArg::Extends(self.rf()?)
                    }
                    '-' => {
                        self.i += 1;
                        SArg::Super(self.rf()?)
                    }
                    _ => SArg::Exact(self.rf()?),
                });
                if self.peek()? == '>' {
                    self.i += 1;
                    break;
                }
            }
        }
        Some(v)
    }
    fn class(&mut self) -> Option<SClass> {
        self.eat('L')?;
        let mut package = vec![];
        let mut name = self.ident("/<.;")?;
        while self.peek()? == '/' {
            self.i += 1;
            package.push(name);
            name = self.ident("/<.;")?;
        }
        let args = self.args()?;
        let mut suffix = vec![];
        while self.peek()? == '.' {
            self.i += 1;
            let n = self.ident("<.;")?;
            suffix.push(SSimple { name: n, args: self.args()? });
        }
        self.eat(';')?;
        Some(SClass { package, name: SSimple { name, args }, suffix })
    }
    fn params(&mut self) -> Option<Vec<SParam>> {
        let mut v = vec![];
        if self.peek() == Some('<') {
            self.i += 1;
            if self.lenient && self.peek()? == '>' {
                self.i += 1;
                return Some(v);
            }
            loop {
                let name = self.ident(":")?;
                self.eat(':')?;
                let class_bound = if matches!(self.peek()?, 'L' | 'T' | '[') {
                    // an identifier may also start with L or T: only a bound can follow a colon
                    // directly, the next parameter name comes after a complete bound or nothing
                    let save = self.i;
                    match self.rf() {
                        Some(r) => Some(r),
                        None => {
                            self.i = save;
                            self.ambiguous = true;
                            None
                        }
                    }
                } else {
                    None
                };
                let mut itf_bounds = vec![];
                while self.peek()? == ':' {
                    self.i += 1;
                    itf_bounds.push(self.rf()?);
                }
                v.push(SParam { name, class_bound, itf_bounds });
                if self.peek()? == '>' {
                    self.i += 1;
                    break;
                }
            }
        }
        Some(v)
    }
    /// the parse, and whether it is the only reading a one-symbol-lookahead parser can take
    fn done<T>(&self, t: T) -> Option<(T, bool)> {
        if self.i == self.u.len() {
            Some((t, !self.ambiguous))
        } else {
            None
        }
    }
}

pub fn parse_sig_field(s: &MStr, lenient: bool) -> Option<(SRef, bool)> {
    let mut p = P { u: &s.0, i: 0, lenient, ambiguous: false };
    let r = p.rf()?;
    p.done(r)
}
pub fn parse_sig_type(s: &MStr, lenient: bool) -> Option<(SType, bool)> {
    let mut p = P { u: &s.0, i: 0, lenient, ambiguous: false };
    let r = p.ty()?;
    p.done(r)
}
pub fn parse_sig_class(s: &MStr, lenient: bool) -> Option<(SClassSig, bool)> {
    let mut p = P { u: &s.0, i: 0, lenient, ambiguous: false };
    let params = p.params()?;
    let sup = p.class()?;
    let mut itfs = vec![];
    while p.peek().is_some() {
        itfs.push(p.class()?);
    }
    p.done(SClassSig { params, sup, itfs })
}
pub fn parse_sig_method(s: &MStr, lenient: bool) -> Option<(SMethodSig, bool)> {
    let mut p = P { u: &s.0, i: 0, lenient, ambiguous: false };
    let params = p.params()?;
    p.eat('(')?;
    let mut args = vec![];
    while p.peek()? != ')' {
        args.push(p.ty()?);
    }
    p.eat(')')?;
    let ret = if p.peek()? == 'V' {
        p.i += 1;
        None
    } else {
        Some(p.ty()?)
    };
    let mut throws = vec![];
    while p.peek().is_some() {
        p.eat('^')?;
        throws.push(match p.peek()? {
            'T' => {
                p.i += 1;
                let n = p.ident(";")?;
                p.eat(';')?;
                SThrows::Var(n)
            }
            _ => SThrows::Class(p.class()?),
        });
    }
    p.done(SMethodSig { params, args, ret, throws })
}
