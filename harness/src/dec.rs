//! Strict, independent class-file decoder: bytes -> model, or an error naming what is ill-formed.
//! Nothing here uses the library under test.

use std::collections::HashMap;

use crate::desc::*;
use crate::gen::{recognised, Loc};
use crate::model::*;
use crate::mstr::*;

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Raw {
    Hole,
    Utf8(MStr),
    Int(i32),
    Float(u32),
    Long(i64),
    Double(u64),
    Class(u16),
    Str(u16),
    Ref(u8, u16, u16),
    Nat(u16, u16),
    Handle(u8, u16),
    MethodType(u16),
    Dyn(u8, u16, u16),
    Module(u16),
    Package(u16),
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.p < n {
            return Err(format!("input ends: {} bytes wanted at {}, {} left", n, self.p, self.b.len() - self.p));
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn u1(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u2(&mut self) -> R<u16> {
        let s = self.take(2)?;
        Ok(u16::from_be_bytes([s[0], s[1]]))
    }
    pub fn u4(&mut self) -> R<u32> {
        let s = self.take(4)?;
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    pub fn i4(&mut self) -> R<i32> {
        Ok(self.u4()? as i32)
    }
    pub fn u8b(&mut self) -> R<u64> {
        Ok(((self.u4()? as u64) << 32) | self.u4()? as u64)
    }
    pub fn done(&self) -> R<()> {
        if self.p == self.b.len() {
            Ok(())
        } else {
            Err(format!("{} bytes left over after {}", self.b.len() - self.p, self.p))
        }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
}

pub struct Pool {
    pub e: Vec<Raw>,
}

impl Pool {
    pub fn read(r: &mut Rd) -> R<Pool> {
        let p = Pool::read_entries(r)?;
        p.check()?;
        Ok(p)
    }
    /// the entries alone, without looking at what they refer to
    pub fn read_entries(r: &mut Rd) -> R<Pool> {
        let count = r.u2()?;
        if count == 0 {
            return Err("constant_pool_count is 0".into());
        }
        let mut e = vec![Raw::Hole];
        while e.len() < count as usize {
            let tag = r.u1()?;
            let x = match tag {
                1 => {
                    let n = r.u2()?;
                    let b = r.take(n as usize)?;
                    Raw::Utf8(MStr(from_mutf8(b).ok_or_else(|| format!("pool entry {} is not modified UTF-8: {:02x?}", e.len(), b))?))
                }
                3 => Raw::Int(r.i4()?),
                4 => Raw::Float(r.u4()?),
                5 => Raw::Long(r.u8b()? as i64),
                6 => Raw::Double(r.u8b()?),
                7 => Raw::Class(r.u2()?),
                8 => Raw::Str(r.u2()?),
                9..=11 => Raw::Ref(tag, r.u2()?, r.u2()?),
                12 => Raw::Nat(r.u2()?, r.u2()?),
                15 => Raw::Handle(r.u1()?, r.u2()?),
                16 => Raw::MethodType(r.u2()?),
                17 | 18 => Raw::Dyn(tag, r.u2()?, r.u2()?),
                19 => Raw::Module(r.u2()?),
                20 => Raw::Package(r.u2()?),
                t => return Err(format!("pool entry {} has tag {}", e.len(), t)),
            };
            let wide = matches!(x, Raw::Long(_) | Raw::Double(_));
            e.push(x);
            if wide {
                e.push(Raw::Hole);
            }
        }
        if e.len() != count as usize {
            return Err("a wide entry runs over the end of the pool".into());
        }
        Ok(Pool { e })
    }
    fn check(&self) -> R<()> {
        for (i, x) in self.e.iter().enumerate() {
            let c = |r: R<()>| r.map_err(|m| format!("pool entry {} ({:?}): {}", i, x, m));
            c(match x {
                Raw::Class(n) => self.class_text(*n).map(|_| ()),
                Raw::Str(n) | Raw::Module(n) | Raw::Package(n) => self.utf8(*n).map(|_| ()),
                Raw::Ref(..) => self.member(i as u16).map(|_| ()),
                Raw::Nat(a, b) => self.utf8(*a).and_then(|_| self.desc(*b)).map(|_| ()),
                Raw::Handle(..) => self.handle(i as u16).map(|_| ()),
                Raw::MethodType(n) => self.mdesc(*n).map(|_| ()),
                Raw::Dyn(t, _, n) => self.nat(*n).and_then(|(_, d)| {
                    if d.is_method() != (*t == 18) {
                        Err("descriptor of the wrong kind".into())
                    } else {
                        Ok(())
                    }
                }),
                _ => Ok(()),
            })?;
        }
        Ok(())
    }
    pub fn at(&self, i: u16) -> R<&Raw> {
        match self.e.get(i as usize) {
            None => Err(format!("pool index {} out of range", i)),
            Some(Raw::Hole) => Err(format!("pool index {} is not an entry", i)),
            Some(x) => Ok(x),
        }
    }
    pub fn utf8(&self, i: u16) -> R<MStr> {
        match self.at(i)? {
            Raw::Utf8(s) => Ok(s.clone()),
            o => Err(format!("pool index {}: Utf8 wanted, found {:?}", i, o)),
        }
    }
    pub fn utf8_opt(&self, i: u16) -> R<Option<MStr>> {
        if i == 0 {
            Ok(None)
        } else {
            self.utf8(i).map(Some)
        }
    }
    fn class_text(&self, i: u16) -> R<MStr> {
        let s = self.utf8(i)?;
        if s.0.first() == Some(&(b'[' as u16)) && parse_field(&s).is_none() {
            return Err("array class is not a descriptor".into());
        }
        Ok(s)
    }
    pub fn class(&self, i: u16) -> R<MStr> {
        match self.at(i)? {
            Raw::Class(n) => self.class_text(*n),
            o => Err(format!("pool index {}: Class wanted, found {:?}", i, o)),
        }
    }
    pub fn class_opt(&self, i: u16) -> R<Option<MStr>> {
        if i == 0 {
            Ok(None)
        } else {
            self.class(i).map(Some)
        }
    }
    pub fn module(&self, i: u16) -> R<MStr> {
        match self.at(i)? {
            Raw::Module(n) => self.utf8(*n),
            o => Err(format!("pool index {}: Module wanted, found {:?}", i, o)),
        }
    }
    pub fn package(&self, i: u16) -> R<MStr> {
        match self.at(i)? {
            Raw::Package(n) => self.utf8(*n),
            o => Err(format!("pool index {}: Package wanted, found {:?}", i, o)),
        }
    }
    pub fn desc(&self, i: u16) -> R<MType> {
        let s = self.utf8(i)?;
        parse_any(&s).ok_or_else(|| format!("not a descriptor: {:?}", s))
    }
    pub fn fdesc(&self, i: u16) -> R<MType> {
        let s = self.utf8(i)?;
        parse_field(&s).ok_or_else(|| format!("not a field descriptor: {:?}", s))
    }
    pub fn mdesc(&self, i: u16) -> R<MType> {
        let s = self.utf8(i)?;
        parse_method(&s).ok_or_else(|| format!("not a method descriptor: {:?}", s))
    }
    pub fn nat(&self, i: u16) -> R<(MStr, MType)> {
        match self.at(i)? {
            Raw::Nat(n, d) => Ok((self.utf8(*n)?, self.desc(*d)?)),
            o => Err(format!("pool index {}: NameAndType wanted, found {:?}", i, o)),
        }
    }
    pub fn member(&self, i: u16) -> R<MMember> {
        match self.at(i)? {
            Raw::Ref(t, c, n) => {
                let owner = self.class(*c)?;
                let (name, desc) = self.nat(*n)?;
                if desc.is_method() != (*t != 9) {
                    return Err(format!("pool index {}: tag {} with descriptor {:?}", i, t, desc.print()));
                }
                Ok(MMember { owner, name, desc, itf: *t == 11 })
            }
            o => Err(format!("pool index {}: member reference wanted, found {:?}", i, o)),
        }
    }
    pub fn member_tag(&self, i: u16, tags: &[u8]) -> R<MMember> {
        match self.at(i)? {
            Raw::Ref(t, _, _) if tags.contains(t) => self.member(i),
            o => Err(format!("pool index {}: reference with tag {:?} wanted, found {:?}", i, tags, o)),
        }
    }
    pub fn handle(&self, i: u16) -> R<MHandle> {
        match self.at(i)? {
            Raw::Handle(k, m) => {
                let tags: &[u8] = match k {
                    1..=4 => &[9],
                    5 | 8 => &[10],
                    6 | 7 => &[10, 11],
                    9 => &[11],
                    _ => return Err(format!("handle kind {}", k)),
                };
                Ok(MHandle { kind: *k, member: self.member_tag(*m, tags)? })
            }
            o => Err(format!("pool index {}: MethodHandle wanted, found {:?}", i, o)),
        }
    }
}

/// Resolved bootstrap table (indices into it come from Dyn entries).
struct Dec {
    pool: Pool,
    bsms: Vec<(u16, Vec<u16>)>,
    memo: HashMap<u16, MBsm>,
}

impl Dec {
    fn bsm(&mut self, i: u16, depth: usize) -> R<MBsm> {
        if let Some(b) = self.memo.get(&i) {
            return Ok(b.clone());
        }
        if depth > 300 {
            return Err("bootstrap arguments are nested without end".into());
        }
        let (h, args) = self.bsms.get(i as usize).cloned().ok_or_else(|| format!("bootstrap method {} of {}", i, self.bsms.len()))?;
        let handle = self.pool.handle(h)?;
        let args = args.iter().map(|a| self.constant(*a, depth + 1)).collect::<R<Vec<_>>>()?;
        let b = MBsm { handle, args };
        self.memo.insert(i, b.clone());
        Ok(b)
    }
    fn dynamic(&mut self, i: u16, tag: u8, depth: usize) -> R<MDyn> {
        match self.pool.at(i)?.clone() {
            Raw::Dyn(t, b, n) if t == tag => {
                let (name, desc) = self.pool.nat(n)?;
                Ok(MDyn { bsm: self.bsm(b, depth)?, name, desc })
            }
            o => Err(format!("pool index {}: tag {} wanted, found {:?}", i, tag, o)),
        }
    }
    fn constant(&mut self, i: u16, depth: usize) -> R<MConst> {
        Ok(match self.pool.at(i)?.clone() {
            Raw::Int(x) => MConst::Int(x),
            Raw::Float(x) => MConst::Float(x),
            Raw::Long(x) => MConst::Long(x),
            Raw::Double(x) => MConst::Double(x),
            Raw::Str(n) => MConst::Str(self.pool.utf8(n)?),
            Raw::Class(_) => MConst::Class(self.pool.class(i)?),
            Raw::MethodType(n) => MConst::MethodType(self.pool.mdesc(n)?),
            Raw::Handle(..) => MConst::Handle(self.pool.handle(i)?),
            Raw::Dyn(17, _, _) => MConst::Dyn(Box::new(self.dynamic(i, 17, depth)?)),
            o => return Err(format!("pool index {}: loadable constant wanted, found {:?}", i, o)),
        })
    }

    // ---- annotations
    fn val(&mut self, r: &mut Rd, depth: usize) -> R<MVal> {
        if depth > 300 {
            return Err("annotation nested too deep".into());
        }
        let t = r.u1()?;
        let int = |d: &Self, i: u16| -> R<i32> {
            match d.pool.at(i)? {
                Raw::Int(x) => Ok(*x),
                o => Err(format!("annotation constant: Integer wanted, found {:?}", o)),
            }
        };
        Ok(match t {
            b'B' => {
                let x = int(self, r.u2()?)?;
                MVal::Byte(i8::try_from(x).map_err(|_| format!("byte {}", x))?)
            }
            b'C' => {
                let x = int(self, r.u2()?)?;
                MVal::Char(u16::try_from(x).map_err(|_| format!("char {}", x))?)
            }
            b'S' => {
                let x = int(self, r.u2()?)?;
                MVal::Short(i16::try_from(x).map_err(|_| format!("short {}", x))?)
            }
            b'Z' => match int(self, r.u2()?)? {
                0 => MVal::Bool(false),
                1 => MVal::Bool(true),
                x => return Err(format!("boolean {}", x)),
            },
            b'I' => MVal::Int(int(self, r.u2()?)?),
            b'D' => match self.pool.at(r.u2()?)? {
                Raw::Double(x) => MVal::Double(*x),
                o => return Err(format!("annotation constant: Double wanted, found {:?}", o)),
            },
            b'F' => match self.pool.at(r.u2()?)? {
                Raw::Float(x) => MVal::Float(*x),
                o => return Err(format!("annotation constant: Float wanted, found {:?}", o)),
            },
            b'J' => match self.pool.at(r.u2()?)? {
                Raw::Long(x) => MVal::Long(*x),
                o => return Err(format!("annotation constant: Long wanted, found {:?}", o)),
            },
            b's' => MVal::Str(self.pool.utf8(r.u2()?)?),
            b'e' => MVal::Enum(self.pool.fdesc(r.u2()?)?, self.pool.utf8(r.u2()?)?),
            b'c' => {
                let s = self.pool.utf8(r.u2()?)?;
                if s.eq_str("V") {
                    MVal::Class(None)
                } else {
                    MVal::Class(Some(parse_field(&s).ok_or_else(|| format!("class value {:?}", s))?))
                }
            }
            b'@' => MVal::Anno(self.anno(r, depth + 1)?),
            b'[' => {
                let n = r.u2()?;
                MVal::Array((0..n).map(|_| self.val(r, depth + 1)).collect::<R<Vec<_>>>()?)
            }
            t => return Err(format!("annotation value tag {}", t)),
        })
    }
    fn anno(&mut self, r: &mut Rd, depth: usize) -> R<MAnno> {
        let ty = self.pool.fdesc(r.u2()?)?;
        let n = r.u2()?;
        let mut pairs = vec![];
        for _ in 0..n {
            let k = self.pool.utf8(r.u2()?)?;
            pairs.push((k, self.val(r, depth)?));
        }
        Ok(MAnno { ty, pairs })
    }
    fn annos(&mut self, r: &mut Rd) -> R<Vec<MAnno>> {
        let n = r.u2()?;
        (0..n).map(|_| self.anno(r, 0)).collect()
    }
    fn tanno(&mut self, r: &mut Rd, loc: Loc, pos: &dyn Fn(u32) -> R<usize>, catches: &[MCatch]) -> R<MTAnno> {
        let t = r.u1()?;
        let ok = match loc {
            Loc::Class => matches!(t, 0x00 | 0x10 | 0x11),
            Loc::Field => t == 0x13,
            Loc::Method => matches!(t, 0x01 | 0x12 | 0x14..=0x17),
            Loc::Code => matches!(t, 0x40..=0x4B),
        };
        if !ok {
            return Err(format!("target type {:#x} at {:?}", t, loc));
        }
        let target = match t {
            0x00 | 0x01 | 0x16 => MTarget::U8(t, r.u1()?),
            0x10 | 0x17 => MTarget::U16(t, r.u2()?),
            0x11 | 0x12 => MTarget::U8U8(t, r.u1()?, r.u1()?),
            0x13..=0x15 => MTarget::Empty(t),
            0x40 | 0x41 => {
                let n = r.u2()?;
                let mut v = vec![];
                for _ in 0..n {
                    let s = r.u2()? as u32;
                    let l = r.u2()? as u32;
                    v.push((pos(s)?, pos(s + l)?, r.u2()?));
                }
                MTarget::Locals(t, v)
            }
            0x42 => {
                let i = r.u2()?;
                MTarget::Catch(catches.get(i as usize).cloned().ok_or_else(|| format!("catch target {} of {}", i, catches.len()))?)
            }
            0x43..=0x46 => MTarget::Off(t, pos(r.u2()? as u32)?),
            _ => MTarget::OffArg(t, pos(r.u2()? as u32)?, r.u1()?),
        };
        let n = r.u1()?;
        let mut path = vec![];
        for _ in 0..n {
            let k = r.u1()?;
            let i = r.u1()?;
            if k > 3 {
                return Err(format!("type path kind {}", k));
            }
            path.push((k, i));
        }
        Ok(MTAnno { target, path, anno: self.anno(r, 0)? })
    }
    fn tannos(&mut self, r: &mut Rd, loc: Loc, pos: &dyn Fn(u32) -> R<usize>, catches: &[MCatch]) -> R<Vec<MTAnno>> {
        let n = r.u2()?;
        (0..n).map(|_| self.tanno(r, loc, pos, catches)).collect()
    }

    // ---- code
    fn insn(&mut self, r: &mut Rd, at: usize) -> R<RI> {
        let op = r.u1()?;
        let m = |i: MI| Ok(RI::Plain(i));
        match op {
            0 | 1 | 46..=53 | 79..=131 | 133..=152 | 172..=177 | 190 | 191 | 194 | 195 => m(MI::Op(op)),
            2..=8 => m(MI::Push(MConst::Int(op as i32 - 3))),
            9 | 10 => m(MI::Push(MConst::Long(op as i64 - 9))),
            11..=13 => m(MI::Push(MConst::Float(((op - 11) as f32).to_bits()))),
            14 | 15 => m(MI::Push(MConst::Double(((op - 14) as f64).to_bits()))),
            16 => m(MI::Push(MConst::Int(r.u1()? as i8 as i32))),
            17 => m(MI::Push(MConst::Int(r.u2()? as i16 as i32))),
            18 | 19 => {
                let i = if op == 18 { r.u1()? as u16 } else { r.u2()? };
                let c = self.constant(i, 0)?;
                if c.wide() {
                    return Err(format!("ldc of a wide constant {:?}", c));
                }
                m(MI::Push(c))
            }
            20 => {
                let c = self.constant(r.u2()?, 0)?;
                if !c.wide() {
                    return Err(format!("ldc2_w of a narrow constant {:?}", c));
                }
                m(MI::Push(c))
            }
            21..=25 => m(MI::Local(false, op - 21, r.u1()? as u16)),
            26..=45 => m(MI::Local(false, (op - 26) / 4, ((op - 26) % 4) as u16)),
            54..=58 => m(MI::Local(true, op - 54, r.u1()? as u16)),
            59..=78 => m(MI::Local(true, (op - 59) / 4, ((op - 59) % 4) as u16)),
            132 => m(MI::Inc(r.u1()? as u16, r.u1()? as i8 as i16)),
            153..=166 | 198 | 199 => Ok(RI::Jump(op, at as i64 + r.u2()? as i16 as i64)),
            167 | 168 => Ok(RI::Jump(op, at as i64 + r.u2()? as i16 as i64)),
            200 => Ok(RI::Jump(167, at as i64 + r.i4()? as i64)),
            201 => Ok(RI::Jump(168, at as i64 + r.i4()? as i64)),
            169 => m(MI::Ret(r.u1()? as u16)),
            170 => {
                while r.p % 4 != 0 {
                    r.u1()?;
                }
                let d = at as i64 + r.i4()? as i64;
                let low = r.i4()?;
                let high = r.i4()?;
                if low > high {
                    return Err(format!("tableswitch low {} > high {}", low, high));
                }
                let n = high as i64 - low as i64 + 1;
                if n * 4 > r.left() as i64 {
                    return Err("tableswitch runs over the end of the code".into());
                }
                let v = (0..n).map(|_| Ok(at as i64 + r.i4()? as i64)).collect::<R<Vec<_>>>()?;
                Ok(RI::Table(d, low, v))
            }
            171 => {
                while r.p % 4 != 0 {
                    r.u1()?;
                }
                let d = at as i64 + r.i4()? as i64;
                let n = r.i4()?;
                if n < 0 || n as i64 * 8 > r.left() as i64 {
                    return Err(format!("lookupswitch with {} pairs", n));
                }
                let mut v: Vec<(i32, i64)> = vec![];
                for _ in 0..n {
                    let k = r.i4()?;
                    if v.last().map_or(false, |x| x.0 >= k) {
                        return Err("lookupswitch keys not ascending".into());
                    }
                    v.push((k, at as i64 + r.i4()? as i64));
                }
                Ok(RI::Lookup(d, v))
            }
            178..=181 => m(MI::Field(op, self.pool.member_tag(r.u2()?, &[9])?)),
            182 => m(MI::Invoke(op, self.pool.member_tag(r.u2()?, &[10])?)),
            183 | 184 => m(MI::Invoke(op, self.pool.member_tag(r.u2()?, &[10, 11])?)),
            185 => {
                let x = self.pool.member_tag(r.u2()?, &[11])?;
                let c = r.u1()?;
                if r.u1()? != 0 {
                    return Err("invokeinterface: fourth operand byte not 0".into());
                }
                if c == 0 {
                    return Err("invokeinterface: count 0".into());
                }
                m(MI::InvokeItf(x, c))
            }
            186 => {
                let d = self.dynamic(r.u2()?, 18, 0)?;
                if r.u2()? != 0 {
                    return Err("invokedynamic: operand bytes not 0".into());
                }
                m(MI::InvokeDyn(d))
            }
            187 => m(MI::New(self.pool.class(r.u2()?)?)),
            188 => {
                let t = match r.u1()? {
                    4 => 'Z',
                    5 => 'C',
                    6 => 'F',
                    7 => 'D',
                    8 => 'B',
                    9 => 'S',
                    10 => 'I',
                    11 => 'J',
                    t => return Err(format!("newarray type {}", t)),
                };
                m(MI::NewArray(MType::Array(1, Box::new(MType::Prim(t))), 1))
            }
            189 => {
                let c = self.pool.class(r.u2()?)?;
                let t = if c.0.first() == Some(&(b'[' as u16)) { parse_field(&c).ok_or("anewarray operand")? } else { MType::Ref(c) };
                let t = match t {
                    MType::Array(255, _) => return Err("anewarray makes 256 dimensions".into()),
                    MType::Array(d, e) => MType::Array(d + 1, e),
                    t => MType::Array(1, Box::new(t)),
                };
                m(MI::NewArray(t, 1))
            }
            192 => m(MI::CheckCast(self.pool.class(r.u2()?)?)),
            193 => m(MI::InstanceOf(self.pool.class(r.u2()?)?)),
            196 => {
                let op = r.u1()?;
                let i = r.u2()?;
                match op {
                    21..=25 => m(MI::Local(false, op - 21, i)),
                    54..=58 => m(MI::Local(true, op - 54, i)),
                    169 => m(MI::Ret(i)),
                    132 => m(MI::Inc(i, r.u2()? as i16)),
                    o => Err(format!("wide {}", o)),
                }
            }
            197 => {
                let c = self.pool.class(r.u2()?)?;
                let n = r.u1()?;
                match parse_field(&c) {
                    Some(MType::Array(d, e)) if n >= 1 && n <= d => m(MI::NewArray(MType::Array(d, e), n)),
                    _ => Err(format!("multianewarray of {:?} with {} dimensions", c, n)),
                }
            }
            o => Err(format!("opcode {} at {}", o, at)),
        }
    }

    fn code(&mut self, r: &mut Rd) -> R<MCode> {
        let max_stack = r.u2()?;
        let max_locals = r.u2()?;
        let n = r.u4()?;
        if n == 0 || n > 65535 {
            return Err(format!("code length {}", n));
        }
        let code = r.take(n as usize)?;
        let (insns, index) = self.insns(code)?;
        let end = code.len() as u32;
        let pos = |p: u32| -> R<usize> {
            index.get(&p).copied().ok_or_else(|| format!("offset {} is not an instruction (code length {})", p, end))
        };
        let ipos = |p: u32| -> R<usize> {
            if p >= end {
                return Err(format!("offset {} is not inside the code (length {})", p, end));
            }
            pos(p)
        };
        let mut catches = vec![];
        for _ in 0..r.u2()? {
            let (s, e, h, c) = (r.u2()?, r.u2()?, r.u2()?, r.u2()?);
            if s >= e {
                return Err(format!("handler range {}..{}", s, e));
            }
            catches.push(MCatch { start: ipos(s as u32)?, end: pos(e as u32)?, handler: ipos(h as u32)?, class: self.pool.class_opt(c)? });
        }
        let mut out = MCode { max_stack, max_locals, insns, catches, ..Default::default() };
        let mut sigs = vec![];
        for _ in 0..r.u2()? {
            let name = self.pool.utf8(r.u2()?)?;
            let len = r.u4()?;
            let body = r.take(len as usize)?;
            let nm = name.to_string().unwrap_or_default();
            if !recognised(Loc::Code, &nm) {
                out.attrs.push(MCodeAttr::Raw(name, body.to_vec()));
                continue;
            }
            let mut b = Rd::new(body);
            let e = |m: String| format!("{}: {}", nm, m);
            match &*nm {
                "LineNumberTable" => {
                    for _ in 0..b.u2()? {
                        let p = b.u2()?;
                        out.lines.push((ipos(p as u32).map_err(e)?, b.u2()?));
                    }
                }
                "LocalVariableTable" | "LocalVariableTypeTable" => {
                    let sig = nm == "LocalVariableTypeTable";
                    for _ in 0..b.u2()? {
                        let s = b.u2()? as u32;
                        let l = b.u2()? as u32;
                        let (start, end) = (pos(s).map_err(e)?, pos(s + l).map_err(e)?);
                        let name = self.pool.utf8(b.u2()?)?;
                        let d = b.u2()?;
                        let index = b.u2()?;
                        if sig {
                            let t = self.pool.utf8(d)?;
                            if parse_sig_field(&t, true).is_none() {
                                return Err(format!("local variable signature {:?}", t));
                            }
                            sigs.push(MLocal { start, end, name, desc: None, sig: Some(t), index });
                        } else {
                            let t = self.pool.fdesc(d)?;
                            out.locals.push(MLocal { start, end, name, desc: Some(t), sig: None, index });
                        }
                    }
                }
                "StackMapTable" => {
                    out.frames = Some(self.frames(&mut b, &pos)?);
                }
                _ => {
                    let vis = nm.starts_with("RuntimeVisible");
                    let c = out.catches.clone();
                    let t = self.tannos(&mut b, Loc::Code, &pos, &c).map_err(e)?;
                    out.attrs.push(MCodeAttr::TypeAnnos(vis, t));
                }
            }
            b.done().map_err(e)?;
        }
        for s in sigs {
            match out.locals.iter_mut().find(|l| {
                l.sig.is_none() && l.start == s.start && l.end == s.end && l.index == s.index && l.name == s.name
            }) {
                Some(l) => l.sig = s.sig,
                None => out.locals.push(s),
            }
        }
        Ok(out)
    }

    pub fn insns(&mut self, code: &[u8]) -> R<(Vec<MI>, HashMap<u32, usize>)> {
        let mut c = Rd::new(code);
        let mut raw = vec![];
        let mut index = HashMap::new();
        while c.p < code.len() {
            let at = c.p;
            index.insert(at as u32, raw.len());
            raw.push((at, self.insn(&mut c, at)?));
        }
        index.insert(code.len() as u32, raw.len());
        let n = raw.len();
        let t = |at: usize, x: i64| -> R<usize> {
            u32::try_from(x)
                .ok()
                .and_then(|x| index.get(&x).copied())
                .filter(|&i| i < n)
                .ok_or_else(|| format!("branch at {} to {}, which is not an instruction", at, x))
        };
        let mut out = Vec::with_capacity(n);
        for (at, r) in raw {
            out.push(match r {
                RI::Plain(m) => m,
                RI::Jump(168, x) => MI::Jsr(t(at, x)?),
                RI::Jump(op, x) => MI::Jump(op, t(at, x)?),
                RI::Table(d, l, v) => MI::Table(t(at, d)?, l, v.into_iter().map(|x| t(at, x)).collect::<R<_>>()?),
                RI::Lookup(d, v) => MI::Lookup(t(at, d)?, v.into_iter().map(|(k, x)| Ok((k, t(at, x)?))).collect::<R<_>>()?),
            });
        }
        Ok((out, index))
    }

    fn verif(&mut self, r: &mut Rd, pos: &dyn Fn(u32) -> R<usize>) -> R<MVerif> {
        Ok(match r.u1()? {
            0 => MVerif::Top,
            1 => MVerif::Int,
            2 => MVerif::Float,
            3 => MVerif::Double,
            4 => MVerif::Long,
            5 => MVerif::Null,
            6 => MVerif::UninitThis,
            7 => MVerif::Object(self.pool.class(r.u2()?)?),
            8 => MVerif::Uninit(pos(r.u2()? as u32)?),
            t => return Err(format!("verification tag {}", t)),
        })
    }
    fn frame(&mut self, r: &mut Rd, pos: &dyn Fn(u32) -> R<usize>) -> R<(u16, MFrame)> {
        let t = r.u1()?;
        Ok(match t {
            0..=63 => (t as u16, MFrame::Same),
            64..=127 => (t as u16 - 64, MFrame::One(self.verif(r, pos)?)),
            247 => {
                let d = r.u2()?;
                (d, MFrame::One(self.verif(r, pos)?))
            }
            248..=250 => (r.u2()?, MFrame::Chop(251 - t)),
            251 => (r.u2()?, MFrame::Same),
            252..=254 => {
                let d = r.u2()?;
                (d, MFrame::Append((0..t - 251).map(|_| self.verif(r, pos)).collect::<R<_>>()?))
            }
            255 => {
                let d = r.u2()?;
                let n = r.u2()?;
                let l = (0..n).map(|_| self.verif(r, pos)).collect::<R<_>>()?;
                let n = r.u2()?;
                (d, MFrame::Full(l, (0..n).map(|_| self.verif(r, pos)).collect::<R<_>>()?))
            }
            t => return Err(format!("frame tag {}", t)),
        })
    }
    fn frames(&mut self, r: &mut Rd, pos: &dyn Fn(u32) -> R<usize>) -> R<Vec<(usize, MFrame)>> {
        let mut at: Option<u32> = None;
        let mut out = vec![];
        for _ in 0..r.u2()? {
            let (d, f) = self.frame(r, pos)?;
            let p = match at {
                None => d as u32,
                Some(q) => q + d as u32 + 1,
            };
            at = Some(p);
            out.push((pos(p)?, f));
        }
        Ok(out)
    }

    // ---- attributes
    fn names(&mut self, r: &mut Rd, f: fn(&Pool, u16) -> R<MStr>) -> R<Vec<MStr>> {
        let n = r.u2()?;
        (0..n).map(|_| f(&self.pool, r.u2()?)).collect()
    }
    fn attrs(&mut self, r: &mut Rd, loc: Loc) -> R<Vec<MAttr>> {
        let n = r.u2()?;
        let mut out = vec![];
        for _ in 0..n {
            let name = self.pool.utf8(r.u2()?)?;
            let len = r.u4()?;
            let body = r.take(len as usize).map_err(|m| format!("attribute {:?}: {}", name, m))?;
            let nm = name.to_string().unwrap_or_default();
            if !recognised(loc, &nm) {
                out.push(MAttr::Raw(name, body.to_vec()));
                continue;
            }
            let mut b = Rd::new(body);
            let a = self.attr(&mut b, loc, &nm).and_then(|a| b.done().map(|_| a)).map_err(|m| format!("{}: {}", nm, m))?;
            out.push(a);
        }
        Ok(out)
    }
    fn attr(&mut self, b: &mut Rd, loc: Loc, nm: &str) -> R<MAttr> {
        let nopos = |p: u32| -> R<usize> { Err(format!("position {} outside code", p)) };
        Ok(match nm {
            "Deprecated" => MAttr::Deprecated,
            "Synthetic" => MAttr::Synthetic,
            "Signature" => {
                let s = self.pool.utf8(b.u2()?)?;
                let ok = match loc {
                    Loc::Class => parse_sig_class(&s, true).is_some(),
                    Loc::Method => parse_sig_method(&s, true).is_some(),
                    _ => parse_sig_field(&s, true).is_some(),
                };
                if !ok {
                    return Err(format!("not a signature: {:?}", s));
                }
                MAttr::Signature(s)
            }
            "SourceFile" => MAttr::SourceFile(self.pool.utf8(b.u2()?)?),
            "InnerClasses" => {
                let n = b.u2()?;
                let mut v = vec![];
                for _ in 0..n {
                    let (i, o, m, f) = (b.u2()?, b.u2()?, b.u2()?, b.u2()?);
                    v.push((self.pool.class(i)?, self.pool.class_opt(o)?, self.pool.utf8_opt(m)?, f));
                }
                MAttr::InnerClasses(v)
            }
            "EnclosingMethod" => {
                let c = self.pool.class(b.u2()?)?;
                let i = b.u2()?;
                let m = if i == 0 { None } else { Some(self.pool.nat(i)?) };
                if let Some((_, d)) = &m {
                    if !d.is_method() {
                        return Err("method with a field descriptor".into());
                    }
                }
                MAttr::EnclosingMethod(c, m)
            }
            "SourceDebugExtension" => {
                let x = b.take(b.left())?;
                MAttr::SourceDebugExtension(MStr(from_mutf8(x).ok_or("not modified UTF-8")?))
            }
            "BootstrapMethods" => {
                // contents were taken in the first pass
                b.p = b.b.len();
                MAttr::Bootstrap
            }
            "Module" => {
                let name = self.pool.module(b.u2()?)?;
                let flags = b.u2()?;
                let version = self.pool.utf8_opt(b.u2()?)?;
                let mut requires = vec![];
                for _ in 0..b.u2()? {
                    let (m, f, v) = (b.u2()?, b.u2()?, b.u2()?);
                    requires.push((self.pool.module(m)?, f, self.pool.utf8_opt(v)?));
                }
                let mut exop = vec![];
                for _ in 0..2 {
                    let mut v = vec![];
                    for _ in 0..b.u2()? {
                        let p = self.pool.package(b.u2()?)?;
                        let f = b.u2()?;
                        v.push((p, f, self.names(b, Pool::module)?));
                    }
                    exop.push(v);
                }
                let uses = self.names(b, Pool::class)?;
                let mut provides = vec![];
                for _ in 0..b.u2()? {
                    let c = self.pool.class(b.u2()?)?;
                    provides.push((c, self.names(b, Pool::class)?));
                }
                let opens = exop.pop().unwrap();
                let exports = exop.pop().unwrap();
                MAttr::Module(MModule { name, flags, version, requires, exports, opens, uses, provides })
            }
            "ModulePackages" => MAttr::ModulePackages(self.names(b, Pool::package)?),
            "ModuleMainClass" => MAttr::ModuleMainClass(self.pool.class(b.u2()?)?),
            "NestHost" => MAttr::NestHost(self.pool.class(b.u2()?)?),
            "NestMembers" => MAttr::NestMembers(self.names(b, Pool::class)?),
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => MAttr::Annos(nm.starts_with("RuntimeV"), self.annos(b)?),
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => {
                MAttr::TypeAnnos(nm.starts_with("RuntimeV"), self.tannos(b, loc, &nopos, &[])?)
            }
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => {
                let n = b.u1()?;
                MAttr::ParamAnnos(nm.starts_with("RuntimeV"), (0..n).map(|_| self.annos(b)).collect::<R<_>>()?)
            }
            "AnnotationDefault" => MAttr::AnnoDefault(self.val(b, 0)?),
            "Exceptions" => MAttr::Exceptions(self.names(b, Pool::class)?),
            "MethodParameters" => {
                let n = b.u1()?;
                let mut v = vec![];
                for _ in 0..n {
                    let (n, f) = (b.u2()?, b.u2()?);
                    v.push((self.pool.utf8_opt(n)?, f));
                }
                MAttr::MethodParameters(v)
            }
            "ConstantValue" => {
                let c = self.constant(b.u2()?, 0)?;
                if !matches!(c, MConst::Int(_) | MConst::Float(_) | MConst::Long(_) | MConst::Double(_) | MConst::Str(_)) {
                    return Err(format!("constant {:?}", c));
                }
                MAttr::ConstantValue(c)
            }
            "Code" => MAttr::Code(self.code(b)?),
            _ => return Err("unhandled".into()),
        })
    }
    fn mem(&mut self, r: &mut Rd, loc: Loc) -> R<MMem> {
        let access = r.u2()?;
        let name = self.pool.utf8(r.u2()?)?;
        let d = r.u2()?;
        let desc = if loc == Loc::Field { self.pool.fdesc(d)? } else { self.pool.mdesc(d)? };
        let attrs = self.attrs(r, loc).map_err(|m| format!("{:?} {:?}: {}", loc, name, m))?;
        Ok(MMem { access, name, desc, attrs })
    }
}

enum RI {
    Plain(MI),
    Jump(u8, i64),
    Table(i64, i32, Vec<i64>),
    Lookup(i64, Vec<(i32, i64)>),
}

/// Scans for the class-level BootstrapMethods attribute.
fn find_bsms(pool: &Pool, body: &[u8]) -> R<Option<Vec<(u16, Vec<u16>)>>> {
    let mut r = Rd::new(body);
    r.take(6)?;
    let n = r.u2()?;
    r.take(2 * n as usize)?;
    for _ in 0..2 {
        for _ in 0..r.u2()? {
            r.take(6)?;
            for _ in 0..r.u2()? {
                r.u2()?;
                let l = r.u4()?;
                r.take(l as usize)?;
            }
        }
    }
    let mut out = None;
    for _ in 0..r.u2()? {
        let name = pool.utf8(r.u2()?)?;
        let l = r.u4()?;
        let b = r.take(l as usize)?;
        if name.eq_str("BootstrapMethods") {
            if out.is_some() {
                return Err("two BootstrapMethods attributes".into());
            }
            let mut v = vec![];
            let mut b = Rd::new(b);
            for _ in 0..b.u2()? {
                let h = b.u2()?;
                let n = b.u2()?;
                v.push((h, (0..n).map(|_| b.u2()).collect::<R<Vec<_>>>()?));
            }
            b.done().map_err(|m| format!("BootstrapMethods: {}", m))?;
            out = Some(v);
        }
    }
    Ok(out)
}

/// The whole file must be one well-formed class file.
pub fn decode(bytes: &[u8]) -> R<MClass> {
    let mut r = Rd::new(bytes);
    if r.u4()? != 0xCAFE_BABE {
        return Err("magic".into());
    }
    let minor = r.u2()?;
    let major = r.u2()?;
    let pool = Pool::read(&mut r)?;
    let table = find_bsms(&pool, &bytes[r.p..])?;
    let has = table.is_some();
    let mut d = Dec { pool, bsms: table.unwrap_or_default(), memo: HashMap::new() };
    for i in 0..d.pool.e.len() {
        if let Raw::Dyn(_, b, _) = d.pool.e[i] {
            if b as usize >= d.bsms.len() {
                return Err(format!("pool entry {} designates bootstrap method {} of {}", i, b, d.bsms.len()));
            }
        }
    }
    let bsms = if has { Some((0..d.bsms.len()).map(|i| d.bsm(i as u16, 0)).collect::<R<Vec<_>>>()?) } else { None };
    let access = r.u2()?;
    let name = d.pool.class(r.u2()?)?;
    let super_name = d.pool.class_opt(r.u2()?)?;
    let interfaces = d.names(&mut r, Pool::class)?;
    let mut mems = vec![];
    for loc in [Loc::Field, Loc::Method] {
        let n = r.u2()?;
        mems.push((0..n).map(|_| d.mem(&mut r, loc)).collect::<R<Vec<_>>>()?);
    }
    let attrs = d.attrs(&mut r, Loc::Class)?;
    r.done()?;
    let methods = mems.pop().unwrap();
    let fields = mems.pop().unwrap();
    Ok(MClass { minor, major, access, name, super_name, interfaces, fields, methods, attrs, bsms })
}
