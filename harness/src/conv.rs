//! Model <-> library values.  Own tables of what each library value denotes; nothing is computed
//! by the library here except printing of generic signatures (which has a check of its own).

use std::borrow::Cow;
use std::collections::HashMap;
use std::str::FromStr;

use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};
use coffer::ConstantPoolReadWrite;
use wtf_8::Wtf8Str;

use crate::desc::*;
use crate::engine::{mix, Rng};
use crate::model::*;
use crate::mstr::*;

pub type R<T> = Result<T, String>;
pub type WCow = Cow<'static, Wtf8Str>;

pub fn s(x: &Wtf8Str) -> R<MStr> {
    unwtf(x)
}
fn so(x: &Option<WCow>) -> R<Option<MStr>> {
    x.as_ref().map(|x| s(x)).transpose()
}
fn ss(x: &[WCow]) -> R<Vec<MStr>> {
    x.iter().map(|x| s(x)).collect()
}
fn co(x: &Option<MStr>) -> Option<WCow> {
    x.as_ref().map(cow)
}
fn cs(x: &[MStr]) -> Vec<WCow> {
    x.iter().map(cow).collect()
}

// ---- types

pub fn ty(t: &MType) -> Type {
    match t {
        MType::Prim(c) => match c {
            'B' => Type::Byte,
            'C' => Type::Char,
            'D' => Type::Double,
            'F' => Type::Float,
            'I' => Type::Int,
            'J' => Type::Long,
            'S' => Type::Short,
            'Z' => Type::Boolean,
            _ => unreachable!(),
        },
        MType::Ref(n) => Type::Ref(cow(n)),
        MType::Array(d, e) => Type::ArrayRef(*d, Box::new(ty(e))),
        MType::Method(p, r) => Type::Method { parameters: p.iter().map(ty).collect(), ret: r.as_ref().map(|r| Box::new(ty(r))) },
    }
}
pub fn unty(t: &Type) -> R<MType> {
    Ok(match t {
        Type::Byte => MType::Prim('B'),
        Type::Char => MType::Prim('C'),
        Type::Double => MType::Prim('D'),
        Type::Float => MType::Prim('F'),
        Type::Int => MType::Prim('I'),
        Type::Long => MType::Prim('J'),
        Type::Short => MType::Prim('S'),
        Type::Boolean => MType::Prim('Z'),
        Type::Ref(n) => MType::Ref(s(n)?),
        Type::ArrayRef(d, e) => {
            if *d == 0 || matches!(**e, Type::ArrayRef(..)) {
                return Err(format!("array type not in normal form: {:?}", t));
            }
            MType::Array(*d, Box::new(unty(e)?))
        }
        Type::Method { parameters, ret } => MType::Method(
            parameters.iter().map(unty).collect::<R<_>>()?,
            match ret {
                Some(r) => Some(Box::new(unty(r)?)),
                None => None,
            },
        ),
    })
}

// ---- constants

pub fn member(m: &MMember) -> MemberRef {
    MemberRef { owner: cow(&m.owner), name: cow(&m.name), descriptor: ty(&m.desc), itfs: m.itf }
}
pub fn unmember(m: &MemberRef) -> R<MMember> {
    let desc = unty(&m.descriptor)?;
    let itf = m.itfs && desc.is_method();
    Ok(MMember { owner: s(&m.owner)?, name: s(&m.name)?, desc, itf })
}
pub fn kind(k: u8) -> MethodHandleKind {
    use MethodHandleKind::*;
    [GetField, GetStatic, PutField, PutStatic, InvokeVirtual, InvokeStatic, InvokeSpecial, NewInvokeSpecial, InvokeInterface][k as usize - 1]
}
pub fn unkind(k: MethodHandleKind) -> u8 {
    use MethodHandleKind::*;
    match k {
        GetField => 1,
        GetStatic => 2,
        PutField => 3,
        PutStatic => 4,
        InvokeVirtual => 5,
        InvokeStatic => 6,
        InvokeSpecial => 7,
        NewInvokeSpecial => 8,
        InvokeInterface => 9,
    }
}
pub fn handle(h: &MHandle) -> MethodHandle {
    MethodHandle { kind: kind(h.kind), member: member(&h.member) }
}
pub fn unhandle(h: &MethodHandle) -> R<MHandle> {
    Ok(MHandle { kind: unkind(h.kind), member: unmember(&h.member)? })
}
pub fn bsm(b: &MBsm) -> BootstrapMethod {
    BootstrapMethod { handle: handle(&b.handle), arguments: b.args.iter().map(od).collect() }
}
pub fn unbsm(b: &BootstrapMethod, depth: usize) -> R<MBsm> {
    if depth > 300 {
        return Err("bootstrap arguments nested without end".into());
    }
    Ok(MBsm { handle: unhandle(&b.handle)?, args: b.arguments.iter().map(|a| unod(a, depth + 1)).collect::<R<_>>()? })
}
pub fn dynamic(d: &MDyn) -> Dynamic {
    Dynamic::new(bsm(&d.bsm), cow(&d.name), ty(&d.desc))
}
pub fn undynamic(d: &Dynamic, depth: usize) -> R<MDyn> {
    let b = d.bsm.get().ok_or("dynamic without its bootstrap method")?;
    Ok(MDyn { bsm: unbsm(b, depth)?, name: s(&d.name)?, desc: unty(&d.descriptor)? })
}
pub fn constant(c: &MConst) -> Constant {
    match c {
        MConst::Int(x) => Constant::I32(*x),
        MConst::Float(x) => Constant::F32(TotalF32(f32::from_bits(*x))),
        MConst::Long(x) => Constant::I64(*x),
        MConst::Double(x) => Constant::F64(TotalF64(f64::from_bits(*x))),
        MConst::Str(x) => Constant::String(cow(x)),
        MConst::Class(x) => Constant::Class(cow(x)),
        MConst::MethodType(t) => Constant::MethodType(ty(t)),
        MConst::Handle(h) => Constant::MethodHandle(handle(h)),
        MConst::Dyn(_) => unreachable!(),
    }
}
pub fn unconstant(c: &Constant) -> R<MConst> {
    Ok(match c {
        Constant::I32(x) => MConst::Int(*x),
        Constant::F32(x) => MConst::Float(x.0.to_bits()),
        Constant::I64(x) => MConst::Long(*x),
        Constant::F64(x) => MConst::Double(x.0.to_bits()),
        Constant::String(x) => MConst::Str(s(x)?),
        Constant::Class(x) => MConst::Class(s(x)?),
        Constant::MethodType(t) => MConst::MethodType(unty(t)?),
        Constant::MethodHandle(h) => MConst::Handle(unhandle(h)?),
        Constant::Member(m) => return Err(format!("a member as a loadable constant: {:?}", m)),
    })
}
pub fn od(c: &MConst) -> OrDynamic<Constant> {
    match c {
        MConst::Dyn(d) => OrDynamic::Dynamic(dynamic(d)),
        c => OrDynamic::Static(constant(c)),
    }
}
pub fn unod(c: &OrDynamic<Constant>, depth: usize) -> R<MConst> {
    match c {
        OrDynamic::Dynamic(d) => Ok(MConst::Dyn(Box::new(undynamic(d, depth)?))),
        OrDynamic::Static(c) => unconstant(c),
    }
}
fn st<T: Clone>(x: &OrDynamic<T>) -> R<T> {
    match x {
        OrDynamic::Static(x) => Ok(x.clone()),
        OrDynamic::Dynamic(_) => Err("a dynamic constant where only a class or member can stand".into()),
    }
}

// ---- annotations

pub fn val(v: &MVal) -> AnnotationValue {
    use AnnotationValue as A;
    match v {
        MVal::Byte(x) => A::Byte(*x),
        MVal::Char(x) => A::Char(*x),
        MVal::Double(x) => A::Double(TotalF64(f64::from_bits(*x))),
        MVal::Float(x) => A::Float(TotalF32(f32::from_bits(*x))),
        MVal::Int(x) => A::Int(*x),
        MVal::Long(x) => A::Long(*x),
        MVal::Short(x) => A::Short(*x),
        MVal::Bool(x) => A::Boolean(*x),
        MVal::Str(x) => A::String(cow(x)),
        MVal::Enum(t, n) => A::Enum(ty(t), cow(n)),
        MVal::Class(t) => A::Class(t.as_ref().map(ty)),
        MVal::Anno(a) => A::Annotation(anno(a)),
        MVal::Array(v) => A::Array(v.iter().map(val).collect()),
    }
}
pub fn unval(v: &AnnotationValue) -> R<MVal> {
    use AnnotationValue as A;
    Ok(match v {
        A::Byte(x) => MVal::Byte(*x),
        A::Char(x) => MVal::Char(*x),
        A::Double(x) => MVal::Double(x.0.to_bits()),
        A::Float(x) => MVal::Float(x.0.to_bits()),
        A::Int(x) => MVal::Int(*x),
        A::Long(x) => MVal::Long(*x),
        A::Short(x) => MVal::Short(*x),
        A::Boolean(x) => MVal::Bool(*x),
        A::String(x) => MVal::Str(s(x)?),
        A::Enum(t, n) => MVal::Enum(unty(t)?, s(n)?),
        A::Class(t) => MVal::Class(t.as_ref().map(unty).transpose()?),
        A::Annotation(a) => MVal::Anno(unanno(a)?),
        A::Array(v) => MVal::Array(v.iter().map(unval).collect::<R<_>>()?),
    })
}
fn pairs(a: &MAnno) -> HashMap<WCow, AnnotationValue> {
    a.pairs.iter().map(|(k, v)| (cow(k), val(v))).collect()
}
fn unpairs(t: &Type, p: &HashMap<WCow, AnnotationValue>) -> R<MAnno> {
    let mut pairs = p.iter().map(|(k, v)| Ok((s(k)?, unval(v)?))).collect::<R<Vec<_>>>()?;
    pairs.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(MAnno { ty: unty(t)?, pairs })
}
pub fn anno(a: &MAnno) -> Annotation {
    Annotation { annotation_type: ty(&a.ty), element_values: pairs(a) }
}
pub fn unanno(a: &Annotation) -> R<MAnno> {
    unpairs(&a.annotation_type, &a.element_values)
}
fn path(p: &[(u8, u8)]) -> Vec<TypePath> {
    p.iter()
        .map(|&(k, i)| match k {
            0 => TypePath::Array(i),
            1 => TypePath::Nested(i),
            2 => TypePath::TypeBound(i),
            _ => TypePath::TypeArgument(i),
        })
        .collect()
}
fn unpath(p: &[TypePath]) -> Vec<(u8, u8)> {
    p.iter()
        .map(|x| match *x {
            TypePath::Array(i) => (0, i),
            TypePath::Nested(i) => (1, i),
            TypePath::TypeBound(i) => (2, i),
            TypePath::TypeArgument(i) => (3, i),
        })
        .collect()
}
fn class_tanno(t: &MTAnno) -> ClassTypeAnnotation {
    use ClassTypeAnnotationTarget as T;
    ClassTypeAnnotation {
        target: match t.target {
            MTarget::U8(0, x) => T::GenericTypeParameter(x),
            MTarget::U16(0x10, x) => T::ExtendsImplementsClause(x),
            MTarget::U8U8(0x11, x, y) => T::GenericTypeParameterBound(x, y),
            _ => unreachable!(),
        },
        type_path: path(&t.path),
        annotation_type: ty(&t.anno.ty),
        element_values: pairs(&t.anno),
    }
}
fn un_class_tanno(t: &ClassTypeAnnotation) -> R<MTAnno> {
    use ClassTypeAnnotationTarget as T;
    Ok(MTAnno {
        target: match t.target {
            T::GenericTypeParameter(x) => MTarget::U8(0, x),
            T::ExtendsImplementsClause(x) => MTarget::U16(0x10, x),
            T::GenericTypeParameterBound(x, y) => MTarget::U8U8(0x11, x, y),
        },
        path: unpath(&t.type_path),
        anno: unpairs(&t.annotation_type, &t.element_values)?,
    })
}
fn method_tanno(t: &MTAnno) -> MethodTypeAnnotation {
    use MethodTypeAnnotationTarget as T;
    MethodTypeAnnotation {
        target: match t.target {
            MTarget::U8(0x01, x) => T::GenericTypeParameter(x),
            MTarget::U8U8(0x12, x, y) => T::GenericTypeParameterBound(x, y),
            MTarget::Empty(0x14) => T::Return,
            MTarget::Empty(0x15) => T::Reciever,
            MTarget::U8(0x16, x) => T::FormalParameter(x),
            MTarget::U16(0x17, x) => T::Throws(x),
            _ => unreachable!(),
        },
        type_path: path(&t.path),
        annotation_type: ty(&t.anno.ty),
        element_values: pairs(&t.anno),
    }
}
fn un_method_tanno(t: &MethodTypeAnnotation) -> R<MTAnno> {
    use MethodTypeAnnotationTarget as T;
    Ok(MTAnno {
        target: match t.target {
            T::GenericTypeParameter(x) => MTarget::U8(0x01, x),
            T::GenericTypeParameterBound(x, y) => MTarget::U8U8(0x12, x, y),
            T::Return => MTarget::Empty(0x14),
            T::Reciever => MTarget::Empty(0x15),
            T::FormalParameter(x) => MTarget::U8(0x16, x),
            T::Throws(x) => MTarget::U16(0x17, x),
        },
        path: unpath(&t.type_path),
        anno: unpairs(&t.annotation_type, &t.element_values)?,
    })
}
fn field_tanno(t: &MTAnno) -> FieldTypeAnnotation {
    FieldTypeAnnotation { target_type: FieldTarget::Field, type_path: path(&t.path), annotation_type: ty(&t.anno.ty), element_values: pairs(&t.anno) }
}
fn un_field_tanno(t: &FieldTypeAnnotation) -> R<MTAnno> {
    let FieldTarget::Field = t.target_type;
    Ok(MTAnno { target: MTarget::Empty(0x13), path: unpath(&t.type_path), anno: unpairs(&t.annotation_type, &t.element_values)? })
}

// ---- private-field values, built and inspected through their own readers and writers

/// A constant-pool writer that only records.
#[derive(Default)]
pub struct Rec {
    pub e: Vec<RawConstantEntry>,
    pub bsms: Vec<BootstrapMethod>,
}
impl coffer::ConstantPoolWriter for Rec {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 {
        self.e.push(v);
        self.e.len() as u16
    }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 {
        self.bsms.push(b);
        self.bsms.len() as u16 - 1
    }
}

/// A pool with the given Utf8 entries at 1, 2, ..., as bytes.
pub fn utf8_pool(v: &[&MStr]) -> Vec<u8> {
    let mut b = ((v.len() + 1) as u16).to_be_bytes().to_vec();
    for x in v {
        let m = x.mutf8();
        b.push(1);
        b.extend((m.len() as u16).to_be_bytes());
        b.extend(m);
    }
    b
}
pub fn read_pool(b: &[u8]) -> R<MapCp> {
    let mut r = b;
    let p = <MapCp as coffer::ReadWrite>::read_from(&mut r).map_err(|e| format!("pool: {}", e))?;
    if !r.is_empty() {
        return Err("pool reader left bytes".into());
    }
    Ok(p)
}
pub fn method_parameter(name: &Option<MStr>, flags: u16) -> R<MethodParameter> {
    let (pool, i) = match name {
        Some(n) => (utf8_pool(&[n]), 1u16),
        None => (utf8_pool(&[]), 0),
    };
    let mut cp = read_pool(&pool)?;
    let mut b = i.to_be_bytes().to_vec();
    b.extend(flags.to_be_bytes());
    <MethodParameter as ConstantPoolReadWrite>::read_from(&mut cp, &mut &b[..]).map_err(|e| format!("method parameter: {}", e))
}
pub fn unmethod_parameter(p: &MethodParameter) -> R<(Option<MStr>, u16)> {
    let mut r = Rec::default();
    let mut b = vec![];
    p.write_to(&mut r, &mut b).map_err(|e| format!("method parameter: {}", e))?;
    if b.len() != 4 {
        return Err("method parameter is not 4 bytes".into());
    }
    let i = u16::from_be_bytes([b[0], b[1]]);
    let f = u16::from_be_bytes([b[2], b[3]]);
    let n = match i {
        0 => None,
        i => match r.e.get(i as usize - 1) {
            Some(RawConstantEntry::WTF8(x)) => Some(s(x)?),
            o => return Err(format!("method parameter name: {:?}", o)),
        },
    };
    Ok((n, f))
}
pub fn param_annos(v: &[MAnno]) -> R<ParameterAnnotations> {
    let mut cp = read_pool(&utf8_pool(&[]))?;
    let mut p = <ParameterAnnotations as ConstantPoolReadWrite>::read_from(&mut cp, &mut &[0u8, 0][..]).map_err(|e| format!("parameter annotations: {}", e))?;
    p.extend(v.iter().map(anno));
    Ok(p)
}
fn sig<T: FromStr>(x: &MStr) -> R<T>
where
    T::Err: std::fmt::Debug,
{
    let t = x.to_string().ok_or("signature with lone surrogates")?;
    t.parse::<T>().map_err(|e| format!("signature {:?}: {:?}", t, e))
}
pub fn field_signature(x: &MStr) -> R<FieldSignature> {
    sig(x)
}
fn unsig<T: std::fmt::Display>(x: &T) -> MStr {
    ms(&format!("{}", x))
}

// ---- code

/// Label naming for generated values: which label id stands for which position is free.
pub struct Labels {
    rng: Rng,
    free: bool,
    seed: u64,
    used: HashMap<usize, Vec<Label>>,
    back: HashMap<u32, usize>,
}

impl Labels {
    pub fn new(seed: u64) -> Labels {
        Labels { rng: Rng::new(seed), free: seed != 0, seed, used: HashMap::new(), back: HashMap::new() }
    }
    pub fn at(&mut self, p: usize) -> Label {
        let have = self.used.get(&p).map_or(0, |v| v.len());
        if have > 0 && !(self.free && have < 3 && self.rng.below(8) == 0) {
            let k = if self.free { self.rng.below(have as u64) as usize } else { 0 };
            return self.used[&p][k];
        }
        let mut id = if self.free { mix(self.seed, (p * 4 + have) as u64) as u32 } else { p as u32 };
        if self.free && self.seed % 3 == 0 {
            id %= 100_000;
        }
        while self.back.contains_key(&id) {
            id = id.wrapping_add(1);
        }
        self.back.insert(id, p);
        self.used.entry(p).or_default().push(Label(id));
        Label(id)
    }
}

pub fn cond(op: u8) -> JumpCondition {
    use JumpCondition::*;
    match op {
        153 => IntegerEqualsZero,
        154 => IntegerNotEqualsZero,
        155 => IntegerLessThanZero,
        156 => IntegerGreaterThanOrEqualsZero,
        157 => IntegerGreaterThanZero,
        158 => IntegerLessThanOrEqualsZero,
        159 => IntegerEquals,
        160 => IntegerNotEquals,
        161 => IntegerLessThan,
        162 => IntegerGreaterThanOrEquals,
        163 => IntegerGreaterThan,
        164 => IntegerLessThanOrEquals,
        165 => ReferenceEquals,
        166 => ReferenceNotEquals,
        167 => Always,
        198 => IsNull,
        199 => IsNonNull,
        _ => unreachable!(),
    }
}
pub fn uncond(c: JumpCondition) -> u8 {
    for op in CONDS.iter().chain(&[167]) {
        if cond(*op) == c {
            return *op;
        }
    }
    unreachable!()
}
pub const LT: [LocalType; 5] = [LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference];

/// The library value(s) denoting an operand-free opcode; the first is the usual one.
pub fn plain(op: u8) -> Vec<Instruction> {
    use ArrayType as A;
    use Instruction as I;
    let arr = [A::Int, A::Long, A::Float, A::Double, A::Reference, A::ByteOrBool, A::Char, A::Short];
    let nums = [NumberType::Int, NumberType::Long, NumberType::Float, NumberType::Double];
    let bits = [BitType::Int, BitType::Long, BitType::Float, BitType::Double];
    let one = |i| vec![i];
    match op {
        0 => one(I::NoOp),
        1 => one(I::PushNull),
        46..=53 => one(I::Array(LoadOrStore::Load, arr[op as usize - 46])),
        79..=86 => one(I::Array(LoadOrStore::Store, arr[op as usize - 79])),
        87 => one(I::Pop1),
        88 => one(I::Pop2),
        89 => one(I::Dup),
        90 => one(I::DupX1),
        91 => one(I::DupX2),
        92 => one(I::Dup2),
        93 => one(I::Dup2X1),
        94 => one(I::Dup2X2),
        95 => one(I::Swap),
        96..=119 => {
            let k = (op as usize - 96) / 4;
            let io = [IntOperation::Add, IntOperation::Subtract, IntOperation::Multiply, IntOperation::Divide, IntOperation::Remainder, IntOperation::Negate][k];
            let fo =
                [FloatOperation::Add, FloatOperation::Subtract, FloatOperation::Multiply, FloatOperation::Divide, FloatOperation::Remainder, FloatOperation::Negate]
                    [k];
            one(match (op - 96) % 4 {
                0 => I::IntOperation(IntType::Int, io),
                1 => I::IntOperation(IntType::Long, io),
                2 => I::FloatOperation(FloatType::Float, fo),
                _ => I::FloatOperation(FloatType::Double, fo),
            })
        }
        120..=131 => {
            let io = [
                IntOperation::ShiftLeft,
                IntOperation::ShiftRight,
                IntOperation::UnsignedShiftRight,
                IntOperation::And,
                IntOperation::Or,
                IntOperation::ExclusiveOr,
            ][(op as usize - 120) / 2];
            one(I::IntOperation(if op % 2 == 0 { IntType::Int } else { IntType::Long }, io))
        }
        133..=135 => {
            let k = op as usize - 132;
            vec![I::ConvertInt(bits[k]), I::Conversion(nums[0], nums[k])]
        }
        136..=144 => {
            let f = (op as usize - 133) / 3;
            let t: Vec<usize> = (0..4).filter(|x| *x != f).collect();
            one(I::Conversion(nums[f], nums[t[(op as usize - 133) % 3]]))
        }
        145 => one(I::ConvertInt(BitType::Byte)),
        146 => one(I::ConvertInt(BitType::Char)),
        147 => one(I::ConvertInt(BitType::Short)),
        148 => one(I::CompareLongs),
        149 => one(I::CompareFloats(FloatType::Float, NaNBehavior::ReturnsNegativeOne)),
        150 => one(I::CompareFloats(FloatType::Float, NaNBehavior::ReturnsOne)),
        151 => one(I::CompareFloats(FloatType::Double, NaNBehavior::ReturnsNegativeOne)),
        152 => one(I::CompareFloats(FloatType::Double, NaNBehavior::ReturnsOne)),
        172..=176 => one(I::Return(Some(LT[op as usize - 172]))),
        177 => one(I::Return(None)),
        190 => one(I::ArrayLength),
        191 => one(I::Throw),
        194 => one(I::Monitor(MonitorOperation::Enter)),
        195 => one(I::Monitor(MonitorOperation::Exit)),
        _ => unreachable!("{}", op),
    }
}

fn class_type(x: &MStr) -> ClassType {
    match parse_field(x) {
        Some(MType::Array(d, e)) => ClassType::Array(d, ty(&e)),
        _ => ClassType::Object(cow(x)),
    }
}
fn unclass_type(x: &ClassType) -> R<MStr> {
    Ok(match x {
        ClassType::Object(n) => s(n)?,
        ClassType::Array(d, e) => {
            let e = unty(e)?;
            if *d == 0 || matches!(e, MType::Array(..) | MType::Method(..)) {
                return Err(format!("array class not in normal form: {:?}", x));
            }
            MType::Array(*d, Box::new(e)).print()
        }
    })
}

pub fn insn(i: &MI, l: &mut Labels) -> Instruction {
    use Instruction as I;
    match i {
        MI::Op(op) => {
            let v = plain(*op);
            let k = if l.free { l.rng.below(v.len() as u64) as usize } else { 0 };
            v[k].clone()
        }
        MI::Push(c) => I::Push(od(c)),
        MI::Local(st, t, i) => I::LocalVariable(if *st { LoadOrStore::Store } else { LoadOrStore::Load }, LT[*t as usize], *i),
        MI::Inc(i, v) => I::IntIncrement(*i, *v),
        MI::Ret(i) => I::Ret(*i),
        MI::Jump(op, t) => I::Jump(cond(*op), l.at(*t)),
        MI::Jsr(t) => I::Jsr(l.at(*t)),
        MI::Table(d, low, v) => I::TableSwitch { default: l.at(*d), low: *low, offsets: v.iter().map(|x| l.at(*x)).collect() },
        MI::Lookup(d, v) => I::LookupSwitch { default: l.at(*d), table: v.iter().map(|(k, x)| (*k, l.at(*x))).collect() },
        MI::Field(op, m) => I::Field(
            if op % 2 == 0 { GetOrPut::Get } else { GetOrPut::Put },
            if *op < 180 { MemberType::Static } else { MemberType::Virtual },
            OrDynamic::Static(member(m)),
        ),
        MI::Invoke(182, m) => I::InvokeExact(MemberType::Virtual, OrDynamic::Static(member(m))),
        MI::Invoke(183, m) => I::InvokeSpecial(OrDynamic::Static(member(m))),
        MI::Invoke(_, m) => I::InvokeExact(MemberType::Static, OrDynamic::Static(member(m))),
        MI::InvokeItf(m, c) => I::InvokeInterface(OrDynamic::Static(member(m)), *c),
        MI::InvokeDyn(d) => I::InvokeDynamic(dynamic(d)),
        MI::New(c) => I::New(OrDynamic::Static(cow(c))),
        MI::CheckCast(c) => I::CheckCast(OrDynamic::Static(class_type(c))),
        MI::InstanceOf(c) => I::InstanceOf(OrDynamic::Static(class_type(c))),
        MI::NewArray(t, 1) => {
            let e = match t {
                MType::Array(1, e) => ty(e),
                MType::Array(d, e) => Type::ArrayRef(d - 1, Box::new(ty(e))),
                _ => unreachable!(),
            };
            I::NewArray(OrDynamic::Static(e), 1)
        }
        MI::NewArray(t, d) => I::NewArray(OrDynamic::Static(ty(t)), *d),
    }
}

/// None: the value stands for no instruction (label, line, no-op conversion).
pub fn uninsn(i: &Instruction, at: &dyn Fn(Label) -> R<usize>) -> R<Option<MI>> {
    use Instruction as I;
    Ok(Some(match i {
        I::Label(_) | I::LineNumber(_) => return Ok(None),
        I::ConvertInt(BitType::Int) => return Ok(None),
        I::Conversion(a, b) if a == b => return Ok(None),
        I::Push(c) => MI::Push(unod(c, 0)?),
        I::Jump(c, l) => MI::Jump(uncond(*c), at(*l)?),
        I::Jsr(l) => MI::Jsr(at(*l)?),
        I::LocalVariable(st, t, i) => MI::Local(*st == LoadOrStore::Store, LT.iter().position(|x| x == t).unwrap() as u8, *i),
        I::IntIncrement(i, v) => MI::Inc(*i, *v),
        I::Ret(i) => MI::Ret(*i),
        I::TableSwitch { default, low, offsets } => MI::Table(at(*default)?, *low, offsets.iter().map(|l| at(*l)).collect::<R<_>>()?),
        I::LookupSwitch { default, table } => MI::Lookup(at(*default)?, table.iter().map(|(k, l)| Ok((*k, at(*l)?))).collect::<R<_>>()?),
        I::Field(g, m, r) => MI::Field(
            match (m, g) {
                (MemberType::Static, GetOrPut::Get) => 178,
                (MemberType::Static, GetOrPut::Put) => 179,
                (MemberType::Virtual, GetOrPut::Get) => 180,
                (MemberType::Virtual, GetOrPut::Put) => 181,
            },
            unmember(&st(r)?)?,
        ),
        I::InvokeExact(MemberType::Virtual, r) => MI::Invoke(182, unmember(&st(r)?)?),
        I::InvokeSpecial(r) => MI::Invoke(183, unmember(&st(r)?)?),
        I::InvokeExact(MemberType::Static, r) => MI::Invoke(184, unmember(&st(r)?)?),
        I::InvokeInterface(r, c) => MI::InvokeItf(unmember(&st(r)?)?, *c),
        I::InvokeDynamic(d) => MI::InvokeDyn(undynamic(d, 0)?),
        I::New(c) => MI::New(s(&st(c)?)?),
        I::CheckCast(c) => MI::CheckCast(unclass_type(&st(c)?)?),
        I::InstanceOf(c) => MI::InstanceOf(unclass_type(&st(c)?)?),
        I::NewArray(t, 1) => MI::NewArray(
            match unty(&st(t)?)? {
                MType::Array(255, _) => return Err("array of 256 dimensions".into()),
                MType::Array(d, e) => MType::Array(d + 1, e),
                e => MType::Array(1, Box::new(e)),
            },
            1,
        ),
        I::NewArray(t, d) => match unty(&st(t)?)? {
            MType::Array(n, e) if *d >= 1 && *d <= n => MI::NewArray(MType::Array(n, e), *d),
            t => return Err(format!("NewArray of {:?} with {} dimensions", t, d)),
        },
        i => {
            for op in plain_ops() {
                if plain(op).contains(i) {
                    return Ok(Some(MI::Op(op)));
                }
            }
            return Err(format!("instruction {:?}", i));
        }
    }))
}

/// A library code value for the model.  `seed` picks label names, aliases and the order of the
/// pseudo-instructions at one position.
pub fn code(c: &MCode, seed: u64) -> R<Code> {
    let mut l = Labels::new(seed);
    let body: Vec<Instruction> = c.insns.iter().map(|i| insn(i, &mut l)).collect();
    let catches: Vec<Catch> = c
        .catches
        .iter()
        .map(|x| Catch { start: l.at(x.start), end: l.at(x.end), handler: l.at(x.handler), catch: co(&x.class) })
        .collect();
    let mut attrs: Vec<CodeAttribute> = vec![];
    for a in &c.attrs {
        attrs.push(match a {
            MCodeAttr::Raw(n, b) => CodeAttribute::Raw(RawAttribute { name: cow(n), inner: Cow::Owned(b.clone()) }),
            MCodeAttr::TypeAnnos(vis, v) => {
                let v: Vec<CodeTypeAnnotation> = v
                    .iter()
                    .map(|t| CodeTypeAnnotation {
                        target: code_target(&t.target, &mut l, &c.catches, &catches),
                        type_path: path(&t.path),
                        annotation_type: ty(&t.anno.ty),
                        element_values: pairs(&t.anno),
                    })
                    .collect();
                if *vis {
                    CodeAttribute::VisibleTypeAnnotations(v)
                } else {
                    CodeAttribute::InvisibleTypeAnnotations(v)
                }
            }
        });
    }
    if !c.locals.is_empty() {
        let v = c
            .locals
            .iter()
            .map(|x| {
                Ok(LocalVariable {
                    start: l.at(x.start),
                    end: l.at(x.end),
                    name: cow(&x.name),
                    descriptor: x.desc.as_ref().map(ty),
                    signature: x.sig.as_ref().map(sig::<FieldSignature>).transpose()?,
                    index: x.index,
                })
            })
            .collect::<R<Vec<_>>>()?;
        let k = if l.free { l.rng.below(attrs.len() as u64 + 1) as usize } else { attrs.len() };
        attrs.insert(k, CodeAttribute::LocalVariables(v));
    }
    if l.free && l.rng.below(4) == 0 {
        // a label nobody uses
        let p = l.rng.below(c.insns.len() as u64 + 1) as usize;
        l.at(p);
    }
    let mut out = Vec::with_capacity(body.len() * 2);
    let mut lines: HashMap<usize, Vec<u16>> = HashMap::new();
    for (p, n) in &c.lines {
        lines.entry(*p).or_default().push(*n);
    }
    let mut body = body.into_iter();
    for p in 0..=c.insns.len() {
        let ls = l.used.get(&p).cloned().unwrap_or_default();
        let ns = lines.remove(&p).unwrap_or_default();
        let (mut i, mut j) = (0, 0);
        while i < ls.len() || j < ns.len() {
            let take_label = i < ls.len() && (j >= ns.len() || !l.free || l.rng.below(2) == 0);
            if take_label {
                out.push(Instruction::Label(ls[i]));
                i += 1;
            } else {
                out.push(Instruction::LineNumber(ns[j]));
                j += 1;
            }
            if l.free && l.rng.below(12) == 0 {
                out.push(match l.rng.below(5) {
                    0 => Instruction::Conversion(NumberType::Long, NumberType::Long),
                    1 => Instruction::Conversion(NumberType::Int, NumberType::Int),
                    2 => Instruction::Conversion(NumberType::Float, NumberType::Float),
                    3 => Instruction::Conversion(NumberType::Double, NumberType::Double),
                    _ => Instruction::ConvertInt(BitType::Int),
                });
            }
        }
        if let Some(b) = body.next() {
            out.push(b);
        }
    }
    Ok(Code { max_stack: c.max_stack, max_locals: c.max_locals, code: out, catches, attrs })
}

fn code_target(t: &MTarget, l: &mut Labels, mc: &[MCatch], cc: &[Catch]) -> CodeTypeAnnotationTarget {
    use CodeTypeAnnotationTarget as T;
    match t {
        MTarget::Locals(tag, v) => {
            let v = v.iter().map(|&(a, b, i)| LocalVarTarget { start: l.at(a), end: l.at(b), idx: i }).collect();
            if *tag == 0x40 {
                T::LocalVariable(v)
            } else {
                T::ResourceVariable(v)
            }
        }
        MTarget::Catch(c) => T::CatchParameter(cc[mc.iter().position(|x| x == c).unwrap()].clone()),
        MTarget::Off(0x43, p) => T::InstanceOf(l.at(*p)),
        MTarget::Off(0x44, p) => T::Constructor(l.at(*p)),
        MTarget::Off(0x45, p) => T::ConstructorRef(l.at(*p)),
        MTarget::Off(_, p) => T::MethodRef(l.at(*p)),
        MTarget::OffArg(0x47, p, i) => T::Cast(l.at(*p), *i),
        MTarget::OffArg(0x48, p, i) => T::GenericConstructor(l.at(*p), *i),
        MTarget::OffArg(0x49, p, i) => T::GenericMethod(l.at(*p), *i),
        MTarget::OffArg(0x4A, p, i) => T::GenericConstructorRef(l.at(*p), *i),
        MTarget::OffArg(_, p, i) => T::GenericMethodRef(l.at(*p), *i),
        _ => unreachable!(),
    }
}

pub fn uncode(c: &Code) -> R<MCode> {
    let mut map: HashMap<Label, usize> = HashMap::new();
    let mut n = 0;
    let mut lines = vec![];
    let none = |_: Label| -> R<usize> { Ok(0) };
    for i in &c.code {
        match i {
            Instruction::Label(l) => {
                if map.insert(*l, n).is_some() {
                    return Err(format!("label {} is placed twice", l.0));
                }
            }
            Instruction::LineNumber(x) => lines.push((n, *x)),
            i => {
                if !matches!(i, Instruction::ConvertInt(BitType::Int)) && uninsn_is_real(i, &none) {
                    n += 1
                }
            }
        }
    }
    let at = |l: Label| -> R<usize> { map.get(&l).copied().ok_or_else(|| format!("label {} is not in the code", l.0)) };
    let mut insns = vec![];
    for i in &c.code {
        if let Some(m) = uninsn(i, &at)? {
            insns.push(m);
        }
    }
    let catch = |x: &Catch| -> R<MCatch> {
        Ok(MCatch { start: at(x.start)?, end: at(x.end)?, handler: at(x.handler)?, class: so(&x.catch)? })
    };
    let catches = c.catches.iter().map(catch).collect::<R<Vec<_>>>()?;
    let mut out = MCode { max_stack: c.max_stack, max_locals: c.max_locals, insns, catches, lines, ..Default::default() };
    for a in &c.attrs {
        match a {
            CodeAttribute::Raw(r) => out.attrs.push(MCodeAttr::Raw(s(&r.name)?, r.inner.to_vec())),
            CodeAttribute::LocalVariables(v) => {
                for x in v {
                    out.locals.push(MLocal {
                        start: at(x.start)?,
                        end: at(x.end)?,
                        name: s(&x.name)?,
                        desc: x.descriptor.as_ref().map(unty).transpose()?,
                        sig: x.signature.as_ref().map(unsig),
                        index: x.index,
                    });
                }
            }
            CodeAttribute::VisibleTypeAnnotations(v) | CodeAttribute::InvisibleTypeAnnotations(v) => {
                let vis = matches!(a, CodeAttribute::VisibleTypeAnnotations(_));
                let mut o = vec![];
                for t in v {
                    use CodeTypeAnnotationTarget as T;
                    let target = match &t.target {
                        T::LocalVariable(v) | T::ResourceVariable(v) => MTarget::Locals(
                            if matches!(t.target, T::LocalVariable(_)) { 0x40 } else { 0x41 },
                            v.iter().map(|x| Ok((at(x.start)?, at(x.end)?, x.idx))).collect::<R<_>>()?,
                        ),
                        T::CatchParameter(c) => MTarget::Catch(catch(c)?),
                        T::InstanceOf(l) => MTarget::Off(0x43, at(*l)?),
                        T::Constructor(l) => MTarget::Off(0x44, at(*l)?),
                        T::ConstructorRef(l) => MTarget::Off(0x45, at(*l)?),
                        T::MethodRef(l) => MTarget::Off(0x46, at(*l)?),
                        T::Cast(l, i) => MTarget::OffArg(0x47, at(*l)?, *i),
                        T::GenericConstructor(l, i) => MTarget::OffArg(0x48, at(*l)?, *i),
                        T::GenericMethod(l, i) => MTarget::OffArg(0x49, at(*l)?, *i),
                        T::GenericConstructorRef(l, i) => MTarget::OffArg(0x4A, at(*l)?, *i),
                        T::GenericMethodRef(l, i) => MTarget::OffArg(0x4B, at(*l)?, *i),
                    };
                    o.push(MTAnno { target, path: unpath(&t.type_path), anno: unpairs(&t.annotation_type, &t.element_values)? });
                }
                out.attrs.push(MCodeAttr::TypeAnnos(vis, o));
            }
        }
    }
    Ok(out)
}

fn uninsn_is_real(i: &Instruction, _n: &dyn Fn(Label) -> R<usize>) -> bool {
    match i {
        Instruction::Label(_) | Instruction::LineNumber(_) | Instruction::ConvertInt(BitType::Int) => false,
        Instruction::Conversion(a, b) => a != b,
        _ => true,
    }
}

// ---- classes

pub fn version(minor: u16, major: u16) -> JavaVersion {
    use MajorVersion::*;
    let v = [J1, J1_2, J1_3, J1_4, J5, J6, J7, J8, J9, J10, J11, J12, J13, J14, J15];
    JavaVersion { minor, major: v[major as usize - 45] }
}
fn unversion(v: JavaVersion) -> (u16, u16) {
    for m in 45..=59 {
        if version(v.minor, m) == v {
            return (v.minor, m);
        }
    }
    unreachable!()
}

fn raw(n: &MStr, b: &[u8]) -> RawAttribute {
    RawAttribute { name: cow(n), inner: Cow::Owned(b.to_vec()) }
}

pub fn module(m: &MModule) -> Module {
    Module {
        name: cow(&m.name),
        flags: ModuleFlags::from_bits_truncate(m.flags),
        version: co(&m.version),
        requires: m.requires.iter().map(|(n, f, v)| Require { module: cow(n), flags: RequireFlags::from_bits_truncate(*f), version: co(v) }).collect(),
        exports: m.exports.iter().map(|(n, f, v)| Export { package: cow(n), flags: ExOpFlags::from_bits_truncate(*f), to: cs(v) }).collect(),
        opens: m.opens.iter().map(|(n, f, v)| Open { package: cow(n), flags: ExOpFlags::from_bits_truncate(*f), to: cs(v) }).collect(),
        uses: cs(&m.uses),
        provides: m.provides.iter().map(|(n, v)| Provide { class: cow(n), with: cs(v) }).collect(),
    }
}

pub fn class_attr(a: &MAttr, bsms: &Option<Vec<MBsm>>) -> R<ClassAttribute> {
    use ClassAttribute as C;
    Ok(match a {
        MAttr::Deprecated => C::Deprecated,
        MAttr::Synthetic => C::Synthetic,
        MAttr::Signature(x) => C::Signature(sig(x)?),
        MAttr::SourceFile(x) => C::SourceFile(cow(x)),
        MAttr::InnerClasses(v) => C::InnerClasses(
            v.iter()
                .map(|(i, o, n, f)| InnerClass {
                    inner_fqname: cow(i),
                    outer_fqname: co(o),
                    inner_name: co(n),
                    inner_access: InnerClassFlags::from_bits_truncate(*f),
                })
                .collect(),
        ),
        MAttr::EnclosingMethod(c, m) => C::EnclosingMethod(cow(c), m.as_ref().map(|(n, t)| (cow(n), ty(t)))),
        MAttr::SourceDebugExtension(x) => C::SourceDebugExtension(SourceDebugExtension(cow(x))),
        MAttr::Module(m) => C::Module(module(m)),
        MAttr::ModulePackages(v) => C::ModulePackages(cs(v)),
        MAttr::ModuleMainClass(x) => C::ModuleMainClass(cow(x)),
        MAttr::NestHost(x) => C::NestHost(cow(x)),
        MAttr::NestMembers(v) => C::NestMembers(cs(v)),
        MAttr::Annos(true, v) => C::RuntimeVisibleAnnotations(v.iter().map(anno).collect()),
        MAttr::Annos(false, v) => C::RuntimeInvisibleAnnotations(v.iter().map(anno).collect()),
        MAttr::TypeAnnos(true, v) => C::RuntimeVisibleTypeAnnotations(v.iter().map(class_tanno).collect()),
        MAttr::TypeAnnos(false, v) => C::RuntimeInvisibleTypeAnnotations(v.iter().map(class_tanno).collect()),
        MAttr::Bootstrap => C::BootstrapMethods(bsms.as_ref().ok_or("no table")?.iter().map(bsm).collect()),
        MAttr::Raw(n, b) => C::Raw(raw(n, b)),
        a => return Err(format!("not a class attribute: {:?}", a)),
    })
}
pub fn field_attr(a: &MAttr) -> R<FieldAttribute> {
    use FieldAttribute as F;
    Ok(match a {
        MAttr::Deprecated => F::Deprecated,
        MAttr::Synthetic => F::Synthetic,
        MAttr::Signature(x) => F::Signature(sig(x)?),
        MAttr::ConstantValue(c) => F::ConstantValue(constant(c)),
        MAttr::Annos(true, v) => F::RuntimeVisibleAnnotations(v.iter().map(anno).collect()),
        MAttr::Annos(false, v) => F::RuntimeInvisibleAnnotations(v.iter().map(anno).collect()),
        MAttr::TypeAnnos(true, v) => F::RuntimeVisibleTypeAnnotations(v.iter().map(field_tanno).collect()),
        MAttr::TypeAnnos(false, v) => F::RuntimeInvisibleTypeAnnotations(v.iter().map(field_tanno).collect()),
        MAttr::Raw(n, b) => F::Raw(raw(n, b)),
        a => return Err(format!("not a field attribute: {:?}", a)),
    })
}
pub fn method_attr(a: &MAttr, seed: u64) -> R<MethodAttribute> {
    use MethodAttribute as M;
    Ok(match a {
        MAttr::Deprecated => M::Deprecated,
        MAttr::Synthetic => M::Synthetic,
        MAttr::Signature(x) => M::Signature(sig(x)?),
        MAttr::Annos(true, v) => M::RuntimeVisibleAnnotations(v.iter().map(anno).collect()),
        MAttr::Annos(false, v) => M::RuntimeInvisibleAnnotations(v.iter().map(anno).collect()),
        MAttr::TypeAnnos(true, v) => M::RuntimeVisibleTypeAnnotations(v.iter().map(method_tanno).collect()),
        MAttr::TypeAnnos(false, v) => M::RuntimeInvisibleTypeAnnotations(v.iter().map(method_tanno).collect()),
        MAttr::ParamAnnos(true, v) => M::RuntimeVisibleParameterAnnotations(v.iter().map(|x| param_annos(x)).collect::<R<_>>()?),
        MAttr::ParamAnnos(false, v) => M::RuntimeInvisibleParameterAnnotations(v.iter().map(|x| param_annos(x)).collect::<R<_>>()?),
        MAttr::AnnoDefault(v) => M::AnnotationDefault(val(v)),
        MAttr::Exceptions(v) => M::Exceptions(cs(v)),
        MAttr::MethodParameters(v) => M::MethodParameters(v.iter().map(|(n, f)| method_parameter(n, *f)).collect::<R<_>>()?),
        MAttr::Code(c) => M::Code(code(c, seed)?),
        MAttr::Raw(n, b) => M::Raw(raw(n, b)),
        a => return Err(format!("not a method attribute: {:?}", a)),
    })
}

pub fn to_coffer(c: &MClass, seed: u64) -> R<Class> {
    let mut attributes = c.attrs.iter().map(|a| class_attr(a, &c.bsms)).collect::<R<Vec<_>>>()?;
    if c.bsms.is_some() && !c.attrs.contains(&MAttr::Bootstrap) {
        attributes.push(class_attr(&MAttr::Bootstrap, &c.bsms)?);
    }
    Ok(Class {
        version: version(c.minor, c.major),
        access: ClassFlags::from_bits_truncate(c.access),
        name: cow(&c.name),
        super_name: co(&c.super_name),
        interfaces: cs(&c.interfaces),
        fields: c
            .fields
            .iter()
            .map(|f| {
                Ok(Field {
                    access: FieldFlags::from_bits_truncate(f.access),
                    name: cow(&f.name),
                    descriptor: ty(&f.desc),
                    attrs: f.attrs.iter().map(field_attr).collect::<R<_>>()?,
                })
            })
            .collect::<R<_>>()?,
        methods: c
            .methods
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let sd = if seed == 0 { 0 } else { mix(seed, i as u64) };
                Ok(Method {
                    access: MethodFlags::from_bits_truncate(f.access),
                    name: cow(&f.name),
                    descriptor: ty(&f.desc),
                    attributes: f.attrs.iter().map(|a| method_attr(a, sd)).collect::<R<_>>()?,
                })
            })
            .collect::<R<_>>()?,
        attributes,
    })
}

fn annos(v: &[Annotation]) -> R<Vec<MAnno>> {
    v.iter().map(unanno).collect()
}

pub fn from_coffer(c: &Class) -> R<MClass> {
    let (minor, major) = unversion(c.version);
    let mut bsms = None;
    let mut attrs = vec![];
    for a in &c.attributes {
        use ClassAttribute as C;
        attrs.push(match a {
            C::Deprecated => MAttr::Deprecated,
            C::Synthetic => MAttr::Synthetic,
            C::Signature(x) => MAttr::Signature(unsig(x)),
            C::SourceFile(x) => MAttr::SourceFile(s(x)?),
            C::InnerClasses(v) => MAttr::InnerClasses(
                v.iter().map(|x| Ok((s(&x.inner_fqname)?, so(&x.outer_fqname)?, so(&x.inner_name)?, x.inner_access.bits()))).collect::<R<_>>()?,
            ),
            C::EnclosingMethod(c, m) => MAttr::EnclosingMethod(
                s(c)?,
                match m {
                    Some((n, t)) => Some((s(n)?, unty(t)?)),
                    None => None,
                },
            ),
            C::SourceDebugExtension(x) => MAttr::SourceDebugExtension(s(&x.0)?),
            C::Module(m) => MAttr::Module(MModule {
                name: s(&m.name)?,
                flags: m.flags.bits(),
                version: so(&m.version)?,
                requires: m.requires.iter().map(|x| Ok((s(&x.module)?, x.flags.bits(), so(&x.version)?))).collect::<R<_>>()?,
                exports: m.exports.iter().map(|x| Ok((s(&x.package)?, x.flags.bits(), ss(&x.to)?))).collect::<R<_>>()?,
                opens: m.opens.iter().map(|x| Ok((s(&x.package)?, x.flags.bits(), ss(&x.to)?))).collect::<R<_>>()?,
                uses: ss(&m.uses)?,
                provides: m.provides.iter().map(|x| Ok((s(&x.class)?, ss(&x.with)?))).collect::<R<_>>()?,
            }),
            C::ModulePackages(v) => MAttr::ModulePackages(ss(v)?),
            C::ModuleMainClass(x) => MAttr::ModuleMainClass(s(x)?),
            C::NestHost(x) => MAttr::NestHost(s(x)?),
            C::NestMembers(v) => MAttr::NestMembers(ss(v)?),
            C::RuntimeVisibleAnnotations(v) => MAttr::Annos(true, annos(v)?),
            C::RuntimeInvisibleAnnotations(v) => MAttr::Annos(false, annos(v)?),
            C::RuntimeVisibleTypeAnnotations(v) => MAttr::TypeAnnos(true, v.iter().map(un_class_tanno).collect::<R<_>>()?),
            C::RuntimeInvisibleTypeAnnotations(v) => MAttr::TypeAnnos(false, v.iter().map(un_class_tanno).collect::<R<_>>()?),
            C::BootstrapMethods(v) => {
                if bsms.is_some() {
                    return Err("two bootstrap tables".into());
                }
                bsms = Some(v.iter().map(|b| unbsm(b, 0)).collect::<R<Vec<_>>>()?);
                MAttr::Bootstrap
            }
            C::Raw(r) => MAttr::Raw(s(&r.name)?, r.inner.to_vec()),
        });
    }
    let mut fields = vec![];
    for f in &c.fields {
        let mut v = vec![];
        for a in &f.attrs {
            use FieldAttribute as F;
            v.push(match a {
                F::Deprecated => MAttr::Deprecated,
                F::Synthetic => MAttr::Synthetic,
                F::Signature(x) => MAttr::Signature(unsig(x)),
                F::ConstantValue(c) => MAttr::ConstantValue(unconstant(c)?),
                F::RuntimeVisibleAnnotations(v) => MAttr::Annos(true, annos(v)?),
                F::RuntimeInvisibleAnnotations(v) => MAttr::Annos(false, annos(v)?),
                F::RuntimeVisibleTypeAnnotations(v) => MAttr::TypeAnnos(true, v.iter().map(un_field_tanno).collect::<R<_>>()?),
                F::RuntimeInvisibleTypeAnnotations(v) => MAttr::TypeAnnos(false, v.iter().map(un_field_tanno).collect::<R<_>>()?),
                F::Raw(r) => MAttr::Raw(s(&r.name)?, r.inner.to_vec()),
            });
        }
        fields.push(MMem { access: f.access.bits(), name: s(&f.name)?, desc: unty(&f.descriptor)?, attrs: v });
    }
    let mut methods = vec![];
    for m in &c.methods {
        let mut v = vec![];
        for a in &m.attributes {
            use MethodAttribute as M;
            v.push(match a {
                M::Deprecated => MAttr::Deprecated,
                M::Synthetic => MAttr::Synthetic,
                M::Signature(x) => MAttr::Signature(unsig(x)),
                M::RuntimeVisibleAnnotations(v) => MAttr::Annos(true, annos(v)?),
                M::RuntimeInvisibleAnnotations(v) => MAttr::Annos(false, annos(v)?),
                M::RuntimeVisibleTypeAnnotations(v) => MAttr::TypeAnnos(true, v.iter().map(un_method_tanno).collect::<R<_>>()?),
                M::RuntimeInvisibleTypeAnnotations(v) => MAttr::TypeAnnos(false, v.iter().map(un_method_tanno).collect::<R<_>>()?),
                M::RuntimeVisibleParameterAnnotations(v) => MAttr::ParamAnnos(true, v.iter().map(|x| annos(x)).collect::<R<_>>()?),
                M::RuntimeInvisibleParameterAnnotations(v) => MAttr::ParamAnnos(false, v.iter().map(|x| annos(x)).collect::<R<_>>()?),
                M::AnnotationDefault(v) => MAttr::AnnoDefault(unval(v)?),
                M::Exceptions(v) => MAttr::Exceptions(ss(v)?),
                M::MethodParameters(v) => MAttr::MethodParameters(v.iter().map(unmethod_parameter).collect::<R<_>>()?),
                M::Code(c) => MAttr::Code(uncode(c)?),
                M::Raw(r) => MAttr::Raw(s(&r.name)?, r.inner.to_vec()),
            });
        }
        methods.push(MMem { access: m.access.bits(), name: s(&m.name)?, desc: unty(&m.descriptor)?, attrs: v });
    }
    Ok(MClass {
        minor,
        major,
        access: c.access.bits(),
        name: s(&c.name)?,
        super_name: so(&c.super_name)?,
        interfaces: ss(&c.interfaces)?,
        fields,
        methods,
        attrs,
        bsms,
    })
}
