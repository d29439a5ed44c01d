//! The independent model of a class: plain values, positions as instruction indices, strings as
//! 16-bit units, floats as bits.

use crate::desc::MType;
use crate::mstr::MStr;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MMember {
    pub owner: MStr,
    pub name: MStr,
    pub desc: MType,
    /// interface method reference; false for fields
    pub itf: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MHandle {
    pub kind: u8,
    pub member: MMember,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MBsm {
    pub handle: MHandle,
    pub args: Vec<MConst>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MDyn {
    pub bsm: MBsm,
    pub name: MStr,
    pub desc: MType,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum MConst {
    Int(i32),
    Float(u32),
    Long(i64),
    Double(u64),
    Str(MStr),
    Class(MStr),
    MethodType(MType),
    Handle(MHandle),
    Dyn(Box<MDyn>),
}

impl MConst {
    pub fn wide(&self) -> bool {
        match self {
            MConst::Long(_) | MConst::Double(_) => true,
            MConst::Dyn(d) => matches!(d.desc, MType::Prim('J') | MType::Prim('D')),
            _ => false,
        }
    }
}

/// Canonical instruction: encodings that mean the same are the same value.  Jump targets are
/// instruction indices.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum MI {
    /// operand-free instruction, by opcode
    Op(u8),
    Push(MConst),
    /// store?, type 0..5 = int long float double ref
    Local(bool, u8, u16),
    Inc(u16, i16),
    Ret(u16),
    /// canonical opcode of the conditional jump, or 167 for goto
    Jump(u8, usize),
    Jsr(usize),
    Table(usize, i32, Vec<usize>),
    Lookup(usize, Vec<(i32, usize)>),
    /// 178..=181
    Field(u8, MMember),
    /// 182..=184
    Invoke(u8, MMember),
    InvokeItf(MMember, u8),
    InvokeDyn(MDyn),
    New(MStr),
    CheckCast(MStr),
    InstanceOf(MStr),
    /// type of the resulting array, number of dimensions allocated
    NewArray(MType, u8),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MCatch {
    pub start: usize,
    pub end: usize,
    pub handler: usize,
    pub class: Option<MStr>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MLocal {
    pub start: usize,
    pub end: usize,
    pub name: MStr,
    pub desc: Option<MType>,
    pub sig: Option<MStr>,
    pub index: u16,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MVal {
    Byte(i8),
    Char(u16),
    Double(u64),
    Float(u32),
    Int(i32),
    Long(i64),
    Short(i16),
    Bool(bool),
    Str(MStr),
    Enum(MType, MStr),
    Class(Option<MType>),
    Anno(MAnno),
    Array(Vec<MVal>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MAnno {
    pub ty: MType,
    /// sorted by name when normalised
    pub pairs: Vec<(MStr, MVal)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MTarget {
    Empty(u8),
    U8(u8, u8),
    U16(u8, u16),
    U8U8(u8, u8, u8),
    Locals(u8, Vec<(usize, usize, u16)>),
    Catch(MCatch),
    Off(u8, usize),
    OffArg(u8, usize, u8),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MTAnno {
    pub target: MTarget,
    pub path: Vec<(u8, u8)>,
    pub anno: MAnno,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MVerif {
    Top,
    Int,
    Float,
    Double,
    Long,
    Null,
    UninitThis,
    Object(MStr),
    Uninit(usize),
}

/// (delta in bytes is derived by the encoder for well-formed tables; here explicit)
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MFrame {
    Same,
    One(MVerif),
    Chop(u8),
    Append(Vec<MVerif>),
    Full(Vec<MVerif>, Vec<MVerif>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MCodeAttr {
    TypeAnnos(bool, Vec<MTAnno>),
    Raw(MStr, Vec<u8>),
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct MCode {
    pub max_stack: u16,
    pub max_locals: u16,
    pub insns: Vec<MI>,
    pub catches: Vec<MCatch>,
    /// (instruction index, line)
    pub lines: Vec<(usize, u16)>,
    pub locals: Vec<MLocal>,
    pub attrs: Vec<MCodeAttr>,
    /// frames at instruction indices (ignored by the library on reading)
    pub frames: Option<Vec<(usize, MFrame)>>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MModule {
    pub name: MStr,
    pub flags: u16,
    pub version: Option<MStr>,
    pub requires: Vec<(MStr, u16, Option<MStr>)>,
    pub exports: Vec<(MStr, u16, Vec<MStr>)>,
    pub opens: Vec<(MStr, u16, Vec<MStr>)>,
    pub uses: Vec<MStr>,
    pub provides: Vec<(MStr, Vec<MStr>)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MAttr {
    Deprecated,
    Synthetic,
    /// text
    Signature(MStr),
    SourceFile(MStr),
    /// inner, outer, name, flags
    InnerClasses(Vec<(MStr, Option<MStr>, Option<MStr>, u16)>),
    EnclosingMethod(MStr, Option<(MStr, MType)>),
    SourceDebugExtension(MStr),
    Module(MModule),
    ModulePackages(Vec<MStr>),
    ModuleMainClass(MStr),
    NestHost(MStr),
    NestMembers(Vec<MStr>),
    Annos(bool, Vec<MAnno>),
    TypeAnnos(bool, Vec<MTAnno>),
    ParamAnnos(bool, Vec<Vec<MAnno>>),
    AnnoDefault(MVal),
    Exceptions(Vec<MStr>),
    MethodParameters(Vec<(Option<MStr>, u16)>),
    ConstantValue(MConst),
    Code(MCode),
    /// only as a position marker in files / values; contents in MClass::bsms
    Bootstrap,
    Raw(MStr, Vec<u8>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MMem {
    pub access: u16,
    pub name: MStr,
    pub desc: MType,
    pub attrs: Vec<MAttr>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MClass {
    pub minor: u16,
    pub major: u16,
    pub access: u16,
    pub name: MStr,
    pub super_name: Option<MStr>,
    pub interfaces: Vec<MStr>,
    pub fields: Vec<MMem>,
    pub methods: Vec<MMem>,
    pub attrs: Vec<MAttr>,
    /// the explicit bootstrap table, when the class has the attribute
    pub bsms: Option<Vec<MBsm>>,
}

pub const CLASS_FLAGS: u16 = 0x0001 | 0x0010 | 0x0020 | 0x0200 | 0x0400 | 0x1000 | 0x2000 | 0x4000 | 0x8000;
pub const FIELD_FLAGS: u16 = 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0040 | 0x0080 | 0x1000 | 0x4000;
pub const METHOD_FLAGS: u16 = 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0020 | 0x0040 | 0x0080 | 0x0100 | 0x0400 | 0x0800 | 0x1000;
pub const INNER_FLAGS: u16 = 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0200 | 0x0400 | 0x1000 | 0x2000 | 0x4000;
pub const PARAM_FLAGS: u16 = 0x0010 | 0x1000 | 0x8000;
pub const MODULE_FLAGS: u16 = 0x0020 | 0x1000 | 0x8000;
pub const REQUIRE_FLAGS: u16 = 0x0020 | 0x0040 | 0x1000 | 0x8000;
pub const EXOP_FLAGS: u16 = 0x1000 | 0x8000;

/// Condition opcode -> the opcode of the complementary condition.
pub fn negated(op: u8) -> u8 {
    match op {
        153 => 154, // ifeq ifne
        154 => 153,
        155 => 156, // iflt ifge
        156 => 155,
        157 => 158, // ifgt ifle
        158 => 157,
        159 => 160,
        160 => 159,
        161 => 162,
        162 => 161,
        163 => 164,
        164 => 163,
        165 => 166,
        166 => 165,
        198 => 199,
        199 => 198,
        _ => panic!("not a condition: {}", op),
    }
}

pub const CONDS: &[u8] = &[153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 198, 199];

/// Operand-free canonical opcodes (pushes of constants and locals are canonicalised elsewhere).
pub fn plain_ops() -> Vec<u8> {
    let mut v = vec![0u8, 1];
    v.extend(46..=53);
    v.extend(79..=131);
    v.extend(133..=152);
    v.extend(172..=177);
    v.extend([190, 191, 194, 195]);
    v
}

fn norm_val(v: &mut MVal) {
    match v {
        MVal::Anno(a) => norm_anno(a),
        MVal::Array(vs) => vs.iter_mut().for_each(norm_val),
        _ => {}
    }
}
pub fn norm_anno(a: &mut MAnno) {
    a.pairs.iter_mut().for_each(|p| norm_val(&mut p.1));
    a.pairs.sort_by(|x, y| x.0.cmp(&y.0));
}
fn norm_attr(a: &mut MAttr) {
    match a {
        MAttr::Annos(_, v) => v.iter_mut().for_each(norm_anno),
        MAttr::TypeAnnos(_, v) => v.iter_mut().for_each(|t| norm_anno(&mut t.anno)),
        MAttr::ParamAnnos(_, v) => v.iter_mut().flatten().for_each(norm_anno),
        MAttr::AnnoDefault(v) => norm_val(v),
        MAttr::Code(c) => norm_code(c),
        _ => {}
    }
}
pub fn norm_code(c: &mut MCode) {
    for a in c.attrs.iter_mut() {
        if let MCodeAttr::TypeAnnos(_, v) = a {
            v.iter_mut().for_each(|t| norm_anno(&mut t.anno));
        }
    }
    for i in c.insns.iter_mut() {
        if let MI::Lookup(_, t) = i {
            t.sort_by_key(|x| x.0);
        }
    }
    // entries at one position keep their order, positions are sorted
    c.lines.sort_by_key(|x| x.0);
    // the order of variable descriptions carries no meaning
    c.locals.sort_by(|a, b| (a.start, a.end, a.index, &a.name).cmp(&(b.start, b.end, b.index, &b.name)));
    c.frames = None;
}
/// Normal form for comparison: annotation pairs sorted, lookup tables sorted, frames dropped,
/// the bootstrap attribute's position dropped.
pub fn norm_class(c: &mut MClass) {
    c.fields.iter_mut().chain(c.methods.iter_mut()).for_each(|m| m.attrs.iter_mut().for_each(norm_attr));
    c.attrs.iter_mut().for_each(norm_attr);
    c.attrs.retain(|a| *a != MAttr::Bootstrap);
}

impl MClass {
    pub fn codes(&self) -> impl Iterator<Item = &MCode> {
        self.methods.iter().flat_map(|m| m.attrs.iter()).filter_map(|a| if let MAttr::Code(c) = a { Some(c) } else { None })
    }
}
