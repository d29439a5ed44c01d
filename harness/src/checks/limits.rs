//! C16: values at and beyond the format's limits.

use coffer::code::{RawFrame, VerificationType};
use coffer::cp::{StrRef, VecCp};
use coffer::{ConstantPoolReadWrite, ConstantPoolWriter, ReadWrite};

use super::class::must_write;
use super::write;
use crate::conv;
use crate::desc::*;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::mstr::*;

type R<T> = Result<T, String>;

fn anno() -> MAnno {
    MAnno { ty: MType::Ref(ms("a/A")), pairs: vec![] }
}
fn tanno(target: MTarget) -> MTAnno {
    MTAnno { target, path: vec![], anno: anno() }
}
fn field(attrs: Vec<MAttr>) -> MMem {
    MMem { access: 8, name: ms("f"), desc: MType::Prim('I'), attrs }
}
fn method(attrs: Vec<MAttr>) -> MMem {
    MMem { access: 0x401, name: ms("m"), desc: MType::Method(vec![], None), attrs }
}
fn small_code() -> MCode {
    MCode { max_stack: 1, max_locals: 1, insns: vec![MI::Op(0), MI::Op(177)], ..MCode::default() }
}
fn class_attr(a: MAttr) -> MClass {
    MClass { attrs: vec![a], ..gen::minimal() }
}
fn with_field(a: Vec<MAttr>) -> MClass {
    MClass { fields: vec![field(a)], ..gen::minimal() }
}
fn with_method(a: Vec<MAttr>) -> MClass {
    MClass { methods: vec![method(a)], ..gen::minimal() }
}
fn with_code(c: MCode) -> MClass {
    MClass { methods: vec![gen::method_with(c)], ..gen::minimal() }
}
fn module() -> MModule {
    MModule { name: ms("m"), flags: 0, version: None, requires: vec![], exports: vec![], opens: vec![], uses: vec![], provides: vec![] }
}
fn a_handle() -> MHandle {
    MHandle { kind: 6, member: MMember { owner: ms("a/H"), name: ms("b"), desc: MType::Method(vec![], None), itf: false } }
}
fn raw_attr() -> MAttr {
    MAttr::Raw(ms("x.Y"), vec![1, 2, 3])
}
fn local(desc: bool, sig: bool) -> MLocal {
    MLocal {
        start: 0,
        end: 1,
        name: ms("v"),
        desc: if desc { Some(MType::Prim('I')) } else { None },
        sig: if sig { Some(ms("TT;")) } else { None },
        index: 0,
    }
}

/// name, largest count, class with that many
type Table = (&'static str, usize, fn(usize) -> MClass);

static TABLES: &[Table] = &[
    ("interfaces", 65535, |n| MClass { interfaces: vec![ms("a/I"); n], ..gen::minimal() }),
    ("fields", 65535, |n| MClass { fields: vec![field(vec![]); n], ..gen::minimal() }),
    ("methods", 65535, |n| MClass { methods: vec![method(vec![]); n], ..gen::minimal() }),
    ("class attributes", 65535, |n| MClass { attrs: vec![raw_attr(); n], ..gen::minimal() }),
    ("class attributes with a bootstrap table", 65534, |n| {
        let d = MDyn { bsm: MBsm { handle: a_handle(), args: vec![] }, name: ms("d"), desc: MType::Prim('I') };
        let mut c = small_code();
        c.insns.insert(0, MI::Push(MConst::Dyn(Box::new(d))));
        MClass { major: 55, attrs: vec![raw_attr(); n], ..with_code(c) }
    }),
    ("field attributes", 65535, |n| with_field(vec![raw_attr(); n])),
    ("method attributes", 65535, |n| with_method(vec![raw_attr(); n])),
    ("code attributes", 65535, |n| with_code(MCode { attrs: vec![MCodeAttr::Raw(ms("x.Y"), vec![7]); n], ..small_code() })),
    ("code attributes with lines", 65534, |n| {
        with_code(MCode { attrs: vec![MCodeAttr::Raw(ms("x.Y"), vec![7]); n], lines: vec![(0, 3)], ..small_code() })
    }),
    ("code attributes with lines and variables", 65532, |n| {
        with_code(MCode {
            attrs: vec![MCodeAttr::Raw(ms("x.Y"), vec![7]); n],
            lines: vec![(0, 3)],
            locals: vec![local(true, true)],
            ..small_code()
        })
    }),
    ("inner classes", 65535, |n| class_attr(MAttr::InnerClasses(vec![(ms("a/B$C"), Some(ms("a/B")), Some(ms("C")), 1); n]))),
    ("nest members", 65535, |n| class_attr(MAttr::NestMembers(vec![ms("a/N"); n]))),
    ("module packages", 65535, |n| class_attr(MAttr::ModulePackages(vec![ms("a/p"); n]))),
    ("module requires", 65535, |n| class_attr(MAttr::Module(MModule { requires: vec![(ms("r"), 0, None); n], ..module() }))),
    ("module exports", 65535, |n| class_attr(MAttr::Module(MModule { exports: vec![(ms("p"), 0, vec![]); n], ..module() }))),
    ("module exports to", 65535, |n| class_attr(MAttr::Module(MModule { exports: vec![(ms("p"), 0, vec![ms("t"); n])], ..module() }))),
    ("module opens", 65535, |n| class_attr(MAttr::Module(MModule { opens: vec![(ms("p"), 0, vec![]); n], ..module() }))),
    ("module opens to", 65535, |n| class_attr(MAttr::Module(MModule { opens: vec![(ms("p"), 0, vec![ms("t"); n])], ..module() }))),
    ("module uses", 65535, |n| class_attr(MAttr::Module(MModule { uses: vec![ms("u/U"); n], ..module() }))),
    ("module provides", 65535, |n| class_attr(MAttr::Module(MModule { provides: vec![(ms("u/U"), vec![]); n], ..module() }))),
    ("module provides with", 65535, |n| {
        class_attr(MAttr::Module(MModule { provides: vec![(ms("u/U"), vec![ms("w/W"); n])], ..module() }))
    }),
    ("class annotations", 65535, |n| class_attr(MAttr::Annos(n % 2 == 0, vec![anno(); n]))),
    ("field annotations", 65535, |n| with_field(vec![MAttr::Annos(n % 2 == 0, vec![anno(); n])])),
    ("method annotations", 65535, |n| with_method(vec![MAttr::Annos(n % 2 == 0, vec![anno(); n])])),
    ("class type annotations", 65535, |n| class_attr(MAttr::TypeAnnos(n % 2 == 0, vec![tanno(MTarget::U8(0, 1)); n]))),
    ("field type annotations", 65535, |n| with_field(vec![MAttr::TypeAnnos(n % 2 == 0, vec![tanno(MTarget::Empty(0x13)); n])])),
    ("method type annotations", 65535, |n| with_method(vec![MAttr::TypeAnnos(n % 2 == 0, vec![tanno(MTarget::Empty(0x14)); n])])),
    ("code type annotations", 65535, |n| {
        with_code(MCode { attrs: vec![MCodeAttr::TypeAnnos(n % 2 == 0, vec![tanno(MTarget::Off(0x44, 0)); n])], ..small_code() })
    }),
    ("annotated variable ranges", 65535, |n| {
        let t = MTarget::Locals(0x40 + (n % 2) as u8, vec![(0, 1, 2); n]);
        with_code(MCode { attrs: vec![MCodeAttr::TypeAnnos(true, vec![tanno(t)])], ..small_code() })
    }),
    ("class type path", 255, |n| {
        class_attr(MAttr::TypeAnnos(true, vec![MTAnno { path: vec![(3, 1); n], ..tanno(MTarget::U8(0, 1)) }]))
    }),
    ("field type path", 255, |n| {
        with_field(vec![MAttr::TypeAnnos(true, vec![MTAnno { path: vec![(0, 0); n], ..tanno(MTarget::Empty(0x13)) }])])
    }),
    ("method type path", 255, |n| {
        with_method(vec![MAttr::TypeAnnos(false, vec![MTAnno { path: vec![(1, 0); n], ..tanno(MTarget::Empty(0x15)) }])])
    }),
    ("code type path", 255, |n| {
        let t = MTAnno { path: vec![(2, 0); n], ..tanno(MTarget::Off(0x43, 0)) };
        with_code(MCode { attrs: vec![MCodeAttr::TypeAnnos(true, vec![t])], ..small_code() })
    }),
    ("annotation array", 65535, |n| {
        let a = MAnno { pairs: vec![(ms("k"), MVal::Array(vec![MVal::Bool(true); n]))], ..anno() };
        class_attr(MAttr::Annos(true, vec![a]))
    }),
    ("annotation default array", 65535, |n| with_method(vec![MAttr::AnnoDefault(MVal::Array(vec![MVal::Int(5); n]))])),
    ("annotated parameters", 255, |n| with_method(vec![MAttr::ParamAnnos(n % 2 == 0, vec![vec![anno()]; n])])),
    ("annotations of a parameter", 65535, |n| with_method(vec![MAttr::ParamAnnos(n % 2 == 0, vec![vec![], vec![anno(); n]])])),
    ("method parameters", 255, |n| with_method(vec![MAttr::MethodParameters(vec![(Some(ms("p")), 0); n])])),
    ("exceptions", 65535, |n| with_method(vec![MAttr::Exceptions(vec![ms("a/E"); n])])),
    ("handlers", 65535, |n| {
        with_code(MCode { catches: vec![MCatch { start: 0, end: 1, handler: 1, class: Some(ms("a/E")) }; n], ..small_code() })
    }),
    ("lines", 65535, |n| with_code(MCode { lines: (0..n).map(|i| (i * 2 / n.max(1), i as u16)).collect(), ..small_code() })),
    ("variables", 65535, |n| with_code(MCode { locals: (0..n).map(|i| MLocal { index: i as u16, ..local(true, false) }).collect(), ..small_code() })),
    ("variable signatures", 65535, |n| with_code(MCode { locals: (0..n).map(|i| MLocal { index: i as u16, ..local(false, true) }).collect(), ..small_code() })),
    ("bootstrap methods", 65535, |n| MClass {
        major: 55,
        attrs: vec![MAttr::Bootstrap],
        bsms: Some(vec![MBsm { handle: a_handle(), args: vec![] }; n]),
        ..gen::minimal()
    }),
    ("bootstrap arguments", 65535, |n| MClass {
        major: 55,
        attrs: vec![MAttr::Bootstrap],
        bsms: Some(vec![MBsm { handle: a_handle(), args: vec![MConst::Int(7); n] }]),
        ..gen::minimal()
    }),
];

/// Counts around the limit and around the wrap of a 16-bit (8-bit) counter.
fn around(src: &mut Source, limit: usize) -> usize {
    let l = limit as u64;
    (match src.below(8) {
        0 => l - src.below(3),
        1 | 2 => l,
        3 | 4 => l + 1,
        5 => l + 2 + src.below(4),
        6 => 2 * (l + 1) - 1 + src.below(3),
        _ => l + 1 + src.below(l),
    }) as usize
}

/// A class with one table or string of a size near a power of two, within its limit.
pub fn big_model(src: &mut Source) -> (&'static str, usize, MClass) {
    let table = src.chance(2, 3);
    let (what, limit, f) = *src.pick(TABLES);
    let limit = match table {
        // the encoder may split tables
        true if what.contains("attributes") => 65500,
        true => limit,
        _ => 65535,
    };
    let n = match src.below(8) {
        5 => src.range(300, 5000),
        6 | 7 => (1usize << src.range(9, 15)) - 3 + src.usize(6),
        0 => 125 + src.usize(6),
        1 => 253 + src.usize(6),
        2 => 32765 + src.usize(6),
        3 => src.range(32768, 65535),
        _ => limit - src.usize(3),
    }
    .min(limit);
    if src.chance(1, 20) {
        let n = n.min(60000);
        let pairs = (0..n).map(|i| (ms(&format!("k{}", i)), MVal::Int(i as i32 % 7))).collect();
        ("annotation elements", n, class_attr(MAttr::Annos(true, vec![MAnno { pairs, ..anno() }])))
    } else if table {
        (what, n, f(n))
    } else {
        let (what, m) = string_class(src, n);
        (what, n, m)
    }
}

fn judge(what: &str, n: usize, limit: usize, m: &MClass, seed: u64, ctx: &mut Ctx) -> R<()> {
    let c = conv::to_coffer(m, seed)?;
    if n <= limit {
        guard(|| must_write(m, &c))
            .map_err(|p| format!("panic: {}", p))
            .and_then(|x| x)
            .map_err(|x| format!("{} {} (limit {}): {}", n, what, limit, short(&x)))?;
        ctx.count("within a limit, written exactly");
    } else {
        match guard(|| write(&c)) {
            Err(p) => return Err(format!("{} {} (limit {}): panic: {}", n, what, limit, p)),
            Ok(Ok(b)) => return Err(format!("{} {} (limit {}) were written, {} bytes", n, what, limit, b.len())),
            Ok(Err(_)) => ctx.count("beyond a limit, refused"),
        }
    }
    Ok(())
}
fn short(s: &str) -> String {
    s.chars().take(400).collect()
}

/// Text of exactly `n` encoded bytes.
fn sized(src: &mut Source, n: usize, fixed: usize) -> MStr {
    let n = n - fixed;
    let mut v: Vec<u16> = vec![];
    let style = src.below(6);
    let left = match style {
        0 => n,
        1 => {
            v.extend(std::iter::repeat(0xE9).take(n / 2));
            n % 2
        }
        2 => {
            v.extend(std::iter::repeat(0x4E16).take(n / 3));
            n % 3
        }
        3 => {
            for _ in 0..n / 6 {
                v.extend([0xD83D, 0xDE00]);
            }
            n % 6
        }
        4 => {
            v.extend(std::iter::repeat(0).take(n / 2));
            n % 2
        }
        _ => {
            // lone surrogates
            v.extend(std::iter::repeat(0xDC01).take(n / 3));
            n % 3
        }
    };
    v.extend(std::iter::repeat(b'q' as u16).take(left));
    MStr(v)
}

fn string_class(src: &mut Source, n: usize) -> (&'static str, MClass) {
    let mut ascii = |n: usize, f: usize| {
        let mut s = vec![b'w' as u16; n - f];
        if let Some(x) = s.get_mut(0) {
            *x = b'a' as u16;
        }
        MStr(s)
    };
    let k = src.below(22);
    let any = if k < 16 { sized(src, n, 0) } else { MStr(vec![]) };
    match k {
        0 => ("class name", MClass { name: any, ..gen::minimal() }),
        1 => ("super class", MClass { super_name: Some(any), ..gen::minimal() }),
        2 => ("interface", MClass { interfaces: vec![any], ..gen::minimal() }),
        3 => ("field name", MClass { fields: vec![MMem { name: any, ..field(vec![]) }], ..gen::minimal() }),
        4 => ("method name", MClass { methods: vec![MMem { name: any, ..method(vec![]) }], ..gen::minimal() }),
        5 => ("source file", class_attr(MAttr::SourceFile(any))),
        6 => ("attribute name", class_attr(MAttr::Raw(any, vec![1]))),
        7 => ("string constant", with_field(vec![MAttr::ConstantValue(MConst::Str(any))])),
        8 => {
            let mut c = small_code();
            c.insns.insert(0, MI::Push(MConst::Str(any)));
            ("loaded string", with_code(c))
        }
        9 => ("annotation string", with_method(vec![MAttr::AnnoDefault(MVal::Str(any))])),
        10 => ("annotation element name", class_attr(MAttr::Annos(true, vec![MAnno { pairs: vec![(any, MVal::Int(1))], ..anno() }]))),
        11 => ("enum constant", with_method(vec![MAttr::AnnoDefault(MVal::Enum(MType::Ref(ms("a/E")), any))])),
        12 => ("enclosing method", class_attr(MAttr::EnclosingMethod(ms("a/B"), Some((any, MType::Method(vec![], None)))))),
        13 => ("variable name", with_code(MCode { locals: vec![MLocal { name: any, ..local(true, false) }], ..small_code() })),
        14 => ("module version", class_attr(MAttr::Module(MModule { version: Some(any), ..module() }))),
        15 => ("code attribute name", with_code(MCode { attrs: vec![MCodeAttr::Raw(any, vec![])], ..small_code() })),
        16 => ("field descriptor", MClass { fields: vec![MMem { desc: MType::Ref(sized(src, n, 2)), ..field(vec![]) }], ..gen::minimal() }),
        17 => {
            // (LLL...I)V style: many arguments of one character
            let p = vec![MType::Prim('I'); n - 3];
            ("method descriptor", MClass { methods: vec![MMem { desc: MType::Method(p, None), ..method(vec![]) }], ..gen::minimal() })
        }
        18 => {
            let mut t = ascii(n, 2);
            t.0.insert(0, b'L' as u16);
            t.0.push(b';' as u16);
            ("field signature", with_field(vec![MAttr::Signature(t)]))
        }
        19 => {
            let mut t = ascii(n, 2);
            t.0.insert(0, b'L' as u16);
            t.0.push(b';' as u16);
            ("class signature", class_attr(MAttr::Signature(t)))
        }
        20 => ("annotation type", class_attr(MAttr::Annos(false, vec![MAnno { ty: MType::Ref(sized(src, n, 2)), pairs: vec![] }]))),
        _ => {
            let d = MDyn { bsm: MBsm { handle: a_handle(), args: vec![] }, name: sized(src, n, 0), desc: MType::Method(vec![], None) };
            let mut c = small_code();
            c.insns.insert(0, MI::InvokeDyn(d));
            ("call site name", MClass { major: 55, ..with_code(c) })
        }
    }
}

fn strings(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let n = around(src, 65535);
    let (what, m) = string_class(src, n);
    let direct = sized(src, n, 0);
    let seed = src.u64();
    checkpoint(src);
    judge(&format!("bytes of {}", what), n, 65535, &m, seed, ctx)?;
    // the strings' own coders
    let w = wtf(&direct);
    let bytes = direct.mutf8();
    let mut outs = vec![];
    let mut o = vec![];
    outs.push((guard(|| w.write_to(&mut o)).map_err(|p| format!("panic: {}", p))?.is_ok(), o));
    let mut o = vec![];
    outs.push((guard(|| ReadWrite::write_to(&cow(&direct), &mut o)).map_err(|p| format!("panic: {}", p))?.is_ok(), o));
    let mut o = vec![];
    outs.push((guard(|| StrRef(&w).write_to(&mut o)).map_err(|p| format!("panic: {}", p))?.is_ok(), o));
    for (k, (ok, o)) in outs.iter().enumerate() {
        if *ok != (n <= 65535) {
            return Err(format!("string coder {}: {} bytes {}", k, n, if *ok { "written" } else { "refused" }));
        }
        if *ok && (o[..2] != (n as u16).to_be_bytes() || o[2..] != bytes[..]) {
            return Err(format!("string coder {}: {} bytes written wrongly", k, n));
        }
    }
    pass(true, mix(hash_bytes(what.as_bytes()), mix(n as u64, direct.0.len() as u64)))
}

fn code_len(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let n = match src.below(6) {
        0 => 65535 - src.below(9) as usize,
        1 => 65536 + src.below(9) as usize,
        _ => around(src, 65535),
    };
    // the last instruction is a return
    let style = src.below(7);
    let fill = |v: &mut Vec<MI>, k: usize| v.extend(std::iter::repeat(MI::Op(0)).take(k));
    let mut v = vec![];
    let what = match style {
        0 => {
            fill(&mut v, n - 1);
            "plain instructions"
        }
        1 => {
            fill(&mut v, n - 6);
            v.push(MI::Jump(167, 0));
            "a far jump back"
        }
        2 => {
            fill(&mut v, n - 9);
            v.push(MI::Jump(*src.pick(CONDS), 0));
            "a far conditional jump back"
        }
        3 => {
            // forwards over everything
            v.push(MI::Jump(167, n - 5));
            fill(&mut v, n - 6);
            "a far jump forwards"
        }
        4 => {
            let k = src.range(1, 4000);
            v.push(MI::Table(0, 5, vec![0; k]));
            fill(&mut v, n - 1 - (4 + 12 + 4 * k));
            "a table switch"
        }
        5 => {
            let k = src.range(1, 3000);
            v.push(MI::Lookup(0, (0..k).map(|i| (i as i32, 0)).collect()));
            fill(&mut v, n - 1 - (4 + 8 + 8 * k));
            "a lookup switch"
        }
        _ => {
            // the code fits only as long as the jump is short
            let k = src.range(1, 40);
            fill(&mut v, n - 1 - 5 * k);
            v.extend(std::iter::repeat(MI::Jsr(0)).take(k));
            "far subroutine calls"
        }
    };
    v.push(MI::Op(177));
    let m = with_code(MCode { max_stack: 2, insns: v, ..MCode::default() });
    let seed = src.u64();
    checkpoint(src);
    judge(&format!("bytes of code with {}", what), n, 65535, &m, seed, ctx)?;
    pass(true, mix(n as u64, style))
}

/// The class's constant_pool_count.
fn pool_count(m: &MClass, seed: u64) -> R<usize> {
    let c = conv::to_coffer(m, seed)?;
    let b = write(&c).map_err(|e| format!("harness: base class refused: {}", e))?;
    Ok(u16::from_be_bytes([b[8], b[9]]) as usize)
}

fn pool_size(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let mut m = gen::minimal();
    let base = src.range(0, 3000);
    let mut r = Rng::new(src.u64());
    for i in 0..base {
        let c = match r.below(5) {
            0 => MConst::Int(i as i32 * 3),
            1 => MConst::Long(i as i64 * 5),
            2 => MConst::Double(i as u64 * 7 + 1),
            3 => MConst::Float(i as u32 * 9 + 1),
            _ => MConst::Str(ms(&format!("s{}", i))),
        };
        m.fields.push(field(vec![MAttr::ConstantValue(c)]));
    }
    m.fields.push(field(vec![]));
    // counts beyond 65535 do not exist
    let want = match src.below(8) {
        0 => 65530 + src.below(5) as usize,
        1 | 2 => 65535,
        3 | 4 => 65536,
        5 => 65537 + src.below(3) as usize,
        6 => 65536 + 100 + src.below(60000) as usize,
        _ => 131073 + src.below(30) as usize,
    };
    let wide_end = src.bool();
    let seed = src.u64();
    checkpoint(src);
    let have = pool_count(&m, seed)?;
    let mut more = want - have;
    if wide_end && more > 2 {
        more -= 2;
    }
    for i in 0..more {
        // interfaces and fields have counters of their own: put the names where there is room
        let f = MMem { name: ms(&format!("n{}", i)), ..field(vec![]) };
        if m.fields.len() < 60000 {
            m.fields.push(f);
        } else {
            m.methods.push(MMem { name: f.name, ..method(vec![]) });
        }
    }
    let m_desc = m.methods.len() > 0;
    if wide_end && want - have > 2 {
        m.fields.push(field(vec![MAttr::ConstantValue(MConst::Long(-77))]));
    }
    // the descriptor of methods is one more entry; ConstantValue may be, too
    let extra = m_desc as usize + (base == 0 && wide_end && want - have > 2) as usize;
    let total = want + extra;
    judge("as constant_pool_count", total, 65535, &m, seed, ctx)?;
    // the pool alone
    let mut cp = VecCp::new();
    for i in 0..(want - 1).min(140_000) {
        cp.insert_int(i as i32);
    }
    let mut o = vec![];
    let r = guard(|| cp.write_to(&mut o)).map_err(|p| format!("panic: {}", p))?;
    if r.is_ok() != (want <= 65535) || (r.is_ok() && (o[..2] != (want as u16).to_be_bytes() || o.len() != 2 + 5 * (want - 1))) {
        return Err(format!("a pool of {} integers: {:?}, {} bytes", want - 1, r.is_ok(), o.len()));
    }
    pass(true, mix(total as u64, base as u64))
}

struct Ignore;
impl ConstantPoolWriter for Ignore {
    fn insert_raw(&mut self, _: coffer::cp::RawConstantEntry) -> u16 {
        1
    }
    fn insert_bsm(&mut self, _: coffer::dynamic::BootstrapMethod) -> u16 {
        0
    }
}

fn frames(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let n = around(src, 65535);
    let k = if src.bool() { src.range(0, 5) } else { around(src, 65535) };
    let (l, s) = if src.bool() { (n, k) } else { (k, n) };
    let d = src.u16();
    checkpoint(src);
    let f = RawFrame::Full(d, vec![VerificationType::Top; l], vec![VerificationType::Int; s]);
    let mut o = vec![];
    let r = guard(|| f.write_to(&mut Ignore, &mut o)).map_err(|p| format!("panic: {}", p))?;
    let fits = l <= 65535 && s <= 65535;
    if r.is_ok() != fits {
        return Err(format!("a frame with {} locals and {} stack values: written {}", l, s, r.is_ok()));
    }
    if fits {
        let mut w = vec![255];
        w.extend(d.to_be_bytes());
        w.extend((l as u16).to_be_bytes());
        w.extend(std::iter::repeat(0).take(l));
        w.extend((s as u16).to_be_bytes());
        w.extend(std::iter::repeat(1).take(s));
        if w != o {
            return Err(format!("a frame with {} locals and {} stack values is written wrongly", l, s));
        }
        ctx.count("within a limit, written exactly");
    } else {
        ctx.count("beyond a limit, refused");
    }
    pass(true, mix(l as u64, s as u64))
}

fn big_raw(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    // no 16-bit limit here
    let n = around(src, 65535);
    let seed = src.u64();
    let which = src.below(3);
    checkpoint(src);
    let mut r = Rng::new(seed);
    let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let m = match which {
        0 => class_attr(MAttr::Raw(ms("x.Y"), b)),
        1 => with_code(MCode { attrs: vec![MCodeAttr::Raw(ms("x.Y"), b)], ..small_code() }),
        _ => class_attr(MAttr::SourceDebugExtension(MStr(b.iter().map(|x| (x & 0x7f) as u16).collect()))),
    };
    judge("bytes of an attribute", n, usize::MAX, &m, seed, ctx)?;
    pass(true, mix(n as u64, which))
}

fn c16(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    match src.below(20) {
        0..=8 => {
            let (what, limit, f) = *src.pick(TABLES);
            let n = around(src, limit);
            let seed = src.u64();
            checkpoint(src);
            judge(what, n, limit, &f(n), seed, ctx)?;
            Ok(Pass { nontrivial: true, digest: mix(hash_bytes(what.as_bytes()), n as u64), sample: if ctx.want_sample { Some(format!("{} {}", n, what)) } else { None } })
        }
        9..=13 => strings(src, ctx),
        14..=16 => code_len(src, ctx),
        17 => pool_size(src, ctx),
        18 => frames(src, ctx),
        _ => big_raw(src, ctx),
    }
}

pub static C16: Check = Check {
    id: "C16",
    quick: 5_000,
    thorough: 100_000,
    rule: "a case is one counter or length of the format (47 tables, 22 string positions, code length in 7 shapes, pool size, frame lists, attribute bytes) at, just below, just above or far above its limit, including counts that wrap to small ones; every case is non-trivial",
    assumptions: &["attribute lengths beyond 4 GB are out of reach"],
    level: "exploration",
    run: c16,
    hang_s: 300,
};
