//! C17: readers and writers that fail, stop short, interrupt or dribble.

use std::io::{self, ErrorKind, Read, Write};

use coffer::clazz::Class;
use coffer::ReadWrite;

use crate::cmp;
use crate::conv;
use crate::enc;
use crate::engine::*;
use crate::gen::{self, Focus};
use crate::model::*;

type R<T> = Result<T, String>;

#[derive(Clone, Debug)]
struct Pattern {
    seed: u64,
    /// largest chunk
    max: usize,
    /// one call in this many is interrupted; 0: none
    interrupt: u64,
}
impl Pattern {
    fn gen(src: &mut Source) -> Pattern {
        Pattern { seed: src.u64(), max: *src.pick(&[1, 2, 3, 5, 8, 64, 1000]), interrupt: *src.pick(&[0, 0, 2, 3, 7]) }
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
];

struct Src<'a> {
    b: &'a [u8],
    p: usize,
    rng: Rng,
    pat: Pattern,
    /// fail once this many bytes were delivered
    fail: Option<(usize, ErrorKind)>,
    failed: bool,
    last_int: bool,
}
impl<'a> Src<'a> {
    fn new(b: &'a [u8], pat: &Pattern, fail: Option<(usize, ErrorKind)>) -> Src<'a> {
        Src { b, p: 0, rng: Rng::new(pat.seed), pat: pat.clone(), fail, failed: false, last_int: false }
    }
}
impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pat.interrupt > 0 && !self.last_int && self.rng.below(self.pat.interrupt) == 0 {
            self.last_int = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.last_int = false;
        let mut n = buf.len().min(1 + self.rng.below(self.pat.max as u64) as usize).min(self.b.len() - self.p);
        if let Some((at, k)) = self.fail {
            if self.p >= at {
                self.failed = true;
                return Err(k.into());
            }
            n = n.min(at - self.p);
        }
        buf[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

enum Stop {
    Never,
    Error(usize, ErrorKind),
    /// accept no more bytes
    Full(usize),
}
struct Dst {
    b: Vec<u8>,
    rng: Rng,
    pat: Pattern,
    stop: Stop,
    last_int: bool,
}
impl Dst {
    fn new(pat: &Pattern, stop: Stop) -> Dst {
        Dst { b: vec![], rng: Rng::new(pat.seed), pat: pat.clone(), stop, last_int: false }
    }
}
impl Write for Dst {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pat.interrupt > 0 && !self.last_int && self.rng.below(self.pat.interrupt) == 0 {
            self.last_int = true;
            return Err(ErrorKind::Interrupted.into());
        }
        self.last_int = false;
        let mut n = buf.len().min(1 + self.rng.below(self.pat.max as u64) as usize);
        match self.stop {
            Stop::Never => {}
            Stop::Error(at, k) => {
                if self.b.len() >= at {
                    return Err(k.into());
                }
                n = n.min(at - self.b.len());
            }
            Stop::Full(at) => n = n.min(at - self.b.len()),
        }
        self.b.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn try_read(r: &mut Src) -> R<Result<Class, coffer::Error>> {
    guard(|| <Class as ReadWrite>::read_from(r)).map_err(|p| format!("panic while reading: {}", p))
}
fn try_write(c: &Class, w: &mut Dst) -> R<Result<(), coffer::Error>> {
    guard(|| c.write_to(w)).map_err(|p| format!("panic while writing: {}", p))
}

fn c17(src: &mut Source, ctx: &mut Ctx) -> CaseResult {
    let focus = *src.pick(&[Focus::All, Focus::Attr, Focus::Position, Focus::Anno, Focus::Dyn, Focus::Insn]);
    let m: MClass = gen::gen_class(src, focus);
    let seed = src.u64();
    let lseed = src.u64();
    let pats: Vec<Pattern> = (0..3).map(|_| Pattern::gen(src)).collect();
    let kind = *src.pick(KINDS);
    let spots: Vec<u64> = (0..14).map(|_| src.u64()).collect();
    let tail = src.len(6);
    checkpoint(src);
    let e = enc::encode(&m, seed);
    let n = e.bytes.len();
    let digest = mix(super::class::digest(&m, seed), mix(pats[0].seed, spots[0]));
    let mut whole = e.bytes.clone();
    whole.extend((0..tail).map(|i| 0xC0 + i as u8));

    let (plain, used) = super::read(&whole).map_err(|x| format!("reading a well-formed class file fails: {}", x))?;
    if used != n {
        return Err(format!("reading consumed {} of {} bytes", used, n));
    }
    let want = conv::from_coffer(&plain)?;
    // any chunks, any interruptions, with or without something after it, or a fault after it
    for (i, p) in pats.iter().enumerate() {
        let fail = if i == 1 { Some((n, kind)) } else { None };
        let b = if i == 2 { &whole[..n] } else { &whole[..] };
        let mut r = Src::new(b, p, fail);
        let c = try_read(&mut r)?.map_err(|x| format!("reading fails ({}) with {:?}, though the bytes are the same", x, p))?;
        if r.p != n || r.failed {
            return Err(format!("reading took {} of {} bytes (asked for more: {}) with {:?}", r.p, n, r.failed, p));
        }
        let got = conv::from_coffer(&c)?;
        cmp::class(&want, &got).map_err(|x| format!("reading with {:?} gives another value: {}", p, x))?;
        ctx.count("chunked reads");
    }
    // cut short, and failing
    let mut cuts: Vec<usize> = if n <= 260 { (0..n).collect() } else { spots.iter().map(|x| (x % n as u64) as usize).collect() };
    for a in e.attrs.iter().take(40) {
        for p in [a.len_at, a.len_at + 4, a.len_at + 4 + a.len, a.len_at + 3 + a.len, (a.len_at + 4 + a.len).saturating_sub(2)] {
            if p < n && spots[p % 14] & 3 == 0 {
                cuts.push(p);
            }
        }
    }
    cuts.push(n - 1);
    cuts.push(n - 2);
    for (i, &k) in cuts.iter().enumerate() {
        let mut r = &e.bytes[..k];
        if guard(|| <Class as ReadWrite>::read_from(&mut r)).map_err(|p| format!("panic on the first {} of {} bytes: {}", k, n, p))?.is_ok() {
            return Err(format!("the first {} of {} bytes were read as a class", k, n));
        }
        ctx.count("prefixes refused");
        if i % 4 == 0 {
            let mut r = Src::new(&whole, &pats[i % 3], Some((k, kind)));
            if try_read(&mut r)?.is_ok() {
                return Err(format!("a reader failing with {:?} after {} of {} bytes was not reported", kind, k, n));
            }
            let mut r = Src::new(&e.bytes[..k], &pats[i % 3], None);
            if try_read(&mut r)?.is_ok() {
                return Err(format!("a chunked reader ending after {} of {} bytes was not reported", k, n));
            }
            ctx.count("read faults reported");
        }
    }
    // writing: from the value read, or from one built directly
    let value = if lseed & 1 == 0 { plain } else { conv::to_coffer(&m, lseed)? };
    let out = super::write(&value).map_err(|x| format!("writing fails: {}", x))?;
    for p in &pats {
        let mut w = Dst::new(p, Stop::Never);
        try_write(&value, &mut w)?.map_err(|x| format!("writing fails ({}) with {:?}", x, p))?;
        if w.b != out {
            return Err(format!("a writer accepting {:?} received {} bytes that differ from the {} of a buffer", p, w.b.len(), out.len()));
        }
        ctx.count("chunked writes");
    }
    let mut stops: Vec<usize> = if out.len() <= 120 { (0..out.len()).collect() } else { spots.iter().map(|x| (x % out.len() as u64) as usize).collect() };
    stops.push(0);
    stops.push(out.len() - 1);
    for (i, &k) in stops.iter().enumerate() {
        let (stop, what) = if i % 2 == 0 { (Stop::Error(k, kind), "failing") } else { (Stop::Full(k), "taking no more") };
        let mut w = Dst::new(&pats[i % 3], stop);
        if try_write(&value, &mut w)?.is_ok() {
            return Err(format!("a writer {} after {} of {} bytes was not reported", what, k, out.len()));
        }
        if out[..w.b.len()] != w.b[..] {
            return Err(format!("before its fault at {} the writer received other bytes", k));
        }
        ctx.count("write faults reported");
    }
    Ok(Pass { nontrivial: n > 60, digest, sample: if ctx.want_sample { Some(format!("{} bytes, {:?}, faults {:?}, {:?}", n, pats[0], kind, &cuts[..cuts.len().min(8)])) } else { None } })
}

pub static C17: Check = Check {
    id: "C17",
    quick: 110_000,
    thorough: 2_000_000,
    rule: "a case is a random class read through three chunking/interruption patterns, cut and failed at up to 40 positions (all of them for small classes, attribute boundaries otherwise), and written through chunking writers and writers that fail or fill up; non-trivial: the file has more than 60 bytes",
    assumptions: &["interruptions are followed by progress"],
    level: "exploration",
    run: c17,
    hang_s: 120,
};
