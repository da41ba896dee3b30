//! P16: references to labels and symbols, through the writer, the in-memory linker, and object files linked by a
//! linker written from the psABI and by GNU ld.
use crate::common::guarded;
use crate::harness::{par, Opts, Report};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use xten::asm::*;
use xten::jit;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Sec {
    T,
    D,
    R,
    B,
}
use Sec::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Anon(Sec),
    Local(Sec),
    Global(Sec),
    /// named, defined elsewhere
    Ext,
    /// named, defined nowhere
    Missing,
    /// unnamed and never defined
    Lost,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Ref {
    sec: Sec,
    label: usize,
    ty: RelocType,
    addend: i64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Item {
    Def(usize),
    Use(Ref),
    Gap(Sec, u32),
    Align(Sec, u64),
}

#[derive(Clone, Debug)]
struct Prog {
    kinds: Vec<Kind>,
    items: Vec<Item>,
}

fn size(ty: RelocType) -> usize {
    match ty {
        RelocType::PcRel8 => 1,
        RelocType::Abs64 => 8,
        _ => 4,
    }
}

/// Where everything is meant to be, computed without the writer.
struct Plan {
    bytes: [Vec<u8>; 4], // contents with holes of zeros where references go (bss: length only)
    def: Vec<Option<(Sec, u64)>>,
    refs: Vec<(Ref, u64)>,
    aligned: Vec<(Sec, u64, u64)>,
    filled: Vec<Vec<bool>>, // positions of references
}

const FILL: u8 = 0xcc;

fn plan(p: &Prog) -> Plan {
    let mut s = Plan { bytes: Default::default(), def: vec![None; p.kinds.len()], refs: vec![], aligned: vec![], filled: vec![] };
    for it in &p.items {
        match *it {
            Item::Def(l) => {
                if let Kind::Anon(x) | Kind::Local(x) | Kind::Global(x) = p.kinds[l] {
                    s.def[l] = Some((x, s.bytes[x as usize].len() as u64));
                }
            }
            Item::Use(r) => {
                let b = &mut s.bytes[r.sec as usize];
                s.refs.push((r, b.len() as u64));
                b.extend(std::iter::repeat(FILL).take(size(r.ty)));
            }
            Item::Gap(x, n) => s.bytes[x as usize].extend(std::iter::repeat(FILL).take(n as usize)),
            Item::Align(x, a) => {
                let b = &mut s.bytes[x as usize];
                while b.len() as u64 % a != 0 {
                    b.push(if x == T { 0x90 } else { 0 });
                }
                s.aligned.push((x, b.len() as u64, a));
            }
        }
    }
    s.filled = s.bytes.iter().map(|b| vec![false; b.len()]).collect();
    for (r, at) in &s.refs {
        for k in 0..size(r.ty) {
            s.filled[r.sec as usize][*at as usize + k] = true;
        }
    }
    s
}

fn name(uid: &str, l: usize, k: Kind) -> Option<String> {
    match k {
        Kind::Local(_) | Kind::Global(_) => Some(format!("n{}_{}", l, uid)),
        Kind::Ext => Some(format!("ext{}", l)),
        Kind::Missing => Some(format!("missing{}", l)),
        _ => None,
    }
}

/// Drives the real writer; global markers `m<sec>_<uid>` stand at the start of each section.
fn build(p: &Prog, uid: &str) -> std::io::Result<Object> {
    let mut w = Writer::new();
    for (s, n) in [(T, "t"), (D, "d"), (R, "r"), (B, "b")] {
        let l = w.get_label(&format!("m{}_{}", n, uid));
        match s {
            T => w.text().define(l, true),
            D => w.data().define(l, true),
            R => w.rodata().define(l, true),
            B => w.bss().define(l, true),
        };
    }
    let labels: Vec<Label> = p.kinds.iter().enumerate().map(|(i, &k)| match name(uid, i, k) {
        Some(n) => w.get_label(&n),
        None => w.issue_label(),
    }).collect();
    for it in &p.items {
        match *it {
            Item::Def(l) => {
                let (s, g) = match p.kinds[l] {
                    Kind::Anon(s) | Kind::Local(s) => (s, false),
                    Kind::Global(s) => (s, true),
                    _ => continue,
                };
                match s {
                    T => w.define(labels[l], g),
                    D => w.data().define(labels[l], g),
                    R => w.rodata().define(labels[l], g),
                    B => w.bss().define(labels[l], g),
                };
            }
            Item::Use(r) => {
                let n = size(r.ty);
                let b = vec![FILL; n];
                match r.sec {
                    T => {
                        w.write_all(&b)?;
                        w.use_relative(-(n as i64), labels[r.label], r.addend, r.ty);
                    }
                    D => {
                        let mut d = w.data();
                        d.write_all(&b)?;
                        d.use_relative(-(n as i64), labels[r.label], r.addend, r.ty);
                    }
                    R => {
                        let mut d = w.rodata();
                        d.write_all(&b)?;
                        d.use_relative(-(n as i64), labels[r.label], r.addend, r.ty);
                    }
                    B => unreachable!(),
                }
            }
            Item::Gap(s, n) => {
                let b = vec![FILL; n as usize];
                match s {
                    T => w.write_all(&b)?,
                    D => w.data().write_all(&b)?,
                    R => w.rodata().write_all(&b)?,
                    B => w.bss().allocate(n as u64)?,
                }
            }
            Item::Align(s, a) => match s {
                T => w.align(a)?,
                D => w.data().align(a)?,
                R => w.rodata().align(a)?,
                B => w.bss().align(a)?,
            },
        }
    }
    w.produce()
}

/// A memory in which the program has been placed.
trait Mem {
    fn base(&self, s: Sec) -> u64;
    fn ext(&self, l: usize) -> u64;
    fn read(&self, a: u64, n: usize) -> Option<Vec<u8>>;
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, &x| a << 8 | x as u64)
}

/// Checks contents, alignment and every reference of the placed program.
fn verify(p: &Prog, s: &Plan, m: &dyn Mem) -> Result<(), String> {
    let addr = |l: usize| match s.def[l] {
        Some((x, pos)) => m.base(x) + pos,
        None => m.ext(l),
    };
    for &(x, pos, a) in &s.aligned {
        if a <= 16 && (m.base(x) + pos) % a != 0 {
            return Err(format!("{:?}+{} is aligned to {} but loaded at {:#x}", x, pos, a, m.base(x) + pos));
        }
    }
    for x in [T, D, R] {
        let want = &s.bytes[x as usize];
        let got = m.read(m.base(x), want.len()).ok_or_else(|| format!("the contents of {:?} are not in memory", x))?;
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            if !s.filled[x as usize][i] && w != g {
                return Err(format!("byte {} of {:?} is {:#x} instead of {:#x}", i, x, g, w));
            }
        }
    }
    let bss = m.read(m.base(B), s.bytes[B as usize].len()).ok_or("bss is not in memory")?;
    if bss.iter().any(|&b| b != 0) {
        return Err("bss is not zero".into());
    }
    for &(r, pos) in &s.refs {
        let at = m.base(r.sec) + pos;
        let b = m.read(at, size(r.ty)).unwrap();
        let target = addr(r.label);
        let what = |got: u64| format!("the reference {:?} at {:#x} yields {:#x} (label at {:#x}) in {:?}", r, at, got, target, p);
        match r.ty {
            RelocType::Abs64 => {
                if le(&b) != target.wrapping_add(r.addend as u64) {
                    return Err(what(le(&b)));
                }
            }
            RelocType::PcRel8 | RelocType::PcRel32 => {
                let v = if r.ty == RelocType::PcRel8 { b[0] as i8 as i64 } else { le(&b) as u32 as i32 as i64 };
                if at.wrapping_add(v as u64) != target.wrapping_add(r.addend as u64) {
                    return Err(what(at.wrapping_add(v as u64)));
                }
            }
            RelocType::PcRelToAddressTable32 => {
                let v = le(&b) as u32 as i32 as i64;
                let slot = at.wrapping_add(v as u64).wrapping_sub(r.addend as u64);
                match m.read(slot, 8) {
                    Some(e) if le(&e) == target => {}
                    Some(e) => return Err(what(le(&e))),
                    None => return Err(format!("no address table entry at {:#x}: {}", slot, what(0))),
                }
            }
        }
    }
    Ok(())
}

/// What has to be refused: by the writer, by whoever links, or not at all.
#[derive(PartialEq, Debug)]
enum Fate {
    Fine,
    Refused,
    Either,
}

fn fate(p: &Prog, s: &Plan, near: bool) -> Fate {
    let mut f = Fate::Fine;
    for &(r, pos) in &s.refs {
        match p.kinds[r.label] {
            Kind::Lost | Kind::Missing => return Fate::Refused,
            // the address table has entries for symbols only
            Kind::Anon(_) if r.ty == RelocType::PcRelToAddressTable32 => return Fate::Refused,
            _ => {}
        }
        if r.ty == RelocType::PcRel8 {
            match s.def[r.label] {
                Some((x, d)) if x == r.sec => {
                    let v = d as i64 + r.addend - pos as i64;
                    if !(-128..=127).contains(&v) {
                        return Fate::Refused;
                    }
                }
                // other sections may happen to be within reach
                _ if near => f = Fate::Either,
                _ => return Fate::Refused,
            }
        }
    }
    if p.kinds.contains(&Kind::Missing) && f == Fate::Fine {
        f = Fate::Either; // named but not used
    }
    f
}

// ---- in memory

static EXT: [u64; 4] = [11, 22, 33, 44];

fn resolve(s: &str) -> *const u8 {
    match s.strip_prefix("ext").and_then(|n| n.parse::<usize>().ok()) {
        Some(n) => unsafe { low_ext().add(n * 8) },
        None => std::ptr::null(),
    }
}

/// A page within reach of 32-bit displacements from the linker's segments, for the external symbols.
fn low_ext() -> *const u8 {
    use std::sync::OnceLock;
    static P: OnceLock<usize> = OnceLock::new();
    *P.get_or_init(|| {
        let m = xten::jit::mmap::Mmap::new(1, xten::jit::mmap::Protect::ReadWrite, true).unwrap();
        let p = m.as_ptr();
        unsafe { std::ptr::copy(EXT.as_ptr() as *const u8, p, 32) };
        std::mem::forget(m);
        p as usize
    }) as *const u8
}

struct Placed {
    base: [u64; 4],
}

impl Mem for Placed {
    fn base(&self, s: Sec) -> u64 {
        self.base[s as usize]
    }
    fn ext(&self, l: usize) -> u64 {
        low_ext() as u64 + l as u64 * 8
    }
    fn read(&self, a: u64, n: usize) -> Option<Vec<u8>> {
        if n == 0 {
            return Some(vec![]);
        }
        if !mapped(a, n) {
            return None;
        }
        Some(unsafe { std::slice::from_raw_parts(a as *const u8, n) }.to_vec())
    }
}

/// Whether the pages are there (write to a pipe from them).
fn mapped(a: u64, n: usize) -> bool {
    thread_local! {
        static P: std::cell::RefCell<(Vec<u64>, i32)> = RefCell::new((vec![], -1));
    }
    use std::cell::RefCell;
    let _ = &P;
    extern "C" {
        fn mincore(a: *const u8, n: usize, v: *mut u8) -> i32;
    }
    let lo = a & !4095;
    let hi = (a + n as u64 + 4095) & !4095;
    let mut v = vec![0u8; ((hi - lo) / 4096) as usize];
    unsafe { mincore(lo as *const u8, (hi - lo) as usize, v.as_mut_ptr()) == 0 }
}

fn place(e: &jit::Engine, uid: &str) -> Option<Placed> {
    let mut base = [0; 4];
    for (i, n) in ["t", "d", "r", "b"].iter().enumerate() {
        base[i] = e.get(&format!("m{}_{}", n, uid))? as u64;
    }
    Some(Placed { base })
}

fn load(e: &mut jit::Engine, p: &Prog, uid: &str) -> Result<(), String> {
    let o = guarded(uid, || build(p, uid)).map_err(|m| format!("panic: {}", m))?.map_err(|m| m.to_string())?;
    guarded(uid, std::panic::AssertUnwindSafe(|| e.add_object(&o))).map_err(|m| format!("panic: {}", m))?.map_err(|m| m.to_string())
}

fn judge(rep: &Report, part: &str, p: &Prog, s: &Plan, near: bool, r: Result<Result<(), String>, String>) -> bool {
    let show = || format!("{:?}", p);
    match (fate(p, s, near), r) {
        (Fate::Refused | Fate::Either, Err(_)) => true,
        (Fate::Refused, Ok(_)) => {
            rep.violation(&format!("{}/accepted", part), &format!("a reference that cannot be resolved is not reported in {}", show()), &show());
            false
        }
        (Fate::Fine, Err(e)) => {
            rep.violation(&format!("{}/refused", part), &format!("{} is refused: {}", show(), e), &show());
            false
        }
        (_, Ok(Err(e))) => {
            rep.violation(&format!("{}/wrong", part), &e, &show());
            false
        }
        (_, Ok(Ok(()))) => true,
    }
}

fn run_jit(rep: &Report, p: &Prog) {
    let s = plan(p);
    let mut e: jit::Engine = jit::Engine::new(resolve);
    let r = load(&mut e, p, "u").map(|_| match place(&e, "u") {
        Some(m) => verify(p, &s, &m),
        None => Err("a global symbol of the object cannot be looked up".into()),
    });
    judge(rep, "jit", p, &s, true, r);
}

// ---- object files

/// An ELF relocatable file, read by the specification.
struct Obj {
    secs: Vec<(String, u32, u64, u64, Vec<u8>, u64, u32, u32)>, // name, type, flags, size, bytes, align, link, info
    syms: Vec<(String, u8, u16, u64)>,                          // name, info, shndx, value
    relas: Vec<(usize, u64, u32, u32, i64)>,                    // section, offset, type, symbol, addend
}

fn parse(f: &[u8]) -> Result<Obj, String> {
    let g = |o: usize, n: usize| -> Result<u64, String> { f.get(o..o + n).map(le).ok_or_else(|| format!("the file ends before {}", o + n)) };
    if f.get(0..7) != Some(&[0x7f, b'E', b'L', b'F', 2, 1, 1]) || g(16, 2)? != 1 || g(18, 2)? != 62 || g(20, 4)? != 1 || g(0x34, 2)? != 64 || g(0x3a, 2)? != 64 {
        return Err("the file header is wrong".into());
    }
    let (shoff, shnum, shstr) = (g(0x28, 8)? as usize, g(0x3c, 2)? as usize, g(0x3e, 2)? as usize);
    if shoff % 8 != 0 {
        return Err("the section headers are not aligned".into());
    }
    let mut raw = vec![];
    for i in 0..shnum {
        let h = shoff + i * 64;
        let (nm, ty, fl, off, sz, link, info, al, es) = (g(h, 4)?, g(h + 4, 4)? as u32, g(h + 8, 8)?, g(h + 0x18, 8)? as usize, g(h + 0x20, 8)?, g(h + 0x28, 4)? as u32, g(h + 0x2c, 4)? as u32, g(h + 0x30, 8)?, g(h + 0x38, 8)?);
        let body = if ty == 8 || ty == 0 { vec![] } else { f.get(off..off + sz as usize).ok_or("a section lies outside the file")?.to_vec() };
        if off < 64 && ty != 0 && sz > 0 {
            return Err("a section overlaps the header".into());
        }
        raw.push((nm as usize, ty, fl, sz, body, al, link, info, es));
    }
    let cstr = |t: &[u8], o: usize| -> Result<String, String> {
        let r = t.get(o..).ok_or("a name lies outside its table")?;
        let n = r.iter().position(|&b| b == 0).ok_or("a name does not end")?;
        Ok(String::from_utf8_lossy(&r[..n]).into_owned())
    };
    let strs = raw.get(shstr).ok_or("no section names")?.4.clone();
    let mut o = Obj { secs: vec![], syms: vec![], relas: vec![] };
    for r in &raw {
        o.secs.push((cstr(&strs, r.0)?, r.1, r.2, r.3, r.4.clone(), r.5, r.6, r.7));
    }
    for r in raw.iter() {
        if r.1 == 2 {
            let st = &raw.get(r.6 as usize).ok_or("no symbol names")?.4;
            for (i, c) in r.4.chunks(24).enumerate() {
                let s = (cstr(st, le(&c[0..4]) as usize)?, c[4], le(&c[6..8]) as u16, le(&c[8..16]));
                if (s.1 >> 4 == 0) != (i < r.7 as usize) {
                    return Err(format!("symbol {} is on the wrong side of the boundary between local and global symbols", s.0));
                }
                o.syms.push(s);
            }
        }
    }
    for r in raw.iter() {
        if r.1 == 4 {
            if r.8 != 24 || raw.get(r.6 as usize).map_or(true, |s| s.1 != 2) {
                return Err("a relocation section is malformed".into());
            }
            for c in r.4.chunks(24) {
                let info = le(&c[8..16]);
                if (info >> 32) as usize >= o.syms.len() {
                    return Err("a relocation names no symbol".into());
                }
                o.relas.push((r.7 as usize, le(&c[0..8]), info as u32, (info >> 32) as u32, le(&c[16..24]) as i64));
            }
        }
    }
    Ok(o)
}

struct Linked {
    base: [u64; 4],
    mem: BTreeMap<u64, Vec<u8>>,
    ext: u64,
}

impl Mem for Linked {
    fn base(&self, s: Sec) -> u64 {
        self.base[s as usize]
    }
    fn ext(&self, l: usize) -> u64 {
        self.ext + l as u64 * 8
    }
    fn read(&self, a: u64, n: usize) -> Option<Vec<u8>> {
        if n == 0 {
            return Some(vec![]);
        }
        let (b, v) = self.mem.range(..=a).next_back()?;
        let o = (a - b) as usize;
        v.get(o..o + n).map(|s| s.to_vec())
    }
}

/// Links one file by the psABI: `base` gives where each section goes.
fn link(f: &[u8], at: [u64; 4]) -> Result<Linked, String> {
    let o = parse(f)?;
    let mut l = Linked { base: at, mem: BTreeMap::new(), ext: 0x900000 };
    let mut where_ = HashMap::new();
    for (i, s) in o.secs.iter().enumerate() {
        let k = match &s.0[..] {
            ".text" => (0, 1, 6),
            ".data" => (1, 1, 3),
            ".rodata" => (2, 1, 2),
            ".bss" => (3, 8, 3),
            _ => continue,
        };
        if s.1 != k.1 || s.2 != k.2 {
            return Err(format!("section {} has type {} and flags {:#x}", s.0, s.1, s.2));
        }
        if s.5 < 16 {
            return Err(format!("section {} is aligned to {} only", s.0, s.5));
        }
        where_.insert(i, at[k.0]);
        l.mem.insert(at[k.0], if s.1 == 8 { vec![0; s.3 as usize] } else { s.4.clone() });
    }
    let mut got: HashMap<u32, u64> = HashMap::new();
    let mut table = vec![];
    let mut names = HashSet::new();
    for s in &o.syms {
        if s.1 >> 4 == 1 && !names.insert(s.0.clone()) {
            return Err(format!("two global symbols named {}", s.0));
        }
    }
    let value = |i: u32| -> Result<u64, String> {
        let s = &o.syms[i as usize];
        match s.2 {
            0 => match s.0.strip_prefix("ext").and_then(|n| n.parse::<u64>().ok()) {
                Some(n) => Ok(0x900000 + n * 8),
                None => Err(format!("undefined symbol {}", s.0)),
            },
            x => where_.get(&(x as usize)).map(|b| b + s.3).ok_or_else(|| format!("symbol {} is in no section", s.0)),
        }
    };
    for (n, k) in [("mt_u", 0), ("md_u", 1), ("mr_u", 2), ("mb_u", 3)] {
        let i = o.syms.iter().position(|s| s.0 == n && s.1 >> 4 == 1).ok_or("a global symbol is missing")?;
        if value(i as u32)? != at[k] {
            return Err(format!("symbol {} is not at the start of its section", n));
        }
    }
    let mut undefined = o.syms.iter().enumerate().filter(|(i, s)| *i > 0 && s.2 == 0 && value(*i as u32).is_err());
    if let Some((_, s)) = undefined.next() {
        return Err(format!("undefined symbol {}", s.0));
    }
    for &(sec, off, ty, sym, add) in &o.relas {
        let base = *where_.get(&sec).ok_or("a relocation applies to no section")?;
        let p = base + off;
        let s = value(sym)?;
        let (v, n): (i128, usize) = match ty {
            1 => ((s as i64).wrapping_add(add) as i128, 8),
            2 => (s as i128 + add as i128 - p as i128, 4),
            15 => (s as i128 + add as i128 - p as i128, 1),
            9 => {
                let slot = *got.entry(sym).or_insert_with(|| {
                    table.push(s);
                    0xa00000 + 8 * (table.len() as u64 - 1)
                });
                (slot as i128 + add as i128 - p as i128, 4)
            }
            t => return Err(format!("relocation type {} ", t)),
        };
        if n < 8 && !(-(1i128 << (8 * n - 1))..(1i128 << (8 * n - 1))).contains(&v) {
            return Err("relocation truncated to fit".into());
        }
        let m = l.mem.get_mut(&base).unwrap();
        let d = m.get_mut(off as usize..off as usize + n).ok_or("a relocation applies outside its section")?;
        d.copy_from_slice(&(v as u64).to_le_bytes()[..n]);
    }
    let mut bytes = vec![];
    for t in table {
        bytes.extend(t.to_le_bytes());
    }
    l.mem.insert(0xa00000, bytes);
    Ok(l)
}

fn elf_bytes(p: &Prog, uid: &str) -> Result<Vec<u8>, String> {
    let o = guarded(uid, || build(p, uid)).map_err(|m| format!("panic: {}", m))?.map_err(|m| m.to_string())?;
    guarded(uid, || {
        let mut v = vec![];
        xten::elf::adapter::into_relocatable_object("case.o", o).write(&mut v).map(|_| v)
    })
    .map_err(|m| format!("panic: {}", m))?
    .map_err(|m| m.to_string())
}

fn run_elf(rep: &Report, p: &Prog) {
    let s = plan(p);
    let r = elf_bytes(p, "u").and_then(|f| match link(&f, [0x400000, 0x600000, 0x500000, 0x700000]) {
        Ok(l) => Ok(verify(p, &s, &l)),
        Err(e) if ["undefined symbol missing", "relocation truncated"].iter().any(|k| e.starts_with(k)) => Err(e),
        Err(e) => Ok(Err(format!("{} in {:?}", e, p))),
    });
    judge(rep, "elf", p, &s, false, r);
}

// ---- the enumerated programs

const TYPES: [RelocType; 4] = [RelocType::PcRel8, RelocType::PcRel32, RelocType::PcRelToAddressTable32, RelocType::Abs64];

fn one_ref(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let mut kinds = vec![Kind::Ext, Kind::Missing, Kind::Lost];
    for s in [T, D, R, B] {
        kinds.extend([Kind::Anon(s), Kind::Local(s), Kind::Global(s)]);
    }
    let gaps: Vec<u32> = if thorough { (0..140).chain([252, 256, 300, 4095, 4096, 70000]).collect() } else { vec![0, 1, 3, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 255, 300, 4096, 70000] };
    for &k in &kinds {
        let ds = match k {
            Kind::Anon(s) | Kind::Local(s) | Kind::Global(s) => s,
            _ => T,
        };
        for sec in [T, D, R] {
            for ty in TYPES {
                for addend in [0, -4, 3] {
                    for &g in &gaps {
                        for lead in [0, 5] {
                            let u = Item::Use(Ref { sec, label: 0, ty, addend });
                            let pre = [Item::Gap(sec, lead), Item::Gap(ds, lead)];
                            let mid = Item::Gap(if g % 2 == 0 { sec } else { ds }, g);
                            let tail = [Item::Gap(sec, 2), Item::Gap(ds, 1)];
                            for order in [[Item::Def(0), mid, u], [u, mid, Item::Def(0)]] {
                                let mut items = pre.to_vec();
                                items.extend(order);
                                items.extend(tail);
                                v.push(Prog { kinds: vec![k], items });
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

fn two_refs(thorough: bool) -> Vec<Prog> {
    let mut kinds = vec![Kind::Ext];
    for s in if thorough { vec![T, D, R, B] } else { vec![T, D, B] } {
        kinds.extend([Kind::Anon(s), Kind::Local(s), Kind::Global(s)]);
    }
    let mut uses = vec![];
    for label in 0..2 {
        for sec in if thorough { vec![T, D, R] } else { vec![T, D] } {
            for ty in TYPES {
                uses.push(Ref { sec, label, ty, addend: if label == 0 { -4 } else { 1 } });
            }
        }
    }
    let mut v = vec![];
    for &k0 in &kinds {
        for &k1 in &kinds {
            for &u0 in &uses {
                for &u1 in &uses {
                    for order in 0..6 {
                        let (a, b, c, d) = (Item::Def(0), Item::Def(1), Item::Use(u0), Item::Use(u1));
                        let it = match order {
                            0 => [a, b, c, d],
                            1 => [c, d, a, b],
                            2 => [a, c, b, d],
                            3 => [c, a, d, b],
                            4 => [c, a, b, d],
                            _ => [a, c, d, b],
                        };
                        let mut items = vec![];
                        for (n, i) in it.into_iter().enumerate() {
                            items.push(i);
                            items.push(Item::Gap([T, D, R, B][n], 3 + n as u32));
                        }
                        v.push(Prog { kinds: vec![k0, k1], items });
                    }
                }
            }
        }
    }
    v
}

fn aligned() -> Vec<Prog> {
    let mut v = vec![];
    for s in [T, D, R, B] {
        for n in 0..=33 {
            for a in [1, 2, 4, 8, 16, 32] {
                for u in [T, D] {
                    v.push(Prog {
                        kinds: vec![Kind::Global(s), Kind::Anon(s)],
                        items: vec![
                            Item::Gap(s, n),
                            Item::Align(s, a),
                            Item::Def(0),
                            Item::Gap(s, 7),
                            Item::Align(s, a),
                            Item::Align(s, a),
                            Item::Def(1),
                            Item::Gap(s, 4),
                            Item::Use(Ref { sec: u, label: 0, ty: RelocType::Abs64, addend: 0 }),
                            Item::Use(Ref { sec: u, label: 1, ty: RelocType::PcRel32, addend: -4 }),
                        ],
                    });
                }
            }
        }
    }
    v
}

// ---- GNU ld

fn run_ld(o: &Opts, rep: &Report, progs: &[Prog]) -> u64 {
    let n = AtomicU64::new(0);
    let dir = o.work.join("ld");
    std::fs::create_dir_all(&dir).unwrap();
    let good: Vec<(usize, &Prog)> = progs.iter().enumerate().filter(|(_, p)| fate(p, &plan(p), false) == Fate::Fine && p.kinds.iter().all(|k| *k != Kind::Missing)).collect();
    std::fs::write(dir.join("ext.s"), ".globl _start,ext0,ext1\n.data\next0: .quad 11\next1: .quad 22\n.text\n_start: ret\n").unwrap();
    let run = |c: &mut std::process::Command| c.current_dir(&dir).output().expect("binutils");
    run(std::process::Command::new("as").args(["-o", "ext.o", "ext.s"]));
    let chunk = 400;
    par(o.jobs, good.chunks(chunk).enumerate().collect(), |(c, batch)| {
        let mut files = vec!["ext.o".to_string()];
        for (i, p) in batch {
            let uid = format!("c{}", i);
            match elf_bytes(p, &uid) {
                Ok(b) => {
                    let f = format!("{}.o", uid);
                    std::fs::write(dir.join(&f), b).unwrap();
                    files.push(f);
                }
                Err(e) => rep.violation("ld/build", &format!("{:?}: {}", p, e), &format!("{:?}", p)),
            }
        }
        let out = format!("out{}", c);
        std::fs::write(dir.join(format!("{}.lst", out)), files.join("\n")).unwrap();
        let r = run(std::process::Command::new("ld").args(["--no-relax", "-z", "noexecstack", "-static", "-o", &out, &format!("@{}.lst", out)]));
        if !r.status.success() || !r.stderr.is_empty() && String::from_utf8_lossy(&r.stderr).lines().any(|l| !l.contains("GNU-stack")) {
            let e = String::from_utf8_lossy(&r.stderr);
            rep.violation("ld/refused", &format!("ld: {}", e.lines().next().unwrap_or("")), &format!("{:?}", batch[0].1));
        }
        if let Ok(f) = std::fs::read(dir.join(&out)) {
            match exe(&f) {
                Ok((mem, syms)) => {
                    for (i, p) in batch {
                        let uid = format!("c{}", i);
                        let mut base = [0; 4];
                        let mut ok = true;
                        for (k, m) in ["t", "d", "r", "b"].iter().enumerate() {
                            match syms.get(&format!("m{}_{}", m, uid)) {
                                Some(a) => base[k] = *a,
                                None => ok = false,
                            }
                        }
                        n.fetch_add(1, SeqCst);
                        let l = Linked { base, mem: mem.clone(), ext: syms["ext0"] };
                        if !ok {
                            rep.violation("ld/symbol", &format!("a global symbol is missing from the program linked from {:?}", p), &format!("{:?}", p));
                        } else if let Err(e) = verify(p, &plan(p), &l) {
                            rep.violation("ld/wrong", &e, &format!("{:?}", p));
                        }
                    }
                }
                Err(e) => rep.violation("ld/output", &e, "ld output"),
            }
        }
        for f in files.iter().skip(1) {
            std::fs::remove_file(dir.join(f)).ok();
        }
        std::fs::remove_file(dir.join(&out)).ok();
    });
    n.into_inner()
}

fn exe(f: &[u8]) -> Result<(BTreeMap<u64, Vec<u8>>, HashMap<String, u64>), String> {
    let g = |o: usize, n: usize| le(&f[o..o + n]);
    let mut mem = BTreeMap::new();
    for i in 0..g(0x38, 2) as usize {
        let h = g(0x20, 8) as usize + i * 56;
        if g(h, 4) == 1 {
            let (off, va, fs, ms) = (g(h + 8, 8) as usize, g(h + 16, 8), g(h + 32, 8) as usize, g(h + 40, 8) as usize);
            let mut b = f[off..off + fs].to_vec();
            b.resize(ms, 0);
            mem.insert(va, b);
        }
    }
    let sh = g(0x28, 8) as usize;
    let mut syms = HashMap::new();
    for i in 0..g(0x3c, 2) as usize {
        let h = sh + i * 64;
        if g(h + 4, 4) == 2 {
            let (off, sz) = (g(h + 0x18, 8) as usize, g(h + 0x20, 8) as usize);
            let st = sh + g(h + 0x28, 4) as usize * 64;
            let sto = g(st + 0x18, 8) as usize;
            for k in (off..off + sz).step_by(24) {
                let s = sto + g(k, 4) as usize;
                let e = s + f[s..].iter().position(|&b| b == 0).unwrap();
                syms.insert(String::from_utf8_lossy(&f[s..e]).into_owned(), g(k + 8, 8));
            }
        }
    }
    Ok((mem, syms))
}

// ---- histories of loads

fn objects() -> Vec<(&'static str, Prog)> {
    let u = |sec, label, ty, addend| Item::Use(Ref { sec, label, ty, addend });
    let (p32, got, abs) = (RelocType::PcRel32, RelocType::PcRelToAddressTable32, RelocType::Abs64);
    vec![
        ("small", Prog { kinds: vec![Kind::Global(T), Kind::Global(D)], items: vec![Item::Def(0), Item::Gap(T, 5), u(T, 1, p32, -4), u(T, 0, got, -4), Item::Gap(D, 3), Item::Def(1), u(D, 0, abs, 0), Item::Gap(R, 8)] }),
        ("near a page", Prog { kinds: vec![Kind::Anon(T), Kind::Local(R)], items: vec![Item::Gap(T, 4070), Item::Def(0), Item::Gap(R, 2), Item::Def(1), u(R, 0, abs, 1), Item::Gap(R, 4080), u(T, 1, got, -4), u(T, 1, p32, 0)] }),
        ("a page", Prog { kinds: vec![Kind::Local(B)], items: vec![u(T, 0, p32, -4), Item::Gap(T, 4092), u(D, 0, abs, 4), Item::Gap(D, 4088), Item::Gap(B, 16), Item::Def(0), Item::Gap(B, 4080), u(R, 0, abs, 0), Item::Gap(R, 4088)] }),
        ("more than a page", Prog { kinds: vec![Kind::Global(B), Kind::Ext], items: vec![u(T, 0, got, -4), Item::Gap(T, 5000), u(T, 1, got, 0), Item::Gap(B, 9000), Item::Def(0), Item::Gap(B, 1), Item::Gap(R, 4097), u(D, 1, abs, 8)] }),
        ("empty", Prog { kinds: vec![], items: vec![] }),
        ("only rodata", Prog { kinds: vec![Kind::Local(R), Kind::Ext], items: vec![Item::Gap(R, 1), Item::Def(0), u(R, 0, abs, 0), u(R, 1, p32, 4)] }),
        ("only bss", Prog { kinds: vec![Kind::Global(B)], items: vec![Item::Gap(B, 17), Item::Def(0), Item::Gap(B, 15)] }),
        ("unresolved", Prog { kinds: vec![Kind::Missing, Kind::Global(T)], items: vec![Item::Gap(T, 40), Item::Def(1), u(T, 1, got, -4), u(T, 0, p32, -4), Item::Gap(D, 4000)] }),
    ]
}

/// Objects that refer to each other by name: `x` and `y` are the only shared names.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Shared {
    x: char, // d = defines globally, l = defines locally, u = uses, - = does not mention
    y: char,
}

fn shared(e: &mut jit::Engine, uid: usize, s: Shared) -> Result<Vec<(u64, char, u64)>, String> {
    // returns (address of the reference, kind, base of text) of each use
    let r = guarded("shared", || -> std::io::Result<(Object, Vec<(&'static str, u64, char)>)> {
        let mut w = Writer::new();
        let b = w.get_label(&format!("base{}", uid));
        w.define(b, true);
        let mut uses = vec![];
        for (n, k) in [("x", s.x), ("y", s.y)] {
            if k == '-' {
                continue;
            }
            let l = w.get_label(n);
            for (t, ty) in [('p', RelocType::PcRel32), ('g', RelocType::PcRelToAddressTable32), ('a', RelocType::Abs64)] {
                uses.push((n, w.location().pos, t));
                let n = size(ty);
                w.write_all(&vec![FILL; n])?;
                w.use_relative(-(n as i64), l, 0, ty);
            }
            if k != 'u' {
                w.define(l, k == 'd');
                w.write_all(&(uid as u64 * 2 + (n == "y") as u64).to_le_bytes())?;
            }
        }
        Ok((w.produce()?, uses))
    });
    let (o, uses) = r.map_err(|m| format!("panic: {}", m))?.map_err(|m| m.to_string())?;
    guarded("add", std::panic::AssertUnwindSafe(|| e.add_object(&o))).map_err(|m| format!("panic: {}", m))?.map_err(|m| m.to_string())?;
    let base = e.get(&format!("base{}", uid)).ok_or("no base")? as u64;
    Ok(uses.iter().map(|&(n, p, t)| (base + p, if n == "x" { t } else { t.to_ascii_uppercase() }, base)).collect())
}

fn histories(o: &Opts, rep: &Report) {
    let objs = objects();
    let depth = if o.thorough { 5 } else { 4 };
    let n = objs.len();
    let total = (1..=depth as u32).map(|d| n.pow(d)).sum::<usize>();
    let steps = AtomicU64::new(0);
    let seqs: Vec<Vec<usize>> = (0..n.pow(depth as u32)).map(|mut c| (0..depth).map(|_| { let r = c % n; c /= n; r }).collect()).collect();
    par(o.jobs, seqs.chunks(64).collect(), |chunk: &[Vec<usize>]| {
        for q in chunk {
            let mut e: jit::Engine = jit::Engine::new(resolve);
            let mut live: Vec<(String, usize, Plan)> = vec![];
            for (i, &k) in q.iter().enumerate() {
                steps.fetch_add(1, SeqCst);
                let uid = format!("h{}", i);
                let s = plan(&objs[k].1);
                let what = || format!("loading {:?}", q.iter().map(|&k| objs[k].0).collect::<Vec<_>>());
                match (fate(&objs[k].1, &s, true), load(&mut e, &objs[k].1, &uid)) {
                    (Fate::Refused, Ok(())) => rep.violation("history/accepted", &format!("{}: an unresolved reference is not reported", what()), &what()),
                    (Fate::Fine, Err(m)) => rep.violation("history/refused", &format!("{}: {}", what(), m), &what()),
                    (_, Ok(())) => live.push((uid, k, s)),
                    _ => {}
                }
                for (uid, k, s) in &live {
                    let r = match place(&e, uid) {
                        Some(m) => verify(&objs[*k].1, s, &m).and_then(|_| prot(&m, s)),
                        None => Err("its symbols are gone".into()),
                    };
                    if let Err(m) = r {
                        rep.violation("history/wrong", &format!("{} after step {}: object {}: {}", what(), i, uid, m), &what());
                    }
                }
            }
        }
    });
    rep.cover("histories", &[("objects", n as u64), ("depth", depth as u64), ("histories", total as u64), ("transitions", steps.into_inner())], &[]);

    // shared names
    let mut alphabet = vec![];
    for x in ['-', 'd', 'l', 'u'] {
        for y in ['-', 'd', 'l', 'u'] {
            alphabet.push(Shared { x, y });
        }
    }
    let depth = if o.thorough { 4 } else { 3 };
    let n = alphabet.len();
    let steps = AtomicU64::new(0);
    let seqs: Vec<Vec<usize>> = (0..n.pow(depth as u32)).map(|mut c| (0..depth).map(|_| { let r = c % n; c /= n; r }).collect()).collect();
    par(o.jobs, seqs.chunks(64).collect(), |chunk: &[Vec<usize>]| {
        for q in chunk {
            for register in [false, true] {
                let mut e: jit::Engine = jit::Engine::new(|_: &str| std::ptr::null());
                let mut known: HashMap<char, u64> = HashMap::new(); // the value stored at the symbol
                let what = || format!("registered: {}, loads {:?}", register, q.iter().map(|&k| alphabet[k]).collect::<Vec<_>>());
                if register {
                    e.register("y", unsafe { low_ext().add(8) }).unwrap();
                    known.insert('y', 22);
                    if e.register("y", low_ext()).is_ok() {
                        rep.violation("shared/register", "registering a symbol twice is not reported", "register y twice");
                    }
                }
                let mut live: Vec<(u64, char, u64)> = vec![]; // address, kind, expected value
                for (i, &k) in q.iter().enumerate() {
                    steps.fetch_add(1, SeqCst);
                    let s = alphabet[k];
                    let mut fine = true;
                    let mut mine = known.clone();
                    let mut bound = vec![];
                    for (c, m) in [('x', s.x), ('y', s.y)] {
                        let v = i as u64 * 2 + (c == 'y') as u64;
                        match m {
                            'd' => {
                                fine &= !known.contains_key(&c);
                                mine.insert(c, v);
                                bound.push((c, v));
                            }
                            'l' => {
                                mine.insert(c, v);
                            }
                            'u' => fine &= known.contains_key(&c),
                            _ => {}
                        }
                    }
                    match (fine, shared(&mut e, i, s)) {
                        (true, Ok(v)) => {
                            known.extend(bound);
                            for (a, t, _) in v {
                                live.push((a, t, mine[&if t.is_ascii_lowercase() { 'x' } else { 'y' }]));
                            }
                        }
                        (true, Err(m)) => rep.violation("shared/refused", &format!("{}: load {} is refused: {}", what(), i, m), &what()),
                        (false, Ok(_)) => rep.violation("shared/accepted", &format!("{}: load {} is not reported", what(), i), &what()),
                        (false, Err(_)) => {}
                    }
                    for &(a, t, want) in &live {
                        let rd = |a: u64, n: usize| le(unsafe { std::slice::from_raw_parts(a as *const u8, n) });
                        let target = match t.to_ascii_lowercase() {
                            'p' => a.wrapping_add(rd(a, 4) as u32 as i32 as u64),
                            'g' => {
                                let slot = a.wrapping_add(rd(a, 4) as u32 as i32 as u64);
                                if mapped(slot, 8) { rd(slot, 8) } else { 0 }
                            }
                            _ => rd(a, 8),
                        };
                        if !mapped(target, 8) || rd(target, 8) != want {
                            rep.violation("shared/wrong", &format!("{}: after load {} the reference {} at {:#x} does not lead to {}", what(), i, t, a, want), &what());
                        }
                    }
                    if !fine {
                        break; // which symbols of a refused object are known is not specified
                    }
                }
            }
        }
    });
    rep.cover("shared names", &[("objects", n as u64), ("depth", depth as u64), ("transitions", steps.into_inner())], &[]);
}

/// Text is executable and not writable, data is writable and not executable, rodata neither.
fn prot(m: &Placed, s: &Plan) -> Result<(), String> {
    let maps = std::fs::read_to_string("/proc/self/maps").map_err(|e| e.to_string())?;
    for (x, want) in [(T, "r-x"), (D, "rw-"), (R, "r--"), (B, "rw-")] {
        let n = s.bytes[x as usize].len() as u64;
        if n == 0 {
            continue;
        }
        let a = m.base(x);
        for p in [a, a + n - 1] {
            let l = maps.lines().find(|l| {
                let (r, _) = l.split_once(' ').unwrap();
                let (lo, hi) = r.split_once('-').unwrap();
                u64::from_str_radix(lo, 16).unwrap() <= p && p < u64::from_str_radix(hi, 16).unwrap()
            });
            let got = l.map_or("none", |l| &l.split_once(' ').unwrap().1[..3]);
            if got != want {
                return Err(format!("{:?} is mapped {} instead of {}", x, got, want));
            }
        }
    }
    Ok(())
}

// ---- instructions that take labels

fn instructions(rep: &Report) -> u64 {
    let mut n = 0;
    let fill = |w: &mut Writer, k: usize| w.write_all(&vec![0x90; k]);
    // the label `far` bytes behind the end of the instruction, or before it
    macro_rules! form {
        ($name:expr, $w:ident, $l:ident, $with:expr, $d:ident, $rel:expr, $short:expr) => {
            for far in [0usize, 1, 5, 60, 100, 200, 70000] {
                for before in [false, true] {
                    n += 1;
                    let what = format!("{} to a label {} bytes {}", $name, far, if before { "before" } else { "behind" });
                    let direct = |$d: i64| -> Vec<u8> {
                        let mut v: Vec<u8> = vec![];
                        {
                            let $w = &mut v;
                            let _ = $rel;
                        }
                        v
                    };
                    let len = direct(0).len() as i64;
                    let r = guarded(&what, || -> std::io::Result<Object> {
                        let mut w = Writer::new();
                        let l0 = w.issue_label();
                        if before {
                            w.define(l0, false);
                            fill(&mut w, far)?;
                        }
                        {
                            let $l = l0;
                            let $w = &mut w;
                            $with?;
                        }
                        if !before {
                            fill(&mut w, far)?;
                            w.define(l0, false);
                        }
                        w.produce()
                    });
                    let d = if before { -(far as i64) - len } else { far as i64 };
                    let fits = !$short || (-128..=127).contains(&d);
                    let want = if fits { Some(direct(d)) } else { None };
                    let at = if before { far } else { 0 };
                    let got = match &r {
                        Ok(Ok(o)) if o.relocs.is_empty() => o.text.get(at..at + len as usize).map(|b| b.to_vec()),
                        Ok(Ok(_)) => Some(vec![]),
                        _ => None,
                    };
                    if got != want {
                        rep.violation(&format!("inst/{}", $name), &format!("{}: encoded as {:x?} instead of {:x?}", what, got, want), &what);
                    }
                }
            }
        };
    }
    macro_rules! jumps {
        ($($m:ident)*) => { $(
            form!(stringify!($m), w, l, w.$m(l), d, w.$m(d as i32), false);
            form!(concat!(stringify!($m), " short"), w, l, w.$m(Short(l)), d, w.$m(d as i8), true);
        )* };
    }
    jumps!(jmpq ja jae jb jbe jc je jg jge jl jle jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo js jz);
    form!("callq", w, l, w.callq(l), d, w.callq(d as i32), false);
    macro_rules! moves {
        ($($r:expr),*) => { $(
            form!(format!("movq {:?}, label", $r), w, l, w.movq($r, l), d, w.movq($r, memory(Rip + d as i32)), false);
            form!(format!("movq label, {:?}", $r), w, l, w.movq(l, $r), d, w.movq(memory(Rip + d as i32), $r), false);
        )* };
    }
    moves!(Rax, Rcx, Rbx, Rsp, Rbp, R8, R13, R15, Xmm0, Xmm7, Xmm8, Xmm15);
    for r in [Rax, Rdi, Rsp, R12] {
        form!(format!("leaq {:?}, label", r), w, l, w.leaq(r, l), d, w.leaq(r, memory(Rip + d as i32)), false);
    }
    for v in [0i32, 1, -1, 0x12345678] {
        form!(format!("movq label, {}", v), w, l, w.movq(l, v), d, w.movq(memory(Rip + d as i32), v), false);
    }
    // through the address table, executed
    for (i, name) in ["movq", "callq", "jmpq", "movq xmm"].iter().enumerate() {
        for lead in [0usize, 3, 5000] {
            n += 1;
            let what = format!("{} through the address table behind {} bytes", name, lead);
            let r = guarded(&what, || -> Result<u64, String> {
                let io = |e: std::io::Error| e.to_string();
                let mut e: jit::Engine = jit::Engine::new(|_: &str| std::ptr::null());
                let mut w = Writer::new();
                let f = w.get_label("f");
                fill(&mut w, lead).map_err(io)?;
                w.define(f, true);
                w.movl(Eax, 77i32).map_err(io)?;
                w.retq().map_err(io)?;
                e.add_object(&w.produce().map_err(io)?).map_err(|e| e.to_string())?;
                let mut w = Writer::new();
                let f = w.get_label("f");
                let g = w.get_label("g");
                fill(&mut w, lead).map_err(io)?;
                w.define(g, true);
                match i {
                    0 => {
                        w.movq(R11, AddressTable(f)).map_err(io)?;
                        w.jmpq(R11).map_err(io)?;
                    }
                    1 => {
                        w.subq(Rsp, 8i8).map_err(io)?;
                        w.callq(AddressTable(f)).map_err(io)?;
                        w.addq(Rsp, 8i8).map_err(io)?;
                        w.retq().map_err(io)?;
                    }
                    2 => w.jmpq(AddressTable(f)).map_err(io)?,
                    _ => {
                        w.movq(Xmm9, AddressTable(f)).map_err(io)?;
                        w.movq(R11, Xmm9).map_err(io)?;
                        w.jmpq(R11).map_err(io)?;
                    }
                }
                e.add_object(&w.produce().map_err(io)?).map_err(|e| e.to_string())?;
                let p = e.get("g").ok_or("no symbol")?;
                let f: extern "C" fn() -> u64 = unsafe { std::mem::transmute(p) };
                Ok(f())
            });
            if r != Ok(Ok(77)) {
                rep.violation(&format!("inst/{}", name), &format!("{}: {:?}", what, r), &what);
            }
        }
    }
    // a label cannot be defined twice, and a reference to nothing is reported
    let twice = |named: bool, g0: bool, g1: bool| {
        guarded("twice", || {
            let mut w = Writer::new();
            let l = if named { w.get_label("a") } else { w.issue_label() };
            w.define(l, g0);
            w.data().define(l, g1);
            w.produce().is_ok()
        })
    };
    for c in 0..8 {
        n += 1;
        if twice(c & 1 > 0, c & 2 > 0, c & 4 > 0) == Ok(true) {
            rep.violation("define twice", "a label defined twice is not reported", &format!("{}", c));
        }
    }
    n
}

/// References out of the 32-bit range, in memory.
fn far(rep: &Report) -> u64 {
    let mut n = 0;
    for ty in TYPES {
        for target in [0x7fff_0000_0000u64, 0x1_8000_0000, 0xffff_ffff_ffff_f000] {
            n += 1;
            let what = format!("{:?} to {:#x}", ty, target);
            let r = guarded(&what, || -> Result<u64, String> {
                let mut e: jit::Engine = jit::Engine::new(|_: &str| std::ptr::null());
                e.register("far", target as *const u8).map_err(|e| e.to_string())?;
                let mut w = Writer::new();
                let l = w.get_label("far");
                let g = w.get_label("g");
                w.define(g, true);
                w.write_all(&vec![0; size(ty)]).map_err(|e| e.to_string())?;
                w.use_relative(-(size(ty) as i64), l, 0, ty);
                e.add_object(&w.produce().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                let g = e.get("g").ok_or("no symbol")?;
                let b = unsafe { std::slice::from_raw_parts(g, size(ty)) };
                Ok(match ty {
                    RelocType::Abs64 => le(b),
                    RelocType::PcRelToAddressTable32 => unsafe { *((g as i64 + le(b) as u32 as i32 as i64) as *const u64) },
                    RelocType::PcRel8 => (g as u64).wrapping_add(b[0] as i8 as u64),
                    _ => (g as u64).wrapping_add(le(b) as u32 as i32 as u64),
                })
            });
            let reach = matches!(ty, RelocType::Abs64 | RelocType::PcRelToAddressTable32);
            match r {
                Ok(Ok(v)) if v == target => {}
                Ok(Err(_)) | Err(_) if !reach => {}
                r => rep.violation(&format!("far/{:?}", ty), &format!("{} gives {:x?}", what, r), &what),
            }
        }
    }
    n
}

pub fn main(o: &Opts, rep: &'static Report) {
    low_ext();
    let n = instructions(rep);
    rep.cover("instructions", &[("states", n), ("traces_validated_against_impl", n)], &[]);
    let n = far(rep);
    rep.cover("out of range", &[("states", n)], &[]);
    for (part, progs) in [("one reference", one_ref(o.thorough)), ("two references", two_refs(o.thorough)), ("alignment", aligned())] {
        par(o.jobs, progs.chunks(256).collect(), |c: &[Prog]| {
            for p in c {
                run_jit(rep, p);
                run_elf(rep, p);
            }
        });
        // the real linker, on an evenly spaced part of the programs in the quick tier
        let some: Vec<Prog> = if o.thorough { progs.clone() } else { progs.iter().step_by(if part == "two references" { 37 } else { 7 }).cloned().collect() };
        let ld = run_ld(o, rep, &some);
        rep.cover(part, &[("states", progs.len() as u64), ("transitions", 2 * progs.len() as u64), ("linked_by_ld", ld), ("traces_validated_against_impl", 2 * progs.len() as u64 + ld)], &[]);
    }
    histories(o, rep);
}
