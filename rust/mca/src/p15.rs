//! P15: every instruction form x operands; the bytes are decoded by GNU objdump, which must find exactly that
//! instruction, with those operands, in exactly those bytes.
use crate::harness::{par, Opts, Report};
use std::sync::Mutex;
pub use xten::asm::*;

/// How the decoder has to show an operand.
#[derive(Clone, Debug)]
pub enum Want {
    Text(String),
    Imm(i64, u32), // value, bits of the immediate
    Rel(i64),
}

pub struct Choice<T> {
    pub v: T,
    pub want: Want,
    pub rex: Rex,
}

/// What the operand asks of the REX prefix.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rex {
    Free,
    Needed,
    Denied,
}

pub trait Op: Sized {
    fn choices(f: &F) -> Vec<Choice<Self>>;
}

fn low(d: &impl std::fmt::Debug) -> String {
    format!("{:?}", d).to_lowercase()
}

pub const R64: [Gpr64; 16] = [Rax, Rcx, Rdx, Rbx, Rsp, Rbp, Rsi, Rdi, R8, R9, R10, R11, R12, R13, R14, R15];
const R32: [Gpr32; 16] = [Eax, Ecx, Edx, Ebx, Esp, Ebp, Esi, Edi, R8D, R9D, R10D, R11D, R12D, R13D, R14D, R15D];
const R16: [Gpr16; 16] = [Ax, Cx, Dx, Bx, Sp, Bp, Si, Di, R8W, R9W, R10W, R11W, R12W, R13W, R14W, R15W];
const R8S: [Gpr8; 20] = [Al, Cl, Dl, Bl, Ah, Ch, Dh, Bh, Spl, Bpl, Sil, Dil, R8B, R9B, R10B, R11B, R12B, R13B, R14B, R15B];
const XMM: [Xmm; 16] = [Xmm0, Xmm1, Xmm2, Xmm3, Xmm4, Xmm5, Xmm6, Xmm7, Xmm8, Xmm9, Xmm10, Xmm11, Xmm12, Xmm13, Xmm14, Xmm15];

macro_rules! regs {
    ($t:ty, $all:expr) => {
        impl Op for $t {
            fn choices(_: &F) -> Vec<Choice<Self>> {
                $all.iter()
                    .map(|&v| {
                        let s = low(&v);
                        let rex = if ["spl", "bpl", "sil", "dil"].contains(&&s[..]) || s.starts_with('r') && s.as_bytes()[1].is_ascii_digit()
                            || s.starts_with("xmm") && s[3..].parse::<u32>().unwrap() > 7
                        {
                            Rex::Needed
                        } else if ["ah", "ch", "dh", "bh"].contains(&&s[..]) {
                            Rex::Denied
                        } else {
                            Rex::Free
                        };
                        Choice { v, want: Want::Text(format!("%{}", s)), rex }
                    })
                    .collect()
            }
        }
    };
}
regs!(Gpr64, R64);
regs!(Gpr32, R32);
regs!(Gpr16, R16);
regs!(Gpr8, R8S);
regs!(Xmm, XMM);

macro_rules! imms {
    ($t:ty, $bits:expr, $($v:expr),*) => {
        impl Op for $t {
            fn choices(f: &F) -> Vec<Choice<Self>> {
                [$($v as $t),*]
                    .into_iter()
                    .map(|v| Choice { v, want: if f.rel { Want::Rel(v as i64) } else { Want::Imm(v as i64, $bits) }, rex: Rex::Free })
                    .collect()
            }
        }
    };
}
imms!(i8, 8, 0, 1, 2, 7, 8, 0x5a, 127, -128, -127, -1, -86);
imms!(i16, 16, 0, 1, 127, 128, 255, 256, 0x1234, 32767, -32768, -1, -128, -129, -256);
imms!(i32, 32, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x12345678, 0x7fffffff, -0x80000000i64, -1, -128, -129, -32768, -65536);
imms!(i64, 64, 0, 1, 127, 128, 255, 65535, 0x7fffffff, 0x80000000i64, 0xffffffffi64, 0x100000000i64, 0x123456789abcdef0i64, i64::MAX, i64::MIN, -1, -128, -0x80000000i64, -0x80000001i64);

macro_rules! fixed {
    ($t:ident, $s:expr) => {
        impl Op for $t {
            fn choices(_: &F) -> Vec<Choice<Self>> {
                vec![Choice { v: $t, want: Want::Text($s.into()), rex: Rex::Free }]
            }
        }
    };
}
fixed!(_Al, "%al");
fixed!(_Ax, "%ax");
fixed!(_Eax, "%eax");
fixed!(_Rax, "%rax");
fixed!(_Cl, "%cl");
fixed!(_Dx, "(%dx)");
fixed!(_Xmm0, "%xmm0");
fixed!(_1, "$0x1");
fixed!(_3, "$0x3");

fn hex(d: i64) -> String {
    if d < 0 {
        format!("-0x{:x}", -d)
    } else {
        format!("0x{:x}", d)
    }
}

pub fn mem_text(base: Option<Gpr64>, disp: Option<i64>, idx: Option<(Gpr64, u8)>) -> String {
    let mut s = disp.map_or(String::new(), hex);
    if base.is_none() && idx.is_none() {
        return s;
    }
    s.push('(');
    if let Some(b) = base {
        s += &format!("%{}", low(&b));
    }
    if let Some((i, k)) = idx {
        s += &format!(",%{},{}", low(&i), k);
    }
    s + ")"
}

fn m(v: impl Into<EncodedAddress>, base: Option<Gpr64>, disp: Option<i64>, idx: Option<(Gpr64, u8)>) -> Choice<Memory> {
    // [rbp] and [r13] without displacement are encoded with a displacement of zero
    let disp = match (base, disp) {
        (Some(Rbp) | Some(R13), None) => Some(0),
        (_, d) => d,
    };
    let ext = |r: Gpr64| R64.iter().position(|&x| x == r).unwrap() > 7;
    let rex = base.map_or(false, ext) || idx.map_or(false, |(r, _)| ext(r));
    Choice { v: memory(v), want: Want::Text(mem_text(base, disp, idx)), rex: if rex { Rex::Needed } else { Rex::Free } }
}

const D8: [i8; 6] = [0, 1, 0x12, 127, -128, -1];
const D32: [i32; 8] = [0, 1, -1, 128, -129, 0x12345678, i32::MAX, i32::MIN];

fn addresses(bases: &[Gpr64], idxs: &[Gpr64], scales: &[u8], d8: &[i8], d32: &[i32]) -> Vec<Choice<Memory>> {
    let mut v = vec![];
    for &d in d32 {
        if d >= 0 {
            v.push(m(d, None, Some(d as i64), None));
        }
        v.push(Choice { v: memory(Rip + d), want: Want::Text(format!("{}(%rip)", hex(d as i64))), rex: Rex::Free });
        for &i in idxs {
            for &k in scales {
                v.push(m(d + i * k, None, Some(d as i64), Some((i, k))));
            }
        }
    }
    v.push(Choice { v: memory(Rip), want: Want::Text("0x0(%rip)".into()), rex: Rex::Free });
    for &b in bases {
        v.push(m(b, Some(b), None, None));
        for &d in d8 {
            v.push(m(b + d, Some(b), Some(d as i64), None));
        }
        for &d in d32 {
            v.push(m(b + d, Some(b), Some(d as i64), None));
        }
        for &i in idxs {
            for &k in scales {
                v.push(m(b + i * k, Some(b), None, Some((i, k))));
                for &d in d8 {
                    v.push(m(b + d + i * k, Some(b), Some(d as i64), Some((i, k))));
                }
                for &d in d32 {
                    v.push(m(b + d + i * k, Some(b), Some(d as i64), Some((i, k))));
                }
            }
        }
    }
    v
}

/// The same addresses, built by the other operators.
fn builders() -> Vec<Choice<Memory>> {
    let mut v = vec![];
    for &b in &R64 {
        for &d in &[5i8, 0, -7, 100] {
            v.push(m(b - d, Some(b), Some(-(d as i64)), None));
            v.push(m(b + 3i8 + d, Some(b), Some(d as i64 + 3), None));
            v.push(m(b + 3i8 - d, Some(b), Some(3 - d as i64), None));
            v.push(m(b - 3i8 + d, Some(b), Some(d as i64 - 3), None));
            v.push(m(b + Rcx * 2 + d, Some(b), Some(d as i64), Some((Rcx, 2))));
            v.push(m(b + Rcx * 2 - d, Some(b), Some(-(d as i64)), Some((Rcx, 2))));
            v.push(m(b + Rcx * 2 - d + 9i8, Some(b), Some(9 - d as i64), Some((Rcx, 2))));
        }
        for &d in &[5i32, 0, -7, 1000000] {
            let e = d as i64;
            v.push(m(b - d, Some(b), Some(-e), None));
            v.push(m(b + 3i32 + d, Some(b), Some(e + 3), None));
            v.push(m(b + 3i32 - d, Some(b), Some(3 - e), None));
            v.push(m(b - 3i32 - d, Some(b), Some(-3 - e), None));
            v.push(m(b + R9 * 8 + d, Some(b), Some(e), Some((R9, 8))));
            v.push(m(b + R9 * 8 - d, Some(b), Some(-e), Some((R9, 8))));
            if b != Rsp {
                v.push(m(d + b, None, Some(e), Some((b, 1))));
                v.push(m(Rdx + b, Some(Rdx), None, Some((b, 1))));
                v.push(m(Rdx + d + b, Some(Rdx), Some(e), Some((b, 1))));
                v.push(m(R12 + 4i8 + b, Some(R12), Some(4), Some((b, 1))));
                v.push(m(Rdx + b + d, Some(Rdx), Some(e), Some((b, 1))));
            }
        }
    }
    for &d in &[5i32, 0, -7, 1000000] {
        let e = d as i64;
        for (v2, t) in [(Rip - d, -e), (Rip + 3 + d, e + 3), (Rip - 3 + d, e - 3), (Rip + 3 - d, 3 - e)] {
            v.push(Choice { v: memory(v2), want: Want::Text(format!("{}(%rip)", hex(t))), rex: Rex::Free });
        }
    }
    v
}

impl Op for Memory {
    fn choices(f: &F) -> Vec<Choice<Self>> {
        match f.mem {
            0 => addresses(&[Rax, Rsp, Rbp, Rdi, R8, R12, R13, R15], &[Rcx, R12], &[4], &[-3], &[0x1234]),
            1 => addresses(&[Rax, Rbp, R12], &[R9], &[2], &[-3], &[0x1234]),
            2 => addresses(&[Rbx, R14], &[], &[], &[], &[0x10]),
            3 => {
                let idx: Vec<Gpr64> = R64.iter().copied().filter(|&r| r != Rsp).collect();
                let mut v = addresses(&R64, &idx, &[1, 2, 4, 8], &D8, &D32);
                let all8: Vec<i8> = (-128..=127).collect();
                v.extend(addresses(&R64, &[], &[], &all8, &[]));
                v.extend(addresses(&[Rax, Rbp, Rsp, R13, R12], &[Rbp, R13, R12, Rdi], &[8], &all8, &[]));
                v.extend(builders());
                v
            }
            _ => unreachable!(),
        }
    }
}

pub struct Case {
    name: &'static str,
    wants: Vec<Want>,
    bytes: Vec<u8>,
}

pub struct F<'a> {
    pub rel: bool,
    pub mem: u8,
    cases: Vec<Case>,
    refused: u64,
    forms: u64,
    rep: &'a Report,
    only: usize,
    parts: usize,
}

const RELS: &[&str] = &["callq", "jmpq", "jecxz", "jrcxz"];

impl<'a> F<'a> {
    fn emit(&mut self, name: &'static str, wants: Vec<Want>, rexes: &[Rex], w: impl FnOnce(&mut Vec<u8>) -> std::io::Result<()>) {
        let denied = rexes.contains(&Rex::Denied);
        let needed = rexes.contains(&Rex::Needed);
        let what = || format!("{} {}", name, wants.iter().map(|w| format!("{:?}", w)).collect::<Vec<_>>().join(" "));
        let r = crate::common::guarded(name, || {
            let mut b = vec![];
            w(&mut b).map(|_| b)
        });
        match r {
            Ok(Ok(b)) => {
                if b.is_empty() || b.len() > 15 {
                    self.rep.violation(&format!("length/{}", name), &format!("{} is {} bytes long", what(), b.len()), &what());
                } else {
                    self.cases.push(Case { name, wants, bytes: b })
                }
            }
            Ok(Err(e)) => self.rep.violation(&format!("error/{}", name), &format!("{}: {}", what(), e), &what()),
            // ah/ch/dh/bh cannot be encoded beside anything that needs a REX prefix: that has to be refused
            Err(_) if denied => {
                self.refused += 1;
                if !needed && !self.rexw(name, &wants) {
                    self.rep.violation(&format!("refused/{}", name), &format!("{} is refused", what()), &what())
                }
            }
            Err(e) => self.rep.violation(&format!("panic/{}", name), &format!("{}: {}", what(), e), &what()),
        }
    }
    /// Whether the operand size calls for REX.W
    fn rexw(&self, name: &str, wants: &[Want]) -> bool {
        let r64 = ["%rax", "%rcx", "%rdx", "%rbx", "%rsp", "%rbp", "%rsi", "%rdi"];
        name.ends_with('q') || wants.iter().any(|w| matches!(w, Want::Text(t) if r64.contains(&t.as_str())))
    }
    fn mine(&mut self) -> bool {
        let r = self.forms as usize % self.parts == self.only;
        self.forms += 1;
        r
    }
}

#[macro_export]
macro_rules! form {
    ($f:ident, $m:ident, $n:expr) => {
        $f.form0($n, |w| w.$m());
    };
    ($f:ident, $m:ident, $n:expr, $a:ty) => {
        $f.form1::<$a>($n, |w, a| w.$m(a));
    };
    ($f:ident, $m:ident, $n:expr, $a:ty, $b:ty) => {
        $f.form2::<$a, $b>($n, |w, a, b| w.$m(a, b));
    };
    ($f:ident, $m:ident, $n:expr, $a:ty, $b:ty, $c:ty) => {
        $f.form3::<$a, $b, $c>($n, |w, a, b, c| w.$m(a, b, c));
    };
}

type R = std::io::Result<()>;

impl<'a> F<'a> {
    fn begin(&mut self, name: &'static str) -> bool {
        if !self.mine() {
            return false;
        }
        self.rel = RELS.contains(&name) || name.starts_with('j');
        self.mem = 0;
        true
    }
    pub fn form0(&mut self, name: &'static str, w: fn(&mut Vec<u8>) -> R) {
        if self.begin(name) {
            if name == "lock" {
                // followed by addl %eax,(%rax)
                return self.emit(name, vec![], &[], |b| {
                    w(b)?;
                    b.extend([0x01, 0x00]);
                    Ok(())
                });
            }
            self.emit(name, vec![], &[], w);
        }
    }
    pub fn form1<A: Op + Copy>(&mut self, name: &'static str, w: fn(&mut Vec<u8>, A) -> R) {
        if self.begin(name) {
            for a in A::choices(self) {
                self.emit(name, vec![a.want], &[a.rex], |b| w(b, a.v));
            }
        }
    }
    pub fn form2<A: Op + Copy, B: Op + Copy>(&mut self, name: &'static str, w: fn(&mut Vec<u8>, A, B) -> R) {
        if self.begin(name) {
            for b in B::choices(self) {
                for a in A::choices(self) {
                    self.emit(name, vec![a.want, b.want.clone()], &[a.rex, b.rex], |o| w(o, a.v, b.v));
                }
            }
        }
    }
    pub fn form3<A: Op + Copy, B: Op + Copy, C: Op + Copy>(&mut self, name: &'static str, w: fn(&mut Vec<u8>, A, B, C) -> R) {
        if self.begin(name) {
            self.mem = 1;
            for c in C::choices(self) {
                for b in B::choices(self) {
                    for a in A::choices(self) {
                        self.emit(name, vec![a.want, b.want.clone(), c.want.clone()], &[a.rex, b.rex, c.rex], |o| w(o, a.v, b.v, c.v));
                    }
                }
            }
        }
    }
}

/// The name GNU's decoder gives to the instruction.
fn canonical(name: &'static str) -> &'static str {
    match name {
        "imull1" | "imull2" => "imull",
        "imulq1" | "imulq2" => "imulq",
        "imulw1" | "imulw2" => "imulw",
        "retq1" => "retq",
        "jc" | "jnae" => "jb",
        "jna" => "jbe",
        "jnb" | "jnc" => "jae",
        "jnbe" => "ja",
        "jng" => "jle",
        "jnge" => "jl",
        "jnl" => "jge",
        "jnle" => "jg",
        "jnz" => "jne",
        "jpe" => "jp",
        "jpo" => "jnp",
        "jz" => "je",
        "setc" | "setnae" => "setb",
        "setna" => "setbe",
        "setnb" | "setnc" => "setae",
        "setnbe" => "seta",
        "setng" => "setle",
        "setnge" => "setl",
        "setnl" => "setge",
        "setnle" => "setg",
        "setnz" => "setne",
        "setpe" => "setp",
        "setpo" => "setnp",
        "setz" => "sete",
        "salb" => "shlb",
        "sall" => "shll",
        "salq" => "shlq",
        "salw" => "shlw",
        _ => name,
    }
}

/// The other spellings the decoder uses for one and the same instruction.
fn spelled(c: &Case, l: &Line) -> Option<(String, Vec<String>)> {
    let mut mnem = l.mnem.strip_suffix(".s").unwrap_or(&l.mnem).to_string();
    let mut ops = l.ops.clone();
    for k in ["pd", "ps", "sd", "ss"] {
        for (n, p) in ["eq", "lt", "le", "unord", "neq", "nlt", "nle", "ord"].iter().enumerate() {
            if mnem == format!("cmp{}{}", p, k) {
                mnem = format!("cmp{}", k);
                ops.insert(0, format!("$0x{:x}", n));
            }
        }
    }
    // the operands of string instructions are implied
    if c.wants.is_empty() && ops.iter().all(|o| o.contains("(%rsi)") || o.contains("(%rdi)")) {
        ops.clear();
    }
    match (c.name, &mnem[..]) {
        ("callq", "call") => Some(("callq".into(), ops)),
        ("jmpq", "jmp") => Some(("jmpq".into(), ops)),
        // a bare prefix is shown with the instruction the check puts behind it
        ("lock", "lock") if ops == ["addl %eax", "(%rax)"] => Some(("lock".into(), vec![])),
        // the manual: xchg of the accumulator with itself in its short form is the no-operation
        ("xchgl" | "xchgq" | "xchgw", "nop" | "rex.W" | "xchg") if ops.is_empty() || ops == ["nop"] => {
            let Want::Text(t) = &c.wants[0] else { return None };
            if matches!(&c.wants[1], Want::Text(u) if t == u) && ["%eax", "%rax", "%ax"].contains(&&t[..]) && c.bytes.last() == Some(&0x90) {
                Some((c.name.into(), vec![t.clone(), t.clone()]))
            } else {
                None
            }
        }
        ("str", "data16") if ops.len() == 1 => Some(("str".into(), vec![ops[0].strip_prefix("strw ").unwrap_or("?").to_string()])),
        ("str", "strw") => Some(("str".into(), ops)),
        ("verr", "verrw" | "verrl") | ("verw", "verww" | "verwl") => Some((c.name.into(), ops)),
        ("int", "int3") => Some(("int".into(), vec!["$0x3".into()])),
        ("movq", "movabsq") if c.wants.len() == 2 && matches!(c.wants[1], Want::Imm(_, 64)) => Some(("movq".into(), ops)),
        ("movnti", "movntil" | "movntiq") => Some(("movnti".into(), ops)),
        ("pcmpestri", "pcmpestril") | ("pcmpestrm", "pcmpestrml") => Some((c.name.into(), ops)),
        // the upper half of the destination is cleared either way
        ("movmskpd" | "movmskps" | "pmovmskb" | "extractps" | "pextrb" | "pextrw" | "pinsrb" | "pinsrw" | "str", _) if mnem.starts_with(c.name) => Some((c.name.into(), ops)),
        _ => Some((mnem, ops)),
    }
}

struct Line {
    addr: u64,
    mnem: String,
    ops: Vec<String>,
}

fn disassemble(path: &str) -> Vec<Line> {
    let out = std::process::Command::new("objdump")
        .args(["-D", "-z", "-w", "--no-show-raw-insn", "-b", "binary", "-m", "i386:x86-64", "-M", "att,suffix", path])
        .output()
        .expect("objdump");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut v = vec![];
    for l in text.lines() {
        let Some((a, rest)) = l.split_once(":\t") else { continue };
        let Ok(addr) = u64::from_str_radix(a.trim(), 16) else { continue };
        let rest = rest.split(" #").next().unwrap().trim();
        let (mnem, ops) = match rest.split_once(char::is_whitespace) {
            Some((m, o)) => (m.to_string(), o.trim().to_string()),
            None => (rest.to_string(), String::new()),
        };
        let mut parts = vec![];
        let mut depth = 0;
        let mut cur = String::new();
        for c in ops.chars() {
            match c {
                '(' => depth += 1,
                ')' => depth -= 1,
                ',' if depth == 0 => {
                    parts.push(std::mem::take(&mut cur));
                    continue;
                }
                _ => {}
            }
            cur.push(c);
        }
        if !cur.is_empty() {
            parts.push(cur);
        }
        v.push(Line { addr, mnem, ops: parts.iter().map(|p| p.trim().to_string()).collect() });
    }
    v
}

fn parse_imm(s: &str) -> Option<i128> {
    let s = s.strip_prefix('$').unwrap_or(s);
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let v = match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok()? as i128,
        None => s.parse::<u64>().ok()? as i128,
    };
    Some(if neg { -v } else { v })
}

/// Every base x index x scale x displacement class, every value of short displacements, every way to build an address.
fn addressing(f: &mut F) {
    f.mem = 3;
    macro_rules! one {
        ($m:ident, $n:expr, $a:expr, Memory) => {
            one!(@ $n, |w, m| w.$m($a, m), |w| vec![Want::Text(format!("%{}", low(&$a))), w])
        };
        ($m:ident, $n:expr, Memory, $a:expr) => {
            one!(@ $n, |w, m| w.$m(m, $a), |w| vec![w, Want::Text(format!("%{}", low(&$a)))])
        };
        (@ $n:expr, $w:expr, $want:expr) => {
            for c in Memory::choices(f) {
                if f.mine() {
                    let w: fn(&mut Vec<u8>, Memory) -> R = $w;
                    let k: fn(Want) -> Vec<Want> = $want;
                    f.emit($n, k(c.want.clone()), &[c.rex], |o| w(o, c.v));
                }
            }
        };
    }
    one!(movq, "movq", Rdx, Memory);
    one!(movq, "movq", Memory, R10);
    one!(movb, "movb", Memory, Sil);
    one!(movb, "movb", Dl, Memory);
    one!(movl, "movl", R9D, Memory);
    one!(movw, "movw", Memory, R13W);
    one!(leaq, "leaq", Rsp, Memory);
    one!(movsd, "movsd", Xmm3, Memory);
    one!(movsd, "movsd", Memory, Xmm12);
    for c in Memory::choices(f) {
        if f.mine() {
            f.emit("addl", vec![c.want.clone(), Want::Imm(-2, 8)], &[c.rex], |o| o.addl(c.v, -2i8));
            f.emit("addq", vec![c.want.clone(), Want::Imm(0x7654321, 32)], &[c.rex], |o| o.addq(c.v, 0x7654321i32));
            f.emit("cmpw", vec![c.want.clone(), Want::Imm(0x1234, 16)], &[c.rex], |o| o.cmpw(c.v, 0x1234i16));
        }
    }
    // every value of the 8-bit immediates and offsets
    for v in i8::MIN..=i8::MAX {
        if f.mine() {
            f.emit("addb", vec![Want::Text("%bl".into()), Want::Imm(v as i64, 8)], &[], |o| o.addb(Bl, v));
            f.emit("subq", vec![Want::Text("%r11".into()), Want::Imm(v as i64, 8)], &[], |o| o.subq(R11, v));
            f.emit("jne", vec![Want::Rel(v as i64)], &[], |o| o.jne(v));
            f.emit("jmpq", vec![Want::Rel(v as i64)], &[], |o| o.jmpq(v));
        }
    }
    // every bit of the wider ones
    for k in 0..64 {
        for v in [1i64 << k, !(1i64 << k), (1i64 << k) - 1] {
            if f.mine() {
                f.emit("movq", vec![Want::Text("%r14".into()), Want::Imm(v, 64)], &[], |o| o.movq(R14, v));
                if k < 32 {
                    let v = v as i32;
                    f.emit("movl", vec![Want::Text("%ecx".into()), Want::Imm(v as i64, 32)], &[], |o| o.movl(Ecx, v));
                    f.emit("addq", vec![Want::Text("%rdi".into()), Want::Imm(v as i64, 32)], &[], |o| o.addq(Rdi, v));
                    f.emit("callq", vec![Want::Rel(v as i64)], &[], |o| o.callq(v));
                }
                if k < 16 {
                    let v = v as i16;
                    f.emit("movw", vec![Want::Text("%r8w".into()), Want::Imm(v as i64, 16)], &[], |o| o.movw(R8W, v));
                }
            }
        }
    }
}

/// The narrower names of a register, and operands that have no encoding.
fn operands(rep: &Report) -> u64 {
    let mut n = 0;
    let mut expect = |what: String, ok: bool| {
        n += 1;
        if !ok {
            rep.violation(&format!("operand/{}", what), &what, &what);
        }
    };
    for (i, r) in R64.iter().enumerate() {
        expect(format!("{:?}.q()", r), r.q() == *r);
        expect(format!("{:?}.l()", r), r.l() == R32[i]);
        expect(format!("{:?}.w()", r), r.w() == R16[i]);
        let b = [Al, Cl, Dl, Bl, Spl, Bpl, Sil, Dil, R8B, R9B, R10B, R11B, R12B, R13B, R14B, R15B][i];
        expect(format!("{:?}.b()", r), r.b() == b);
    }
    let refused = |what: &str, f: &dyn Fn() -> Memory| (what.to_string(), crate::common::guarded(what, f).is_err());
    for k in [0u8, 3, 5, 6, 7, 9, 16, 255] {
        let (w, ok) = refused(&format!("scale {} is refused", k), &|| memory(Rax + Rcx * k));
        expect(w, ok);
    }
    for b in R64 {
        let (w, ok) = refused(&format!("{:?} + rsp as index is refused", b), &|| memory(b + Rsp * 1));
        expect(w, ok);
        let (w, ok) = refused(&format!("{:?} + 8 + rsp as index is refused", b), &|| memory(b + 8i8 + Rsp));
        expect(w, ok);
    }
    for d in [-1i32, -4096, i32::MIN] {
        let (w, ok) = refused(&format!("absolute address {} is refused", d), &|| memory(d));
        expect(w, ok);
    }
    n
}

pub fn main(o: &Opts, rep: &'static Report) {
    for (part, gen) in [("forms", crate::forms::all as fn(&mut F)), ("addressing", addressing)] {
        let parts = o.jobs * 4;
        let tot = Mutex::new((0u64, 0u64, 0u64));
        par(o.jobs, (0..parts).collect(), |only| {
            let mut f = F { rel: false, mem: 0, cases: vec![], refused: 0, forms: 0, rep, only, parts };
            gen(&mut f);
            let blob: Vec<u8> = f.cases.iter().flat_map(|c| c.bytes.iter().copied()).collect();
            let path = format!("{}/{}{}.bin", o.work.display(), part, only);
            std::fs::write(&path, &blob).unwrap();
            check(&f.cases, &disassemble(&path), rep, &o);
            std::fs::remove_file(&path).ok();
            let mut t = tot.lock().unwrap();
            t.0 += f.cases.len() as u64;
            t.1 += f.refused;
            t.2 = f.forms;
        });
        let t = tot.into_inner().unwrap();
        rep.cover(part, &[("forms", t.2), ("states", t.0), ("refused_rex", t.1), ("traces_validated_against_impl", t.0)], &[]);
    }
    let n = operands(rep);
    rep.cover("operands", &[("states", n)], &[]);
}

fn check(cases: &[Case], lines: &[Line], rep: &Report, o: &Opts) {
    let mut at = 0u64;
    let mut li = 0;
    let dump = o.extra.contains_key("dump");
    for c in cases {
        let end = at + c.bytes.len() as u64;
        while li < lines.len() && lines[li].addr < at {
            li += 1;
        }
        let shown = |l: &Line| format!("{} {}", l.mnem, l.ops.join(","));
        let mut bad = None;
        if li >= lines.len() || lines[li].addr != at {
            bad = Some("no instruction begins there".to_string());
        } else {
            let l = &lines[li];
            if li + 1 < lines.len() && lines[li + 1].addr != end {
                bad = Some(format!("decodes as '{}' of {} bytes", shown(l), lines[li + 1].addr - at));
            } else if !agrees(c, l, end) {
                bad = Some(format!("decodes as '{}'", shown(l)));
            }
        }
        if let Some(b) = bad {
            let w = format!("{} {}", c.name, c.wants.iter().map(|w| format!("{:?}", w)).collect::<Vec<_>>().join(", "));
            let h = c.bytes.iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" ");
            if dump {
                println!("{} | {} | {}", w, h, b);
            }
            rep.violation(&format!("decode/{}", c.name), &format!("{} is encoded as {}, which {}", w, h, b), &format!("{} -> {}", w, h));
        }
        at = end;
    }
}

/// The bits the processor uses of an immediate that is shorter than the operands: all of them for the instructions
/// that extend it, its own 8 for the others.
fn width(name: &str, bits: u32) -> u32 {
    let root = ["adc", "add", "and", "cmp", "imul", "mov", "or", "sbb", "sub", "test", "xor", "push"].iter().any(|r| {
        name.strip_prefix(r).map_or(false, |s| ["b", "w", "l", "q"].contains(&s))
    });
    if !root {
        return bits;
    }
    match name.as_bytes()[name.len() - 1] {
        b'b' => 8,
        b'w' => 16,
        b'l' => 32,
        _ => 64,
    }
}

/// Instructions that write or read a register of which only a part counts: the decoder may name another size.
const WIDE: &[&str] = &["movmskpd", "movmskps", "pmovmskb", "extractps", "pextrb", "pextrw", "verr", "verw"];

fn wide(s: &str) -> String {
    let s = s.trim_start_matches('%');
    for (r, n) in R64.iter().zip(R32.iter()) {
        if low(n) == s {
            return format!("%{}", low(r));
        }
    }
    format!("%{}", s)
}

fn agrees(c: &Case, l: &Line, end: u64) -> bool {
    let Some((mnem, ops)) = spelled(c, l) else { return false };
    let indirect = matches!(c.name, "callq" | "jmpq") && !matches!(c.wants[0], Want::Rel(_));
    if indirect {
        return mnem == c.name && ops.len() == 1 && matches!(&c.wants[0], Want::Text(t) if ops[0] == format!("*{}", t));
    }
    if mnem != canonical(c.name) || ops.len() != c.wants.len() {
        return false;
    }
    let xchg = c.name.starts_with("xchg") || c.name.starts_with("test");
    let same = |ops: &mut dyn Iterator<Item = &String>| {
        c.wants.iter().zip(ops).all(|(w, s)| match w {
            Want::Text(t) if WIDE.contains(&c.name) => *t == *s || *t == wide(s) || matches!(c.name, "verr" | "verw") && s.strip_prefix("%e").map_or(false, |r| *t == format!("%{}", r)) || matches!(c.name, "verr" | "verw") && s.strip_suffix("d").map_or(false, |r| *t == format!("{}w", r)),
            Want::Text(t) if t == "$0x1" => s == "$1" || s == "$0x1",
            Want::Text(t) => t == s,
            Want::Imm(v, b) => {
                let w = width(c.name, *b);
                let mask = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                parse_imm(s).map_or(false, |x| s.starts_with('$') && x as u64 == *v as u64 & mask)
            }
            Want::Rel(v) => s.strip_prefix("0x").and_then(|h| u64::from_str_radix(h, 16).ok()).map_or(false, |x| x == end.wrapping_add(*v as u64)),
        })
    };
    same(&mut ops.iter().rev()) || xchg && same(&mut ops.iter())
}
