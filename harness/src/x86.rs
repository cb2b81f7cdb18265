//! Independent decoder and reference machine for the x86-64 subset the encoder can
//! legitimately use for mov / lea / push / pop / ret / syscall (Intel SDM vol. 2).
//! Registers are numbered architecturally: 0 rax 1 rcx 2 rdx 3 rbx 4 rsp 5 rbp 6 rsi 7 rdi 8.. r8..
use std::collections::BTreeMap;

pub const N64: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15",
];
pub const N32: [&str; 16] = [
    "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d",
    "r15d",
];
pub const N16: [&str; 16] = [
    "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w",
];
pub const N8: [&str; 16] = [
    "al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b",
];
pub fn rname(w: u8, r: u8) -> &'static str {
    match w {
        64 => N64[r as usize],
        32 => N32[r as usize],
        16 => N16[r as usize],
        _ => N8[r as usize],
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Mem {
    pub rip: bool,
    pub base: Option<u8>,
    pub index: Option<(u8, u8)>, // register, factor 1/2/4/8
    pub disp: i64,
}
impl Mem {
    /// Address as a linear form: coefficients per register, displacement, ip-relative flag.
    pub fn linear(&self) -> (BTreeMap<u8, u64>, i64, bool) {
        let mut m = BTreeMap::new();
        if let Some(b) = self.base {
            *m.entry(b).or_insert(0) += 1;
        }
        if let Some((i, f)) = self.index {
            *m.entry(i).or_insert(0) += f as u64;
        }
        (m, self.disp, self.rip)
    }
    pub fn addr(&self, regs: &[u64; 16], next_ip: u64) -> u64 {
        let mut a = self.disp as u64;
        if self.rip {
            a = a.wrapping_add(next_ip);
        }
        if let Some(b) = self.base {
            a = a.wrapping_add(regs[b as usize]);
        }
        if let Some((i, f)) = self.index {
            a = a.wrapping_add(regs[i as usize].wrapping_mul(f as u64));
        }
        a
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    MovRR { w: u8, d: u8, s: u8 },
    MovRI { w: u8, d: u8, imm: u64 },
    Store { w: u8, mem: Mem, s: u8 },
    Load { w: u8, d: u8, mem: Mem },
    Lea { w: u8, d: u8, mem: Mem },
    PushR { w: u8, r: u8 },
    /// value as written to the stack, w/8 bytes
    PushI { w: u8, val: u64 },
    PopR { w: u8, r: u8 },
    Ret,
    Syscall,
}

fn mask(w: u8, v: u64) -> u64 {
    if w == 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}

/// Same meaning (addresses compared as linear forms, so alternative encodings are equal).
pub fn same(a: &Op, b: &Op) -> bool {
    use Op::*;
    match (a, b) {
        (Store { w, mem, s }, Store { w: w2, mem: m2, s: s2 }) => w == w2 && s == s2 && mem.linear() == m2.linear(),
        (Load { w, mem, d }, Load { w: w2, mem: m2, d: d2 }) => w == w2 && d == d2 && mem.linear() == m2.linear(),
        (Lea { w, mem, d }, Lea { w: w2, mem: m2, d: d2 }) => w == w2 && d == d2 && mem.linear() == m2.linear(),
        (MovRI { w, d, imm }, MovRI { w: w2, d: d2, imm: i2 }) => {
            if d != d2 {
                return false;
            }
            // a 32-bit load zero-extends: equal to a 64-bit load of the same small value
            let full = |w: u8, i: u64| if w == 16 { (16, mask(16, i)) } else { (64, mask(w, i)) };
            full(*w, *imm) == full(*w2, *i2)
        }
        _ => a == b,
    }
}

pub fn show(o: &Op) -> String {
    let m = |m: &Mem| {
        let mut p = Vec::new();
        if m.rip {
            p.push("rip".to_string());
        }
        if let Some(b) = m.base {
            p.push(N64[b as usize].to_string());
        }
        if let Some((i, f)) = m.index {
            p.push(format!("{}*{}", N64[i as usize], f));
        }
        p.push(format!("{:#x}", m.disp));
        format!("[{}]", p.join(" + "))
    };
    match o {
        Op::MovRR { w, d, s } => format!("mov {}, {}", rname(*w, *d), rname(*w, *s)),
        Op::MovRI { w, d, imm } => format!("mov {}, {:#x}", rname(*w, *d), imm),
        Op::Store { w, mem, s } => format!("mov {}, {}", m(mem), rname(*w, *s)),
        Op::Load { w, mem, d } => format!("mov {}, {}", rname(*w, *d), m(mem)),
        Op::Lea { w, mem, d } => format!("lea {}, {}", rname(*w, *d), m(mem)),
        Op::PushR { w, r } => format!("push {}", rname(*w, *r)),
        Op::PushI { w, val } => format!("push{} {:#x}", w, val),
        Op::PopR { w, r } => format!("pop {}", rname(*w, *r)),
        Op::Ret => "ret".into(),
        Op::Syscall => "syscall".into(),
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Dec {
    pub op: Op,
    pub len: usize,
    /// position and width in bytes of the immediate field, if any
    pub imm: Option<(usize, usize)>,
}

struct Cur<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn u8(&mut self) -> Result<u8, String> {
        let v = *self.b.get(self.i).ok_or("instruction runs past the end")?;
        self.i += 1;
        Ok(v)
    }
    fn le(&mut self, n: usize) -> Result<u64, String> {
        let mut v = 0u64;
        for k in 0..n {
            v |= (self.u8()? as u64) << (8 * k);
        }
        Ok(v)
    }
}
fn sext(v: u64, bits: u32) -> u64 {
    (((v << (64 - bits)) as i64) >> (64 - bits)) as u64
}

enum RmOp {
    Reg(u8),
    Mem(Mem),
}

fn modrm(c: &mut Cur, rex: u8) -> Result<(u8, RmOp), String> {
    let m = c.u8()?;
    let (md, reg, rm) = (m >> 6, (m >> 3) & 7, m & 7);
    let reg = reg | ((rex >> 2) & 1) << 3;
    let xb = (rex & 1) << 3;
    if md == 3 {
        return Ok((reg, RmOp::Reg(rm | xb)));
    }
    let mut mem = Mem { rip: false, base: None, index: None, disp: 0 };
    let mut dsz = match md {
        0 => 0,
        1 => 1,
        _ => 4,
    };
    if rm == 4 {
        let s = c.u8()?;
        let (sc, ix, bs) = (s >> 6, (s >> 3) & 7, s & 7);
        let ix = ix | ((rex >> 1) & 1) << 3;
        if ix != 4 {
            mem.index = Some((ix, 1 << sc));
        }
        if bs == 5 && md == 0 {
            dsz = 4;
        } else {
            mem.base = Some(bs | xb);
        }
    } else if rm == 5 && md == 0 {
        mem.rip = true;
        dsz = 4;
    } else {
        mem.base = Some(rm | xb);
    }
    mem.disp = match dsz {
        0 => 0,
        1 => sext(c.le(1)?, 8) as i64,
        _ => sext(c.le(4)?, 32) as i64,
    };
    Ok((reg, RmOp::Mem(mem)))
}

pub fn decode(b: &[u8]) -> Result<Dec, String> {
    let mut c = Cur { b, i: 0 };
    let mut opsize = false;
    let mut rex = 0u8;
    let opc = loop {
        let x = c.u8()?;
        match x {
            0x66 => {
                opsize = true;
                rex = 0;
            }
            0x40..=0x4f => rex = x,
            0xf2 | 0xf3 | 0xf0 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 => {
                return Err(format!("unexpected prefix {:02x}", x))
            }
            _ => break x,
        }
        if c.i > 14 {
            return Err("too many prefixes".into());
        }
    };
    let w64 = rex & 8 != 0;
    let w: u8 = if w64 {
        64
    } else if opsize {
        16
    } else {
        32
    };
    let xb = (rex & 1) << 3;
    let stackw: u8 = if opsize && !w64 { 16 } else { 64 };
    let mut imm = None;
    let op = match opc {
        0x89 => match modrm(&mut c, rex)? {
            (r, RmOp::Reg(rm)) => Op::MovRR { w, d: rm, s: r },
            (r, RmOp::Mem(mem)) => Op::Store { w, mem, s: r },
        },
        0x8b => match modrm(&mut c, rex)? {
            (r, RmOp::Reg(rm)) => Op::MovRR { w, d: r, s: rm },
            (r, RmOp::Mem(mem)) => Op::Load { w, mem, d: r },
        },
        0x8d => match modrm(&mut c, rex)? {
            (_, RmOp::Reg(_)) => return Err("lea with register operand".into()),
            (r, RmOp::Mem(mem)) => Op::Lea { w, mem, d: r },
        },
        0xb8..=0xbf => {
            let n = w as usize / 8;
            imm = Some((c.i, n));
            let v = c.le(n)?;
            Op::MovRI { w, d: (opc & 7) | xb, imm: v }
        }
        0xc7 => match modrm(&mut c, rex)? {
            (r, RmOp::Reg(rm)) if r & 7 == 0 => {
                let n = if w == 16 { 2 } else { 4 };
                imm = Some((c.i, n));
                let v = c.le(n)?;
                Op::MovRI { w, d: rm, imm: mask(w, if w == 64 { sext(v, 32) } else { v }) }
            }
            _ => return Err("unsupported c7 form".into()),
        },
        0x50..=0x57 => Op::PushR { w: stackw, r: (opc & 7) | xb },
        0x58..=0x5f => Op::PopR { w: stackw, r: (opc & 7) | xb },
        0x68 => {
            let n = if stackw == 16 { 2 } else { 4 };
            imm = Some((c.i, n));
            let v = c.le(n)?;
            Op::PushI { w: stackw, val: if n == 4 { sext(v, 32) } else { v } }
        }
        0x6a => {
            imm = Some((c.i, 1));
            let v = sext(c.le(1)?, 8);
            Op::PushI { w: stackw, val: mask(stackw, v) }
        }
        0xff => match modrm(&mut c, rex)? {
            (r, RmOp::Reg(rm)) if r & 7 == 6 => Op::PushR { w: stackw, r: rm },
            _ => return Err("unsupported ff form".into()),
        },
        0x8f => match modrm(&mut c, rex)? {
            (r, RmOp::Reg(rm)) if r & 7 == 0 => Op::PopR { w: stackw, r: rm },
            _ => return Err("unsupported 8f form".into()),
        },
        0xc3 if !opsize => Op::Ret,
        0x0f => match c.u8()? {
            0x05 if !opsize => Op::Syscall,
            x => return Err(format!("unsupported opcode 0f {:02x}", x)),
        },
        x => return Err(format!("unsupported opcode {:02x}", x)),
    };
    if c.i > 15 {
        return Err("longer than 15 bytes".into());
    }
    Ok(Dec { op, len: c.i, imm })
}

/// Decode bytes that must be exactly one instruction.
pub fn decode_one(b: &[u8]) -> Result<Dec, String> {
    let d = decode(b)?;
    if d.len != b.len() {
        return Err(format!("{} bytes left over after {}", b.len() - d.len, show(&d.op)));
    }
    Ok(d)
}

/// Sequential reference machine over a few memory windows.
#[derive(Clone)]
pub struct Machine {
    pub regs: [u64; 16],
    pub ip: u64,
    pub wins: Vec<(u64, Vec<u8>)>,
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Ev {
    None,
    Fault(u64),
    Syscall,
}
impl Machine {
    pub fn read(&self, a: u64, n: usize) -> Option<&[u8]> {
        for (s, m) in &self.wins {
            if a >= *s && a - *s <= m.len() as u64 && (m.len() as u64 - (a - *s)) >= n as u64 {
                let o = (a - *s) as usize;
                return Some(&m[o..o + n]);
            }
        }
        None
    }
    pub fn write(&mut self, a: u64, b: &[u8]) -> bool {
        for (s, m) in &mut self.wins {
            if a >= *s && a - *s <= m.len() as u64 && (m.len() as u64 - (a - *s)) >= b.len() as u64 {
                let o = (a - *s) as usize;
                m[o..o + b.len()].copy_from_slice(b);
                return true;
            }
        }
        false
    }
    fn set(&mut self, w: u8, d: u8, v: u64) {
        let r = &mut self.regs[d as usize];
        *r = match w {
            64 => v,
            32 => v & 0xffff_ffff,
            _ => (*r & !0xffff) | (v & 0xffff),
        };
    }
    fn get64(&self, a: u64, n: usize) -> Option<u64> {
        let b = self.read(a, n)?;
        let mut v = 0;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u64) << (8 * i);
        }
        Some(v)
    }
    /// Execute one instruction occupying `len` bytes at ip.
    pub fn exec(&mut self, op: &Op, len: usize) -> Ev {
        let next = self.ip.wrapping_add(len as u64);
        match *op {
            Op::MovRR { w, d, s } => {
                let v = self.regs[s as usize];
                self.set(w, d, v)
            }
            Op::MovRI { w, d, imm } => self.set(w, d, imm),
            Op::Lea { w, d, mem } => {
                let v = mem.addr(&self.regs, next);
                self.set(w, d, v)
            }
            Op::Store { w, mem, s } => {
                let a = mem.addr(&self.regs, next);
                let v = self.regs[s as usize].to_le_bytes();
                if !self.write(a, &v[..w as usize / 8]) {
                    return Ev::Fault(a);
                }
            }
            Op::Load { w, mem, d } => {
                let a = mem.addr(&self.regs, next);
                match self.get64(a, w as usize / 8) {
                    Some(v) => self.set(w, d, v),
                    None => return Ev::Fault(a),
                }
            }
            Op::PushR { w, r } => {
                let n = w as usize / 8;
                let v = self.regs[r as usize].to_le_bytes();
                let a = self.regs[4].wrapping_sub(n as u64);
                if !self.write(a, &v[..n]) {
                    return Ev::Fault(a);
                }
                self.regs[4] = a;
            }
            Op::PushI { w, val } => {
                let n = w as usize / 8;
                let a = self.regs[4].wrapping_sub(n as u64);
                if !self.write(a, &val.to_le_bytes()[..n]) {
                    return Ev::Fault(a);
                }
                self.regs[4] = a;
            }
            Op::PopR { w, r } => {
                let n = w as usize / 8;
                let a = self.regs[4];
                match self.get64(a, n) {
                    Some(v) => {
                        self.regs[4] = a.wrapping_add(n as u64);
                        self.set(w, r, v);
                    }
                    None => return Ev::Fault(a),
                }
            }
            Op::Ret => {
                let a = self.regs[4];
                match self.get64(a, 8) {
                    Some(v) => {
                        self.regs[4] = a.wrapping_add(8);
                        self.ip = v;
                        return Ev::None;
                    }
                    None => return Ev::Fault(a),
                }
            }
            Op::Syscall => {
                self.ip = next;
                return Ev::Syscall;
            }
        }
        self.ip = next;
        Ev::None
    }
}
