//! E01-E05: the instruction encoder.
use crate::core::*;
use crate::cpu::{self, Cpu};
use crate::util::*;
use crate::worker::*;
use crate::x86::{self, *};
use at_x64::instruction::{Instruction, Lea, Mov, Pop, Push, Ret, Syscall};
use at_x64::mem::Mem64;
use at_x64::reg::{Reg, Reg16, Reg32, Reg64, Reg8};

// architectural order
pub const R64: [Reg64; 16] = {
    use Reg64::*;
    [RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15]
};
pub const R32: [Reg32; 16] = {
    use Reg32::*;
    [EAX, ECX, EDX, EBX, ESP, EBP, ESI, EDI, R8D, R9D, R10D, R11D, R12D, R13D, R14D, R15D]
};
pub const R16: [Reg16; 16] = {
    use Reg16::*;
    [AX, CX, DX, BX, SP, BP, SI, DI, R8W, R9W, R10W, R11W, R12W, R13W, R14W, R15W]
};
pub const R8: [Reg8; 16] = {
    use Reg8::*;
    [AL, CL, DL, BL, SPL, BPL, SIL, DIL, R8B, R9B, R10B, R11B, R12B, R13B, R14B, R15B]
};

/// A requested operand / instruction, independent of the library's types.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MemReq {
    Reg(u8),
    RegOff(u8, u32),
    Rip(u32),
    Sib(Option<u8>, u32, u8, u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Req {
    Rr(u8, u8, u8),
    Ri(u8, u8, u64),
    St(MemReq, u8),
    Lea(u8, MemReq),
    PushR(u8, u8),
    PushI(u8, u32),
    PopR(u8, u8),
    Ret,
    Syscall,
}

pub fn meaning_mem(m: &MemReq) -> Mem {
    let s = |d: u32| d as i32 as i64;
    match *m {
        MemReq::Reg(r) => Mem { rip: false, base: Some(r), index: None, disp: 0 },
        MemReq::RegOff(r, d) => Mem { rip: false, base: Some(r), index: None, disp: s(d) },
        MemReq::Rip(d) => Mem { rip: true, base: None, index: None, disp: s(d) },
        MemReq::Sib(b, d, i, sc) => Mem {
            rip: false,
            base: b,
            index: if i == 4 { None } else { Some((i, 1 << sc)) },
            disp: s(d),
        },
    }
}
pub fn meaning(r: &Req) -> Op {
    match *r {
        Req::Rr(w, d, s) => Op::MovRR { w, d, s },
        Req::Ri(w, d, imm) => Op::MovRI { w, d, imm },
        Req::St(m, s) => Op::Store { w: 64, mem: meaning_mem(&m), s },
        Req::Lea(d, m) => Op::Lea { w: 64, d, mem: meaning_mem(&m) },
        Req::PushR(w, r) => Op::PushR { w, r },
        Req::PushI(8, v) => Op::PushI { w: 64, val: v as u8 as i8 as i64 as u64 },
        Req::PushI(16, v) => Op::PushI { w: 16, val: v as u16 as u64 },
        Req::PushI(_, v) => Op::PushI { w: 64, val: v as i32 as i64 as u64 },
        Req::PopR(w, r) => Op::PopR { w, r },
        Req::Ret => Op::Ret,
        Req::Syscall => Op::Syscall,
    }
}
fn sut_mem(m: &MemReq) -> Mem64 {
    let r = |i: u8| R64[i as usize];
    match *m {
        MemReq::Reg(b) => Mem64::reg(r(b)),
        MemReq::RegOff(b, d) => Mem64::reg_offset(r(b), d),
        MemReq::Rip(d) => Mem64::rip_offset(d),
        MemReq::Sib(b, d, i, s) => Mem64::sib(b.map(r), d, r(i), s),
    }
}
pub fn sut(r: &Req) -> Vec<u8> {
    let (a, b, c) = (|i: u8| R64[i as usize], |i: u8| R32[i as usize], |i: u8| R16[i as usize]);
    let o = match *r {
        Req::Rr(64, d, s) => Mov::new(a(d), a(s)).bytecode(),
        Req::Rr(32, d, s) => Mov::new(b(d), b(s)).bytecode(),
        Req::Rr(_, d, s) => Mov::new(c(d), c(s)).bytecode(),
        Req::Ri(64, d, i) => Mov::new(a(d), i).bytecode(),
        Req::Ri(32, d, i) => Mov::new(b(d), i as u32).bytecode(),
        Req::Ri(_, d, i) => Mov::new(c(d), i as u16).bytecode(),
        Req::St(m, s) => Mov::new(sut_mem(&m), a(s)).bytecode(),
        Req::Lea(d, m) => Lea::new(a(d), sut_mem(&m)).bytecode(),
        Req::PushR(64, r) => Push::new(a(r)).bytecode(),
        Req::PushR(_, r) => Push::new(c(r)).bytecode(),
        Req::PushI(8, v) => Push::new(v as u8).bytecode(),
        Req::PushI(16, v) => Push::new(v as u16).bytecode(),
        Req::PushI(_, v) => Push::new(v).bytecode(),
        Req::PopR(64, r) => Pop::new(a(r)).bytecode(),
        Req::PopR(_, r) => Pop::new(c(r)).bytecode(),
        Req::Ret => Ret::new().bytecode(),
        Req::Syscall => Syscall::new().bytecode(),
    };
    o.as_ref().to_vec()
}
pub fn show_req(r: &Req) -> String {
    format!("{:x?} = {}", r, show(&meaning(r)))
}
fn key(r: &Req) -> u64 {
    fnv(format!("{:?}", r).as_bytes())
}

fn encode(c: &mut Ctx, r: &Req) -> Option<Vec<u8>> {
    match c.sut(|| show_req(r), || sut(r)) {
        Ok(b) => Some(b),
        Err(e) => {
            c.viol(format!("encoding {} panics: {}", show_req(r), e));
            None
        }
    }
}
/// encode, decode, compare meaning
fn check_decode(c: &mut Ctx, r: &Req) -> Option<(Vec<u8>, Dec)> {
    let b = encode(c, r)?;
    c.case(key(r));
    c.sample(|| format!("{} -> {}", show_req(r), hex(&b)));
    match decode_one(&b) {
        Err(e) => {
            c.viol(format!("{} is encoded as {} which is not one valid instruction: {}", show_req(r), hex(&b), e));
            None
        }
        Ok(d) => {
            if !same(&d.op, &meaning(r)) {
                c.viol(format!("{} is encoded as {} which is: {}", show_req(r), hex(&b), show(&d.op)));
                return None;
            }
            c.ev("encodings decoded and compared");
            Some((b, d))
        }
    }
}

fn start_cpu(c: &mut Ctx) -> Option<Cpu> {
    match Cpu::start() {
        Ok(p) => Some(p),
        Err(e) => {
            c.note(format!("native execution unavailable here ({}); decoder comparison only", e));
            None
        }
    }
}

fn rand_regs(r: &mut Rng) -> [u64; 16] {
    let mut g = [0u64; 16];
    for x in g.iter_mut() {
        *x = r.edgy64();
    }
    g
}
fn fresh_machine(r: &mut Rng) -> Machine {
    let mut low = vec![0u8; cpu::LOW_SZ];
    let o = (cpu::LDATA - cpu::LOW) as usize;
    // recognisable contents around the data area
    for i in 0..0x2000 {
        low[o + i] = r.next() as u8;
    }
    let high: Vec<u8> = (0..cpu::HIGH_SZ).map(|_| r.next() as u8).collect();
    Machine { regs: rand_regs(r), ip: cpu::CODE, wins: vec![(cpu::LOW, low), (cpu::HIGH, high)] }
}
fn target(r: &mut Rng) -> u64 {
    if r.chance(1, 2) {
        cpu::LDATA + 0x800 + r.below(0x1000) as u64
    } else {
        cpu::HIGH + 0x800 + r.below(0x1000) as u64
    }
}

/// Place one instruction, step it on the CPU and on the reference machine.
fn native_one(c: &mut Ctx, p: &mut Cpu, m: &mut Machine, r: &Req, b: &[u8]) {
    let off = c.rng.below(0x4000) as u64;
    m.ip = cpu::CODE + off;
    let mut code = b.to_vec();
    code.extend_from_slice(&[0xcc; 4]);
    m.write(m.ip, &code);
    p.poke(m.ip, &code);
    let before = m.regs;
    match p.lockstep(m, &meaning(r), b.len()) {
        Ok(()) => c.ev("instructions stepped natively, all registers and memory equal"),
        Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
        Err(e) => c.viol(format!(
            "executing {} encoded as {} with registers {:x?} at {:#x}: {}",
            show_req(r),
            hex(b),
            before,
            cpu::CODE + off,
            e
        )),
    }
}

fn imms(w: u8, r: &mut Rng, extra: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff];
    if w >= 32 {
        v.extend([0x10000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ff7f, 0xffff_ff80, 0xffff_ffff]);
        for b in 0..32 {
            v.push(1 << b);
        }
    }
    if w == 64 {
        v.extend([
            0x1_0000_0000,
            0x7fff_ffff_ffff_ffff,
            0x8000_0000_0000_0000,
            0xffff_ffff_8000_0000,
            0xffff_ffff_7fff_ffff,
            0xffff_ffff_ffff_ff80,
            u64::MAX,
            0x0102_0304_0506_0708,
        ]);
        for b in 32..64 {
            v.push(1 << b);
            v.push((1u64 << b) - 1);
        }
    }
    for n in &crate::dict::get().new_nums {
        for d in [0u64, 1, u64::MAX] {
            let x = n.wrapping_add(d);
            v.extend([x, x.wrapping_neg()]);
        }
    }
    for _ in 0..extra {
        v.push(r.edgy64());
    }
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    v.iter().map(|x| x & m).collect()
}

pub fn e01(c: &mut Ctx) {
    let mut reqs: Vec<Req> = Vec::new();
    for w in [16u8, 32, 64] {
        for d in 0..16 {
            for s in 0..16 {
                reqs.push(Req::Rr(w, d, s));
            }
        }
        for d in 0..16u8 {
            let extra = if c.thorough { 6000 } else { 1200 };
            for i in imms(w, &mut c.rng, extra) {
                reqs.push(Req::Ri(w, d, i));
            }
        }
    }
    for r in 0..16 {
        for w in [16, 64] {
            reqs.push(Req::PushR(w, r));
            reqs.push(Req::PopR(w, r));
        }
    }
    for v in 0..=255 {
        reqs.push(Req::PushI(8, v));
    }
    for v in 0..=65535 {
        reqs.push(Req::PushI(16, v));
    }
    let extra = if c.thorough { 200_000 } else { 30_000 };
    for i in imms(32, &mut c.rng, extra) {
        reqs.push(Req::PushI(32, i as u32));
    }
    reqs.push(Req::Ret);
    reqs.push(Req::Syscall);
    let mut p = start_cpu(c);
    let mut m = fresh_machine(&mut c.rng);
    if let Some(p) = &p {
        p.load_windows(&m);
    }
    // every 16-bit constant in every register
    c.phase(40);
    for v in 0..65536usize {
        if !c.mine(v) {
            continue;
        }
        if c.stop() {
            break;
        }
        for d in 0..16 {
            check_decode(c, &Req::Ri(16, d, v as u64));
        }
    }
    c.phase(100);
    let budget = c.n(24_000, 1_200_000);
    let mut stepped = 0;
    // exhaustive enumeration once, then further native rounds with new register files
    let mut round = 0;
    while !c.stop() {
        let mut any = false;
        for (i, r) in reqs.iter().enumerate() {
            if !c.mine(i + round) || c.stop() {
                continue;
            }
            let b = if round == 0 {
                match check_decode(c, r) {
                    Some((b, _)) => b,
                    None => continue,
                }
            } else {
                if p.is_none() || !c.rng.chance(1, 3) {
                    continue;
                }
                match encode(c, r) {
                    Some(b) => b,
                    None => continue,
                }
            };
            // execute: all forms, 16-bit pushes sampled
            if *r == Req::Syscall || stepped >= budget {
                continue;
            }
            if matches!(r, Req::PushI(16, _)) && !c.rng.chance(1, 40) {
                continue;
            }
            if let Some(p) = p.as_mut() {
                // decode again right before running: only known instructions ever execute
                match decode_one(&b) {
                    Ok(d) if d.op != Op::Syscall => {}
                    _ => continue,
                }
                m.regs = rand_regs(&mut c.rng);
                if matches!(r, Req::PushR(..) | Req::PushI(..) | Req::PopR(..) | Req::Ret) {
                    m.regs[4] = target(&mut c.rng) & if c.rng.chance(1, 2) { !7 } else { !1 };
                }
                if *r == Req::Ret {
                    let sp = m.regs[4];
                    let to = cpu::CODE + c.rng.below(0x4000) as u64;
                    m.write(sp, &to.to_le_bytes());
                    p.poke(sp, &to.to_le_bytes());
                }
                native_one(c, p, &mut m, r, &b);
                stepped += 1;
                any = true;
            }
        }
        round += 1;
        if !any || stepped >= budget {
            break;
        }
    }
    c.evn("immediates and register combinations in the enumerated space", if c.shard == 0 { reqs.len() as u64 } else { 0 });
}

pub fn disps(r: &mut Rng, extra: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![
        0, 1, 2, 42, 126, 127, 128, 129, 130, 191, 254, 255, 256, 257, 258, 0x7fff, 0x8000, 0xffff, 0x10000,
        0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_0000, 0xffff_ff00, 0xffff_ff7e, 0xffff_ff7f, 0xffff_ff80,
        0xffff_ff81, 0xffff_fffe, 0xffff_ffff,
    ];
    for n in &crate::dict::get().new_nums {
        for d in [0u64, 1, u64::MAX] {
            let x = n.wrapping_add(d) as u32;
            v.extend([x, x.wrapping_neg()]);
        }
    }
    for _ in 0..extra {
        v.push(r.edgy32());
    }
    v
}

/// registers such that the operand's address lands in a mapped data window; None if it cannot
fn aim(r: &mut Rng, regs: &mut [u64; 16], m: &MemReq, t: u64) -> bool {
    let d = match *m {
        MemReq::Reg(_) => 0,
        MemReq::RegOff(_, d) | MemReq::Rip(d) | MemReq::Sib(_, d, _, _) => d as i32 as i64 as u64,
    };
    let want = t.wrapping_sub(d);
    match *m {
        MemReq::Reg(b) | MemReq::RegOff(b, _) => regs[b as usize] = want,
        MemReq::Rip(_) => return false,
        MemReq::Sib(b, _, i, s) => {
            let f = 1u64 << s;
            match (b, i) {
                (Some(b), 4) => regs[b as usize] = want,
                (None, 4) => return false,
                (Some(b), i) if b == i => regs[b as usize] = want / (f + 1),
                (Some(b), i) => {
                    regs[i as usize] = r.edgy64();
                    regs[b as usize] = want.wrapping_sub(regs[i as usize].wrapping_mul(f));
                }
                (None, i) => regs[i as usize] = want / f,
            }
        }
    }
    true
}

pub fn e02(c: &mut Ctx) {
    let mut p = start_cpu(c);
    let mut m = fresh_machine(&mut c.rng);
    if let Some(p) = &p {
        p.load_windows(&m);
    }
    let extra = if c.thorough { 500 } else { 90 };
    let mut mems: Vec<MemReq> = Vec::new();
    for b in 0..16u8 {
        mems.push(MemReq::Reg(b));
        let lim = if c.thorough { 70_000 } else { 5000 };
        for d in 0..lim {
            mems.push(MemReq::RegOff(b, d));
            mems.push(MemReq::RegOff(b, 0u32.wrapping_sub(d)));
        }
        for d in disps(&mut c.rng, extra) {
            mems.push(MemReq::RegOff(b, d));
        }
    }
    for d in disps(&mut c.rng, 40 * extra) {
        mems.push(MemReq::Rip(d));
    }
    for b in 0..17u8 {
        let base = if b == 16 { None } else { Some(b) };
        for i in 0..16u8 {
            for s in 0..4u8 {
                for d in disps(&mut c.rng, extra) {
                    mems.push(MemReq::Sib(base, d, i, s));
                }
            }
        }
    }
    // every data register with every combination of base, index and scale
    c.phase(40);
    for x in 0..17 * 16 * 4 * 16usize {
        if !c.mine(x) || c.stop() {
            continue;
        }
        let (reg, b, i, s) = ((x % 16) as u8, (x / 16 % 17) as u8, (x / 272 % 16) as u8, (x / 4352) as u8);
        let base = if b == 16 { None } else { Some(b) };
        let far = c.rng.edgy32();
        for d in [0, 1, 127, 128, 0xffff_ff80, 0xffff_ff7f, 0x8000_0000, far] {
            let mut ms = vec![MemReq::Sib(base, d, i, s)];
            if i == 0 && s == 0 {
                ms.push(base.map_or(MemReq::Rip(d), |b| MemReq::RegOff(b, d)));
            }
            if let (0, 0, 0, Some(b)) = (i, s, d, base) {
                ms.push(MemReq::Reg(b));
            }
            for m in ms {
                check_decode(c, &Req::Lea(reg, m));
                check_decode(c, &Req::St(m, reg));
            }
        }
    }
    c.phase(100);
    let budget = c.n(24_000, 1_500_000);
    let stride = (mems.len() * 2 / (budget * c.nshards).max(1)).max(1);
    let mut stepped = 0;
    for (k, mr) in mems.iter().enumerate() {
        if !c.mine(k) {
            continue;
        }
        if c.stop() {
            return;
        }
        let reg = c.rng.below(16) as u8;
        for r in [Req::Lea(reg, *mr), Req::St(*mr, (reg + 5) % 16)] {
            let b = match check_decode(c, &r) {
                Some((b, _)) => b,
                None => continue,
            };
            if stepped >= budget || c.rng.below(stride) != 0 {
                continue;
            }
            if let Some(p) = p.as_mut() {
                m.regs = rand_regs(&mut c.rng);
                let t = target(&mut c.rng);
                let mut regs = m.regs;
                let aimed = aim(&mut c.rng, &mut regs, mr, t);
                let mut ok = aimed;
                if aimed && c.rng.chance(7, 8) || matches!(r, Req::St(..)) {
                    m.regs = regs;
                }
                let mut r2 = r;
                let mut b2 = b.clone();
                if let (Req::St(..), false) = (&r, aimed) {
                    // rip-relative or absolute: choose a displacement that reaches the window
                    let ip = cpu::CODE;
                    let mr2 = match mr {
                        MemReq::Rip(_) => MemReq::Rip((cpu::LDATA + 0x900 - ip) as u32),
                        MemReq::Sib(b, _, i, s) => MemReq::Sib(*b, (cpu::LDATA + 0x900 + (t & 0xff)) as u32, *i, *s),
                        x => *x,
                    };
                    r2 = Req::St(mr2, (reg + 5) % 16);
                    b2 = match check_decode(c, &r2) {
                        Some((b, _)) => b,
                        None => continue,
                    };
                    ok = true;
                }
                if matches!(r2, Req::Lea(..)) {
                    ok = true;
                }
                if !ok {
                    continue;
                }
                native_one(c, p, &mut m, &r2, &b2);
                stepped += 1;
            }
        }
    }
}

pub fn e03(c: &mut Ctx) {
    let mut p = start_cpu(c);
    let mut m = fresh_machine(&mut c.rng);
    if let Some(p) = &p {
        p.load_windows(&m);
    }
    let n = if c.thorough { 40_000 } else { 5000 };
    for k in 0..32usize {
        if !c.mine(k) {
            continue;
        }
        let (w, d) = if k < 16 { (32u8, k as u8) } else { (64u8, k as u8 - 16) };
        let nb = w as usize / 8;
        let mut prefix: Option<Vec<u8>> = None;
        let vals = imms(w, &mut c.rng, n);
        for a in &vals {
            if c.stop() {
                return;
            }
            let r = Req::Ri(w, d, *a);
            let got = c.sut(
                || show_req(&r),
                || {
                    if w == 32 {
                        let i = Mov::new(R32[d as usize], *a as u32);
                        (i.bytecode().as_ref().to_vec(), i.offset_to_imm_bytes() as usize)
                    } else {
                        let i = Mov::new(R64[d as usize], *a);
                        (i.bytecode().as_ref().to_vec(), i.offset_to_imm_bytes() as usize)
                    }
                },
            );
            let (b, off) = match got {
                Ok(x) => x,
                Err(e) => {
                    c.viol(format!("{} panics: {}", show_req(&r), e));
                    continue;
                }
            };
            c.case(key(&r));
            c.sample(|| format!("{} -> {}, field at {}", show_req(&r), hex(&b), off));
            if off + nb > b.len() {
                c.viol(format!("{} -> {}: reported field {}..{} lies outside", show_req(&r), hex(&b), off, off + nb));
                continue;
            }
            match &prefix {
                None => prefix = Some(b[..off].to_vec()),
                Some(x) if x[..] == b[..off] => {}
                Some(x) => {
                    c.viol(format!(
                        "{}: bytes before the field depend on the immediate: {} vs {}",
                        show_req(&r),
                        hex(x),
                        hex(&b[..off])
                    ));
                    continue;
                }
            }
            for _ in 0..3 {
                let mask = if w == 64 { u64::MAX } else { 0xffff_ffff };
                let v2 = if c.rng.chance(1, 2) { *c.rng.pick(&vals) } else { c.rng.edgy64() } & mask;
                let mut pb = b.clone();
                pb[off..off + nb].copy_from_slice(&v2.to_le_bytes()[..nb]);
                let r2 = Req::Ri(w, d, v2);
                match decode_one(&pb) {
                    Ok(dd) if same(&dd.op, &meaning(&r2)) => c.ev("patched fields decoded"),
                    other => {
                        c.viol(format!(
                            "{} -> {}, field {}+{} patched with {:#x}: {} decodes as {}",
                            show_req(&r),
                            hex(&b),
                            off,
                            nb,
                            v2,
                            hex(&pb),
                            other.map(|d| show(&d.op)).unwrap_or_else(|e| e)
                        ));
                        break;
                    }
                }
                if c.rng.chance(1, if c.thorough { 8 } else { 2 }) {
                    if let Some(p) = p.as_mut() {
                        m.regs = rand_regs(&mut c.rng);
                        native_one(c, p, &mut m, &r2, &pb);
                    }
                }
            }
        }
    }
}

/// random instruction; memory operands are aimed at mapped windows given the current registers
fn rand_req(r: &mut Rng, m: &Machine, at: u64) -> Req {
    let reg = |r: &mut Rng| r.below(16) as u8;
    match r.below(12) {
        0 => {
            let w = *r.pick(&[16, 32, 64]);
            Req::Rr(w, reg(r), reg(r))
        }
        1 | 2 => {
            let w = *r.pick(&[16u8, 32, 64]);
            let mask = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            Req::Ri(w, reg(r), r.edgy64() & mask)
        }
        3 => Req::PushR(*r.pick(&[16, 64, 64, 64]), reg(r)),
        4 => Req::PushI(*r.pick(&[8, 8, 16, 32]), r.edgy32()),
        5 => Req::PopR(*r.pick(&[16, 64, 64, 64]), reg(r)),
        6 | 7 => {
            let mr = match r.below(3) {
                0 => MemReq::RegOff(reg(r), r.edgy32()),
                1 => MemReq::Rip(r.edgy32()),
                _ => MemReq::Sib(
                    if r.chance(1, 4) { None } else { Some(reg(r)) },
                    r.edgy32(),
                    reg(r),
                    r.below(4) as u8,
                ),
            };
            Req::Lea(reg(r), mr)
        }
        _ => {
            // store through a register combination that already points close to a window
            let s = reg(r);
            for _ in 0..24 {
                let i = reg(r);
                let sc = r.below(4) as u8;
                let b = reg(r);
                let t = target(r);
                let cand = match r.below(4) {
                    0 => MemReq::RegOff(b, (t.wrapping_sub(m.regs[b as usize])) as u32),
                    1 => MemReq::Rip(t.wrapping_sub(at) as u32),
                    2 => MemReq::Sib(
                        Some(b),
                        t.wrapping_sub(m.regs[b as usize])
                            .wrapping_sub(if i == 4 { 0 } else { m.regs[i as usize] << sc }) as u32,
                        i,
                        sc,
                    ),
                    _ => MemReq::Sib(
                        None,
                        t.wrapping_sub(if i == 4 { 0 } else { m.regs[i as usize] << sc }) as u32,
                        i,
                        sc,
                    ),
                };
                return Req::St(cand, s);
            }
            Req::Rr(64, 0, 1)
        }
    }
}

pub fn e04(c: &mut Ctx) {
    let mut p = start_cpu(c);
    let n = c.n(640, 40_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let mut m = fresh_machine(&mut c.rng);
        m.regs[4] = target(&mut c.rng) & !15;
        let start = m.clone();
        // build the sequence against the reference machine, so that it does not fault
        let mut code: Vec<u8> = Vec::new();
        let mut list: Vec<(usize, Req, usize)> = Vec::new(); // offset, request, length
        let len = c.rng.range(2, 40);
        let mut bad = false;
        while list.len() < len {
            let at = cpu::CODE + code.len() as u64;
            let mut group: Vec<Req> = Vec::new();
            let jump = c.rng.chance(1, 12);
            if !jump {
                let mut r = rand_req(&mut c.rng, &m, at);
                // must not fault on the reference machine, and must not write into the code area
                let mut tries = 0;
                loop {
                    let ok = {
                        let fits = |a: u64, n: u64| {
                            (a >= cpu::LDATA && a.saturating_add(n) <= cpu::LOW + cpu::LOW_SZ as u64)
                                || (a >= cpu::HIGH && a.saturating_add(n) <= cpu::HIGH + cpu::HIGH_SZ as u64)
                        };
                        match meaning(&r) {
                            Op::Store { mem, .. } => {
                                // length is not known yet; rip-relative offsets move by at most 15
                                let a = mem.addr(&m.regs, at + 7);
                                fits(a.wrapping_sub(16), 64)
                            }
                            Op::PushR { .. } | Op::PushI { .. } | Op::PopR { .. } => fits(m.regs[4].wrapping_sub(16), 64),
                            _ => true,
                        }
                    };
                    if ok {
                        break;
                    }
                    tries += 1;
                    r = if tries > 8 { Req::Ri(64, 4, target(&mut c.rng) & !7) } else { rand_req(&mut c.rng, &m, at) };
                }
                group.push(r);
            } else {
                // a jump over junk: the return address is known because the layout is fixed
                let fits = m.regs[4] > cpu::LDATA + 64 && m.regs[4] < cpu::LDATA + 0x4000
                    || m.regs[4] > cpu::HIGH + 64 && m.regs[4] < cpu::HIGH + 0x1000;
                if !fits {
                    group.push(Req::Ri(64, 4, target(&mut c.rng) & !7));
                }
                let via = *c.rng.pick(&[0u8, 1, 8, 12, 13, 15]);
                let junk = c.rng.below(9);
                let mut l = 0;
                for r in &group {
                    l += encode(c, r).map(|b| b.len()).unwrap_or(0);
                }
                let probe = [Req::Ri(64, via, 0), Req::PushR(64, via), Req::Ret];
                for r in &probe {
                    l += encode(c, r).map(|b| b.len()).unwrap_or(0);
                }
                group.push(Req::Ri(64, via, at + (l + junk) as u64));
                group.push(Req::PushR(64, via));
                group.push(Req::Ret);
                for r in &group {
                    match encode(c, r) {
                        Some(b) => {
                            list.push((code.len(), *r, b.len()));
                            m.ip = cpu::CODE + code.len() as u64;
                            code.extend_from_slice(&b);
                            m.exec(&meaning(r), b.len());
                        }
                        None => return,
                    }
                }
                for _ in 0..junk {
                    code.push(0x06); // invalid in 64-bit mode
                }
                group.clear();
                c.ev("jumps over undecodable bytes by push/ret");
            }
            for r in group {
                match encode(c, &r) {
                    Some(b) => {
                        list.push((code.len(), r, b.len()));
                        m.ip = cpu::CODE + code.len() as u64;
                        code.extend_from_slice(&b);
                        if m.exec(&meaning(&r), b.len()) != x86::Ev::None {
                            bad = true;
                        }
                    }
                    None => return,
                }
            }
            if bad {
                break;
            }
        }
        if bad {
            c.ev("sequences skipped (would leave the data windows)");
            continue;
        }
        c.case(fnv(&code));
        c.sample(|| {
            list.iter().map(|(o, r, _)| format!("{:#x}: {}", o, show(&meaning(r)))).collect::<Vec<_>>().join("; ")
        });
        // every boundary must fall where the encoding ends
        let mut fine = true;
        for (o, r, l) in &list {
            match decode(&code[*o..]) {
                Ok(d) if d.len == *l && same(&d.op, &meaning(r)) => {}
                other => {
                    c.viol(format!(
                        "in the concatenation {}: at {:#x} expected {} ({} bytes), found {}",
                        hex(&code),
                        o,
                        show_req(r),
                        l,
                        other.map(|d| format!("{} ({} bytes)", show(&d.op), d.len)).unwrap_or_else(|e| e)
                    ));
                    fine = false;
                    break;
                }
            }
        }
        if !fine {
            continue;
        }
        c.evn("instruction boundaries checked", list.len() as u64);
        if let Some(p) = p.as_mut() {
            let mut m = start;
            m.ip = cpu::CODE;
            let mut img = code.clone();
            img.extend_from_slice(&[0xcc; 8]);
            m.write(cpu::CODE, &img);
            p.load_windows(&m);
            let mut steps = 0;
            for (o, r, l) in &list {
                if m.ip != cpu::CODE + *o as u64 {
                    panic!("HARNESS: layout");
                }
                match p.lockstep(&mut m, &meaning(r), *l) {
                    Ok(()) => steps += 1,
                    Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
                    Err(e) => {
                        c.viol(format!("sequence {}: step at {:#x} ({}): {}", hex(&code), o, show_req(r), e));
                        break;
                    }
                }
            }
            c.evn("steps executed natively in sequence", steps);
        }
    }
}

/// the registers an instruction names, by role
fn roles(o: &Op) -> Vec<(u8, u8)> {
    let m = |m: &Mem| {
        let (l, _, rip) = m.linear();
        let mut v: Vec<(u8, u8)> = l.iter().map(|(r, f)| (10 + *f as u8, *r)).collect();
        if rip {
            v.push((9, 0));
        }
        v
    };
    match o {
        Op::MovRR { w, d, s } => vec![(*w, 0), (1, *d), (2, *s)],
        // small immediates may be loaded through the 32-bit form
        Op::MovRI { d, .. } => vec![(1, *d)],
        Op::Store { mem, s, .. } => [vec![(2, *s)], m(mem)].concat(),
        Op::Load { mem, d, .. } => [vec![(1, *d)], m(mem)].concat(),
        Op::Lea { mem, d, .. } => [vec![(1, *d)], m(mem)].concat(),
        Op::PushR { w, r } => vec![(*w, 3), (1, *r)],
        Op::PopR { w, r } => vec![(*w, 4), (1, *r)],
        Op::PushI { .. } | Op::Ret | Op::Syscall => vec![],
    }
}
/// does the encoding select the registers asked for (whatever else it does)?
fn check_regs(c: &mut Ctx, r: &Req) {
    let b = match c.sut(|| show_req(r), || sut(r)) {
        Ok(b) => b,
        Err(_) => return c.ev("encodings not judged (another property's matter)"),
    };
    c.case(key(r));
    let want = meaning(r);
    match decode_one(&b) {
        Ok(d) if std::mem::discriminant(&d.op) == std::mem::discriminant(&want) => {
            c.ev("encodings whose registers were compared");
            if roles(&d.op) != roles(&want) {
                c.viol(format!("{} is encoded as {} which is: {}", show_req(r), hex(&b), show(&d.op)));
            }
        }
        _ => c.ev("encodings not judged (another property's matter)"),
    }
}

pub fn e05(c: &mut Ctx) {
    let exe = std::env::current_exe().unwrap();
    let mut wk = Worker::new(&exe, &c.dir.clone(), &format!("e05-{}", c.shard));
    // printed names, encodings, widening
    c.phase(30);
    for i in 0..16u8 {
        let k = i as usize;
        let all: [(u8, String, String); 4] = [
            (64, R64[k].to_string(), Reg::Reg64(R64[k]).to_string()),
            (32, R32[k].to_string(), Reg::Reg32(R32[k]).to_string()),
            (16, R16[k].to_string(), Reg::Reg16(R16[k]).to_string()),
            (8, R8[k].to_string(), Reg::Reg8(R8[k]).to_string()),
        ];
        for (w, a, b) in &all {
            c.case(fnv(format!("name {} {}", w, i).as_bytes()));
            c.ev("register names checked");
            if a != rname(*w, i) || b != a {
                c.viol(format!("register {} of width {} prints as {:?} / {:?}, its name is {}", i, w, a, b, rname(*w, i)));
            }
        }
        if R32[k].to_reg64() != R64[k] {
            c.viol(format!("{} widens to {}, it is the low half of {}", N32[k], R32[k].to_reg64(), N64[k]));
        }
        if R16[k].to_reg32() != R32[k] {
            c.viol(format!("{} widens to {}, it is the low half of {}", N16[k], R16[k].to_reg32(), N32[k]));
        }
        c.evn("widenings checked", 2);
        // code + extension bit identify the architectural number
        let codes = [
            (64, R64[k].register_code(), R64[k].is_extended()),
            (32, R32[k].register_code(), R32[k].is_extended()),
            (16, R16[k].register_code(), R16[k].is_extended()),
            (64, R64[k].reg_bits(), R64[k].rex_r_bit()),
            (64, R64[k].rm_bits(), R64[k].rex_b_bit()),
        ];
        for (w, code, ext) in codes {
            c.ev("register codes checked");
            if code != i & 7 || ext != (i >= 8) {
                c.viol(format!("{} reports code {} extension {}", rname(w, i), code, ext));
            }
        }
        // which register do its encodings select
        'enc: for j in 0..16u8 {
            for w in [16u8, 32, 64] {
                for r in [Req::Rr(w, i, j), Req::Ri(w, i, j as u64 + 1)] {
                    if c.stop() {
                        break 'enc;
                    }
                    check_regs(c, &r);
                }
            }
            let mr = MemReq::Sib(Some(i), 64, j, 1);
            check_regs(c, &Req::Lea(j, mr));
            check_regs(c, &Req::St(MemReq::RegOff(i, 64), j));
        }
        for w in [16u8, 64] {
            check_regs(c, &Req::PushR(w, i));
            check_regs(c, &Req::PopR(w, i));
        }
    }
    // the assembler accepts the printed name as that register; every use of a register in a line
    let mut cases: Vec<(String, Op)> = Vec::new();
    for i in 0..16u8 {
        let k = i as usize;
        for j in 0..16u8 {
            let l = j as usize;
            cases.push((format!("mov {}, {}", R64[k], R64[l]), Op::MovRR { w: 64, d: i, s: j }));
            cases.push((format!("mov {}, {}", R32[k], R32[l]), Op::MovRR { w: 32, d: i, s: j }));
            cases.push((format!("mov {}, {}", R16[k], R16[l]), Op::MovRR { w: 16, d: i, s: j }));
        }
        cases.push((format!("mov {}, 77", R64[k]), Op::MovRI { w: 64, d: i, imm: 77 }));
        cases.push((format!("mov {}, 77", R32[k]), Op::MovRI { w: 32, d: i, imm: 77 }));
        cases.push((format!("mov {}, 77", R16[k]), Op::MovRI { w: 16, d: i, imm: 77 }));
        cases.push((format!("push {}", R64[k]), Op::PushR { w: 64, r: i }));
    }
    c.phase(60);
    for (k, (line, op)) in cases.iter().enumerate() {
        if !c.mine(k) {
            continue;
        }
        if c.stop() {
            break;
        }
        c.alive();
        c.case(fnv(line.as_bytes()));
        match wk.assemble(format!("{}\n", line).as_bytes()) {
            Res::Ok(obj) => {
                // the code bytes: one section, right after the load commands
                let text = match crate::macho::quick_section(&obj, "__text") {
                    Ok(t) => t,
                    Err(e) => {
                        c.note(format!("object of {:?} not readable here: {}", line, e));
                        c.ev("objects not readable (another property's matter)");
                        continue;
                    }
                };
                match decode_one(&text) {
                    Ok(d) if std::mem::discriminant(&d.op) == std::mem::discriminant(op) => {
                        c.ev("assembled register names decoded");
                        if roles(&d.op) != roles(op) {
                            c.viol(format!("line {:?} assembles to {}: {}", line, hex(&text), show(&d.op)));
                        }
                    }
                    _ => c.ev("encodings not judged (another property's matter)"),
                }
            }
            r => c.viol(format!("line {:?}: {}", line, r.short())),
        }
    }
    // and as nothing else: a name of another width, or no register's name, is not accepted for one
    let mut wrong: Vec<String> = Vec::new();
    let names: [(u8, &[&str; 16]); 4] = [(64, &N64), (32, &N32), (16, &N16), (8, &N8)];
    for (wd, d) in &names {
        for (ws, s) in &names {
            if wd == ws && *wd != 8 {
                continue;
            }
            for a in d.iter() {
                for b in s.iter() {
                    wrong.push(format!("mov {}, {}", a, b));
                }
            }
        }
    }
    for (w, t) in &names {
        for a in t.iter() {
            if *w != 64 {
                wrong.push(format!("push {}", a));
            }
            if *w == 8 {
                wrong.push(format!("mov {}, 1", a));
            }
        }
    }
    for a in ["r16", "r0", "r7", "r08", "r8x", "r15q", "r10l", "r8b0", "eex", "rxx", "rsx", "ra", "rdx0", "xax", "RAX", "Rax", "R8", "R8D", "EAX", "AX", "spx", "rflags", "cs", "st0", "xmm0", "mm0", "cr0", "r1", "r 8", "rip", "eip", "ip", "ah", "bh", "%rax", "$rax"] {
        wrong.push(format!("mov {}, 1", a));
        wrong.push(format!("push {}", a));
        for b in ["rax", "r9", "ecx", "r9d", "cx", "r9w"] {
            wrong.push(format!("mov {}, {}", b, a));
            wrong.push(format!("mov {}, {}", a, b));
        }
    }
    c.phase(100);
    for (k, line) in wrong.iter().enumerate() {
        if !c.mine(k) {
            continue;
        }
        if c.stop() {
            return;
        }
        c.alive();
        c.case(fnv(line.as_bytes()));
        match wk.assemble(format!("{}\n", line).as_bytes()) {
            r if r.rejected() => c.ev("names of other widths or of no register refused"),
            r => c.viol(format!("line {:?} is accepted: {}", line, r.short())),
        }
    }
}
