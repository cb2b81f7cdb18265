//! A01-A06, A08, A09, A12: the assembler library. (A07 and A11, the command: cli.rs; A10: run.rs.)
use crate::asmgen::*;
use crate::core::*;
use crate::link;
use crate::macho::{self, File};
use crate::o::new_worker;
use crate::util::*;
use crate::worker::*;
use crate::x86::{self, Op};

pub fn quote(src: &str) -> String {
    let lines: Vec<String> = src.split('\n').map(|l| if l.len() > 300 { clip(l, 250) } else { l.to_string() }).collect();
    clip(&lines.join("\n"), 3000)
}

/// Smallest sub-list of statements that still fails.
pub fn shrink_prog(p: &[Stmt], bad: &mut dyn FnMut(&[Stmt]) -> bool) -> Prog {
    let mut cur = p.to_vec();
    let mut budget = 300;
    let t0 = std::time::Instant::now();
    let mut step = (cur.len() / 2).max(1);
    loop {
        let mut k = 0;
        let mut moved = false;
        while k < cur.len() && budget > 0 {
            let mut t = cur.clone();
            t.drain(k..(k + step).min(t.len()));
            budget = if t0.elapsed().as_secs() > 20 { 0 } else { budget - 1 };
            if !t.is_empty() && bad(&t) {
                cur = t;
                moved = true;
            } else {
                k += step;
            }
        }
        if budget <= 0 || (step == 1 && !moved) {
            return cur;
        }
        if !moved {
            step = (step / 2).max(1);
        }
    }
}

/// every label a kept reference needs is still there
fn closed(p: &[Stmt]) -> bool {
    p.iter().all(|s| match s {
        Stmt::MovRL(_, _, n) => p.iter().any(|t| t.label() == Some(n)),
        _ => true,
    })
}

/// Assemble programs and judge each object; report a shrunk program.
fn sweep(
    c: &mut Ctx,
    wk: &mut Worker,
    quick: usize,
    thorough: usize,
    gen: &dyn Fn(&mut Rng) -> Prog,
    style: Style,
    judge: &dyn Fn(&[Stmt], &Res, &mut Seen) -> Result<(), String>,
) {
    let n = c.n(quick, thorough);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let mut p = gen(&mut c.rng);
        if c.rng.chance(1, 60) {
            inflate(&mut c.rng, &mut p);
            c.ev("programs stretched with filler");
        }
        let src = render(&p, &mut c.rng, style);
        c.case(fnv(src.as_bytes()));
        c.sample(|| quote(&src));
        let res = wk.assemble(src.as_bytes());
        let mut seen = Seen::default();
        let r = judge(&p, &res, &mut seen);
        for (k, n) in &seen.0 {
            c.evn(k, *n);
        }
        if let Err(e0) = r {
            if e0.starts_with("SKIP") {
                c.note(e0);
                c.ev("objects not readable (another property's matter)");
                continue;
            }
            let src0 = src;
            let small = shrink_prog(&p, &mut |t| {
                closed(t) && {
                    let r = wk.assemble(plain(t).as_bytes());
                    matches!(judge(t, &r, &mut Seen::default()), Err(e) if !e.starts_with("SKIP"))
                }
            });
            let src = plain(&small);
            let r = wk.assemble(src.as_bytes());
            match judge(&small, &r, &mut Seen::default()) {
                Err(e) => c.viol(format!("{}\nsource:\n{}", e, quote(&src))),
                // only this rendering fails
                Ok(()) => c.viol(format!("{}\nsource:\n{}", e0, quote(&src0))),
            }
        }
    }
}
/// Programs behind a filler of up to many megabytes: what follows lies far out.
fn huge(
    c: &mut Ctx,
    wk: &mut Worker,
    refs: bool,
    gen: &dyn Fn(&mut Rng) -> Prog,
    judge: &dyn Fn(&[Stmt], &Res, &mut Seen) -> Result<(), String>,
) {
    let top = if c.thorough { 26 } else { 24 };
    let all: Vec<(u32, Sec)> = (17..=top).rev().flat_map(|k| [(k, Sec::Text), (k, Sec::Data)]).collect();
    for (j, (bits, sec)) in all.into_iter().enumerate() {
        if !c.mine(j) || c.stop() {
            continue;
        }
        c.alive();
        let size = (1usize << bits) - c.rng.below(16);
        let fill: String = (0..size).map(|i| (b'a' + ((i + i / 251 + i / 65_521) % 26) as u8) as char).collect();
        let mut p: Prog = vec![
            Stmt::Section(sec),
            Stmt::Data { label: Some("huge_0".into()), unit: 1, items: vec![Item::Str(fill)] },
            Stmt::Label("huge_1".into()),
            Stmt::Data { label: Some("huge_2".into()), unit: 1, items: vec![Item::Num(Lit { text: "7".into(), val: 7 })] },
            Stmt::Section(Sec::Text),
        ];
        if refs {
            p.push(Stmt::MovRL(64, c.rng.below(16) as u8, "huge_2".into()));
        }
        let rest = gen(&mut c.rng);
        p.extend(rest.iter().cloned());
        p.push(Stmt::Section(sec));
        p.push(Stmt::Label("huge_3".into()));
        let src = plain(&p);
        c.case(fnv(src.as_bytes()));
        let res = wk.assemble(src.as_bytes());
        let mut seen = Seen::default();
        let r = judge(&p, &res, &mut seen);
        for (k, n) in &seen.0 {
            c.evn(k, *n);
        }
        match r {
            Ok(()) => c.ev("programs behind a filler of up to many megabytes"),
            Err(e) if e.starts_with("SKIP") => c.note(e),
            Err(e) => {
                let e: String = e.chars().take(600).collect();
                let at = src.find('"').unwrap();
                let cut = format!("{}<a string of {} letters>{}", &src[..at], size, &src[at + size + 2..]);
                c.viol(format!("{}\nsource:\n{}", e, quote(&cut)))
            }
        }
    }
}

#[derive(Default)]
pub struct Seen(Vec<(&'static str, u64)>);
impl Seen {
    fn ev(&mut self, k: &'static str, n: u64) {
        match self.0.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 += n,
            None => self.0.push((k, n)),
        }
    }
}

fn object(r: &Res) -> Result<File, String> {
    match r {
        Res::Ok(b) => macho::parse(b).map_err(|e| format!("SKIP object unreadable: {}", e)),
        r => Err(format!("a valid program is not assembled: {}", r.short())),
    }
}

// ------------------------------------------------------------------ A01

fn judge_code(p: &[Stmt], r: &Res, s: &mut Seen) -> Result<(), String> {
    let f = object(r)?;
    let w = link::walk(p, &f)?;
    for (k, st) in p.iter().enumerate() {
        if let (Some(op), Some(d)) = (st.op(), w.dec[k]) {
            if !x86::same(&d.op, &op) {
                let data = &f.sects[link::sect_index(&f, w.secs[k]).unwrap()].data;
                let a = w.pos[k] as usize;
                return Err(format!("line {} is assembled as {}: {}", quote(&line(st, &mut Rng::new(1), Style::Plain)), hex(&data[a..a + d.len]), x86::show(&d.op)));
            }
            s.ev(
                match st {
                    Stmt::MovRR(..) => "mov register lines decoded",
                    Stmt::MovRI(..) => "mov immediate lines decoded",
                    Stmt::MovRL(..) => "mov label lines decoded",
                    Stmt::PushR(_) => "push register lines decoded",
                    Stmt::PushI(_) => "push number lines decoded",
                    Stmt::Ret => "ret lines decoded",
                    _ => "syscall lines decoded",
                },
                1,
            );
        }
    }
    Ok(())
}
fn ins_only(r: &mut Rng, n: usize, wild: bool) -> Prog {
    let mut used = Vec::new();
    let labels: Vec<String> = (0..3).map(|_| label(r, &mut used)).collect();
    let o = Opts { wild_lits: wild, ..Opts::mixed(n) };
    let mut p: Prog = (0..r.range(1, n)).map(|_| ins(r, &labels, &o)).collect();
    for l in labels {
        p.push(Stmt::Label(l));
    }
    p
}
/// Programs of a few hundred lines that together hold every 16-bit value in four kinds of line.
fn every_small(
    c: &mut Ctx,
    wk: &mut Worker,
    judge: &dyn Fn(&[Stmt], &Res, &mut Seen) -> Result<(), String>,
    mk: &dyn Fn(&mut Rng, u64, usize) -> Stmt,
) {
    for k in 0..65536 / 256 * 4usize {
        if !c.mine(k) || c.stop() {
            continue;
        }
        c.alive();
        let p: Prog = (0..256u64).map(|v| mk(&mut c.rng, (k / 4) as u64 * 256 + v, k % 4)).collect();
        let src = plain(&p);
        c.case(fnv(src.as_bytes()));
        let mut s = Seen::default();
        let r = wk.assemble(src.as_bytes());
        match judge(&p, &r, &mut s) {
            Ok(()) => c.evn("lines with every 16-bit value", 256),
            Err(_) => {
                let small = shrink_prog(&p, &mut |t| judge(t, &wk.assemble(plain(t).as_bytes()), &mut Seen::default()).is_err());
                let src = plain(&small);
                let e = judge(&small, &wk.assemble(src.as_bytes()), &mut Seen::default()).err().unwrap_or_default();
                c.viol(format!("{}\nsource:\n{}", e, quote(&src)));
            }
        }
    }
}
pub fn a01(c: &mut Ctx) {
    let mut wk = new_worker(c, "a01");
    // every register pair and every width, once
    let mut all: Vec<Stmt> = Vec::new();
    for w in [16u8, 32, 64] {
        for a in 0..16 {
            for b in 0..16 {
                all.push(Stmt::MovRR(w, a, b));
            }
            for v in [0u64, 1, 0x7f, 0x80, 0xff, 0x7fff, 0xffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 63, u64::MAX] {
                if w == 64 || v < 1 << w {
                    all.push(Stmt::MovRI(w, a, Val::One(Lit { text: v.to_string(), val: v })));
                }
            }
        }
    }
    for a in 0..16 {
        all.push(Stmt::PushR(a));
    }
    for v in (0..0x200u64).chain([0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_fffe, 0x7fff_ffff]) {
        all.push(Stmt::PushI(Lit { text: v.to_string(), val: v }));
        all.push(Stmt::PushI(Lit { text: format!("0x{:x}", v), val: v }));
    }
    all.push(Stmt::Ret);
    all.push(Stmt::Syscall);
    let chunks: Vec<Vec<Stmt>> = all.chunks(29).map(|x| x.to_vec()).collect();
    c.phase(30);
    for (k, p) in chunks.iter().enumerate() {
        if !c.mine(k) || c.stop() {
            continue;
        }
        c.alive();
        let src = plain(p);
        c.case(fnv(src.as_bytes()));
        let mut s = Seen::default();
        let r = wk.assemble(src.as_bytes());
        if judge_code(p, &r, &mut s).is_err() {
            let small = shrink_prog(p, &mut |t| judge_code(t, &wk.assemble(plain(t).as_bytes()), &mut Seen::default()).is_err());
            let src = plain(&small);
            let e = judge_code(&small, &wk.assemble(src.as_bytes()), &mut Seen::default()).err().unwrap_or_default();
            c.viol(format!("{}\nsource:\n{}", e, quote(&src)));
        }
        for (k, n) in &s.0 {
            c.evn(k, *n);
        }
    }
    // every 16-bit constant as an operand
    c.phase(45);
    every_small(c, &mut wk, &judge_code, &|r, v, w| match w {
        0 => Stmt::PushI(lit_of(r, v, true)),
        1 => Stmt::MovRI(16, r.below(16) as u8, Val::One(lit_of(r, v, true))),
        _ => Stmt::MovRI(if w == 2 { 32 } else { 64 }, r.below(16) as u8, Val::One(lit_of(r, v, true))),
    });
    c.phase(60);
    sweep(c, &mut wk, 1500, 60_000, &|r| ins_only(r, 40, false), Style::Plain, &judge_code);
    c.phase(85);
    sweep(c, &mut wk, 500, 20_000, &|r| gen(r, &Opts::mixed(40)), Style::Plain, &judge_code);
    c.phase(100);
    // numbers the operand does not hold: rejected, or carried exactly all the same
    let mut k = 0;
    let n = c.n(1800, 60_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let w = [0u8, 0, 16, 32][k % 4];
        let lim = if w == 0 { 31 } else { w as u32 };
        // every bit beyond the operand in turn, alone or over a small or any rest
        let bit = 1u64 << (lim + (k / 4) as u32 % (64 - lim));
        k += 1;
        let low = (1u64 << lim) - 1;
        let v = match c.rng.below(6) {
            0 => bit,
            1 => bit | c.rng.below(300) as u64,
            2 => bit | (c.rng.next() & low),
            3 => bit | c.rng.edgy64(),
            4 => bit | (low - c.rng.below(300) as u64),
            _ => c.rng.next() | bit,
        };
        let st = if w == 0 {
            Stmt::PushI(lit_of(&mut c.rng, v, true))
        } else {
            let val = match c.rng.below(3) {
                0 => {
                    let (b, plus) = (c.rng.edgy64(), c.rng.chance(1, 2));
                    let a = if plus { v.wrapping_sub(b) } else { v.wrapping_add(b) };
                    Val::Bin(lit_of(&mut c.rng, a, true), plus, lit_of(&mut c.rng, b, true))
                }
                _ => Val::One(lit_of(&mut c.rng, v, true)),
            };
            Stmt::MovRI(w, c.rng.below(16) as u8, val)
        };
        let src = plain(&[st.clone()]);
        c.case(fnv(src.as_bytes()));
        match wk.assemble(src.as_bytes()) {
            Res::Ok(b) => {
                let t = macho::quick_section(&b, "__text").unwrap_or_default();
                let want = st.op().unwrap();
                match x86::decode_one(&t) {
                    Ok(d) if d.len == t.len() && d.op == want => c.ev("wide numbers carried exactly"),
                    Ok(d) => c.viol(format!("{:?} is assembled as {}: {}", src.trim(), hex(&t), x86::show(&d.op))),
                    Err(e) => c.viol(format!("{:?} is assembled as {}: {}", src.trim(), hex(&t), e)),
                }
            }
            r if r.rejected() => c.ev("numbers no operand of that width can carry rejected"),
            r => c.viol(format!("{:?}: {}", src.trim(), r.short())),
        }
    }
}

// ------------------------------------------------------------------ A02

fn lit_line(r: &mut Rng) -> Stmt {
    match r.below(8) {
        0..=3 => {
            let w = *r.pick(&[64u8, 64, 32, 16]);
            Stmt::MovRI(w, r.below(16) as u8, val(r, w, true))
        }
        4 => Stmt::PushI(lit(r, 0x7fff_ffff, true)),
        _ => {
            let unit = *r.pick(&[1u8, 2, 4, 8]);
            let max = if unit == 8 { u64::MAX } else { (1u64 << (8 * unit)) - 1 };
            let items = (0..r.range(1, 4)).map(|_| Item::Num(lit(r, max, true))).collect();
            Stmt::Data { label: None, unit, items }
        }
    }
}
fn judge_values(p: &[Stmt], r: &Res, s: &mut Seen) -> Result<(), String> {
    let f = match r {
        Res::Ok(b) => macho::parse(b).map_err(|e| format!("SKIP {}", e)),
        r => Err(format!("literals within range are rejected: {}", r.short())),
    }?;
    let w = match link::walk(p, &f) {
        Ok(w) => w,
        Err(e) => return Err(format!("the emitted bytes do not match the lines: {}", e)),
    };
    for (k, st) in p.iter().enumerate() {
        let data = &f.sects[link::sect_index(&f, w.secs[k]).ok_or("section missing")?].data;
        let a = w.pos[k] as usize;
        let text = || quote(&line(st, &mut Rng::new(1), Style::Plain));
        match st {
            Stmt::MovRI(width, _, v) => {
                // what the register receives
                let got = match w.dec[k].map(|d| d.op) {
                    Some(Op::MovRI { w: dw, imm, .. }) => {
                        if dw == 32 {
                            imm & 0xffff_ffff
                        } else {
                            imm
                        }
                    }
                    o => return Err(format!("{} is assembled as {:?}", text(), o)),
                };
                let m = if *width == 64 { u64::MAX } else { (1u64 << width) - 1 };
                if got & m != v.value() || got > m {
                    return Err(format!("{}: the value loaded is {:#x}, the literal means {:#x}", text(), got, v.value()));
                }
                s.ev(if matches!(v, Val::Bin(..)) { "sums and differences compared" } else { "instruction literals compared" }, 1);
            }
            Stmt::PushI(l) => match w.dec[k].map(|d| d.op) {
                Some(Op::PushI { w: 64, val }) if val == l.val => s.ev("instruction literals compared", 1),
                o => return Err(format!("{}: pushes {:x?}, the literal means {:#x}", text(), o, l.val)),
            },
            Stmt::Data { items, .. } => {
                let want = st.bytes().unwrap();
                if data[a..a + want.len()] != want[..] {
                    return Err(format!("{}: bytes {}", text(), hex(&data[a..a + want.len()])));
                }
                s.ev("data literals compared", items.len() as u64);
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn is_number(t: &str) -> bool {
    match t.strip_prefix("0x") {
        Some(h) => !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()),
        None => !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()),
    }
}
/// A number with characters put in, taken out or changed so that it is none any more.
fn broken_number(r: &mut Rng) -> String {
    loop {
        let v = r.edgy64() >> r.below(60);
        let mut t: Vec<char> = lit_of(r, v, true).text.chars().collect();
        for _ in 0..r.range(1, 2) {
            let at = match r.below(3) {
                0 => t.len(),
                1 => 0,
                _ => r.below(t.len() + 1),
            };
            let ch = match r.below(12) {
                0 => *r.pick(&['é', '１', '٣', '²', '½', 'Ⅷ', 'ａ', '₀', '０']),
                1..=4 => *r.pick(&['_', '-', '.', '\'', 'x', 'h', 'u', 'L', 'b', 'o', 'd', 'q', '#', '$', '%', '&']),
                _ => (0x21 + r.below(0x5e) as u8) as char,
            };
            if r.chance(1, 5) && at < t.len() {
                t[at] = ch;
            } else {
                t.insert(at, ch);
            }
        }
        let t: String = t.into_iter().collect();
        // a sign in front, a capital prefix and what ends the token are left out
        if is_number(&t) || t.starts_with('+') || t.contains([',', ';', '"', ':']) || t.contains("0X") || t == "-" || [x86::N64, x86::N32, x86::N16].iter().any(|n| n.contains(&t.as_str())) {
            continue;
        }
        return t;
    }
}

/// Single lines whose literal does not fit or is not one.
pub fn bad_literal(r: &mut Rng) -> String {
    let over = |r: &mut Rng, bits: u32| -> String {
        // a value of more than `bits` bits, possibly more than 64
        let v: u128 = match r.below(8) {
            0 => 1u128 << bits,
            // a small negative number in the next or the widest size
            4 | 5 => {
                let top = if bits == 64 { u128::MAX } else { *r.pick(&[u64::MAX as u128, u64::MAX as u128, (1u128 << (2 * bits)) - 1]) };
                let k = *r.pick(&[0, 1, 127, 128, 255, (1u128 << (bits - 1)) - 1, 1u128 << (bits - 1), (1u128 << bits) - 1]);
                top - if r.chance(1, 2) { k } else { r.next() as u128 % (1u128 << bits.min(63)) }
            }
            // the same digits over again
            6 => {
                let low = r.next() as u128 % (1u128 << bits) | 1;
                (0..128 / bits).fold(0, |a, _| a << bits | low)
            }
            // any larger number
            7 => ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128 - bits as usize) | 1u128 << bits,
            1 => (1u128 << bits) + r.below(300) as u128,
            2 => (1u128 << bits) * (1 + r.below(60000) as u128) + r.next() as u128 % (1u128 << bits),
            _ => {
                let b = r.range(bits as usize, 127);
                1u128 << b
            }
        };
        if r.chance(1, 2) {
            format!("{}", v)
        } else {
            format!("0x{:x}", v)
        }
    };
    let notnum = |r: &mut Rng| -> String {
        let v = r.below(1000);
        if r.chance(1, 2) {
            return broken_number(r);
        }
        match r.below(16) {
            0 => "0x".into(),
            1 => format!("{}a", v),
            2 => format!("0x{:x}g", v),
            3 => format!("{}.5", v),
            4 => format!("1_{}", v),
            5 => format!("0x0x{:x}", v),
            6 => format!("-{}", v),
            7 => format!("--{}", v),
            8 => format!("0x{}{:x}", r.pick(&['-', '+', '+']), v),
            9 => format!("0b{:b}", v),
            10 => format!("{}h", v),
            11 => format!("'{}'", v),
            12 => format!("{}e3", v),
            13 => format!("0x{:x}.", v),
            14 => format!("{}x{}", v + 1, v),
            _ => format!("0x0x0x{:x}", v),
        }
    };
    let w = *r.pick(&[16u8, 32, 64]);
    let reg = x86::rname(w, r.below(16) as u8);
    match r.below(12) {
        0 | 1 => format!("mov {}, {}", reg, over(r, w as u32)),
        2 | 3 => {
            let (u, b) = *r.pick(&[("db", 8), ("dw", 16), ("dd", 32), ("dq", 64)]);
            match r.below(3) {
                0 => format!("{} {}", u, over(r, b)),
                1 => format!("{} 1, {}", u, over(r, b)),
                _ => format!("{} {}, 1", u, over(r, b)),
            }
        }
        4 => format!("push {}", over(r, 64)),
        5 => format!("mov {}, {}", reg, notnum(r)),
        6 => {
            let u = *r.pick(&["db", "dw", "dd", "dq"]);
            let n = notnum(r);
            match r.below(4) {
                0 => format!("{} 1, {}", u, n),
                1 => format!("{} {}, 1", u, n),
                2 => format!("x {} \"a\", {}", u, n),
                _ => format!("{} {}", u, n),
            }
        }
        7 => format!("push {}", notnum(r)),
        8 => {
            // a sum or difference that does not fit the operand
            let w = *r.pick(&[16u8, 32]);
            let reg = x86::rname(w, r.below(16) as u8);
            let lim = 1u64 << w;
            let k = 1 + r.below(1000) as u64;
            if r.chance(1, 2) {
                format!("mov {}, {} + {}", reg, lim - k, k + r.below(5) as u64)
            } else {
                format!("mov {}, {} - {}", reg, k, k + 1 + r.below(5) as u64)
            }
        }
        9 => format!("mov {}, {} {} {}", reg, r.below(100), r.pick(&["+", "-"]), over(r, 64)),
        10 if r.chance(1, 2) => format!("mov {}, {} {} {}", reg, r.below(100), r.pick(&["+", "-"]), notnum(r)),
        10 => format!("mov {}, {} {} {}", reg, notnum(r), r.pick(&["+", "-"]), r.below(100)),
        _ => {
            let a = r.below(100);
            let t = match r.below(7) {
                0 => format!("{} + 2 + 3", a),
                1 => format!("{} +", a),
                2 => format!("{} - 1 2", a),
                3 => format!("{} 2", a),
                4 => format!("+ {}", a),
                5 => format!("{} - - 1", a),
                _ => format!("{} * 2", a),
            };
            format!("mov {}, {}", reg, t)
        }
    }
}
pub fn a02(c: &mut Ctx) {
    let mut wk = new_worker(c, "a02");
    // every 16-bit value in data of every unit
    c.phase(25);
    every_small(c, &mut wk, &judge_values, &|r, v, w| {
        let unit = [2u8, 4, 8, 2][w];
        let hi = if w == 3 { v } else { v | (r.next() & umax(unit as u32 * 8) & !0xffff) };
        let v = if r.chance(1, 2) { v } else { hi };
        Stmt::Data { label: None, unit, items: vec![Item::Num(lit_of(r, v, true))] }
    });
    c.phase(60);
    sweep(c, &mut wk, 2500, 100_000, &|r| (0..r.range(1, 30)).map(|_| lit_line(r)).collect(), Style::Plain, &judge_values);
    c.phase(100);
    let n = c.n(2400, 80_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let l = bad_literal(&mut c.rng);
        let src = match c.rng.below(3) {
            0 => l.clone(),
            1 => format!("{}\n", l),
            _ => format!("ret\n{}\nret\n", l),
        };
        c.case(fnv(src.as_bytes()));
        let r = wk.assemble(src.as_bytes());
        match r {
            Res::Ok(b) => {
                let t = macho::quick_section(&b, "__text").unwrap_or_default();
                c.viol(format!("line {:?} is accepted: text is {}", l, hex(&t)));
            }
            r if r.rejected() => c.ev("literals that do not fit or are none rejected"),
            r => c.viol(format!("line {:?}: {}", l, r.short())),
        }
    }
}

// ------------------------------------------------------------------ A03

fn judge_data(p: &[Stmt], r: &Res, s: &mut Seen) -> Result<(), String> {
    let f = object(r)?;
    let secs = sections(p);
    let mut want: [Vec<u8>; 2] = Default::default();
    let mut n = 0;
    for (k, st) in p.iter().enumerate() {
        if let (Some(b), Stmt::Data { items, .. }) = (st.bytes(), st) {
            want[secs[k] as usize].extend(b);
            n += items.len() as u64;
        }
    }
    for (i, sec) in [Sec::Text, Sec::Data].iter().enumerate() {
        let e: Vec<u8> = Vec::new();
        let got = link::sect_index(&f, *sec).map(|k| &f.sects[k].data).unwrap_or(&e);
        if *got != want[i] {
            let k = (0..want[i].len().max(got.len())).find(|&k| got.get(k) != want[i].get(k)).unwrap();
            return Err(format!(
                "{} differs at offset {:#x}: [{}] instead of [{}]",
                sec.sectname(),
                k,
                hex(&got[k.min(got.len())..got.len().min(k + 16)]),
                hex(&want[i][k.min(want[i].len())..want[i].len().min(k + 16)])
            ));
        }
    }
    s.ev("data items compared", n);
    Ok(())
}
pub fn a03(c: &mut Ctx) {
    let mut wk = new_worker(c, "a03");
    let g = |r: &mut Rng, wild: bool| -> Prog {
        let o = Opts { wild_strings: wild, wild_lits: wild, ..Opts::mixed(1) };
        let mut used = Vec::new();
        let mut p = Vec::new();
        for _ in 0..r.range(1, 12) {
            if r.chance(1, 6) {
                p.push(Stmt::Section(if r.chance(2, 3) { Sec::Data } else { Sec::Text }));
            }
            let unit = *r.pick(&[1u8, 2, 4, 8]);
            let label = if r.chance(1, 5) { Some(label(r, &mut used)) } else { None };
            p.push(Stmt::Data { label, unit, items: data_items(r, unit, &o) });
        }
        p
    };
    // every string length for every unit
    let mut k = 0;
    c.phase(30);
    for unit in [1u8, 2, 4, 8] {
        for len in 0..26 {
            k += 1;
            if !c.mine(k) || c.stop() {
                continue;
            }
            c.alive();
            let p = vec![
                Stmt::Data { label: None, unit, items: vec![Item::Str("x".repeat(len)), Item::Num(Lit { text: "7".into(), val: 7 }), Item::Str("y".repeat(len))] },
                Stmt::Data { label: None, unit: 1, items: vec![Item::Num(Lit { text: "255".into(), val: 255 })] },
            ];
            let src = plain(&p);
            c.case(fnv(src.as_bytes()));
            let mut s = Seen::default();
            match judge_data(&p, &wk.assemble(src.as_bytes()), &mut s) {
                Ok(()) => c.ev("string length and unit combinations"),
                Err(e) => c.viol(format!("{}\nsource:\n{}", e, src)),
            }
        }
    }
    c.phase(40);
    huge(c, &mut wk, false, &|r| g(r, true), &judge_data);
    c.phase(65);
    sweep(c, &mut wk, 1500, 60_000, &|r| g(r, false), Style::Plain, &judge_data);
    c.phase(100);
    sweep(c, &mut wk, 1500, 60_000, &|r| g(r, true), Style::Plain, &judge_data);
}

// ------------------------------------------------------------------ A04

/// What each line emits when it stands alone (labels it names defined).
struct Alone(std::collections::HashMap<String, Option<Vec<u8>>>);
impl Alone {
    fn bytes(&mut self, wk: &mut Worker, s: &Stmt) -> Option<Vec<u8>> {
        if !s.is_ins() && s.bytes().is_none() {
            return Some(Vec::new());
        }
        let st = match s {
            // names do not matter to what is emitted
            Stmt::Data { unit, items, .. } => Stmt::Data { label: None, unit: *unit, items: items.clone() },
            Stmt::MovRL(w, d, _) => Stmt::MovRL(*w, *d, "q_q".into()),
            s => s.clone(),
        };
        let mut src = plain(std::slice::from_ref(&st));
        if matches!(st, Stmt::MovRL(..)) {
            src.push_str("q_q:\n");
        }
        if let Some(x) = self.0.get(&src) {
            return x.clone();
        }
        let r = match wk.assemble(src.as_bytes()) {
            Res::Ok(b) => macho::quick_section(&b, "__text").ok(),
            _ => None,
        };
        if src.len() < 500 {
            self.0.insert(src, r.clone());
        }
        r
    }
}
pub fn a04(c: &mut Ctx) {
    let mut wk = new_worker(c, "a04");
    let alone = std::cell::RefCell::new(Alone(Default::default()));
    let wk2 = std::cell::RefCell::new(new_worker(c, "a04b"));
    let judge = |p: &[Stmt], r: &Res, s: &mut Seen| -> Result<(), String> {
        let mut al = alone.borrow_mut();
        if al.0.len() > 50_000 {
            al.0.clear();
        }
        let secs = sections(p);
        let mut want: [Vec<u8>; 3] = Default::default();
        let mut labels: Vec<(String, Sec, u64)> = Vec::new();
        for (k, st) in p.iter().enumerate() {
            let i = secs[k] as usize;
            if let Some(l) = st.label() {
                labels.push((l.to_string(), secs[k], want[i].len() as u64));
            }
            match al.bytes(&mut wk2.borrow_mut(), st) {
                Some(b) => want[i].extend(b),
                None => {
                    s.ev("programs skipped: a line alone is refused (another property's matter)", 1);
                    return Ok(());
                }
            }
        }
        let f = match r {
            Res::Ok(b) => macho::parse(b).map_err(|e| format!("labels cannot be read: {}", e))?,
            r => return Err(format!("every line assembles alone, the program does not: {}", r.short())),
        };
        for (i, sec) in [Sec::Text, Sec::Data, Sec::Bss].iter().enumerate() {
            let e: Vec<u8> = Vec::new();
            let got = link::sect_index(&f, *sec).map(|k| &f.sects[k].data).unwrap_or(&e);
            if *got != want[i] {
                let k = (0..want[i].len().max(got.len())).find(|&k| got.get(k) != want[i].get(k)).unwrap();
                return Err(format!(
                    "{} is not its lines in source order: at offset {:#x} [{}] instead of [{}]",
                    sec.sectname(),
                    k,
                    hex(&got[k.min(got.len())..got.len().min(k + 16)]),
                    hex(&want[i][k.min(want[i].len())..want[i].len().min(k + 16)])
                ));
            }
            s.ev("section bytes compared", want[i].len() as u64);
        }
        if f.syms.len() != labels.len() {
            return Err(format!("{} labels in the source, {} symbols in the object ({:?})", labels.len(), f.syms.len(), f.syms.iter().map(|s| &s.name).collect::<Vec<_>>()));
        }
        for (n, sec, off) in &labels {
            let g: Vec<_> = f.syms.iter().filter(|s| s.name == *n).collect();
            if g.len() != 1 {
                return Err(format!("label {:?} has {} symbols", n, g.len()));
            }
            let i = link::sect_index(&f, *sec);
            let ok = match i {
                Some(i) => g[0].kind() == macho::N_SECT && g[0].sect as usize == i + 1 && g[0].value == f.sects[i].addr + off,
                None => false,
            };
            if !ok {
                return Err(format!(
                    "label {:?} stands at {}+{:#x} (section {:?}), its symbol is type {:#x} section {} value {:#x}",
                    n,
                    sec.sectname(),
                    off,
                    i.map(|i| (i + 1, f.sects[i].addr)),
                    g[0].typ,
                    g[0].sect,
                    g[0].value
                ));
            }
            s.ev(
                match (sec, *off == want[*sec as usize].len() as u64) {
                    (Sec::Bss, _) => "labels in zero-initialised space",
                    (_, true) => "labels at a section's end",
                    (Sec::Text, _) => "labels inside text",
                    _ => "labels inside data",
                },
                1,
            );
        }
        Ok(())
    };
    let small = |r: &mut Rng| {
        let n = r.range(1, 10);
        let mut o = Opts::mixed(n);
        o.labels = n;
        gen(r, &o)
    };
    let big = |r: &mut Rng| {
        let n = if r.chance(1, 50) { r.range(60, 700) } else { r.range(1, 60) };
        let mut o = Opts::mixed(n);
        o.labels = n / 2 + 1;
        gen(r, &o)
    };
    c.phase(25);
    huge(c, &mut wk, true, &small, &judge);
    c.phase(60);
    sweep(c, &mut wk, 2000, 60_000, &small, Style::Plain, &judge);
    c.phase(100);
    sweep(c, &mut wk, 1000, 40_000, &big, Style::Plain, &judge);
}

// ------------------------------------------------------------------ A05

fn clear_ext(b: &[u8], f: &File) -> Vec<u8> {
    let mut o = b.to_vec();
    for k in 0..f.nsyms as usize {
        o[f.symoff as usize + 16 * k + 4] &= !1;
    }
    o
}
pub fn a05(c: &mut Ctx) {
    let mut wk = new_worker(c, "a05");
    let wk2 = std::cell::RefCell::new(new_worker(c, "a05b"));
    let judge = |p: &[Stmt], r: &Res, s: &mut Seen| -> Result<(), String> {
        let bare: Prog = p.iter().filter(|s| !matches!(s, Stmt::Global(_))).cloned().collect();
        let r0 = wk2.borrow_mut().assemble(plain(&bare).as_bytes());
        let (b0, b1) = match (&r0, r) {
            (Res::Ok(a), Res::Ok(b)) => (a, b),
            // a declaration of something that is no name may be refused
            (Res::Ok(_), r) if r.rejected() && p.iter().any(|s| matches!(s, Stmt::Global(n) if n.contains([':', '"', '(']))) => {
                s.ev("declarations of no proper name refused", 1);
                return Ok(());
            }
            (Res::Ok(_), r) => return Err(format!("without its global declarations the program assembles, with them: {}", r.short())),
            _ => {
                s.ev("programs refused (another property's matter)", 1);
                return Ok(());
            }
        };
        let f0 = macho::parse(b0).map_err(|e| format!("symbols cannot be read: {}", e))?;
        let f1 = macho::parse(b1).map_err(|e| format!("symbols cannot be read: {}", e))?;
        let declared: std::collections::HashSet<&str> = p
            .iter()
            .filter_map(|s| match s {
                Stmt::Global(n) => Some(n.as_str()),
                _ => None,
            })
            .collect();
        for y in &f0.syms {
            if y.ext() {
                return Err(format!("label {:?} is external without any declaration", y.name));
            }
        }
        for y in &f1.syms {
            if y.ext() != declared.contains(y.name.as_str()) {
                return Err(format!("label {:?} external: {}, declared global: {}", y.name, y.ext(), !y.ext()));
            }
            s.ev(if y.ext() { "external labels" } else { "private labels" }, 1);
        }
        if clear_ext(b0, &f0) != clear_ext(b1, &f1) {
            let d = (0..b0.len().max(b1.len())).find(|&i| clear_ext(b0, &f0).get(i) != clear_ext(b1, &f1).get(i));
            return Err(format!("apart from visibility, the objects with and without the declarations differ (first at {:?})", d));
        }
        s.ev("objects with and without declarations compared", 1);
        Ok(())
    };
    let g = |r: &mut Rng| -> Prog {
        let wide = r.chance(1, 40);
        let n = if wide { r.range(30, 500) } else { r.range(1, 30) };
        let mut o = Opts::mixed(n);
        o.labels = 1 + n / 2;
        let mut p = gen(r, &o);
        if wide {
            // a great many declarations, some before, some after the labels
            let labels: Vec<String> = p.iter().filter_map(|s| s.label().map(|x| x.to_string())).collect();
            let skip = r.below(3);
            let (mut pre, mut post) = (Vec::new(), Vec::new());
            for l in labels {
                if r.below(3) < skip {
                    continue;
                }
                let to = if r.chance(1, 2) { &mut pre } else { &mut post };
                let at = r.below(to.len() + 1);
                to.insert(at, Stmt::Global(l));
            }
            p.splice(0..0, pre);
            p.extend(post);
        }
        // more declarations: at the ends, repeated, of near names
        let labels: Vec<String> = p.iter().filter_map(|s| s.label().map(|x| x.to_string())).collect();
        for _ in 0..r.below(4) {
            if labels.is_empty() {
                break;
            }
            let mut n = r.pick(&labels).clone();
            match r.below(8) {
                0 => n.push('x'),
                1 => n = format!("_{}", n),
                2 if n.len() > 1 => {
                    n.pop();
                }
                3 => n = n.to_uppercase(),
                4 => n = r.pick(&[format!("{}:", n), format!(":{}", n), format!("{}::", n), format!("\"{}\"", n), format!("{}()", n), format!("${}", n), format!("{}@", n), format!("{}.", n), format!(".{}", n), n.to_lowercase(), n[1..].to_string()]).clone(),
                _ => {}
            }
            // a name with a colon at its end is another name than the label's
            if is_reserved(n.trim_end_matches(':')) {
                continue;
            }
            let at = match r.below(3) {
                0 => 0,
                1 => p.len(),
                _ => r.below(p.len() + 1),
            };
            p.insert(at, Stmt::Global(n));
        }
        p
    };
    c.phase(25);
    huge(c, &mut wk, true, &g, &judge);
    c.phase(100);
    sweep(c, &mut wk, 2500, 90_000, &g, Style::Plain, &judge);
}

// ------------------------------------------------------------------ A06

pub fn a06(c: &mut Ctx) {
    let mut wk = new_worker(c, "a06");
    let judge = |p: &[Stmt], r: &Res, s: &mut Seen| -> Result<(), String> {
        let f = object(r)?;
        let w = match link::walk(p, &f) {
            Ok(w) => w,
            Err(_) => {
                s.ev("programs not walkable (another property's matter)", 1);
                return Ok(());
            }
        };
        // relocations asked for, per section
        for (i, sect) in f.sects.iter().enumerate() {
            let mut want: Vec<(i64, u8, String)> = Vec::new();
            for (k, st) in p.iter().enumerate() {
                if let (Stmt::MovRL(width, _, n), Some(d)) = (st, &w.dec[k]) {
                    if link::sect_index(&f, w.secs[k]) != Some(i) {
                        continue;
                    }
                    let (o, bytes) = d.imm.ok_or_else(|| format!("{:?} has no immediate field", st))?;
                    if bytes * 8 != *width as usize {
                        return Err(format!("{:?}: immediate field of {} bytes", st, bytes));
                    }
                    want.push((w.pos[k] as i64 + o as i64, if *width == 64 { 3 } else { 2 }, n.clone()));
                }
            }
            let mut got: Vec<(i64, u8, String)> = Vec::new();
            for r in &sect.relocs {
                if r.pcrel || !r.ext || r.typ != 0 {
                    return Err(format!("relocation {:?} of {} is not a plain reference to a symbol", r, sect.sectname));
                }
                got.push((r.addr as i64, r.len, f.syms.get(r.sym as usize).map(|y| y.name.clone()).unwrap_or_default()));
            }
            want.sort();
            got.sort();
            if got != want {
                return Err(format!("relocations of {} (address, width, symbol): {:?}, label operands: {:?}", sect.sectname, got, want));
            }
            s.ev("relocations matched to label operands", want.len() as u64);
        }
        // place the sections anywhere below 4 GB (32-bit references) or anywhere at all
        let any32 = p.iter().any(|s| matches!(s, Stmt::MovRL(32, ..)));
        let mut rr = Rng::new(fnv(format!("{:?}", p).as_bytes()));
        for _ in 0..3 {
            let bases: Vec<u64> = f.sects.iter().map(|_| if any32 { rr.next() >> 34 } else { rr.next() >> (1 + rr.below(40)) }).collect();
            let out = link::apply(&f, &bases)?;
            for (k, st) in p.iter().enumerate() {
                let i = match link::sect_index(&f, w.secs[k]) {
                    Some(i) => i,
                    None => continue,
                };
                let a = w.pos[k] as usize;
                if let (Stmt::MovRL(width, d, n), Some(_)) = (st, &w.dec[k]) {
                    let dec = x86::decode(&out[i][a..])?;
                    let t: Vec<usize> = f.syms.iter().enumerate().filter(|(_, y)| y.name == *n).map(|x| x.0).collect();
                    if t.len() != 1 {
                        return Err(format!("{} symbols are called {:?}", t.len(), n));
                    }
                    let addr = link::sym_addr(&f, t[0], &bases).ok_or_else(|| format!("{:?} is not defined in the object", n))?;
                    let want = Op::MovRI { w: *width, d: *d, imm: addr };
                    if !x86::same(&dec.op, &want) {
                        return Err(format!("after placing the sections at {:x?}, line {:?} is {}, {} lies at {:#x}", bases, line(st, &mut Rng::new(1), Style::Plain), x86::show(&dec.op), n, addr));
                    }
                    s.ev("label operands executed at their final address", 1);
                }
            }
            // nothing else changes
            for (i, sect) in f.sects.iter().enumerate() {
                let mut m = vec![false; sect.data.len()];
                for r in &sect.relocs {
                    for x in m.iter_mut().skip(r.addr as usize).take(1 << r.len) {
                        *x = true;
                    }
                }
                for k in 0..m.len() {
                    if !m[k] && out[i][k] != sect.data[k] {
                        return Err(format!("byte {:#x} of {} changes", k, sect.sectname));
                    }
                }
            }
        }
        Ok(())
    };
    let g = |r: &mut Rng, n: usize| -> Prog {
        let n = r.range(2, n);
        let n = if n > 50 && r.chance(1, 60) { n * 8 } else { n };
        let mut o = Opts::mixed(n);
        o.labels = 1 + n / 3;
        let mut p = gen(r, &o);
        let labels: Vec<String> = p.iter().filter_map(|s| s.label().map(|x| x.to_string())).collect();
        if !labels.is_empty() {
            for _ in 0..r.below(6) {
                let at = r.below(p.len() + 1);
                if at > 0 && sections(&p)[at - 1] == Sec::Bss {
                    continue;
                }
                let w = if r.chance(1, 3) { 32 } else { 64 };
                p.insert(at, Stmt::MovRL(w, r.below(16) as u8, r.pick(&labels).clone()));
            }
        }
        p
    };
    c.phase(25);
    huge(c, &mut wk, true, &|r| g(r, 10), &judge);
    c.phase(55);
    sweep(c, &mut wk, 1500, 60_000, &|r| g(r, 10), Style::Plain, &judge);
    c.phase(100);
    sweep(c, &mut wk, 1000, 40_000, &|r| g(r, 60), Style::Plain, &judge);
}

// ------------------------------------------------------------------ A08

/// other white space wherever there is some outside of quotes, and perhaps around a line
fn respaced(r: &mut Rng, l: &str) -> String {
    let ws = |r: &mut Rng, least: usize| -> String {
        let n = r.range(least, 5);
        (0..n).map(|_| *r.pick(&[' ', ' ', ' ', '\t'])).collect()
    };
    l.split('\n')
        .map(|l| {
            let mut o = if r.chance(1, 2) { ws(r, 0) } else { String::new() };
            let mut quoted = false;
            let mut gap = false;
            for ch in l.chars() {
                if ch == '"' {
                    quoted = !quoted;
                }
                if !quoted && (ch == ' ' || ch == '\t') {
                    gap = true;
                    continue;
                }
                if std::mem::take(&mut gap) {
                    o.push_str(&ws(r, 1));
                }
                o.push(ch);
            }
            if r.chance(1, 2) {
                o.push_str(&ws(r, 0));
            }
            o
        })
        .collect::<Vec<_>>()
        .join("\n")
}
pub fn a08(c: &mut Ctx) {
    let mut wk = new_worker(c, "a08");
    let n = c.n(1800, 60_000);
    for k in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let len = if k % 2 == 0 { 6 } else { 40 };
        let o = if k % 3 == 0 { Opts::wild(len) } else { Opts::mixed(len) };
        let mut p = gen(&mut c.rng, &o);
        if c.rng.chance(1, 60) {
            inflate(&mut c.rng, &mut p);
        }
        let base = plain(&p);
        let want = match wk.assemble(base.as_bytes()) {
            Res::Ok(b) => b,
            _ => {
                c.ev("programs refused in plain form (another property's matter)");
                continue;
            }
        };
        for st in [Style::Spacing, Style::Comments, Style::Crlf, Style::Free, Style::Exotic] {
            let src = render(&p, &mut c.rng, st);
            c.case(fnv(src.as_bytes()));
            c.sample(|| src.clone());
            let r = wk.assemble(src.as_bytes());
            if r == Res::Ok(want.clone()) {
                c.ev(match st {
                    Style::Spacing => "spacing variants identical",
                    Style::Comments => "comment variants identical",
                    Style::Crlf => "CRLF variants identical",
                    Style::Exotic => "variants with every kind of white space identical",
                    _ => "free variants identical",
                });
                continue;
            }
            // narrow down to one line rendered this way
            let seed = c.rng.next();
            let small = shrink_prog(&p, &mut |t| {
                closed(t) && (0..4u64).any(|j| {
                    let a = wk.assemble(plain(t).as_bytes());
                    let b = wk.assemble(render(t, &mut Rng::new(seed ^ j), st).as_bytes());
                    matches!(a, Res::Ok(_)) && a != b
                })
            });
            let a = wk.assemble(plain(&small).as_bytes());
            let mut shown = (src.clone(), base.clone(), r.short());
            for j in 0..4u64 {
                let s2 = render(&small, &mut Rng::new(seed ^ j), st);
                let b = wk.assemble(s2.as_bytes());
                if a != b && matches!(a, Res::Ok(_)) {
                    shown = (s2, plain(&small), b.short());
                    break;
                }
            }
            c.viol(format!("{:?}\nassembles differently ({}) from\n{:?}", clip(&shown.0, 2000), shown.2, clip(&shown.1, 2000)));
            break;
        }
        // the final line end
        let cut = base.trim_end_matches('\n');
        if wk.assemble(cut.as_bytes()) == Res::Ok(want.clone()) {
            c.ev("missing final line end identical");
        } else {
            c.viol(format!("without the final line end this program assembles differently:\n{}", quote(&base)));
        }
        // a program that is refused stays refused
        let labels: Vec<String> = p.iter().filter_map(|s| s.label().map(|x| x.to_string())).collect();
        let (bad, _, _) = crate::cli::bad_line(&mut c.rng, &labels);
        let at = c.rng.below(p.len() + 1);
        let with = |bad: &str| format!("{}{}\n{}", plain(&p[..at]), bad, plain(&p[at..]));
        let (a, sa) = (wk.assemble(with(&bad).as_bytes()), with(&bad));
        if !a.rejected() {
            c.ev("invalid lines accepted (another property's matter)");
            continue;
        }
        for _ in 0..2 {
            let b = respaced(&mut c.rng, &bad);
            if b == bad {
                continue;
            }
            let src = with(&b);
            c.case(fnv(src.as_bytes()));
            if wk.assemble(src.as_bytes()).rejected() {
                c.ev("refused programs refused with other spacing");
            } else {
                c.viol(format!("{:?} in place of {:?} makes a refused program acceptable:\n{}\ninstead of\n{}", b, bad, quote(&src), quote(&sa)));
            }
        }
    }
}

// ------------------------------------------------------------------ A09

const TOKENS: &[&str] = &[
    "mov", "push", "ret", "syscall", "section", ".text", ".data", ".bss", "global", "db", "dw", "dd", "dq", "rax", "eax", "ax", "al", "r8", "r15d",
    "r9w", ",", ",", ":", ";", "\"", "\"", "+", "-", "0", "1", "255", "256", "0x", "0xff", "0x10000", "4294967296", "18446744073709551615",
    "18446744073709551616", "99999999999999999999999999", "_main", "msg", "a", "a:", "b:", "::", ":", "\t", " ", "\n", "\r\n", "\r", "\0", "é", "\u{a0}", "\u{85}", "\u{2028}", "\u{feff}", "0x0x1",
    "x db", "mov rax,", "mov rax, a", "mov eax, b", "push 200", "1 + 2", "1 - 2", "0 - 1", "18446744073709551615 + 1", "9223372036854775807 + 1", "9223372036854775808 - 1",
];
/// any bytes, from noise to nearly valid programs
pub fn hostile(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.range(0, max);
    let mut b: Vec<u8> = match r.below(8) {
        0 => r.bytes(n),
        1 => (0..n).map(|_| *r.pick(b"movrax,12 \n\t\":;db+-x0")).collect(),
        2 | 3 => {
            let mut s = String::new();
            while s.len() < n {
                s.push_str(r.pick::<&str>(TOKENS));
                if r.chance(1, 2) {
                    s.push(' ');
                }
                if r.chance(1, 5) {
                    s.push('\n');
                }
            }
            s.into_bytes()
        }
        _ => {
            let p = gen(r, &Opts::wild(1 + n / 20));
            let mut b = render(&p, r, Style::Free).into_bytes();
            b.truncate(max);
            b
        }
    };
    let edits = match r.below(4) {
        0 => 0,
        1 => 1,
        _ => r.below(6),
    };
    for _ in 0..edits {
        let at = r.below(b.len() + 1);
        match r.below(7) {
            0 if at < b.len() => b[at] = r.next() as u8,
            1 if at < b.len() => {
                b.remove(at);
            }
            2 => {
                let t: &str = r.pick(TOKENS);
                b.splice(at..at, t.bytes());
            }
            3 => {
                let e = (at + r.below(30)).min(b.len());
                b.drain(at..e);
            }
            4 => {
                let e = (at + r.below(60)).min(b.len());
                let x = b[at..e].to_vec();
                let to = r.below(b.len() + 1);
                b.splice(to..to, x);
            }
            5 if at < b.len() => b[at] ^= 1 << r.below(8),
            _ => b.truncate(at),
        }
    }
    b
}
/// values at the edges of every range, in every place a value may stand
pub fn edge_exprs(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        let edge = |r: &mut Rng| -> String {
            let v = match r.below(5) {
                0 => (1u128 << r.below(66)).wrapping_sub(r.below(3) as u128) & ((1u128 << 66) - 1),
                1 => 1u128 << r.below(66),
                2 => r.edgy64() as u128,
                3 => u64::MAX as u128 - r.below(3) as u128,
                _ => r.below(300) as u128,
            };
            if r.chance(1, 2) {
                format!("{}", v)
            } else {
                format!("0x{:x}", v)
            }
        };
        let w = *r.pick(&[64u8, 64, 32, 16]);
        let reg = x86::rname(w, r.below(16) as u8);
        let l = match r.below(6) {
            0..=2 => format!("mov {}, {} {} {}", reg, edge(r), r.pick(&["+", "-"]), edge(r)),
            3 => format!("mov {}, {}", reg, edge(r)),
            4 => format!("push {}", edge(r)),
            _ => format!("{} {}", r.pick(&["db", "dw", "dd", "dq"]), edge(r)),
        };
        s.push_str(&l);
        s.push('\n');
    }
    s
}
fn big(r: &mut Rng, k: usize) -> Vec<u8> {
    let mb = [60_000, 1_200_000, 3_000_000][k / 26 % 3];
    let kb = [60_000, 500_000, 1_200_000][k / 26 % 3];
    let mut s = String::new();
    match k % 26 {
        0 => {
            let mut i = 0;
            while s.len() < kb {
                s.push_str(&format!("l{}:\n", i));
                i += 1;
            }
        }
        1 => {
            s.push_str("section .data\ndb ");
            while s.len() < mb {
                s.push_str("1,");
            }
            s.push('1');
        }
        2 => {
            s.push_str("db \"");
            s.push_str(&"A".repeat(mb));
            s.push('"');
        }
        3 => s.push_str(&"\n".repeat(mb)),
        4 => {
            s.push_str("a:\n");
            while s.len() < kb {
                s.push_str("mov rax, a\n");
            }
        }
        5 => {
            s.push_str(&"a".repeat(kb));
            s.push_str(":\n");
        }
        6 => {
            s.push_str("mov rax, ");
            s.push_str(&"9".repeat(kb));
        }
        7 => {
            let mut i = 0;
            while s.len() < kb / 2 {
                s.push_str(&format!("global g{}\ng{}:\n", i, i));
                i += 1;
            }
            while s.len() < kb {
                s.push_str(&format!("mov rax, g{}\n", r.below(i)));
            }
        }
        8 => s.push_str(&"; \"".repeat(mb / 3)),
        9 => s.push_str(&"ret\nsyscall\npush rax\n".repeat(mb / 24)),
        10 => {
            s.push_str("x dw \"a\"");
            s.push_str(&", \"bc\", 7".repeat(mb / 10));
        }
        11 => s.push_str(&format!("mov rax,{}1{}\n", " ".repeat(mb), "\t".repeat(mb))),
        12 => {
            s.push_str("mov rax, 1");
            s.push_str(&" + 1".repeat(mb / 4));
        }
        13 => s.push_str(&"section .data\ndb 1\nsection .text\nret\n".repeat(mb / 38)),
        14 => s.push_str(&"x db 1\n".repeat(kb / 7)),
        15 => s.push_str(&"global g\n".repeat(kb / 9)),
        16 => s.push_str(&format!("db {}1", ",".repeat(mb))),
        17 => s.push_str(&format!("db{}1\n", " ".repeat(mb))),
        18 => s.push_str(&format!("db \"{}\n", "日".repeat(mb / 3))),
        19 => s.push_str(&":".repeat(mb)),
        20 => s.push_str(&*r.pick(&["\r", "\0", "\u{a0}", "\u{feff}", "\u{b}", "é", "\"", "+", "-", "\\", "(", "[", "0", "0x"]).repeat(mb / 3)),
        21 => s.push_str(&format!("{}ret{}\n", "\t".repeat(mb), " ".repeat(mb))),
        22 => s.push_str(&format!("{}\n", "mov ".repeat(mb / 4))),
        23 => s.push_str(&format!("push 0x{}1\n", "0".repeat(mb))),
        24 => s.push_str(&format!("db {}\n", "\"\",".repeat(mb / 3))),
        _ => s.push_str(&format!("mov rax, {}\nret ;{}\n", "a".repeat(kb), " x".repeat(mb / 2))),
    }
    if r.chance(1, 3) {
        s.push_str("\nbroken line\n");
    }
    s.into_bytes()
}
pub fn judge_any(r: &Res) -> Result<&'static str, String> {
    match r {
        Res::Ok(b) => macho::validate(b).map(|_| "accepted, object well-formed").map_err(|e| format!("accepted, but the object is malformed: {}", e)),
        Res::Exit(0, _) => Err("exit status 0 without an object".into()),
        Res::Exit(..) | Res::Panic(_) => Ok("failed cleanly"),
        r => Err(r.short()),
    }
}
pub fn a09(c: &mut Ctx) {
    let mut wk = new_worker(c, "a09");
    let n = c.n(4000, 400_000);
    for k in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let mut src = match k % 10 {
            9 if k % 50 == 49 => big(&mut c.rng, k / 50 + c.shard),
            8 => edge_exprs(&mut c.rng).into_bytes(),
            7 => hostile(&mut c.rng, 5000),
            _ => hostile(&mut c.rng, 300),
        };
        c.case(fnv(&src));
        c.sample(|| format!("{:?}", String::from_utf8_lossy(&src)));
        let r = wk.assemble(&src);
        match judge_any(&r) {
            Ok(e) => c.ev(e),
            Err(_) => {
                // remove chunks while it stays bad
                let mut step = src.len() / 2;
                let mut budget = 200;
                let t0 = std::time::Instant::now();
                while step > 0 && budget > 0 {
                    let mut at = 0;
                    while at < src.len() && budget > 0 {
                        let mut t = src.clone();
                        t.drain(at..(at + step).min(t.len()));
                        budget = if t0.elapsed().as_secs() > 20 { 0 } else { budget - 1 };
                        if matches!(&r, Res::Hang) {
                            budget = 0;
                        } else if judge_any(&wk.assemble(&t)).is_err() {
                            src = t;
                        } else {
                            at += step;
                        }
                    }
                    step /= 2;
                }
                let r2 = wk.assemble(&src);
                let e = judge_any(&r2).err().unwrap_or_else(|| "not reproduced".into());
                c.viol(format!("{}\nsource {:?}", e, clip(&format!("{:?}", String::from_utf8_lossy(&src)), 3000)));
            }
        }
    }
}

// ------------------------------------------------------------------ A12

pub fn a12(c: &mut Ctx) {
    let mut wk = new_worker(c, "a12");
    let n = c.n(1500, 50_000);
    for k in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let len = if k % 3 == 0 { c.rng.range(2, 50) } else { c.rng.range(2, 12) };
        let o = Opts { refs: k % 2 == 0, ..Opts::mixed(len) };
        let mut p = gen(&mut c.rng, &o);
        let long = c.rng.chance(1, 100);
        if long {
            inflate(&mut c.rng, &mut p);
            c.ev("programs stretched with filler");
        }
        let st = if k % 4 == 0 { Style::Free } else { Style::Plain };
        let src = render(&p, &mut c.rng, st);
        // cut at line ends
        let ends: Vec<usize> = src.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1).filter(|x| *x < src.len()).collect();
        let mut cuts: Vec<usize> = match c.rng.below(4) {
            0 if !long => ends.clone(),
            _ => (0..c.rng.below(5)).filter_map(|_| if ends.is_empty() { None } else { Some(*c.rng.pick(&ends)) }).collect(),
        };
        if c.rng.chance(1, 6) {
            cuts.push(0);
        }
        cuts.sort();
        // repeated cuts are empty pieces
        if c.rng.chance(4, 5) {
            cuts.dedup();
        }
        cuts.push(src.len());
        let mut steps = Vec::new();
        let mut writes: Vec<(usize, usize)> = Vec::new(); // step index, bytes read so far
        let mut at = 0;
        for (i, e) in cuts.iter().enumerate() {
            steps.push(Step::Read(src.as_bytes()[at..*e].to_vec(), Flow::PLAIN));
            at = *e;
            let last = i + 1 == cuts.len();
            let k = if last { c.rng.range(1, 3) } else { c.rng.below(3) };
            for _ in 0..k {
                writes.push((steps.len(), at));
                steps.push(Step::Write(Flow::PLAIN));
            }
        }
        c.case(fnv(format!("{}{:?}{:?}", src, cuts, writes).as_bytes()));
        c.sample(|| format!("{:?} cut at {:?}, written after {:?}", src, cuts, writes));
        let outs = wk.run(&steps);
        // an invalid line in one of the pieces: refused, under its number in the whole
        if c.rng.chance(1, 6) {
            let at = if ends.is_empty() { 0 } else { *c.rng.pick(&ends) };
            let bad = "this is not an instruction\n";
            let line = src[..at].bytes().filter(|b| *b == b'\n').count() + 1;
            let mut bs = src.clone();
            bs.insert_str(at, bad);
            let mut steps = Vec::new();
            let mut from = 0;
            for e in &cuts {
                let e = if *e > at || (*e == at && c.rng.chance(1, 2)) { *e + bad.len() } else { *e };
                if e < from {
                    continue;
                }
                steps.push(Step::Read(bs.as_bytes()[from..e].to_vec(), Flow::PLAIN));
                from = e;
            }
            steps.push(Step::Write(Flow::PLAIN));
            match wk.run(&steps).last() {
                Some(Out::Exit(e, m)) if *e != 0 && crate::cli::names_number(m, line) => c.ev("invalid lines refused under their number in the whole"),
                Some(Out::Panic(m, _)) if crate::cli::names_number(m, line) => c.ev("invalid lines refused under their number in the whole"),
                o => {
                    let got = match o {
                        Some(Out::Exit(e, m)) => format!("exit status {} with {:?}", e, m),
                        Some(Out::Panic(m, _)) => format!("a panic with {:?}", m),
                        Some(Out::Wrote(b)) => format!("an object of {} bytes", b.len()),
                        _ => "another outcome".into(),
                    };
                    c.viol(format!("line {} of the source is invalid; fed in {} pieces the outcome is {}\nsource {:?}", line, steps.len() - 1, got, quote(&bs)));
                }
            }
        }
        for (si, upto) in &writes {
            let want = wk.assemble(&src.as_bytes()[..*upto]);
            let got = match outs.get(*si).or(outs.last()) {
                Some(Out::Wrote(b)) => Res::Ok(b.clone()),
                Some(Out::Panic(m, _)) => Res::Panic(m.clone()),
                Some(Out::Exit(e, m)) => Res::Exit(*e, m.clone()),
                Some(Out::Signal(e, m)) => Res::Signal(*e, m.clone()),
                _ => Res::Hang,
            };
            let same = match (&got, &want) {
                (Res::Ok(a), Res::Ok(b)) => a == b,
                (a, b) => a.rejected() && b.rejected(),
            };
            if !same {
                c.viol(format!(
                    "fed in pieces cut at {:?} with writes after {:?}: the write after {} bytes gives {}, those bytes at once {}\nsource {:?}",
                    cuts,
                    writes.iter().map(|w| w.1).collect::<Vec<_>>(),
                    upto,
                    got.short(),
                    want.short(),
                    quote(&src)
                ));
                break;
            }
            c.ev(match (&want, *upto == src.len()) {
                (Res::Ok(_), true) => "final objects equal",
                (Res::Ok(_), false) => "intermediate objects equal",
                _ => "unresolved intermediate programs refused both ways",
            });
        }
    }
}
