//! A10: linked programs executed on the CPU against a reference interpretation of the source.
use crate::asmgen::*;
use crate::core::*;
use crate::cpu::{self, Cpu, Stop};
use crate::link;
use crate::macho;
use crate::o::{self, new_worker};
use crate::util::*;
use crate::worker::*;
use crate::x86::{self, Ev, Machine, Op};
use std::collections::HashMap;

/// A value in the reference interpretation.
#[derive(Clone, Debug, PartialEq, Eq)]
enum V {
    Int(u64),
    Addr(String),
    /// depends on addresses in a way the source does not fix
    Any,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Write { fd: u64, bytes: Vec<u8> },
    Exit(u64),
    Return(u64),
    /// ran off the end or did something undefined: generator error
    Stuck(String),
}
const RET_MAGIC: u64 = 0x0000_7777_0000_1230;
const STACK: u64 = cpu::HIGH + 0x1800;
const SYS_WRITE: u64 = 0x200_0004;
const SYS_EXIT: u64 = 0x200_0001;

struct RefRun {
    /// what happens, with the registers and the words on the stack (first pushed first) at that point
    events: Vec<(Event, [V; 16], Vec<V>)>,
    steps: usize,
    executed: Vec<usize>,
}

fn narrow(w: u8, old: &V, v: &V) -> V {
    match (w, old, v) {
        (64, _, v) => v.clone(),
        (32, _, V::Int(x)) => V::Int(x & 0xffff_ffff),
        (16, V::Int(o), V::Int(x)) => V::Int(o & !0xffff | x & 0xffff),
        _ => V::Any,
    }
}

/// Interpret the source text's statements.
fn reference(p: &[Stmt], entry: &str, regs0: &[u64; 16]) -> RefRun {
    let secs = sections(p);
    let mut at: HashMap<&str, usize> = HashMap::new();
    for (k, s) in p.iter().enumerate() {
        if let Some(l) = s.label() {
            at.insert(l, k);
        }
    }
    let sect_bytes = |sec: Sec, from: usize| -> Vec<u8> {
        let mut b = Vec::new();
        for (k, s) in p.iter().enumerate().skip(from) {
            if secs[k] == sec {
                if s.is_ins() {
                    break;
                }
                if let Some(x) = s.bytes() {
                    b.extend(x);
                }
            }
        }
        b
    };
    let mut r: Vec<V> = regs0.iter().map(|x| V::Int(*x)).collect();
    r[4] = V::Int(STACK);
    // stack words, top last; below them the return address
    let mut st: Vec<V> = Vec::new();
    let mut out = RefRun { events: Vec::new(), steps: 0, executed: Vec::new() };
    let mut pc = at[entry];
    let snap = |r: &Vec<V>| -> [V; 16] { r.clone().try_into().unwrap() };
    // rsp moved: the stack shrinks to it, or the run has no meaning
    fn restack(r: &mut Vec<V>, st: &mut Vec<V>) -> bool {
        match r[4] {
            V::Int(x) if x <= STACK && (STACK - x) % 8 == 0 && (STACK - x) / 8 <= st.len() as u64 => {
                st.truncate(((STACK - x) / 8) as usize);
                true
            }
            _ => false,
        }
    }
    loop {
        // the next statement of the text section that does something
        while pc < p.len() && !(p[pc].is_ins() && secs[pc] == Sec::Text) {
            pc += 1;
        }
        if pc >= p.len() || out.steps > 3000 {
            let s = snap(&r);
            out.events.push((Event::Stuck("ran off".into()), s, Vec::new()));
            return out;
        }
        out.steps += 1;
        out.executed.push(pc);
        match &p[pc] {
            Stmt::MovRR(w, d, s) => r[*d as usize] = narrow(*w, &r[*d as usize].clone(), &r[*s as usize].clone()),
            Stmt::MovRI(w, d, v) => r[*d as usize] = narrow(*w, &r[*d as usize].clone(), &V::Int(v.value())),
            Stmt::MovRL(w, d, l) => r[*d as usize] = narrow(*w, &r[*d as usize].clone(), &V::Addr(l.clone())),
            Stmt::PushR(x) => {
                st.push(r[*x as usize].clone());
                r[4] = V::Int(STACK - 8 * st.len() as u64);
            }
            Stmt::PushI(l) => {
                st.push(V::Int(l.val));
                r[4] = V::Int(STACK - 8 * st.len() as u64);
            }
            Stmt::Ret => match st.pop() {
                None => {
                    r[4] = V::Int(STACK + 8);
                    let s = snap(&r);
                    let e = match &r[0] {
                        V::Int(x) => Event::Return(*x),
                        _ => Event::Stuck("return value".into()),
                    };
                    out.events.push((e, s, st.clone()));
                    return out;
                }
                Some(V::Addr(l)) => {
                    r[4] = V::Int(STACK - 8 * st.len() as u64);
                    pc = at[l.as_str()];
                    continue;
                }
                Some(_) => {
                    let s = snap(&r);
                    out.events.push((Event::Stuck("wild ret".into()), s, st.clone()));
                    return out;
                }
            },
            Stmt::Syscall => {
                let s = snap(&r);
                match (&r[0], &r[7], &r[6], &r[2]) {
                    (V::Int(SYS_EXIT), V::Int(code), _, _) => {
                        out.events.push((Event::Exit(*code), s, st.clone()));
                        return out;
                    }
                    (V::Int(SYS_WRITE), V::Int(fd), buf, V::Int(n)) => {
                        let bytes = match buf {
                            V::Addr(l) => {
                                let k = at[l.as_str()];
                                let b = sect_bytes(secs[k], k);
                                b.get(..*n as usize).map(|x| x.to_vec())
                            }
                            V::Int(a) => {
                                // on the stack
                                let mut b = Vec::new();
                                for x in st.iter().rev() {
                                    match x {
                                        V::Int(v) => b.extend_from_slice(&v.to_le_bytes()),
                                        _ => break,
                                    }
                                }
                                if *a == STACK - 8 * st.len() as u64 {
                                    b.get(..*n as usize).map(|x| x.to_vec())
                                } else {
                                    None
                                }
                            }
                            V::Any => None,
                        };
                        match bytes {
                            Some(bytes) => out.events.push((Event::Write { fd: *fd, bytes }, s, st.clone())),
                            None => {
                                out.events.push((Event::Stuck("buffer".into()), s, st.clone()));
                                return out;
                            }
                        }
                        r[0] = V::Int(*n);
                        r[1] = V::Any;
                        r[11] = V::Any;
                    }
                    _ => {
                        out.events.push((Event::Stuck("syscall".into()), s, st.clone()));
                        return out;
                    }
                }
            }
            _ => {}
        }
        if matches!(&p[pc], Stmt::MovRR(_, 4, _) | Stmt::MovRI(_, 4, _) | Stmt::MovRL(_, 4, _)) && !restack(&mut r, &mut st) {
            let s = snap(&r);
            out.events.push((Event::Stuck("stack pointer".into()), s, Vec::new()));
            return out;
        }
        pc += 1;
    }
}

/// A terminating program: blocks in shuffled places jumping to each other, writing data and stack words.
fn program(r: &mut Rng) -> (Prog, String) {
    let mut used: Vec<String> = Vec::new();
    let nblk = r.range(1, 6);
    let entry = if r.chance(2, 3) {
        used.push("_main".into());
        "_main".to_string()
    } else {
        label(r, &mut used)
    };
    let mut names = vec![entry.clone()];
    while names.len() < nblk {
        names.push(label(r, &mut used));
    }
    // data labels and how many bytes may be read from each
    let mut data: Vec<Stmt> = Vec::new();
    let mut dl: Vec<(String, usize)> = Vec::new();
    let o = Opts { wild_strings: true, wild_lits: true, ..Opts::mixed(1) };
    for _ in 0..r.range(1, 5) {
        let unit = *r.pick(&[1u8, 1, 2, 4, 8]);
        let l = label(r, &mut used);
        let items = data_items(r, unit, &o);
        if r.chance(1, 2) {
            data.push(Stmt::Data { label: Some(l.clone()), unit, items });
        } else {
            data.push(Stmt::Label(l.clone()));
            data.push(Stmt::Data { label: None, unit, items });
        }
        dl.push((l, 0));
    }
    for k in 0..dl.len() {
        let at = data.iter().position(|s| s.label() == Some(&dl[k].0)).unwrap();
        dl[k].1 = data[at..].iter().filter_map(|s| s.bytes()).map(|b| b.len()).sum();
    }
    // data between the code, where execution never comes
    let mut between: Vec<Stmt> = Vec::new();
    for _ in 0..if r.chance(1, 3) { r.range(1, 3) } else { 0 } {
        let unit = *r.pick(&[1u8, 1, 2, 4, 8]);
        let mut items = data_items(r, unit, &o);
        if r.chance(1, 3) {
            // bytes that look like code
            let v = *r.pick(&[0xc3u64, 0x0f, 0x05, 0x48, 0x50, 0x66, 0x68, 0xb8]);
            items.push(Item::Num(lit_of(r, v << (8 * (unit as u32 - 1)), true)));
        }
        let l = label(r, &mut used);
        let s = Stmt::Data { label: Some(l.clone()), unit, items };
        dl.push((l, s.bytes().unwrap().len()));
        between.push(s);
    }
    // places that only return
    let stubs: Vec<String> = (0..if r.chance(1, 2) { r.range(1, 3) } else { 0 }).map(|_| label(r, &mut used)).collect();
    let free: Vec<u8> = (0..16).filter(|x| *x != 4).collect();
    let mut labels_all = names.clone();
    labels_all.extend(dl.iter().map(|d| d.0.clone()));
    // statements that change registers in any way
    let noise = |r: &mut Rng, out: &mut Vec<Stmt>, avoid: &[u8]| {
        for _ in 0..r.below(4) {
            let d = *r.pick(&free);
            if avoid.contains(&d) {
                continue;
            }
            let w = *r.pick(&[64u8, 64, 32, 16]);
            match r.below(4) {
                0 => out.push(Stmt::MovRR(w, d, r.below(16) as u8)),
                1 => out.push(Stmt::MovRI(w, d, val(r, w, true))),
                2 => out.push(Stmt::MovRL(64, d, r.pick(&labels_all).clone())),
                _ => out.push(Stmt::MovRR(64, d, *r.pick(&free))),
            }
        }
    };
    // load a register with a number, by some route
    let load = |r: &mut Rng, out: &mut Vec<Stmt>, d: u8, v: u64, avoid: &[u8]| {
        let via: Vec<u8> = free.iter().cloned().filter(|x| !avoid.contains(x) && *x != d).collect();
        match r.below(6) {
            0 if !via.is_empty() => {
                let x = *r.pick(&via);
                out.push(Stmt::MovRI(64, x, Val::One(lit_of(r, v, true))));
                out.push(Stmt::MovRR(64, d, x));
            }
            1 if v < 1 << 32 => out.push(Stmt::MovRI(32, d, Val::One(lit_of(r, v, true)))),
            2 if v < 1 << 16 => {
                out.push(Stmt::MovRI(64, d, Val::One(lit_of(r, 0, false))));
                out.push(Stmt::MovRI(16, d, Val::One(lit_of(r, v, true))));
            }
            3 => {
                let b = r.below(5000) as u64;
                let a = v.wrapping_sub(b);
                out.push(Stmt::MovRI(64, d, Val::Bin(lit_of(r, a, true), true, lit_of(r, b, true))));
            }
            _ => out.push(Stmt::MovRI(64, d, Val::One(lit_of(r, v, true)))),
        }
    };
    let mut order: Vec<usize> = (1..nblk).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    order.insert(0, 0);
    let mut bodies: Vec<Vec<Stmt>> = vec![Vec::new(); nblk];
    let mut layout: Vec<usize> = (0..nblk).collect();
    for i in (1..layout.len()).rev() {
        layout.swap(i, r.below(i + 1));
    }
    let mut depth = 0usize;
    let mut ints = true; // every word on the stack is a plain number
    for (i, &b) in order.iter().enumerate() {
        let mut out = vec![Stmt::Label(names[b].clone())];
        noise(r, &mut out, &[]);
        for _ in 0..r.below(3) {
            let from_stack = depth > 0 && ints && r.chance(1, 2) || r.chance(1, 4);
            let mut set: Vec<u8> = Vec::new();
            let fd = *r.pick(&[1u64, 1, 2]);
            let mut pushed = None;
            if from_stack {
                let l = lit(r, 0x7fff_ffff, true);
                let k = r.range(0, 8) as u64;
                out.push(Stmt::PushI(l));
                depth += 1;
                pushed = Some(k);
            }
            let (dlab, avail) = r.pick(&dl).clone();
            let n = pushed.unwrap_or_else(|| r.below(avail + 1) as u64);
            let mut todo = vec![0u8, 7, 6, 2];
            while !todo.is_empty() {
                let d = todo.remove(r.below(todo.len()));
                match d {
                    0 => load(r, &mut out, 0, SYS_WRITE, &set),
                    7 => load(r, &mut out, 7, fd, &set),
                    2 => load(r, &mut out, 2, n, &set),
                    _ => {
                        if pushed.is_some() {
                            out.push(Stmt::MovRR(64, 6, 4));
                        } else {
                            out.push(Stmt::MovRL(64, 6, dlab.clone()));
                        }
                    }
                }
                set.push(d);
                noise(r, &mut out, &set);
            }
            out.push(Stmt::Syscall);
            noise(r, &mut out, &[]);
        }
        for _ in 0..if r.chance(1, 2) { r.range(1, 3) } else { 0 } {
            out.push(Stmt::PushR(if r.chance(1, 4) { 4 } else { *r.pick(&free) }));
            depth += 1;
            ints = false;
        }
        if r.chance(1, 5) {
            // save the stack pointer, push on, and come back to it
            let x = *r.pick(&free);
            out.push(Stmt::MovRR(64, x, 4));
            for _ in 0..r.below(4) {
                out.push(if r.chance(1, 2) { Stmt::PushR(r.below(16) as u8) } else { Stmt::PushI(lit(r, 0x7fff_ffff, true)) });
                noise(r, &mut out, &[x]);
            }
            out.push(Stmt::MovRR(64, 4, x));
        }
        if i + 1 < order.len() {
            let next = order[i + 1];
            let here = layout.iter().position(|x| *x == b).unwrap();
            if layout.get(here + 1) == Some(&next) && r.chance(1, 2) {
                // fall through
            } else {
                let x = *r.pick(&free);
                out.push(Stmt::MovRL(64, x, names[next].clone()));
                out.push(Stmt::PushR(x));
                if !stubs.is_empty() {
                    for _ in 0..r.below(3) {
                        let x = *r.pick(&free);
                        out.push(Stmt::MovRL(64, x, r.pick(&stubs).clone()));
                        out.push(Stmt::PushR(x));
                    }
                }
                out.push(Stmt::Ret);
                if r.chance(1, 2) {
                    out.extend(between.pop());
                }
            }
        } else if depth == 0 && r.chance(1, 2) {
            let v = r.edgy64();
            load(r, &mut out, 0, v, &[]);
            if !stubs.is_empty() {
                for _ in 0..r.below(3) {
                    let x = *r.pick(&free[1..]);
                    out.push(Stmt::MovRL(64, x, r.pick(&stubs).clone()));
                    out.push(Stmt::PushR(x));
                }
            }
            out.push(Stmt::Ret);
            out.append(&mut between);
        } else {
            let code = if r.chance(1, 2) { r.below(256) as u64 } else { r.edgy64() };
            if r.chance(1, 2) {
                load(r, &mut out, 0, SYS_EXIT, &[]);
                load(r, &mut out, 7, code, &[0]);
            } else {
                load(r, &mut out, 7, code, &[]);
                load(r, &mut out, 0, SYS_EXIT, &[7]);
            }
            out.push(Stmt::Syscall);
            out.append(&mut between);
        }
        bodies[b] = out;
    }
    // layout: text blocks and data in interleaved sections
    let mut p: Prog = Vec::new();
    if r.chance(1, 2) {
        p.push(Stmt::Global(entry.clone()));
    }
    let mut chunks: Vec<(Sec, Vec<Stmt>)> = Vec::new();
    let mut blocks: Vec<Vec<Stmt>> = Vec::new();
    let mut falls = vec![false; nblk];
    for w in layout.windows(2) {
        falls[w[0]] = !matches!(bodies[w[0]].last(), Some(Stmt::Ret | Stmt::Data { .. })) && !matches!(bodies[w[0]].last(), Some(Stmt::Syscall) if order.last() == Some(&w[0]));
    }
    let mut todo = stubs.clone();
    for b in layout {
        blocks.push(bodies[b].clone());
        while !falls[b] && !todo.is_empty() && r.chance(1, 2) {
            blocks.push(vec![Stmt::Label(todo.pop().unwrap()), Stmt::Ret]);
        }
    }
    for l in todo {
        let x = vec![Stmt::Label(l), Stmt::Ret];
        if r.chance(1, 2) {
            blocks.insert(0, x);
        } else {
            blocks.push(x);
        }
    }
    // data lines may stand anywhere, in order
    let mut cuts = Vec::new();
    let mut k = 0;
    while k < data.len() {
        let mut e = (k + r.range(1, 4)).min(data.len());
        if e > k && matches!(data[e - 1], Stmt::Label(_)) && r.chance(1, 2) {
            e = (e + 1).min(data.len());
        }
        cuts.push(data[k..e].to_vec());
        k = e;
    }
    let mut bi = blocks.into_iter().peekable();
    let mut di = cuts.into_iter().peekable();
    while bi.peek().is_some() || di.peek().is_some() {
        if di.peek().is_none() || bi.peek().is_some() && r.chance(1, 2) {
            let mut b = bi.next().unwrap();
            // a block may be split by a visit to another section
            if b.len() > 2 && di.peek().is_some() && r.chance(1, 3) {
                let rest = b.split_off(r.range(1, b.len() - 1));
                chunks.push((Sec::Text, b));
                chunks.push((Sec::Data, di.next().unwrap()));
                chunks.push((Sec::Text, rest));
            } else {
                chunks.push((Sec::Text, b));
            }
        } else {
            chunks.push((Sec::Data, di.next().unwrap()));
        }
    }
    let mut cur = Sec::Text;
    for (s, c) in chunks {
        if s != cur || r.chance(1, 6) {
            p.push(Stmt::Section(s));
            cur = s;
        }
        p.extend(c);
    }
    if !matches!(p.first(), Some(Stmt::Global(_))) {
        p.push(Stmt::Global(entry.clone()));
    }
    (p, entry)
}

struct Loaded {
    sects: Vec<(u64, Vec<u8>)>,
    entry: u64,
    addr: HashMap<String, u64>,
}

fn mini_link(b: &[u8], entry: &str, r: &mut Rng) -> Result<Loaded, String> {
    let f = macho::parse(b)?;
    let mut a = cpu::IMG + 0x100 + r.below(0x2000) as u64;
    let mut bases = Vec::new();
    for s in &f.sects {
        bases.push(a);
        // images beyond the window are not run, but sections never overlap
        a = a.saturating_add(s.size).saturating_add(r.below(0x1000) as u64);
    }
    let out = link::apply(&f, &bases)?;
    let mut addr = HashMap::new();
    for k in 0..f.syms.len() {
        if let Some(x) = link::sym_addr(&f, k, &bases) {
            addr.insert(f.syms[k].name.clone(), x);
        }
    }
    let entry = *addr.get(entry).ok_or("the entry label has no symbol")?;
    Ok(Loaded { sects: bases.into_iter().zip(out).collect(), entry, addr })
}
fn lld_link(b: &[u8], entry: &str, dir: &std::path::Path, tag: &str) -> Result<Loaded, String> {
    let obj = dir.join(format!("r{}.o", tag));
    let out = dir.join(format!("r{}.out", tag));
    std::fs::write(&obj, b).unwrap();
    let r = o::lld(&obj, &out, entry).and_then(|_| o::read_image(&std::fs::read(&out).unwrap()));
    let _ = std::fs::remove_file(&obj);
    let _ = std::fs::remove_file(&out);
    let im = r?;
    let f = macho::parse(b)?;
    let bases: Vec<u64> = f.sects.iter().map(|s| im.sects.iter().find(|x| x.0 == s.sectname).map(|x| x.1).unwrap_or(0)).collect();
    let mut addr = HashMap::new();
    for k in 0..f.syms.len() {
        if let Some(x) = link::sym_addr(&f, k, &bases) {
            addr.insert(f.syms[k].name.clone(), x);
        }
    }
    let entry = im.entry.ok_or("the image has no entry point")? + cpu::IMG;
    Ok(Loaded { sects: im.sects.into_iter().filter(|s| s.3 > 0).map(|s| (s.1, s.2)).collect(), entry, addr })
}

enum Engine<'a> {
    Native(&'a mut Cpu),
    Emulated,
}

/// Run the image; events and register files must match the reference.
fn execute(eng: &mut Engine, im: &Loaded, regs0: &[u64; 16], want: &RefRun, c: &mut Vec<(&'static str, u64)>) -> Result<(), String> {
    let mut mem = vec![0u8; cpu::IMG_SZ];
    for (a, b) in &im.sects {
        if *a < cpu::IMG || a.saturating_add(b.len() as u64) > cpu::IMG + cpu::IMG_SZ as u64 {
            return Err("SKIP image outside the window".into());
        }
        let o = (a - cpu::IMG) as usize;
        mem[o..o + b.len()].copy_from_slice(b);
    }
    let mut high = vec![0u8; cpu::HIGH_SZ];
    let so = (STACK - cpu::HIGH) as usize;
    high[so..so + 8].copy_from_slice(&RET_MAGIC.to_le_bytes());
    let mut regs = *regs0;
    regs[4] = STACK;
    let mut m = Machine { regs, ip: im.entry, wins: vec![(cpu::IMG, mem), (cpu::HIGH, high)] };
    if let Engine::Native(p) = eng {
        p.load_windows(&m);
    }
    let mut ei = 0;
    let mut steps = 0u64;
    let peek = |eng: &Engine, m: &Machine, a: u64, n: usize| -> Option<Vec<u8>> {
        match eng {
            Engine::Native(p) => p.peek(a, n).map(|x| x.to_vec()),
            Engine::Emulated => m.read(a, n).map(|x| x.to_vec()),
        }
    };
    loop {
        let at_ret = m.ip == RET_MAGIC;
        let code = if at_ret { None } else { Some(peek(eng, &m, m.ip, 2).ok_or_else(|| format!("after {} steps execution leaves the program, to {:#x}", steps, m.ip))?) };
        if at_ret || code.as_deref() == Some(&[0x0f, 0x05]) {
            let (we, wr, ws) = want.events.get(ei).ok_or("HARNESS: no further event expected")?;
            let got = if at_ret {
                Event::Return(m.regs[0])
            } else if m.regs[0] == SYS_EXIT {
                Event::Exit(m.regs[7])
            } else if m.regs[0] == SYS_WRITE {
                let n = m.regs[2];
                let b = if n <= 0x40000 { peek(eng, &m, m.regs[6], n as usize) } else { None };
                match b {
                    Some(bytes) => Event::Write { fd: m.regs[7], bytes },
                    None => return Err(format!("event {}: write of {} bytes at {:#x}, outside the program; expected {:?}", ei, n, m.regs[6], we)),
                }
            } else {
                return Err(format!("event {}: system call {:#x}; expected {:?}", ei, m.regs[0], we));
            };
            if got != *we {
                return Err(format!("event {} is {:?}; the source says {:?}", ei, got, we));
            }
            for k in 0..16 {
                let w = match &wr[k] {
                    V::Int(x) => *x,
                    V::Addr(l) => match im.addr.get(l) {
                        Some(a) => *a,
                        None => return Err(format!("label {:?} has no symbol", l)),
                    },
                    V::Any => continue,
                };
                if m.regs[k] != w {
                    return Err(format!("at event {} ({:?}) register {} is {:#x}; the source says {:x?} ({:#x})", ei, got, x86::N64[k], m.regs[k], wr[k], w));
                }
            }
            for (i, v) in ws.iter().enumerate() {
                let w = match v {
                    V::Int(x) => *x,
                    V::Addr(l) => match im.addr.get(l) {
                        Some(a) => *a,
                        None => return Err(format!("label {:?} has no symbol", l)),
                    },
                    V::Any => continue,
                };
                let a = STACK - 8 * (i as u64 + 1);
                let got_word = peek(eng, &m, a, 8).map(|b| u64::from_le_bytes(b[..].try_into().unwrap()));
                if got_word != Some(w) {
                    return Err(format!("at event {} ({:?}) the {}. word pushed is {:x?}; the source says {:x?} ({:#x})", ei, got, i + 1, got_word, v, w));
                }
                c.push(("stack words compared", 1));
            }
            c.push(("system calls, exits and returns compared", 1));
            ei += 1;
            match got {
                Event::Write { .. } => {
                    m.regs[0] = m.regs[2];
                    m.regs[1] = m.ip + 2;
                    m.regs[11] = 0x202;
                    m.ip += 2;
                    continue;
                }
                _ => {
                    c.push(("instructions executed", steps));
                    return Ok(());
                }
            }
        }
        steps += 1;
        if steps > want.steps as u64 + 2 {
            return Err(format!("{} instructions executed, the source path has {}; next expected event {:?}", steps, want.steps, want.events.get(ei).map(|e| &e.0)));
        }
        match eng {
            Engine::Native(p) => {
                let (s, regs, ip) = p.step(&m.regs, m.ip).map_err(|e| format!("HARNESS {}", e))?;
                if s != Stop::Step {
                    let b = p.peek(m.ip, 8).map(hex).unwrap_or_default();
                    return Err(format!("after {} instructions the CPU reports {:x?} at {:#x} [{}]", steps, s, m.ip, b));
                }
                m.regs = regs;
                m.ip = ip;
            }
            Engine::Emulated => {
                let d = x86::decode(&m.read(m.ip, 15).map(|x| x.to_vec()).unwrap_or_default()).map_err(|e| format!("after {} instructions at {:#x}: {}", steps, m.ip, e))?;
                let _: &Op = &d.op;
                match m.exec(&d.op, d.len) {
                    Ev::None => {}
                    e => return Err(format!("after {} instructions {:?} at {:#x}", steps, e, m.ip)),
                }
            }
        }
    }
}

pub fn a10(c: &mut Ctx) {
    let mut wk = new_worker(c, "a10");
    let mut cpu = match Cpu::start() {
        Ok(p) => Some(p),
        Err(e) => {
            c.note(format!("native execution unavailable here ({}); emulated", e));
            None
        }
    };
    let have_lld = std::path::Path::new(o::LLD).exists();
    let n = c.n(1500, 50_000);
    for k in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let (mut p, entry) = program(&mut c.rng);
        if c.rng.chance(1, 40) {
            // what is executed and shown lies far into its section
            let n = *c.rng.pick(&[0x78usize, 0xf8, 0xff8, 0x7ff0, 0x8000, 0xfff0, 0x10000, 0x11000]) + c.rng.below(16);
            let sec = if c.rng.chance(1, 2) { Sec::Text } else { Sec::Data };
            p.splice(0..0, [Stmt::Section(sec), Stmt::Data { label: None, unit: 1, items: vec![Item::Str("f".repeat(n))] }, Stmt::Section(Sec::Text)]);
            c.ev("programs stretched with filler");
        }
        let mut regs0 = [0u64; 16];
        for x in regs0.iter_mut() {
            *x = c.rng.edgy64();
        }
        let want = reference(&p, &entry, &regs0);
        if let Some((Event::Stuck(why), _, _)) = want.events.last() {
            c.ev("generated programs discarded");
            let _ = why;
            continue;
        }
        let style = if k % 4 == 0 { Style::Free } else { Style::Plain };
        let src = render(&p, &mut c.rng, style);
        c.case(fnv(src.as_bytes()));
        c.sample(|| quote(&src));
        let b = match wk.assemble(src.as_bytes()) {
            Res::Ok(b) => b,
            r => {
                c.viol(format!("a valid program is not assembled: {}\nsource:\n{}", r.short(), quote(&src)));
                continue;
            }
        };
        let use_lld = have_lld && k % 12 == 5;
        let im = if use_lld {
            lld_link(&b, &entry, &c.dir.clone(), &format!("{}-{}", c.shard, k))
        } else {
            mini_link(&b, &entry, &mut c.rng)
        };
        let im = match im {
            Ok(i) => i,
            Err(e) if use_lld => {
                c.note(format!("ld64.lld refuses an object: {}", clip(&e, 200)));
                c.ev("objects refused by ld64.lld (another property's matter)");
                continue;
            }
            Err(e) => {
                c.viol(format!("the object cannot be linked: {}\nsource:\n{}", e, quote(&src)));
                continue;
            }
        };
        let mut seen = Vec::new();
        let mut eng = match cpu.as_mut() {
            Some(p) => Engine::Native(p),
            None => Engine::Emulated,
        };
        match execute(&mut eng, &im, &regs0, &want, &mut seen) {
            Ok(()) => {
                c.ev("programs executed to their end");
                if use_lld {
                    c.ev("of them linked by ld64.lld");
                }
                let mut e: Vec<usize> = want.executed.clone();
                e.sort();
                e.dedup();
                c.evn("source lines executed", e.len() as u64);
            }
            Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
            Err(e) if e.starts_with("SKIP") => c.note(e),
            Err(e) => {
                let note = |p: &[Stmt]| p.iter().filter(|s| s.is_ins()).count();
                c.viol(format!("{}\n({} instruction lines, entry {})\nsource:\n{}", e, note(&p), entry, quote(&src)));
                if cpu.is_some() {
                    // the traced child may be gone
                    cpu = None;
                    cpu = Cpu::start().ok().or(cpu);
                }
            }
        }
        for (k, n) in seen {
            c.evn(k, n);
        }
    }
}
use crate::a::quote;
