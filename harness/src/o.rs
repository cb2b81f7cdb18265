//! O01-O06: objects and the Mach-O writer.
use crate::asmgen;
use crate::core::*;
use crate::macho::{self, File};
use crate::objgen::{self, *};
use crate::util::*;
use crate::worker::*;
use std::process::Command;

fn write(c: &mut Ctx, s: &Spec) -> Option<Vec<u8>> {
    let o = build(s);
    let mut b = Vec::new();
    match c.sut(|| s.show(), || at_obj::macho::write_into(&o, &mut b)) {
        Ok(()) => Some(b),
        Err(e) => {
            c.viol(format!("writing an object panics: {}\n{}", e, s.show()));
            None
        }
    }
}
fn size_of(c: &mut Ctx, k: usize) -> Size {
    if k % 60 == 59 {
        c.ev("objects with long names, many entries or big sections");
        return Size::Huge;
    }
    match k % 12 {
        0..=6 => Size::Small,
        7..=10 => Size::Medium,
        _ => {
            if c.thorough || k % 24 == 11 {
                Size::Large
            } else {
                Size::Medium
            }
        }
    }
}
/// Drop parts of an object as long as it keeps failing, to report a small one.
fn shrink(s: &Spec, bad: &dyn Fn(&Spec) -> bool) -> Spec {
    let mut cur = s.clone();
    let mut budget = 400;
    let t0 = std::time::Instant::now();
    loop {
        let mut cands: Vec<Spec> = Vec::new();
        let mut t = cur.clone();
        t.text = SecSpec::default();
        cands.push(t);
        let mut t = cur.clone();
        t.data = SecSpec::default();
        cands.push(t);
        let mut t = cur.clone();
        t.bss_size = 0;
        cands.push(t);
        for which in 0..2 {
            let sec = |x: &Spec| if which == 0 { x.text.clone() } else { x.data.clone() };
            let set = |x: &mut Spec, y: SecSpec| {
                if which == 0 {
                    x.text = y
                } else {
                    x.data = y
                }
            };
            let base = sec(&cur);
            // halves and quarters of long lists first
            for part in [2, 4, 8] {
                for j in 0..part {
                    let cut = |n: usize| (n * j / part, n * (j + 1) / part);
                    let (a, e) = cut(base.rels.len());
                    if base.rels.len() >= part {
                        let mut y = base.clone();
                        y.rels.drain(a..e);
                        let mut t = cur.clone();
                        set(&mut t, y);
                        cands.push(t);
                    }
                    let (a, e) = cut(base.syms.len());
                    if base.syms.len() >= part {
                        let mut y = base.clone();
                        y.syms.drain(a..e);
                        let mut t = cur.clone();
                        set(&mut t, y);
                        cands.push(t);
                    }
                }
            }
            if base.rels.len() + base.syms.len() > 60 {
                continue;
            }
            for k in 0..base.syms.len() {
                let mut y = base.clone();
                y.syms.remove(k);
                let mut t = cur.clone();
                set(&mut t, y);
                cands.push(t);
            }
            for k in 0..base.rels.len() {
                let mut y = base.clone();
                y.rels.remove(k);
                let mut t = cur.clone();
                set(&mut t, y);
                cands.push(t);
            }
            if base.rels.is_empty() {
                for n in [0, base.bytes.len() / 2, base.bytes.len().saturating_sub(1)] {
                    if n < base.bytes.len() {
                        let mut y = base.clone();
                        y.bytes.truncate(n);
                        for s in y.syms.iter_mut() {
                            if let SymSpec::Ref(_, a, _) = s {
                                *a = (*a).min(n as u64);
                            }
                        }
                        let mut t = cur.clone();
                        set(&mut t, y);
                        cands.push(t);
                    }
                }
            }
        }
        for k in 0..cur.bss_syms.len() {
            let mut t = cur.clone();
            t.bss_syms.remove(k);
            cands.push(t);
        }
        let mut next = None;
        for t in cands {
            if t == cur {
                continue;
            }
            // keep relocations' targets
            let names: Vec<&str> = t.all_syms().iter().map(|s| s.name()).collect();
            if t.text.rels.iter().chain(&t.data.rels).any(|r| !names.contains(&r.sym.as_str())) {
                continue;
            }
            if t.bss_syms.iter().any(|s| matches!(s, SymSpec::Ref(_, a, _) if *a > t.bss_size)) {
                continue;
            }
            budget = if t0.elapsed().as_secs() > 20 { 0 } else { budget - 1 };
            if bad(&t) {
                next = Some(t);
                break;
            }
            if budget <= 0 {
                break;
            }
        }
        match next {
            Some(t) if budget > 0 => cur = t,
            _ => return cur,
        }
    }
}

/// Generate objects, write them, judge each with `judge`.
fn sweep(c: &mut Ctx, quick: usize, thorough: usize, ev: &str, judge: &dyn Fn(&Spec, &[u8]) -> Result<u64, String>) {
    let n = c.n(quick, thorough);
    let giants: Vec<usize> = (0..GIANTS).filter(|k| c.mine(*k)).collect();
    for k in 0..n + giants.len() {
        if c.stop() {
            return;
        }
        let s = if k == 0 {
            Spec::default()
        } else if k <= giants.len() {
            c.ev("objects beyond 16 or 24 bits of count or offset");
            giant(giants[k - 1], &mut c.rng)
        } else {
            let sz = size_of(c, k);
            gen(&mut c.rng, sz)
        };
        c.case(s.key());
        let b = match write(c, &s) {
            Some(b) => b,
            None => return,
        };
        c.sample(|| s.show());
        match judge(&s, &b) {
            Ok(m) => {
                c.ev("objects written and judged");
                c.evn(ev, m);
            }
            Err(_) => {
                let small = shrink(&s, &|t| {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut b = Vec::new();
                        at_obj::macho::write_into(&build(t), &mut b);
                        judge(t, &b).is_err()
                    }))
                    .unwrap_or(false)
                });
                let mut b = Vec::new();
                at_obj::macho::write_into(&build(&small), &mut b);
                let e = judge(&small, &b).err().unwrap_or_default();
                c.viol(format!("{}\nobject: {}", e, small.show()));
            }
        }
    }
}

pub fn o01(c: &mut Ctx) {
    c.phase(60);
    sweep(c, 4000, 120_000, "sections, tables and regions checked", &|_, b| {
        macho::validate(b).map(|f| f.sects.len() as u64 + 4)
    });
    // objects of assembled programs
    c.phase(100);
    let mut wk = new_worker(c, "o01");
    let n = c.n(300, 6000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let k = c.rng.range(1, 40);
        let mut p = asmgen::gen(&mut c.rng, &asmgen::Opts::mixed(k));
        if c.rng.chance(1, 30) {
            asmgen::inflate(&mut c.rng, &mut p);
        }
        let src = asmgen::plain(&p);
        c.case(fnv(src.as_bytes()));
        if let Res::Ok(b) = wk.assemble(src.as_bytes()) {
            c.ev("objects of programs judged");
            if let Err(e) = macho::validate(&b) {
                c.viol(format!("{}\nsource:\n{}", e, crate::a::quote(&src)));
            }
        }
    }
}
pub fn new_worker(c: &Ctx, tag: &str) -> Worker {
    Worker::new(&std::env::current_exe().unwrap(), &c.dir, &format!("{}-{}", tag, c.shard))
}

fn judge_o02(s: &Spec, b: &[u8]) -> Result<u64, String> {
    let f = macho::parse(b).map_err(|e| format!("cannot find the contents: {}", e))?;
    let want = s.present();
    let names = |v: &[&str]| v.join(",");
    let got: Vec<&str> = f.sects.iter().map(|x| x.sectname.as_str()).collect();
    let exp: Vec<&str> = want.iter().map(|x| x.sect).collect();
    if got != exp {
        return Err(format!("sections in the file: [{}], in the object: [{}]", names(&got), names(&exp)));
    }
    let mut end = 0u64;
    for (g, w) in f.sects.iter().zip(&want) {
        if g.segname != w.seg {
            return Err(format!("{} is in segment {}", w.sect, g.segname));
        }
        if g.size != w.size {
            return Err(format!("{} has size {}, the object's has {}", w.sect, g.size, w.size));
        }
        if g.addr < end {
            return Err(format!("{} at {:#x} starts before the end {:#x} of what precedes it", w.sect, g.addr, end));
        }
        end = g.addr + g.size;
        let code = g.flags & 0x8000_0400 != 0;
        let typ = g.flags & 0xff;
        match w.sect {
            "__text" if typ != 0 || g.flags & 0x8000_0000 == 0 || g.flags & 0x400 == 0 => {
                return Err(format!("__text has flags {:#x}", g.flags));
            }
            "__data" if typ != 0 || code => return Err(format!("__data has flags {:#x}", g.flags)),
            "__bss" if typ != 1 || code => return Err(format!("__bss has flags {:#x}", g.flags)),
            _ => {}
        }
        let (ext, loc) = (g.flags & 0x200 != 0, g.flags & 0x100 != 0);
        if ext != !w.rels.is_empty() || loc && w.rels.is_empty() {
            return Err(format!("{} with {} relocations has flags {:#x}", w.sect, w.rels.len(), g.flags));
        }
        if let Some(x) = w.bytes {
            if g.data != x {
                let i = (0..x.len()).find(|&i| g.data.get(i) != Some(&x[i])).unwrap_or(0);
                return Err(format!("{} differs at offset {:#x}: {:02x?} instead of {:02x}", w.sect, i, g.data.get(i), x[i]));
            }
        }
    }
    Ok(want.len() as u64)
}
pub fn o02(c: &mut Ctx) {
    sweep(c, 6000, 200_000, "sections compared", &judge_o02);
}

fn judge_o03(s: &Spec, b: &[u8]) -> Result<u64, String> {
    let f = macho::parse(b).map_err(|e| format!("symbols cannot be read: {}", e))?;
    let want = s.present();
    let mut k = 0usize;
    for w in &want {
        for y in w.syms {
            let g = f.syms.get(k).ok_or_else(|| format!("symbol {:?} of {} is missing", y, w.sect))?;
            let desc = format!("entry {} (type {:#x}, section {}, value {:#x}, name {:?})", k, g.typ, g.sect, g.value, g.name);
            if g.name != y.name() {
                return Err(format!("{} stands where symbol {:?} of {} belongs", desc, y, w.sect));
            }
            if g.desc != 0 {
                return Err(format!("{}: {:?} has the description {:#x}", desc, y, g.desc));
            }
            if g.typ & 0xf0 != 0 {
                return Err(format!("{}: {:?} has further type bits", desc, y));
            }
            let (kind, ext) = (g.kind(), g.ext());
            let sect = f.sects.iter().position(|x| x.sectname == w.sect);
            let bad = match y {
                SymSpec::Undef(_) => kind != macho::N_UNDF || !ext || g.value != 0 || g.sect != 0,
                SymSpec::Abs(_, v, e) => kind != macho::N_ABS || ext != *e || g.value != *v || g.sect != 0,
                SymSpec::Ref(_, a, e) => match sect {
                    None => true,
                    Some(i) => {
                        kind != macho::N_SECT || ext != *e || g.sect as usize != i + 1 || g.value != f.sects[i].addr.wrapping_add(*a)
                    }
                },
            };
            if bad {
                return Err(format!(
                    "{} is not symbol {:?} of {} (section number {:?}, address {:?})",
                    desc,
                    y,
                    w.sect,
                    sect.map(|i| i + 1),
                    sect.map(|i| f.sects[i].addr)
                ));
            }
            k += 1;
        }
    }
    if k != f.syms.len() {
        return Err(format!("{} symbols in the object, {} in the file", k, f.syms.len()));
    }
    Ok(k as u64)
}
pub fn o03(c: &mut Ctx) {
    c.phase(70);
    sweep(c, 6000, 200_000, "symbols compared", &judge_o03);
    c.phase(100);
    // what the object itself lists, also for changing
    let n = c.n(200, 4000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let s = gen(&mut c.rng, Size::Medium);
        c.case(s.key() ^ 1);
        #[allow(unreachable_patterns)]
        let show = |y: &at_obj::Symbol| match y {
            at_obj::Symbol::Undef { name } => SymSpec::Undef(name.clone()),
            at_obj::Symbol::Abs { name, val, ext } => SymSpec::Abs(name.clone(), *val, *ext),
            at_obj::Symbol::Ref { name, addr, ext } => SymSpec::Ref(name.clone(), *addr, *ext),
            _ => SymSpec::Undef("of a kind this check does not know".into()),
        };
        let want: Vec<SymSpec> = s.all_syms().into_iter().cloned().collect();
        let mut o = build(&s);
        match c.sut(|| s.show(), || {
            let a: Vec<SymSpec> = o.symbols().map(show).collect();
            let names: Vec<String> = o.symbols().map(|y| y.name().to_string()).collect();
            let b: Vec<SymSpec> = o.symbols_mut().map(|y| show(y)).collect();
            (a, names, b)
        }) {
            Err(e) => c.viol(format!("listing the symbols panics: {}\n{}", e, s.show())),
            Ok((a, names, b)) => {
                if a != want || b != want || names.iter().map(|x| x.as_str()).ne(want.iter().map(|y| y.name())) {
                    c.viol(format!("the object lists {} symbols ({} for changing), {} were put in: {:?}\n{}", a.len(), b.len(), want.len(), a.iter().take(20).collect::<Vec<_>>(), s.show()));
                } else {
                    c.ev("symbol listings compared");
                }
            }
        }
    }
}

fn judge_o04(s: &Spec, b: &[u8]) -> Result<u64, String> {
    let f = macho::parse(b).map_err(|e| format!("relocations cannot be read: {}", e))?;
    let mut n = 0;
    for w in &s.present() {
        let g = match f.sects.iter().find(|x| x.sectname == w.sect) {
            Some(g) => g,
            None if w.rels.is_empty() => continue,
            None => return Err(format!("section {} with relocations is missing", w.sect)),
        };
        if g.relocs.len() != w.rels.len() {
            return Err(format!("{} has {} relocations, the object {}", w.sect, g.relocs.len(), w.rels.len()));
        }
        for (k, (r, x)) in g.relocs.iter().zip(w.rels).enumerate() {
            let name = f.syms.get(r.sym as usize).map(|s| s.name.clone());
            if r.addr as u32 != x.addr
                || r.len != x.len
                || r.pcrel != x.pcrel
                || !r.ext
                || r.typ > if x.pcrel { 2 } else { 0 }
                || name.as_deref() != Some(x.sym.as_str())
            {
                return Err(format!("relocation {} of {} is {:?} naming {:?}, the object's is {:?}", k, w.sect, r, name, x));
            }
            n += 1;
        }
    }
    Ok(n)
}
pub fn o04(c: &mut Ctx) {
    c.phase(70);
    sweep(c, 5000, 160_000, "relocations compared", &judge_o04);
    c.phase(100);
    // a relocation to a name no symbol has
    let n = c.n(600, 20_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let mut s = gen(&mut c.rng, Size::Small);
        if s.text.bytes.is_empty() && s.data.bytes.is_empty() {
            s.text.bytes = vec![0; 16];
        }
        let names: Vec<String> = s.all_syms().iter().map(|s| s.name().to_string()).collect();
        let mut used = names.clone();
        let n = loop {
            let n = name(&mut c.rng, &mut used, false);
            if !names.contains(&n) {
                break n;
            }
        };
        let rel = RelSpec { addr: 0, sym: n.clone(), pcrel: false, len: 0 };
        let t = if s.text.bytes.is_empty() || (c.rng.chance(1, 2) && !s.data.bytes.is_empty()) { &mut s.data } else { &mut s.text };
        let at = c.rng.below(t.rels.len() + 1);
        t.rels.insert(at, rel);
        c.case(s.key());
        let o = build(&s);
        let mut b = Vec::new();
        match c.sut(|| s.show(), || at_obj::macho::write_into(&o, &mut b)) {
            Err(_) => {
                c.ev("references to missing names refused");
                if macho::validate(&b).is_ok() {
                    c.viol(format!("writing failed but a complete object was written: {}", s.show()));
                }
            }
            Ok(()) => c.viol(format!("no symbol is called {:?}, writing succeeds: {}", n, s.show())),
        }
    }
}

// ------------------------------------------------------------------ O07

/// an object whose relocations may be anything
fn build_odd(s: &Spec, rels: &[(bool, i64, String, bool, u8)]) -> at_obj::Object {
    let mut o = build(s);
    for (text, addr, sym, pcrel, len) in rels {
        let x = at_obj::Reloc { addr: *addr as i32, symbol: sym.clone(), pcrel: *pcrel, len: *len };
        if *text {
            o.sections.text.relocs.push(x)
        } else {
            o.sections.data.relocs.push(x)
        }
    }
    o
}

pub fn o07(c: &mut Ctx) {
    let n = c.n(3000, 100_000);
    c.phase(60);
    for k in 0..n {
        if c.stop() {
            break;
        }
        let sz = if k % 7 == 0 { Size::Medium } else { Size::Small };
        let mut s = gen(&mut c.rng, sz);
        let r = &mut c.rng;
        let mut rels: Vec<(bool, i64, String, bool, u8)> = Vec::new();
        let which = r.below(3);
        let size = match which {
            0 => s.text.bytes.len() as u64,
            1 => s.data.bytes.len() as u64,
            _ => s.bss_size,
        };
        // how far beyond an edge; 0: just inside
        let beyond = match r.below(4) {
            0 => 0u64,
            1 => 1,
            2 => r.range(1, 16) as u64,
            _ => r.edgy64(),
        };
        let tag = format!("edge{}", k);
        let (fits, what) = match r.below(5) {
            0 => {
                let at = size.saturating_add(beyond);
                let y = SymSpec::Ref(tag, at, r.chance(1, 2));
                let v = match which {
                    0 => &mut s.text.syms,
                    1 => &mut s.data.syms,
                    _ => &mut s.bss_syms,
                };
                let i = r.below(v.len() + 1);
                v.insert(i, y);
                (at <= size, "symbol outside its section")
            }
            1 | 2 => {
                // a relocation that ends beyond its section, or begins before it
                let text = which != 1;
                let size = if text { s.text.bytes.len() } else { s.data.bytes.len() } as i64;
                let len = r.below(4) as u8;
                let at = match r.below(6) {
                    0 => -(r.range(1, 9) as i64),
                    1 => i32::MIN as i64 + r.below(9) as i64,
                    2 => i32::MAX as i64 - r.below(9) as i64,
                    3 => size,
                    _ => size - (1 << len) + (beyond % 10) as i64,
                };
                s.text.syms.push(SymSpec::Abs(tag.clone(), 7, true));
                rels.push((text, at, tag, r.chance(1, 2), len));
                (at >= 0 && at + (1 << len) <= size, "relocation outside its section")
            }
            3 => {
                let text = which != 1;
                let size = if text { s.text.bytes.len() } else { s.data.bytes.len() };
                let len = *r.pick(&[4u8, 5, 6, 7, 8, 16, 31, 32, 63, 64, 127, 128, 252, 255]);
                let len = if size >= 8 && r.chance(1, 4) { 3 } else { len };
                s.text.syms.push(SymSpec::Abs(tag.clone(), 7, true));
                rels.push((text, 0, tag, false, len));
                (len == 3, "relocation width that does not exist")
            }
            _ => {
                let used = (s.text.bytes.len() + s.data.bytes.len()) as u64;
                let fill = u64::MAX - used;
                s.bss_size = fill.saturating_add(beyond);
                if s.bss_size == fill && beyond > 0 {
                    continue;
                }
                (s.bss_size == fill, "sections beyond the address space")
            }
        };
        c.case(s.key() ^ fnv(format!("{:?}", rels).as_bytes()));
        let show = format!("{}\nfurther relocations (in text, address, symbol, pc-relative, width code): {:?}", s.show(), rels);
        c.sample(|| show.clone());
        let o = build_odd(&s, &rels);
        let mut b = Vec::new();
        match (c.sut(|| show.clone(), || at_obj::macho::write_into(&o, &mut b)), fits) {
            (Err(_), false) => {
                c.ev(&format!("refused: {}", what));
                if macho::validate(&b).is_ok() {
                    c.viol(format!("writing fails but a complete object was written: {}", show));
                }
            }
            (Ok(()), false) => c.viol(format!("{}, but writing succeeds ({})\n{}", what, macho::validate(&b).err().unwrap_or_else(|| "a valid object of other contents".into()), show)),
            (Err(e), true) => c.viol(format!("the object is within the limits, writing it panics: {}\n{}", e, show)),
            (Ok(()), true) => match macho::validate(&b) {
                Ok(_) => c.ev("objects at the edge written"),
                Err(e) => c.viol(format!("an object at the edge is written as a malformed file: {}\n{}", e, show)),
            },
        }
    }
    c.phase(80);
    // contents beyond 32-bit file offsets; the pages are never touched
    for (i, (t, d)) in [(1u64 << 32, 0u64), (16, 1 << 32), (0xffff_ffff, 0), (0xffff_ff00, 1), (0x8000_0000, 0x8000_0000), (0x8000_0000, 0x7fff_ffff), ((1 << 32) + 4096, 24)].into_iter().enumerate() {
        if !c.mine(i) || c.stop() {
            continue;
        }
        let show = format!("object with {:#x} bytes of text and {:#x} bytes of data", t, d);
        c.case(fnv(show.as_bytes()));
        let mut o = at_obj::Object::new();
        o.sections.text.bytes = vec![0; t as usize];
        o.sections.data.bytes = vec![0; d as usize];
        struct Count(u64, Vec<u8>);
        impl std::io::Write for Count {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                self.0 += b.len() as u64;
                if self.1.len() < 4096 {
                    self.1.extend_from_slice(&b[..b.len().min(4096)]);
                }
                Ok(b.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        let mut w = Count(0, Vec::new());
        match c.sut(|| show.clone(), || at_obj::macho::write_into(&o, &mut w)) {
            Err(_) => c.ev("refused: contents beyond the file offsets"),
            Ok(()) => {
                // 32-bit offsets cannot reach the tables behind the contents
                c.viol(format!("{} is written as {} bytes starting {}", show, w.0, clip(&hex(&w.1), 900)));
            }
        }
    }
    c.phase(100);
    // names that the string table cannot hold
    for _ in 0..c.n(200, 4000) {
        if c.stop() {
            return;
        }
        let mut s = gen(&mut c.rng, Size::Small);
        let r = &mut c.rng;
        let ch = *r.pick(&["\0", "é", "日", "🙂", "\u{80}", "\u{130}", "\u{ff}"]);
        let nm = match r.below(3) {
            0 => format!("{}a", ch),
            1 => format!("a{}b", ch),
            _ => format!("ab{}", ch),
        };
        let y = if r.chance(1, 2) { SymSpec::Undef(nm) } else { SymSpec::Ref(nm, 0, true) };
        match r.below(3) {
            0 => s.text.syms.push(y),
            1 => s.data.syms.insert(0, y),
            _ => s.bss_syms.push(y),
        }
        c.case(s.key());
        let o = build(&s);
        let mut b = Vec::new();
        match c.sut(|| s.show(), || at_obj::macho::write_into(&o, &mut b)) {
            Err(_) => {
                c.ev("refused: name that is not ASCII text");
                if macho::validate(&b).is_ok() {
                    c.viol(format!("writing fails but a complete object was written: {}", s.show()));
                }
            }
            Ok(()) => c.viol(format!("a name that is not ASCII text is written: {}", s.show())),
        }
    }
}

// ------------------------------------------------------------------ O05: independent tools

pub const LLD: &str = "/usr/lib/llvm-18/bin/ld64.lld";

#[derive(Debug, Default, Clone)]
struct ObjView {
    sects: Vec<(String, String, u64, u64, Vec<u8>, String)>, // name, seg, addr, size, data, type
    syms: Vec<(String, bool, String, String, u64)>,         // name, extern, type, section, value
    rels: Vec<(String, u64, String, u8, bool)>,             // section, offset, symbol, length, pcrel
    types: Vec<(String, bool)>,                             // relocation type, pcrel
}

fn hexnum(s: &str) -> u64 {
    let s = s.trim();
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).unwrap_or(u64::MAX),
        None => s.parse().unwrap_or(u64::MAX),
    }
}

/// text of llvm-readobj --sections --section-data --relocations --expand-relocs --symbols, one file
fn parse_readobj(t: &str) -> ObjView {
    let mut v = ObjView::default();
    let mut area = "";
    let mut data = false;
    let mut relsec = String::new();
    for l in t.lines() {
        let s = l.trim();
        match l {
            "Sections [" => area = "S",
            "Relocations [" => area = "R",
            "Symbols [" => area = "Y",
            "]" => area = "",
            _ => {}
        }
        let field = |k: &str| s.strip_prefix(k).map(|x| x.trim().to_string());
        let nm = |x: String| x.rsplit_once(" (").map(|p| p.0.to_string()).unwrap_or(x);
        match area {
            "S" => {
                if s == "SectionData (" {
                    data = true;
                } else if data && s == ")" {
                    data = false;
                } else if data {
                    // "0000: 48B80400 00020000 ...  |text|"
                    if let Some((_, r)) = s.split_once(": ") {
                        let hx = r.split("  |").next().unwrap_or("");
                        let hx: Vec<u8> = hx.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
                        if let Some(x) = v.sects.last_mut() {
                            for p in hx.chunks(2) {
                                x.4.push(u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap_or(0));
                            }
                        }
                    }
                } else if let Some(x) = field("Name: ") {
                    v.sects.push((nm(x), String::new(), 0, 0, Vec::new(), String::new()));
                } else if let Some(q) = v.sects.last_mut() {
                    if let Some(x) = field("Segment: ") {
                        q.1 = nm(x);
                    } else if let Some(x) = field("Address: ") {
                        q.2 = hexnum(&x);
                    } else if let Some(x) = field("Size: ") {
                        q.3 = hexnum(&x);
                    } else if let Some(x) = field("Type: ") {
                        q.5 = nm(x);
                    }
                }
            }
            "R" => {
                if let Some(x) = s.strip_prefix("Section ") {
                    relsec = x.trim_end_matches('{').trim().to_string();
                } else if s == "Relocation {" {
                    v.rels.push((relsec.clone(), 0, String::new(), 9, false));
                } else if let Some(q) = v.rels.last_mut() {
                    if let Some(x) = field("Type: ") {
                        v.types.push((nm(x), q.4));
                    } else if let Some(x) = field("Offset: ") {
                        q.1 = hexnum(&x);
                    } else if let Some(x) = field("PCRel: ") {
                        q.4 = x == "1";
                    } else if let Some(x) = field("Length: ") {
                        q.3 = hexnum(&x) as u8;
                    } else if let Some(x) = field("Symbol: ") {
                        q.2 = nm(x);
                    }
                }
            }
            "Y" => {
                if let Some(x) = field("Name: ") {
                    v.syms.push((nm(x), false, String::new(), String::new(), 0));
                } else if let Some(q) = v.syms.last_mut() {
                    if s == "Extern" {
                        q.1 = true;
                    } else if let Some(x) = field("Type: ") {
                        q.2 = nm(x);
                    } else if let Some(x) = field("Section: ") {
                        q.3 = nm(x);
                    } else if let Some(x) = field("Value: ") {
                        q.4 = hexnum(&x);
                    }
                }
            }
            _ => {}
        }
    }
    v
}

fn judge_view(s: &Spec, v: &ObjView) -> Result<u64, String> {
    let want = s.present();
    if v.sects.len() != want.len() {
        return Err(format!("reports {} sections, the object has {}", v.sects.len(), want.len()));
    }
    let mut syms = v.syms.iter();
    let mut rels = Vec::new();
    let mut n = 0;
    for (g, w) in v.sects.iter().zip(&want) {
        if g.0 != w.sect || g.1 != w.seg || g.3 != w.size {
            return Err(format!("reports section {:?} in {:?} of size {}, the object has {} in {} of size {}", g.0, g.1, g.3, w.sect, w.seg, w.size));
        }
        let kind = if w.bytes.is_some() { "Regular" } else { "ZeroFill" };
        if g.5 != kind {
            return Err(format!("reports section {} of type {:?}", w.sect, g.5));
        }
        if let Some(b) = w.bytes {
            if g.4 != b {
                return Err(format!("reports other contents of {}", w.sect));
            }
        }
        for y in w.syms {
            let t = syms.next().ok_or_else(|| format!("does not report symbol {:?}", y))?;
            let ok = t.0 == y.name()
                && match y {
                    SymSpec::Undef(_) => t.1 && t.2 == "Undef" && t.4 == 0,
                    SymSpec::Abs(_, x, e) => t.1 == *e && t.2 == "Abs" && t.4 == *x,
                    SymSpec::Ref(_, a, e) => t.1 == *e && t.2 == "Section" && t.3 == w.sect && t.4 == g.2.wrapping_add(*a),
                };
            if !ok {
                return Err(format!("reports {:?} for symbol {:?} of {}", t, y, w.sect));
            }
            n += 1;
        }
        for r in w.rels {
            rels.push((w.sect.to_string(), r.addr as u64, r.sym.clone(), r.len, r.pcrel));
        }
    }
    if let Some(t) = syms.next() {
        return Err(format!("reports a further symbol {:?}", t));
    }
    // the tool may list relocations in another order
    let mut got = v.rels.clone();
    got.sort();
    rels.sort();
    if got != rels {
        let d = got.iter().zip(&rels).find(|(a, b)| a != b);
        return Err(format!("reports {} relocations, the object has {}; first difference {:?}", got.len(), rels.len(), d));
    }
    for (t, pcrel) in &v.types {
        if !pcrel && t != "X86_64_RELOC_UNSIGNED" {
            return Err(format!("reports an absolute relocation of type {}", t));
        }
    }
    if v.types.len() != v.rels.len() {
        return Err(format!("HARNESS {} relocation types, {} relocations", v.types.len(), v.rels.len()));
    }
    Ok(n + rels.len() as u64 + want.len() as u64)
}

/// an object a static link can resolve: only defined symbols, absolute 64-bit references
fn linkable(r: &mut Rng) -> Spec {
    loop {
        let sz = *r.pick(&[Size::Small, Size::Small, Size::Medium]);
        let mut s = gen(r, sz);
        let mut seen: Vec<String> = Vec::new();
        let mut keep = |v: &mut Vec<SymSpec>| {
            v.retain(|y| {
                let n = y.name().to_string();
                let ok = !matches!(y, SymSpec::Undef(_)) && !seen.contains(&n) && n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'.');
                seen.push(n);
                ok
            })
        };
        keep(&mut s.text.syms);
        keep(&mut s.data.syms);
        keep(&mut s.bss_syms);
        s.bss_size = s.bss_size.min(5000);
        for y in s.bss_syms.iter_mut() {
            if let SymSpec::Ref(_, a, _) = y {
                *a = (*a).min(s.bss_size);
            }
        }
        if s.text.bytes.is_empty() {
            continue;
        }
        s.text.syms.retain(|y| y.name() != "_entry0");
        let at = r.below(s.text.syms.len() + 1);
        s.text.syms.insert(at, SymSpec::Ref("_entry0".into(), 0, true));
        // disjoint 8-byte fields with small addends
        let empty_data = s.data.bytes.is_empty();
        let empty_bss = s.bss_size == 0;
        let mut names: Vec<String> = s.text.syms.iter().map(|y| y.name().to_string()).collect();
        if !empty_data {
            names.extend(s.data.syms.iter().map(|y| y.name().to_string()));
        }
        if !empty_bss {
            names.extend(s.bss_syms.iter().map(|y| y.name().to_string()));
        }
        for sec in [&mut s.text, &mut s.data] {
            sec.rels.clear();
            let mut a = r.below(12);
            while a + 8 <= sec.bytes.len() {
                if r.chance(1, 2) {
                    let add = if r.chance(1, 2) { 0 } else { r.below(0x10000) as u64 };
                    sec.bytes[a..a + 8].copy_from_slice(&add.to_le_bytes());
                    sec.rels.push(RelSpec { addr: a as u32, sym: r.pick(&names).clone(), pcrel: false, len: 3 });
                }
                a += 8 + r.below(40);
            }
        }
        return s;
    }
}

/// (vm address, bytes) of what the image loads, and its sections
pub struct Image {
    pub sects: Vec<(String, u64, Vec<u8>, u64)>, // name, address, contents, size
    pub entry: Option<u64>,
}
pub fn read_image(b: &[u8]) -> Result<Image, String> {
    let u32at = |o: usize| b.get(o..o + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or("short image".to_string());
    let u64at = |o: usize| b.get(o..o + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).ok_or("short image".to_string());
    if u32at(0)? != 0xfeed_facf {
        return Err("image magic".into());
    }
    let mut im = Image { sects: Vec::new(), entry: None };
    let mut o = 32;
    for _ in 0..u32at(16)? {
        let (cmd, size) = (u32at(o)?, u32at(o + 4)? as usize);
        if cmd == 0x19 {
            for k in 0..u32at(o + 64)? as usize {
                let q = o + 72 + 80 * k;
                let n = &b[q..q + 16];
                let n: String = n.iter().take_while(|x| **x != 0).map(|x| *x as char).collect();
                let (addr, sz, off, fl) = (u64at(q + 32)?, u64at(q + 40)?, u32at(q + 48)? as usize, u32at(q + 64)?);
                let data = if fl & 0xff == 1 { Vec::new() } else { b.get(off..off + sz as usize).ok_or("image section outside file")?.to_vec() };
                im.sects.push((n, addr, data, sz));
            }
        } else if cmd == 0x8000_0028 {
            im.entry = Some(u64at(o + 8)?);
        }
        o += size;
    }
    Ok(im)
}

pub fn lld(obj: &std::path::Path, out: &std::path::Path, entry: &str) -> Result<(), String> {
    let o = Command::new(LLD)
        .args(["-arch", "x86_64", "-platform_version", "macos", "11.0", "11.0", "-e", entry, "-o"])
        .arg(out)
        .arg(obj)
        .output()
        .map_err(|e| format!("HARNESS: {}: {}", LLD, e))?;
    if o.status.success() {
        Ok(())
    } else {
        Err(format!("{}", clip(String::from_utf8_lossy(&o.stderr).trim(), 500)))
    }
}

fn judge_link(s: &Spec, b: &[u8], dir: &std::path::Path, tag: usize) -> Result<u64, String> {
    let obj = dir.join(format!("l{}.o", tag));
    let out = dir.join(format!("l{}.out", tag));
    std::fs::write(&obj, b).unwrap();
    let r = lld(&obj, &out, "_entry0");
    let im = r.map_err(|e| format!("the linker refuses the object: {}", e)).and_then(|_| {
        let b = std::fs::read(&out).map_err(|e| format!("HARNESS {}", e))?;
        read_image(&b).map_err(|e| format!("HARNESS {}", e))
    });
    let _ = std::fs::remove_file(&obj);
    let _ = std::fs::remove_file(&out);
    let im = im?;
    let base = |n: &str| im.sects.iter().find(|x| x.0 == n);
    let mut addr = std::collections::HashMap::new();
    for w in s.present() {
        for y in w.syms {
            match y {
                SymSpec::Ref(n, a, _) => {
                    if let Some(x) = base(w.sect) {
                        addr.insert(n.clone(), x.1 + a);
                    }
                }
                SymSpec::Abs(n, v, _) => {
                    addr.insert(n.clone(), *v);
                }
                _ => {}
            }
        }
    }
    let mut n = 0;
    for w in s.present() {
        let bytes = match w.bytes {
            Some(b) if !b.is_empty() => b,
            _ => continue,
        };
        let g = base(w.sect).ok_or_else(|| format!("the linked image has no {}", w.sect))?;
        let mut want = bytes.to_vec();
        for r in w.rels {
            let a = r.addr as usize;
            let add = u64::from_le_bytes(bytes[a..a + 8].try_into().unwrap());
            want[a..a + 8].copy_from_slice(&addr[&r.sym].wrapping_add(add).to_le_bytes());
            n += 1;
        }
        if g.2 != want {
            let i = (0..want.len()).find(|&i| g.2.get(i) != Some(&want[i])).unwrap_or(want.len());
            let rel = w.rels.iter().find(|r| (r.addr as usize) <= i && i < r.addr as usize + 8);
            return Err(format!("linked {} differs at {:#x} ({:?})", w.sect, i, rel));
        }
    }
    Ok(n)
}

pub fn o05(c: &mut Ctx) {
    let have_lld = std::path::Path::new(LLD).exists();
    let n = c.n(360, 12_000);
    let mut done = 0;
    let mut wk = new_worker(c, "o05");
    c.phase(65);
    while done < n && !c.stop() {
        c.alive();
        let batch = 20.min(n - done);
        let mut specs = Vec::new();
        let mut files = Vec::new();
        for k in 0..batch {
            let mut s = if k == 19 && done % 60 == 0 {
                gen(&mut c.rng, Size::Huge)
            } else if k % 3 == 2 { linkable(&mut c.rng) } else { gen(&mut c.rng, if k % 5 == 0 { Size::Medium } else { Size::Small }) };
            // names the tool prints as they are, and that it can print apart
            for sec in [&mut s.text.syms, &mut s.data.syms, &mut s.bss_syms] {
                sec.retain(|y| y.name().bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$'));
            }
            let names: Vec<String> = s.all_syms().iter().map(|y| y.name().to_string()).collect();
            s.text.rels.retain(|r| names.contains(&r.sym));
            s.data.rels.retain(|r| names.contains(&r.sym));
            c.case(s.key());
            c.sample(|| s.show());
            if let Some(b) = write(c, &s) {
                let f = c.dir.join(format!("o05-{}-{}.o", c.shard, k));
                std::fs::write(&f, &b).unwrap();
                files.push(f);
                specs.push((s, b, k % 3 == 2));
            }
        }
        let run = |fs: &[std::path::PathBuf]| {
            Command::new("llvm-readobj")
                .args(["--sections", "--section-data", "--relocations", "--expand-relocs", "--symbols"])
                .args(fs)
                .output()
                .expect("llvm-readobj")
        };
        let out = run(&files);
        let mut views: Vec<Result<ObjView, String>> = Vec::new();
        if out.status.success() {
            let t = String::from_utf8_lossy(&out.stdout).into_owned();
            let parts: Vec<&str> = t.split("\nFile: ").collect();
            for p in parts.iter().skip(1) {
                views.push(Ok(parse_readobj(p)));
            }
        }
        if views.len() != files.len() {
            views.clear();
            for f in &files {
                let o = run(std::slice::from_ref(f));
                let t = String::from_utf8_lossy(&o.stdout).into_owned();
                views.push(if o.status.success() {
                    Ok(parse_readobj(&t))
                } else {
                    Err(clip(String::from_utf8_lossy(&o.stderr).trim(), 400))
                });
            }
        }
        for ((s, _, _), v) in specs.iter().zip(&views) {
            let r = match v {
                Err(e) => Err(format!("refuses it: {}", e)),
                Ok(v) => judge_view(s, v),
            };
            match r {
                Ok(m) => {
                    c.ev("objects read by llvm-readobj");
                    c.evn("sections, symbols and relocations compared with llvm-readobj", m);
                }
                Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
                Err(e) => {
                    c.viol(format!("llvm-readobj {}\nobject: {}", e, s.show()));
                    if c.stop() {
                        break;
                    }
                }
            }
        }
        if have_lld {
            for (k, (s, b, l)) in specs.iter().enumerate() {
                if !l || c.stop() {
                    continue;
                }
                c.alive();
                match judge_link(s, b, &c.dir.clone(), c.shard * 100 + k) {
                    Ok(m) => {
                        c.ev("objects linked by ld64.lld");
                        c.evn("relocated fields compared in linked images", m);
                    }
                    Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
                    Err(e) => c.viol(format!("{}\nobject: {}", e, s.show())),
                }
            }
        } else {
            c.note("ld64.lld not installed: no link");
        }
        for f in &files {
            let _ = std::fs::remove_file(f);
        }
        done += batch;
    }
    // whole programs: what the linker makes of them
    c.phase(100);
    if !have_lld {
        return;
    }
    let n = c.n(48, 2400);
    for k in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let len = c.rng.range(2, 30);
        let o = asmgen::Opts { ref32: false, ..asmgen::Opts::mixed(len) };
        let mut p = vec![asmgen::Stmt::Global("_entry0".into()), asmgen::Stmt::Label("_entry0".into()), asmgen::Stmt::Ret];
        p.extend(asmgen::gen(&mut c.rng, &o));
        if c.rng.chance(1, 12) {
            asmgen::inflate(&mut c.rng, &mut p);
        }
        let src = asmgen::plain(&p);
        let b = match wk.assemble(src.as_bytes()) {
            Res::Ok(b) => b,
            _ => {
                c.ev("programs not assembled (another property's matter)");
                continue;
            }
        };
        c.case(fnv(src.as_bytes()));
        let obj = c.dir.join(format!("p{}-{}.o", c.shard, k));
        let out = c.dir.join(format!("p{}-{}.out", c.shard, k));
        std::fs::write(&obj, &b).unwrap();
        let r = lld(&obj, &out, "_entry0").and_then(|_| read_image(&std::fs::read(&out).unwrap()));
        let _ = std::fs::remove_file(&obj);
        let _ = std::fs::remove_file(&out);
        match r.map_err(|e| format!("the linker refuses it: {}", e)).and_then(|im| judge_prog_image(&b, &im)) {
            Ok(m) => {
                c.ev("program objects linked by ld64.lld");
                c.evn("relocated fields compared in linked images", m);
            }
            Err(e) => c.viol(format!("{}\nsource:\n{}", e, src)),
        }
    }
}
/// the image equals our own link of the same object at the same section addresses
fn judge_prog_image(b: &[u8], im: &Image) -> Result<u64, String> {
    let f: File = macho::parse(b)?;
    let bases: Vec<u64> = f.sects.iter().map(|s| im.sects.iter().find(|x| x.0 == s.sectname).map(|x| x.1).unwrap_or(0)).collect();
    // references to labels in sections without contents have no place in the image
    let gone = |i: usize| f.sects[i].size == 0;
    let want = crate::link::apply(&f, &bases)?;
    let mut n = 0;
    for (i, s) in f.sects.iter().enumerate() {
        if s.data.is_empty() {
            continue;
        }
        let g = im.sects.iter().find(|x| x.0 == s.sectname).ok_or_else(|| format!("the linked image has no {}", s.sectname))?;
        let (mut a, mut e) = (g.2.clone(), want[i].clone());
        for r in &s.relocs {
            n += 1;
            let t = &f.syms[r.sym as usize];
            if t.kind() == macho::N_SECT && t.sect > 0 && gone(t.sect as usize - 1) {
                for v in [&mut a, &mut e] {
                    if let Some(x) = v.get_mut(r.addr as usize..r.addr as usize + 8) {
                        x.fill(0)
                    }
                }
            }
        }
        if a != e {
            let k = (0..e.len()).find(|&k| a.get(k) != Some(&e[k])).unwrap_or(e.len());
            return Err(format!("linked {} differs at {:#x}: {} instead of {}", s.sectname, k, hex(&a[k..a.len().min(k + 8)]), hex(&e[k..e.len().min(k + 8)])));
        }
    }
    Ok(n)
}

// ------------------------------------------------------------------ O06

pub fn o06(c: &mut Ctx) {
    let me = std::env::current_exe().unwrap();
    let dbg = std::env::var("MON_DBG").map(std::path::PathBuf::from).unwrap_or_else(|_| me.clone());
    let rel = std::env::var("MON_REL").map(std::path::PathBuf::from).unwrap_or_else(|_| me.clone());
    if dbg == rel {
        c.note("only one build profile available");
    }
    let dir = c.dir.clone();
    // objects: repetition, fresh equal objects, other threads
    let n = c.n(600, 20_000);
    c.phase(40);
    for _ in 0..n {
        if c.stop() {
            break;
        }
        let sz = if c.rng.chance(1, 40) { Size::Huge } else if c.rng.chance(1, 3) { Size::Medium } else { Size::Small };
        let s = gen(&mut c.rng, sz);
        c.case(s.key());
        c.sample(|| s.show());
        let o = build(&s);
        let w = |o: &at_obj::Object| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut b = Vec::new();
                at_obj::macho::write_into(o, &mut b);
                b
            }))
            .ok()
        };
        let r = c.sut(
            || s.show(),
            || {
                let first = w(&o);
                let mut all = vec![w(&o), w(&build(&s))];
                std::thread::scope(|sc| {
                    let h: Vec<_> = (0..3)
                        .map(|_| {
                            let s = &s;
                            let w = &w;
                            sc.spawn(move || w(&build(s)))
                        })
                        .collect();
                    for x in h {
                        all.push(x.join().unwrap());
                    }
                });
                all.iter().all(|x| *x == first)
            },
        );
        match r {
            Ok(true) => c.ev("objects written again, rebuilt, and in other threads: identical"),
            _ => c.viol(format!("writing the same object again gives other bytes: {}", s.show())),
        }
    }
    c.phase(100);
    // programs: two builds, several processes, repetition, another environment, threads
    let mut a1 = Worker::new(&dbg, &dir, &format!("o06a-{}", c.shard));
    let mut a2 = Worker::new(&dbg, &dir, &format!("o06b-{}", c.shard));
    a2.odd_env = true;
    let mut b1 = Worker::new(&rel, &dir, &format!("o06c-{}", c.shard));
    let mut b2 = Worker::new(&rel, &dir, &format!("o06d-{}", c.shard));
    let n = c.n(1200, 40_000);
    for k in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let src: Vec<u8> = match k % 4 {
            0 => crate::a::hostile(&mut c.rng, 600),
            1 => crate::a::edge_exprs(&mut c.rng).into_bytes(),
            _ => {
                let len = c.rng.range(1, 40);
                let mut p = asmgen::gen(&mut c.rng, &asmgen::Opts::wild(len));
                if c.rng.chance(1, 12) {
                    asmgen::inflate(&mut c.rng, &mut p);
                }
                asmgen::render(&p, &mut c.rng, asmgen::Style::Free).into_bytes()
            }
        };
        c.case(fnv(&src));
        // outcome: bytes, or rejection
        let norm = |r: Res| match r {
            Res::Ok(b) => Ok(b),
            r if r.rejected() => Err("rejected".to_string()),
            r => Err(r.short()),
        };
        let want = norm(a1.assemble(&src));
        let mut others = vec![("again in the same process", norm(a1.assemble(&src))), ("by the optimised build", norm(b1.assemble(&src)))];
        if k % 3 == 0 {
            others.push(("in another process and environment", norm(a2.assemble(&src))));
            others.push(("by the optimised build in another process", norm(b2.assemble(&src))));
            if k % 30 == 0 {
                // a process that has done nothing before
                a2.retire();
                b2.retire();
            }
        }
        if want.is_ok() {
            others.push(("in other threads", norm(b1.assemble_in_threads(&src))));
            c.ev("accepted programs compared across builds, processes, threads");
        } else {
            c.ev("rejected programs compared across builds and processes");
        }
        for (how, o) in others {
            if o != want {
                let sh = |r: &Result<Vec<u8>, String>| match r {
                    Ok(b) => format!("a {} byte object (hash {:x})", b.len(), fnv(b)),
                    Err(e) => e.clone(),
                };
                c.viol(format!(
                    "assembling {} gives {}, the first time (checked build) {}\nsource {:?}",
                    how,
                    sh(&o),
                    sh(&want),
                    crate::a::quote(&String::from_utf8_lossy(&src))
                ));
                break;
            }
        }
    }
    let _ = objgen::Size::Small;
}
