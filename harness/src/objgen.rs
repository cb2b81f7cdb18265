//! Random objects for the writer, with their content kept beside them.
use crate::util::*;
use at_obj::{Object, Reloc, Symbol};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
    Small,
    Medium,
    Large,
    /// one dimension beyond the usual field sizes: long names, many symbols, many relocations, big sections
    Huge,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SymSpec {
    Undef(String),
    Abs(String, u64, bool),
    Ref(String, u64, bool),
}
impl SymSpec {
    pub fn name(&self) -> &str {
        match self {
            SymSpec::Undef(n) | SymSpec::Abs(n, _, _) | SymSpec::Ref(n, _, _) => n,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RelSpec {
    pub addr: u32,
    pub sym: String,
    pub pcrel: bool,
    pub len: u8,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct SecSpec {
    pub bytes: Vec<u8>,
    pub syms: Vec<SymSpec>,
    pub rels: Vec<RelSpec>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Spec {
    pub text: SecSpec,
    pub data: SecSpec,
    pub bss_size: u64,
    pub bss_syms: Vec<SymSpec>,
}

impl Spec {
    pub fn show(&self) -> String {
        let sec = |s: &SecSpec| {
            format!(
                "{{{} bytes [{}], symbols {:?}, relocs {:?}}}",
                s.bytes.len(),
                clip(&hex(&s.bytes[..s.bytes.len().min(60)]), 90),
                clip(&format!("{:?}", &s.syms[..s.syms.len().min(60)]), 2000),
                clip(&format!("{:?}", &s.rels[..s.rels.len().min(60)]), 2000)
            )
        };
        clip(
            &format!("text{} data{} bss{{size {}, symbols {:?}}}", sec(&self.text), sec(&self.data), self.bss_size, self.bss_syms),
            6000,
        )
    }
    pub fn key(&self) -> u64 {
        fnv(format!(
            "{:x} {:x} {:?} {:?} {:?} {:?} {} {:?}",
            fnv(&self.text.bytes),
            fnv(&self.data.bytes),
            self.text.syms,
            self.data.syms,
            self.text.rels,
            self.data.rels,
            self.bss_size,
            self.bss_syms
        )
        .as_bytes())
    }
    /// (standard name, segment, size, bytes or none, symbols, relocations) of the sections that must be there
    pub fn present(&self) -> Vec<Want<'_>> {
        let none: &[RelSpec] = &[];
        let mut v = Vec::new();
        if !self.text.bytes.is_empty() || !self.text.syms.is_empty() {
            v.push(Want { sect: "__text", seg: "__TEXT", size: self.text.bytes.len() as u64, bytes: Some(&self.text.bytes), syms: &self.text.syms, rels: &self.text.rels });
        }
        if !self.data.bytes.is_empty() || !self.data.syms.is_empty() {
            v.push(Want { sect: "__data", seg: "__DATA", size: self.data.bytes.len() as u64, bytes: Some(&self.data.bytes), syms: &self.data.syms, rels: &self.data.rels });
        }
        if self.bss_size > 0 || !self.bss_syms.is_empty() {
            v.push(Want { sect: "__bss", seg: "__DATA", size: self.bss_size, bytes: None, syms: &self.bss_syms, rels: none });
        }
        v
    }
    pub fn all_syms(&self) -> Vec<&SymSpec> {
        self.text.syms.iter().chain(&self.data.syms).chain(&self.bss_syms).collect()
    }
}
pub struct Want<'a> {
    pub sect: &'static str,
    pub seg: &'static str,
    pub size: u64,
    pub bytes: Option<&'a [u8]>,
    pub syms: &'a [SymSpec],
    pub rels: &'a [RelSpec],
}

/// Names that are prefixes, suffixes and near copies of each other, plus odd but legal characters.
pub fn name(r: &mut Rng, used: &mut Vec<String>, dup: bool) -> String {
    loop {
        let n = if let Some(n) = r.hint(70_000) { "n".repeat(n as usize) } else { String::new() };
        let n = match r.word() {
            Some(w) if w.bytes().all(|b| b.is_ascii_graphic()) => format!("{}{}{}", r.pick(&["", "", "_", "x"]), w, r.pick(&["", "", "_", "1"])),
            _ => n,
        };
        let n = if !n.is_empty() { n } else { match r.below(9) {
            0 => format!("{}{}", r.pick(&["a", "b", "L", "_", "$"]), r.below(10)),
            1 if !used.is_empty() => format!("{}{}", r.pick(used), r.pick(&["0", "a", "_", "x"])),
            8 if !used.is_empty() && r.chance(1, 2) => {
                // another name with a letter changed, two swapped, the case changed, reversed
                let mut u: Vec<char> = r.pick(used).chars().collect();
                let (i, k) = (r.below(u.len()), r.below(u.len()));
                match r.below(5) {
                    0 => u.swap(i, k),
                    1 => u.reverse(),
                    2 => u = u.iter().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                    3 => u.truncate(100),
                    _ => u[i] = *r.pick(&['a', 'b', 'z', 'A', '_', '.', '0', '9']),
                }
                u.into_iter().collect()
            }
            2 if !used.is_empty() => format!("{}{}", r.pick(&["_", "a", "x", "L"]), r.pick(used)),
            3 if !used.is_empty() => {
                let u = r.pick(used).clone();
                let k = r.range(1, u.len().max(1)).min(u.len());
                u[k..].to_string()
            }
            4 if !used.is_empty() => {
                let u = r.pick(used).clone();
                u[..r.below(u.len() + 1)].to_string()
            }
            5 => {
                let k = *r.pick(&[1, 2, 7, 8, 15, 16, 17, 31, 63, 200]);
                (0..k).map(|_| (b'a' + r.below(26) as u8) as char).collect()
            }
            6 => {
                let k = r.range(1, 12);
                (0..k).map(|_| (0x21 + r.below(0x5e) as u8) as char).collect()
            }
            7 if dup && !used.is_empty() => r.pick(used).clone(),
            _ => format!("{}{}", r.pick(&["_main", "main", "msg", "__text", "_start", "rax", "data", "x.y", "foo bar", "A", "aA"]), r.pick(&["", "", "1", "_"])),
        }};
        if n.is_empty() {
            continue;
        }
        if !dup && used.contains(&n) {
            continue;
        }
        if !used.contains(&n) {
            used.push(n.clone());
        }
        return n;
    }
}

fn len(r: &mut Rng, s: Size) -> usize {
    let z = r.below(10);
    match (s, z) {
        (_, 0) => 0,
        (_, 1) => r.range(1, 9),
        (Size::Small, _) => r.below(64),
        (Size::Medium, 2) => r.below(5000),
        (Size::Medium, _) => r.below(400),
        (Size::Large, 2) => r.range(60000, 300_000),
        (_, _) => r.below(20_000),
    }
}
/// mostly noise; sometimes one value throughout or from some place on
fn contents(r: &mut Rng, s: Size) -> Vec<u8> {
    let n = match r.below(60) {
        0 => *r.pick(&[4095, 4096, 4097, 8192, 4104, 16_384, 65_536]),
        _ => len(r, s),
    };
    let n = r.near(300_000, n);
    let mut b = r.bytes(n);
    if n > 0 {
        for _ in 0..r.below(3) {
            if let Some(v) = r.hint(255) {
                let k = r.below(n);
                b[k] = v as u8;
            }
        }
    }
    if r.chance(1, 6) {
        let v = *r.pick(&[0u8, 0, 0, 0xff, 0x90, 0xc3]);
        let i = match r.below(3) {
            0 => 0,
            1 => r.below(n + 1),
            _ => n - n.min(r.below(20)),
        };
        b[i..].fill(v);
        if r.chance(1, 4) {
            b.reverse();
        }
    }
    b
}
fn count(r: &mut Rng, s: Size) -> usize {
    if s != Size::Small {
        if let Some(v) = r.hint(1200) {
            return v as usize;
        }
    }
    match (s, r.below(6)) {
        (_, 0) => 0,
        (_, 1) => 1,
        (Size::Small, _) => r.below(5),
        (Size::Medium, 2) => r.below(40),
        (Size::Medium, _) => r.below(9),
        (Size::Large, 2) => r.below(300),
        (_, _) => r.below(30),
    }
}

fn syms(r: &mut Rng, size: u64, k: usize, used: &mut Vec<String>, dup: bool) -> Vec<SymSpec> {
    (0..k)
        .map(|_| {
            let n = name(r, used, dup);
            match r.below(10) {
                0 => SymSpec::Undef(n),
                1 | 2 => SymSpec::Abs(n, r.edgy64(), r.chance(1, 2)),
                _ => {
                    let a = match r.below(5) {
                        0 => 0,
                        1 => size,
                        _ => {
                            let v = r.next() % (size + 1);
                            r.hint(size).unwrap_or(v)
                        }
                    };
                    SymSpec::Ref(n, a, r.chance(1, 2))
                }
            }
        })
        .collect()
}

fn huge(r: &mut Rng) -> Spec {
    let mut o = gen(r, Size::Small);
    if o.text.bytes.len() < 8 {
        o.text.bytes = r.bytes(32);
    }
    if o.data.bytes.len() < 8 {
        o.data.bytes = r.bytes(40);
    }
    let tl = o.text.bytes.len() as u64;
    let tag = |k: usize| format!("{}{}", ["h", "_h", "x.h", "hh_"][k % 4], k);
    match r.below(5) {
        0 => {
            // long names that share long beginnings and ends
            let n = *r.pick(&[255usize, 256, 257, 4095, 4096, 4097, 32_768, 65_535, 65_536, 70_000]);
            let base: String = (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect();
            for k in 0..r.range(2, 5) {
                let nm = match r.below(4) {
                    0 => format!("{}{}", base, k),
                    1 => format!("{}{}", k, base),
                    2 => format!("{}_{}", &base[..n - (r.below(n.min(300)) + 1)], k),
                    _ => format!("{}{}", &base[r.below(n)..], k),
                };
                if o.all_syms().iter().any(|y| y.name() == nm) {
                    continue;
                }
                let y = SymSpec::Ref(nm, r.next() % (tl + 1), r.chance(1, 2));
                let at = r.below(o.text.syms.len() + 1);
                o.text.syms.insert(at, y);
            }
        }
        1 => {
            // many symbols
            let n = *r.pick(&[255usize, 256, 257, 300, 1000, 2000]);
            for k in 0..n {
                match r.below(6) {
                    0 => o.data.syms.push(SymSpec::Ref(tag(k), r.next() % (o.data.bytes.len() as u64 + 1), r.chance(1, 2))),
                    1 => o.bss_syms.push(SymSpec::Ref(tag(k), r.next() % (o.bss_size + 1), r.chance(1, 2))),
                    2 => o.text.syms.push(SymSpec::Undef(tag(k))),
                    _ => o.text.syms.push(SymSpec::Ref(tag(k), r.next() % (tl + 1), r.chance(1, 2))),
                }
            }
            for _ in 0..r.range(1, 40) {
                let k = r.below(n);
                o.text.rels.push(RelSpec { addr: 0, sym: tag(k), pcrel: false, len: 3 });
                let k = n - 1 - r.below(3);
                o.data.rels.push(RelSpec { addr: 0, sym: tag(k), pcrel: r.chance(1, 3), len: 2 });
            }
        }
        2 => {
            // many relocations
            let n = *r.pick(&[255usize, 256, 257, 4095, 4096, 5000, 8192, 32_768, 65_535, 65_536, 70_000]);
            o.text.syms.push(SymSpec::Ref("h0".into(), 0, true));
            let both = r.chance(1, 2);
            for k in 0..n {
                let len = r.below(4) as u8;
                let a = r.below(9 - (1 << len));
                let x = RelSpec { addr: a as u32, sym: "h0".into(), pcrel: k % 5 == 0, len };
                if both && k % 3 == 0 {
                    o.data.rels.push(x)
                } else {
                    o.text.rels.push(x)
                }
            }
            o.data.rels.push(RelSpec { addr: 1, sym: "h0".into(), pcrel: false, len: 2 });
        }
        k => {
            // big sections, symbols and relocations at their far ends
            let n = match r.below(12) {
                0 => 0x0100_0000 + r.below(64),
                1..=4 => 0x7ff0 + r.below(32),
                5..=8 => 0xfff0 + r.below(32),
                _ => r.range(0x10000, 0x50000),
            };
            let mut b = vec![r.next() as u8; n];
            for _ in 0..2000.min(n) {
                let i = r.below(n);
                b[i] = r.next() as u8;
            }
            let y = SymSpec::Ref("hfar".into(), (n - r.below(3)) as u64, r.chance(1, 2));
            let x = RelSpec { addr: (n - 8 - r.below(3)) as u32, sym: "hfar".into(), pcrel: false, len: 3 };
            let sec = if k == 3 { &mut o.text } else { &mut o.data };
            sec.bytes = b;
            sec.syms.push(y);
            sec.rels.push(x);
        }
    }
    // contents were replaced: what lies beyond them now goes
    for sec in [&mut o.text, &mut o.data] {
        let n = sec.bytes.len() as u64;
        sec.rels.retain(|x| x.addr as u64 + (1 << x.len) <= n);
        for y in sec.syms.iter_mut() {
            if let SymSpec::Ref(_, a, _) = y {
                *a = (*a).min(n);
            }
        }
    }
    o
}

pub const GIANTS: usize = 12;
/// Counts, offsets and addresses beyond 16 and 24 bits; few distinct names, which are quickly found.
pub fn giant(k: usize, r: &mut Rng) -> Spec {
    let mut o = Spec::default();
    o.text.bytes = r.bytes(50);
    o.data.bytes = r.bytes(33);
    o.bss_size = 1000;
    let many = 65_530 + r.below(20);
    let mid = 25_000;
    let dup = |r: &mut Rng, n: usize, size: u64| -> Vec<SymSpec> {
        (0..n)
            .map(|i| match i % 7 {
                5 => SymSpec::Undef("d".into()),
                6 => SymSpec::Abs("e".into(), r.edgy64(), r.chance(1, 2)),
                _ => SymSpec::Ref(["d", "e", "dd"][i % 3].into(), r.next() % (size + 1), r.chance(1, 2)),
            })
            .collect()
    };
    let rels = |r: &mut Rng, n: usize, size: usize, names: &[&str]| -> Vec<RelSpec> {
        (0..n)
            .map(|_| {
                let len = r.below(4) as u8;
                RelSpec { addr: r.below(size + 1 - (1 << len)) as u32, sym: r.pick(names).to_string(), pcrel: r.chance(1, 4), len }
            })
            .collect()
    };
    let tail = |r: &mut Rng, size: u64| -> Vec<SymSpec> {
        ["far", "farther", "x"].iter().map(|n| SymSpec::Ref(n.to_string(), r.next() % (size + 1), r.chance(1, 2))).collect()
    };
    match k {
        0 => {
            o.text.syms = dup(r, many, 50);
            o.text.syms.extend(tail(r, 50));
            o.text.rels = rels(r, 20, 50, &["d", "far", "farther", "x", "e"]);
            o.data.rels = rels(r, 20, 33, &["d", "far", "farther", "x", "e"]);
        }
        1 => {
            o.data.syms = dup(r, many, 33);
            o.bss_syms = tail(r, 1000);
            o.text.rels = rels(r, 20, 50, &["d", "far", "farther", "x", "e"]);
        }
        2 => {
            o.bss_syms = dup(r, many, 1000);
            o.bss_syms.extend(tail(r, 1000));
            o.data.rels = rels(r, 20, 33, &["d", "far", "farther", "x", "e"]);
        }
        3 => {
            // many together only
            o.text.syms = dup(r, mid, 50);
            o.data.syms = dup(r, mid, 33);
            o.bss_syms = dup(r, mid, 1000);
            o.bss_syms.extend(tail(r, 1000));
            o.text.rels = rels(r, 2 * mid, 50, &["d", "e"]);
            o.data.rels = rels(r, 2 * mid, 33, &["dd", "e"]);
            o.data.rels.extend(rels(r, 4, 33, &["x", "far"]));
        }
        4 => {
            o.data.syms = tail(r, 33);
            o.text.rels = rels(r, 3, 50, &["x"]);
            o.data.rels = rels(r, many, 33, &["far", "x"]);
        }
        5 => {
            o.text.syms = tail(r, 50);
            o.text.rels = rels(r, many, 50, &["far", "x"]);
            o.data.rels = rels(r, many, 33, &["farther", "x"]);
        }
        6 | 7 => {
            // the names take more than 24 bits of offset
            let n = SymSpec::Ref("n".repeat(0x0100_0000 - 4 + r.below(9)), 5, true);
            if k == 6 {
                o.text.syms.push(n);
                o.text.syms.extend(tail(r, 50));
            } else {
                o.data.syms.push(n);
                o.bss_syms = tail(r, 1000);
            }
            o.text.rels = rels(r, 8, 50, &["far", "farther", "x"]);
        }
        8 | 9 => {
            // contents of more than 24 bits
            let n = 0x0100_0000 + r.below(40);
            let mut b = vec![r.next() as u8; n];
            for _ in 0..3000 {
                let i = r.below(n);
                b[i] = r.next() as u8;
            }
            let mut far = tail(r, n as u64);
            far.push(SymSpec::Ref("end".into(), n as u64 - r.below(20) as u64, true));
            let mut rl = rels(r, 6, n, &["far", "x", "end", "d"]);
            rl.push(RelSpec { addr: n as u32 - 8 - r.below(20) as u32, sym: "end".into(), pcrel: false, len: 3 });
            if k == 8 {
                (o.text.bytes, o.text.syms, o.text.rels) = (b, far, rl);
                o.data.syms = dup(r, 3, 33);
                o.data.rels = rels(r, 3, 33, &["d", "end"]);
            } else {
                (o.data.bytes, o.data.syms, o.data.rels) = (b, far, rl);
                o.bss_syms = dup(r, 3, 1000);
            }
        }
        10 => {
            // both sections, together beyond 16 and 24 bits
            let n = 0x0080_0000 + r.below(20);
            o.text.bytes = vec![0x90; n];
            o.data.bytes = vec![7; n];
            o.data.bytes[n - 3] = 9;
            o.data.syms = tail(r, n as u64);
            o.bss_syms = dup(r, 3, 1000);
            o.data.rels = rels(r, 5, n, &["far", "x", "d"]);
        }
        _ => {
            // zero-initialised space beyond 32 bits
            o.bss_size = (1 << 32) + r.next() % (1 << 33);
            o.bss_syms = tail(r, o.bss_size);
            o.bss_syms.push(SymSpec::Ref("end".into(), o.bss_size, true));
            o.text.rels = rels(r, 4, 50, &["far", "end"]);
        }
    }
    o
}

pub fn gen(r: &mut Rng, s: Size) -> Spec {
    if s == Size::Huge {
        return huge(r);
    }
    let mut used = Vec::new();
    let dup = r.chance(1, 8);
    let mut o = Spec::default();
    o.text.bytes = contents(r, s);
    o.data.bytes = match r.below(16) {
        0 => o.text.bytes.clone(),
        1 => r.bytes(o.text.bytes.len()),
        2 => {
            let n = o.text.bytes.len();
            r.bytes((8 - n % 8) % 8)
        }
        _ => contents(r, s),
    };
    o.bss_size = match r.below(6) {
        0 | 1 => 0,
        2 => r.below(9) as u64,
        3 => r.below(100_000) as u64,
        4 => r.next() >> (24 + r.below(30)),
        _ => 1 << r.below(40),
    };
    if r.chance(1, 12) {
        o.bss_size = (o.text.bytes.len() + if r.chance(1, 2) { o.data.bytes.len() } else { 0 }) as u64;
    }
    o.bss_size = r.hint(1 << 40).unwrap_or(o.bss_size);
    let k = count(r, s);
    o.text.syms = syms(r, o.text.bytes.len() as u64, k, &mut used, dup);
    let k = count(r, s);
    o.data.syms = syms(r, o.data.bytes.len() as u64, k, &mut used, dup);
    let k = count(r, s).min(40);
    o.bss_syms = syms(r, o.bss_size, k, &mut used, dup);
    let names: Vec<String> = o.all_syms().iter().map(|s| s.name().to_string()).collect();
    if !names.is_empty() {
        for which in 0..2 {
            let k = count(r, s);
            let size = if which == 0 { o.text.bytes.len() } else { o.data.bytes.len() };
            for _ in 0..k {
                let len = r.below(4) as u8;
                if size < 1 << len {
                    continue;
                }
                let room = size - (1 << len);
                let addr = match r.below(4) {
                    0 => 0,
                    1 => room,
                    _ => {
                        let v = r.below(room + 1);
                        r.near(room, v)
                    }
                } as u32;
                let rel = RelSpec { addr, sym: r.pick(&names).clone(), pcrel: r.chance(1, 3), len };
                if which == 0 {
                    o.text.rels.push(rel)
                } else {
                    o.data.rels.push(rel)
                }
            }
            // the same again, in order, backwards, or all to one name
            let v = if which == 0 { &mut o.text.rels } else { &mut o.data.rels };
            if !v.is_empty() {
                match r.below(16) {
                    0 => {
                        let x = r.pick(v).clone();
                        v.push(x);
                    }
                    1 => v.sort_by_key(|x| x.addr),
                    2 => v.sort_by_key(|x| std::cmp::Reverse(x.addr)),
                    3 => {
                        let n = v[0].sym.clone();
                        v.iter_mut().for_each(|x| x.sym = n.clone());
                    }
                    4 => {
                        let a = v[0].clone();
                        v.iter_mut().filter(|x| x.len <= a.len).for_each(|x| x.addr = a.addr);
                    }
                    _ => {}
                }
            }
        }
        if r.chance(1, 16) {
            // both sections refer to the same names from the same places
            let n = o.data.bytes.len();
            o.data.rels = o.text.rels.iter().filter(|x| x.addr as usize + (1 << x.len) <= n).cloned().collect();
        }
    }
    if r.chance(1, 10) {
        // symbols in order of address, or all at one
        for v in [&mut o.text.syms, &mut o.data.syms, &mut o.bss_syms] {
            let key = |y: &SymSpec| match y {
                SymSpec::Ref(_, a, _) => *a,
                SymSpec::Abs(_, v, _) => *v,
                SymSpec::Undef(_) => 0,
            };
            match r.below(4) {
                0 => v.sort_by_key(key),
                1 => v.sort_by_key(|y| std::cmp::Reverse(key(y))),
                2 => v.sort_by(|a, b| a.name().cmp(b.name())),
                _ => {
                    let a = v.iter().find_map(|y| if let SymSpec::Ref(_, a, _) = y { Some(*a) } else { None });
                    if let Some(a) = a {
                        v.iter_mut().for_each(|y| match y {
                            SymSpec::Ref(_, x, _) | SymSpec::Abs(_, x, _) => *x = a,
                            _ => {}
                        });
                    }
                }
            }
        }
    }
    o
}

fn b_sym(s: &SymSpec) -> Symbol {
    match s {
        SymSpec::Undef(n) => Symbol::Undef { name: n.clone() },
        SymSpec::Abs(n, v, e) => Symbol::Abs { name: n.clone(), val: *v, ext: *e },
        SymSpec::Ref(n, a, e) => Symbol::Ref { name: n.clone(), addr: *a, ext: *e },
    }
}
fn b_rel(s: &RelSpec) -> Reloc {
    Reloc { addr: s.addr as i32, symbol: s.sym.clone(), pcrel: s.pcrel, len: s.len }
}
pub fn build(s: &Spec) -> Object {
    let mut o = Object::new();
    o.sections.text.bytes = s.text.bytes.clone();
    o.sections.text.symbols = s.text.syms.iter().map(b_sym).collect();
    o.sections.text.relocs = s.text.rels.iter().map(b_rel).collect();
    o.sections.data.bytes = s.data.bytes.clone();
    o.sections.data.symbols = s.data.syms.iter().map(b_sym).collect();
    o.sections.data.relocs = s.data.rels.iter().map(b_rel).collect();
    o.sections.bss.size = s.bss_size;
    o.sections.bss.symbols = s.bss_syms.iter().map(b_sym).collect();
    o
}
