//! Random assembler programs as syntax trees with their meaning, rendered to text in many styles.
use crate::util::*;
use crate::x86::{self, Op};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sec {
    Text,
    Data,
    Bss,
}
impl Sec {
    pub fn word(self) -> &'static str {
        match self {
            Sec::Text => ".text",
            Sec::Data => ".data",
            Sec::Bss => ".bss",
        }
    }
    pub fn sectname(self) -> &'static str {
        match self {
            Sec::Text => "__text",
            Sec::Data => "__data",
            Sec::Bss => "__bss",
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lit {
    pub text: String,
    pub val: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    One(Lit),
    Bin(Lit, bool, Lit),
}
impl Val {
    pub fn value(&self) -> u64 {
        match self {
            Val::One(l) => l.val,
            Val::Bin(a, true, b) => a.val.wrapping_add(b.val),
            Val::Bin(a, false, b) => a.val.wrapping_sub(b.val),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Num(Lit),
    Str(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stmt {
    Section(Sec),
    Global(String),
    Label(String),
    /// unit in bytes: 1 2 4 8
    Data { label: Option<String>, unit: u8, items: Vec<Item> },
    MovRR(u8, u8, u8),
    MovRI(u8, u8, Val),
    MovRL(u8, u8, String),
    PushR(u8),
    PushI(Lit),
    Ret,
    Syscall,
}
impl Stmt {
    pub fn is_ins(&self) -> bool {
        matches!(self, Stmt::MovRR(..) | Stmt::MovRI(..) | Stmt::MovRL(..) | Stmt::PushR(..) | Stmt::PushI(..) | Stmt::Ret | Stmt::Syscall)
    }
    /// the machine operation of an instruction (label operands as the unrelocated zero)
    pub fn op(&self) -> Option<Op> {
        Some(match self {
            Stmt::MovRR(w, d, s) => Op::MovRR { w: *w, d: *d, s: *s },
            Stmt::MovRI(w, d, v) => Op::MovRI { w: *w, d: *d, imm: v.value() },
            Stmt::MovRL(w, d, _) => Op::MovRI { w: *w, d: *d, imm: 0 },
            Stmt::PushR(r) => Op::PushR { w: 64, r: *r },
            Stmt::PushI(l) => Op::PushI { w: 64, val: l.val },
            Stmt::Ret => Op::Ret,
            Stmt::Syscall => Op::Syscall,
            _ => return None,
        })
    }
    /// bytes of a data line
    pub fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            Stmt::Data { unit, items, .. } => {
                let mut o = Vec::new();
                for i in items {
                    match i {
                        Item::Num(l) => o.extend_from_slice(&l.val.to_le_bytes()[..*unit as usize]),
                        Item::Str(s) => {
                            o.extend_from_slice(s.as_bytes());
                            let mut n = s.len();
                            while n % *unit as usize != 0 {
                                o.push(0);
                                n += 1;
                            }
                        }
                    }
                }
                Some(o)
            }
            _ => None,
        }
    }
    pub fn label(&self) -> Option<&str> {
        match self {
            Stmt::Label(n) => Some(n),
            Stmt::Data { label: Some(n), .. } => Some(n),
            _ => None,
        }
    }
}
pub type Prog = Vec<Stmt>;

/// section each statement stands in
pub fn sections(p: &[Stmt]) -> Vec<Sec> {
    let mut cur = Sec::Text;
    p.iter()
        .map(|s| {
            if let Stmt::Section(x) = s {
                cur = *x;
            }
            cur
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// number of statements, about
    pub n: usize,
    pub labels: usize,
    pub refs: bool,
    pub ref32: bool,
    pub globals: bool,
    pub sections: bool,
    pub bss: bool,
    pub strings: bool,
    /// weird literals: leading zeros, hex case, boundary values, expressions
    pub wild_lits: bool,
    /// quotes hold separators, comment characters, non-ASCII text
    pub wild_strings: bool,
    pub text_data: bool,
    pub data_code: bool,
    /// instructions use few registers
    pub few: Option<[u8; 3]>,
}
impl Opts {
    pub fn mixed(n: usize) -> Opts {
        Opts {
            n,
            labels: 1 + n / 4,
            refs: true,
            ref32: true,
            globals: true,
            sections: true,
            bss: true,
            strings: true,
            wild_lits: false,
            wild_strings: false,
            text_data: true,
            data_code: true,
            few: None,
        }
    }
    pub fn wild(n: usize) -> Opts {
        Opts { wild_lits: true, wild_strings: true, ..Opts::mixed(n) }
    }
}

pub fn is_reserved(n: &str) -> bool {
    if n.is_empty() {
        return true;
    }
    if ["mov", "push", "ret", "syscall", "section", "global", "db", "dw", "dd", "dq", "+", "-"].contains(&n) {
        return true;
    }
    if n.ends_with(':') || n.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-') {
        return true;
    }
    for t in [&x86::N64, &x86::N32, &x86::N16, &x86::N8] {
        if t.contains(&n) {
            return true;
        }
    }
    ["ah", "bh", "ch", "dh", "rip", "eip", "ip"].contains(&n)
}

/// a name with a text or of a length that the code under test mentions
fn dict_label(r: &mut Rng) -> Option<String> {
    if let Some(n) = r.hint(5000) {
        let c = *r.pick(&['a', 'q', 'Z', '_']);
        return Some(std::iter::repeat(c).take(n as usize).collect());
    }
    let w: String = r.word()?.chars().filter(|c| c.is_ascii_alphanumeric() || "_.$@?".contains(*c)).collect();
    if w.is_empty() || w.len() > 40 {
        return None;
    }
    Some(match r.below(5) {
        0 => format!("{}{}", w, r.pick(&["x", "_", "0", "1", "abc"])),
        1 => format!("{}{}", r.pick(&["x", "_", "L", "a", "zz"]), w),
        2 => w.to_uppercase(),
        _ => w,
    })
}

/// Label names near keywords, registers, numbers and each other.
pub fn label(r: &mut Rng, used: &mut Vec<String>) -> String {
    loop {
        if let Some(n) = dict_label(r) {
            if !is_reserved(&n) && !used.contains(&n) {
                used.push(n.clone());
                return n;
            }
        }
        let n = match r.below(10) {
            0 => format!("{}{}", r.pick(&x86::N64), r.pick(&["x", "_", "0", "l", "."])),
            1 => format!("{}{}", r.pick(&["_", "x", ".", "$"]), r.pick(&x86::N32)),
            2 => format!("{}{}", r.pick(&["mov", "push", "ret", "syscall", "db", "dw", "dd", "dq", "section", "global"]), r.pick(&["x", "_", "2", "."])),
            3 => format!("{}{}", r.pick(&["_", "m", "."]), r.pick(&["db", "dw", "dd", "dq", "mov", "section", "global", "0x10", "12", "text"])),
            4 if !used.is_empty() => format!("{}{}", r.pick(used), r.pick(&["0", "a", "_", "x"])),
            5 if !used.is_empty() => format!("{}{}", r.pick(&["_", "a", "x", "L"]), r.pick(used)),
            6 => format!("{}{}", r.pick(&["loop", "L", "msg", "a", "b", "_x", "Z"]), r.below(1000)),
            7 => {
                let k = *r.pick(&[1, 2, 3, 8, 15, 16, 17, 40, 120]);
                (0..k).map(|_| *r.pick(&['a', 'b', 'z', 'A', 'Z', '_', 'q'])).collect()
            }
            8 if !used.is_empty() && r.chance(2, 3) => {
                // one character of another name changed, two swapped, the case changed, reversed
                let mut u: Vec<char> = r.pick(used).chars().collect();
                let (i, k) = (r.below(u.len()), r.below(u.len()));
                match r.below(6) {
                    0 => u.swap(i, k),
                    1 => u.reverse(),
                    2 => u = u.iter().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                    3 => {
                        u.remove(i);
                    }
                    4 => u = [&u[..], &u[..]].concat(),
                    _ => u[i] = *r.pick(&['a', 'b', 'z', 'A', '_', '.', '0', '9']),
                }
                u.into_iter().collect()
            }
            8 if r.chance(1, 3) => r.pick(&["a-b", "a+1", "x#y", "it's", "a/b", "a=b", "a@b", "a%b", "[x]", "(y)", "a*b", "{z}", "~t", "!n", "a|b", "a&b", "<l>", "^u", "\\w", "`q`", "a:b", "face", "dead", "beef", "f00d", "a0", "e1", "ffh", "b1", "inf", "nan", "true", "0"]).to_string(),
            8 => r.pick(&["RAX", "Mov", "PUSH", "r16", "r8x", "rxx", "bss", "data", "text", ".text", ".data", "_main", "main", "start", "x.y.z", "a$b", "@f", "?q", "DB"]).to_string(),
            _ => format!("_{}", r.pick(&["main", "start", "msg", "len", "exit", "data", "x", "y"])),
        };
        if n.len() > 180 || is_reserved(&n) || used.contains(&n) {
            continue;
        }
        used.push(n.clone());
        return n;
    }
}

pub fn lit(r: &mut Rng, max: u64, wild: bool) -> Lit {
    let v = if wild {
        let e = match r.below(6) {
            0 => max,
            1 => max - max.min(r.below(3) as u64),
            2 => max / 2 + r.below(3) as u64,
            3 => r.edgy64(),
            4 => r.below(300) as u64,
            _ => r.next(),
        };
        if max == u64::MAX {
            e
        } else {
            e % (max + 1)
        }
    } else {
        let v = (r.below(100) as u64).min(max);
        r.hint(max).unwrap_or(v)
    };
    lit_of(r, v, wild)
}
pub fn lit_of(r: &mut Rng, v: u64, wild: bool) -> Lit {
    let text = if !wild {
        format!("{}", v)
    } else {
        match r.below(7) {
            0 | 1 => format!("{}", v),
            2 => format!("{:0w$}", v, w = { let n = r.range(1, 24); r.near(300, n) }),
            3 => format!("0x{:0w$x}", v, w = { let n = r.range(1, 24); r.near(300, n) }),
            4 => format!("0x{:X}", v),
            5 => {
                let s: String = format!("{:x}", v).chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
                format!("0x{}", s)
            }
            _ => format!("0x{:x}", v),
        }
    };
    Lit { text, val: v }
}
pub fn umax(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1 << bits) - 1
    }
}
pub fn val(r: &mut Rng, w: u8, wild: bool) -> Val {
    let max = umax(w as u32);
    if wild && r.chance(1, 3) {
        // a sum or difference whose result fits
        let v = lit(r, max, true).val;
        let b = if r.chance(1, 2) { r.edgy64() } else { r.below(70000) as u64 };
        return if r.chance(1, 2) {
            let a = v.wrapping_sub(b);
            Val::Bin(lit_of(r, a, true), true, lit_of(r, b, true))
        } else {
            let a = v.wrapping_add(b);
            Val::Bin(lit_of(r, a, true), false, lit_of(r, b, true))
        };
    }
    Val::One(lit(r, max, wild))
}
/// a length around those of common buffers
fn long(r: &mut Rng) -> usize {
    let n = *r.pick(&[255usize, 256, 1023, 1024, 4095, 4096, 8191, 8192, 8192, 16384, 32767, 65535, 65536]);
    (n + r.below(40)).saturating_sub(r.below(40))
}
pub fn string(r: &mut Rng, wild: bool) -> String {
    let k = match r.below(8) {
        0 => 0,
        1 => 8,
        2 => r.range(1, 40),
        _ => r.range(1, 9),
    };
    let k = r.near(3000, k);
    let k = if r.chance(1, 1500) { long(r) } else { k };
    if let Some(w) = r.word() {
        if wild || w.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ' || c == '_') {
            let w: String = w.chars().filter(|c| !matches!(c, '"' | '\n' | '\r')).collect();
            let (a, b) = (r.below(k.min(20) + 1), r.below(20));
            return format!("{}{}{}", "a".repeat(a), w, "b".repeat(if r.chance(1, 2) { 0 } else { b }));
        }
    }
    if !wild {
        return (0..k).map(|_| (b'a' + r.below(26) as u8) as char).collect();
    }
    (0..k)
        .map(|_| match r.below(8) {
            0 => *r.pick(&[';', ',', ' ', '\t', ':', '\'', '\\', '+', '-', '#']),
            1 => *r.pick(&['é', 'ß', '日', '本', '🙂', '\u{a0}', '\u{3000}', 'İ']),
            2 => *r.pick(&['0', 'x', '1', '%', '/', '\u{1}', '\u{7f}', '\u{b}', '\0', '\0', '\u{1b}', '\u{c}', '\u{85}', '\u{2028}', '\u{feff}', '\u{200b}']),
            _ => (0x20 + r.below(0x5f) as u8) as char,
        })
        .filter(|c| *c != '"')
        .collect()
}
/// Put `bytes` bytes of filler somewhere into the program, so that what follows lies far out.
pub fn inflate(r: &mut Rng, p: &mut Prog) {
    if r.chance(1, 10) {
        // many labels, many of them global, declared before or after them
        let b = *r.pick(&[60, 130, 260, 260, 520]);
        let n = r.near(700, b).max(60) + r.below(40);
        let all = r.chance(1, 2);
        let mut f: Prog = Vec::new();
        let far = r.chance(1, 2);
        let mut late: Prog = Vec::new();
        for k in 0..n {
            let l = format!("many_{}", k);
            if all || r.chance(3, 4) {
                let to = if far || r.chance(1, 2) { &mut late } else { &mut f };
                to.push(Stmt::Global(l.clone()));
            }
            f.push(Stmt::Label(l));
        }
        let at = r.below(p.len() + 1);
        p.splice(at..at, f);
        let at = if r.chance(1, 3) { 0 } else { p.len() };
        p.splice(at..at, late);
        return;
    }
    let size = match r.below(8) {
        0 => r.range(0x78, 0x88),
        1 => r.range(0xf0, 0x110),
        2 => r.range(0xff0, 0x1010),
        3 | 4 => 0x8000 - 20 + r.below(40),
        5 | 6 => 0x10000 - 20 + r.below(40),
        _ => r.range(0x11000, 0x28000),
    };
    let mut size = r.near(200_000, size).max(64);
    let mut sec = if r.chance(1, 2) { Sec::Text } else { Sec::Data };
    let mut at = r.below(p.len() / 2 + 1);
    // references that lie across the boundary of a narrower number
    let refs: Vec<Stmt> = p.iter().filter(|s| matches!(s, Stmt::MovRL(..))).cloned().collect();
    let edge = !refs.is_empty() && r.chance(1, 2);
    if edge {
        size = (1usize << *r.pick(&[7, 8, 12, 15, 15, 15, 16, 16, 16, 17])) - r.below(16);
        sec = Sec::Text;
        at = 0;
    }
    let cur = if at == 0 { Sec::Text } else { sections(p)[at - 1] };
    let num = |v: u64| Item::Num(Lit { text: v.to_string(), val: v });
    let mut f: Prog = Vec::new();
    let way = r.below(4);
    match if way == 2 && !p.iter().any(|s| s.is_ins()) { 3 } else { way } {
        0 => f.push(Stmt::Data { label: None, unit: 1, items: vec![Item::Str("z".repeat(size))] }),
        1 => {
            let n = size / 16;
            f.push(Stmt::Data { label: None, unit: 8, items: (0..size / 8 - n).map(|k| num(k as u64)).collect() });
            f.push(Stmt::Data { label: None, unit: 8, items: vec![Item::Str("y".repeat(n * 8))] });
            f.push(Stmt::Data { label: None, unit: 1, items: vec![Item::Str("x".repeat(size % 8))] });
        }
        2 => {
            f.extend((0..size / 10).map(|k| Stmt::MovRI(64, (k % 16) as u8, Val::One(Lit { text: k.to_string(), val: k as u64 }))));
            f.extend((0..size % 10).map(|_| Stmt::Ret));
        }
        _ => {
            let mut left = size;
            while left > 0 {
                let k = left.min(r.range(1, 3000));
                f.push(Stmt::Data { label: None, unit: 1, items: vec![Item::Str("w".repeat(k))] });
                left -= k;
            }
        }
    }
    if edge {
        for _ in 0..r.range(1, 5) {
            f.push(r.pick(&refs).clone());
        }
    }
    if cur != sec {
        f.insert(0, Stmt::Section(sec));
        f.push(Stmt::Section(cur));
    }
    p.splice(at..at, f);
}
pub fn data_items(r: &mut Rng, unit: u8, o: &Opts) -> Vec<Item> {
    if r.chance(1, 150) {
        // a long line
        let n = match r.below(6) {
            0 | 1 => r.range(4080, 4120),
            2 => r.range(250, 260),
            3 => r.range(65_520, 65_550),
            _ => r.range(300, 20_000),
        };
        let num = |r: &mut Rng| Item::Num(lit(r, umax(unit as u32 * 8), o.wild_lits));
        return if o.strings && r.chance(1, 2) {
            vec![num(r), Item::Str("s".repeat(n)), num(r)]
        } else {
            (0..n / unit as usize).map(|_| num(r)).collect()
        };
    }
    let k = match r.below(6) {
        0 => r.range(3, 9),
        1 => 2,
        _ => 1,
    };
    let k = if r.chance(1, 4) { r.near(600, k) } else { k };
    let mut v: Vec<Item> = (0..k.max(1))
        .map(|_| {
            if o.strings && r.chance(2, 5) {
                Item::Str(string(r, o.wild_strings))
            } else {
                Item::Num(lit(r, umax(unit as u32 * 8), o.wild_lits))
            }
        })
        .collect();
    if v.len() > 1 && r.chance(1, 4) {
        let (i, k) = (r.below(v.len()), r.below(v.len()));
        v[i] = v[k].clone();
    }
    v
}

pub fn ins(r: &mut Rng, labels: &[String], o: &Opts) -> Stmt {
    let w = *r.pick(&[64u8, 64, 32, 16]);
    let (mut a, mut b) = (r.below(16) as u8, r.below(16) as u8);
    if let (Some(few), true) = (o.few, r.chance(7, 8)) {
        a = *r.pick(&few);
        b = *r.pick(&few);
    }
    match r.below(10) {
        0 | 1 => Stmt::MovRR(w, a, b),
        2 | 3 => Stmt::MovRI(w, a, val(r, w, o.wild_lits)),
        4 => Stmt::PushR(a),
        5 => Stmt::PushI(lit(r, 0x7fff_ffff, o.wild_lits)),
        6 => Stmt::Ret,
        7 => Stmt::Syscall,
        _ if o.refs && !labels.is_empty() => {
            let w = if o.ref32 && r.chance(1, 3) { 32 } else { 64 };
            Stmt::MovRL(w, a, r.pick(labels).clone())
        }
        _ => Stmt::MovRI(64, a, val(r, 64, o.wild_lits)),
    }
}

/// A program in which some instructions and data lines occur again, at once or later.
pub fn gen(r: &mut Rng, o: &Opts) -> Prog {
    let o = &Opts { few: if r.chance(1, 4) { Some([r.below(16) as u8, r.below(16) as u8, r.below(16) as u8]) } else { None }, ..o.clone() };
    let again = r.chance(1, 4);
    let mut used = Vec::new();
    let nl = r.below(o.labels + 1);
    let n = r.range(1, o.n.max(1));
    let (nl, n) = if o.n > 3 && r.chance(1, 6) { (if o.labels > 0 { r.near(400, nl) } else { nl }, r.near(700, n).max(1)) } else { (nl, n) };
    // now and then more lines, labels and references than a byte counts
    let (nl, n) = if o.n > 3 && r.chance(1, 200) { (if o.labels > 0 { r.range(200, 600) } else { nl }, r.range(240, 700)) } else { (nl, n) };
    let labels: Vec<String> = (0..nl).map(|_| label(r, &mut used)).collect();
    // where each label goes: a position in the statement list
    let mut at: Vec<(usize, String)> = labels.iter().map(|l| (r.below(n + 1), l.clone())).collect();
    at.sort_by_key(|x| x.0);
    let mut cur = Sec::Text;
    let mut p = Vec::new();
    let mut pend: Vec<String> = Vec::new();
    for k in 0..=n {
        while !at.is_empty() && at[0].0 == k {
            pend.push(at.remove(0).1);
        }
        if o.sections && r.chance(1, 5) {
            let s = match r.below(if o.bss { 5 } else { 4 }) {
                0 | 1 => Sec::Text,
                2 | 3 => Sec::Data,
                _ => Sec::Bss,
            };
            cur = s;
            p.push(Stmt::Section(s));
        }
        if o.globals && r.chance(1, 8) {
            let g = if !labels.is_empty() && r.chance(4, 5) {
                r.pick(&labels).clone()
            } else {
                let mut u2 = used.clone();
                label(r, &mut u2)
            };
            p.push(Stmt::Global(g));
        }
        let is_data = cur != Sec::Bss
            && match cur {
                Sec::Text => o.text_data && r.chance(1, 4),
                _ => !o.data_code || r.chance(3, 4),
            };
        let mut dl = None;
        if is_data && !pend.is_empty() && r.chance(1, 2) {
            dl = pend.pop();
        }
        for l in pend.drain(..) {
            p.push(Stmt::Label(l));
        }
        if cur == Sec::Bss || k == n {
            if let Some(l) = dl {
                p.push(Stmt::Label(l));
            }
            continue;
        }
        if is_data {
            let unit = *r.pick(&[1u8, 1, 2, 4, 8]);
            let items = match p.last() {
                Some(Stmt::Data { unit: u, items, .. }) if again && *u == unit && r.chance(1, 2) => items.clone(),
                _ => data_items(r, unit, o),
            };
            p.push(Stmt::Data { label: dl, unit, items });
        } else {
            let old: Option<Stmt> = if again && !p.is_empty() && r.chance(1, 3) {
                let k = if r.chance(1, 2) { p.len() - 1 } else { r.below(p.len()) };
                Some(p[k].clone()).filter(|s: &Stmt| s.is_ins())
            } else {
                None
            };
            let s = old.unwrap_or_else(|| ins(r, &labels, o));
            p.push(s);
        }
    }
    p
}

// ------------------------------------------------------------------ rendering

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Plain,
    /// arbitrary legal spacing, comments, blank lines, mixed line ends
    Free,
    /// no comments; LF
    Spacing,
    Crlf,
    Comments,
    /// white space of every kind that separates words of a text line
    Exotic,
}

struct Ws<'a> {
    r: &'a mut Rng,
    st: Style,
}
impl<'a> Ws<'a> {
    fn free(&self) -> bool {
        matches!(self.st, Style::Free | Style::Spacing | Style::Exotic)
    }
    /// at least one
    fn sep(&mut self) -> String {
        if !self.free() || self.r.chance(1, 2) {
            return " ".into();
        }
        let n = self.r.range(1, 5);
        let n = if self.r.chance(1, 6) { self.r.near(600, n).max(1) } else { n };
        let n = if self.r.chance(1, 4000) { long(self.r) } else { n };
        if self.st == Style::Exotic {
            return (0..n)
                .map(|_| {
                    if self.r.chance(1, 3) {
                        // every other character that Unicode calls white space
                        *self.r.pick(&[
                            '\u{85}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}',
                            '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}',
                        ])
                    } else {
                        *self.r.pick(&[' ', '\t', '\u{b}', '\u{c}', '\u{a0}', '\u{3000}', '\u{2003}'])
                    }
                })
                .collect();
        }
        (0..n).map(|_| if self.r.chance(1, 3) { '\t' } else { ' ' }).collect()
    }
    /// possibly none
    fn opt(&mut self, plain: &str) -> String {
        if !self.free() {
            return plain.into();
        }
        match self.r.below(3) {
            0 => String::new(),
            1 => " ".into(),
            _ => self.sep(),
        }
    }
}
fn vtext(w: &mut Ws, v: &Val) -> String {
    match v {
        Val::One(l) => l.text.clone(),
        Val::Bin(a, p, b) => format!("{}{}{}{}{}", a.text, w.sep(), if *p { "+" } else { "-" }, w.sep(), b.text),
    }
}
pub fn comment(r: &mut Rng) -> String {
    let k = r.below(20);
    let k = r.near(2000, k);
    let k = if r.chance(1, 1500) { long(r) } else { k };
    if let Some(w) = r.word() {
        let w: String = w.chars().filter(|c| !matches!(c, '\n' | '\r')).collect();
        return format!(";{}{}", r.pick(&["", " ", ";", "x"]), w);
    }
    let t: String = (0..k)
        .map(|_| match r.below(6) {
            0 => *r.pick(&['"', ';', ',', ':', '\t', '\'', '\\']),
            1 => *r.pick(&['é', '本', '🙂']),
            _ => (0x20 + r.below(0x5f) as u8) as char,
        })
        .collect();
    if r.chance(1, 3) {
        format!("; {} {}", t, r.pick(&["mov rax, 1", "section .data", "db 1", "label:", "global _main", "error"]))
    } else {
        format!(";{}", t)
    }
}

pub fn line(s: &Stmt, r: &mut Rng, st: Style) -> String {
    let mut w = Ws { r, st };
    let lead = if w.free() { w.opt("") } else { String::new() };
    let body = match s {
        Stmt::Section(x) => format!("section{}{}", w.sep(), x.word()),
        Stmt::Global(n) => format!("global{}{}", w.sep(), n),
        Stmt::Label(n) => format!("{}:", n),
        Stmt::Data { label, unit, items } => {
            let mut o = String::new();
            if let Some(l) = label {
                o.push_str(l);
                o.push_str(&w.sep());
            }
            o.push_str(match unit {
                1 => "db",
                2 => "dw",
                4 => "dd",
                _ => "dq",
            });
            o.push_str(&w.sep());
            for (i, it) in items.iter().enumerate() {
                if i > 0 {
                    o.push_str(&w.opt(""));
                    o.push(',');
                    o.push_str(&w.opt(" "));
                }
                match it {
                    Item::Num(l) => o.push_str(&l.text),
                    Item::Str(s) => {
                        o.push('"');
                        o.push_str(s);
                        o.push('"');
                    }
                }
            }
            o
        }
        Stmt::MovRR(b, d, s) => format!("mov{}{}{},{}{}", w.sep(), x86::rname(*b, *d), w.opt(""), w.opt(" "), x86::rname(*b, *s)),
        Stmt::MovRI(b, d, v) => {
            let a = format!("mov{}{}{},{}", w.sep(), x86::rname(*b, *d), w.opt(""), w.opt(" "));
            format!("{}{}", a, vtext(&mut w, v))
        }
        Stmt::MovRL(b, d, l) => format!("mov{}{}{},{}{}", w.sep(), x86::rname(*b, *d), w.opt(""), w.opt(" "), l),
        Stmt::PushR(x) => format!("push{}{}", w.sep(), x86::N64[*x as usize]),
        Stmt::PushI(l) => format!("push{}{}", w.sep(), l.text),
        Stmt::Ret => "ret".into(),
        Stmt::Syscall => "syscall".into(),
    };
    let trail = if w.free() { w.opt("") } else { String::new() };
    format!("{}{}{}", lead, body, trail)
}

pub fn render_lines(p: &[Stmt], r: &mut Rng, st: Style) -> Vec<String> {
    let mut out = Vec::new();
    for s in p {
        let mut l = line(s, r, st);
        if matches!(st, Style::Free | Style::Comments) {
            while r.chance(1, 6) {
                out.push(match r.below(3) {
                    0 => String::new(),
                    1 => " \t ".into(),
                    _ => format!("{}{}", r.pick(&["", " ", "\t"]), comment(r)),
                });
            }
            if r.chance(1, 3) {
                if r.chance(3, 4) {
                    l.push(' ');
                }
                l.push_str(&comment(r));
            }
        }
        out.push(l);
    }
    out
}
pub fn render(p: &[Stmt], r: &mut Rng, st: Style) -> String {
    let lines = render_lines(p, r, st);
    let n = lines.len();
    let mut o = String::new();
    for (i, l) in lines.iter().enumerate() {
        o.push_str(l);
        let last = i + 1 == n;
        match st {
            Style::Crlf => o.push_str("\r\n"),
            Style::Free => {
                if last && r.chance(1, 3) {
                    // no final line end
                } else if r.chance(1, 3) {
                    o.push_str("\r\n")
                } else {
                    o.push('\n')
                }
            }
            _ => o.push('\n'),
        }
    }
    o
}
pub fn plain(p: &[Stmt]) -> String {
    render(p, &mut Rng::new(1), Style::Plain)
}
