//! PRNG, hashing, JSON text, process helpers.
use crate::dict;
use std::fmt::Write as _;

#[derive(Clone)]
pub struct Rng(u64, [u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, [0; 4]);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    /// 64-bit values biased to boundaries
    pub fn edgy64(&mut self) -> u64 {
        let v = self.edgy64_new();
        self.coincide(v)
    }
    /// sometimes a value chosen recently, or one next to it or opposite
    fn coincide(&mut self, v: u64) -> u64 {
        let k = self.below(48);
        let w = self.1[k % 4];
        let v = match k {
            0..=3 => w,
            4 => w.wrapping_add(1),
            5 => w.wrapping_sub(1),
            6 => !w,
            7 => 0u64.wrapping_sub(w),
            8 => w.wrapping_mul(2),
            9 => w / 2,
            _ => v,
        };
        self.1[self.0 as usize % 4] = v;
        v
    }
    fn edgy64_new(&mut self) -> u64 {
        if let Some(v) = self.hint(u64::MAX) {
            return v;
        }
        match self.below(7) {
            // few bits set, or few clear
            6 => {
                let mut v = 0u64;
                for _ in 0..self.range(2, 4) {
                    v |= 1 << self.below(64);
                }
                if self.chance(1, 2) {
                    v
                } else {
                    !v
                }
            }
            0 => self.below(300) as u64,
            1 => {
                let b = 1u64 << self.below(64);
                b.wrapping_add(self.below(5) as u64).wrapping_sub(2)
            }
            2 => 0u64.wrapping_sub(self.below(300) as u64),
            3 => {
                let sh = self.below(64) as u32;
                self.next() >> sh
            }
            4 => {
                let v = (self.next() & 0xff) * 0x0101_0101_0101_0101;
                v
            }
            _ => self.next(),
        }
    }
    pub fn edgy32(&mut self) -> u32 {
        let v = self.edgy32_new() as u64;
        self.coincide(v) as u32
    }
    fn edgy32_new(&mut self) -> u32 {
        if let Some(v) = self.hint(u64::MAX) {
            return v as u32;
        }
        match self.below(7) {
            6 => {
                let mut v = 0u32;
                for _ in 0..self.range(2, 4) {
                    v |= 1 << self.below(32);
                }
                if self.chance(1, 2) {
                    v
                } else {
                    !v
                }
            }
            0 => self.below(600) as u32,
            1 => (1u32 << self.below(32)).wrapping_add(self.below(5) as u32).wrapping_sub(2),
            2 => 0u32.wrapping_sub(self.below(600) as u32),
            3 => {
                let sh = self.below(32) as u32;
                (self.next() as u32) >> sh
            }
            _ => self.next() as u32,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    fn from_dict(&mut self) -> bool {
        let d = dict::get();
        if d.new_nums.is_empty() && d.new_strs.is_empty() {
            self.chance(1, 24)
        } else {
            self.chance(1, 7)
        }
    }
    fn dict_num(&mut self) -> u64 {
        let d = dict::get();
        let v = if !d.new_nums.is_empty() && self.chance(3, 4) { *self.pick(&d.new_nums) } else { *self.pick(&d.nums) };
        match self.below(12) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => v.wrapping_neg(),
            3 => v.wrapping_mul(2),
            4 => v.wrapping_mul(self.below(12) as u64),
            5 if v < 64 => 1 << v,
            6 => v.wrapping_sub(self.below(24) as u64),
            7 => v.wrapping_add(self.below(24) as u64),
            _ => v,
        }
    }
    /// Sometimes a number at most `max` that occurs in the code under test, or one near it.
    pub fn hint(&mut self, max: u64) -> Option<u64> {
        if !self.from_dict() {
            return None;
        }
        for _ in 0..4 {
            let v = self.dict_num();
            if v <= max {
                return Some(v);
            }
        }
        None
    }
    /// `n`, or sometimes a hint at most `max`
    pub fn near(&mut self, max: usize, n: usize) -> usize {
        self.hint(max as u64).map_or(n, |v| v as usize)
    }
    /// Sometimes a text that occurs in the code under test.
    pub fn word(&mut self) -> Option<&'static str> {
        if !self.from_dict() {
            return None;
        }
        let d = dict::get();
        let s: &'static Vec<String> = if !d.new_strs.is_empty() && self.chance(3, 4) { &d.new_strs } else { &d.strs };
        if s.is_empty() {
            return None;
        }
        let k = self.below(s.len());
        Some(s[k].as_str())
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        let _ = write!(s, "{:02x}", x);
    }
    s
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...[{} bytes]", &s[..e], s.len())
    }
}

/// user+system CPU time of a process in clock ticks (1/100 s), None if it is gone
pub fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn limit_as(bytes: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}
