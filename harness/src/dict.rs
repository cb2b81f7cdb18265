//! A fuzzing dictionary: the numbers and texts that occur in the code under test. Workloads mix them in, so that
//! behaviour hanging on a particular value, length, count or word is met. Those the code did not contain when
//! dict_base.txt was written are preferred. Only workloads use this; no verdict depends on it.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Clone)]
pub struct Words {
    pub nums: BTreeMap<u64, usize>,
    pub strs: BTreeMap<String, usize>,
}
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<String>,
    pub new_nums: Vec<u64>,
    pub new_strs: Vec<String>,
}

fn number(t: &str) -> Option<u64> {
    let t = t.replace('_', "");
    let (radix, body) = match t.get(..2) {
        Some("0x") => (16, &t[2..]),
        Some("0b") => (2, &t[2..]),
        Some("0o") => (8, &t[2..]),
        _ => (10, &t[..]),
    };
    let end = match radix {
        16 => body.find(|c: char| !c.is_ascii_hexdigit()),
        _ => body.find(|c: char| !c.is_ascii_digit()),
    }
    .unwrap_or(body.len());
    u64::from_str_radix(&body[..end], radix).ok()
}

pub fn scan(src: &str, w: &mut Words) {
    let b: Vec<char> = src.chars().collect();
    let at = |k: usize| b.get(k).copied().unwrap_or('\0');
    let mut i = 0;
    // the last two tokens, for products and shifts of constants
    let mut prev: Option<u64> = None;
    let mut op = String::new();
    while i < b.len() {
        let c = b[i];
        if c == '/' && at(i + 1) == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '"' || (c == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')))) {
            let raw = c == 'r';
            let mut hashes = 0;
            i += 1;
            if raw {
                while at(i) == '#' {
                    hashes += 1;
                    i += 1;
                }
                i += 1;
            }
            let mut s = String::new();
            while i < b.len() {
                if b[i] == '"' && (0..hashes).all(|k| at(i + 1 + k) == '#') {
                    i += 1 + hashes;
                    break;
                }
                if !raw && b[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' => {
                            let h: String = [at(i + 1), at(i + 2)].iter().collect();
                            if let Ok(v) = u8::from_str_radix(&h, 16) {
                                s.push(v as char);
                            }
                            i += 2;
                        }
                        'u' => {
                            let h: String = b[(i + 2).min(b.len())..].iter().take_while(|c| **c != '}').collect();
                            if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(ch);
                            }
                            i += 2 + h.len();
                        }
                        x => s.push(x),
                    }
                    i += 1;
                    continue;
                }
                s.push(b[i]);
                i += 1;
            }
            if !s.is_empty() {
                *w.strs.entry(s).or_insert(0) += 1;
            }
            prev = None;
        } else if c == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' {
                let (v, n) = match at(i + 2) {
                    'n' => ('\n', 4),
                    't' => ('\t', 4),
                    'r' => ('\r', 4),
                    '0' => ('\0', 4),
                    'x' => (u8::from_str_radix(&[at(i + 3), at(i + 4)].iter().collect::<String>(), 16).unwrap_or(0) as char, 6),
                    'u' => {
                        let h: String = b[(i + 4).min(b.len())..].iter().take_while(|c| **c != '}').collect();
                        (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('\0'), 6 + h.len())
                    }
                    x => (x, 4),
                };
                *w.strs.entry(v.to_string()).or_insert(0) += 1;
                *w.nums.entry(v as u64).or_insert(0) += 1;
                i += n;
            } else if at(i + 2) == '\'' {
                *w.strs.entry(at(i + 1).to_string()).or_insert(0) += 1;
                *w.nums.entry(at(i + 1) as u64).or_insert(0) += 1;
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let t: String = b[s..i].iter().collect();
            if let Some(v) = number(&t) {
                *w.nums.entry(v).or_insert(0) += 1;
                if let Some(p) = prev {
                    let x = match op.trim() {
                        "*" => p.checked_mul(v),
                        "<<" => p.checked_shl(v as u32),
                        "+" => p.checked_add(v),
                        "-" => p.checked_sub(v),
                        _ => None,
                    };
                    if let Some(x) = x {
                        *w.nums.entry(x).or_insert(0) += 1;
                    }
                }
                prev = Some(v);
                op.clear();
            }
        } else if c.is_alphabetic() || c == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            // the limits of a number type
            let t: String = b[s..i].iter().collect();
            if let Some(k) = ["i8", "u8", "i16", "u16", "i32", "u32"].iter().position(|x| *x == t) {
                let bits = [7, 8, 15, 16, 31, 32][k];
                *w.nums.entry(1 << bits).or_insert(0) += 1;
                *w.nums.entry((1 << bits) - 1).or_insert(0) += 1;
            }
            prev = None;
        } else {
            if !c.is_whitespace() {
                op.push(c);
                if op.len() > 2 {
                    prev = None;
                }
            }
            i += 1;
        }
    }
}

fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

pub fn words() -> Words {
    let root = std::env::var("REPO").unwrap_or_else(|_| "/repo".into());
    let mut files = Vec::new();
    for c in ["at-x64", "at-mac", "at-obj", "at-asm"] {
        walk(&Path::new(&root).join(c).join("src"), &mut files);
    }
    files.sort();
    let mut w = Words::default();
    for f in files {
        let t = String::from_utf8_lossy(&std::fs::read(&f).unwrap_or_default()).into_owned();
        scan(t.split("#[cfg(test)]\nmod").next().unwrap_or(""), &mut w);
    }
    w
}

const BASE: &str = include_str!("../dict_base.txt");

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let w = words();
        let mut base = Words::default();
        for l in BASE.lines() {
            let mut f = l.splitn(3, ' ');
            let (k, n, t) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
            let n: usize = n.parse().unwrap_or(0);
            match k {
                "n" => {
                    base.nums.insert(t.parse().unwrap_or(0), n);
                }
                "s" => {
                    base.strs.insert(unesc(t), n);
                }
                _ => {}
            }
        }
        let new_nums: Vec<u64> = w.nums.iter().filter(|(k, n)| base.nums.get(k).map_or(true, |m| *n > m)).map(|x| *x.0).collect();
        let new_strs: Vec<String> = w.strs.iter().filter(|(k, n)| base.strs.get(*k).map_or(true, |m| *n > m)).map(|x| x.0.clone()).collect();
        Dict { nums: w.nums.into_keys().collect(), strs: w.strs.into_keys().collect(), new_nums, new_strs }
    })
}
fn unesc(t: &str) -> String {
    let mut o = Vec::new();
    let b = t.as_bytes();
    let mut i = 0;
    while i + 1 < b.len() {
        o.push(u8::from_str_radix(&t[i..i + 2], 16).unwrap_or(0));
        i += 2;
    }
    String::from_utf8_lossy(&o).into_owned()
}
/// the contents of dict_base.txt for the present tree
pub fn dump() -> String {
    let w = words();
    let mut o = String::new();
    for (k, n) in &w.nums {
        o.push_str(&format!("n {} {}\n", n, k));
    }
    for (k, n) in &w.strs {
        let h: String = k.bytes().map(|b| format!("{:02x}", b)).collect();
        o.push_str(&format!("s {} {}\n", n, h));
    }
    o
}
