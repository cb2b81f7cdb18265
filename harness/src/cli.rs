//! A07, A11: the real command, in scratch directories.
use crate::a;
use crate::asmgen::*;
use crate::core::*;
use crate::macho;
use crate::o::new_worker;
use crate::util::*;
use crate::worker::*;
use crate::x86;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Debug, Clone)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub err: String,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {} ({})", c, clip(self.err.trim(), 300)),
            (_, s) => format!("killed by signal {:?} ({})", s, clip(self.err.trim(), 300)),
        }
    }
}

pub fn exe() -> PathBuf {
    PathBuf::from(std::env::var("MON_CLI").expect("MON_CLI"))
}

/// Run the command in `dir` with a file size limit (None: none).
pub fn run(dir: &Path, args: &[&str], fsize: Option<u64>) -> Run {
    run_io(dir, args, fsize, None).0
}
/// The same with what the command's standard input delivers, through a pipe; also what it writes
/// to its standard output.
fn run_io(dir: &Path, args: &[&str], fsize: Option<u64>, input: Option<&[u8]>) -> (Run, Vec<u8>) {
    let mut c = Command::new(exe());
    c.args(args).current_dir(dir).stderr(Stdio::piped());
    if input.is_some() {
        c.stdin(Stdio::piped()).stdout(Stdio::piped());
    } else {
        c.stdin(Stdio::null()).stdout(Stdio::null());
    }
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: 30, rlim_max: 30 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            if let Some(n) = fsize {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            Ok(())
        });
    }
    let o = match input {
        None => c.output().expect("run the command"),
        Some(b) => {
            let mut ch = c.spawn().expect("run the command");
            let mut i = ch.stdin.take().unwrap();
            let b = b.to_vec();
            let h = std::thread::spawn(move || {
                use std::io::Write as _;
                let _ = i.write_all(&b);
            });
            let o = ch.wait_with_output().expect("run the command");
            let _ = h.join();
            o
        }
    };
    (Run { code: o.status.code(), signal: o.status.signal(), err: String::from_utf8_lossy(&o.stderr).into_owned() }, o.stdout)
}

/// every file below `dir` with its content; directories by name
fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(d: &Path, pre: &str, o: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let n = format!("{}{}", pre, e.file_name().to_string_lossy());
                let t = e.file_type().unwrap();
                if t.is_dir() {
                    o.insert(format!("{}/", n), Vec::new());
                    go(&e.path(), &format!("{}/", n), o);
                } else if t.is_symlink() {
                    o.insert(format!("{}@", n), std::fs::read_link(e.path()).unwrap().to_string_lossy().into_owned().into_bytes());
                } else {
                    o.insert(n, std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
    }
    let mut o = BTreeMap::new();
    go(dir, "", &mut o);
    o
}
/// what else identifies every file below `dir`: inode, permissions, owner, time of last change
fn identity(dir: &Path) -> BTreeMap<String, (u64, u32, u32, i64, i64)> {
    use std::os::unix::fs::MetadataExt as _;
    fn go(d: &Path, pre: &str, o: &mut BTreeMap<String, (u64, u32, u32, i64, i64)>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = format!("{}{}", pre, e.file_name().to_string_lossy());
            if let Ok(m) = std::fs::symlink_metadata(e.path()) {
                if m.is_dir() {
                    go(&e.path(), &format!("{}/", n), o);
                } else {
                    o.insert(n, (m.ino(), m.mode(), m.uid(), m.mtime(), m.mtime_nsec()));
                }
            }
        }
    }
    let mut o = BTreeMap::new();
    go(dir, "", &mut o);
    o
}
/// Run the command under the system-call tracer, which may also make calls on `paths` fail
/// (`inject`: an expression of strace's). None: there is no tracer that works here.
fn run_traced(dir: &Path, args: &[&str], calls: &str, inject: Option<(&str, &[&Path])>) -> Option<(Run, String)> {
    let log = dir.with_extension("trace");
    let mut c = Command::new("strace");
    c.args(["-f", "-qq", "-s", "4096", "-o"]).arg(&log);
    c.args(["-e", &format!("trace={}", calls)]);
    if let Some((e, paths)) = inject {
        c.args(["-e", &format!("inject={}:{}", calls, e)]);
        for p in paths {
            c.arg("-P").arg(p);
        }
    }
    c.arg(exe()).args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    let o = c.output().ok()?;
    let t = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&log);
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if err.contains("strace: ") || (inject.is_none() && !t.contains("execve(")) {
        return None;
    }
    Some((Run { code: o.status.code(), signal: o.status.signal(), err }, t))
}
/// the calls of a trace that changed something outside `dir` (devices aside), or left the machine
fn outside(trace: &str, dir: &Path) -> Vec<String> {
    let mut o = Vec::new();
    for l in trace.lines() {
        let (call, rest) = match l.split_once('(') {
            Some((a, b)) => (a.rsplit(' ').next().unwrap_or(a), b),
            None => continue,
        };
        if rest.contains(") = -1 ") || call.starts_with("exec") {
            continue;
        }
        if call.starts_with("open") && !["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC"].iter().any(|f| rest.contains(f)) {
            continue;
        }
        let mut bad = call == "socket";
        for s in rest.split('"').skip(1).step_by(2) {
            let mut at = PathBuf::new();
            for k in dir.join(s).components() {
                match k {
                    std::path::Component::ParentDir => {
                        at.pop();
                    }
                    k => at.push(k),
                }
            }
            bad |= !at.starts_with(dir) && !at.starts_with("/dev");
        }
        if bad {
            o.push(l.to_string());
        }
    }
    o
}
fn scratch(c: &Ctx, tag: &str) -> PathBuf {
    let d = c.dir.join(format!("s-{}-{}", tag, c.shard));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

// ------------------------------------------------------------------ A07

/// (line, must the message name its number)
pub fn bad_line(r: &mut Rng, labels: &[String]) -> (String, bool, &'static str) {
    let w = *r.pick(&[16u8, 32, 64]);
    let rg = |r: &mut Rng, w: u8| x86::rname(w, r.below(16) as u8).to_string();
    let (a, b) = (rg(r, w), rg(r, w));
    let q = rg(r, 64);
    match r.below(21) {
        19 | 20 => (foreign(r), true, "text of another language"),
        0 => {
            let l = match r.below(9) {
                0 => format!("add {}, {}", a, b),
                1 => format!("Mov {}, {}", a, b),
                2 => format!("movq {}, {}", a, b),
                3 => format!("pop {}", q),
                4 => format!("lea {}, {}", q, q),
                5 => "nop".into(),
                6 => "retq".into(),
                7 => "SYSCALL".into(),
                _ => "this is not an instruction".into(),
            };
            (l, true, "unknown instruction")
        }
        1 => {
            let l = match r.below(11) {
                // an operand of no or several words, which no label can be named
                8 => format!("mov {},{}", a, r.pick(&["", " ", "\t"])),
                9 => format!("mov {}, {} {}", a, labels.first().map(|s| s.as_str()).unwrap_or("lab0"), r.pick(&["x", "rax", "+", "+ 1", "lab0", ", 1", ":", "[0]", "0"])),
                10 => format!("mov {}, {} {}", a, b, r.pick(&["x", "rax", "+", "+ 1", "lab0", ", 1", ":", "[0]", "0"])),
                0 => "mov".into(),
                1 => format!("mov {}", a),
                2 => format!("mov {} {}", a, b),
                3 => format!("mov 1, {}", a),
                4 => format!("mov , {}", a),
                5 => format!("mov foo, {}", a),
                6 => format!("mov {}, 1", rg(r, 8)),
                _ => "push".into(),
            };
            (l, true, "malformed instruction")
        }
        2 => {
            let l = match r.below(5) {
                0 => format!("push {}", rg(r, 32)),
                1 => format!("push {}", rg(r, 16)),
                2 => "push nosuchthing".into(),
                3 => format!("push {},", q),
                _ => {
                    let a = rg(r, 16);
                    let w = if r.chance(1, 2) { 32 } else { 64 };
                    format!("mov {}, {}", a, rg(r, w))
                }
            };
            (l, true, "operand of wrong kind or width")
        }
        3 => {
            // no such register of that width, so a reference to a label that does not exist
            let (x, y) = *r.pick(&[(64u8, 32u8), (64, 16), (64, 8), (32, 64), (32, 16), (32, 8)]);
            (format!("mov {}, {}", rg(r, x), rg(r, y)), false, "operands of mixed width")
        }
        4 | 5 => (a::bad_literal(r), false, "literal that does not fit or is none"),
        6 if r.chance(2, 3) => {
            // a complete statement with something more behind it
            let rest = *r.pick(&[
                "x", "0", "1", ":data", ":function", ":", "::", "[1]", "(x)", "#", "# note", "//", "// note", "/* x */", ",", ".", "-", "+", "=", "\"x\"", "\"", "'", "\\", "|", "&", "rax", "ret", "nop", ".text",
                "align=16", "exec", "weak", "hidden", "@", "!", "*", "_", "\u{a0}x", "é",
            ]);
            let s = match r.below(8) {
                0 => format!("section {}", r.pick(&[".text", ".data", ".bss"])),
                1 => format!("global {}", labels.first().map(|s| s.as_str()).unwrap_or("g_g")),
                2 => "lab0:".to_string(),
                3 => "ret".to_string(),
                4 => "syscall".to_string(),
                5 => format!("push {}", q),
                6 => format!("push {}", r.below(100)),
                _ => "section .text".to_string(),
            };
            (format!("{}{}{}", s, r.pick(&[" ", "  ", "\t"]), rest), true, "left-over text after a complete statement")
        }
        6 => {
            let l = match r.below(7) {
                0 => format!("ret {}", r.below(100)),
                1 => "ret x".into(),
                2 => "syscall 1".into(),
                3 => format!("syscall {}", a),
                4 => format!("push {} {}", q, rg(r, 64)),
                5 => format!("push {} + {}", r.below(50), r.below(50)),
                _ => "ret ret".into(),
            };
            (l, true, "left-over text after an instruction")
        }
        7 => (format!("mov {}, {} {} {} {} {}", a, r.below(50), r.pick(&["+", "-"]), r.below(50), r.pick(&["+", "-"]), r.below(50)), true, "left-over text after an expression"),
        8 => {
            let u = *r.pick(&["db", "dw", "dd", "dq"]);
            let l = match r.below(12) {
                10 | 11 => {
                    // an item that is not there
                    let x = |r: &mut Rng| if r.chance(1, 2) { format!("{}", r.below(200)) } else { "\"s,\"".to_string() };
                    let gap = *r.pick(&[",,", ", ,", " ,,", ",\t, ", ",,,", " , , "]);
                    if r.chance(1, 5) {
                        format!("{} ,{}", u, x(r))
                    } else {
                        format!("{} {}{}{}", u, x(r), gap, x(r))
                    }
                }
                0 => u.to_string(),
                1 => format!("{} foo", u),
                2 => format!("{} \"open", u),
                3 => format!("{} 1, \"open", u),
                4 => format!("{} 'a'", u),
                5 => format!("{} 1, foo, 2", u),
                6 => format!("lab0 {}", u),
                7 => format!("lab0 {} foo", u),
                8 => format!("{} {}", u, a),
                _ => format!("lab0 lab1 {} 1", u),
            };
            (l, true, "malformed data")
        }
        9 => {
            let l = match r.below(7) {
                0 => "section".into(),
                1 => "section .rodata".into(),
                2 => "section text".into(),
                3 => "section .text .data".into(),
                4 => "section .TEXT".into(),
                5 => "section .text,".into(),
                _ => "section data x".into(),
            };
            (l, true, "malformed section directive")
        }
        10 => {
            let l = match r.below(3) {
                0 => "global".into(),
                1 => "global a b".into(),
                _ => format!("global x {}", a),
            };
            (l, true, "malformed global directive")
        }
        11 => {
            let l = match r.below(6) {
                4 | 5 => r.pick(&[":", "::", " :", ":::", "\t:"]).to_string(),
                0 => "lab0 x:".into(),
                1 => "lab0: lab1:".into(),
                2 => format!("lab0:{}{}", r.pick(&[" ", "  ", "\t", "     ", "\t\t"]), r.pick(&["garbage", "ret", "mov rax, 1", "db 1", "section .data", "push 5", "global lab0", "lab0", ":", "0"])),
                _ => "lab0".into(),
            };
            (l, true, "malformed label line")
        }
        12 => {
            let l = match r.below(5) {
                0 => format!("db {}", r.below(200)),
                1 => "ret".into(),
                2 => format!("mov {}, 1", a),
                3 => "lab0 db \"x\"".into(),
                _ => format!("push {}", q),
            };
            (format!("section .bss\n{}\nsection .text", l), false, "data in zero-initialised space")
        }
        13 if !labels.is_empty() => {
            // a label that exists with something more to it
            let l = r.pick(labels).clone();
            let rest = *r.pick(&[
                ", 5", ",", ", rax", " 5", " + 1", " - 1", "+1", "-1", "+ 1", " +", ":", "]", ")", " rax", " ret", " ,5", "[0]", "(0)", "@plt", "@", "\"", " \"x\"", "'", "*2", "\t1", " lab0", "=1", "/", "\\",
            ]);
            let pre = *r.pick(&["[", "-", "+", "&", "$ ", "- ", "\"", "=", "(", "*", "offset ", "#", "qword ", ", ", "1 + ", "~", "!"]);
            let w = *r.pick(&[32u8, 64]);
            let t = if r.chance(2, 3) { format!("{}{}", l, rest) } else { format!("{}{}", pre, l) };
            let t = if labels.contains(&t) { format!("{}, 5", l) } else { t };
            (format!("mov {}, {}", rg(r, w), t), false, "label reference with something left over")
        }
        14 | 15 => match near_miss(r, labels) {
            Some(l) => (l, false, "keyword, register or section name misspelt"),
            None => ("nop".into(), true, "unknown instruction"),
        },
        _ => {
            let mut n = match r.below(5) {
                0 if !labels.is_empty() => format!("{}x", r.pick(labels)),
                1 if !labels.is_empty() => format!("_{}", r.pick(labels)),
                2 if !labels.is_empty() => {
                    let l = r.pick(labels);
                    l[..l.len() - 1].to_string()
                }
                3 if !labels.is_empty() => {
                    let l = r.pick(labels);
                    l[1..].to_string()
                }
                _ => "nosuchlabel".into(),
            };
            if is_reserved(&n) || labels.contains(&n) {
                n = "nosuchlabel".into();
            }
            let g = if r.chance(1, 4) { format!("global {}\n", n) } else { String::new() };
            let w = *r.pick(&[32u8, 64]);
            (format!("{}mov {}, {}", g, rg(r, w), n), false, "reference to a label that does not exist")
        }
    }
}

/// A line as other assemblers, preprocessors and languages have it: begins with a word or mark that means nothing here.
fn foreign(r: &mut Rng) -> String {
    let ascii = |w: &str| w.chars().filter(|c| c.is_ascii_graphic() && !";:\"".contains(*c)).collect::<String>();
    let head = match r.below(4) {
        0 => r
            .pick(&[
                "#", "//", "/*", "*/", "*", "--", "%", "%%", "@", "!", "$", "&", "|", "^", "~", "?", "<", ">", "=", "\\", "/", "'", "`", "(", ")", "[", "]", "{", "}", "-", "+", ",", ".", "..", "...", "_", "REM", "rem", "dnl", "C", "0", "1", "42", "0x10",
            ])
            .to_string(),
        1 => r
            .pick(&[
                "#include", "#define", "#if", "%define", "%include", "%macro", "%endmacro", ".align", ".globl", ".global", ".section", ".text", ".data", ".bss", ".byte", ".quad", ".ascii", ".intel_syntax", ".p2align", "align", "extern", "bits", "default", "org", "equ", "times", "resb", "resq", "include", "end", "proc",
                "segment", "use64", "cpu", "absolute", "common", "static", "public", "lock", "rep", "byte", "dt", "do", "dy", "incbin", "istruc", "struc", "if", "else", "endif", "@@", "@f",
            ])
            .to_string(),
        2 => {
            let n = r.range(1, 4);
            (0..n).map(|_| *r.pick(&['#', '!', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/', '<', '=', '>', '?', '@', '[', '\\', ']', '^', '_', '`', '{', '|', '}', '~', 'a', '0', '1', 'x'])).collect()
        }
        _ => ascii(r.word().unwrap_or("#")),
    };
    let reserved = ["mov", "push", "ret", "syscall", "section", "global", "db", "dw", "dd", "dq"];
    let head = if head.is_empty() || reserved.contains(&head.as_str()) { "#".to_string() } else { head };
    let tail = match r.below(8) {
        0 | 1 => String::new(),
        2 => ascii(r.word().unwrap_or("x")),
        _ => r.pick(&["x", "8", "on", "once", "<stdio.h>", "mov rax, 1", "ret", "section .data", "a, b", "1, 2", "0", "(x)", "{", "= 5", "this is a remark", "- - -", "rax", "64", ".data", "*/"]).to_string(),
    };
    let tail = if ["db", "dw", "dd", "dq"].contains(&tail.split_whitespace().next().unwrap_or("")) { "x".to_string() } else { tail };
    format!("{}{}{}", head, if tail.is_empty() { "" } else { *r.pick(&[" ", "\t"]) }, tail)
}

/// A valid line with one of its fixed words changed by a character or two, so that it is no longer one.
fn near_miss(r: &mut Rng, labels: &[String]) -> Option<String> {
    let mut words: Vec<&str> = vec!["mov", "push", "ret", "syscall", "section", "global", "db", "dw", "dd", "dq", ".text", ".data", ".bss"];
    for t in [&x86::N64, &x86::N32, &x86::N16] {
        words.extend(t.iter());
    }
    // (pieces; which of them may be changed)
    let rg = |r: &mut Rng, w: u8| x86::rname(w, r.below(16) as u8).to_string();
    let w = *r.pick(&[16u8, 32, 64]);
    let (mut parts, at): (Vec<String>, usize) = match r.below(8) {
        0 | 1 => (vec!["section ".into(), r.pick(&[".text", ".data", ".bss"]).to_string()], 1),
        2 => (vec!["section".into(), format!(" {}", r.pick(&[".text", ".data", ".bss"]))], 0),
        3 => (vec!["mov".into(), format!(" {}, {}", rg(r, w), rg(r, w))], 0),
        4 => (vec!["mov ".into(), rg(r, w), format!(", {}", r.below(9))], 1),
        5 => (vec!["push ".into(), rg(r, 64)], 1),
        6 => (vec![r.pick(&["db", "dw", "dd", "dq"]).to_string(), format!(" {}", r.below(9))], 0),
        _ => (vec![r.pick(&["ret", "syscall"]).to_string()], 0),
    };
    let old = parts[at].clone();
    let mut t: Vec<char> = old.chars().collect();
    let extra = ['a', 'b', 'd', 'l', 'q', 's', 't', 'x', 'z', '0', '1', '2', '9', '.', '_', 'e', 'r'];
    for _ in 0..r.range(1, 2) {
        let i = r.below(t.len() + 1);
        match r.below(7) {
            0 => t.push(*r.pick(&extra)),
            1 => t.insert(0, *r.pick(&extra)),
            2 => t.insert(i, *r.pick(&extra)),
            3 if i < t.len() && t.len() > 1 => {
                t.remove(i);
            }
            4 if i < t.len() => t[i] = *r.pick(&extra),
            5 if i < t.len() => t[i] = t[i].to_ascii_uppercase(),
            _ if at == 1 && old.starts_with('.') => t.extend(r.pick(&[".", ".rel", ".rel.ro", "_2", ".1", "1", ".text", "0", "s", ".x", "_"]).chars()),
            _ => t.push('_'),
        }
    }
    let t: String = t.into_iter().collect();
    if words.contains(&t.as_str()) || labels.iter().any(|l| *l == t) || t.is_empty() {
        return None;
    }
    if t.starts_with(|c: char| c.is_ascii_digit()) || x86::N8.contains(&t.as_str()) {
        // literals are judged elsewhere
        return None;
    }
    parts[at] = t;
    Some(parts.concat())
}

/// `n` as a number of its own
pub fn names_number(s: &str, n: usize) -> bool {
    let t = n.to_string();
    let b = s.as_bytes();
    let mut from = 0;
    while let Some(k) = s[from..].find(&t) {
        let i = from + k;
        let j = i + t.len();
        let left = i == 0 || !b[i - 1].is_ascii_alphanumeric();
        let right = j == b.len() || !b[j].is_ascii_alphanumeric();
        if left && right {
            return true;
        }
        from = i + 1;
    }
    false
}

pub fn a07(c: &mut Ctx) {
    let d = scratch(c, "a07");
    let mut wk = new_worker(c, "a07");
    let n = c.n(2600, 60_000);
    for k in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let len = c.rng.range(1, 25);
        let p = gen(&mut c.rng, &Opts::mixed(len));
        let good = render_lines(&p, &mut c.rng, if k % 3 == 0 { Style::Free } else { Style::Plain });
        let labels: Vec<String> = p.iter().filter_map(|s| s.label().map(|x| x.to_string())).collect();
        let (bad, line_needed, kind) = bad_line(&mut c.rng, &labels);
        // two places; the reported number has to follow
        let mut at: Vec<usize> = vec![c.rng.below(good.len() + 1), c.rng.below(good.len() + 1), good.len()];
        at.dedup();
        // padding keeps the number apart from anything else a message may hold
        let pad = match c.rng.below(60) {
            0 => c.rng.range(65_520, 65_550),
            1 => *c.rng.pick(&[32_766usize, 32_767, 32_768, 65_535, 65_536, 70_000, 100_000]),
            2 | 3 => c.rng.range(250, 260),
            k if k % 2 == 0 => c.rng.below(400),
            _ => 0,
        };
        if c.rng.chance(1, 2) {
            at.truncate(1);
        }
        for at in at {
            // the bad line must not stand in zero-initialised space, where data would be refused for that
            let mut lines: Vec<String> = (0..pad).map(|i| if i % 7 == 0 { "; note".into() } else { String::new() }).collect();
            lines.extend(good[..at].iter().cloned());
            let num = lines.len() + 1;
            lines.push(bad.clone());
            lines.extend(good[at..].iter().cloned());
            let mut src = lines.join("\n");
            if c.rng.chance(4, 5) {
                src.push('\n');
            }
            c.case(fnv(src.as_bytes()));
            c.sample(|| format!("{:?} at line {}", bad, num));
            let f = d.join("in.asm");
            let o = d.join("in.o");
            std::fs::write(&f, &src).unwrap();
            let _ = std::fs::remove_file(&o);
            let r = run(&d, &["in.asm", "-o", "in.o"], None);
            let left = std::fs::read(&o).unwrap_or_default();
            let _ = std::fs::remove_file(&o);
            let fail = |c: &mut Ctx, m: String| c.viol(format!("{}: {:?} at line {}: {}\nsource:\n{}", kind, bad, num, m, quote(&src)));
            if r.ok() {
                fail(c, format!("accepted ({} byte output)", left.len()));
            } else if r.code.is_none() {
                fail(c, r.show());
            } else if macho::validate(&left).is_ok() {
                fail(c, format!("{}, yet a complete object of {} bytes is left behind", r.show(), left.len()));
            } else if line_needed && !names_number(&r.err, num) {
                fail(c, format!("the message does not name line {}: {}", num, r.show()));
            } else {
                c.ev("invalid programs rejected, nothing usable left");
                if line_needed {
                    c.ev("of them with the line's number");
                }
                c.ev(kind);
                continue;
            }
            if c.stop() {
                return;
            }
        }
        // the same program without the line is fine: the line was the reason
        if k % 8 == 0 {
            let src = good.join("\n");
            match wk.assemble(src.as_bytes()) {
                Res::Ok(_) => c.ev("the same programs without the line assemble"),
                _ => c.ev("programs refused without the line (another property's matter)"),
            }
        }
    }
}

// ------------------------------------------------------------------ A11

pub fn a11(c: &mut Ctx) {
    let mut wk = new_worker(c, "a11");
    let n = c.n(900, 30_000);
    for k in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let d = scratch(c, "a11");
        let len = c.rng.range(1, 20);
        let mut p = gen(&mut c.rng, &Opts::mixed(len));
        if c.rng.chance(1, 12) {
            inflate(&mut c.rng, &mut p);
            c.ev("programs stretched with filler");
        }
        let src = render(&p, &mut c.rng, Style::Free);
        let want = match wk.assemble(src.as_bytes()) {
            Res::Ok(b) => b,
            _ => {
                c.ev("programs not assembled (another property's matter)");
                continue;
            }
        };
        // bystanders
        std::fs::create_dir_all(d.join("sub/deep")).unwrap();
        for n in ["in", "in.s", "in.asm", "in.o.bak", "out", "a.out", "sub/in.o", "sub/in", "sub/deep/x.o", ".o", "o", "-o.keep"] {
            if c.rng.chance(1, 2) {
                let b = c.rng.bytes(9);
                std::fs::write(d.join(n), b).unwrap();
            }
        }
        let stem = *c.rng.pick(&["in", "prog", "a.b", "sub/in", "sub/deep/x", "with space", "é", ".hidden", "./in", "sub/../in", "x.tar", "UP", "in.o.x"]);
        let ext = *c.rng.pick(&["", ".s", ".asm", ".txt", ".a.s", ".S"]);
        let input = format!("{}{}", stem, ext);
        std::fs::write(d.join(&input), &src).unwrap();
        let outs = ["out.o", "sub/new.o", "in.o", "prog", "sub/deep/x.bin", "sp ace.o", "out", "./o.o", "x.s", "ü.o", "-x", "o"];
        let explicit = c.rng.chance(2, 3);
        let output = if explicit { c.rng.pick(&outs).to_string() } else { PathBuf::from(&input).with_extension("o").to_string_lossy().into_owned() };
        // an alias of the source is its own case below
        let same = |a: &str, b: &str| std::fs::canonicalize(d.join(a)).ok().map_or(false, |x| Some(x) == std::fs::canonicalize(d.join(b)).ok());
        if same(&input, &output) {
            continue;
        }
        // the same paths written out in full, or the source reached through a link beside it
        let full = |s: &str| d.join(s).to_string_lossy().into_owned();
        let (mut input, mut output) = (input, output);
        let plain_output = output.clone();
        match c.rng.below(8) {
            0 => input = full(&input),
            1 => {
                output = full(&output);
                input = if c.rng.chance(1, 2) { full(&input) } else { input };
            }
            2 => {
                let at = d.join(&input);
                let real = at.with_file_name("real source");
                std::fs::rename(&at, &real).unwrap();
                std::os::unix::fs::symlink("real source", &at).unwrap();
                c.ev("sources reached through links");
            }
            _ => {}
        }
        if !explicit {
            output = plain_output.clone();
        }
        let args: Vec<&str> = if !explicit {
            vec![&input]
        } else if c.rng.chance(1, 2) {
            vec!["-o", &output, &input]
        } else {
            vec![&input, "-o", &output]
        };
        // previous contents: none, shorter, longer, a complete object
        match c.rng.below(4) {
            0 => {
                let _ = std::fs::remove_file(d.join(&output));
            }
            1 => {
                let b = c.rng.bytes(7);
                std::fs::write(d.join(&output), b).unwrap();
            }
            2 => {
                let k = want.len() + c.rng.range(1, 5000);
                let b = c.rng.bytes(k);
                std::fs::write(d.join(&output), b).unwrap();
            }
            _ => {
                let mut b = want.clone();
                b.extend_from_slice(&want);
                std::fs::write(d.join(&output), b).unwrap();
            }
        }
        // a link in its place
        let mut linked = None;
        if explicit && c.rng.chance(1, 6) && !d.join("linked to").exists() {
            let at = d.join(&output);
            let _ = std::fs::remove_file(&at);
            std::os::unix::fs::symlink(d.join("linked to"), &at).unwrap();
            if c.rng.chance(2, 3) {
                let n = c.rng.range(0, want.len() * 2);
                let b = c.rng.bytes(n);
                std::fs::write(d.join("linked to"), b).unwrap();
            }
            linked = Some("linked to".to_string());
            c.ev("outputs reached through links");
        }
        // any permissions the old one may have
        if d.join(&output).is_file() && c.rng.chance(1, 3) {
            use std::os::unix::fs::PermissionsExt as _;
            let mode = *c.rng.pick(&[0o444, 0o400, 0o755, 0o600, 0o777, 0o200, 0o644 | 0o1000]);
            let _ = std::fs::set_permissions(d.join(&output), std::fs::Permissions::from_mode(mode));
            c.ev("old outputs with unusual permissions");
        }
        let before = snapshot(&d);
        c.case(fnv(format!("{:?}{}{}", args, src, before.len()).as_bytes()));
        c.sample(|| format!("arguments {:?}, {} files around", args, before.len()));
        let key = |s: &str| s.trim_start_matches("./").replace("sub/../", "");
        let okey = key(&plain_output);
        let forget = |m: &mut BTreeMap<String, Vec<u8>>| {
            for k in [Some(okey.clone()), linked.as_ref().map(|_| format!("{}@", okey)), linked.clone()].iter().flatten() {
                m.remove(k);
            }
        };
        let show = |m: String| format!("arguments {:?}: {}\nsource {:?}", args, m, clip(&src, 1500));
        match k % 6 {
            // plain success
            0 | 1 | 2 => {
                let ids = identity(&d);
                let r = if c.rng.chance(1, 3) {
                    const CALLS: &str = "execve,?open,openat,?openat2,?creat,?unlink,unlinkat,?rename,?renameat,renameat2,?mkdir,mkdirat,?rmdir,?link,linkat,?symlink,symlinkat,?chmod,fchmodat,?chown,?lchown,fchownat,truncate,utimensat,?mknod,mknodat,setxattr,socket";
                    match run_traced(&d, &args, CALLS, None) {
                        Some((r, t)) => {
                            let bad = outside(&t, &d);
                            if !bad.is_empty() {
                                c.viol(show(format!("changes something that is not its output: {}", bad.join(" / "))));
                            }
                            c.ev("runs judged by their system calls");
                            r
                        }
                        None => {
                            c.ev("no system-call tracer");
                            run(&d, &args, None)
                        }
                    }
                } else {
                    run(&d, &args, None)
                };
                let (mut i1, mut i2) = (ids, identity(&d));
                for i in [&mut i1, &mut i2] {
                    i.remove(&okey);
                    i.remove(linked.as_ref().unwrap_or(&okey));
                }
                if r.ok() && i1 != i2 {
                    let t: Vec<_> = i2.iter().filter(|(k, v)| i1.get(*k) != Some(v)).map(|x| x.0).collect();
                    c.viol(show(format!("other files were replaced, touched or changed in permissions: {:?}", t)));
                }
                let mut after = snapshot(&d);
                let got = std::fs::read(d.join(&output)).ok();
                forget(&mut after);
                let mut b = before.clone();
                forget(&mut b);
                if !r.ok() {
                    c.viol(show(format!("a valid program: {}", r.show())));
                } else if got.as_ref() != Some(&want) {
                    c.viol(show(format!(
                        "exit status 0, but {:?} holds {} bytes instead of the {} byte object",
                        output,
                        got.map(|g| g.len() as i64).unwrap_or(-1),
                        want.len()
                    )));
                } else if b != after {
                    let d: Vec<_> = after.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|x| x.0).chain(b.keys().filter(|k| !after.contains_key(*k))).collect();
                    c.viol(show(format!("other files changed: {:?}", d)));
                } else {
                    c.ev(if explicit { "objects written to the path given" } else { "objects written to the default path" });
                    if k % 6 == 2 && c.rng.chance(1, 2) {
                        // once more, over its own output
                        let r = run(&d, &args, None);
                        let mut again = snapshot(&d);
                        let got = std::fs::read(d.join(&output)).ok();
                        forget(&mut again);
                        if !r.ok() || got.as_ref() != Some(&want) || again != after {
                            c.viol(show(format!("run again: {}, output holds {:?} of {} bytes", r.show(), got.map(|g| g.len()), want.len())));
                        }
                        c.ev("runs repeated over their own output");
                    }
                    if c.rng.chance(1, 3) && Path::new("/dev/stdin").exists() && Path::new("/dev/stdout").exists() {
                        // pipes instead of files
                        let (r, out) = run_io(&d, &["/dev/stdin", "-o", "piped.o"], None, Some(src.as_bytes()));
                        let got = std::fs::read(d.join("piped.o")).unwrap_or_default();
                        if !r.ok() || got != want || !out.is_empty() {
                            c.viol(show(format!("source from a pipe: {}, output holds {} of {} bytes", r.show(), got.len(), want.len())));
                        }
                        let (r, out) = run_io(&d, &[&input, "-o", "/dev/stdout"], None, Some(b""));
                        if !r.ok() || out != want {
                            c.viol(show(format!("object into a pipe: {}, {} of {} bytes arrive", r.show(), out.len(), want.len())));
                        }
                        c.ev("sources and objects through pipes");
                    }
                }
            }
            // writes fail part way: every size limit must be noticed
            3 => {
                for _ in 0..3 {
                    let lim = match c.rng.below(5) {
                        0 => 0,
                        1 => want.len() as u64 - 1,
                        2 => want.len() as u64,
                        _ => c.rng.below(want.len()) as u64,
                    };
                    let r = run(&d, &args, Some(lim));
                    let got = std::fs::read(d.join(&output)).unwrap_or_default();
                    if r.ok() != (lim >= want.len() as u64) || (r.ok() && got != want) || r.code.is_none() {
                        c.viol(show(format!("only {} of {} bytes can be written: {}, output holds {} bytes", lim, want.len(), r.show(), got.len())));
                    }
                    c.ev("output size limits");
                    let mut after = snapshot(&d);
                    forget(&mut after);
                    let mut b = before.clone();
                    forget(&mut b);
                    if after != b {
                        c.viol(show("a failing run changed other files".into()));
                    }
                }
                // single system calls fail: interrupted ones are repeated, other failures noticed
                let at = std::fs::canonicalize(d.join(&input)).unwrap();
                let to = d.join(&output);
                let to = match &linked {
                    Some(l) => d.join(l),
                    None => std::fs::canonicalize(to.parent().unwrap()).unwrap().join(to.file_name().unwrap()),
                };
                for _ in 0..2 {
                    let nth = if c.rng.chance(1, 3) { c.rng.range(1, 400) } else { c.rng.range(1, 70) };
                    let reads = c.rng.chance(1, 3);
                    let nth = if reads { c.rng.range(1, 2) } else { nth };
                    let (e, hard) = *c.rng.pick(&[("EINTR", false), ("EINTR", false), ("EIO", true), ("ENOSPC", true), ("EDQUOT", true), ("EBADF", true)]);
                    let more = if hard { "" } else { *c.rng.pick(&["", "+2", "+3"]) };
                    let calls = if reads { "read,readv,pread64" } else { "write,writev,pwrite64" };
                    let inject = format!("error={}:when={}{}", e, nth, more);
                    let paths = [if reads { at.as_path() } else { to.as_path() }];
                    let (r, t) = match run_traced(&d, &args, calls, Some((inject.as_str(), &paths))) {
                        Some(x) => x,
                        None => {
                            c.ev("no system-call tracer");
                            break;
                        }
                    };
                    let hit = t.contains("INJECTED");
                    let got = std::fs::read(d.join(&output)).unwrap_or_default();
                    let bad = if r.code.is_none() {
                        true
                    } else if hit && hard {
                        r.ok()
                    } else {
                        !r.ok() || got != want
                    };
                    if bad {
                        c.viol(show(format!(
                            "{} call {} on the {} ends in {}{}: {}, output holds {} of {} bytes{}",
                            if reads { "reading" } else { "writing" },
                            nth,
                            if reads { "source" } else { "output" },
                            e,
                            more,
                            r.show(),
                            got.len(),
                            want.len(),
                            if hit { "" } else { " (no call was hit)" }
                        )));
                    }
                    if hit {
                        c.ev(if hard { "failing system calls noticed" } else { "interrupted system calls survived" });
                    }
                }
                let mut a2 = args.clone();
                if explicit && Path::new("/dev/full").exists() {
                    let i = a2.iter().position(|x| *x == "-o").unwrap() + 1;
                    a2[i] = "/dev/full";
                    let r = run(&d, &a2, None);
                    if r.ok() || r.code.is_none() {
                        c.viol(show(format!("output to a full device: {}", r.show())));
                    }
                    c.ev("full device noticed");
                }
            }
            // wrong usage, unreadable sources, unwritable outputs
            4 => {
                let cases: Vec<(Vec<&str>, &str)> = vec![
                    (vec![], "no arguments"),
                    (vec![&input, &input], "two sources"),
                    (vec![&input, "in", "-o", "zz.o"], "two sources"),
                    (vec!["-o", "zz.o"], "no source"),
                    (vec![&input, "-o"], "no output after -o"),
                    (vec!["-o"], "no output after -o"),
                    (vec!["nosuchfile.s"], "missing source"),
                    (vec!["nosuchdir/x.s", "-o", "zz.o"], "missing source"),
                    (vec!["sub", "-o", "zz.o"], "source is a directory"),
                    (vec![&input, "-o", "nosuchdir/zz.o"], "output directory missing"),
                    (vec![&input, "-o", "sub"], "output is a directory"),
                    (vec![&input, "-o", ""], "empty output path"),
                    (vec!["", "-o", "zz.o"], "empty source path"),
                    (vec!["-output", "zz.o", &input], "no such option"),
                    (vec![&input, "-output", "zz.o"], "no such option"),
                    (vec![&input, "-ozz.o"], "no such option"),
                    (vec![&input, "--output", "zz.o"], "no such option"),
                    (vec!["--o", "zz.o", &input], "no such option"),
                    (vec![&input, "-O", "zz.o"], "no such option"),
                    (vec![&input, "-c", "zz.o"], "no such option"),
                    (vec![&input, "--output=zz.o"], "no such option"),
                    (vec![&input, "-o", "zz.o", "-o", "zz.o"], "output given twice"),
                    (vec!["-o", "zz.o", &input, "-o", "zz.o"], "output given twice"),
                    (vec!["-o", "zz.o", &input, "-v"], "no such option"),
                ];
                let (a, why) = c.rng.pick(&cases).clone();
                let r = run(&d, &a, None);
                if r.ok() || r.code.is_none() {
                    c.viol(format!("{} {:?}: {}", why, a, r.show()));
                }
                let mut after = snapshot(&d);
                if let Some(b) = after.remove("zz.o") {
                    if macho::validate(&b).is_ok() {
                        c.viol(format!("{} {:?}: failed, yet a complete object was left", why, a));
                    }
                }
                let mut b = before.clone();
                // the default output of a missing source may not appear either
                b.remove("zz.o");
                if after != b {
                    let d: Vec<_> = after.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|x| x.0).chain(b.keys().filter(|k| !after.contains_key(*k))).collect();
                    c.viol(format!("{} {:?}: files changed: {:?}", why, a, d));
                }
                c.ev("wrong usage and unusable paths rejected");
                // unreadable source text
                if c.rng.chance(1, 3) {
                    std::fs::write(d.join("bin.s"), b"ret\n\xff\xfe\x80\nret\n").unwrap();
                    let r = run(&d, &["bin.s", "-o", "zz.o"], None);
                    if r.ok() {
                        c.viol(format!("a source that is not text: {}", r.show()));
                    }
                    c.ev("sources that are not text rejected");
                }
            }
            // the output is the source itself
            _ => {
                std::fs::write(d.join("self.o"), &src).unwrap();
                std::fs::create_dir_all(d.join("q")).unwrap();
                let (a, src_path): (Vec<&str>, &str) = match c.rng.below(6) {
                    0 => (vec!["self.o"], "self.o"),
                    1 => (vec!["self.o", "-o", "self.o"], "self.o"),
                    2 => (vec!["-o", "./self.o", "self.o"], "self.o"),
                    3 => (vec!["self.o", "-o", "q/../self.o"], "self.o"),
                    4 => {
                        std::os::unix::fs::symlink("self.o", d.join("ln.o")).unwrap();
                        (vec!["self.o", "-o", "ln.o"], "self.o")
                    }
                    _ => {
                        std::fs::hard_link(d.join("self.o"), d.join("hl.o")).unwrap();
                        (vec!["self.o", "-o", "hl.o"], "self.o")
                    }
                };
                let before = snapshot(&d);
                let r = run(&d, &a, None);
                let after = snapshot(&d);
                if std::fs::read(d.join(src_path)).unwrap_or_default() != src.as_bytes() {
                    c.viol(format!("arguments {:?}: the source file itself was overwritten ({})", a, r.show()));
                } else if r.ok() || r.code.is_none() {
                    c.viol(format!("arguments {:?} name the source as output: {}", a, r.show()));
                } else if before != after {
                    c.viol(format!("arguments {:?}: files changed", a));
                } else {
                    c.ev("output naming the source refused, source intact");
                }
            }
        }
        // an unused output path must not stay behind between cases
        let _ = std::fs::remove_dir_all(&d);
    }
}
use crate::a::quote;
