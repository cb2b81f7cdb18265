//! The assembler library exits the process on bad input, so it runs in a worker process.
//! A script is a list of feeds and writes on one `Assembler`; the outcome of each is reported
//! over a private pipe. Death, exit and hangs of the worker are outcomes too.
use crate::util::*;
use std::io::{self, Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// How a stream behaves: at most `max` bytes per call (0: all), pseudo-random sizes if `seed` != 0,
/// every `intr`-th call is interrupted first, and it fails for good once `fail_at` bytes went through.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Flow {
    pub max: u32,
    pub seed: u32,
    pub intr: u32,
    pub fail_at: Option<u32>,
    /// failing means Ok(0) (writers) instead of an error
    pub zero: bool,
    /// fails a single time and works again afterwards
    pub once: bool,
}
impl Flow {
    pub const PLAIN: Flow = Flow { max: 0, seed: 0, intr: 0, fail_at: None, zero: false, once: false };
    pub fn random(r: &mut Rng) -> Flow {
        Flow {
            max: *r.pick(&[1, 1, 2, 3, 5, 7, 16, 61, 4096, 8192]),
            seed: if r.chance(1, 2) { r.next() as u32 | 1 } else { 0 },
            intr: *r.pick(&[0, 0, 2, 3, 5]),
            fail_at: None,
            zero: false,
            once: false,
        }
    }
    pub fn fail(at: usize) -> Flow {
        Flow { fail_at: Some(at as u32), ..Flow::PLAIN }
    }
}

pub struct Stream {
    pub data: Vec<u8>,
    pub pos: usize,
    flow: Flow,
    calls: u32,
    intr_now: bool,
    /// the single failure has happened
    pub failed: bool,
    rng: Rng,
}
impl Stream {
    pub fn reader(data: &[u8], flow: Flow) -> Stream {
        Stream { data: data.to_vec(), pos: 0, flow, calls: 0, intr_now: false, failed: false, rng: Rng::new(flow.seed as u64) }
    }
    pub fn writer(flow: Flow) -> Stream {
        Stream::reader(&[], flow)
    }
    fn gate(&mut self, want: usize, done: usize) -> io::Result<usize> {
        self.calls = self.calls.wrapping_add(1);
        if self.flow.intr != 0 && self.calls % self.flow.intr == 0 && !self.intr_now {
            self.intr_now = true;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.intr_now = false;
        let mut n = want;
        if self.flow.max != 0 {
            n = n.min(self.flow.max as usize);
        }
        if self.flow.seed != 0 && n > 1 {
            n = self.rng.range(1, n);
        }
        if let Some(f) = self.flow.fail_at.filter(|_| !(self.flow.once && self.failed)) {
            if done >= f as usize && want > 0 {
                self.failed = true;
                return if self.flow.zero {
                    Ok(0)
                } else {
                    Err(io::Error::new(io::ErrorKind::Other, "injected device failure"))
                };
            }
            n = n.min(f as usize - done);
        }
        Ok(n)
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        let n = self.gate(buf.len(), self.pos)?.min(left);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.gate(buf.len(), self.data.len())?;
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Read(Vec<u8>, Flow),
    Write(Flow),
    /// drop the assembler and start with a new one
    Fresh,
    /// assemble a source in several threads at once; they must agree
    Threads(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Done,
    Wrote(Vec<u8>),
    /// panicked; what a failing writer had accepted until then
    Panic(String, Vec<u8>),
    Exit(i32, String),
    Signal(i32, String),
    Hang,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok(Vec<u8>),
    Exit(i32, String),
    Panic(String),
    Signal(i32, String),
    Hang,
}
impl Res {
    pub fn rejected(&self) -> bool {
        match self {
            Res::Exit(c, _) => *c != 0,
            Res::Panic(_) => true,
            _ => false,
        }
    }
    pub fn short(&self) -> String {
        match self {
            Res::Ok(b) => format!("success, {} byte object", b.len()),
            Res::Exit(c, e) => format!("exit status {}: {}", c, clip(e.trim(), 200)),
            Res::Panic(m) => format!("panic: {}", clip(m, 200)),
            Res::Signal(s, e) => format!("killed by signal {}: {}", s, clip(e.trim(), 200)),
            Res::Hang => "no end within 20 s of CPU time".into(),
        }
    }
}

fn put32(o: &mut Vec<u8>, n: u32) {
    o.extend_from_slice(&n.to_le_bytes());
}
fn put_flow(o: &mut Vec<u8>, f: &Flow) {
    put32(o, f.max);
    put32(o, f.seed);
    put32(o, f.intr);
    put32(o, f.fail_at.unwrap_or(u32::MAX));
    o.push(f.zero as u8);
}

// ---------------------------------------------------------------- worker side

struct In<R>(R);
impl<R: Read> In<R> {
    fn bytes(&mut self, n: usize) -> Option<Vec<u8>> {
        let mut b = vec![0; n];
        self.0.read_exact(&mut b).ok()?;
        Some(b)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.bytes(1)?[0])
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.bytes(4)?.try_into().unwrap()))
    }
    fn flow(&mut self) -> Option<Flow> {
        let max = self.u32()?;
        let seed = self.u32()?;
        let intr = self.u32()?;
        let f = self.u32()?;
        let zero = self.u8()? != 0;
        Some(Flow { max, seed, intr, fail_at: if f == u32::MAX { None } else { Some(f) }, zero, once: false })
    }
}

pub fn worker_main() -> i32 {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    limit_as(2 << 30);
    std::panic::set_hook(Box::new(|_| {}));
    // private protocol channel; the code under test gets /dev/null as stdout
    let mut out = unsafe {
        let fd = libc::dup(1);
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        libc::dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(fd)
    };
    let mut inp = In(io::stdin());
    loop {
        let n = match inp.u32() {
            Some(n) => n,
            None => return 0,
        };
        let mut steps = Vec::new();
        for _ in 0..n {
            match inp.u8() {
                Some(b'R') => {
                    let l = inp.u32().unwrap();
                    let b = inp.bytes(l as usize).unwrap();
                    let f = inp.flow().unwrap();
                    steps.push(Step::Read(b, f));
                }
                Some(b'W') => steps.push(Step::Write(inp.flow().unwrap())),
                Some(b'T') => {
                    let l = inp.u32().unwrap();
                    steps.push(Step::Threads(inp.bytes(l as usize).unwrap()));
                }
                _ => steps.push(Step::Fresh),
            }
        }
        let mut a = at_asm::Assembler::new();
        for s in steps {
            let mut msg = Vec::new();
            let mut dead = false;
            match s {
                Step::Fresh => {
                    a = at_asm::Assembler::new();
                    msg.push(b'd');
                }
                Step::Threads(src) => {
                    let rs: Vec<Result<Vec<u8>, ()>> = std::thread::scope(|sc| {
                        let h: Vec<_> = (0..4)
                            .map(|_| {
                                let src = &src;
                                sc.spawn(move || {
                                    let mut o = Vec::new();
                                    at_asm::Assembler::new().read_from(&mut &src[..]).write_into(&mut o);
                                    o
                                })
                            })
                            .collect();
                        h.into_iter().map(|x| x.join().map_err(|_| ())).collect()
                    });
                    if rs.iter().all(|r| r.is_ok() && *r == rs[0]) {
                        let b = rs.into_iter().next().unwrap().unwrap();
                        msg.push(b'w');
                        put32(&mut msg, b.len() as u32);
                        msg.extend_from_slice(&b);
                    } else {
                        let m = b"threads fail or disagree";
                        msg.push(b'P');
                        put32(&mut msg, m.len() as u32);
                        msg.extend_from_slice(m);
                        put32(&mut msg, 0);
                    }
                }
                Step::Read(b, f) => {
                    let mut st = Stream::reader(&b, f);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        a.read_from(&mut st);
                    }));
                    match r {
                        Ok(()) => msg.push(b'd'),
                        Err(e) => {
                            let m = crate::core::panic_text(e);
                            msg.push(b'P');
                            put32(&mut msg, m.len() as u32);
                            msg.extend_from_slice(m.as_bytes());
                            put32(&mut msg, 0);
                            dead = true;
                        }
                    }
                }
                Step::Write(f) => {
                    let mut st = Stream::writer(f);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        a.write_into(&mut st);
                    }));
                    match r {
                        Ok(()) => {
                            msg.push(b'w');
                            put32(&mut msg, st.data.len() as u32);
                            msg.extend_from_slice(&st.data);
                        }
                        Err(e) => {
                            let m = crate::core::panic_text(e);
                            msg.push(b'P');
                            put32(&mut msg, m.len() as u32);
                            msg.extend_from_slice(m.as_bytes());
                            put32(&mut msg, st.data.len() as u32);
                            msg.extend_from_slice(&st.data);
                            // a failed write leaves the assembler usable: the script goes on
                        }
                    }
                }
            }
            if dead {
                // the assembler may be in any state after a failed read: start over
                a = at_asm::Assembler::new();
            }
            if out.write_all(&msg).is_err() {
                return 0;
            }
        }
    }
}

// ---------------------------------------------------------------- client side

pub struct Worker {
    exe: PathBuf,
    errf: PathBuf,
    ch: Option<(Child, std::process::ChildStdin, std::process::ChildStdout)>,
    pub spawned: u64,
    /// run in another directory with another environment
    pub odd_env: bool,
}

enum Got {
    Bytes(Vec<u8>),
    Eof,
    Hang,
}

impl Worker {
    pub fn new(exe: &Path, dir: &Path, tag: &str) -> Worker {
        Worker {
            exe: exe.to_path_buf(),
            errf: dir.join(format!("worker-err-{}-{}", std::process::id(), tag)),
            ch: None,
            spawned: 0,
            odd_env: false,
        }
    }
    fn ensure(&mut self) {
        if self.ch.is_none() {
            let e = std::fs::File::create(&self.errf).unwrap();
            let mut cmd = Command::new(&self.exe);
            if self.odd_env {
                cmd.env_clear().env("TZ", "Asia/Tokyo").env("LANG", "tr_TR.UTF-8").env("HOME", "/nonexistent").current_dir("/");
                // an environment variable that the code has come to name is set here and not elsewhere
                for v in &crate::dict::get().new_strs {
                    if v.len() >= 2 && v.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_') {
                        cmd.env(v, "1");
                    }
                }
            }
            let mut c = cmd
                .arg("asm-worker")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(e)
                .spawn()
                .expect("spawn worker");
            let i = c.stdin.take().unwrap();
            let o = c.stdout.take().unwrap();
            self.ch = Some((c, i, o));
            self.spawned += 1;
        }
    }
    fn read_n(&mut self, n: usize, t0: Instant, cpu0: u64) -> Got {
        let (c, _, o) = self.ch.as_mut().unwrap();
        let pid = c.id();
        let mut b = vec![0u8; n];
        let mut got = 0;
        while got < n {
            let mut p = libc::pollfd { fd: o.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, 1000) };
            if r == 0 {
                let used = cpu_ticks(pid).unwrap_or(cpu0).saturating_sub(cpu0);
                if used > 3000 {
                    return Got::Hang;
                }
                if t0.elapsed() > Duration::from_secs(400) {
                    panic!("HARNESS: worker stalled without using CPU time");
                }
                continue;
            }
            match o.read(&mut b[got..]) {
                Ok(0) => return Got::Eof,
                Ok(k) => got += k,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(_) => return Got::Eof,
            }
        }
        Got::Bytes(b)
    }
    fn reap(&mut self) -> Out {
        let (mut c, i, o) = self.ch.take().unwrap();
        drop(i);
        drop(o);
        let st = c.wait().unwrap();
        let err = String::from_utf8_lossy(&std::fs::read(&self.errf).unwrap_or_default()).into_owned();
        match st.signal() {
            Some(s) => Out::Signal(s, err),
            None => Out::Exit(st.code().unwrap_or(-1), err),
        }
    }
    pub fn run(&mut self, steps: &[Step]) -> Vec<Out> {
        let mut outs = Vec::new();
        self.ensure();
        let mut m = Vec::new();
        put32(&mut m, steps.len() as u32);
        for s in steps {
            match s {
                Step::Read(b, f) => {
                    m.push(b'R');
                    put32(&mut m, b.len() as u32);
                    m.extend_from_slice(b);
                    put_flow(&mut m, f);
                }
                Step::Write(f) => {
                    m.push(b'W');
                    put_flow(&mut m, f);
                }
                Step::Fresh => m.push(b'F'),
                Step::Threads(b) => {
                    m.push(b'T');
                    put32(&mut m, b.len() as u32);
                    m.extend_from_slice(b);
                }
            }
        }
        let cpu0;
        {
            let (c, i, _) = self.ch.as_mut().unwrap();
            cpu0 = cpu_ticks(c.id()).unwrap_or(0);
            // a worker that died already shows up on the read side
            let _ = i.write_all(&m);
            let _ = i.flush();
        }
        let t0 = Instant::now();
        macro_rules! rd {
            ($n:expr) => {
                match self.read_n($n, t0, cpu0) {
                    Got::Bytes(b) => b,
                    Got::Eof => {
                        outs.push(self.reap());
                        return outs;
                    }
                    Got::Hang => {
                        if let Some((mut c, _, _)) = self.ch.take() {
                            let _ = c.kill();
                            let _ = c.wait();
                        }
                        outs.push(Out::Hang);
                        return outs;
                    }
                }
            };
        }
        macro_rules! rd32 {
            () => {
                u32::from_le_bytes(rd!(4).try_into().unwrap()) as usize
            };
        }
        for _ in steps {
            match rd!(1)[0] {
                b'd' => outs.push(Out::Done),
                b'w' => {
                    let n = rd32!();
                    outs.push(Out::Wrote(rd!(n)));
                }
                b'P' => {
                    let n = rd32!();
                    let msg = String::from_utf8_lossy(&rd!(n)).into_owned();
                    let n = rd32!();
                    let part = rd!(n);
                    outs.push(Out::Panic(msg, part));
                }
                x => panic!("HARNESS: worker protocol error {:#x}", x),
            }
        }
        outs
    }
    /// end this process; the next run starts a new one
    pub fn retire(&mut self) {
        if let Some((mut c, i, o)) = self.ch.take() {
            drop(i);
            drop(o);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    pub fn assemble_in_threads(&mut self, src: &[u8]) -> Res {
        match self.run(&[Step::Threads(src.to_vec())]).pop() {
            Some(Out::Wrote(b)) => Res::Ok(b),
            Some(Out::Panic(m, _)) => Res::Panic(m),
            Some(Out::Exit(c, e)) => Res::Exit(c, e),
            Some(Out::Signal(s, e)) => Res::Signal(s, e),
            _ => Res::Hang,
        }
    }
    pub fn assemble_with(&mut self, src: &[u8], rf: Flow, wf: Flow) -> Res {
        let o = self.run(&[Step::Read(src.to_vec(), rf), Step::Write(wf)]);
        for x in &o {
            match x {
                Out::Panic(m, _) => return Res::Panic(m.clone()),
                Out::Exit(c, e) => return Res::Exit(*c, e.clone()),
                Out::Signal(s, e) => return Res::Signal(*s, e.clone()),
                Out::Hang => return Res::Hang,
                Out::Wrote(b) => return Res::Ok(b.clone()),
                Out::Done => {}
            }
        }
        panic!("HARNESS: no outcome")
    }
    pub fn assemble(&mut self, src: &[u8]) -> Res {
        self.assemble_with(src, Flow::PLAIN, Flow::PLAIN)
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        if let Some((mut c, i, o)) = self.ch.take() {
            drop(i);
            drop(o);
            let _ = c.kill();
            let _ = c.wait();
        }
        let _ = std::fs::remove_file(&self.errf);
    }
}
