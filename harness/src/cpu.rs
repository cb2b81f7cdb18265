//! Native execution monitor: a seccomp-strict child, single-stepped under ptrace, whose whole
//! general-purpose register file and memory windows are observed after every instruction.
//! Memory windows are shared with the tracer, so code and data are placed and inspected directly.
use crate::x86::{self, Machine};

pub const LOW: u64 = 0x4000_0000; // code page(s), then data: reachable by 32-bit absolute and rip-relative
pub const LOW_SZ: usize = 0x20000;
pub const CODE: u64 = LOW;
pub const CODE_SZ: usize = 0x8000;
pub const LDATA: u64 = LOW + 0x10000;
pub const HIGH: u64 = 0x3456_0000_0000; // data window far away
pub const HIGH_SZ: usize = 0x2000;
pub const IMG: u64 = 0x1_0000_0000; // linked images
pub const IMG_SZ: usize = 0x40000;

pub struct Cpu {
    pid: i32,
    low: *mut u8,
    high: *mut u8,
    img: *mut u8,
    base: libc::user_regs_struct,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    /// one instruction retired
    Step,
    /// fault signal and address reported by the kernel
    Fault(i32, u64),
    Died(i32),
}

const ORDER: &str = "rax rcx rdx rbx rsp rbp rsi rdi r8-r15";

fn get(r: &libc::user_regs_struct) -> [u64; 16] {
    let _ = ORDER;
    [
        r.rax, r.rcx, r.rdx, r.rbx, r.rsp, r.rbp, r.rsi, r.rdi, r.r8, r.r9, r.r10, r.r11, r.r12, r.r13, r.r14, r.r15,
    ]
}
fn put(r: &mut libc::user_regs_struct, v: &[u64; 16]) {
    r.rax = v[0];
    r.rcx = v[1];
    r.rdx = v[2];
    r.rbx = v[3];
    r.rsp = v[4];
    r.rbp = v[5];
    r.rsi = v[6];
    r.rdi = v[7];
    r.r8 = v[8];
    r.r9 = v[9];
    r.r10 = v[10];
    r.r11 = v[11];
    r.r12 = v[12];
    r.r13 = v[13];
    r.r14 = v[14];
    r.r15 = v[15];
}

unsafe fn map_at(a: u64, n: usize) -> Option<*mut u8> {
    let p = libc::mmap(
        a as *mut _,
        n,
        libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if p as u64 == a {
        Some(p as *mut u8)
    } else {
        None
    }
}

impl Cpu {
    pub fn start() -> Result<Cpu, String> {
        unsafe {
            let low = map_at(LOW, LOW_SZ).ok_or("cannot map low window")?;
            let high = map_at(HIGH, HIGH_SZ).ok_or("cannot map high window")?;
            let img = map_at(IMG, IMG_SZ).ok_or("cannot map image window")?;
            let pid = libc::fork();
            if pid < 0 {
                return Err("fork failed".into());
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for fd in 0..256 {
                    libc::close(fd);
                }
                if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                    libc::_exit(40);
                }
                // only read/write/exit/sigreturn remain possible; everything else kills the child
                if libc::prctl(libc::PR_SET_SECCOMP, 1 /* strict */) != 0 {
                    libc::_exit(41);
                }
                loop {
                    std::arch::asm!("int3");
                }
            }
            let mut st = 0;
            if libc::waitpid(pid, &mut st, 0) != pid || !libc::WIFSTOPPED(st) {
                return Err(format!("traced child did not stop (status {:#x})", st));
            }
            let mut base: libc::user_regs_struct = std::mem::zeroed();
            if libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut base as *mut _) != 0 {
                libc::kill(pid, libc::SIGKILL);
                return Err("PTRACE_GETREGS refused".into());
            }
            Ok(Cpu { pid, low, high, img, base })
        }
    }
    fn win(&self, a: u64, n: usize) -> Option<*mut u8> {
        for (s, p, sz) in [(LOW, self.low, LOW_SZ), (HIGH, self.high, HIGH_SZ), (IMG, self.img, IMG_SZ)] {
            if a >= s && a - s + n as u64 <= sz as u64 {
                return Some(unsafe { p.add((a - s) as usize) });
            }
        }
        None
    }
    pub fn poke(&self, a: u64, b: &[u8]) {
        let p = self.win(a, b.len()).expect("poke outside windows");
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) }
    }
    pub fn peek(&self, a: u64, n: usize) -> Option<&[u8]> {
        self.win(a, n).map(|p| unsafe { std::slice::from_raw_parts(p, n) })
    }
    /// Execute exactly one instruction at `ip` with `regs`. The caller has decoded it and knows
    /// that it is not a system call. Returns the stop reason, registers, ip and arithmetic flags.
    pub fn step(&mut self, regs: &[u64; 16], ip: u64) -> Result<(Stop, [u64; 16], u64), String> {
        unsafe {
            let mut r = self.base;
            put(&mut r, regs);
            r.rip = ip;
            r.orig_rax = u64::MAX;
            r.eflags = 0x202;
            if libc::ptrace(libc::PTRACE_SETREGS, self.pid, 0, &r as *const _) != 0 {
                return Err("PTRACE_SETREGS failed".into());
            }
            if libc::ptrace(libc::PTRACE_SINGLESTEP, self.pid, 0, 0) != 0 {
                return Err("PTRACE_SINGLESTEP failed".into());
            }
            let mut st = 0;
            if libc::waitpid(self.pid, &mut st, 0) != self.pid {
                return Err("waitpid failed".into());
            }
            if !libc::WIFSTOPPED(st) {
                return Ok((Stop::Died(st), *regs, ip));
            }
            let mut o: libc::user_regs_struct = std::mem::zeroed();
            if libc::ptrace(libc::PTRACE_GETREGS, self.pid, 0, &mut o as *mut _) != 0 {
                return Err("PTRACE_GETREGS failed".into());
            }
            let sig = libc::WSTOPSIG(st);
            let stop = if sig == libc::SIGTRAP {
                Stop::Step
            } else {
                let mut si: libc::siginfo_t = std::mem::zeroed();
                libc::ptrace(libc::PTRACE_GETSIGINFO, self.pid, 0, &mut si as *mut _);
                Stop::Fault(sig, si.si_addr() as u64)
            };
            Ok((stop, get(&o), o.rip))
        }
    }
    /// Step the instruction at m.ip natively and on the reference machine with the *expected*
    /// operation; compare everything. `op`/`len` are what the source asked for.
    /// Ok(true): compared equal. Err: description of the difference.
    pub fn lockstep(&mut self, m: &mut Machine, op: &x86::Op, len: usize) -> Result<(), String> {
        let before = m.regs;
        let ip = m.ip;
        let (stop, regs, nip) = self.step(&before, ip).map_err(|e| format!("HARNESS {}", e))?;
        let ev = m.exec(op, len);
        match (&stop, &ev) {
            (Stop::Step, x86::Ev::None) => {}
            (Stop::Fault(_, a), x86::Ev::Fault(b)) => {
                let canonical = |x: u64| ((x << 16) as i64 >> 16) as u64 == x;
                // the kernel reports no address for non-canonical ones
                if canonical(*b) && a != b {
                    return Err(format!("accessed address {:#x}, expected {:#x}", a, b));
                }
                return Ok(());
            }
            (s, e) => return Err(format!("CPU reported {:x?}, reference machine {:x?}", s, e)),
        }
        if nip != m.ip {
            return Err(format!("instruction pointer {:#x}, expected {:#x}", nip, m.ip));
        }
        for i in 0..16 {
            if regs[i] != m.regs[i] {
                return Err(format!(
                    "register {} is {:#x} after the step, expected {:#x} (was {:#x})",
                    x86::N64[i], regs[i], m.regs[i], before[i]
                ));
            }
        }
        self.same_memory(m)
    }
    pub fn same_memory(&self, m: &Machine) -> Result<(), String> {
        for (s, w) in &m.wins {
            let real = self.peek(*s, w.len()).unwrap();
            if real != &w[..] {
                let i = (0..w.len()).find(|&i| real[i] != w[i]).unwrap();
                return Err(format!(
                    "memory at {:#x} is {:02x}, expected {:02x}",
                    s + i as u64,
                    real[i],
                    w[i]
                ));
            }
        }
        Ok(())
    }
    pub fn load_windows(&self, m: &Machine) {
        for (s, w) in &m.wins {
            self.poke(*s, w);
        }
    }
}
impl Drop for Cpu {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
            libc::munmap(self.low as *mut _, LOW_SZ);
            libc::munmap(self.high as *mut _, HIGH_SZ);
            libc::munmap(self.img as *mut _, IMG_SZ);
        }
    }
}
