//! Supervisor / shard machinery: beacons, counters, evidence, verdicts.
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// a quick run's time; they normally take some ten seconds
const QUICK_S: u64 = 200;

pub const BEACON_SZ: usize = 1 << 17;

/// Shared page: what the shard is doing right now, readable after its death.
pub struct Beacon {
    p: *mut u8,
}
impl Beacon {
    fn map(path: &Path) -> Beacon {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(BEACON_SZ as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                BEACON_SZ,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Beacon { p: p as *mut u8 }
    }
    fn set_state(&self, s: u64) {
        unsafe { std::ptr::write_volatile(self.p as *mut u64, s) }
    }
    fn state(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.p as *const u64) }
    }
    fn bump(&self) {
        unsafe {
            let q = self.p.add(8) as *mut u64;
            std::ptr::write_volatile(q, std::ptr::read_volatile(q) + 1)
        }
    }
    fn counter(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.p.add(8) as *const u64) }
    }
    fn set_desc(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(BEACON_SZ - 24);
        unsafe {
            std::ptr::write_volatile(self.p.add(16) as *mut u64, n as u64);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(24), n);
        }
    }
    fn desc(&self) -> String {
        unsafe {
            let n = (std::ptr::read_volatile(self.p.add(16) as *const u64) as usize).min(BEACON_SZ - 24);
            String::from_utf8_lossy(std::slice::from_raw_parts(self.p.add(24), n)).into_owned()
        }
    }
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    pub rng: Rng,
    pub dir: PathBuf,
    pub evals: u64,
    pub events: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
    pub viols: Vec<String>,
    notes: Vec<String>,
    beacon: Beacon,
    start: Instant,
    deadline: Instant,
    pub exhaustive: bool,
}

static IN_SUT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Panics of the code under test are expected and caught; only the harness's own are printed.
pub fn set_quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_SUT.load(std::sync::atomic::Ordering::Relaxed) {
            old(i)
        }
    }));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

impl Ctx {
    fn new(id: &str, thorough: bool, seed: u64, shard: usize, nshards: usize, dir: PathBuf) -> Ctx {
        let beacon = Beacon::map(&dir.join(format!("beacon.{}", shard)));
        let s = fnv(format!("{}/{}/{}", id, seed, shard).as_bytes());
        Ctx {
            id: id.into(),
            thorough,
            seed,
            shard,
            nshards,
            rng: Rng::new(s),
            dir,
            evals: 0,
            events: BTreeMap::new(),
            hashes: HashSet::new(),
            samples: Vec::new(),
            viols: Vec::new(),
            notes: Vec::new(),
            beacon,
            start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(if thorough { 420 } else { QUICK_S }),
            exhaustive: false,
        }
    }
    /// quick or thorough count
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        // quick runs take some ten seconds each
        let k = match self.id.as_str() {
            "E03" => 2400,
            "M01" => 1800,
            "E02" => 900,
            "E01" | "M02" | "M03" | "M05" | "M09" => 150,
            "E04" | "M07" | "A03" | "O07" => 240,
            "A06" => 160,
            "A05" | "E06" | "O08" => 100,
            "E05" => 300,
            "M04" | "A01" | "A04" => 60,
            "M06" => 20,
            "M10" => 90,
            "O01" => 45,
            "A10" | "O05" | "A02" | "O02" | "O03" | "O04" => 30,
            "M08" => 25,
            "A11" => 20,
            "A12" => 18,
            "A07" | "A09" | "A08" | "O06" => 14,
            _ => 6,
        };
        let total = if self.thorough { thorough.max(quick * k * 8) } else { quick * k };
        // MON_DIV: a fraction of the workload, for trying things out
        let div = std::env::var("MON_DIV").ok().and_then(|x| x.parse().ok()).unwrap_or(1usize).max(1);
        (total / div + self.nshards - 1) / self.nshards
    }
    /// What follows may use the time up to `pct` per cent of the run's: when the code under
    /// test is slow, every phase still gets its share.
    pub fn phase(&mut self, pct: u64) {
        let total = if self.thorough { 420 } else { QUICK_S };
        self.deadline = self.start + Duration::from_millis(total * 10 * pct);
    }
    /// true when the workload must stop: enough violations or out of time
    pub fn stop(&self) -> bool {
        self.viols.len() >= 3 || Instant::now() > self.deadline
    }
    /// this shard's share of an enumerated space
    pub fn mine(&self, i: usize) -> bool {
        i % self.nshards == self.shard
    }
    pub fn ev(&mut self, k: &str) {
        self.evn(k, 1)
    }
    pub fn evn(&mut self, k: &str, n: u64) {
        if let Some(v) = self.events.get_mut(k) {
            *v += n;
        } else {
            self.events.insert(k.to_string(), n);
        }
    }
    pub fn case(&mut self, h: u64) {
        self.evals += 1;
        if self.hashes.len() < 2_000_000 {
            self.hashes.insert(h);
        }
    }
    pub fn trivial(&mut self) {
        self.evals += 1;
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        // a few, spread out
        let k = self.samples.len();
        if k < 3 && self.evals >= [1u64, 50, 1000][k] {
            self.samples.push(clip(&f(), 1500));
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.notes.len() < 20 && !self.notes.contains(&s) {
            self.notes.push(s);
        }
    }
    pub fn viol(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.viols.push(s);
    }
    /// Run code under test in this process. Panics are caught; death and hangs are
    /// reported by the supervisor with `desc`.
    pub fn sut<T, D: FnOnce() -> String, F: FnOnce() -> T>(&self, desc: D, f: F) -> Result<T, String> {
        self.beacon.set_desc(&desc());
        self.beacon.bump();
        self.beacon.set_state(1);
        IN_SUT.store(true, std::sync::atomic::Ordering::Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        IN_SUT.store(false, std::sync::atomic::Ordering::Relaxed);
        self.beacon.set_state(0);
        r.map_err(panic_text)
    }
    /// progress without code under test in this process (workers supervise themselves)
    pub fn alive(&self) {
        self.beacon.bump();
    }

    fn finish(&self) {
        let mut o = String::new();
        o.push_str(&format!("evals {}\n", self.evals));
        for (k, v) in &self.events {
            o.push_str(&format!("ev {} {}\n", v, k));
        }
        for s in &self.samples {
            o.push_str(&format!("sample {}\n", jstr(s)));
        }
        for s in &self.notes {
            o.push_str(&format!("note {}\n", jstr(s)));
        }
        for s in &self.viols {
            o.push_str(&format!("viol {}\n", jstr(s)));
        }
        if self.exhaustive {
            o.push_str("exhaustive\n");
        }
        let mut hb = Vec::with_capacity(self.hashes.len() * 8);
        for h in &self.hashes {
            hb.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(self.dir.join(format!("hash.{}", self.shard)), hb).unwrap();
        std::fs::write(self.dir.join(format!("res.{}", self.shard)), o).unwrap();
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
    /// counters that must be positive for the run to mean anything
    pub must: &'static [&'static str],
}

fn unjstr(s: &str) -> String {
    // inverse of jstr for the text we wrote ourselves
    let mut o = String::new();
    let mut it = s[1..s.len() - 1].chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

pub fn shard_main(checks: &[Check], a: &[String]) -> i32 {
    let c = checks.iter().find(|c| c.id == a[0]).unwrap();
    let thorough = a[1] == "thorough";
    let mut ctx = Ctx::new(
        c.id,
        thorough,
        a[2].parse().unwrap(),
        a[3].parse().unwrap(),
        a[4].parse().unwrap(),
        PathBuf::from(&a[5]),
    );
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    set_quiet_panics();
    if std::env::var("MON_NOLIMIT").is_err() {
        limit_as(6 << 30);
    }
    (c.run)(&mut ctx);
    ctx.finish();
    0
}

fn kill_tree(ch: &mut std::process::Child) {
    let _ = ch.kill();
    let _ = ch.wait();
}

pub fn check_main(checks: &[Check], id: &str, tier: &str, seed: u64, verif: &Path) -> i32 {
    let c = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no such check {}", id);
            return 2;
        }
    };
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let nsh = std::env::var("MON_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 8 } else { 6 });
    let dir = std::env::temp_dir().join(format!("mon-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    // even shards run the checked build, odd ones the unchecked build
    let rel = std::env::var("MON_REL").map(PathBuf::from).ok().filter(|p| p.exists());
    let cli = |n: &str| std::env::var(n).ok();
    let mut kids = Vec::new();
    for k in 0..nsh {
        let odd = k % 2 == 1 && rel.is_some();
        let exe = if odd { rel.as_ref().unwrap() } else { &exe };
        let cli = if odd { cli("MON_CLI_REL").or(cli("MON_CLI")) } else { cli("MON_CLI") };
        let b = Beacon::map(&dir.join(format!("beacon.{}", k)));
        let errf = std::fs::File::create(dir.join(format!("stderr.{}", k))).unwrap();
        let mut cmd = Command::new(exe);
        if let Some(x) = cli {
            cmd.env("MON_CLI", x);
        }
        let ch = cmd
            .args(["shard", id, tier, &seed.to_string(), &k.to_string(), &nsh.to_string()])
            .arg(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(errf)
            .spawn()
            .unwrap();
        kids.push((k, ch, b, (0u64, 0u64), None::<i32>));
    }
    let mut viols: Vec<String> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let watchdog = Duration::from_secs(if thorough { 1500 } else { 600 });
    loop {
        let mut live = 0;
        for (k, ch, b, last, done) in kids.iter_mut() {
            if done.is_some() {
                continue;
            }
            match ch.try_wait().unwrap() {
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(sig) = st.signal() {
                        *done = Some(-sig);
                        if b.state() == 1 {
                            viols.push(format!("process killed by signal {} while running: {}", sig, b.desc()));
                        } else {
                            errors.push(format!("shard {} died of signal {} in the harness", k, sig));
                        }
                    } else {
                        *done = st.code();
                        if st.code() != Some(0) {
                            let e = std::fs::read_to_string(dir.join(format!("stderr.{}", k))).unwrap_or_default();
                            errors.push(format!("shard {} exit {:?}: {}", k, st.code(), clip(&e, 2000)));
                        }
                    }
                }
                None => {
                    live += 1;
                    let cnt = b.counter();
                    let cpu = cpu_ticks(ch.id()).unwrap_or(0);
                    if cnt != last.0 || b.state() == 0 {
                        *last = (cnt, cpu);
                    } else if cpu.saturating_sub(last.1) > 6000 {
                        // 60 s of CPU time inside one call that normally takes microseconds
                        viols.push(format!("no progress in 60 s of CPU time while running: {}", b.desc()));
                        kill_tree(ch);
                        *done = Some(-9);
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
        if t0.elapsed() > watchdog {
            for (_, ch, _, _, done) in kids.iter_mut() {
                if done.is_none() {
                    kill_tree(ch);
                }
            }
            errors.push("watchdog: run took too long (inconclusive)".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // merge
    let mut evals = 0u64;
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut notes: Vec<String> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut exhaustive = true;
    for k in 0..nsh {
        if let Ok(r) = std::fs::read_to_string(dir.join(format!("res.{}", k))) {
            let mut ex = false;
            for l in r.lines() {
                if let Some(v) = l.strip_prefix("evals ") {
                    evals += v.parse::<u64>().unwrap();
                } else if let Some(v) = l.strip_prefix("ev ") {
                    let (n, name) = v.split_once(' ').unwrap();
                    *events.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                } else if let Some(v) = l.strip_prefix("sample ") {
                    if samples.len() < 8 {
                        samples.push(v.to_string());
                    }
                } else if let Some(v) = l.strip_prefix("note ") {
                    if !notes.iter().any(|n| n == v) {
                        notes.push(v.to_string());
                    }
                } else if let Some(v) = l.strip_prefix("viol ") {
                    viols.push(unjstr(v));
                } else if l == "exhaustive" {
                    ex = true;
                }
            }
            exhaustive &= ex;
        } else {
            exhaustive = false;
        }
        if let Ok(h) = std::fs::read(dir.join(format!("hash.{}", k))) {
            for c in h.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // known findings: lines "known: property=<id> signature=<text>"
    let known = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let sigs: Vec<String> = known
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} signature=", id)).map(|s| s.to_string()))
        .collect();
    let mut printed: HashSet<String> = HashSet::new();
    viols.retain(|v| match sigs.iter().find(|s| v.starts_with(s.as_str())) {
        Some(s) => {
            if printed.insert(s.clone()) {
                println!("KNOWN-FINDING: property={} {}", id, s);
            }
            false
        }
        None => true,
    });
    if viols.is_empty() {
        for m in c.must {
            if events.get(*m).copied().unwrap_or(0) == 0 {
                errors.push(format!("nothing observed for '{}' (inconclusive)", m));
            }
        }
        if hashes.len() < 10 && errors.is_empty() {
            errors.push("almost nothing observed (inconclusive)".into());
        }
    }
    // evidence
    let mut ev = String::from("{\n");
    ev.push_str(&format!(
        " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n",
        jstr(id),
        jstr(tier),
        seed,
        jstr(c.level)
    ));
    ev.push_str(&format!(
        " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        evals,
        hashes.len(),
        jstr(c.rule)
    ));
    ev.push_str(&format!("  \"samples\": [{}],\n", samples.join(", ")));
    if exhaustive {
        ev.push_str("  \"exhaustive\": true,\n");
    }
    let evs: Vec<String> = events.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    ev.push_str(&format!("  \"observed\": {{{}}},\n", evs.join(", ")));
    ev.push_str(&format!("  \"shards\": {},\n  \"notes\": [{}]\n }},\n", nsh, notes.join(", ")));
    ev.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        c.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        viols.len()
    ));
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    if let Err(e) = std::fs::write(verif.join(format!("evidence/{}.json", id)), ev) {
        errors.push(format!("cannot write evidence: {}", e));
    }
    if !viols.is_empty() {
        let rd = verif.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{}-{:016x}.txt", id, fnv(viols[0].as_bytes())));
        let mut f = std::fs::File::create(&path).unwrap();
        let _ = writeln!(
            f,
            "property {}\nreplay: VERIF_SEED={} ./check.sh {} {}   (same seed regenerates the same workload)\n",
            id, seed, id, tier
        );
        for v in &viols {
            let _ = writeln!(f, "--- violation\n{}\n", v);
        }
        println!("VIOLATION property={} replay={}", id, path.display());
        for v in viols.iter().take(3) {
            println!("  {}", clip(v, 1200).replace('\n', "\n  "));
        }
        return 1;
    }
    println!(
        "{}: {} evaluations, {} distinct, {:.1}s; observed {}",
        id,
        evals,
        hashes.len(),
        t0.elapsed().as_secs_f64(),
        evs.join(", ")
    );
    for n in &notes {
        println!("  note {}", n);
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}", e);
        }
        return 3;
    }
    0
}
