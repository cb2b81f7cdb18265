//! M10: memory and time taken by readers and writers, measured by a counting allocator.
use crate::core::*;
use crate::m::*;
use crate::objgen;
use crate::spec::*;
use crate::util::*;
use at_mac::header::Header64;
use at_mac::load_command::LoadCommand;
use at_mac::string_table::StringTable;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts, per thread and only while asked to, the bytes held at once.
struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn count(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                l.set(l.get() + n);
                PEAK.with(|p| p.set(p.get().max(l.get())));
            })
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new may exist at once
        count(n as i64);
        count(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        ON.with(|o| o.set(false));
    }
}
/// the most bytes held at once while `f` ran
fn measured<T>(f: impl FnOnce() -> T) -> T {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    ON.with(|o| o.set(true));
    let _off = Off;
    f()
}
fn peak() -> u64 {
    PEAK.with(|p| p.get()).max(0) as u64
}

/// delivers bytes and counts them, and the calls after the end
struct Source<'a> {
    b: &'a [u8],
    pos: usize,
    after: u64,
    chunk: usize,
}
impl<'a> std::io::Read for Source<'a> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let n = o.len().min(self.b.len() - self.pos).min(self.chunk);
        if n == 0 && !o.is_empty() {
            self.after += 1;
        }
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// takes bytes, keeps none
struct Sink(u64);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// room for buffers of fixed size, panic messages, and growth by doubling of values several times larger than
/// what they are read from
fn allowance(bytes: u64) -> u64 {
    (4 << 20) + 64 * bytes
}
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
/// seconds for so many bytes: a hundred times what is needed
fn time_for(bytes: u64) -> f64 {
    3.0 + bytes as f64 * 5e-7
}

fn judge_read(c: &mut Ctx, what: &str, b: &[u8], be: bool, header: bool) -> bool {
    let chunk = if c.rng.chance(1, 3) { c.rng.range(1, 9) } else { usize::MAX };
    let mut s = Source { b, pos: 0, after: 0, chunk };
    // the byte order comes from a header, as it does in a file
    let h = RawHeader { magic: 0xfeed_facf, cputype: 0x0100_0007, cpusub: 3, filetype: 1, ncmds: 1, sizeofcmds: 0, flags: 0, reserved: 0 }.ser(be);
    let e = Header64::read_from(&mut &h[..]).1;
    let t = cpu();
    let r = c.sut(
        || format!("reading {} ({} bytes available, big-endian {}): {}", what, b.len(), be, hex(&b[..b.len().min(120)])),
        || {
            measured(|| {
                if header {
                    drop(Header64::read_from(&mut s));
                } else {
                    drop(LoadCommand::read_from_in(&mut s, e));
                }
            })
        },
    );
    let (used, took) = (peak(), cpu() - t);
    let show = |m: String| format!("{}, {} bytes available (big-endian {}): {}: {}", what, b.len(), be, m, hex(&b[..b.len().min(120)]));
    if used > allowance(s.pos as u64) {
        c.viol(show(format!("{} bytes of memory held at once for {} bytes read", used, s.pos)));
    } else if s.after > 1000 {
        c.viol(show(format!("{} reads after the end of the input", s.after)));
    } else if took > time_for(b.len() as u64) {
        c.viol(show(format!("{:.1} s for {} bytes", took, s.pos)));
    }
    r.is_ok()
}

fn announce(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 1 << r.range(8, 31),
        1 => u32::MAX - r.below(3) as u32,
        // the most whose size the size field can say
        2 => 53_687_090 - r.below(3) as u32,
        3 => 536_870_908 - r.below(3) as u32,
        4 => r.range(100, 1_000_000) as u32,
        _ => r.edgy32(),
    }
}

pub fn m10(c: &mut Ctx) {
    unsafe {
        // an allocation of what a hostile file announces must not harm this machine
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    // announced numbers far beyond the input
    c.phase(40);
    let n = c.n(4000, 400_000);
    for _ in 0..n {
        if c.stop() {
            break;
        }
        let be = c.rng.chance(1, 2);
        let many = announce(&mut c.rng);
        let mut x = gen_cmd(&mut c.rng);
        match &mut x {
            RawCmd::Segment { cmdsize, nsects, .. } => {
                *nsects = many;
                *cmdsize = (72 + 80 * many as u64) as u32;
            }
            RawCmd::Build { cmdsize, ntools, .. } => {
                *ntools = many;
                *cmdsize = (24 + 8 * many as u64) as u32;
            }
            RawCmd::Symtab { cmdsize, .. } | RawCmd::Dysymtab { cmdsize, .. } => {
                if c.rng.chance(1, 2) {
                    *cmdsize = many;
                }
            }
        }
        let mut b = x.ser(be);
        if c.rng.chance(1, 4) {
            // a size that goes with nothing, or anything at all behind a known number
            let k = c.rng.range(4, b.len() - 1);
            for v in b[4..].iter_mut().skip(if k % 2 == 0 { 4 } else { 0 }).take(k) {
                if c.rng.chance(1, 3) {
                    *v = *c.rng.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x33]);
                }
            }
        }
        if c.rng.chance(1, 3) {
            let k = c.rng.range(1, b.len());
            b.truncate(k);
        }
        c.case(fnv(&b) ^ be as u64);
        c.sample(|| format!("{} announcing {} with {} bytes behind it", x.kind(), many, b.len()));
        let ok = judge_read(c, &format!("a {} command announcing {}", x.kind(), many), &b, be, false);
        c.ev(if ok { "commands read" } else { "hostile commands refused at the cost of their bytes" });
        if c.rng.chance(1, 10) {
            let mut b = RawHeader { magic: 0xfeed_facf, cputype: 7, cpusub: 3, filetype: 1, ncmds: many, sizeofcmds: many, flags: 0, reserved: many }.ser(be);
            if c.rng.chance(1, 2) {
                let k = c.rng.below(b.len());
                b.truncate(k);
            }
            judge_read(c, "a header", &b, be, true);
            c.ev("headers read");
        }
    }
    // as much as announced: in proportion
    c.phase(60);
    let n = c.n(30, 2000);
    for k in 0..n {
        if c.stop() {
            break;
        }
        let be = k % 2 == 1;
        let count = c.rng.range(100, 6000);
        let x = if c.rng.chance(2, 3) {
            let t = gen_sect(&mut c.rng);
            let sects: Vec<RawSect> = (0..count).map(|_| if c.rng.chance(1, 2) { t.clone() } else { gen_sect(&mut c.rng) }).collect();
            RawCmd::Segment { cmdsize: 72 + 80 * count as u32, segname: String::new(), q: [0; 4], prot: [7, 7], nsects: count as u32, flags: 0, sects }
        } else {
            let count = count * 8;
            RawCmd::Build { cmdsize: 24 + 8 * count as u32, platform: 1, minos: 0, sdk: 0, ntools: count as u32, tools: vec![(3, 7); count] }
        };
        let b = x.ser(be);
        c.case(fnv(&b) ^ be as u64);
        if judge_read(c, &format!("a {} command of {} entries", x.kind(), count), &b, be, false) {
            c.ev("large commands read in proportion");
        }
        let v = to_cmd(&x);
        let mut w = Sink(0);
        let t = cpu();
        let r = c.sut(|| format!("writing a {} command of {} entries", x.kind(), count), || measured(|| v.write_into(&mut w)));
        if r.is_err() || w.0 != b.len() as u64 {
            c.ev("structures not written (another property's matter)");
        } else if peak() > allowance(w.0) || cpu() - t > time_for(w.0) {
            c.viol(format!("writing a {} command of {} entries: {} bytes held at once, {:.1} s for {} bytes", x.kind(), count, peak(), cpu() - t, w.0));
        } else {
            c.ev("large commands written in proportion");
        }
    }
    // string tables
    c.phase(70);
    let n = c.n(20, 1000);
    for _ in 0..n {
        if c.stop() {
            break;
        }
        let count = c.rng.range(1, 20_000);
        let one: String = "n".repeat(c.rng.range(0, 40));
        let long: String = "l".repeat(c.rng.range(1, 2_000_000));
        let size = (count * (one.len() + 1) + long.len() + 2) as u64;
        c.case(fnv(format!("{} {} {}", count, one.len(), long.len()).as_bytes()));
        let t = cpu();
        let r = c.sut(
            || format!("a string table of {} times {:?} and one of {} characters", count, one, long.len()),
            || {
                measured(|| {
                    let mut t = StringTable::with_null();
                    t.push_with_null(&long);
                    for _ in 0..count {
                        t.push_with_null(&one);
                    }
                    t.len() as u64 + t.get(1).len() as u64 * 0 + t.iter().count() as u64 * 0
                })
            },
        );
        match r {
            Ok(len) if len == size => {
                if peak() > allowance(size) || cpu() - t > time_for(size) {
                    c.viol(format!("a string table of {} bytes took {} bytes of memory and {:.1} s", size, peak(), cpu() - t));
                }
                c.ev("large string tables in proportion");
            }
            _ => c.ev("string tables not built (another property's matter)"),
        }
    }
    // objects: zero-initialised space weighs nothing, entries weigh what they write
    c.phase(100);
    let n = c.n(120, 8000);
    for k in 0..n {
        if c.stop() {
            return;
        }
        let size = if c.rng.chance(1, 2) { objgen::Size::Small } else { objgen::Size::Medium };
        let s = objgen::gen(&mut c.rng, size);
        let mut o = objgen::build(&s);
        let used = o.sections.text.bytes.len() as u64 + o.sections.data.bytes.len() as u64;
        let space = match k % 3 {
            0 => 1 << c.rng.range(20, 62),
            1 => (1u64 << 63) - 1,
            _ => c.rng.range(1, 1 << 40) as u64,
        };
        o.sections.bss.size = space.max(s.bss_size).min(u64::MAX - used);
        let named = s.all_syms().iter().map(|y| y.name().len() as u64 + 40).sum::<u64>() + 16 * (s.text.rels.len() + s.data.rels.len()) as u64;
        let mut entries = 0;
        if k % 4 == 0 {
            // a great many symbols and relocations
            entries = if k == 0 { 250_000 } else { c.rng.range(2000, 15_000) };
            o.sections.text.bytes.resize(o.sections.text.bytes.len() + 8, 0);
            for i in 0..entries {
                o.sections.text.symbols.push(at_obj::Symbol::Ref { name: format!("m{}_{}", k, i), addr: 0, ext: i % 2 == 0 });
            }
            for i in 0..entries {
                o.sections.text.relocs.push(at_obj::Reloc { addr: 0, symbol: format!("m{}_{}", k, entries - 1 - i), pcrel: false, len: 3 });
            }
        }
        let d = format!("an object of {} bytes, {} bytes of zero-initialised space and {} more symbols and relocations", used, o.sections.bss.size, entries);
        c.case(fnv(format!("{} {}", d, s.key()).as_bytes()));
        c.sample(|| d.clone());
        let mut w = Sink(0);
        let t = cpu();
        let r = c.sut(|| format!("writing {}", d), || measured(|| at_obj::macho::write_into(&o, &mut w)));
        let took = cpu() - t;
        match r {
            Ok(()) => {
                // what the file must hold, not what was written: space written out would weigh nothing else
                let weight = 1000 + 2 * used + named + entries as u64 * 48;
                if peak() > allowance(weight) || took > time_for(weight) || w.0 > 4 * weight {
                    c.viol(format!("{}: a file of {} bytes, {} bytes of memory held at once, {:.1} s", d, w.0, peak(), took));
                }
                c.ev(if entries > 0 { "objects with many entries written in proportion" } else { "objects with vast zero-initialised space written" });
            }
            Err(_) => c.ev("objects refused"),
        }
    }
}
