//! E06, M09, O08: the value types the libraries hand out, over histories of operations.
use crate::core::*;
use crate::m::{V_FILETYPE, V_FLAG, V_NTYPE, V_PLATFORM, V_RLEN, V_SATTR, V_STYPE, V_TOOL};
use crate::objgen;
use crate::spec::*;
use crate::util::*;
use at_mac::header::*;
use at_mac::load_command::build_version::{Platform, Tool, Version};
use at_mac::load_command::segment64::{Section64, SectionAttr, SectionAttrs, SectionType};
use at_mac::nlist::{NType, NTypeField};
use at_mac::reloc::{RelocLength, X86RelocType, X86_64RelocType};
use at_obj::{Object, Symbol};
use at_x64::BytesAtMost;

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(panic_text)
}

// ---------------------------------------------------------------- E06

fn holds<const M: usize>(b: &BytesAtMost<M>, want: &[u8]) -> Result<(), String> {
    let got: &[u8] = b.as_ref();
    if got != want || b.len() != want.len() || b.is_empty() != want.is_empty() {
        return Err(format!("{} bytes (empty: {}) [{}], expected [{}]", b.len(), b.is_empty(), hex(got), hex(want)));
    }
    Ok(())
}
/// A buffer made in one of the ways there are, and what it is to hold; None: refused, as it must be.
fn made<const M: usize>(r: &mut Rng) -> Result<Option<(BytesAtMost<M>, Vec<u8>)>, String> {
    macro_rules! arr {
        ($r:expr, $($n:literal),*) => {{
            const NS: &[usize] = &[$($n),*];
            let n = *$r.pick(NS);
            match n {
                $($n => { let a: [u8; $n] = $r.bytes($n).try_into().unwrap(); (format!("from {:?}", a), a.to_vec(), quiet(|| BytesAtMost::<M>::from(a))) })*
                _ => unreachable!(),
            }
        }};
    }
    let v = r.edgy64();
    let (how, want, got) = match r.below(6) {
        0 => (format!("from {:#x}u8", v as u8), vec![v as u8], quiet(|| BytesAtMost::<M>::from(v as u8))),
        1 => (format!("from {:#x}u16", v as u16), (v as u16).to_le_bytes().to_vec(), quiet(|| BytesAtMost::<M>::from(v as u16))),
        2 => (format!("from {:#x}u32", v as u32), (v as u32).to_le_bytes().to_vec(), quiet(|| BytesAtMost::<M>::from(v as u32))),
        3 => (format!("from {:#x}u64", v), v.to_le_bytes().to_vec(), quiet(|| BytesAtMost::<M>::from(v))),
        4 => {
            let n = r.below(M + 3);
            (format!("of {} bytes", n), vec![0; n], quiet(|| BytesAtMost::<M>::with_len(n)))
        }
        _ => arr!(r, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33),
    };
    match (want.len() <= M, got) {
        (true, Ok(b)) => {
            holds(&b, &want).map_err(|e| format!("a buffer for {} bytes {} holds {}", M, how, e))?;
            Ok(Some((b, want)))
        }
        (true, Err(e)) => Err(format!("a buffer for {} bytes {} panics: {}", M, how, e)),
        (false, Ok(b)) => Err(format!("a buffer for {} bytes {} is made and holds [{}]", M, how, hex(b.as_ref()))),
        (false, Err(_)) => Ok(None),
    }
}
fn buffers<const M: usize>(c: &mut Ctx, n: usize) {
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let mut r = Rng::new(c.rng.next());
        let seed = r.next();
        c.case(seed ^ M as u64);
        let res = c.sut(
            || format!("a buffer for {} bytes, seed {}", M, seed),
            || -> Result<(u64, u64), String> {
                let mut r = Rng::new(seed);
                let mut all: Vec<(BytesAtMost<M>, Vec<u8>)> = Vec::new();
                let mut refused = 0;
                let mut log = Vec::new();
                let steps = r.range(1, 24);
                for _ in 0..steps {
                    if all.is_empty() || r.chance(1, 3) {
                        match made::<M>(&mut r)? {
                            Some(x) => all.push(x),
                            None => refused += 1,
                        }
                        log.push("make");
                        if all.is_empty() {
                            continue;
                        }
                    }
                    let i = r.below(all.len());
                    match r.below(4) {
                        0 => {
                            // a copy, changed: the other stays
                            let (mut b, mut w) = all[i].clone();
                            if !w.is_empty() {
                                let k = r.below(w.len());
                                let v = r.next() as u8;
                                b.as_mut()[k] = v;
                                w[k] = v;
                            }
                            all.push((b, w));
                            log.push("copy and change");
                        }
                        1 => {
                            let (b, w) = &mut all[i];
                            let m: &mut [u8] = b.as_mut();
                            if m.len() != w.len() {
                                return Err(format!("the writable part of a {} byte buffer has {} bytes (after {:?})", w.len(), m.len(), log));
                            }
                            let v = r.bytes(w.len());
                            m.copy_from_slice(&v);
                            *w = v;
                            log.push("overwrite");
                        }
                        2 => {
                            let (b, w) = &mut all[i];
                            if !w.is_empty() {
                                let k = r.below(w.len());
                                b.as_mut()[k] = b.as_ref()[k].wrapping_add(1);
                                w[k] = w[k].wrapping_add(1);
                            }
                            log.push("change a byte");
                        }
                        _ => {
                            // the same contents put together another way
                            let w = all[i].1.clone();
                            let mut b = BytesAtMost::<M>::with_len(w.len());
                            b.as_mut().copy_from_slice(&w);
                            all.push((b, w));
                            log.push("rebuild");
                        }
                    }
                    for (b, w) in &all {
                        holds(b, w).map_err(|e| format!("a buffer for {} bytes after {:?}: {}", M, log, e))?;
                    }
                    for (a, wa) in &all {
                        for (b, wb) in &all {
                            if (a == b) != (wa == wb) {
                                return Err(format!("buffers holding [{}] and [{}] compare equal: {} (after {:?})", hex(wa), hex(wb), a == b, log));
                            }
                        }
                    }
                }
                Ok((log.len() as u64, refused))
            },
        );
        match res {
            Ok(Ok((n, k))) => {
                c.evn("operations on buffers followed", n);
                c.evn("refused: more bytes than the buffer holds", k);
            }
            Ok(Err(e)) => c.viol(e),
            Err(e) => c.viol(format!("a buffer for {} bytes, seed {}: panics: {}", M, seed, e)),
        }
    }
}
pub fn e06(c: &mut Ctx) {
    let n = c.n(4000, 200_000);
    buffers::<0>(c, n / 8);
    buffers::<1>(c, n);
    buffers::<2>(c, n);
    buffers::<3>(c, n);
    buffers::<4>(c, n);
    buffers::<5>(c, n / 4);
    buffers::<7>(c, n / 4);
    buffers::<8>(c, n);
    buffers::<9>(c, n / 4);
    buffers::<15>(c, n);
    buffers::<16>(c, n);
    buffers::<32>(c, n / 4);
}

// ---------------------------------------------------------------- M09

/// the names in a printed set
fn names(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|x| !x.is_empty()).map(str::to_string).collect();
    v.sort();
    v.dedup();
    v
}
fn same_names<T: std::fmt::Debug>(shown: &str, members: &[T]) -> bool {
    let mut w: Vec<String> = members.iter().map(|m| format!("{:?}", m)).collect();
    w.sort();
    w.dedup();
    names(shown) == w
}
fn put<S, M: Copy + std::fmt::Debug>(
    c: &mut Ctx,
    what: &str,
    members: &[(M, u32)],
    mask: u32,
    ops: (&dyn Fn() -> S, &dyn Fn(&mut S, M), &dyn Fn(u32) -> S, &dyn Fn(&S) -> u32, &dyn Fn(&S) -> String, &dyn Fn(&S) -> String),
) -> Option<(S, u32)> {
    let (new, push, from, to, show, show2) = ops;
    let mut r = Rng::new(c.rng.next());
    let start: u32 = if r.chance(1, 2) { 0 } else { members.iter().filter(|_| r.chance(1, 3)).map(|m| m.1).sum() };
    // bits outside the set's share of the word are another's
    let noise = if r.chance(1, 2) { r.next() as u32 & !mask } else { 0 };
    let empty = start == 0 && r.chance(1, 2);
    let few = r.range(1, members.len());
    let first = r.below(members.len());
    let adds: Vec<(M, u32)> = (0..r.below(24)).map(|_| members[(first + r.below(few)) % members.len()]).collect();
    let desc = format!("a set of {} {} then {:?}", what, if empty { "new".to_string() } else { format!("from {:#x}", start | noise) }, adds.iter().map(|a| a.0).collect::<Vec<_>>());
    c.case(fnv(desc.as_bytes()));
    c.sample(|| desc.clone());
    let res = c.sut(
        || desc.clone(),
        || -> Result<(S, u32, u64), String> {
            let mut s = if empty { new() } else { from(start | noise) };
            let mut bits = start;
            let mut has: Vec<M> = members.iter().filter(|m| start & m.1 != 0).map(|m| m.0).collect();
            let look = |s: &S, bits: u32, has: &[M], k: usize| -> Result<(), String> {
                if to(s) != bits {
                    return Err(format!("after {} additions it converts to {:#x}, expected {:#x}", k, to(s), bits));
                }
                for sh in [show(s), show2(s)] {
                    if !same_names(&sh, has) {
                        return Err(format!("after {} additions it shows as {}, its members are {:?}", k, sh, has));
                    }
                }
                if to(&from(bits)) != bits {
                    return Err(format!("{:#x} converted to a set and back is {:#x}", bits, to(&from(bits))));
                }
                Ok(())
            };
            look(&s, bits, &has, 0)?;
            for (k, a) in adds.iter().enumerate() {
                push(&mut s, a.0);
                bits |= a.1;
                has.push(a.0);
                look(&s, bits, &has, k + 1)?;
            }
            Ok((s, bits, adds.len() as u64 + 1))
        },
    );
    match res {
        Ok(Ok((s, bits, k))) => {
            c.evn("sets compared with their members", k);
            Some((s, bits))
        }
        Ok(Err(e)) => {
            c.viol(format!("{}: {}", desc, e));
            None
        }
        Err(e) => {
            c.viol(format!("{}: panics: {}", desc, e));
            None
        }
    }
}
/// every number of a code type: the ones listed convert there and back, the others are refused
fn code<T: std::fmt::Debug + PartialEq>(c: &mut Ctx, what: &str, list: &[(T, u32)], n: u32, from: &dyn Fn(u32) -> T, to: Option<&dyn Fn(T) -> u32>) {
    let res = c.sut(|| format!("{} {:#x}", what, n), || quiet(|| from(n)));
    let got = match res {
        Ok(x) => x,
        Err(e) => Err(e),
    };
    match (got, list.iter().find(|x| x.1 == n)) {
        (Ok(v), Some((w, _))) if v == *w => {
            if let Some(to) = to {
                match quiet(|| to(v)) {
                    Ok(k) if k == n => (),
                    o => return c.viol(format!("{} {:?} has number {:x?}, expected {:#x}", what, w, o, n)),
                }
            }
            c.ev("codes converted there and back")
        }
        (Ok(v), Some((w, _))) => c.viol(format!("number {:#x} is the {} {:?}, expected {:?}", n, what, v, w)),
        (Ok(v), None) => c.viol(format!("number {:#x} is no known {}, it becomes {:?}", n, what, v)),
        (Err(e), Some((w, _))) => c.viol(format!("number {:#x} is the {} {:?}, converting it panics: {}", n, what, w, e)),
        (Err(_), None) => c.ev("refused: numbers that are no code"),
    }
}
pub fn m09(c: &mut Ctx) {
    let z = |v: &[u32]| v.to_vec();
    let filetypes: Vec<(FileType, u32)> = V_FILETYPE.into_iter().zip(z(&FILETYPES)).collect();
    let flags: Vec<(Flag, u32)> = V_FLAG.into_iter().zip(z(&FLAGS)).collect();
    let stypes: Vec<(SectionType, u32)> = V_STYPE.into_iter().zip(z(&SECTTYPES)).collect();
    let attrs: Vec<(SectionAttr, u32)> = V_SATTR.into_iter().zip(z(&SECTATTRS)).collect();
    let platforms: Vec<(Platform, u32)> = V_PLATFORM.into_iter().zip(1u32..).collect();
    let tools: Vec<(Tool, u32)> = V_TOOL.into_iter().zip(1u32..).collect();
    let ntypes: Vec<(NType, u32)> = V_NTYPE.into_iter().zip([0u32, 2, 0xa, 0xc, 0xe]).collect();
    let rlens: Vec<(RelocLength, u32)> = V_RLEN.into_iter().zip(0u32..).collect();
    let magics = vec![
        (Magic::Magic64, 0xfeed_facf),
        (Magic::Cigam64, 0xcffa_edfe),
        (Magic::Magic, 0xfeed_face),
        (Magic::Cigam, 0xcefa_edfe),
        (Magic::FatMagic, 0xcafe_babe),
        (Magic::FatCigam, 0xbeba_feca),
    ];
    let x86rel = {
        use X86RelocType::*;
        vec![(Vanilla, 0), (Pair, 1), (Sectdiff, 2), (PbLaPtr, 3), (LocalSectdiff, 4), (Tlv, 5)]
    };
    let x64rel = {
        use X86_64RelocType::*;
        vec![(Unsigned, 0), (Signed, 1), (Branch, 2), (GotLoad, 3), (Got, 4), (Subtractor, 5), (Signed1, 6), (Signed2, 7), (Signed4, 8), (Tlv, 9)]
    };
    c.phase(35);
    // codes: every small number, every single bit, and numbers near and derived from known ones
    let one = |c: &mut Ctx, n: u32| {
        code(c, "file type", &filetypes, n, &FileType::from_u32, Some(&|v: FileType| v.to_u32()));
        code(c, "flag", &flags, n, &Flag::from_u32, Some(&|v: Flag| v.to_u32()));
        code(c, "section attribute", &attrs, n, &SectionAttr::from_u32, Some(&|v: SectionAttr| v.to_u32()));
        code(c, "platform", &platforms, n, &Platform::from_u32, Some(&|v: Platform| v.to_u32()));
        code(c, "tool", &tools, n, &Tool::from_u32, Some(&|v: Tool| v.to_u32()));
        code(c, "relocation length", &rlens, n, &RelocLength::from_u32, Some(&|v: RelocLength| v.to_u32()));
        code(c, "section type", &stypes, n & 0xff, &SectionType::from_u32, Some(&|v: SectionType| v.to_u32()));
        code(c, "magic number", &magics, n, &Magic::from_u32, Some(&|v: Magic| v.to_u32()));
        code(c, "magic number", &magics, n, &|n| Magic::from_u32_checked(n).unwrap(), None);
        // the kind of processor: two numbers
        let x86 = [(CpuType::X86(CpuSubTypeX86::All), 7), (CpuType::X86_64(CpuSubTypeX86_64::All), 0x0100_0007)];
        code(c, "processor (subtype 3)", &x86, n, &|n| CpuType::from_i32_i32(n as i32, 3), Some(&|v: CpuType| v.to_i32_i32().0 as u32));
        for (t, k) in x86 {
            code(c, "processor subtype", &[(t, 3)], n, &|n| CpuType::from_i32_i32(k as i32, n as i32), Some(&|v: CpuType| v.to_i32_i32().1 as u32));
        }
        if n < 256 {
            code(c, "x86 relocation type", &x86rel, n, &|n| X86RelocType::from_u8(n as u8), Some(&|v: X86RelocType| v.to_u8() as u32));
            code(c, "x86-64 relocation type", &x64rel, n, &|n| X86_64RelocType::from_u8(n as u8), Some(&|v: X86_64RelocType| v.to_u8() as u32));
            code(c, "symbol type", &ntypes, n, &|n| NType::from_u8(n as u8), Some(&|v: NType| v.to_u8() as u32));
            if n & 0xe0 == 0 && ntypes.iter().any(|t| t.1 == n & 0xe) {
                match c.sut(|| format!("symbol kind {:#x}", n), || (NTypeField::from_u8(n as u8), NTypeField::from_u8(n as u8).to_u8())) {
                    Ok((NTypeField::Norm { n_pext, n_type, n_ext }, b))
                        if b as u32 == n && n_pext == (n & 0x10 != 0) && n_ext == (n & 1 != 0) && ntypes.iter().any(|t| t.0 == n_type && t.1 == n & 0xe) =>
                    {
                        c.ev("codes converted there and back")
                    }
                    o => c.viol(format!("symbol kind {:#x} becomes {:x?}", n, o)),
                }
            }
        }
    };
    for k in 0..0x1200u32 {
        if c.mine(k as usize) && !c.stop() {
            c.case(k as u64);
            one(c, k);
        }
    }
    for i in 0..magics.len() {
        for b in 0..33 {
            if c.mine(i) && !c.stop() {
                let n = magics[i].1 ^ (1u64 << b) as u32;
                c.case(n as u64);
                one(c, n);
            }
        }
    }
    for i in 0..32 {
        for d in -1i64..=1 {
            if c.mine(i) && !c.stop() {
                let n = ((1i64 << i) + d) as u32;
                c.case(n as u64);
                one(c, n);
            }
        }
    }
    let n = c.n(300, 100_000);
    for _ in 0..n {
        if c.stop() {
            break;
        }
        let mut n = *c.rng.pick(&[1u32, 2, 4, 5, 8, 9, 0xa, 0x1000, 0x0080_0000, 0x8000_0000]);
        n = match c.rng.below(4) {
            0 => n ^ (1 << c.rng.below(32)),
            1 => n.swap_bytes() ^ c.rng.below(2) as u32,
            2 => n | n.rotate_left(c.rng.below(32) as u32),
            _ => c.rng.edgy32(),
        };
        c.case(n as u64);
        one(c, n);
    }
    // versions: three numbers in one
    let n = c.n(3000, 100_000);
    c.phase(45);
    for _ in 0..n {
        if c.stop() {
            break;
        }
        let v = c.rng.edgy32();
        c.case(v as u64 | 1 << 40);
        match c.sut(|| format!("version {:#x}", v), || (Version::from_u32(v), Version::from_u32(v).to_u32())) {
            Ok((w, b)) if b == v && w.major == (v >> 16) as u16 && w.minor == (v >> 8) as u8 && w.release == v as u8 => c.ev("versions split and joined"),
            o => c.viol(format!("version number {:#x} becomes {:x?}", v, o)),
        }
    }
    c.phase(100);
    let n = c.n(1500, 400_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let f = put::<Flags, Flag>(
            c,
            "header flags",
            &flags,
            u32::MAX,
            (&Flags::new, &|s, m| s.push(m), &Flags::from_u32, &|s| s.to_u32(), &|s| format!("{:?}", s), &|s| format!("{:#?}", s)),
        );
        if let Some((f, bits)) = f {
            // in a header, written and read
            let mut h = gen_header(&mut c.rng);
            h.flags = bits;
            let mut v = crate::m::to_header(&h);
            v.flags = f.clone();
            let want = h.ser(false);
            let r = c.sut(
                || format!("header with flags {:?}", f),
                || {
                    let mut b = Vec::new();
                    v.write_into(&mut b);
                    let back = Header64::read_from(&mut &b[..]).0.flags.to_u32();
                    (b, back)
                },
            );
            match r {
                Ok((b, back)) if b == want && back == bits => c.ev("sets written and read again"),
                o => c.viol(format!("header flags {:?} ({:#x}) are written and read as {:x?}\nexpected {}", f, bits, o, hex(&want))),
            }
        }
        if c.stop() {
            return;
        }
        let a = put::<SectionAttrs, SectionAttr>(
            c,
            "section attributes",
            &attrs,
            SectionAttrs::BIT_MASK,
            (&SectionAttrs::new, &|s, m| s.push(m), &SectionAttrs::from_u32, &|s| s.to_u32(), &|s| format!("{:?}", s), &|s| format!("{:#?}", s)),
        );
        if let Some((a, bits)) = a {
            let mut h = gen_sect(&mut c.rng);
            let host = {
                let mut h = gen_header(&mut c.rng);
                h.magic = 0xfeed_facf;
                h.ser(false)
            };
            h.flags = h.flags & 0xff | bits;
            let mut v = crate::m::to_sect(&h);
            v.flags.0 = a.clone();
            let want = h.ser(false);
            let r = c.sut(
                || format!("section with attributes {:?}", a),
                || {
                    let mut b = Vec::new();
                    v.write_into(&mut b);
                    let order = Header64::read_from(&mut &host[..]).1;
                    let back = Section64::read_from_in(&mut &b[..], order).flags.0.to_u32();
                    (b, back)
                },
            );
            match r {
                Ok((b, back)) if b == want && back == bits => c.ev("sets written and read again"),
                o => c.viol(format!("section attributes {:?} ({:#x}) are written and read as {:x?}\nexpected {}", a, bits, o, hex(&want))),
            }
        }
    }
}

// ---------------------------------------------------------------- O08

#[derive(Clone, Default)]
struct Model {
    text: (Vec<u8>, Vec<Symbol>),
    data: (Vec<u8>, Vec<Symbol>),
    bss: (u64, Vec<Symbol>),
}
impl Model {
    fn syms(&mut self, k: usize) -> &mut Vec<Symbol> {
        match k {
            0 => &mut self.text.1,
            1 => &mut self.data.1,
            _ => &mut self.bss.1,
        }
    }
    fn len(&self, k: usize) -> u64 {
        match k {
            0 => self.text.0.len() as u64,
            1 => self.data.0.len() as u64,
            _ => self.bss.0,
        }
    }
}
fn osyms(o: &mut Object, k: usize) -> &mut Vec<Symbol> {
    match k {
        0 => &mut o.sections.text.symbols,
        1 => &mut o.sections.data.symbols,
        _ => &mut o.sections.bss.symbols,
    }
}
fn sorted(v: impl Iterator<Item = String>) -> Vec<String> {
    let mut v: Vec<String> = v.collect();
    v.sort();
    v
}
fn agrees(o: &mut Object, m: &Model) -> Result<(), String> {
    let all: Vec<&Symbol> = m.text.1.iter().chain(&m.data.1).chain(&m.bss.1).collect();
    let want = sorted(all.iter().map(|s| format!("{:?}", s)));
    let got = sorted(o.symbols().map(|s| format!("{:?}", s)));
    if got != want {
        return Err(format!("its symbols are {:?}\nexpected {:?}", got, want));
    }
    let got = sorted(o.symbols_mut().map(|s| format!("{:?}", s)));
    if got != want {
        return Err(format!("its symbols to be changed are {:?}\nexpected {:?}", got, want));
    }
    let names = sorted(o.symbols().map(|s| s.name().to_string()));
    #[allow(unreachable_patterns)]
    let wnames = sorted(all.iter().map(|s| match s {
        Symbol::Undef { name } | Symbol::Abs { name, .. } | Symbol::Ref { name, .. } => name.clone(),
        s => s.name().to_string(),
    }));
    if names != wnames {
        return Err(format!("the names of its symbols are {:?}\nexpected {:?}", names, wnames));
    }
    let s = o.sections();
    if s.text.bytes != m.text.0 || s.data.bytes != m.data.0 || s.bss.size != m.bss.0 {
        return Err(format!("its sections have {} / {} / {} bytes, expected {} / {} / {}", s.text.bytes.len(), s.data.bytes.len(), s.bss.size, m.text.0.len(), m.data.0.len(), m.bss.0));
    }
    if s.text.symbols != m.text.1 || s.data.symbols != m.data.1 || s.bss.symbols != m.bss.1 {
        return Err("the symbols of its sections are others".to_string());
    }
    if !s.text.relocs.is_empty() || !s.data.relocs.is_empty() {
        return Err("it has relocations nobody added".to_string());
    }
    Ok(())
}
fn bytes_of(o: &Object) -> Result<Vec<u8>, String> {
    quiet(|| {
        let mut b = Vec::new();
        at_obj::macho::write_into(o, &mut b);
        b
    })
}
pub fn o08(c: &mut Ctx) {
    let n = c.n(3000, 400_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let seed = c.rng.next();
        let mut log: Vec<String> = Vec::new();
        let steps = if c.rng.chance(1, 10) { c.rng.range(30, 120) } else { c.rng.range(0, 14) };
        let res = c.sut(
            || format!("a history of {} steps, seed {}", steps, seed),
            || -> Result<(u64, u64), String> {
                let mut r = Rng::new(seed);
                let mut o = Object::new();
                let mut m = Model::default();
                let mut used: Vec<String> = Vec::new();
                let mut edits = 0;
                agrees(&mut o, &m).map_err(|e| format!("a new object: {}", e))?;
                for _ in 0..steps {
                    let k = r.below(3);
                    let len = m.len(k);
                    let any = |r: &mut Rng, used: &mut Vec<String>| {
                        let nm = objgen::name(r, used, false);
                        match r.below(4) {
                            0 => Symbol::Undef { name: nm },
                            1 => Symbol::Abs { name: nm, val: r.edgy64(), ext: r.chance(1, 2) },
                            _ => Symbol::Ref { name: nm, addr: r.next() % (len + 1), ext: r.chance(1, 2) },
                        }
                    };
                    match r.below(9) {
                        0 | 1 => {
                            let n = r.below(20);
                            let b = r.bytes(n);
                            log.push(format!("{} bytes to section {}", b.len(), k));
                            match k {
                                0 => {
                                    o.sections.text.bytes.extend_from_slice(&b);
                                    m.text.0.extend_from_slice(&b)
                                }
                                1 => {
                                    o.sections.data.bytes.extend_from_slice(&b);
                                    m.data.0.extend_from_slice(&b)
                                }
                                _ => {
                                    o.sections.bss.size += b.len() as u64;
                                    m.bss.0 += b.len() as u64
                                }
                            }
                        }
                        2 | 3 | 4 => {
                            let s = any(&mut r, &mut used);
                            log.push(format!("{:?} to section {}", s, k));
                            let at = r.below(m.syms(k).len() + 1);
                            osyms(&mut o, k).insert(at, s.clone());
                            m.syms(k).insert(at, s);
                        }
                        5 if !m.syms(k).is_empty() => {
                            let at = r.below(m.syms(k).len());
                            log.push(format!("drop symbol {} of section {}", at, k));
                            osyms(&mut o, k).remove(at);
                            m.syms(k).remove(at);
                        }
                        6 | 7 => {
                            // change one of the symbols, found by its name
                            let names: Vec<String> = o.symbols().map(|s| s.name().to_string()).collect();
                            if names.is_empty() {
                                continue;
                            }
                            let nm = r.pick(&names).clone();
                            let vis = r.chance(1, 2);
                            let new = format!("{}{}", nm, r.pick(&["", "", "_", "x"]));
                            let new = if names.contains(&new) { nm.clone() } else { new };
                            log.push(format!("{} becomes {} (external: {})", nm, new, vis));
                            let mut hits = 0;
                            for s in o.symbols_mut().filter(|s| s.name() == nm) {
                                hits += 1;
                                #[allow(unreachable_patterns)]
                                match s {
                                    Symbol::Undef { name } => *name = new.clone(),
                                    Symbol::Abs { name, ext, .. } | Symbol::Ref { name, ext, .. } => {
                                        *name = new.clone();
                                        *ext = vis;
                                    }
                                    _ => (),
                                }
                            }
                            for k in 0..3 {
                                for s in m.syms(k).iter_mut() {
                                    match s {
                                        Symbol::Undef { name } if *name == nm => *name = new.clone(),
                                        Symbol::Abs { name, ext, .. } | Symbol::Ref { name, ext, .. } if *name == nm => {
                                            *name = new.clone();
                                            *ext = vis;
                                        }
                                        _ => (),
                                    }
                                }
                            }
                            if hits != names.iter().filter(|x| **x == nm).count() {
                                return Err(format!("{:?}: {} symbols named {:?} found to change", log, hits, nm));
                            }
                            edits += hits as u64;
                            used.push(new);
                        }
                        _ => {
                            // written in between: nothing changes
                            let _ = bytes_of(&o)?;
                            log.push("write".into());
                        }
                    }
                    agrees(&mut o, &m).map_err(|e| format!("after {:?}: {}", log, e))?;
                }
                // the file shows the object as it is now, whatever it was before
                let mut f = Object::new();
                f.sections.text.bytes = m.text.0.clone();
                f.sections.text.symbols = m.text.1.clone();
                f.sections.data.bytes = m.data.0.clone();
                f.sections.data.symbols = m.data.1.clone();
                f.sections.bss.size = m.bss.0;
                f.sections.bss.symbols = m.bss.1.clone();
                let (a, b) = (bytes_of(&o)?, bytes_of(&f)?);
                if a != b {
                    return Err(format!("after {:?} the file differs from that of an object put together afresh:\n {}\n {}", log, clip(&hex(&a), 3000), clip(&hex(&b), 3000)));
                }
                Ok((steps as u64, edits))
            },
        );
        c.case(fnv(format!("{:?}", log).as_bytes()));
        c.sample(|| format!("{:?}", log));
        match res {
            Ok(Ok((k, e))) => {
                c.evn("steps after which the object held exactly its contents", k);
                c.evn("symbols changed in place", e);
                c.ev("files of edited objects equal to those of fresh ones");
            }
            Ok(Err(e)) => c.viol(e),
            Err(e) => c.viol(format!("after {:?}: panics: {}", log, e)),
        }
    }
}
