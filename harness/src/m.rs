//! M01-M06: the Mach-O structure codecs, streams and the string table.
use crate::core::*;
use crate::spec::*;
use crate::util::*;
use crate::worker::*;
use at_mac::header::*;
use at_mac::load_command::build_version::{Platform, Tool, Version};
use at_mac::load_command::segment64::{SectionAttr, SectionAttrs, SectionType};
use at_mac::load_command::*;
use at_mac::nlist::*;
use at_mac::reloc::*;
use at_mac::string_table::StringTable;

pub const V_FILETYPE: [FileType; 9] = [
    FileType::Object,
    FileType::Execute,
    FileType::FVMLib,
    FileType::Core,
    FileType::Preload,
    FileType::Dylib,
    FileType::Dylinker,
    FileType::Bundle,
    FileType::Dsym,
];
pub const V_FLAG: [Flag; 16] = [
    Flag::NoUndefs,
    Flag::IncrLink,
    Flag::DyldLink,
    Flag::BindAtLoad,
    Flag::PreBound,
    Flag::SplitSegs,
    Flag::TwoLevel,
    Flag::ForceFlat,
    Flag::NoMultiDefs,
    Flag::NoFixPreBinding,
    Flag::PreBindable,
    Flag::AllModsBound,
    Flag::SubsectionsViaSymbols,
    Flag::Canonical,
    Flag::Pie,
    Flag::HasTlvDescriptors,
];
pub const V_STYPE: [SectionType; 7] = [
    SectionType::Regular,
    SectionType::Zerofill,
    SectionType::CstringLiterals,
    SectionType::FourByteLiterals,
    SectionType::EightByteLiterals,
    SectionType::LiteralPointers,
    SectionType::Coalesced,
];
pub const V_SATTR: [SectionAttr; 8] = [
    SectionAttr::LocReloc,
    SectionAttr::ExtReloc,
    SectionAttr::SomeInstructions,
    SectionAttr::Debug,
    SectionAttr::LiveSupport,
    SectionAttr::StripStaticSyms,
    SectionAttr::NoToc,
    SectionAttr::PureInstructions,
];
pub const V_PLATFORM: [Platform; 10] = [
    Platform::MacOS,
    Platform::IOS,
    Platform::TvOS,
    Platform::WatchOS,
    Platform::BridgeOS,
    Platform::MacCatalyst,
    Platform::IOSSimulator,
    Platform::TvOSSimulator,
    Platform::WatchOSSimulator,
    Platform::Driverkit,
];
pub const V_TOOL: [Tool; 3] = [Tool::Clang, Tool::Swift, Tool::LD];
pub const V_NTYPE: [NType; 5] = [NType::Undf, NType::Abs, NType::Indr, NType::Pbud, NType::Sect];
pub const V_RLEN: [RelocLength; 4] = [RelocLength::Byte, RelocLength::Word, RelocLength::Long, RelocLength::Quad];

pub fn to_header(h: &RawHeader) -> Header64 {
    let mut fl = Flags::new();
    for (n, f) in FLAGS.iter().zip(V_FLAG) {
        if h.flags & n != 0 {
            fl.push(f);
        }
    }
    Header64 {
        magic: if h.magic == 0xfeed_face { Magic::Magic } else { Magic::Magic64 },
        cpu_type: if h.cputype == 7 { CpuType::X86(CpuSubTypeX86::All) } else { CpuType::X86_64(CpuSubTypeX86_64::All) },
        file_type: V_FILETYPE[FILETYPES.iter().position(|x| *x == h.filetype).unwrap()],
        n_cmds: h.ncmds,
        size_of_cmds: h.sizeofcmds,
        flags: fl,
        reserved: h.reserved,
    }
}
pub fn to_sect(s: &RawSect) -> Section64 {
    let mut at = SectionAttrs::new();
    for (n, a) in SECTATTRS.iter().zip(V_SATTR) {
        if s.flags & n != 0 {
            at.push(a);
        }
    }
    Section64 {
        sectname: s.sectname.clone(),
        segname: s.segname.clone(),
        addr: s.addr,
        size: s.size,
        offset: s.w[0],
        align: s.w[1],
        reloff: s.w[2],
        nreloc: s.w[3],
        flags: (at, V_STYPE[SECTTYPES.iter().position(|x| *x == s.flags & 0xff).unwrap()]),
        reserved1: s.res[0],
        reserved2: s.res[1],
        reserved3: s.res[2],
    }
}
fn ver(v: u32) -> Version {
    Version { major: (v >> 16) as u16, minor: (v >> 8) as u8, release: v as u8 }
}
pub fn to_cmd(c: &RawCmd) -> LoadCommand {
    match c {
        RawCmd::Segment { cmdsize, segname, q, prot, nsects, flags, sects } => LoadCommand::Segment64(
            SegmentCommand64 {
                cmd: 0x19,
                cmdsize: *cmdsize,
                segname: segname.clone(),
                vmaddr: q[0],
                vmsize: q[1],
                fileoff: q[2],
                filesize: q[3],
                maxprot: prot[0] as i32,
                initprot: prot[1] as i32,
                nsects: *nsects,
                flags: *flags,
            },
            sects.iter().map(to_sect).collect(),
        ),
        RawCmd::Symtab { cmdsize, f } => LoadCommand::Symtab(SymtabCommand {
            cmd: 2,
            cmdsize: *cmdsize,
            symoff: f[0],
            nsyms: f[1],
            stroff: f[2],
            strsize: f[3],
        }),
        RawCmd::Dysymtab { cmdsize, f } => LoadCommand::Dysymtab(DysymtabCommand {
            cmd: 0xb,
            cmdsize: *cmdsize,
            ilocalsym: f[0],
            nlocalsym: f[1],
            iextdefsym: f[2],
            nextdefsym: f[3],
            iundefsym: f[4],
            nundefsym: f[5],
            tocoff: f[6],
            ntoc: f[7],
            modtaboff: f[8],
            nmodtab: f[9],
            extrefsymoff: f[10],
            nextrefsyms: f[11],
            indirectsymoff: f[12],
            nindirectsyms: f[13],
            extreloff: f[14],
            nextrel: f[15],
            locreloff: f[16],
            nlocrel: f[17],
        }),
        RawCmd::Build { cmdsize, platform, minos, sdk, ntools, tools } => LoadCommand::BuildVersion(
            BuildVersionCommand {
                cmd: 0x32,
                cmdsize: *cmdsize,
                platform: V_PLATFORM[*platform as usize - 1],
                minos: ver(*minos),
                sdk: ver(*sdk),
                ntools: *ntools,
            },
            tools.iter().map(|(t, v)| BuildToolVersion { tool: V_TOOL[*t as usize - 1], version: *v }).collect(),
        ),
    }
}
pub fn to_nlist(n: &RawNlist) -> NList64 {
    NList64 {
        n_strx: n.strx,
        n_type: if n.typ == 0x20 {
            NTypeField::Stab(DebugSymbol::Gsym)
        } else {
            NTypeField::Norm {
                n_pext: n.typ & 0x10 != 0,
                n_type: V_NTYPE[NTYPES.iter().position(|x| *x == n.typ & 0xe).unwrap()],
                n_ext: n.typ & 1 != 0,
            }
        },
        n_sect: n.sect,
        n_desc: n.desc,
        n_value: n.value,
    }
}
pub fn to_reloc(r: &RawReloc) -> RelocationInfo {
    RelocationInfo {
        r_address: r.addr,
        r_symbolnum: r.sym,
        r_pcrel: r.pcrel,
        r_length: V_RLEN[r.len as usize],
        r_extern: r.ext,
        r_type: r.typ,
    }
}

/// a byte-order token for the rest of a file, as the header reader hands it out
macro_rules! order {
    ($be:expr) => {{
        let h = RawHeader {
            magic: 0xfeed_facf,
            cputype: 0x0100_0007,
            cpusub: 3,
            filetype: 1,
            ncmds: 0,
            sizeofcmds: 0,
            flags: 0,
            reserved: 0,
        }
        .ser($be);
        Header64::read_from(&mut &h[..]).1
    }};
}

const TAIL: [u8; 9] = [0xa5, 0x5a, 0xc3, 0x3c, 0x99, 0x66, 0xff, 0x00, 0x7e];

fn with_tail(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v.extend_from_slice(&TAIL);
    v
}

/// Common judgement: wrote == layout, reads back equal from both byte orders, consumption exact.
fn judge<V: PartialEq + std::fmt::Debug>(
    c: &mut Ctx,
    what: &str,
    raw: &dyn std::fmt::Debug,
    v: &V,
    le: &[u8],
    be: &[u8],
    write: impl FnOnce(&V) -> Vec<u8>,
    read: impl Fn(&mut &[u8], bool) -> V,
    same_be: impl Fn(&V, &V) -> bool,
) {
    let name = |s: &str| format!("{} {} {:?}", s, what, raw);
    match c.sut(|| name("writing"), || write(v)) {
        Ok(b) => {
            if b != le {
                let i = (0..b.len().min(le.len())).find(|&i| b[i] != le[i]).unwrap_or(b.len().min(le.len()));
                return c.viol(format!(
                    "{} {:?} is written as {} bytes\n {}\nbut the layout is {} bytes\n {}\n(first difference at byte {})",
                    what,
                    v,
                    b.len(),
                    clip(&hex(&b), 600),
                    le.len(),
                    clip(&hex(le), 600),
                    i
                ));
            }
            c.ev("structures written, layout compared");
        }
        Err(e) => return c.viol(format!("writing {} {:?} panics: {}", what, v, e)),
    }
    for (bo, src) in [(false, le), (true, be)] {
        let t = with_tail(src);
        let got = c.sut(
            || name("reading"),
            || {
                let mut s = &t[..];
                let r = read(&mut s, bo);
                (r, s.len())
            },
        );
        let order = if bo { "big-endian" } else { "little-endian" };
        match got {
            Err(e) => return c.viol(format!("reading {} {:?} from {} bytes {} panics: {}", what, v, order, clip(&hex(src), 600), e)),
            Ok((r, left)) => {
                if !(if bo { same_be(&r, v) } else { r == *v }) {
                    return c.viol(format!(
                        "{} {} bytes {}\nread as {:?}\nexpected {:?}",
                        order,
                        what,
                        clip(&hex(src), 600),
                        r,
                        v
                    ));
                }
                if left != TAIL.len() {
                    return c.viol(format!(
                        "reading {} {:?} ({}) consumes {} bytes, it has {}",
                        what,
                        v,
                        order,
                        t.len() as i64 - left as i64,
                        src.len()
                    ));
                }
                c.ev(if bo { "big-endian structures read back" } else { "little-endian structures read back" });
            }
        }
    }
}

fn check_header(c: &mut Ctx, h: &RawHeader) {
    let v = to_header(h);
    let (le, be) = (h.ser(false), h.ser(true));
    c.case(fnv(&le));
    c.sample(|| format!("{:?}", h));
    judge(
        c,
        "header",
        h,
        &v,
        &le,
        &be,
        |v| {
            let mut b = Vec::new();
            v.write_into(&mut b);
            b
        },
        |s, _| Header64::read_from(s).0,
        // the magic field itself tells the order
        |r, v| {
            let mut r = r.clone();
            let swapped = if v.magic == Magic::Magic { Magic::Cigam } else { Magic::Cigam64 };
            if r.magic != swapped {
                return false;
            }
            r.magic = v.magic;
            r == *v
        },
    );
    // the same header for the other byte order
    let mut v2 = v.clone();
    v2.magic = if v.magic == Magic::Magic { Magic::Cigam } else { Magic::Cigam64 };
    match c.sut(
        || format!("writing and reading {:?}", v2),
        || {
            let mut b = Vec::new();
            v2.write_into(&mut b);
            let back = Header64::read_from(&mut &b[..]).0;
            (b, back)
        },
    ) {
        Err(e) => c.viol(format!("writing and reading header {:?} panics: {}", v2, e)),
        Ok((b, back)) => {
            if b != be || back != v2 {
                c.viol(format!("header {:?} is written as\n {}\nin the other byte order it is\n {}\nread back: {:?}", v2, hex(&b), hex(&be), back));
            } else {
                c.ev("headers of the other byte order written");
            }
        }
    }
    // the order handed out for the rest of the file really is the file's order
    for be in [false, true] {
        let got = c.sut(
            || format!("byte order after header {:?}", h),
            || {
                let b = h.ser(be);
                let (_, e) = Header64::read_from(&mut &b[..]);
                let n = RawNlist { strx: 0x0102_0304, typ: 1, sect: 7, desc: 0x0506, value: 0x1122_3344_5566_7788 };
                let x = NList64::read_from_in(&mut &n.ser(be)[..], e);
                (x.n_strx, x.n_desc, x.n_value)
            },
        );
        match got {
            Ok((0x0102_0304, 0x0506, 0x1122_3344_5566_7788)) => c.ev("byte order for the rest of the file"),
            other => c.viol(format!("after header {:?} (big-endian: {}) an entry reads as {:x?}", h, be, other)),
        }
    }
}

pub fn m01(c: &mut Ctx) {
    // every flag set
    c.phase(60);
    for k in 0..65536u32 {
        if !c.mine(k as usize) || c.stop() {
            continue;
        }
        let mut h = gen_header(&mut c.rng);
        h.flags = (0..16).filter(|b| k >> b & 1 != 0).map(|b| FLAGS[b as usize]).sum();
        h.filetype = FILETYPES[k as usize / 7 % 9];
        if k % 5 == 3 {
            h.magic = 0xfeed_face;
            c.ev("headers with the 32-bit magic");
        }
        check_header(c, &h);
        // flags given in another order have the same bits
        if k % 64 == 0 {
            let mut v = to_header(&h);
            let mut fl = Flags::new();
            for (n, f) in FLAGS.iter().zip(V_FLAG).rev() {
                if h.flags & n != 0 {
                    fl.push(f);
                }
            }
            v.flags = fl;
            let le = h.ser(false);
            match c.sut(
                || format!("{:?}", h),
                || {
                    let mut b = Vec::new();
                    v.write_into(&mut b);
                    b
                },
            ) {
                Ok(b) if b == le => c.ev("flag order does not matter"),
                other => c.viol(format!("header {:?} with flags listed in reverse is written as {:x?}", h, other)),
            }
        }
    }
    c.phase(100);
    let n = c.n(3000, 3_000_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let mut h = gen_header(&mut c.rng);
        if c.rng.chance(1, 4) {
            h.magic = 0xfeed_face;
            c.ev("headers with the 32-bit magic");
        }
        check_header(c, &h);
    }
}

fn check_cmd(c: &mut Ctx, r: &RawCmd) {
    let v = to_cmd(r);
    let (le, be) = (r.ser(false), r.ser(true));
    c.case(fnv(&le));
    c.sample(|| format!("{:?}", r));
    c.ev(&format!("commands: {}", r.kind()));
    if v.cmd_size() as usize != le.len() || v.cmd() != u32::from_le_bytes(le[..4].try_into().unwrap()) {
        c.viol(format!("{:?} reports cmd {:#x} size {}, the bytes are {}", v, v.cmd(), v.cmd_size(), le.len()));
    }
    judge(
        c,
        "load command",
        r,
        &v,
        &le,
        &be,
        |v| {
            let mut b = Vec::new();
            v.write_into(&mut b);
            b
        },
        |s, be| {
            let e = order!(be);
            LoadCommand::read_from_in(s, e)
        },
        |a, b| a == b,
    );
}

/// commands with more entries than a byte, or than usual buffers, can count
fn big_cmd(r: &mut Rng) -> RawCmd {
    if r.chance(1, 3) {
        let n = *r.pick(&[18usize, 31, 32, 33, 64, 127, 128, 255, 256, 257, 300, 820]);
        let mut c = RawCmd::Segment { cmdsize: 72 + 80 * n as u32, segname: gen_name(r), q: [1, 2, 3, 4], prot: [7, 5], nsects: n as u32, flags: r.edgy32(), sects: Vec::new() };
        if let RawCmd::Segment { sects, .. } = &mut c {
            sects.extend((0..n).map(|_| gen_sect(r)));
        }
        c
    } else {
        let n = *r.pick(&[15usize, 16, 17, 18, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 8190, 70_000]);
        RawCmd::Build {
            cmdsize: 24 + 8 * n as u32,
            platform: r.range(1, 10) as u32,
            minos: r.edgy32(),
            sdk: r.edgy32(),
            ntools: n as u32,
            tools: (0..n).map(|_| (r.range(1, 3) as u32, r.edgy32())).collect(),
        }
    }
}

pub fn m02(c: &mut Ctx) {
    // every section type with every attribute set, alone
    c.phase(50);
    for k in 0..256usize * 7 {
        if !c.mine(k) || c.stop() {
            continue;
        }
        let mut s = gen_sect(&mut c.rng);
        s.flags = SECTTYPES[k % 7] + (0..8).filter(|b| (k / 7) >> b & 1 != 0).map(|b| SECTATTRS[b]).sum::<u32>();
        let v = to_sect(&s);
        let (le, be) = (s.ser(false), s.ser(true));
        c.case(fnv(&le));
        judge(
            c,
            "section",
            &s,
            &v,
            &le,
            &be,
            |v| {
                let mut b = Vec::new();
                v.write_into(&mut b);
                b
            },
            |s, be| {
                let e = order!(be);
                Section64::read_from_in(s, e)
            },
            |a, b| a == b,
        );
    }
    c.phase(100);
    for p in 1..=10u32 {
        for t in 1..=3u32 {
            let minos = c.rng.next() as u32;
            let sdk = c.rng.next() as u32;
            check_cmd(c, &RawCmd::Build { cmdsize: 32, platform: p, minos, sdk, ntools: 1, tools: vec![(t, minos ^ sdk)] });
        }
    }
    let n = c.n(12_000, 2_000_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let r = if c.rng.chance(1, 400) { big_cmd(&mut c.rng) } else { gen_cmd(&mut c.rng) };
        check_cmd(c, &r);
        // a run of commands is read back as the same run
        if c.rng.chance(1, 4) {
            let k = c.rng.range(2, 6);
            let cmds: Vec<RawCmd> = (0..k).map(|_| gen_cmd(&mut c.rng)).collect();
            let vals: Vec<LoadCommand> = cmds.iter().map(to_cmd).collect();
            for be in [false, true] {
                let bytes: Vec<u8> = cmds.iter().flat_map(|r| r.ser(be)).collect();
                let t = with_tail(&bytes);
                let got = c.sut(
                    || format!("reading {:?}", cmds),
                    || {
                        let e = order!(be);
                        let mut s = &t[..];
                        let v: Vec<LoadCommand> = (0..k).map(|_| LoadCommand::read_from_in(&mut s, e)).collect();
                        (v, s.len())
                    },
                );
                match got {
                    Ok((v, left)) if v == vals && left == TAIL.len() => c.ev("command sequences read back"),
                    other => c.viol(format!("commands {:?} (big-endian {}) read as {:?}", cmds, be, other)),
                }
            }
        }
    }
}

fn check_nlist(c: &mut Ctx, n: &RawNlist) {
    let v = to_nlist(n);
    c.case(fnv(&n.ser(false)));
    c.sample(|| format!("{:?}", n));
    judge(
        c,
        "symbol entry",
        n,
        &v,
        &n.ser(false),
        &n.ser(true),
        |v| {
            let mut b = Vec::new();
            v.write_into(&mut b);
            b
        },
        |s, be| {
            let e = order!(be);
            NList64::read_from_in(s, e)
        },
        |a, b| a == b,
    );
}
fn check_reloc(c: &mut Ctx, n: &RawReloc) {
    let v = to_reloc(n);
    c.case(fnv(&n.ser(false)) ^ 1);
    judge(
        c,
        "relocation entry",
        n,
        &v,
        &n.ser(false),
        &n.ser(true),
        |v| {
            let mut b = Vec::new();
            v.write_into(&mut b);
            b
        },
        |s, be| {
            let e = order!(be);
            RelocationInfo::read_from_in(s, e)
        },
        |a, b| a == b,
    );
}

/// the names of relocation types and lengths stand for the format's codes
fn reloc_codes(c: &mut Ctx) {
    use at_mac::reloc::{X86RelocType as A, X86_64RelocType as B};
    let a = [A::Vanilla, A::Pair, A::Sectdiff, A::PbLaPtr, A::LocalSectdiff, A::Tlv];
    let b = [B::Unsigned, B::Signed, B::Branch, B::GotLoad, B::Got, B::Subtractor, B::Signed1, B::Signed2, B::Signed4, B::Tlv];
    let l = [RelocLength::Byte, RelocLength::Word, RelocLength::Long, RelocLength::Quad];
    for n in 0..256usize {
        c.case(0x5e10 + n as u64);
        let x = c.sut(|| format!("x86 relocation type {}", n), || A::from_u8(n as u8));
        let y = c.sut(|| format!("x86-64 relocation type {}", n), || B::from_u8(n as u8));
        let z = c.sut(|| format!("relocation length {}", n), || RelocLength::from_u32(n as u32));
        if x.as_ref().ok() != a.get(n) || y.as_ref().ok() != b.get(n) || z.as_ref().ok() != l.get(n) {
            c.viol(format!("code {} is read as relocation types {:?} (x86), {:?} (x86-64), length {:?}", n, x, y, z));
        }
        let back = (a.get(n).map(|v| v.to_u8() as usize), b.get(n).map(|v| v.to_u8() as usize), l.get(n).map(|v| v.to_u32() as usize));
        for (what, got, have) in [("x86 type", back.0, n < a.len()), ("x86-64 type", back.1, n < b.len()), ("length", back.2, n < l.len())] {
            if have && got != Some(n) {
                c.viol(format!("relocation {} number {} is written as {:?}", what, n, got));
            }
        }
        c.ev("relocation codes checked");
    }
}

pub fn m03(c: &mut Ctx) {
    if c.shard == 0 {
        reloc_codes(c);
    }
    c.phase(50);
    'bits: for k in 0..256usize {
        // pcrel x length x extern x type, with every one-bit symbol number
        if !c.mine(k) {
            continue;
        }
        for b in 0..26u32 {
            if c.stop() {
                break 'bits;
            }
            let sym = if b < 24 { 1 << b } else if b == 24 { 0 } else { 0xff_ffff };
            let addr = c.rng.edgy32() as i32;
            check_reloc(
                c,
                &RawReloc { addr, sym, pcrel: k & 1 != 0, len: (k >> 1 & 3) as u8, ext: k >> 3 & 1 != 0, typ: (k >> 4) as u8 },
            );
        }
    }
    for t in NTYPES {
        for x in 0..4u8 {
            for sect in [0u8, 1, 2, 3, 127, 128, 254, 255] {
                let typ = t | (x & 1) | (x >> 1) << 4;
                let (strx, desc, value) = (c.rng.edgy32(), c.rng.edgy32() as u16, c.rng.edgy64());
                check_nlist(c, &RawNlist { strx, typ, sect, desc, value });
            }
        }
    }
    c.phase(100);
    let n = c.n(60_000, 6_000_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let x = gen_nlist(&mut c.rng);
        check_nlist(c, &x);
        let x = gen_reloc(&mut c.rng);
        check_reloc(c, &x);
    }
}

// ------------------------------------------------------------------ M04

#[derive(Clone, Debug)]
enum Any {
    H(RawHeader),
    C(RawCmd),
    S(RawSect),
    N(RawNlist),
    R(RawReloc),
}
impl Any {
    fn ser(&self, be: bool) -> Vec<u8> {
        match self {
            Any::H(x) => x.ser(be),
            Any::C(x) => x.ser(be),
            Any::S(x) => x.ser(be),
            Any::N(x) => x.ser(be),
            Any::R(x) => x.ser(be),
        }
    }
    fn gen(r: &mut Rng) -> Any {
        match r.below(6) {
            0 => Any::H(gen_header(r)),
            1 | 2 => Any::C(gen_cmd(r)),
            3 => Any::S(gen_sect(r)),
            4 => Any::N(gen_nlist(r)),
            _ => Any::R(gen_reloc(r)),
        }
    }
    /// read with the matching reader; the value, ready to be written
    fn read<R: std::io::Read>(&self, s: &mut R, be: bool) -> Val {
        match self {
            Any::H(_) => {
                let mut h = Header64::read_from(s).0;
                let d = format!("{:?}", h);
                if be {
                    h.magic = if h.magic == Magic::Cigam { Magic::Magic } else { Magic::Magic64 };
                }
                Val(d, Box::new(move |o| h.write_into(o)))
            }
            Any::C(_) => {
                let e = order!(be);
                let v = LoadCommand::read_from_in(s, e);
                Val(format!("{:?}", v), Box::new(move |o| v.write_into(o)))
            }
            Any::S(_) => {
                let e = order!(be);
                let v = Section64::read_from_in(s, e);
                Val(format!("{:?}", v), Box::new(move |o| v.write_into(o)))
            }
            Any::N(_) => {
                let e = order!(be);
                let v = NList64::read_from_in(s, e);
                Val(format!("{:?}", v), Box::new(move |o| v.write_into(o)))
            }
            Any::R(_) => {
                let e = order!(be);
                let v = RelocationInfo::read_from_in(s, e);
                Val(format!("{:?}", v), Box::new(move |o| v.write_into(o)))
            }
        }
    }
    /// read with the matching reader, write back
    fn reread<R: std::io::Read>(&self, s: &mut R, be: bool) -> (Vec<u8>, String) {
        let v = self.read(s, be);
        let mut o = Vec::new();
        (v.1)(&mut o);
        (o, v.0)
    }
    fn write(&self) -> impl Fn(&mut dyn std::io::Write) {
        let x = self.clone();
        move |w: &mut dyn std::io::Write| {
            let mut w = w;
            match &x {
                Any::H(h) => to_header(h).write_into(&mut w),
                Any::C(h) => to_cmd(h).write_into(&mut w),
                Any::S(h) => to_sect(h).write_into(&mut w),
                Any::N(h) => to_nlist(h).write_into(&mut w),
                Any::R(h) => to_reloc(h).write_into(&mut w),
            }
        }
    }
}

/// must the reader refuse? None: it may accept, but then faithfully
fn spoil(r: &mut Rng, a: &Any) -> Option<(Any, &'static str, bool)> {
    // an unknown code must either be refused or be kept exactly; `true`: it must be refused
    let mut a = a.clone();
    let odd = |r: &mut Rng| match r.below(3) {
        0 => r.below(256) as u32,
        1 => 1u32 << r.below(32),
        _ => r.edgy32(),
    };
    match &mut a {
        Any::H(h) => match r.below(4) {
            0 => {
                let m = [odd(r), 0xfeed_face ^ 1, 0x4645_4c7f, 0, 0xcefa_edff, 0xcafe_babf, r.next() as u32];
                let m = *r.pick(&m);
                let known: [u32; 6] = [0xfeed_facf, 0xcffa_edfe, 0xfeed_face, 0xcefa_edfe, 0xcafe_babe, 0xbeba_feca];
                if known.contains(&m) || known.contains(&m.swap_bytes()) {
                    return None;
                }
                h.magic = m;
                Some((a, "magic", true))
            }
            1 => {
                if r.chance(1, 2) {
                    h.cputype = *r.pick(&[0u32, 1, 6, 8, 12, 0x0100_000c, 0x0100_0006, 0x0200_0007, 0x8100_0007, 0x0100_0008, 18]);
                } else {
                    h.cpusub = odd(r);
                }
                Some((a, "cpu type", false))
            }
            2 => {
                h.filetype = odd(r);
                Some((a, "file type", false))
            }
            _ => {
                h.flags |= odd(r);
                Some((a, "header flags", false))
            }
        },
        Any::C(RawCmd::Segment { sects, .. }) if !sects.is_empty() => {
            let k = r.below(sects.len());
            let o = odd(r);
            sects[k].flags = if r.chance(1, 2) { (sects[k].flags & !0xff) | (o & 0xff) } else { sects[k].flags | o };
            Some((a, "section flags", false))
        }
        Any::C(RawCmd::Build { platform, tools, .. }) => {
            if tools.is_empty() || r.chance(1, 2) {
                *platform = odd(r);
                Some((a, "platform", false))
            } else {
                let k = r.below(tools.len());
                tools[k].0 = odd(r);
                Some((a, "tool", false))
            }
        }
        Any::C(_) => None,
        Any::S(s) => {
            let o = odd(r);
            s.flags = if r.chance(1, 2) { (s.flags & !0xff) | (o & 0xff) } else { s.flags | o };
            Some((a, "section flags", false))
        }
        Any::N(n) => {
            n.typ = r.next() as u8;
            Some((a, "symbol type", false))
        }
        Any::R(_) => None,
    }
}

/// contradictory sizes: (bytes, description)
fn contradict(r: &mut Rng, cmd: &RawCmd) -> Option<RawCmd> {
    let mut x = cmd.clone();
    let delta = |r: &mut Rng, v: u32| -> u32 {
        let w = match r.below(6) {
            0 => v.wrapping_add(1 + r.below(16) as u32),
            1 => v.wrapping_sub(1 + r.below(16) as u32),
            2 => v ^ (1 << r.below(32)),
            3 => *r.pick(&[0u32, 8, u32::MAX, 72, 24, 80]),
            4 => v.wrapping_add(80 * (1 + r.below(3) as u32)),
            _ => r.edgy32(),
        };
        w
    };
    match &mut x {
        RawCmd::Segment { cmdsize, nsects, .. } => {
            if r.chance(1, 2) {
                *cmdsize = delta(r, *cmdsize);
            } else if r.chance(1, 2) {
                *nsects = delta(r, *nsects);
            } else {
                // the product wraps in 32 bits: 80 * 2^28 * k = 0 mod 2^32
                *nsects = nsects.wrapping_add((1 + r.below(15) as u32) << 28);
            }
            if *cmdsize as u64 == 72 + 80 * *nsects as u64 {
                return None;
            }
        }
        RawCmd::Symtab { cmdsize, .. } => *cmdsize = delta(r, *cmdsize),
        RawCmd::Dysymtab { cmdsize, .. } => *cmdsize = delta(r, *cmdsize),
        RawCmd::Build { cmdsize, ntools, .. } => {
            if r.chance(1, 2) {
                *cmdsize = delta(r, *cmdsize);
            } else if r.chance(1, 2) {
                *ntools = delta(r, *ntools);
            } else {
                *ntools = ntools.wrapping_add((1 + r.below(7) as u32) << 29);
            }
            if *cmdsize as u64 == 24 + 8 * *ntools as u64 {
                return None;
            }
        }
    }
    if x == *cmd {
        None
    } else {
        Some(x)
    }
}

fn must_refuse(c: &mut Ctx, a: &Any, bytes: &[u8], be: bool, why: &str) {
    let t = bytes.to_vec();
    match c.sut(
        || format!("reading {:?} ({}) from {} bytes {}", a, why, t.len(), clip(&hex(&t), 400)),
        || a.read(&mut &t[..], be).0,
    ) {
        Err(_) => c.ev(&format!("refused: {}", why)),
        Ok(d) => c.viol(format!(
            "{} (big-endian {}): bytes {} are accepted as {}",
            why,
            be,
            clip(&hex(bytes), 600),
            clip(&d, 600)
        )),
    }
}

/// a stream that ends at `cut` the first time it is asked there, and goes on when asked again
struct Resume<'a> {
    data: &'a [u8],
    pos: usize,
    cut: usize,
    ended: bool,
}
impl std::io::Read for Resume<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if !self.ended && self.pos == self.cut && !b.is_empty() {
            self.ended = true;
            return Ok(0);
        }
        let lim = if self.ended { self.data.len() } else { self.cut };
        let n = b.len().min(lim - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn m04(c: &mut Ctx) {
    // every truncation point of every kind of structure, both orders
    let rounds = c.n(160, 8000);
    c.phase(50);
    'cut: for _ in 0..rounds {
        if c.stop() {
            break;
        }
        let a = Any::gen(&mut c.rng);
        for be in [false, true] {
            let b = a.ser(be);
            for k in 0..b.len() {
                if b.len() > 400 && !c.rng.chance(300, b.len()) {
                    continue;
                }
                c.case(fnv(&b[..k]) ^ be as u64);
                must_refuse(c, &a, &b[..k], be, "truncated");
                // more input arriving later does not make up for the end seen inside the structure
                let mut s = Resume { data: &b, pos: 0, cut: k, ended: false };
                match c.sut(|| format!("reading {:?} from a stream that ends after {} bytes and goes on", a, k), || a.read(&mut s, be).0) {
                    Err(_) => c.ev("refused: end of input inside the structure, more later"),
                    Ok(d) => c.viol(format!("{:?} (big-endian {}): the stream ends after {} bytes (and goes on later), yet it is read as {}", a, be, k, clip(&d, 600))),
                }
                if c.stop() {
                    break 'cut;
                }
            }
        }
    }
    c.phase(100);
    // every value of the one-byte code of symbol entries; every one-bit flag
    for t in 0..=255u8 {
        for be in [false, true] {
            let a = Any::N(RawNlist { strx: 5, typ: t, sect: 1, desc: 2, value: 3 });
            faithful(c, &a, be, "symbol type");
        }
    }
    for k in 0..32 {
        for be in [false, true] {
            let mut h = gen_header(&mut c.rng);
            h.flags = 1 << k;
            faithful(c, &Any::H(h), be, "header flags");
            let mut s = gen_sect(&mut c.rng);
            s.flags = 1 << k;
            faithful(c, &Any::S(s), be, "section flags");
        }
    }
    for t in 0..=255u32 {
        let mut s = gen_sect(&mut c.rng);
        s.flags = t;
        faithful(c, &Any::S(s), t % 2 == 1, "section flags");
        let mut h = gen_header(&mut c.rng);
        h.filetype = t;
        faithful(c, &Any::H(h.clone()), t % 2 == 0, "file type");
        let p = RawCmd::Build { cmdsize: 32, platform: t, minos: 1, sdk: 2, ntools: 1, tools: vec![(1 + t % 3, 4)] };
        faithful(c, &Any::C(p), t % 2 == 0, "platform");
        let p = RawCmd::Build { cmdsize: 32, platform: 1, minos: 1, sdk: 2, ntools: 1, tools: vec![(t, 4)] };
        faithful(c, &Any::C(p), t % 2 == 0, "tool");
    }
    // unknown command numbers
    for k in 0..200u32 {
        let cmd = if k < 100 { k } else { c.rng.edgy32() };
        if [0x19, 2, 0xb, 0x32].contains(&cmd) {
            continue;
        }
        for be in [false, true] {
            let mut s = Ser::new(be);
            s.u32(cmd);
            s.u32(24);
            for _ in 0..24 {
                s.u32(0);
            }
            let a = Any::C(RawCmd::Symtab { cmdsize: 24, f: [0; 4] });
            must_refuse(c, &a, &s.b, be, "unknown load command");
        }
    }
    let n = c.n(30_000, 3_000_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let a = Any::gen(&mut c.rng);
        let be = c.rng.chance(1, 2);
        if let Some((x, what, must)) = spoil(&mut c.rng, &a) {
            if must {
                let b = x.ser(be);
                c.case(fnv(&b));
                must_refuse(c, &x, &b, be, &format!("unknown {}", what));
            } else {
                faithful(c, &x, be, what);
            }
        }
        // names that are no text
        let at: Vec<usize> = match &a {
            Any::S(_) => vec![0, 16],
            Any::C(RawCmd::Segment { sects, .. }) => std::iter::once(8).chain((0..sects.len()).flat_map(|k| [72 + 80 * k, 88 + 80 * k])).collect(),
            _ => Vec::new(),
        };
        if !at.is_empty() && c.rng.chance(1, 3) {
            let mut b = a.ser(be);
            let o = *c.rng.pick(&at);
            let junk: &[u8] = *c.rng.pick(&[&[0x80][..], &[0xff], &[0xc3], &[0xc0, 0xaf], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xe6, 0x97], &[0xfe, 0xff], &[0xbf, b'a'], &[0xc3, b'a'], &[0xf0, 0x9f, 0x99]]);
            let k = c.rng.below(17 - junk.len());
            let end = if c.rng.chance(1, 2) { 0 } else { 16 - k - junk.len() };
            let mut name = vec![b'n'; k];
            name.extend_from_slice(junk);
            name.resize(name.len() + end, b'm');
            name.resize(16, 0);
            b[o..o + 16].copy_from_slice(&name);
            c.case(fnv(&b));
            must_refuse(c, &a, &b, be, "name that is not text");
        }
        if let Any::C(cmd) = &a {
            if let Some(x) = contradict(&mut c.rng, cmd) {
                let mut b = x.ser(be);
                // plenty of zero bytes behind, so that not the missing input but the size is at fault
                b.resize(b.len() + 400, 0);
                c.case(fnv(&b));
                must_refuse(c, &Any::C(x), &b, be, "contradictory size");
            }
        }
        // random damage to canonical input: whatever is accepted must be written back unchanged
        let mut b = a.ser(false);
        for _ in 0..c.rng.range(1, 3) {
            let k = c.rng.below(b.len());
            b[k] = if c.rng.chance(1, 2) { c.rng.next() as u8 } else { b[k] ^ (1 << c.rng.below(8)) };
        }
        c.case(fnv(&b));
        if let Any::C(_) = &a {
            // sizes that claim gigabytes consistently are outside the workload
            if b.len() >= 72 && u32::from_le_bytes(b[64..68].try_into().unwrap()) > 1 << 16 && b[0] == 0x19 {
                let n = u32::from_le_bytes(b[64..68].try_into().unwrap()) as u64;
                if u32::from_le_bytes(b[4..8].try_into().unwrap()) as u64 == 72 + 80 * n {
                    continue;
                }
            }
        }
        let t = b.clone();
        match c.sut(|| format!("reading damaged {:?}: {}", a, hex(&t)), || a.reread_or_unwritable(&t)) {
            Err(_) => c.ev("damaged input refused"),
            Ok(None) if canonical(&a, &t) => c.viol(format!("bytes {} are accepted as {}, and what was read cannot be written", clip(&hex(&t), 600), clip(&a.read(&mut &t[..], false).0, 600))),
            Ok(None) => c.ev("damaged input accepted, not in canonical form"),
            Ok(Some((o, used))) => {
                if !canonical(&a, &t) {
                    c.ev("damaged input accepted, not in canonical form");
                } else if o[..] != t[..used.min(t.len())] || used > t.len() {
                    c.viol(format!("bytes {} are accepted but written back as {}", clip(&hex(&t), 600), clip(&hex(&o), 600)));
                } else {
                    c.ev("damaged input accepted and written back unchanged");
                }
            }
        }
    }
}

/// a value that was read: how it prints, how to write it
struct Val(String, Box<dyn Fn(&mut Vec<u8>)>);

impl Any {
    /// accepted value written back, and how many bytes were consumed; None if the value cannot be written
    fn reread_or_unwritable(&self, t: &[u8]) -> Option<(Vec<u8>, usize)> {
        let mut s = t;
        let before = s.len();
        macro_rules! out {
            ($v:expr) => {{
                let v = $v;
                let used = before - s.len();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut o = Vec::new();
                    v.write_into(&mut o);
                    o
                }));
                r.ok().map(|o| (o, used))
            }};
        }
        match self {
            Any::H(_) => out!(Header64::read_from(&mut s).0),
            Any::C(_) => {
                let e = order!(false);
                out!(LoadCommand::read_from_in(&mut s, e))
            }
            Any::S(_) => {
                let e = order!(false);
                out!(Section64::read_from_in(&mut s, e))
            }
            Any::N(_) => {
                let e = order!(false);
                out!(NList64::read_from_in(&mut s, e))
            }
            Any::R(_) => {
                let e = order!(false);
                out!(RelocationInfo::read_from_in(&mut s, e))
            }
        }
    }
}
/// names ASCII and zero-padded; header in native order
fn canonical(a: &Any, b: &[u8]) -> bool {
    let name = |o: usize| -> bool {
        match b.get(o..o + 16) {
            None => false,
            Some(s) => {
                let n = s.iter().position(|&x| x == 0).unwrap_or(16);
                s[..n].is_ascii() && s[n..].iter().all(|&x| x == 0)
            }
        }
    };
    match a {
        Any::H(_) => b[..4] == 0xfeed_facfu32.to_le_bytes(),
        Any::S(_) => name(0) && name(16),
        Any::C(_) => {
            if b[..4] == [0x19, 0, 0, 0] {
                if b.len() < 72 || !name(8) {
                    return false;
                }
                let n = u32::from_le_bytes(b[64..68].try_into().unwrap()) as usize;
                (0..n.min(b.len() / 80 + 1)).all(|k| name(72 + 80 * k) && name(88 + 80 * k))
            } else {
                true
            }
        }
        _ => true,
    }
}

/// an odd code: refused, or kept exactly
fn faithful(c: &mut Ctx, a: &Any, be: bool, what: &str) {
    let b = a.ser(be);
    let le = a.ser(false);
    c.case(fnv(&b) ^ be as u64);
    match c.sut(|| format!("reading {:?}", a), || a.read(&mut &b[..], be)) {
        Err(_) => c.ev(&format!("refused: unknown {}", what)),
        Ok(Val(d, w)) => {
            let o = match c.sut(
                || format!("writing {}", d),
                || {
                    let mut o = Vec::new();
                    w(&mut o);
                    o
                },
            ) {
                Ok(o) => o,
                Err(e) => return c.viol(format!("{:?} with odd {} (big-endian {}) is accepted as {}, which cannot be written: {}", a, what, be, clip(&d, 600), e)),
            };
            if o != le {
                c.viol(format!(
                    "{:?} with odd {} (big-endian {}) is accepted as {} and written back as {} instead of {}",
                    a,
                    what,
                    be,
                    clip(&d, 400),
                    clip(&hex(&o), 400),
                    clip(&hex(&le), 400)
                ));
            } else {
                c.ev(&format!("accepted and kept: {}", what));
            }
        }
    }
}

// ------------------------------------------------------------------ M05

fn gen_str(r: &mut Rng) -> String {
    let n = match r.below(400) {
        0 => *r.pick(&[1000usize, 4095, 4096, 8192, 32_768, 65_534, 65_535, 65_536, 70_000]),
        1..=4 => r.range(120, 300),
        _ => *r.pick(&[0usize, 1, 1, 2, 3, 5, 8, 20, 100]),
    };
    if r.chance(1, 10) {
        if let Some(w) = r.word() {
            if w.is_ascii() && !w.contains('\0') {
                return w.into();
            }
        }
    }
    let n = if r.chance(1, 20) { r.near(70_000, n) } else { n };
    (0..n).map(|_| if r.chance(1, 8) { (1 + r.below(127)) as u8 as char } else { (b'a' + r.below(4) as u8) as char }).collect()
}

pub fn m05(c: &mut Ctx) {
    // tables of many megabytes, of a few large or of many small strings
    let top = if c.thorough { 27 } else { 25 };
    for j in 0..2 * (top - 15) {
        if !c.mine(j) || c.stop() {
            continue;
        }
        c.alive();
        let total = (1usize << (top - j / 2)) - c.rng.below(64);
        let piece = if j % 2 == 0 { total / 2 } else { 900 + c.rng.below(400) };
        let mut strs: Vec<String> = Vec::new();
        let mut size = 1;
        while size < total + 3000 {
            let n = if size + 3 * piece > total { c.rng.below(30) } else { piece + c.rng.below(5) };
            let k = strs.len();
            strs.push((0..n).map(|i| (b'!' + ((i + i / 251 + 7 * k) % 90) as u8) as char).collect());
            size += n + 1;
        }
        let desc = format!("{} strings, the first of {} letters, {} bytes in all", strs.len(), strs[0].len(), size);
        c.case(fnv(format!("{} {:?}", desc, strs.last()).as_bytes()));
        let got = c.sut(
            || format!("string table of {}", desc),
            || -> Result<u64, String> {
                let mut t = StringTable::with_null();
                let mut offs = Vec::new();
                let mut want = vec![0u8];
                for s in &strs {
                    if t.len() != want.len() {
                        return Err(format!("size {} instead of {}", t.len(), want.len()));
                    }
                    offs.push(t.len());
                    t.push_with_null(s);
                    want.extend_from_slice(s.as_bytes());
                    want.push(0);
                }
                if t.as_ref() != &want[..] || t.len() != want.len() {
                    return Err("the bytes differ".into());
                }
                let t2 = StringTable::from(want);
                for (how, t) in [("built", &t), ("from bytes", &t2)] {
                    for (o, s) in offs.iter().zip(&strs) {
                        if t.get(*o) != s {
                            return Err(format!("{}: the string added at {} is not found there", how, o));
                        }
                    }
                    let w: Vec<&str> = t.iter().collect();
                    let w = if w.len() == strs.len() + 1 && w.last() == Some(&"") { &w[..strs.len()] } else { &w[..] };
                    if w != strs.iter().map(|s| s.as_str()).collect::<Vec<_>>() {
                        return Err(format!("{}: walking yields other strings", how));
                    }
                }
                Ok(strs.len() as u64)
            },
        );
        match got {
            Ok(Ok(ops)) => {
                c.evn("strings added and found again", ops);
                c.ev("tables of up to many megabytes");
            }
            Ok(Err(e)) => c.viol(format!("after adding {}: {}", desc, e)),
            Err(e) => c.viol(format!("adding {} panics: {}", desc, e)),
        }
    }
    let n = c.n(6000, 600_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let k = if c.rng.chance(1, 300) { c.rng.range(250, 1500) } else { *c.rng.pick(&[0usize, 1, 2, 3, 5, 10, 40]) };
        let k = if c.rng.chance(1, 20) { c.rng.near(1500, k) } else { k };
        let mut strs: Vec<String> = Vec::new();
        for _ in 0..k {
            // now and then an earlier string again, a part of it, or one that contains it
            let s = if strs.is_empty() || c.rng.chance(3, 4) {
                gen_str(&mut c.rng)
            } else {
                let e = if c.rng.chance(1, 2) { strs[strs.len() - 1].clone() } else { c.rng.pick(&strs).clone() };
                let i = c.rng.below(e.len() + 1);
                match c.rng.below(6) {
                    0 | 1 => e,
                    2 => e[i..].to_string(),
                    3 => e[..i].to_string(),
                    4 => format!("{}{}", gen_str(&mut c.rng), e),
                    _ => format!("{}{}", e, gen_str(&mut c.rng)),
                }
            };
            strs.push(if s.len() > 200_000 { String::new() } else { s });
        }
        let desc = format!("{:?}", strs);
        c.case(fnv(desc.as_bytes()));
        c.sample(|| desc.clone());
        let got = c.sut(
            || format!("string table {:?}", strs),
            || -> Result<u64, String> {
                let mut t = StringTable::with_null();
                let mut want = vec![0u8];
                let mut offs = Vec::new();
                let mut ops = 0;
                for s in &strs {
                    if t.len() != want.len() {
                        return Err(format!("size {} after {:?}", t.len(), want));
                    }
                    offs.push(t.len());
                    t.push_with_null(s);
                    want.extend_from_slice(s.as_bytes());
                    want.push(0);
                    ops += 1;
                }
                if t.as_ref() != &want[..] || t.len() != want.len() {
                    return Err(format!("bytes are {} (size {}), expected {}", hex(t.as_ref()), t.len(), hex(&want)));
                }
                let check = |t: &StringTable, how: &str| -> Result<(), String> {
                    if t.get(0) != "" {
                        return Err(format!("{}: offset 0 is {:?}", how, t.get(0)));
                    }
                    for (o, s) in offs.iter().zip(&strs) {
                        if t.get(*o) != s {
                            return Err(format!("{}: offset {} is {:?}, {:?} was added there", how, o, t.get(*o), s));
                        }
                        // a suffix of an entry is found inside it
                        if s.len() > 1 && t.get(*o + 1) != &s[1..] {
                            return Err(format!("{}: offset {} is {:?}", how, o + 1, t.get(*o + 1)));
                        }
                    }
                    let mut w: Vec<&str> = t.iter().collect();
                    if w.len() == strs.len() + 1 && w.last() == Some(&"") {
                        w.pop();
                    }
                    if w != strs.iter().map(|s| s.as_str()).collect::<Vec<_>>() {
                        return Err(format!("{}: walking yields {:?}", how, w));
                    }
                    Ok(())
                };
                check(&t, "built")?;
                let t2 = StringTable::from(want.clone());
                if t2.as_ref() != &want[..] || t2.len() != want.len() {
                    return Err("a table made from the bytes differs".into());
                }
                check(&t2, "from bytes")?;
                Ok(ops)
            },
        );
        match got {
            Ok(Ok(ops)) => {
                c.evn("strings added and found again", ops);
                c.ev("tables walked");
            }
            Ok(Err(e)) => c.viol(format!("after adding {:?}: {}", strs, e)),
            Err(e) => c.viol(format!("adding {:?} panics: {}", strs, e)),
        }
        // text the table cannot represent
        let mut bad = gen_str(&mut c.rng);
        let odd = match c.rng.below(4) {
            0 => 0x80 + c.rng.below(0x80) as u32,
            1 => 0x100 + c.rng.below(0x700) as u32,
            2 => 1 << c.rng.range(7, 20),
            _ => c.rng.below(0x11_0000) as u32,
        };
        let odd = char::from_u32(odd).filter(|x| !x.is_ascii()).unwrap_or('\u{ff21}');
        let ch = *c.rng.pick(&['\0', '\0', '\u{80}', 'é', 'ÿ', '日', '\u{1f600}', '\u{131}', '\u{100}', '\u{161}', odd, odd, odd, odd]);
        let before: Vec<String> = strs.iter().take(c.rng.below(strs.len().min(4) + 1)).cloned().collect();
        let mut at = c.rng.below(bad.len() + 1);
        while !bad.is_char_boundary(at) {
            at -= 1;
        }
        bad.insert(at, ch);
        match c.sut(
            || format!("adding {:?}", bad),
            || {
                let mut t = StringTable::with_null();
                for s in &before {
                    t.push_with_null(s);
                }
                t.push_with_null(&bad);
                format!("bytes {}", hex(t.as_ref()))
            },
        ) {
            Err(_) => c.ev(if ch == '\0' { "refused: embedded NUL" } else { "refused: non-ASCII" }),
            Ok(d) => c.viol(format!("adding {:?} is accepted: {}", bad, d)),
        }
        // bytes that are no string table
        let mut raw = vec![0u8];
        for s in &strs {
            raw.extend_from_slice(s.as_bytes());
            raw.push(0);
        }
        match c.rng.below(4) {
            0 => raw[0] = 1 + c.rng.below(255) as u8,
            1 => raw.push(b'x'),
            2 => raw.clear(),
            _ => {
                let k = c.rng.below(raw.len());
                raw[k] = 0x80 | c.rng.next() as u8;
            }
        }
        let r2 = raw.clone();
        match c.sut(|| format!("table from {}", hex(&raw)), || StringTable::from(r2).len()) {
            Err(_) => c.ev("refused: bytes that are no string table"),
            Ok(_) => c.viol(format!("bytes {} are accepted as a string table", hex(&raw))),
        }
    }
}

// ------------------------------------------------------------------ M06

fn io_struct(c: &mut Ctx, a: &Any) {
    let want = a.ser(false);
    let w = a.write();
    // short and interrupted transfers
    for _ in 0..3 {
        let f = Flow::random(&mut c.rng);
        let mut st = Stream::writer(f);
        match c.sut(|| format!("writing {:?} through {:?}", a, f), || w(&mut st)) {
            Ok(()) if st.data == want => c.ev("short or interrupted writes"),
            Ok(()) => c.viol(format!("{:?} written through {:?} becomes {} instead of {}", a, f, hex(&st.data), hex(&want))),
            Err(e) => c.viol(format!("writing {:?} through {:?} fails: {}", a, f, e)),
        }
        let be = c.rng.chance(1, 2);
        let mut st = Stream::reader(&with_tail(&a.ser(be)), f);
        match c.sut(|| format!("reading {:?} through {:?}", a, f), || a.reread(&mut st, be)) {
            Ok((o, _)) if o == want => c.ev("short or interrupted reads"),
            Ok((o, d)) => c.viol(format!("{:?} read through {:?} becomes {} = {}", a, f, d, hex(&o))),
            Err(e) => c.viol(format!("reading {:?} through {:?} fails: {}", a, f, e)),
        }
    }
    // a single failure at any byte, after which the stream works again
    for k in 0..want.len() {
        for zero in [false, true] {
            let f = Flow { zero, once: true, ..Flow::fail(k) };
            let mut st = Stream::writer(f);
            match c.sut(|| format!("writing {:?} failing once at {}", a, k), || w(&mut st)) {
                Ok(()) if st.data != want => c.viol(format!(
                    "the stream failed once after {} bytes, writing {:?} reported success and wrote {} instead of {}",
                    k,
                    a,
                    hex(&st.data),
                    hex(&want)
                )),
                _ => c.ev("single failures survived or reported"),
            }
            let be = k % 2 == 1;
            let mut st = Stream::reader(&with_tail(&a.ser(be)), f);
            match c.sut(|| format!("reading {:?} failing once at {}", a, k), || a.reread(&mut st, be)) {
                Ok((o, d)) if o != want => {
                    c.viol(format!("the stream failed once after {} bytes, reading {:?} reported success and gave {} = {}", k, a, d, hex(&o)))
                }
                _ => c.ev("single failures survived or reported"),
            }
            if c.stop() {
                return;
            }
        }
    }
    // failure at every byte
    for k in 0..=want.len() {
        for zero in [false, true] {
            let f = Flow { zero, ..Flow::fail(k) };
            let mut st = Stream::writer(f);
            let r = c.sut(|| format!("writing {:?} failing at {}", a, k), || w(&mut st));
            c.case(fnv(&want) ^ (k as u64) << 1 ^ zero as u64);
            judge_failed_write(c, &format!("{:?}", a), k, r.is_ok(), &st.data, &want);
            if k < want.len() {
                let be = k % 2 == 1;
                let src = a.ser(be);
                let mut st = Stream::reader(&src, f);
                match c.sut(|| format!("reading {:?} failing at {}", a, k), || a.read(&mut st, be).0) {
                    Err(_) => c.ev("read failures reported"),
                    Ok(d) => c.viol(format!("reading {:?} from a stream that fails after {} bytes gives {}", a, k, d)),
                }
            }
            if c.stop() {
                return;
            }
        }
    }
}
fn judge_failed_write(c: &mut Ctx, what: &str, k: usize, ok: bool, got: &[u8], want: &[u8]) {
    if k >= want.len() {
        if !ok || got != want {
            c.viol(format!("writing {} to a stream with room for exactly its bytes fails", clip(what, 600)));
        }
        return;
    }
    if ok {
        c.viol(format!(
            "the stream failed after {} of {} bytes and writing {} reported success",
            k,
            want.len(),
            clip(what, 600)
        ));
    } else if got != &want[..got.len().min(want.len())] || got.len() > k {
        c.viol(format!("what was written of {} before the failure at {} is not a prefix of the output", clip(what, 600), k));
    } else {
        c.ev("write failures reported, prefix intact");
    }
}

pub fn m06(c: &mut Ctx) {
    let n = c.n(30, 2400);
    c.phase(35);
    for _ in 0..n {
        if c.stop() {
            break;
        }
        let a = Any::gen(&mut c.rng);
        c.sample(|| format!("{:?}", a));
        io_struct(c, &a);
    }
    // whole objects
    let n = c.n(18, 800);
    c.phase(70);
    'obj: for _ in 0..n {
        if c.stop() {
            break;
        }
        let sz = if c.rng.chance(1, 4) { crate::objgen::Size::Medium } else { crate::objgen::Size::Small };
        let spec = crate::objgen::gen(&mut c.rng, sz);
        let o = crate::objgen::build(&spec);
        let mut want = Vec::new();
        if c.sut(|| spec.show(), || at_obj::macho::write_into(&o, &mut want)).is_err() {
            c.ev("objects not written (another property's matter)");
            continue;
        }
        for _ in 0..3 {
            let f = Flow::random(&mut c.rng);
            let mut st = Stream::writer(f);
            match c.sut(|| spec.show(), || at_obj::macho::write_into(&o, &mut st)) {
                Ok(()) if st.data == want => c.ev("objects through short or interrupted writes"),
                _ => c.viol(format!("object {} written through {:?} differs or fails", spec.show(), f)),
            }
        }
        let step = (want.len() / 300).max(1);
        let mut k = 0;
        while k <= want.len() {
            let f = Flow { zero: c.rng.chance(1, 4), ..Flow::fail(k) };
            let mut st = Stream::writer(f);
            c.case(fnv(&want) ^ k as u64);
            let ok = c.sut(|| spec.show(), || at_obj::macho::write_into(&o, &mut st)).is_ok();
            judge_failed_write(c, &spec.show(), k, ok, &st.data, &want);
            c.ev("object write failure points");
            if k < want.len() {
                let mut st = Stream::writer(Flow { once: true, ..f });
                let ok = c.sut(|| spec.show(), || at_obj::macho::write_into(&o, &mut st)).is_ok();
                if ok && st.data != want {
                    c.viol(format!("the stream failed once after {} of {} bytes and writing {} reported success", k, want.len(), clip(&spec.show(), 600)));
                } else {
                    c.ev("single failures survived or reported");
                }
            }
            k += if step == 1 { 1 } else { c.rng.range(1, step * 2) };
            if c.stop() {
                break 'obj;
            }
        }
    }
    // the assembler: reading sources, writing objects
    c.phase(100);
    let exe = std::env::current_exe().unwrap();
    let dir = c.dir.clone();
    let mut wk = Worker::new(&exe, &dir, &format!("m06-{}", c.shard));
    let n = c.n(60, 2400);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        c.alive();
        let p = crate::asmgen::gen(&mut c.rng, &crate::asmgen::Opts::mixed(12));
        let src = crate::asmgen::render(&p, &mut c.rng, crate::asmgen::Style::Plain);
        let want = match wk.assemble(src.as_bytes()) {
            Res::Ok(b) => b,
            _ => {
                c.ev("programs not assembled (another property's matter)");
                continue;
            }
        };
        let mut steps = Vec::new();
        let mut flows = Vec::new();
        for _ in 0..4 {
            let (rf, wf) = (Flow::random(&mut c.rng), Flow::random(&mut c.rng));
            flows.push((rf, wf));
            steps.push(Step::Fresh);
            steps.push(Step::Read(src.as_bytes().to_vec(), rf));
            steps.push(Step::Write(wf));
        }
        let outs = wk.run(&steps);
        for (i, (rf, wf)) in flows.iter().enumerate() {
            match outs.get(3 * i + 2) {
                Some(Out::Wrote(b)) if *b == want => c.ev("programs through short or interrupted streams"),
                other => {
                    c.viol(format!("source {:?} read through {:?}, written through {:?}: {:?}", src, rf, wf, other.map(|o| clip(&format!("{:?}", o), 300))));
                    break;
                }
            }
        }
        // read failures at sampled positions (every position of short sources)
        let mut steps = Vec::new();
        let mut ks = Vec::new();
        for k in 0..=src.len() {
            if src.len() < 60 || c.rng.chance(40, src.len()) || k == src.len() {
                ks.push(k);
                steps.push(Step::Fresh);
                steps.push(Step::Read(src.as_bytes().to_vec(), Flow { max: 1 + c.rng.below(9) as u32, ..Flow::fail(k) }));
            }
        }
        // a read failure may also end the process (cleanly, with a non-zero status)
        let mut at = 0;
        while at < ks.len() {
            let outs = wk.run(&steps[2 * at..]);
            let mut moved = false;
            for i in at..ks.len() {
                match outs.get(2 * (i - at) + 1).or(outs.last()) {
                    Some(Out::Panic(..)) => c.ev("source read failures reported"),
                    Some(Out::Exit(e, _)) if *e != 0 => {
                        c.ev("source read failures reported");
                        at = i + 1;
                        moved = true;
                        break;
                    }
                    other => {
                        c.viol(format!(
                            "source {:?}: the stream fails after {} bytes, reading ends with {:?}",
                            src,
                            ks[i],
                            other.map(|o| clip(&format!("{:?}", o), 200))
                        ));
                        return;
                    }
                }
            }
            if !moved {
                break;
            }
        }
        let mut steps = vec![Step::Read(src.as_bytes().to_vec(), Flow::PLAIN)];
        let mut ks = Vec::new();
        for k in 0..=want.len() {
            if c.rng.chance(30, want.len()) || k + 1 >= want.len() {
                ks.push(k);
                steps.push(Step::Write(Flow { max: c.rng.below(40) as u32, ..Flow::fail(k) }));
            }
        }
        let outs = wk.run(&steps);
        for (i, k) in ks.iter().enumerate() {
            match outs.get(i + 1) {
                Some(Out::Wrote(b)) => judge_failed_write(c, &src, *k, true, b, &want),
                Some(Out::Panic(_, b)) => judge_failed_write(c, &src, *k, false, b, &want),
                Some(Out::Exit(e, _)) if *e != 0 => {
                    c.ev("write failures reported, prefix intact");
                    break;
                }
                other => {
                    c.viol(format!("source {:?}, write failing at {}: {:?}", src, k, other));
                    break;
                }
            }
        }
    }
}

// ------------------------------------------------------------------ M07

/// texts at and beyond the edges of a 16-byte name
fn odd_name(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => *r.pick(&[31usize, 32, 33, 48, 64, 127, 128, 255, 256, 257, 272, 512, 4096, 65_536, 65_552]),
        1..=4 => r.range(13, 20),
        _ => r.below(17),
    };
    let n = r.near(70_000, n);
    let mut t: Vec<char> = (0..n).map(|_| (0x21 + r.below(0x5e)) as u8 as char).collect();
    if r.chance(1, 2) {
        let at = match r.below(3) {
            0 => 0,
            1 => t.len(),
            _ => r.below(t.len() + 1),
        };
        t.insert(at, *r.pick(&['\0', '\0', '\0', 'é', '日', '\u{80}', '\u{ff}', '\u{100}', '\u{130}', '🙂', '\u{7f}', '\u{1}', ' ']));
    }
    t.into_iter().collect()
}
fn name_fits(s: &str) -> bool {
    s.len() <= 16 && s.bytes().all(|b| b < 0x80 && b != 0)
}

/// Write; `want`: the bytes of a representable value. The written bytes are read back by `read`.
fn refuse_or_hold(c: &mut Ctx, what: &str, desc: &str, want: Option<Vec<u8>>, write: impl FnOnce(&mut Vec<u8>), read: impl FnOnce(&[u8]) -> String) {
    c.case(fnv(desc.as_bytes()) ^ fnv(what.as_bytes()));
    c.sample(|| desc.to_string());
    let got = c.sut(
        || format!("writing {}", desc),
        || {
            let mut b = Vec::new();
            write(&mut b);
            b
        },
    );
    match (got, want) {
        (Err(_), None) => c.ev(&format!("refused: {}", what)),
        (Err(e), Some(_)) => c.viol(format!("{} fits its fields, writing it fails: {}", clip(desc, 1500), e)),
        (Ok(b), None) => {
            let back = c.sut(|| format!("reading back {}", desc), || read(&b)).unwrap_or_else(|e| format!("nothing ({})", e));
            c.viol(format!("{}\nhas no representation ({}) but is written as\n {}\nwhich reads back as {}", clip(desc, 1500), what, clip(&hex(&b), 600), clip(&back, 600)));
        }
        (Ok(b), Some(w)) => {
            if b != w {
                c.viol(format!("{}\nis written as\n {}\ninstead of\n {}", clip(desc, 1500), clip(&hex(&b), 600), clip(&hex(&w), 600)));
            } else {
                c.ev("representable at the edge: written exactly");
            }
        }
    }
}

pub fn m07(c: &mut Ctx) {
    if c.shard == 0 {
        for m in [Magic::FatMagic, Magic::FatCigam] {
            let mut h = to_header(&gen_header(&mut c.rng));
            h.magic = m;
            refuse_or_hold(c, "multi-architecture magic", &format!("{:?}", h), None, |b| h.write_into(b), |b| format!("{:?}", Header64::read_from(&mut &b[..]).0));
        }
    }
    let n = c.n(20_000, 3_000_000);
    for _ in 0..n {
        if c.stop() {
            return;
        }
        match c.rng.below(4) {
            0 => {
                let mut x = gen_reloc(&mut c.rng);
                let r = &mut c.rng;
                match r.below(4) {
                    0 => x.sym = r.edgy32(),
                    1 => x.sym = (x.sym & 0xff) | 1 << r.range(20, 31),
                    2 => x.typ = if r.chance(1, 2) { 1 << r.below(8) } else { r.next() as u8 },
                    _ => {
                        x.sym = r.edgy32();
                        x.typ = r.next() as u8;
                    }
                }
                let want = if x.sym < 1 << 24 && x.typ < 16 { Some(x.ser(false)) } else { None };
                let v = to_reloc(&x);
                let e = order!(false);
                refuse_or_hold(c, "relocation numbers beyond their bits", &format!("{:?}", v), want, |b| v.write_into(b), |b| format!("{:?}", RelocationInfo::read_from_in(&mut &b[..], e)));
            }
            1 => {
                let mut x = gen_sect(&mut c.rng);
                let nm = odd_name(&mut c.rng);
                if c.rng.chance(1, 2) {
                    x.sectname = nm.clone();
                } else {
                    x.segname = nm.clone();
                }
                let want = if name_fits(&nm) { Some(x.ser(false)) } else { None };
                let v = to_sect(&x);
                let e = order!(false);
                refuse_or_hold(c, "names that do not fit", &format!("{:?}", v), want, |b| v.write_into(b), |b| format!("{:?}", Section64::read_from_in(&mut &b[..], e)));
            }
            2 => {
                // a segment with a name at the edge somewhere
                let k = c.rng.below(4);
                let mut sects: Vec<RawSect> = (0..k).map(|_| gen_sect(&mut c.rng)).collect();
                let mut segname = gen_name(&mut c.rng);
                let nm = odd_name(&mut c.rng);
                match c.rng.below(2 * k + 1) {
                    0 => segname = nm.clone(),
                    i if i % 2 == 1 => sects[(i - 1) / 2].sectname = nm.clone(),
                    i => sects[(i - 1) / 2].segname = nm.clone(),
                }
                let r = &mut c.rng;
                let x = RawCmd::Segment {
                    cmdsize: 72 + 80 * k as u32,
                    segname,
                    q: [r.edgy64(), r.edgy64(), r.edgy64(), r.edgy64()],
                    prot: [r.edgy32(), r.edgy32()],
                    nsects: k as u32,
                    flags: r.edgy32(),
                    sects,
                };
                let want = if name_fits(&nm) { Some(x.ser(false)) } else { None };
                let v = to_cmd(&x);
                let e = order!(false);
                refuse_or_hold(c, "names that do not fit", &format!("{:?}", v), want, |b| v.write_into(b), |b| format!("{:?}", LoadCommand::read_from_in(&mut &b[..], e)));
            }
            _ => {
                // codes, sizes and counts that contradict the contents
                let x = gen_cmd(&mut c.rng);
                let mut v = to_cmd(&x);
                let r = &mut c.rng;
                let off = |r: &mut Rng, v: u32| -> u32 {
                    match r.below(5) {
                        0 => v.wrapping_add(1),
                        1 => v.wrapping_sub(1),
                        2 => v.wrapping_add(8 * r.below(40) as u32),
                        3 => v ^ (1 << r.below(32)),
                        _ => r.edgy32(),
                    }
                };
                let way = r.below(4);
                let code = |r: &mut Rng, v: u32| *r.pick(&[2u32, 0xb, 0x19, 0x32, 0, 1, v | 0x8000_0000, v + 1, v - 1]);
                let (fits, what) = match &mut v {
                    LoadCommand::Segment64(h, s) => {
                        match way {
                            0 => h.cmd = code(r, h.cmd),
                            1 => h.cmdsize = off(r, h.cmdsize),
                            2 => {
                                // consistent with each other, not with the sections
                                h.nsects = off(r, h.nsects) % 5000;
                                h.cmdsize = 72 + 80 * h.nsects;
                            }
                            _ => {
                                if r.chance(1, 2) && !s.is_empty() {
                                    s.remove(r.below(s.len()));
                                } else {
                                    s.push(to_sect(&gen_sect(r)));
                                }
                            }
                        }
                        (h.cmd == 0x19 && h.cmdsize as u64 == 72 + 80 * h.nsects as u64 && h.nsects as usize == s.len(), "segment")
                    }
                    LoadCommand::Symtab(h) => {
                        if way < 2 {
                            h.cmd = code(r, h.cmd)
                        } else {
                            h.cmdsize = off(r, h.cmdsize)
                        }
                        (h.cmd == 2 && h.cmdsize == 24, "symbol table command")
                    }
                    LoadCommand::Dysymtab(h) => {
                        if way < 2 {
                            h.cmd = code(r, h.cmd)
                        } else {
                            h.cmdsize = off(r, h.cmdsize)
                        }
                        (h.cmd == 0xb && h.cmdsize == 80, "dynamic symbol table command")
                    }
                    LoadCommand::BuildVersion(h, t) => {
                        match way {
                            0 => h.cmd = code(r, h.cmd),
                            1 => h.cmdsize = off(r, h.cmdsize),
                            2 => {
                                h.ntools = off(r, h.ntools) % 5000;
                                h.cmdsize = 24 + 8 * h.ntools;
                            }
                            _ => {
                                if r.chance(1, 2) && !t.is_empty() {
                                    t.remove(r.below(t.len()));
                                } else {
                                    t.push(BuildToolVersion { tool: V_TOOL[0], version: r.edgy32() });
                                }
                            }
                        }
                        (h.cmd == 0x32 && h.cmdsize as u64 == 24 + 8 * h.ntools as u64 && h.ntools as usize == t.len(), "build version command")
                    }
                    #[allow(unreachable_patterns)]
                    _ => continue,
                };
                let want = if fits { Some(x.ser(false)) } else { None };
                let e = order!(false);
                refuse_or_hold(c, &format!("{} contradicting its contents", what), &format!("{:?}", v), want, |b| v.write_into(b), |b| format!("{:?}", LoadCommand::read_from_in(&mut &b[..], e)));
            }
        }
    }
}
