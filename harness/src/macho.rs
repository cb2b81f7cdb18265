//! Independent Mach-O reader (from the format's published layout) and strict structural validator.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rel {
    pub addr: i32,
    pub sym: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ext: bool,
    pub typ: u8,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sect {
    pub sectname: String,
    pub segname: String,
    pub addr: u64,
    pub size: u64,
    pub offset: u32,
    pub align: u32,
    pub reloff: u32,
    pub nreloc: u32,
    pub flags: u32,
    pub reserved: [u32; 3],
    pub data: Vec<u8>,
    pub relocs: Vec<Rel>,
}
impl Sect {
    pub fn zerofill(&self) -> bool {
        self.flags & 0xff == 1
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sym {
    pub name: String,
    pub strx: u32,
    pub typ: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
impl Sym {
    pub fn ext(&self) -> bool {
        self.typ & 1 != 0
    }
    pub fn kind(&self) -> u8 {
        self.typ & 0x0e
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Seg {
    pub segname: String,
    pub cmdsize: u32,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub prot: (i32, i32),
    pub nsects: u32,
    pub flags: u32,
    /// index of the first section
    pub first: usize,
}
#[derive(Clone, Debug, Default)]
pub struct File {
    pub magic: u32,
    pub cputype: u32,
    pub cpusub: u32,
    pub filetype: u32,
    pub ncmds: u32,
    pub sizeofcmds: u32,
    pub flags: u32,
    pub reserved: u32,
    pub cmds: Vec<(u32, u32)>,
    pub segs: Vec<Seg>,
    pub sects: Vec<Sect>,
    pub nsymtab: usize,
    pub symoff: u32,
    pub nsyms: u32,
    pub stroff: u32,
    pub strsize: u32,
    pub syms: Vec<Sym>,
}

pub const N_UNDF: u8 = 0;
pub const N_ABS: u8 = 2;
pub const N_SECT: u8 = 0xe;

fn u16at(b: &[u8], o: usize) -> Result<u16, String> {
    b.get(o..o + 2).map(|x| u16::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| format!("ends before {:#x}", o + 2))
}
fn u32at(b: &[u8], o: usize) -> Result<u32, String> {
    b.get(o..o + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| format!("ends before {:#x}", o + 4))
}
fn u64at(b: &[u8], o: usize) -> Result<u64, String> {
    b.get(o..o + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| format!("ends before {:#x}", o + 8))
}
fn name16(b: &[u8], o: usize) -> Result<String, String> {
    let s = b.get(o..o + 16).ok_or("ends inside a name")?;
    let n = s.iter().position(|&x| x == 0).unwrap_or(16);
    Ok(s[..n].iter().map(|&c| c as char).collect())
}

/// Read what is needed to look at contents; errors only when something lies outside the file.
pub fn parse(b: &[u8]) -> Result<File, String> {
    let mut f = File {
        magic: u32at(b, 0)?,
        cputype: u32at(b, 4)?,
        cpusub: u32at(b, 8)?,
        filetype: u32at(b, 12)?,
        ncmds: u32at(b, 16)?,
        sizeofcmds: u32at(b, 20)?,
        flags: u32at(b, 24)?,
        reserved: u32at(b, 28)?,
        ..File::default()
    };
    if f.magic != 0xfeed_facf {
        return Err(format!("magic is {:#x}", f.magic));
    }
    if f.ncmds > 64 {
        return Err(format!("{} load commands", f.ncmds));
    }
    let mut o = 32usize;
    for _ in 0..f.ncmds {
        let (cmd, size) = (u32at(b, o)?, u32at(b, o + 4)?);
        if size < 8 || o + size as usize > b.len() {
            return Err(format!("load command {:#x} of size {} at {:#x} does not fit", cmd, size, o));
        }
        f.cmds.push((cmd, size));
        match cmd {
            0x19 => {
                let s = Seg {
                    cmdsize: size,
                    segname: name16(b, o + 8)?,
                    vmaddr: u64at(b, o + 24)?,
                    vmsize: u64at(b, o + 32)?,
                    fileoff: u64at(b, o + 40)?,
                    filesize: u64at(b, o + 48)?,
                    prot: (u32at(b, o + 56)? as i32, u32at(b, o + 60)? as i32),
                    nsects: u32at(b, o + 64)?,
                    flags: u32at(b, o + 68)?,
                    first: f.sects.len(),
                };
                if s.nsects as u64 * 80 + 72 > size as u64 {
                    return Err(format!("{} sections do not fit a segment command of {} bytes", s.nsects, size));
                }
                for k in 0..s.nsects as usize {
                    let q = o + 72 + 80 * k;
                    let mut t = Sect {
                        sectname: name16(b, q)?,
                        segname: name16(b, q + 16)?,
                        addr: u64at(b, q + 32)?,
                        size: u64at(b, q + 40)?,
                        offset: u32at(b, q + 48)?,
                        align: u32at(b, q + 52)?,
                        reloff: u32at(b, q + 56)?,
                        nreloc: u32at(b, q + 60)?,
                        flags: u32at(b, q + 64)?,
                        reserved: [u32at(b, q + 68)?, u32at(b, q + 72)?, u32at(b, q + 76)?],
                        data: Vec::new(),
                        relocs: Vec::new(),
                    };
                    if !t.zerofill() {
                        let e = t.offset as u64 + t.size.min(1 << 40);
                        if e > b.len() as u64 {
                            return Err(format!("section {} [{:#x}..{:#x}] lies outside the file", t.sectname, t.offset, e));
                        }
                        t.data = b[t.offset as usize..e as usize].to_vec();
                    }
                    if t.nreloc as u64 * 8 + t.reloff as u64 > b.len() as u64 && t.nreloc > 0 {
                        return Err(format!("relocations of {} lie outside the file", t.sectname));
                    }
                    for r in 0..t.nreloc as usize {
                        let p = t.reloff as usize + 8 * r;
                        let w = u32at(b, p + 4)?;
                        t.relocs.push(Rel {
                            addr: u32at(b, p)? as i32,
                            sym: w & 0xff_ffff,
                            pcrel: w >> 24 & 1 != 0,
                            len: (w >> 25 & 3) as u8,
                            ext: w >> 27 & 1 != 0,
                            typ: (w >> 28) as u8,
                        });
                    }
                    f.sects.push(t);
                }
                f.segs.push(s);
            }
            2 => {
                if size < 24 {
                    return Err("symbol table command too short".into());
                }
                f.nsymtab += 1;
                f.symoff = u32at(b, o + 8)?;
                f.nsyms = u32at(b, o + 12)?;
                f.stroff = u32at(b, o + 16)?;
                f.strsize = u32at(b, o + 20)?;
            }
            _ => {}
        }
        o += size as usize;
    }
    if f.nsymtab > 0 {
        if f.symoff as u64 + f.nsyms as u64 * 16 > b.len() as u64 {
            return Err("symbol table lies outside the file".into());
        }
        if f.stroff as u64 + f.strsize as u64 > b.len() as u64 {
            return Err("string table lies outside the file".into());
        }
        let st = &b[f.stroff as usize..(f.stroff + f.strsize) as usize];
        for k in 0..f.nsyms as usize {
            let p = f.symoff as usize + 16 * k;
            let strx = u32at(b, p)?;
            let rest = st.get(strx as usize..).ok_or_else(|| format!("symbol {} names string {:#x} outside the table", k, strx))?;
            let n = rest.iter().position(|&x| x == 0);
            let n = match n {
                Some(n) => n,
                None if strx == 0 && rest.is_empty() => 0,
                None => return Err(format!("name of symbol {} is not terminated inside the string table", k)),
            };
            f.syms.push(Sym {
                name: rest[..n].iter().map(|&c| c as char).collect(),
                strx,
                typ: b[p + 4],
                sect: b[p + 5],
                desc: u16at(b, p + 6)?,
                value: u64at(b, p + 8)?,
            });
        }
    }
    Ok(f)
}

/// Everything a relocatable x86-64 object must satisfy structurally.
pub fn validate(b: &[u8]) -> Result<File, String> {
    let f = parse(b)?;
    let bad = |s: String| -> Result<File, String> { Err(s) };
    if f.cputype != 0x0100_0007 || f.cpusub != 3 {
        return bad(format!("cpu type {:#x}/{:#x}", f.cputype, f.cpusub));
    }
    if f.filetype != 1 {
        return bad(format!("file type {}", f.filetype));
    }
    if f.reserved != 0 {
        return bad("reserved header word is not zero".into());
    }
    let sum: u64 = f.cmds.iter().map(|c| c.1 as u64).sum();
    if sum != f.sizeofcmds as u64 {
        return bad(format!("sizeofcmds {} but the commands take {}", f.sizeofcmds, sum));
    }
    for (cmd, size) in &f.cmds {
        if size % 8 != 0 {
            return bad(format!("load command {:#x} size {} is not a multiple of 8", cmd, size));
        }
    }
    if f.segs.len() != 1 {
        return bad(format!("{} segments in an object file", f.segs.len()));
    }
    if f.nsymtab != 1 {
        return bad(format!("{} symbol tables", f.nsymtab));
    }
    if f.cmds.iter().any(|c| c.0 == 2 && c.1 != 24) {
        return bad("symbol table command size".into());
    }
    let g = &f.segs[0];
    if g.cmdsize as u64 != 72 + 80 * g.nsects as u64 {
        return bad(format!("segment command size {} for {} sections", g.cmdsize, g.nsects));
    }
    let (max, init) = g.prot;
    if max & !7 != 0 || init & !max != 0 {
        return bad(format!("segment protections {:#x} (maximum) and {:#x} (initial)", max, init));
    }
    if g.flags != 0 {
        return bad(format!("segment flags {:#x} in an object file", g.flags));
    }
    let undef = f.syms.iter().any(|y| y.kind() == N_UNDF && y.typ & 0xe0 == 0);
    if f.flags & !0x2001 != 0 || f.flags & 1 != 0 && undef {
        return bad(format!("header flags {:#x} in an object file {} undefined symbols", f.flags, if undef { "with" } else { "without" }));
    }
    let cmds_end = 32 + f.sizeofcmds as u64;
    if g.filesize > g.vmsize {
        return bad(format!("segment occupies {} bytes in the file but {} in memory", g.filesize, g.vmsize));
    }
    if g.fileoff.checked_add(g.filesize).map_or(true, |e| e > b.len() as u64) {
        return bad("segment lies outside the file".into());
    }
    let mut regions: Vec<(u64, u64, String)> = vec![(0, cmds_end, "header and load commands".into())];
    let (mut lo, mut hi, mut flo, mut fhi) = (u64::MAX, 0u64, u64::MAX, 0u64);
    let mut mem: Vec<(u64, u64, String)> = Vec::new();
    for s in &f.sects {
        let n = &s.sectname;
        let end = match s.addr.checked_add(s.size) {
            Some(e) => e,
            None => return bad(format!("section {} wraps around", n)),
        };
        if s.addr < g.vmaddr || end > g.vmaddr.wrapping_add(g.vmsize) {
            return bad(format!("section {} [{:#x}..{:#x}] lies outside its segment", n, s.addr, end));
        }
        if s.reserved != [0; 3] {
            return bad(format!("section {} has {:x?} in its reserved fields", n, s.reserved));
        }
        if s.align > 15 || s.addr % (1 << s.align) != 0 {
            return bad(format!("section {} at {:#x} misaligned for 2^{}", n, s.addr, s.align));
        }
        lo = lo.min(s.addr);
        hi = hi.max(end);
        if s.size > 0 {
            mem.push((s.addr, end, n.clone()));
        }
        if s.zerofill() {
            if s.nreloc != 0 {
                return bad(format!("zero-initialised section {} has relocations", n));
            }
        } else {
            let (a, e) = (s.offset as u64, s.offset as u64 + s.size);
            if a < g.fileoff || e > g.fileoff + g.filesize {
                return bad(format!(
                    "section {} [{:#x}..{:#x}] lies outside its segment's file range [{:#x}..{:#x}]",
                    n,
                    a,
                    e,
                    g.fileoff,
                    g.fileoff + g.filesize
                ));
            }
            flo = flo.min(a);
            fhi = fhi.max(e);
            regions.push((a, e, format!("contents of {}", n)));
        }
        if s.nreloc > 0 {
            let (a, e) = (s.reloff as u64, s.reloff as u64 + 8 * s.nreloc as u64);
            if a % 4 != 0 {
                return bad(format!("relocation table of {} at {:#x} misaligned", n, a));
            }
            regions.push((a, e, format!("relocations of {}", n)));
        } else if s.reloff as u64 > b.len() as u64 || s.reloff % 4 != 0 {
            return bad(format!("relocation offset of {} lies outside the file", n));
        }
        for r in &s.relocs {
            if r.addr < 0 || r.addr as u64 + (1 << r.len) > s.size {
                return bad(format!("relocation at {:#x} (width {}) lies outside {}", r.addr, 1 << r.len, n));
            }
            if r.ext && r.sym >= f.nsyms || !r.ext && (r.sym == 0 || r.sym as usize > f.sects.len()) {
                return bad(format!("relocation of {} designates entry {} of {}", n, r.sym, f.nsyms));
            }
        }
    }
    if f.sects.is_empty() {
        if g.vmsize != 0 || g.filesize != 0 {
            return bad("segment without sections is not empty".into());
        }
    } else {
        if g.vmaddr != lo || g.vmaddr + g.vmsize != hi {
            return bad(format!("segment spans [{:#x}..{:#x}], its sections [{:#x}..{:#x}]", g.vmaddr, g.vmaddr + g.vmsize, lo, hi));
        }
        let want = if flo == u64::MAX { 0 } else { fhi - flo };
        if g.filesize != want || (want > 0 && g.fileoff != flo) {
            return bad(format!(
                "segment's file range [{:#x}..{:#x}] is not that of its sections [{:#x}..{:#x}]",
                g.fileoff,
                g.fileoff + g.filesize,
                flo,
                fhi
            ));
        }
    }
    mem.sort();
    for w in mem.windows(2) {
        if w[1].0 < w[0].1 {
            return bad(format!("sections {} and {} overlap in memory", w[0].2, w[1].2));
        }
    }
    if f.nsyms > 0 && f.symoff % 8 != 0 {
        return bad(format!("symbol table at {:#x} misaligned", f.symoff));
    }
    regions.push((f.symoff as u64, f.symoff as u64 + 16 * f.nsyms as u64, "symbol table".into()));
    regions.push((f.stroff as u64, f.stroff as u64 + f.strsize as u64, "string table".into()));
    let st = &b[f.stroff as usize..(f.stroff + f.strsize) as usize];
    if f.nsyms > 0 && (st.first() != Some(&0) && st.first() != Some(&b' ') || st.last() != Some(&0)) {
        return bad("string table does not start and end with NUL".into());
    }
    for (k, s) in f.syms.iter().enumerate() {
        if s.typ & 0xe0 != 0 {
            return bad(format!("symbol {} is a debugging entry", k));
        }
        match s.kind() {
            N_SECT => {
                if s.sect == 0 || s.sect as usize > f.sects.len() {
                    return bad(format!("symbol {} {:?} is in section {} of {}", k, s.name, s.sect, f.sects.len()));
                }
            }
            N_ABS | N_UNDF => {}
            t => return bad(format!("symbol {} has type {:#x}", k, t)),
        }
    }
    regions.retain(|r| r.1 > r.0);
    regions.sort();
    for w in regions.windows(2) {
        if w[1].0 < w[0].1 {
            return bad(format!("{} [{:#x}..{:#x}] and {} [{:#x}..{:#x}] overlap", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1));
        }
        if w[1].0 - w[0].1 > 15 {
            return bad(format!("{} unaccounted bytes between {} and {}", w[1].0 - w[0].1, w[0].2, w[1].2));
        }
        if b[w[0].1 as usize..w[1].0 as usize].iter().any(|&x| x != 0) {
            return bad(format!("padding between {} and {} is not zero", w[0].2, w[1].2));
        }
    }
    let end = regions.last().unwrap().1;
    if end != b.len() as u64 {
        return bad(format!("file has {} bytes, its last table ends at {}", b.len(), end));
    }
    Ok(f)
}

/// bytes of a named section
pub fn quick_section(b: &[u8], name: &str) -> Result<Vec<u8>, String> {
    let f = parse(b)?;
    Ok(f.sects.iter().find(|s| s.sectname == name).map(|s| s.data.clone()).unwrap_or_default())
}
