//! Independent serialisers of the Mach-O structures from raw field values, in either byte order.
use crate::util::*;

pub struct Ser {
    pub b: Vec<u8>,
    pub be: bool,
}
impl Ser {
    pub fn new(be: bool) -> Ser {
        Ser { b: Vec::new(), be }
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x)
    }
    pub fn u32(&mut self, v: u32) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x)
    }
    pub fn u64(&mut self, v: u64) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x)
    }
    pub fn name(&mut self, s: &str) {
        let mut x = s.as_bytes().to_vec();
        x.resize(16, 0);
        self.b.extend_from_slice(&x[..16])
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawHeader {
    pub magic: u32,
    pub cputype: u32,
    pub cpusub: u32,
    pub filetype: u32,
    pub ncmds: u32,
    pub sizeofcmds: u32,
    pub flags: u32,
    pub reserved: u32,
}
impl RawHeader {
    pub fn ser(&self, be: bool) -> Vec<u8> {
        let mut s = Ser::new(be);
        for v in [
            self.magic,
            self.cputype,
            self.cpusub,
            self.filetype,
            self.ncmds,
            self.sizeofcmds,
            self.flags,
            self.reserved,
        ] {
            s.u32(v)
        }
        s.b
    }
}
pub const FILETYPES: [u32; 9] = [1, 2, 3, 4, 5, 6, 7, 8, 0xa];
pub const FLAGS: [u32; 16] = [
    0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x200000, 0x800000,
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawSect {
    pub sectname: String,
    pub segname: String,
    pub addr: u64,
    pub size: u64,
    pub w: [u32; 4], // offset align reloff nreloc
    pub flags: u32,
    pub res: [u32; 3],
}
pub const SECTTYPES: [u32; 7] = [0, 1, 2, 3, 4, 5, 0xb];
pub const SECTATTRS: [u32; 8] =
    [0x100, 0x200, 0x400, 0x0200_0000, 0x0800_0000, 0x2000_0000, 0x4000_0000, 0x8000_0000];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RawCmd {
    Segment {
        cmdsize: u32,
        segname: String,
        q: [u64; 4], // vmaddr vmsize fileoff filesize
        prot: [u32; 2],
        nsects: u32,
        flags: u32,
        sects: Vec<RawSect>,
    },
    Symtab { cmdsize: u32, f: [u32; 4] },
    Dysymtab { cmdsize: u32, f: [u32; 18] },
    Build { cmdsize: u32, platform: u32, minos: u32, sdk: u32, ntools: u32, tools: Vec<(u32, u32)> },
}
impl RawCmd {
    pub fn ser(&self, be: bool) -> Vec<u8> {
        let mut s = Ser::new(be);
        match self {
            RawCmd::Segment { cmdsize, segname, q, prot, nsects, flags, sects } => {
                s.u32(0x19);
                s.u32(*cmdsize);
                s.name(segname);
                for v in q {
                    s.u64(*v)
                }
                s.u32(prot[0]);
                s.u32(prot[1]);
                s.u32(*nsects);
                s.u32(*flags);
                for t in sects {
                    let mut x = Ser::new(be);
                    t.put(&mut x);
                    s.b.extend_from_slice(&x.b);
                }
            }
            RawCmd::Symtab { cmdsize, f } => {
                s.u32(2);
                s.u32(*cmdsize);
                for v in f {
                    s.u32(*v)
                }
            }
            RawCmd::Dysymtab { cmdsize, f } => {
                s.u32(0xb);
                s.u32(*cmdsize);
                for v in f {
                    s.u32(*v)
                }
            }
            RawCmd::Build { cmdsize, platform, minos, sdk, ntools, tools } => {
                s.u32(0x32);
                s.u32(*cmdsize);
                s.u32(*platform);
                s.u32(*minos);
                s.u32(*sdk);
                s.u32(*ntools);
                for (a, b) in tools {
                    s.u32(*a);
                    s.u32(*b);
                }
            }
        }
        s.b
    }
    pub fn kind(&self) -> &'static str {
        match self {
            RawCmd::Segment { .. } => "segment",
            RawCmd::Symtab { .. } => "symtab",
            RawCmd::Dysymtab { .. } => "dysymtab",
            RawCmd::Build { .. } => "build version",
        }
    }
}
impl RawSect {
    pub fn put(&self, s: &mut Ser) {
        s.name(&self.sectname);
        s.name(&self.segname);
        s.u64(self.addr);
        s.u64(self.size);
        for v in self.w {
            s.u32(v)
        }
        s.u32(self.flags);
        for v in self.res {
            s.u32(v)
        }
    }
    pub fn ser(&self, be: bool) -> Vec<u8> {
        let mut s = Ser::new(be);
        self.put(&mut s);
        s.b
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RawNlist {
    pub strx: u32,
    pub typ: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
impl RawNlist {
    pub fn ser(&self, be: bool) -> Vec<u8> {
        let mut s = Ser::new(be);
        s.u32(self.strx);
        s.u8(self.typ);
        s.u8(self.sect);
        s.u16(self.desc);
        s.u64(self.value);
        s.b
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RawReloc {
    pub addr: i32,
    pub sym: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ext: bool,
    pub typ: u8,
}
impl RawReloc {
    pub fn ser(&self, be: bool) -> Vec<u8> {
        let mut s = Ser::new(be);
        s.u32(self.addr as u32);
        // bit fields are allocated from the low end on little-endian machines, from the high end
        // on big-endian ones: symbolnum:24 pcrel:1 length:2 extern:1 type:4
        let w = if be {
            self.sym << 8 | (self.pcrel as u32) << 7 | (self.len as u32) << 5 | (self.ext as u32) << 4 | self.typ as u32
        } else {
            self.sym
                | (self.pcrel as u32) << 24
                | (self.len as u32) << 25
                | (self.ext as u32) << 27
                | (self.typ as u32) << 28
        };
        s.u32(w);
        s.b
    }
}

pub fn gen_name(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 2, 6, 7, 8, 15, 16, 16, 10]);
    if let Some(w) = r.word() {
        if w.len() <= 16 && w.bytes().all(|b| b != 0 && b < 0x80) {
            return w.into();
        }
    }
    let n = r.near(16, n);
    match r.below(16) {
        0 => return r.pick(&["__text", "__TEXT", "__data", "__DATA", "__bss", "__LINKEDIT", "__PAGEZERO", "__const", "__cstring", "__DWARF", "__debug_str", "__IMPORT", "__OBJC", "_", " ", "  a "]).to_string(),
        1 => {
            let c = (0x20 + r.below(0x5f)) as u8 as char;
            return (0..n).map(|_| c).collect();
        }
        _ => {}
    }
    (0..n).map(|_| (0x21 + r.below(0x5e)) as u8 as char).collect()
}
pub fn gen_sect(r: &mut Rng) -> RawSect {
    let mut flags = *r.pick(&SECTTYPES);
    for a in SECTATTRS {
        if r.chance(1, 3) {
            flags |= a;
        }
    }
    let (a, b) = (gen_name(r), gen_name(r));
    RawSect {
        segname: match r.below(12) {
            0 => a.clone(),
            1 => a.to_ascii_uppercase(),
            _ => b,
        },
        sectname: a,
        addr: r.edgy64(),
        size: r.edgy64(),
        w: [r.edgy32(), r.edgy32(), r.edgy32(), r.edgy32()],
        flags,
        res: [r.edgy32(), r.edgy32(), r.edgy32()],
    }
}
pub fn gen_cmd(r: &mut Rng) -> RawCmd {
    match r.below(4) {
        0 => {
            let n = *r.pick(&[0usize, 1, 2, 3, 3, 5, 17]);
            let n = r.near(300, n);
            let mut sects: Vec<RawSect> = (0..n).map(|_| gen_sect(r)).collect();
            let mut segname = gen_name(r);
            if n > 0 && r.chance(1, 6) {
                // sections like each other, or named like their segment
                let (i, k) = (r.below(n), r.below(n));
                match r.below(5) {
                    0 => sects[i] = sects[k].clone(),
                    1 => sects[i].sectname = sects[k].sectname.clone(),
                    2 => segname = sects[i].sectname.clone(),
                    3 => segname = sects[i].segname.clone(),
                    _ => sects[i].addr = sects[k].addr,
                }
            }
            RawCmd::Segment {
                cmdsize: 72 + 80 * n as u32,
                segname,
                q: [r.edgy64(), r.edgy64(), r.edgy64(), r.edgy64()],
                prot: [r.edgy32(), r.edgy32()],
                nsects: n as u32,
                flags: r.edgy32(),
                sects,
            }
        }
        1 => RawCmd::Symtab { cmdsize: 24, f: [r.edgy32(), r.edgy32(), r.edgy32(), r.edgy32()] },
        2 => {
            let mut f = [0u32; 18];
            for x in f.iter_mut() {
                *x = r.edgy32();
            }
            RawCmd::Dysymtab { cmdsize: 80, f }
        }
        _ => {
            let n = *r.pick(&[0usize, 1, 2, 3, 9]);
            let n = r.near(300, n);
            RawCmd::Build {
                cmdsize: 24 + 8 * n as u32,
                platform: r.range(1, 10) as u32,
                minos: r.edgy32(),
                sdk: r.edgy32(),
                ntools: n as u32,
                tools: (0..n).map(|_| (r.range(1, 3) as u32, r.edgy32())).collect(),
            }
        }
    }
}
pub fn gen_header(r: &mut Rng) -> RawHeader {
    let mut flags = 0;
    for f in FLAGS {
        if r.chance(1, 3) {
            flags |= f;
        }
    }
    RawHeader {
        magic: 0xfeed_facf,
        cputype: *r.pick(&[7u32, 0x0100_0007]),
        cpusub: 3,
        filetype: *r.pick(&FILETYPES),
        ncmds: r.edgy32(),
        sizeofcmds: r.edgy32(),
        flags,
        reserved: r.edgy32(),
    }
}
pub const NTYPES: [u8; 5] = [0, 2, 0xa, 0xc, 0xe];
pub fn gen_nlist(r: &mut Rng) -> RawNlist {
    let typ = if r.chance(1, 12) {
        0x20
    } else {
        *r.pick(&NTYPES) | if r.chance(1, 2) { 1 } else { 0 } | if r.chance(1, 2) { 0x10 } else { 0 }
    };
    let sect = r.next() as u8;
    let sect = r.hint(255).unwrap_or(sect as u64) as u8;
    RawNlist { strx: r.edgy32(), typ, sect, desc: r.edgy32() as u16, value: r.edgy64() }
}
pub fn gen_reloc(r: &mut Rng) -> RawReloc {
    RawReloc {
        addr: r.edgy32() as i32,
        sym: r.edgy32() & 0xff_ffff,
        pcrel: r.chance(1, 2),
        len: r.below(4) as u8,
        ext: r.chance(1, 2),
        typ: r.below(16) as u8,
    }
}
