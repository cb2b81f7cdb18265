//! M08: whole files made by other tools, read with the library, against what those tools say they hold.
use crate::core::*;
use crate::m::*;
use crate::spec::*;
use crate::util::*;
use crate::worker::*;
use at_mac::header::*;
use at_mac::load_command::*;
use at_mac::nlist::*;
use at_mac::reloc::*;
use at_mac::string_table::StringTable;
use std::io::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};

const BIN: &str = "/usr/lib/llvm-18/bin";

// ------------------------------------------------------------------ the YAML form of a file

#[derive(Default, Debug, Clone)]
struct Item {
    kv: Vec<(String, String)>,
    sects: Vec<Item>,
    rels: Vec<Item>,
    tools: Vec<Item>,
}
impl Item {
    fn get(&self, k: &str) -> Option<&str> {
        self.kv.iter().find(|(a, _)| a == k).map(|x| x.1.as_str())
    }
    fn num(&self, k: &str) -> Result<u64, String> {
        let v = self.get(k).ok_or_else(|| format!("HARNESS no {} in {:?}", k, self.kv))?;
        let t = v.trim_matches('\'');
        if let Some(h) = t.strip_prefix("0x") {
            return u64::from_str_radix(h, 16).map_err(|e| format!("HARNESS {}: {}", v, e));
        }
        if let Ok(x) = t.parse::<i64>() {
            return Ok(x as u64);
        }
        t.parse::<u64>().map_err(|e| format!("HARNESS {} {}: {}", k, v, e))
    }
    fn u32(&self, k: &str) -> Result<u32, String> {
        self.num(k).map(|x| x as u32)
    }
    fn yes(&self, k: &str) -> Result<bool, String> {
        Ok(self.get(k).ok_or_else(|| format!("HARNESS no {}", k))? == "true")
    }
    fn text(&self, k: &str) -> Result<String, String> {
        let v = self.get(k).ok_or_else(|| format!("HARNESS no {}", k))?;
        Ok(if v.len() >= 2 && v.starts_with('\'') && v.ends_with('\'') { v[1..v.len() - 1].replace("''", "'") } else { v.to_string() })
    }
}

#[derive(Default, Debug, Clone)]
struct Doc {
    big: bool,
    head: Item,
    cmds: Vec<Item>,
    syms: Vec<Item>,
}

/// the text written by obj2yaml
fn parse_yaml(t: &str) -> Result<Doc, String> {
    let mut d = Doc::default();
    let mut top = String::new();
    let mut sub = String::new();
    let mut subsub = false;
    for l in t.lines() {
        let s = l.trim_start();
        let mut ind = l.len() - s.len();
        let (dash, s) = match s.strip_prefix("- ") {
            Some(r) => (true, r),
            None => (false, s),
        };
        if dash {
            ind += 2;
        }
        let (k, v) = match s.split_once(':') {
            Some((k, v)) => (k.trim().to_string(), v.trim().to_string()),
            None => continue,
        };
        if ind == 0 {
            if k == "IsLittleEndian" {
                d.big = v == "false";
            }
            top = k;
            sub.clear();
            continue;
        }
        match top.as_str() {
            "FileHeader" => d.head.kv.push((k, v)),
            "LoadCommands" => {
                if ind == 4 {
                    if dash {
                        d.cmds.push(Item::default());
                        sub.clear();
                    }
                    let c = d.cmds.last_mut().ok_or("HARNESS key before command")?;
                    if v.is_empty() {
                        sub = k;
                    } else {
                        sub.clear();
                        c.kv.push((k, v));
                    }
                    continue;
                }
                let c = d.cmds.last_mut().ok_or("HARNESS key before command")?;
                match (sub.as_str(), ind) {
                    ("Tools", 8) => {
                        if dash {
                            c.tools.push(Item::default());
                        }
                        c.tools.last_mut().ok_or("HARNESS tool")?.kv.push((k, v));
                    }
                    ("Sections", 8) => {
                        if dash {
                            c.sects.push(Item::default());
                        }
                        subsub = k == "relocations";
                        c.sects.last_mut().ok_or("HARNESS section")?.kv.push((k, v));
                    }
                    ("Sections", 12) if subsub => {
                        let x = c.sects.last_mut().ok_or("HARNESS section")?;
                        if dash {
                            x.rels.push(Item::default());
                        }
                        x.rels.last_mut().ok_or("HARNESS relocation")?.kv.push((k, v));
                    }
                    _ => {}
                }
            }
            "LinkEditData" => {
                if ind == 2 {
                    sub = k;
                } else if sub == "NameList" && ind == 6 {
                    if dash {
                        d.syms.push(Item::default());
                    }
                    d.syms.last_mut().ok_or("HARNESS symbol")?.kv.push((k, v));
                }
            }
            _ => {}
        }
    }
    Ok(d)
}

/// None: a structure or code the library does not know
fn raw_header(d: &Doc) -> Result<Option<RawHeader>, String> {
    let h = &d.head;
    let r = RawHeader {
        magic: h.u32("magic")?,
        cputype: h.u32("cputype")?,
        cpusub: h.u32("cpusubtype")?,
        filetype: h.u32("filetype")?,
        ncmds: h.u32("ncmds")?,
        sizeofcmds: h.u32("sizeofcmds")?,
        flags: h.u32("flags")?,
        reserved: h.u32("reserved")?,
    };
    let known = FLAGS.iter().fold(0, |a, b| a | b);
    Ok(if FILETYPES.contains(&r.filetype) && r.flags & !known == 0 && r.cpusub == 3 && (r.cputype == 7 || r.cputype == 0x0100_0007) { Some(r) } else { None })
}

fn raw_cmd(c: &Item) -> Result<Option<RawCmd>, String> {
    let cmdsize = c.u32("cmdsize")?;
    Ok(Some(match c.get("cmd").unwrap_or("") {
        "LC_SEGMENT_64" => {
            let mut sects = Vec::new();
            let known = SECTATTRS.iter().fold(0, |a, b| a | b);
            for s in &c.sects {
                let flags = s.u32("flags")?;
                if flags & 0xffff_ff00 & !known != 0 || !SECTTYPES.contains(&(flags & 0xff)) {
                    return Ok(None);
                }
                sects.push(RawSect {
                    sectname: s.text("sectname")?,
                    segname: s.text("segname")?,
                    addr: s.num("addr")?,
                    size: s.num("size")?,
                    w: [s.u32("offset")?, s.u32("align")?, s.u32("reloff")?, s.u32("nreloc")?],
                    flags,
                    res: [s.u32("reserved1")?, s.u32("reserved2")?, s.u32("reserved3")?],
                });
            }
            RawCmd::Segment {
                cmdsize,
                segname: c.text("segname")?,
                q: [c.num("vmaddr")?, c.num("vmsize")?, c.num("fileoff")?, c.num("filesize")?],
                prot: [c.u32("maxprot")?, c.u32("initprot")?],
                nsects: c.u32("nsects")?,
                flags: c.u32("flags")?,
                sects,
            }
        }
        "LC_SYMTAB" => RawCmd::Symtab { cmdsize, f: [c.u32("symoff")?, c.u32("nsyms")?, c.u32("stroff")?, c.u32("strsize")?] },
        "LC_DYSYMTAB" => {
            let mut f = [0u32; 18];
            for (x, k) in f.iter_mut().zip([
                "ilocalsym", "nlocalsym", "iextdefsym", "nextdefsym", "iundefsym", "nundefsym", "tocoff", "ntoc", "modtaboff", "nmodtab", "extrefsymoff",
                "nextrefsyms", "indirectsymoff", "nindirectsyms", "extreloff", "nextrel", "locreloff", "nlocrel",
            ]) {
                *x = c.u32(k)?;
            }
            RawCmd::Dysymtab { cmdsize, f }
        }
        "LC_BUILD_VERSION" => {
            let mut tools = Vec::new();
            for t in &c.tools {
                tools.push((t.u32("tool")?, t.u32("version")?));
            }
            let platform = c.u32("platform")?;
            if platform == 0 || platform > 10 || tools.iter().any(|t| t.0 == 0 || t.0 > 3) {
                return Ok(None);
            }
            RawCmd::Build { cmdsize, platform, minos: c.u32("minos")?, sdk: c.u32("sdk")?, ntools: c.u32("ntools")?, tools }
        }
        _ => return Ok(None),
    }))
}

fn raw_reloc(r: &Item) -> Result<Option<RawReloc>, String> {
    if r.yes("scattered")? {
        return Ok(None);
    }
    Ok(Some(RawReloc {
        addr: r.u32("address")? as i32,
        sym: r.u32("symbolnum")?,
        pcrel: r.yes("pcrel")?,
        len: r.u32("length")? as u8,
        ext: r.yes("extern")?,
        typ: r.u32("type")? as u8,
    }))
}

fn raw_nlist(y: &Item) -> Result<Option<RawNlist>, String> {
    let n = RawNlist { strx: y.u32("n_strx")?, typ: y.u32("n_type")? as u8, sect: y.u32("n_sect")? as u8, desc: y.u32("n_desc")? as u16, value: y.num("n_value")? };
    Ok(if n.typ == 0x20 || (n.typ & 0xe0 == 0 && NTYPES.contains(&(n.typ & 0xe))) { Some(n) } else { None })
}

// ------------------------------------------------------------------ the judgement

/// What the library reads from `b` is what `d` says the file holds.
fn judge_file(c: &mut Ctx, what: &str, b: &[u8], d: &Doc) -> Result<(), String> {
    let show = || format!("reading a file of {} ({} bytes)\n{}", what, b.len(), hex(&b[..b.len().min(6000)]));
    let (n_head, mut n_cmd, mut n_rel, mut n_sym, mut n_str, mut n_unk, mut n_same) = (1u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let h = match raw_header(d)? {
        Some(h) => h,
        None => {
            c.ev("headers with codes the library does not know (not judged)");
            return Ok(());
        }
    };
    if h.magic != 0xfeed_facf || b.len() < 32 {
        return Err(format!("LAYOUT magic {:x}", h.magic));
    }
    let mut want = to_header(&h);
    if d.big {
        want.magic = Magic::Cigam64;
    }
    let mut src = b;
    let (got, end) = c.sut(show, || Header64::read_from(&mut src)).map_err(|e| format!("the header is refused: {}", e))?;
    if got != want {
        return Err(format!("the header is read as {:?}, the file holds {:?}", got, want));
    }
    if b.len() - src.len() != 32 {
        return Err(format!("reading the header takes {} bytes", b.len() - src.len()));
    }
    let again = c
        .sut(show, || {
            let mut o = Vec::new();
            got.write_into(&mut o);
            o
        })
        .map_err(|e| format!("the header read is not written: {}", e))?;
    if again != b[..32] {
        return Err(format!("the header read is written as {}, the file has {}", hex(&again), hex(&b[..32])));
    }
    n_same += 1;
    // the commands, one after another as far as they are known, and each by itself
    let mut seq = Some(32usize);
    let mut at = 32usize;
    let mut tabs: Option<[u32; 4]> = None;
    let mut sects: Vec<(RawSect, &Item)> = Vec::new();
    for (i, it) in d.cmds.iter().enumerate() {
        let size = it.u32("cmdsize")? as usize;
        let raw = match raw_cmd(it)? {
            Some(r) => r,
            None => {
                n_unk += 1;
                seq = None;
                at += size;
                continue;
            }
        };
        if at + size > b.len() {
            return Err("LAYOUT load command outside the file".into());
        }
        let want = to_cmd(&raw);
        let mut src = match seq {
            Some(q) => &b[q..],
            None => &b[at..],
        };
        let before = src.len();
        let got = c.sut(show, || LoadCommand::read_from_in(&mut src, end)).map_err(|e| format!("load command {} is refused: {}", i, e))?;
        if got != want {
            return Err(format!("load command {} is read as {:?}, the file holds {:?}", i, got, want));
        }
        if before - src.len() != size {
            return Err(format!("reading load command {} of {} bytes takes {}", i, size, before - src.len()));
        }
        if !d.big {
            let again = c
                .sut(show, || {
                    let mut o = Vec::new();
                    got.write_into(&mut o);
                    o
                })
                .map_err(|e| format!("load command {} is not written: {}", i, e))?;
            if again != b[at..at + size] {
                return Err(format!("load command {} is written as {}, the file has {}", i, hex(&again), hex(&b[at..at + size])));
            }
            n_same += 1;
        }
        if let Some(q) = &mut seq {
            *q += size;
        }
        at += size;
        n_cmd += 1;
        match raw {
            RawCmd::Symtab { f, .. } => tabs = Some(f),
            RawCmd::Segment { sects: s, .. } => sects.extend(s.into_iter().zip(it.sects.iter())),
            _ => {}
        }
    }
    // relocations where the sections say they are
    for (s, it) in &sects {
        if it.rels.len() != s.w[3] as usize {
            if it.rels.is_empty() {
                continue;
            }
            return Err(format!("LAYOUT {} relocations reported, {} announced", it.rels.len(), s.w[3]));
        }
        if s.w[3] == 0 {
            continue;
        }
        let mut src = b.get(s.w[2] as usize..).ok_or("LAYOUT relocations outside the file")?;
        if src.len() < 8 * it.rels.len() {
            return Err("LAYOUT relocations outside the file".into());
        }
        for (k, r) in it.rels.iter().enumerate() {
            let raw = match raw_reloc(r)? {
                Some(r) => r,
                None => {
                    n_unk += 1;
                    src = &src[8..];
                    continue;
                }
            };
            let here = &src[..8];
            let got = c.sut(show, || RelocationInfo::read_from_in(&mut src, end)).map_err(|e| format!("relocation {} of {} is refused: {}", k, s.sectname, e))?;
            if got != to_reloc(&raw) {
                return Err(format!("relocation {} of {} is read as {:?}, the file holds {:?}", k, s.sectname, got, raw));
            }
            if !d.big {
                let again = c
                    .sut(show, || {
                        let mut o = Vec::new();
                        got.write_into(&mut o);
                        o
                    })
                    .map_err(|e| format!("relocation {} is not written: {}", k, e))?;
                if again != here {
                    return Err(format!("relocation {} is written as {}, the file has {}", k, hex(&again), hex(here)));
                }
                n_same += 1;
            }
            n_rel += 1;
        }
    }
    // symbols and their names where the symbol table command says they are
    if let Some([symoff, nsyms, stroff, strsize]) = tabs {
        if d.syms.len() != nsyms as usize {
            return Err(format!("LAYOUT {} symbols reported, {} announced", d.syms.len(), nsyms));
        }
        let strs = b.get(stroff as usize..stroff as usize + strsize as usize).ok_or("LAYOUT strings outside the file")?;
        let table = if strs.first() == Some(&0) && strs.last() == Some(&0) && strs.is_ascii() {
            let t = c.sut(show, || StringTable::from(strs.to_vec())).map_err(|e| format!("the string table is refused: {}", e))?;
            if t.as_ref() != strs || t.len() != strs.len() {
                return Err("the string table does not keep its bytes".into());
            }
            let listed = c.sut(show, || t.iter().map(|s| s.to_string()).collect::<Vec<_>>()).map_err(|e| format!("the string table is not listed: {}", e))?;
            // every string, in order; how the end is listed is left open
            let text = String::from_utf8(strs.to_vec()).unwrap();
            let mut exp: Vec<&str> = text.split('\0').skip(1).collect();
            let mut listed: Vec<&str> = listed.iter().map(|x| x.as_str()).collect();
            while exp.last() == Some(&"") {
                exp.pop();
            }
            while listed.last() == Some(&"") {
                listed.pop();
            }
            if exp != listed {
                return Err(format!("the string table is listed as {:?}, the file holds {:?}", listed, exp));
            }
            Some(t)
        } else {
            c.ev("string tables of a form the library does not take (not judged)");
            None
        };
        let mut src = b.get(symoff as usize..).ok_or("LAYOUT symbols outside the file")?;
        if src.len() < 16 * d.syms.len() {
            return Err("LAYOUT symbols outside the file".into());
        }
        for (k, y) in d.syms.iter().enumerate() {
            let raw = match raw_nlist(y)? {
                Some(r) => r,
                None => {
                    n_unk += 1;
                    src = &src[16..];
                    continue;
                }
            };
            let here = &src[..16];
            let got = c.sut(show, || NList64::read_from_in(&mut src, end)).map_err(|e| format!("symbol {} is refused: {}", k, e))?;
            if got != to_nlist(&raw) {
                return Err(format!("symbol {} is read as {:?}, the file holds {:?}", k, got, raw));
            }
            if !d.big {
                let again = c
                    .sut(show, || {
                        let mut o = Vec::new();
                        got.write_into(&mut o);
                        o
                    })
                    .map_err(|e| format!("symbol {} is not written: {}", k, e))?;
                if again != here {
                    return Err(format!("symbol {} is written as {}, the file has {}", k, hex(&again), hex(here)));
                }
                n_same += 1;
            }
            n_sym += 1;
            if let Some(t) = &table {
                if (raw.strx as usize) < strs.len() {
                    let want: Vec<u8> = strs[raw.strx as usize..].iter().take_while(|x| **x != 0).copied().collect();
                    let name = c.sut(show, || t.get(raw.strx as usize).to_string()).map_err(|e| format!("the name of symbol {} is refused: {}", k, e))?;
                    if name.as_bytes() != want {
                        return Err(format!("symbol {} is named {:?}, in the file {:?}", k, name, String::from_utf8_lossy(&want)));
                    }
                    n_str += 1;
                }
            }
        }
    }
    c.evn("headers read", n_head);
    c.evn("load commands read", n_cmd);
    c.evn("relocations read", n_rel);
    c.evn("symbols read", n_sym);
    c.evn("symbol names looked up", n_str);
    c.evn("structures written back as they are in the file", n_same);
    c.evn("structures the library does not know (not judged)", n_unk);
    c.ev(&format!("files read: {}{}", what, if d.big { ", big-endian" } else { "" }));
    Ok(())
}

// ------------------------------------------------------------------ the other tools

fn pipe(tool: &str, args: &[&str], input: &[u8]) -> Result<Vec<u8>, String> {
    let mut p = Command::new(format!("{}/{}", BIN, tool))
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("HARNESS {}: {}", tool, e))?;
    let mut si = p.stdin.take().unwrap();
    let input = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(&input);
    });
    let o = p.wait_with_output().map_err(|e| format!("HARNESS {}: {}", tool, e))?;
    let _ = t.join();
    if o.status.success() {
        Ok(o.stdout)
    } else {
        Err(clip(&String::from_utf8_lossy(&o.stderr), 600))
    }
}

fn ident(r: &mut Rng) -> String {
    let n = r.range(1, 14);
    let n = if r.chance(1, 20) { r.range(15, 300) } else { n };
    let mut s: String = (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_$.") as char).collect();
    s.insert(0, '_');
    s
}

/// a source for llvm-mc that exercises sections, symbols and relocations of every sort
fn source(r: &mut Rng) -> String {
    let mut o = String::new();
    if r.chance(4, 5) {
        let p = *r.pick(&["macos", "ios", "tvos", "watchos", "bridgeos", "macCatalyst", "iossimulator", "tvossimulator", "watchossimulator", "driverkit"]);
        o.push_str(&format!(" .build_version {}, {}, {}", p, r.range(1, 65535), r.below(256)));
        if r.chance(1, 2) {
            o.push_str(&format!(", {}", r.below(256)));
        }
        if r.chance(1, 2) {
            o.push_str(&format!(" sdk_version {}, {}", r.range(1, 65535), r.below(256)));
            if r.chance(1, 2) {
                o.push_str(&format!(", {}", r.below(256)));
            }
        }
        o.push('\n');
    }
    let nl = r.range(1, 12);
    let labels: Vec<String> = (0..nl).map(|i| format!("{}{}", ident(r), i)).collect();
    let ne = r.below(5);
    let externs: Vec<String> = (0..ne).map(|i| format!("{}.e{}", ident(r), i)).collect();
    let ns = r.range(1, 7);
    let per = (nl + ns - 1) / ns;
    for k in 0..ns {
        let sec = format!("__s{}{}", k, &ident(r)[1..].chars().take(r.below(12)).filter(|c| c.is_ascii_alphanumeric()).collect::<String>());
        let seg = *r.pick(&["__TEXT", "__DATA", "__LD", "__D"]);
        let kind = r.below(10);
        match kind {
            0 | 1 | 2 => o.push_str(" .section __TEXT,__text,regular,pure_instructions\n"),
            3 => o.push_str(" .data\n"),
            4 => o.push_str(&format!(" .section {},{},{}\n", seg, sec, r.pick(&["cstring_literals", "4byte_literals", "8byte_literals", "literal_pointers"]))),
            _ => {
                let t = *r.pick(&["regular", "regular", "coalesced"]);
                let mut at: Vec<&str> = Vec::new();
                for a in ["pure_instructions", "no_toc", "strip_static_syms", "live_support", "debug"] {
                    if r.chance(1, 4) {
                        at.push(a);
                    }
                }
                o.push_str(&format!(" .section {},{},{}{}{}\n", seg, sec, t, if at.is_empty() { "" } else { "," }, at.join("+")));
            }
        }
        let code = kind <= 2;
        if r.chance(1, 3) {
            o.push_str(&format!(" .p2align {}\n", r.below(13)));
        }
        for (i, l) in labels.iter().enumerate() {
            if i / per != k {
                continue;
            }
            match r.below(6) {
                0 => o.push_str(&format!(" .globl {}\n", l)),
                1 => o.push_str(&format!(" .private_extern {}\n", l)),
                2 => o.push_str(&format!(" .globl {}\n .weak_definition {}\n", l, l)),
                _ => {}
            }
            if r.chance(1, 8) {
                o.push_str(&format!(" .desc {}, {}\n", l, r.below(65536)));
            }
            o.push_str(&format!("{}:\n", l));
            for _ in 0..r.below(6) {
                let t = if !externs.is_empty() && r.chance(1, 3) { r.pick(&externs).clone() } else { r.pick(&labels).clone() };
                let add = if r.chance(1, 2) { String::new() } else { format!("+{}", r.below(500)) };
                if kind == 4 {
                    o.push_str(&format!(" .quad {}{}\n", t, add));
                } else if code {
                    o.push_str(&match r.below(9) {
                        0 => format!(" callq {}\n", t),
                        1 => format!(" movq {}@GOTPCREL(%rip), %rax\n", t),
                        2 => format!(" leaq {}{}(%rip), %rdi\n", t, add),
                        3 => format!(" movl $7, {}{}(%rip)\n", t, add),
                        4 => format!(" movb $7, {}(%rip)\n", t),
                        5 => format!(" movw $7, {}(%rip)\n", t),
                        6 => format!(" pushq {}@GOTPCREL(%rip)\n", t),
                        7 => format!(" movabsq ${}{}, %rcx\n", t, add),
                        _ => " nop\n".into(),
                    });
                } else {
                    o.push_str(&match r.below(6) {
                        0 => format!(" .quad {}{}\n", t, add),
                        1 => format!(" .quad {}-{}{}\n", r.pick(&labels), l, add),
                        2 => format!(" .long {}-{}\n", r.pick(&labels), l),
                        3 => format!(" .long {}@GOTPCREL+4\n", t),
                        4 => format!(" .ascii \"{}\"\n", &ident(r)),
                        _ => format!(" .fill {}, 1, {}\n", r.below(70), r.below(256)),
                    });
                }
            }
            // no label is the last thing in a section
            o.push_str(if kind == 4 { " .quad 1\n" } else { " .byte 0x90\n" });
        }
    }
    for i in 0..r.below(4) {
        match r.below(5) {
            0 => o.push_str(&format!(" .zerofill __DATA,__bss,{}.z{},{},{}\n", ident(r), i, r.edgy32() & 0xf_ffff, r.below(8))),
            1 => o.push_str(&format!(" .comm {}.c{},{},{}\n", ident(r), i, r.range(1, 100_000), r.below(12))),
            2 => o.push_str(&format!(" .set {}.a{}, {}\n", ident(r), i, r.edgy64())),
            3 => {
                let n = ident(r);
                o.push_str(&format!(" .globl {}.g{}\n .set {}.g{}, {}\n", n, i, n, i, r.edgy64()));
            }
            _ => {
                if let Some(e) = externs.first() {
                    o.push_str(&format!(" .weak_reference {}\n", e));
                }
            }
        }
    }
    if r.chance(1, 2) {
        o.push_str(" .subsections_via_symbols\n");
    }
    o
}

/// other values in the YAML form of a file (but not reserved3: yaml2obj writes it in the host's order always)
fn vary(r: &mut Rng, t: &str, p: usize) -> String {
    let mut o = String::new();
    let mut strings = false;
    for l in t.lines() {
        let s = l.trim_start();
        // a string taken out: as many empty ones
        if s == "StringTable:" {
            strings = true;
        } else if strings && s.starts_with("- ") {
            let n = s.len() - 2 + 1;
            if !s.contains('\'') && r.chance(1, p) {
                for _ in 0..n {
                    o.push_str("    - ''\n");
                }
                continue;
            }
        } else if !s.starts_with("- ") {
            strings = false;
        }
        let k = s.strip_prefix("- ").unwrap_or(s).split(':').next().unwrap_or("");
        let pre = l.find(':').map(|i| &l[..i]).unwrap_or("");
        let v: Option<String> = if !r.chance(1, p) {
            None
        } else {
            match k {
                "n_strx" => {
                    let now: usize = s.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    Some(format!("{}", r.below(now + 1)))
                }
                "n_desc" => Some(format!("{}", r.edgy32() & 0xffff)),
                "n_value" => Some(format!("{}", r.edgy64())),
                "n_sect" => Some(format!("{}", r.below(256))),
                "n_type" => Some(format!("0x{:X}", gen_nlist(r).typ)),
                "address" => Some(format!("0x{:X}", r.edgy32() & 0x7fff_ffff)),
                "symbolnum" => Some(format!("{}", r.edgy32() & 0xff_ffff)),
                "pcrel" | "extern" => Some(r.pick(&["true", "false"]).to_string()),
                "length" => Some(format!("{}", r.below(4))),
                "type" => Some(format!("{}", r.below(16))),
                "minos" | "sdk" | "align" | "vmaddr" | "vmsize" | "iundefsym" | "nundefsym" | "ilocalsym" | "iextdefsym" | "tocoff" | "ntoc" | "modtaboff" | "nmodtab"
                | "extrefsymoff" | "nextrefsyms" | "extreloff" | "nextrel" | "locreloff" | "nlocrel" => Some(format!("{}", r.edgy32())),
                "platform" => Some(format!("{}", r.range(1, 10))),
                "reserved1" | "reserved2" | "reserved" => Some(format!("0x{:X}", r.edgy32())),
                "filetype" => Some(format!("0x{:X}", r.pick(&FILETYPES))),
                "maxprot" | "initprot" => Some(format!("{}", r.edgy32() & 0x7fff_ffff)),
                "addr" => Some(format!("0x{:X}", r.edgy64())),
                _ => None,
            }
        };
        match v {
            Some(v) => o.push_str(&format!("{}: {}\n", pre, v)),
            None => {
                o.push_str(l);
                o.push('\n');
            }
        }
    }
    o
}

/// read `b` through the tools and the library; also its other byte order and relatives of it
fn file(c: &mut Ctx, what: &str, b: &[u8], kin: usize) -> Result<(), String> {
    let y = pipe("obj2yaml", &["-"], b).map_err(|e| if e.starts_with("HARNESS") { e } else { format!("LAYOUT obj2yaml: {}", e) })?;
    let y = String::from_utf8_lossy(&y).into_owned();
    let d = parse_yaml(&y)?;
    c.case(fnv(b));
    judge_file(c, what, b, &d)?;
    for k in 0..kin {
        let mut t = y.clone();
        if k > 0 || c.rng.chance(1, 2) {
            let p = *c.rng.pick(&[2usize, 6, 30]);
            t = vary(&mut c.rng, &t, p);
        }
        if k % 2 == 0 {
            t = t.replacen("--- !mach-o\n", "--- !mach-o\nIsLittleEndian: false\n", 1);
        }
        let nb = match pipe("yaml2obj", &["-"], t.as_bytes()) {
            Ok(nb) => nb,
            Err(e) if e.starts_with("HARNESS") => return Err(e),
            Err(_) => {
                c.ev("variants the tool does not write (not judged)");
                continue;
            }
        };
        c.case(fnv(&nb));
        let d = parse_yaml(&t)?;
        judge_file(c, &format!("yaml2obj from {}", what), &nb, &d).map_err(|e| format!("{}\nfile: {}", e, clip(&t, 6000)))?;
    }
    Ok(())
}

/// the YAML form of a file with one command of many entries and the same command again, small
fn wide(r: &mut Rng, n: usize, segment: bool) -> String {
    let counts = [n, 1 + r.below(3)];
    let (head, each) = if segment { (72, 80) } else { (24, 8) };
    let total: usize = counts.iter().map(|n| head + each * n).sum();
    let mut o = format!(
        "--- !mach-o\n{}FileHeader:\n  magic:           0xFEEDFACF\n  cputype:         0x1000007\n  cpusubtype:      0x3\n  filetype:        0x1\n  ncmds:           2\n  sizeofcmds:      {}\n  flags:           0x0\n  reserved:        0x0\nLoadCommands:\n",
        if r.chance(1, 2) { "IsLittleEndian: false\n" } else { "" },
        total
    );
    for n in counts {
        let size = head + each * n;
        if segment {
            o.push_str(&format!(
                "  - cmd:             LC_SEGMENT_64\n    cmdsize:         {}\n    segname:         ''\n    vmaddr:          0\n    vmsize:          {}\n    fileoff:         {}\n    filesize:        0\n    maxprot:         7\n    initprot:        7\n    nsects:          {}\n    flags:           0\n    Sections:\n",
                size, n, 32 + total, n
            ));
            for k in 0..n {
                o.push_str(&format!(
                    "      - sectname:        z{}\n        segname:         __DATA\n        addr:            0x{:X}\n        size:            1\n        offset:          0x0\n        align:           0\n        reloff:          0x0\n        nreloc:          0\n        flags:           0x1\n        reserved1:       0x0\n        reserved2:       0x0\n        reserved3:       0x0\n",
                    k, k
                ));
            }
        } else {
            o.push_str(&format!(
                "  - cmd:             LC_BUILD_VERSION\n    cmdsize:         {}\n    platform:        {}\n    minos:           {}\n    sdk:             {}\n    ntools:          {}\n    Tools:\n",
                size,
                1 + r.below(10),
                r.edgy32(),
                r.edgy32(),
                n
            ));
            for _ in 0..n {
                o.push_str(&format!("      - tool:            {}\n        version:         {}\n", 1 + r.below(3), r.edgy32()));
            }
        }
    }
    o.push_str("...\n");
    o
}

pub fn m08(c: &mut Ctx) {
    if !Path::new(&format!("{}/obj2yaml", BIN)).exists() {
        c.note("the LLVM tools are not installed");
        return;
    }
    let report = |c: &mut Ctx, r: Result<(), String>, own: bool, show: String| match r {
        Ok(()) => {}
        Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
        Err(e) if e.starts_with("LAYOUT") => {
            if !own {
                panic!("HARNESS {}", e)
            }
            c.ev("own objects the tools do not take (another property's matter)")
        }
        Err(e) => c.viol(format!("{}\n{}", e, clip(&show, 6000))),
    };
    // commands with more entries than a small number counts
    c.phase(15);
    for (j, n) in [1usize, 127, 255, 256, 257, 300, 1000, 4097, 40_000, 65_535, 65_537].into_iter().enumerate() {
        for segment in [false, true] {
            if !c.mine(2 * j + segment as usize) || c.stop() || (segment && n > 5000) {
                continue;
            }
            c.alive();
            let t = wide(&mut c.rng, n, segment);
            let nb = match pipe("yaml2obj", &["-"], t.as_bytes()) {
                Ok(nb) => nb,
                Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
                Err(_) => {
                    c.ev("variants the tool does not write (not judged)");
                    continue;
                }
            };
            c.case(fnv(&nb));
            let r = parse_yaml(&t).and_then(|d| judge_file(c, "yaml2obj, a command of many entries", &nb, &d));
            c.ev("files with a command of many entries");
            report(c, r, false, clip(&t, 1500).to_string());
        }
    }
    // files assembled by llvm-mc
    c.phase(50);
    for _ in 0..c.n(60, 6000) {
        if c.stop() {
            break;
        }
        c.alive();
        let s = source(&mut c.rng);
        let b = match pipe("llvm-mc", &["-filetype=obj", "-triple", "x86_64-apple-macos11", "-"], s.as_bytes()) {
            Ok(b) => b,
            Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
            Err(_) => {
                c.ev("sources llvm-mc does not take (not judged)");
                continue;
            }
        };
        c.sample(|| s.clone());
        let r = file(c, "llvm-mc", &b, 3);
        report(c, r, false, format!("source:\n{}", s));
    }
    // the library's own objects, as they are and rewritten by llvm-objcopy
    c.phase(75);
    for k in 0..c.n(40, 3000) {
        if c.stop() {
            break;
        }
        c.alive();
        let size = *c.rng.pick(&[crate::objgen::Size::Small, crate::objgen::Size::Small, crate::objgen::Size::Medium]);
        let s = crate::objgen::gen(&mut c.rng, size);
        let o = crate::objgen::build(&s);
        let mut b = Vec::new();
        let b = match c.sut(|| s.show(), || at_obj::macho::write_into(&o, &mut b)).map(|_| b) {
            Ok(b) => b,
            Err(_) => {
                c.ev("objects not written (another property's matter)");
                continue;
            }
        };
        let r = file(c, "at-obj", &b, 1);
        report(c, r, true, s.show());
        if k % 3 == 0 {
            let f = c.dir.join(format!("m8-{}.o", c.shard));
            let g = c.dir.join(format!("m8-{}.x.o", c.shard));
            std::fs::write(&f, &b).unwrap();
            let o = Command::new(format!("{}/llvm-objcopy", BIN)).arg(&f).arg(&g).output().expect("llvm-objcopy");
            if o.status.success() {
                let nb = std::fs::read(&g).unwrap();
                let r = file(c, "llvm-objcopy", &nb, 0);
                report(c, r, true, s.show());
            } else {
                c.ev("objects llvm-objcopy does not take (not judged)");
            }
            let _ = std::fs::remove_file(&f);
            let _ = std::fs::remove_file(&g);
        }
    }
    // objects of programs, and what ld64.lld makes of them
    c.phase(100);
    let mut wk = crate::o::new_worker(c, "m08");
    for k in 0..c.n(24, 2000) {
        if c.stop() {
            break;
        }
        c.alive();
        let len = c.rng.range(2, 25);
        let o = crate::asmgen::Opts { ref32: false, ..crate::asmgen::Opts::mixed(len) };
        let mut p = vec![crate::asmgen::Stmt::Global("_entry0".into()), crate::asmgen::Stmt::Label("_entry0".into()), crate::asmgen::Stmt::Ret];
        p.extend(crate::asmgen::gen(&mut c.rng, &o));
        let src = crate::asmgen::plain(&p);
        let b = match wk.assemble(src.as_bytes()) {
            Res::Ok(b) => b,
            _ => {
                c.ev("programs not assembled (another property's matter)");
                continue;
            }
        };
        let r = file(c, "at-asm", &b, 1);
        report(c, r, true, format!("source:\n{}", src));
        if k % 2 == 0 {
            let f = c.dir.join(format!("m8p-{}.o", c.shard));
            let g = c.dir.join(format!("m8p-{}.out", c.shard));
            std::fs::write(&f, &b).unwrap();
            let kind = *c.rng.pick(&["-execute", "-dylib", "-bundle"]);
            let mut cmd = Command::new(crate::o::LLD);
            cmd.args(["-arch", "x86_64", "-platform_version", c.rng.pick(&["macos", "ios", "tvos", "watchos"]), "11.3.5", "12.1", kind, "-o"]).arg(&g).arg(&f);
            if kind == "-execute" {
                cmd.args(["-e", "_entry0"]);
            }
            match cmd.output() {
                Ok(o) if o.status.success() => {
                    let nb = std::fs::read(&g).unwrap();
                    let r = file(c, "ld64.lld", &nb, 0);
                    report(c, r, true, format!("source:\n{}", src));
                }
                _ => c.ev("programs ld64.lld does not link here (not judged)"),
            }
            let _ = std::fs::remove_file(&f);
            let _ = std::fs::remove_file(&g);
        }
    }
}
