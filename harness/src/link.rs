//! A minimal independent linker for the objects, and the walk that lays a program's statements over
//! the bytes of an object.
use crate::asmgen::*;
use crate::macho::{self, File};
use crate::util::*;
use crate::x86::{self, Dec};

/// Where each statement landed.
pub struct Walk {
    pub secs: Vec<Sec>,
    /// offset of each statement in its section
    pub pos: Vec<u64>,
    /// decoded instructions
    pub dec: Vec<Option<Dec>>,
}

pub fn sect_index(f: &File, s: Sec) -> Option<usize> {
    f.sects.iter().position(|x| x.sectname == s.sectname())
}

/// Lay the statements over the section contents: data by their length, instructions by decoding.
/// Fails if an instruction cannot be decoded or contents and statements do not end together.
pub fn walk(p: &[Stmt], f: &File) -> Result<Walk, String> {
    let secs = sections(p);
    let mut at = [0usize; 3];
    let empty: Vec<u8> = Vec::new();
    let bytes: Vec<&Vec<u8>> = [Sec::Text, Sec::Data, Sec::Bss]
        .iter()
        .map(|s| sect_index(f, *s).map(|i| &f.sects[i].data).unwrap_or(&empty))
        .collect();
    let mut w = Walk { secs: secs.clone(), pos: Vec::new(), dec: Vec::new() };
    for (k, s) in p.iter().enumerate() {
        let i = secs[k] as usize;
        w.pos.push(at[i] as u64);
        let mut d = None;
        if s.is_ins() {
            let rest = bytes[i].get(at[i]..).unwrap_or(&[]);
            let x = x86::decode(rest).map_err(|e| {
                format!("statement {} {:?} at {}+{:#x} [{}]: {}", k, s, secs[k].sectname(), at[i], hex(&rest[..rest.len().min(15)]), e)
            })?;
            at[i] += x.len;
            d = Some(x);
        } else if let Some(b) = s.bytes() {
            at[i] += b.len();
            if at[i] > bytes[i].len() {
                return Err(format!("statement {} {:?} runs past the end of {}", k, s, secs[k].sectname()));
            }
        }
        w.dec.push(d);
    }
    for i in 0..3 {
        if at[i] != bytes[i].len() {
            return Err(format!("{} has {} bytes, its lines take {}", [Sec::Text, Sec::Data, Sec::Bss][i].sectname(), bytes[i].len(), at[i]));
        }
    }
    Ok(w)
}

/// Final address of a symbol when section i is placed at bases[i].
pub fn sym_addr(f: &File, k: usize, bases: &[u64]) -> Option<u64> {
    let s = f.syms.get(k)?;
    match s.kind() {
        macho::N_ABS => Some(s.value),
        macho::N_SECT => {
            let i = (s.sect as usize).checked_sub(1)?;
            let t = f.sects.get(i)?;
            Some(bases[i].wrapping_add(s.value.wrapping_sub(t.addr)))
        }
        _ => None,
    }
}

/// Section contents with all relocations applied (absolute, external ones).
pub fn apply(f: &File, bases: &[u64]) -> Result<Vec<Vec<u8>>, String> {
    let mut out = Vec::new();
    for (i, s) in f.sects.iter().enumerate() {
        let mut b = s.data.clone();
        for r in &s.relocs {
            let n = 1usize << r.len;
            let a = r.addr as usize;
            if r.addr < 0 || a + n > b.len() {
                return Err(format!("relocation at {:#x} outside {}", r.addr, s.sectname));
            }
            if r.typ != 0 {
                return Err(format!("relocation type {}", r.typ));
            }
            let target = if r.ext {
                sym_addr(f, r.sym as usize, bases).ok_or_else(|| format!("relocation against undefined entry {}", r.sym))?
            } else {
                return Err("section-relative relocation".into());
            };
            let mut v = [0u8; 8];
            v[..n].copy_from_slice(&b[a..a + n]);
            let mut x = u64::from_le_bytes(v).wrapping_add(target);
            if r.pcrel {
                x = x.wrapping_sub(bases[i].wrapping_add((a + n) as u64));
            }
            b[a..a + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        out.push(b);
    }
    Ok(out)
}
