//! Independent, total ELF decoder (does not use goblin): projects the bytes of an
//! object file onto the record the TLA+ specification reasons about.
use crate::util::*;
use serde_json::{json, Value};

struct R<'a> {
    b: &'a [u8],
    be: bool,
    c64: bool,
}
impl<'a> R<'a> {
    fn int(&self, off: usize, n: usize) -> Option<u64> {
        let s = self.b.get(off..off.checked_add(n)?)?;
        let mut v: u64 = 0;
        if self.be {
            for x in s {
                v = v << 8 | *x as u64;
            }
        } else {
            for x in s.iter().rev() {
                v = v << 8 | *x as u64;
            }
        }
        Some(v)
    }
    fn word(&self, off: usize) -> Option<u64> {
        self.int(off, if self.c64 { 8 } else { 4 })
    }
}

#[derive(Clone, Default)]
pub struct Shdr {
    pub name: u64,
    pub ty: u64,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u64,
    pub info: u64,
    pub align: u64,
    pub ent: u64,
}

#[derive(Clone)]
pub struct Sym {
    pub name: u64,
    pub info: u8,
    pub other: u8,
    pub raw_shndx: u64,
    pub sx: i64,
    pub value: u64,
    pub size: u64,
}

pub struct Elf<'a> {
    pub hdr: Value,
    pub secs: Vec<Shdr>,
    pub syms: Vec<Sym>,
    pub rels: Vec<(usize, u64, u64, u64, u64, u64)>, // sec idx, tgt, off, sym, ty, addend
    pub shstrndx: u64,
    pub symtab: Option<usize>,
    pub truncated: bool,
    pub spare: usize,
    b: &'a [u8],
}

/// A string table lookup: the name, and whether it is properly terminated inside the table.
fn strz<'a>(b: &'a [u8], tab: Option<&Shdr>, idx: u64) -> (&'a [u8], bool) {
    let t = match tab {
        Some(t) if t.ty == 3 => t,
        _ => return (b"", false),
    };
    let end = match t.off.checked_add(t.size) {
        Some(e) if e <= b.len() as u64 => e as usize,
        _ => return (b"", false),
    };
    if idx >= t.size {
        return (b"", false);
    }
    let s = &b[(t.off + idx) as usize..end];
    match s.iter().position(|c| *c == 0) {
        Some(n) => (&s[..n], true),
        None => (s, false),
    }
}

pub fn parse(b: &[u8]) -> Option<Elf<'_>> {
    if b.len() < 52 || &b[0..4] != b"\x7fELF" {
        return None;
    }
    let c64 = match b[4] {
        1 => false,
        2 => true,
        _ => return None,
    };
    let be = match b[5] {
        1 => false,
        2 => true,
        _ => return None,
    };
    let r = R { b, be, c64 };
    let (o_entry, o_phoff, o_shoff, o_flags) = if c64 { (24, 32, 40, 48) } else { (24, 28, 32, 36) };
    let shoff = r.word(o_shoff)?;
    let h = |k: usize| r.int(o_flags + 4 + 2 * k, 2);
    let (ehsize, phentsize, phnum, shentsize, shnum, shstrndx) = (h(0)?, h(1)?, h(2)?, h(3)?, h(4)?, h(5)?);
    let want = if c64 { 64 } else { 40 };
    let read_sh = |i: usize| -> Option<Shdr> {
        let o = (shoff as usize).checked_add(i.checked_mul(want)?)?;
        if c64 {
            Some(Shdr {
                name: r.int(o, 4)?, ty: r.int(o + 4, 4)?, flags: r.int(o + 8, 8)?, addr: r.int(o + 16, 8)?,
                off: r.int(o + 24, 8)?, size: r.int(o + 32, 8)?, link: r.int(o + 40, 4)?, info: r.int(o + 44, 4)?,
                align: r.int(o + 48, 8)?, ent: r.int(o + 56, 8)?,
            })
        } else {
            Some(Shdr {
                name: r.int(o, 4)?, ty: r.int(o + 4, 4)?, flags: r.int(o + 8, 4)?, addr: r.int(o + 12, 4)?,
                off: r.int(o + 16, 4)?, size: r.int(o + 20, 4)?, link: r.int(o + 24, 4)?, info: r.int(o + 28, 4)?,
                align: r.int(o + 32, 4)?, ent: r.int(o + 36, 4)?,
            })
        }
    };
    let mut truncated = false;
    let nsec = if shoff == 0 {
        0
    } else if shnum == 0 {
        match read_sh(0) {
            Some(s) => s.size,
            None => {
                truncated = true;
                0
            }
        }
    } else {
        shnum
    };
    let shstr = if shstrndx == 0xffff { read_sh(0).map(|s| s.link).unwrap_or(0) } else { shstrndx };
    let mut secs = Vec::new();
    for i in 0..nsec {
        match read_sh(i as usize) {
            Some(s) => secs.push(s),
            None => {
                truncated = true;
                break;
            }
        }
    }
    let symtab = secs.iter().position(|s| s.ty == 2);
    let mut syms = Vec::new();
    let mut spare = 0;
    if let Some(si) = symtab {
        let st = &secs[si];
        let ent = if c64 { 24 } else { 16 };
        let xtab = secs.iter().find(|s| s.ty == 18 && s.link == si as u64);
        let n = st.size / ent;
        for i in 0..n {
            let o = match st.off.checked_add(i * ent) {
                Some(o) if o + ent <= b.len() as u64 => o as usize,
                _ => {
                    truncated = true;
                    break;
                }
            };
            let (name, info, other, shndx, value, size) = if c64 {
                (r.int(o, 4)?, b[o + 4], b[o + 5], r.int(o + 6, 2)?, r.int(o + 8, 8)?, r.int(o + 16, 8)?)
            } else {
                (r.int(o, 4)?, b[o + 12], b[o + 13], r.int(o + 14, 2)?, r.int(o + 4, 4)?, r.int(o + 8, 4)?)
            };
            // entries of the index table that the format reserves, and that must be zero
            if let (Some(x), true) = (xtab, shndx != 0xffff) {
                if i * 4 + 4 <= x.size && r.int((x.off + i * 4) as usize, 4) != Some(0) {
                    spare += 1;
                }
            }
            let sx = match shndx {
                0 => -1,
                0xfff1 => -2,
                0xfff2 => -3,
                0xffff => match xtab {
                    Some(x) if i * 4 + 4 <= x.size => r.int((x.off + i * 4) as usize, 4).map(|v| v as i64).unwrap_or(-9),
                    _ => -9,
                },
                x if x >= 0xff00 => -9,
                x => x as i64,
            };
            syms.push(Sym { name, info, other, raw_shndx: shndx, sx, value, size });
        }
    }
    let mut rels = Vec::new();
    for (i, s) in secs.iter().enumerate() {
        if s.ty != 4 && s.ty != 9 {
            continue;
        }
        let rela = s.ty == 4;
        let ent = match (c64, rela) {
            (true, true) => 24u64,
            (true, false) => 16,
            (false, true) => 12,
            (false, false) => 8,
        };
        for k in 0..s.size / ent {
            let o = match s.off.checked_add(k * ent) {
                Some(o) if o + ent <= b.len() as u64 => o as usize,
                _ => {
                    truncated = true;
                    break;
                }
            };
            let w = if c64 { 8 } else { 4 };
            let mips = r.int(18, 2)? == 8;
            let off = r.int(o, w)?;
            let info = r.int(o + w, w)?;
            let add = if rela { r.int(o + 2 * w, w)? } else { 0 };
            let (sym, ty, add) = if c64 && mips && !be {
                // the MIPS psABI's own layout: symbol first, bytes of the type always from the last
                (info & 0xffff_ffff, ((info >> 32) as u32).swap_bytes() as u64, add)
            } else if c64 {
                (info >> 32, info & 0xffff_ffff, add)
            } else {
                (info >> 8, info & 0xff, add as u32 as i32 as i64 as u64)
            };
            rels.push((i, s.info, off, sym, ty, add));
        }
    }
    let hdr = json!({
        "cls": if c64 {64} else {32}, "dat": if be {"B"} else {"L"}, "ver": b[6], "osabi": b[7],
        "ty": r.int(16, 2)?, "mach": r.int(18, 2)?, "ver2": si(r.int(20, 4)?),
        "entry": l3(r.word(o_entry)?), "phoff": l3(r.word(o_phoff)?), "shoff": si(shoff), "flags": l3(r.int(o_flags, 4)?),
        "ehsize": ehsize, "phentsize": phentsize, "phnum": phnum, "shentsize": shentsize,
        "rawnum": shnum, "rawstr": shstrndx, "nsec": si(nsec), "shstr": si(shstr),
    });
    Some(Elf { hdr, secs, syms, rels, shstrndx: shstr, symtab, truncated, spare, b })
}

impl<'a> Elf<'a> {
    pub fn sec_name(&self, s: &Shdr) -> (&'a [u8], bool) {
        strz(self.b, self.secs.get(self.shstrndx as usize), s.name)
    }
    pub fn sym_name(&self, s: &Sym) -> (&'a [u8], bool) {
        let tab = self.symtab.and_then(|i| self.secs.get(self.secs[i].link as usize));
        strz(self.b, tab, s.name)
    }
    pub fn content(&self, s: &Shdr) -> Option<&'a [u8]> {
        if s.ty == 8 || s.ty == 0 {
            return Some(b"");
        }
        let e = s.off.checked_add(s.size)?;
        self.b.get(s.off as usize..e as usize)
    }
}

pub fn bind_name(i: u8) -> String {
    match i >> 4 { 0 => "L".into(), 1 => "G".into(), 2 => "W".into(), x => format!("b{}", x) }
}
pub fn type_name(i: u8) -> String {
    match i & 0xf { 0 => "NOTYPE".into(), 1 => "OBJECT".into(), 2 => "FUNC".into(), 3 => "SECTION".into(), 4 => "FILE".into(), x => format!("t{}", x) }
}
pub fn vis_name(o: u8) -> String {
    match o { 0 => "D".into(), 2 => "H".into(), 3 => "P".into(), 1 => "I".into(), x => format!("v{}", x) }
}
pub fn sec_type(t: u64) -> String {
    match t { 0 => "NULL".into(), 1 => "PROGBITS".into(), 2 => "SYMTAB".into(), 3 => "STRTAB".into(), 4 => "RELA".into(), 8 => "NOBITS".into(), 9 => "REL".into(), 18 => "XINDEX".into(), x => format!("t{:x}", x) }
}
pub fn flags(f: u64) -> Value {
    let names = [(1u64, "W"), (2, "A"), (4, "X"), (0x10, "M"), (0x20, "S"), (0x40, "I"), (0x80, "L"), (0x100, "O"), (0x200, "G"), (0x400, "T")];
    let mut v = vec![];
    let mut rest = f;
    for (b, n) in names {
        if f & b != 0 {
            v.push(json!(n));
            rest &= !b;
        }
    }
    if rest != 0 {
        v.push(json!(format!("x{:x}", rest)));
    }
    Value::Array(v)
}

pub fn decode(b: &[u8]) -> Value {
    let e = match parse(b) {
        Some(e) => e,
        None => return json!({"ok": false, "fmt": "elf"}),
    };
    let secs: Vec<Value> = e.secs.iter().map(|s| {
        let (n, ok) = e.sec_name(s);
        let tok = match e.content(s) {
            None => "OOB".to_string(),
            Some(c) => if s.ty == 1 { hex(c) } else if s.ty == 3 {
                // string tables: only the first and last byte matter to the specification
                if c.is_empty() { "".into() } else { hex(&[c[0], c[c.len() - 1]]) }
            } else { "".into() },
        };
        json!({"nm": esc(n), "nmok": ok, "ty": sec_type(s.ty), "fl": flags(s.flags), "addr": l3(s.addr), "off": si(s.off),
               "size": l3(s.size), "isz": si(s.size), "link": si(s.link), "info": si(s.info), "alx": alx(s.align), "ent": si(s.ent), "tok": tok})
    }).collect();
    let syms: Vec<Value> = e.syms.iter().map(|s| {
        let (n, ok) = e.sym_name(s);
        json!({"nm": esc(n), "nmok": ok, "bind": bind_name(s.info), "ty": type_name(s.info), "vis": vis_name(s.other),
               "sx": s.sx, "xi": s.raw_shndx == 0xffff, "val": l3(s.value), "size": l3(s.size), "strx": si(s.name)})
    }).collect();
    let rels: Vec<Value> = e.rels.iter().map(|(sec, tgt, off, sym, ty, add)| {
        json!({"sec": sec, "tgt": si(*tgt), "off": l3(*off), "sym": si(*sym), "ty": l3(*ty), "add": l3(*add)})
    }).collect();
    json!({"ok": !e.truncated, "fmt": "elf", "len": b.len(), "hdr": e.hdr, "secs": secs, "syms": syms, "rels": rels,
           "symtab": e.symtab.map(|x| x as i64).unwrap_or(-1), "xspare": e.spare})
}
