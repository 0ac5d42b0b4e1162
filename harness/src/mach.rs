//! Independent, total Mach-O object decoder (does not use goblin).
use crate::util::*;
use serde_json::{json, Value};

struct R<'a> {
    b: &'a [u8],
    be: bool,
}
impl<'a> R<'a> {
    fn int(&self, off: usize, n: usize) -> Option<u64> {
        let s = self.b.get(off..off.checked_add(n)?)?;
        let mut v: u64 = 0;
        if self.be {
            for x in s {
                v = v << 8 | *x as u64;
            }
        } else {
            for x in s.iter().rev() {
                v = v << 8 | *x as u64;
            }
        }
        Some(v)
    }
    fn name16(&self, off: usize) -> Option<String> {
        let s = self.b.get(off..off.checked_add(16)?)?;
        let n = s.iter().position(|c| *c == 0).unwrap_or(16);
        Some(esc(&s[..n]))
    }
}

fn attrs(f: u64) -> Value {
    let names = [(0x8000_0000u64, "PURE"), (0x400, "SOME"), (0x0200_0000, "DEBUG")];
    let mut v = vec![];
    let mut rest = f & !0xff;
    for (b, n) in names {
        if f & b != 0 {
            v.push(json!(n));
            rest &= !b;
        }
    }
    if rest != 0 {
        v.push(json!(format!("x{:x}", rest)));
    }
    Value::Array(v)
}

pub fn decode(b: &[u8]) -> Value {
    dec(b).unwrap_or_else(|| json!({"ok": false, "fmt": "macho"}))
}

fn dec(b: &[u8]) -> Option<Value> {
    let (c64, be) = match b.get(0..4)? {
        [0xcf, 0xfa, 0xed, 0xfe] => (true, false),
        [0xce, 0xfa, 0xed, 0xfe] => (false, false),
        [0xfe, 0xed, 0xfa, 0xcf] => (true, true),
        [0xfe, 0xed, 0xfa, 0xce] => (false, true),
        _ => return None,
    };
    let r = R { b, be };
    let mut ok = true;
    let hsz = if c64 { 32 } else { 28 };
    let ncmds = r.int(16, 4)?;
    let sizeofcmds = r.int(20, 4)?;
    let mut off = hsz;
    let mut cmds = vec![];
    let mut segs = vec![];
    let mut secs: Vec<(Value, u64, u64, u64)> = vec![]; // view, reloff, nreloc, ordinal
    let mut symtab = json!({"symoff": -1, "nsyms": 0, "stroff": -1, "strsize": 0});
    let mut st = None;
    for _ in 0..ncmds {
        let (cmd, csz) = match (r.int(off, 4), r.int(off + 4, 4)) {
            (Some(a), Some(b)) => (a, b),
            _ => {
                ok = false;
                break;
            }
        };
        let name = match cmd { 0x1 => "SEG32".to_string(), 0x19 => "SEG64".into(), 0x2 => "SYMTAB".into(), x => format!("c{:x}", x) };
        cmds.push(json!({"cmd": name, "size": si(csz), "off": off}));
        if cmd == 0x19 || cmd == 0x1 {
            let s64 = cmd == 0x19;
            let w = if s64 { 8 } else { 4 };
            let o = off + 24;
            let vmaddr = r.int(o, w)?;
            let vmsize = r.int(o + w, w)?;
            let fileoff = r.int(o + 2 * w, w)?;
            let filesize = r.int(o + 3 * w, w)?;
            let q = o + 4 * w;
            let (maxp, initp, nsects, sflags) = (r.int(q, 4)?, r.int(q + 4, 4)?, r.int(q + 8, 4)?, r.int(q + 12, 4)?);
            segs.push(json!({"nm": r.name16(off + 8)?, "vmaddr": l3(vmaddr), "vmsize": l3(vmsize), "fileoff": si(fileoff), "filesize": si(filesize),
                "maxp": maxp, "initp": initp, "nsects": si(nsects), "fl": si(sflags)}));
            let ssz = if s64 { 80 } else { 68 };
            let mut so = q + 16;
            for _ in 0..nsects {
                if so + ssz > b.len() {
                    ok = false;
                    break;
                }
                let addr = r.int(so + 32, w)?;
                let size = r.int(so + 32 + w, w)?;
                let p = so + 32 + 2 * w;
                let (foff, align, reloff, nreloc, fl) = (r.int(p, 4)?, r.int(p + 4, 4)?, r.int(p + 8, 4)?, r.int(p + 12, 4)?, r.int(p + 16, 4)?);
                let zf = matches!(fl & 0xff, 1 | 0xc | 0x12);
                let tok = if zf {
                    String::new()
                } else {
                    match foff.checked_add(size).and_then(|e| b.get(foff as usize..e as usize)) {
                        Some(c) => hex(c),
                        None => "OOB".into(),
                    }
                };
                let ord = secs.len() as u64 + 1;
                secs.push((json!({"nm": r.name16(so)?, "gnm": r.name16(so + 16)?, "addr": l3(addr), "size": l3(size), "isz": si(size), "off": si(foff),
                    "alx": if align < 63 { align as i64 } else { -2 }, "reloff": si(reloff), "nreloc": si(nreloc),
                    "sty": fl & 0xff, "at": attrs(fl), "tok": tok}), reloff, nreloc, ord));
                so += ssz;
            }
        } else if cmd == 0x2 {
            let v: Vec<u64> = (0..4).map(|i| r.int(off + 8 + 4 * i, 4)).collect::<Option<_>>()?;
            symtab = json!({"symoff": si(v[0]), "nsyms": si(v[1]), "stroff": si(v[2]), "strsize": si(v[3])});
            if st.is_none() {
                st = Some((v[0] as usize, v[1] as usize, v[2] as usize, v[3] as usize));
            }
        }
        if csz < 8 {
            ok = false;
            break;
        }
        off = off.checked_add(csz as usize)?;
    }
    let mut syms = vec![];
    let mut strends = json!([]);
    if let Some((so, n, sto, sts)) = st {
        let nsz = if c64 { 16 } else { 12 };
        let tab = sto.checked_add(sts).and_then(|e| b.get(sto..e));
        if tab.is_none() {
            ok = false;
        }
        if let Some(t) = tab {
            if !t.is_empty() {
                strends = json!([t[0], t[t.len() - 1]]);
            }
        }
        for i in 0..n {
            let o = so + i * nsz;
            if o + nsz > b.len() {
                ok = false;
                break;
            }
            let strx = r.int(o, 4)? as usize;
            let (ty, sect, desc) = (b[o + 4], b[o + 5], r.int(o + 6, 2)?);
            let val = r.int(o + 8, if c64 { 8 } else { 4 })?;
            let (nm, nmok): (&[u8], bool) = match tab.and_then(|t| t.get(strx..)) {
                Some(s) if !s.is_empty() => match s.iter().position(|c| *c == 0) {
                    Some(n) => (&s[..n], true),
                    None => (s, false),
                },
                _ => (b"", false),
            };
            let tyn = if ty & 0xe0 != 0 { "STAB".to_string() } else {
                match ty & 0xe { 0 => "UNDF".into(), 2 => "ABS".into(), 0xe => "SECT".into(), x => format!("t{:x}", x) }
            };
            let under = nm.first() == Some(&b'_');
            syms.push(json!({"nm": esc(if under { &nm[1..] } else { nm }), "under": under, "nmok": nmok, "ty": tyn, "ext": ty & 1 == 1, "pext": ty & 0x10 != 0,
                "sect": sect, "desc": desc, "val": l3(val), "strx": si(strx as u64)}));
        }
    }
    let mut rels = vec![];
    for (_, reloff, nreloc, ord) in &secs {
        for k in 0..*nreloc {
            let o = (*reloff + k * 8) as usize;
            let (a, info) = match (r.int(o, 4), r.int(o + 4, 4)) {
                (Some(a), Some(i)) => (a, i),
                _ => {
                    ok = false;
                    break;
                }
            };
            rels.push(json!({"sec": ord, "off": l3(a), "sym": info & 0xff_ffff, "pcrel": info >> 24 & 1, "len": info >> 25 & 3, "ext": info >> 27 & 1, "ty": info >> 28}));
        }
    }
    Some(json!({"ok": ok, "fmt": "macho", "len": b.len(),
        "hdr": {"cls": if c64 {64} else {32}, "dat": if be {"B"} else {"L"}, "cpu": l3(r.int(4, 4)?), "sub": l3(r.int(8, 4)?), "ty": r.int(12, 4)?, "ncmds": si(ncmds),
                "sizeofcmds": si(sizeofcmds), "flags": l3(r.int(24, 4)?), "hsz": hsz},
        "cmds": cmds, "segs": segs, "secs": secs.iter().map(|s| s.0.clone()).collect::<Vec<_>>(), "symtab": symtab, "syms": syms, "rels": rels, "strends": strends}))
}
