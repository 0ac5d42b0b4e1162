//! Linking: the objects of several artifacts are given to a linker of the system, and what it makes of
//! them (or why it refuses them) is recorded.  The images are decoded here, from the format documents.
use crate::util::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// The command of a linker, if it is installed.
fn linker(ld: &str, arch: &str) -> Option<Vec<String>> {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let have = |p: &str| Path::new(p).exists();
    match ld {
        "bfd" if have("/usr/bin/ld.bfd") => Some(s(&["/usr/bin/ld.bfd", "-m", "elf_x86_64", "-static", "--no-relax", "--build-id=none", "-e", "0"])),
        "lld" if have("/usr/bin/ld.lld") => Some(s(&["/usr/bin/ld.lld", "-static", "--no-relax", "--build-id=none", "-e", "0"])),
        "ld64" if have("/usr/bin/lld") => Some(s(&["/usr/bin/lld", "-flavor", "darwin", "-arch", if arch == "aarch64" { "arm64" } else { arch }, "-platform_version", "macos", "10.14", "10.14", "-dylib", "-undefined", "error"])),
        "bfd" | "lld" | "ld64" => None,
        _ => bad("ld"),
    }
}

fn quoted<'a>(line: &'a str, after: &str) -> Option<&'a str> {
    let rest = &line[line.find(after)? + after.len()..];
    Some(rest.trim_matches(|c: char| c == '`' || c == '\'' || c == ';' || c == ' ' || c == ':').split(|c: char| c == '\'' || c == ';' || c == ' ').next().unwrap_or(""))
}

/// What the linker complains of: names it misses, names it has twice, and anything else.
fn complaints(text: &str, under: bool) -> (Vec<String>, Vec<String>, Vec<String>) {
    let (mut und, mut dup, mut other) = (vec![], vec![], vec![]);
    let name = |s: &str| esc(if under { s.strip_prefix('_').unwrap_or(s) } else { s }.as_bytes());
    for line in text.lines() {
        if let Some(n) = quoted(line, "undefined reference to ").or_else(|| quoted(line, "undefined symbol: ")) {
            und.push(name(n));
        } else if let Some(n) = quoted(line, "multiple definition of ").or_else(|| quoted(line, "duplicate symbol: ")) {
            dup.push(name(n));
        } else if line.starts_with(">>>") || line.contains("in function `") && line.ends_with(':') || line.trim().is_empty() {
        } else {
            other.push(esc(line.chars().take(160).collect::<String>().as_bytes()));
        }
    }
    for v in [&mut und, &mut dup] {
        v.sort();
        v.dedup();
    }
    other.truncate(4);
    (und, dup, other)
}

/// Link the given objects; the files lie in `dir`.
pub fn join(ld: &str, arch: &str, dir: &Path, objs: &[Vec<u8>]) -> (Value, Value) {
    let none = json!({"ok": false, "stack": "-", "secs": [], "syms": []});
    let cmd = match linker(ld, arch) {
        Some(c) => c,
        None => return (json!({"r": "nolinker", "e": "-", "s": ""}), none),
    };
    let out = dir.join("joined");
    let files: Vec<PathBuf> = (0..objs.len()).map(|i| dir.join(format!("join{}.o", i))).collect();
    for (p, b) in files.iter().zip(objs) {
        std::fs::write(p, b).unwrap_or_else(|_| bad("scratch"));
    }
    let r = Command::new("timeout").arg("60").args(&cmd).arg("-o").arg(&out).args(&files).env("LC_ALL", "C").stdin(Stdio::null()).output();
    let image = std::fs::read(&out).unwrap_or_default();
    for p in files.iter().chain([&out]) {
        let _ = std::fs::remove_file(p);
    }
    let r = match r {
        Ok(r) => r,
        Err(_) => return (json!({"r": "nolinker", "e": "-", "s": ""}), none),
    };
    let text = format!("{}{}", String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr));
    let (und, dup, other) = complaints(&text, ld == "ld64");
    let how = if r.status.code() == Some(124) || r.status.code().is_none() { "dead" } else if r.status.success() { "ok" } else { "err" };
    let img = if how == "ok" { decode(&image).unwrap_or(none) } else { none };
    (json!({"r": how, "e": "-", "s": "", "und": und, "dup": dup, "other": other}), img)
}

fn decode(b: &[u8]) -> Option<Value> {
    if b.starts_with(b"\x7fELF") { elf(b) } else { mach(b) }
}

struct R<'a> {
    b: &'a [u8],
    be: bool,
}
impl<'a> R<'a> {
    fn int(&self, off: u64, n: usize) -> Option<u64> {
        let s = self.bytes(off, n as u64)?;
        Some(if self.be { s.iter().fold(0, |v, x| v << 8 | *x as u64) } else { s.iter().rev().fold(0, |v, x| v << 8 | *x as u64) })
    }
    fn bytes(&self, off: u64, n: u64) -> Option<&'a [u8]> {
        self.b.get(off as usize..off.checked_add(n)? as usize)
    }
    fn text(&self, off: u64) -> Option<&'a [u8]> {
        let s = self.b.get(off as usize..)?;
        Some(&s[..s.iter().position(|c| *c == 0)?])
    }
}

const BIG: u64 = 1 << 16;

fn elf(b: &[u8]) -> Option<Value> {
    let c64 = *b.get(4)? == 2;
    let r = R { b, be: *b.get(5)? == 2 };
    let w = if c64 { 8 } else { 4 };
    let (phoff, shoff) = if c64 { (r.int(32, 8)?, r.int(40, 8)?) } else { (r.int(28, 4)?, r.int(32, 4)?) };
    let tail = if c64 { 52 } else { 40 };
    let (phsz, phnum, shsz, shnum, shstr) = (r.int(tail + 2, 2)?, r.int(tail + 4, 2)?, r.int(tail + 6, 2)?, r.int(tail + 8, 2)?, r.int(tail + 10, 2)?);
    let mut stack = "-";
    for i in 0..phnum {
        let p = phoff + i * phsz;
        if r.int(p, 4)? == 0x6474_e551 {
            stack = if r.int(if c64 { p + 4 } else { p + 24 }, 4)? & 1 != 0 { "x" } else { "nx" };
        }
    }
    // name, type, flags, address, offset, size, link
    let sec = |i: u64| -> Option<(u64, u64, u64, u64, u64, u64, u64)> {
        let s = shoff + i * shsz;
        let at = |k: u64| r.int(s + 8 + k * w, w as usize);
        Some((r.int(s, 4)?, r.int(s + 4, 4)?, at(0)?, at(1)?, at(2)?, at(3)?, r.int(s + 8 + 4 * w, 4)?))
    };
    let names = sec(shstr)?.4;
    let (mut secs, mut syms) = (vec![], vec![]);
    for i in 1..shnum {
        let (nm, ty, fl, addr, off, size, link) = sec(i)?;
        let nm = r.text(names + nm)?;
        let zero = ty == 8;
        if (fl & 2 != 0 || nm.starts_with(b".debug_")) && size > 0 && (zero || size <= BIG) && ty != 2 && ty != 3 {
            secs.push(json!({"n": esc(nm), "va": l3(addr), "size": l3(size), "alloc": fl & 2 != 0, "w": fl & 1 != 0, "x": fl & 4 != 0, "zero": zero,
                             "b": if zero { String::new() } else { hex(r.bytes(off, size)?) }}));
        }
        if ty == 2 {
            let strs = sec(link)?.4;
            let mut group = String::new();
            for k in 1..size / if c64 { 24 } else { 16 } {
                let s = off + k * if c64 { 24 } else { 16 };
                let (name, info, ndx, val) = if c64 { (r.int(s, 4)?, r.int(s + 4, 1)?, r.int(s + 6, 2)?, r.int(s + 8, 8)?) } else { (r.int(s, 4)?, r.int(s + 12, 1)?, r.int(s + 14, 2)?, r.int(s + 4, 4)?) };
                let n = esc(r.text(strs + name)?);
                match info & 15 {
                    4 => group = n,
                    3 => {}
                    _ => syms.push(json!({"n": n, "g": if info >> 4 == 0 { group.clone() } else { String::new() }, "l": info >> 4 == 0, "d": ndx != 0, "va": l3(val)})),
                }
            }
        }
    }
    Some(json!({"ok": true, "stack": stack, "secs": secs, "syms": syms}))
}

fn mach(b: &[u8]) -> Option<Value> {
    if !b.starts_with(&[0xcf, 0xfa, 0xed, 0xfe]) {
        return None;
    }
    let r = R { b, be: false };
    let (mut secs, mut syms) = (vec![], vec![]);
    let mut off = 32;
    for _ in 0..r.int(16, 4)? {
        let (cmd, size) = (r.int(off, 4)?, r.int(off + 4, 4)?);
        if cmd == 0x19 {
            let prot = r.int(off + 60, 4)?;
            for k in 0..r.int(off + 64, 4)? {
                let s = off + 72 + 80 * k;
                let (nm, sg, addr, size, fo, fl) = (r.bytes(s, 16)?, r.bytes(s + 16, 16)?, r.int(s + 32, 8)?, r.int(s + 40, 8)?, r.int(s + 48, 4)?, r.int(s + 64, 4)?);
                let cut = |x: &[u8]| esc(x.split(|c| *c == 0).next().unwrap_or(&[]));
                let zero = fl & 0xff == 1;
                if size > 0 && (zero || size <= BIG) {
                    secs.push(json!({"n": cut(nm), "va": l3(addr), "size": l3(size), "alloc": cut(sg) != "__DWARF", "w": prot & 2 != 0, "x": fl & 0x8000_0000 != 0, "zero": zero,
                                     "b": if zero { String::new() } else { hex(r.bytes(fo, size)?) }}));
                }
            }
        }
        if cmd == 2 {
            let (so, n, st) = (r.int(off + 8, 4)?, r.int(off + 12, 4)?, r.int(off + 16, 4)?);
            for k in 0..n {
                let s = so + 16 * k;
                let ty = r.int(s + 4, 1)?;
                let nm = r.text(st + r.int(s, 4)?)?;
                if ty & 0xe0 == 0 {
                    syms.push(json!({"n": esc(nm.strip_prefix(b"_").unwrap_or(nm)), "g": "", "l": ty & 1 == 0, "d": ty & 0xe == 0xe, "va": l3(r.int(s + 8, 8)?)}));
                }
            }
        }
        off += size;
    }
    Some(json!({"ok": true, "stack": "-", "secs": secs, "syms": syms}))
}
