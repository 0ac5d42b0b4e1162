//! Conformance driver: executes API programs (ndjson) against the real faerie crate and
//! records one trace event per call, with its result, the visible artifact state and, for
//! emissions, the decoded object file.  It judges nothing: the TLA+ trace specification does.
mod elf;
mod image;
mod mach;
mod util;

use faerie::artifact::DefinedDecl;
use faerie::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use util::*;

fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| bad(&format!("missing string {} in {}", k, v)))
}

fn scope(s: &str) -> Scope {
    match s { "L" => Scope::Local, "G" => Scope::Global, "W" => Scope::Weak, _ => bad("scope") }
}
fn vis(s: &str) -> Visibility {
    match s { "D" => Visibility::Default, "P" => Visibility::Protected, "H" => Visibility::Hidden, _ => bad("vis") }
}
fn dtype(s: &str) -> DataType {
    match s { "bytes" => DataType::Bytes, "str" => DataType::String, _ => bad("dt") }
}
fn skind(s: &str) -> SectionKind {
    match s { "Data" => SectionKind::Data, "Debug" => SectionKind::Debug, "Text" => SectionKind::Text, _ => bad("sk") }
}
fn align(v: &Value) -> Option<u64> {
    match v.as_i64() { Some(-1) => None, Some(k) if (0..64).contains(&k) => Some(1u64 << k), _ => bad("al") }
}

/// A declaration record of the specification -> the crate's value.
fn decl(d: &Value) -> Decl {
    match st(d, "k") {
        "ifn" => Decl::function_import().into(),
        "idata" => Decl::data_import().into(),
        "fn" => Decl::function().with_scope(scope(st(d, "scope"))).with_visibility(vis(st(d, "vis"))).with_align(align(&d["al"])).into(),
        "data" => Decl::data().with_scope(scope(st(d, "scope"))).with_visibility(vis(st(d, "vis"))).with_writable(d["w"].as_bool().unwrap_or_else(|| bad("w")))
            .with_datatype(dtype(st(d, "dt"))).with_align(align(&d["al"])).into(),
        "sec" => Decl::section(skind(st(d, "sk"))).with_datatype(dtype(st(d, "dt"))).with_align(align(&d["al"])).into(),
        _ => bad("decl kind"),
    }
}
fn uscope(s: Scope) -> &'static str {
    match s { Scope::Local => "L", Scope::Global => "G", Scope::Weak => "W" }
}
fn uvis(s: Visibility) -> &'static str {
    match s { Visibility::Default => "D", Visibility::Protected => "P", Visibility::Hidden => "H" }
}
fn udt(s: DataType) -> &'static str {
    match s { DataType::Bytes => "bytes", DataType::String => "str" }
}
fn usk(s: SectionKind) -> &'static str {
    match s { SectionKind::Data => "Data", SectionKind::Debug => "Debug", SectionKind::Text => "Text" }
}
fn ual(a: Option<u64>) -> i64 {
    match a { None => -1, Some(v) => if v == 0 { -3 } else { alx(v) } }
}
fn drec(k: &str, s: &str, v: &str, w: bool, dt: &str, sk: &str, al: i64) -> Value {
    json!({"k": k, "scope": s, "vis": v, "w": w, "dt": dt, "sk": sk, "al": al})
}
/// The crate's declaration value -> the specification's record (through public accessors only).
fn undecl(d: &Decl) -> Value {
    match d {
        Decl::Import(ImportKind::Function) => drec("ifn", "-", "-", false, "-", "-", -1),
        Decl::Import(ImportKind::Data) => drec("idata", "-", "-", false, "-", "-", -1),
        Decl::Defined(DefinedDecl::Function(f)) => drec("fn", uscope(f.get_scope()), uvis(f.get_visibility()), false, "-", "-", ual(f.get_align())),
        Decl::Defined(DefinedDecl::Data(f)) => drec("data", uscope(f.get_scope()), uvis(f.get_visibility()), f.is_writable(), udt(f.get_datatype()), "-", ual(f.get_align())),
        Decl::Defined(DefinedDecl::Section(f)) => drec("sec", "-", "-", false, udt(f.get_datatype()), usk(f.kind()), ual(f.get_align())),
    }
}
/// Everything the declaration accessors answer about a declaration.
fn accessors(d: &Decl) -> Value {
    let (isf, isd, iss, isg, isw, al) = match d {
        Decl::Defined(x) => (x.is_function(), x.is_data(), x.is_section(), x.is_global(), x.is_writable(), ual(x.get_align())),
        Decl::Import(_) => (false, false, false, false, false, -1),
    };
    let ik = match ImportKind::from_decl(d) { None => "-", Some(ImportKind::Function) => "fn", Some(ImportKind::Data) => "data" };
    json!({"import": d.is_import(), "section": d.is_section(), "dfn": isf, "ddata": isd, "dsec": iss, "global": isg, "writable": isw, "al": al, "ik": ik})
}

fn bf(s: &str) -> BinaryFormat {
    match s { "elf" => BinaryFormat::Elf, "macho" => BinaryFormat::Macho, "coff" => BinaryFormat::Coff, "wasm" => BinaryFormat::Wasm, "xcoff" => BinaryFormat::Xcoff, "unknown" => BinaryFormat::Unknown, _ => bad("bf") }
}
/// the parts of a target that say nothing about objects
fn part<T: FromStr>(o: &Value, k: &str) -> Option<T> {
    o[k].as_str().map(|s| T::from_str(s).unwrap_or_else(|_| bad(k)))
}
fn triple(o: &Value) -> Triple {
    let arch = st(o, "arch");
    let (arch, env) = match arch { "x32" => ("x86_64", Some(Environment::Gnux32)), "ilp32" => ("aarch64", Some(Environment::GnuIlp32)), a => (a, part(o, "env")) };
    Triple {
        architecture: Architecture::from_str(arch).unwrap_or_else(|_| bad("arch")),
        vendor: part(o, "ven").unwrap_or(Vendor::Unknown),
        operating_system: part(o, "os").unwrap_or(OperatingSystem::Unknown),
        environment: env.unwrap_or(Environment::Unknown),
        binary_format: bf(st(o, "bf")),
    }
}
fn reloc(r: &Value) -> Reloc {
    match st(r, "t") {
        "auto" => Reloc::Auto,
        "raw" => Reloc::Raw { reloc: from_l3(&r["r"]) as u32, addend: from_l3(&r["add"]) as u32 as i32 },
        "dbg" => Reloc::Debug { size: r["sz"].as_u64().unwrap_or_else(|| bad("sz")) as u8, addend: from_l3(&r["add"]) as u32 as i32 },
        _ => bad("reloc"),
    }
}

fn err(e: &ArtifactError) -> Value {
    use ArtifactError::*;
    let text = format!("{}", e);
    // does the text mention every name (or format) the error carries, as it is or escaped?
    let has = |s: &str| text.contains(s) || { let q = format!("{:?}", s); text.contains(&q[1..q.len() - 1]) };
    let says = match e {
        Undeclared(s) | ImportDefined(s) | RelocateImport(s) | DuplicateDefinition(s) => has(s),
        UnsupportedBinaryFormat(f) => has(&f.to_string()),
        UndefinedSymbols(v) => v.iter().all(|s| has(s)),
        NonSectionCustomSymbols(_, m) => m.keys().all(|s| has(s)),
        IncompatibleDeclaration { .. } | InvalidZeroInit(_) | Goblin(_) | Io(_) => !text.is_empty(),
    };
    let msg = esc(text.as_bytes());
    let mut m = match e {
        Undeclared(s) => json!({"e": "Undeclared", "s": esc(s.as_bytes())}),
        ImportDefined(s) => json!({"e": "ImportDefined", "s": esc(s.as_bytes())}),
        RelocateImport(s) => json!({"e": "RelocateImport", "s": esc(s.as_bytes())}),
        IncompatibleDeclaration { old, new } => json!({"e": "Incompatible", "s": "", "old": undecl(old), "new": undecl(new)}),
        DuplicateDefinition(s) => json!({"e": "Duplicate", "s": esc(s.as_bytes())}),
        InvalidZeroInit(d) => json!({"e": "InvalidZeroInit", "s": "", "old": undecl(&Decl::Defined(*d))}),
        NonSectionCustomSymbols(d, syms) => json!({"e": "NonSectionSymbols", "s": "", "old": undecl(&Decl::Defined(*d)), "syms": symlist(syms)}),
        UnsupportedBinaryFormat(f) => json!({"e": "Unsupported", "s": format!("{}", f)}),
        UndefinedSymbols(v) => json!({"e": "Undefined", "s": "", "l": v.iter().map(|s| esc(s.as_bytes())).collect::<Vec<_>>()}),
        Goblin(_) => json!({"e": "Goblin", "s": ""}),
        Io(_) => json!({"e": "Io", "s": ""}),
    };
    let o = m.as_object_mut().unwrap();
    o.insert("r".into(), json!("err"));
    o.insert("says".into(), json!(says));
    o.insert("msg".into(), json!(if msg.len() > 400 { msg[..400].to_string() } else { msg }));
    m
}
fn symlist(m: &BTreeMap<String, u64>) -> Value {
    Value::Array(m.iter().map(|(k, v)| json!([esc(k.as_bytes()), l3(*v)])).collect())
}
fn syms_in(o: &Value) -> BTreeMap<String, u64> {
    o["syms"].as_array().unwrap_or_else(|| bad("syms")).iter().map(|p| (unesc(p[0].as_str().unwrap_or_else(|| bad("sym name"))), from_l3(&p[1]))).collect()
}
fn res<T>(r: std::thread::Result<Result<T, ArtifactError>>) -> (Value, Option<T>) {
    match r {
        Ok(Ok(x)) => (json!({"r": "ok"}), Some(x)),
        Ok(Err(e)) => (err(&e), None),
        Err(p) => (json!({"r": "panic", "e": "panic", "s": "", "msg": panic_msg(&p)}), None),
    }
}
fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    esc(m.chars().take(200).collect::<String>().as_bytes())
}
fn guard<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    catch_unwind(AssertUnwindSafe(f))
}

fn observe(a: &Artifact) -> (Value, Value) {
    let r = guard(|| {
        let imps: Vec<Value> = a.imports().map(|(n, k)| json!({"n": esc(n.as_bytes()), "k": match k { ImportKind::Function => "fn", ImportKind::Data => "data" }})).collect();
        let und: Vec<Value> = a.undefined_symbols().iter().map(|s| json!(esc(s.as_bytes()))).collect();
        (Value::Array(imps), Value::Array(und))
    });
    r.unwrap_or_else(|_| (json!([{"n": "panic", "k": "panic"}]), json!(["panic"])))
}

struct Ctx {
    slots: BTreeMap<i64, Artifact>,
    scratch: std::path::PathBuf,
    extra: bool,
}

extern "C" {
    fn pipe(fds: *mut i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
}
/// A pipe of `cap` pages, `fill` of them taken; with `stop`, writing to it fails once it is full.
fn small_pipe(stop: bool, cap: usize, fill: usize) -> (std::fs::File, std::fs::File) {
    use std::os::unix::io::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            bad("pipe");
        }
        fcntl(fds[1], 1031, 4096 * cap as i32); // F_SETPIPE_SZ
        if stop {
            fcntl(fds[1], 4, 0o4000i32); // F_SETFL, O_NONBLOCK
        }
        let (r, mut w) = (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]));
        for _ in 0..fill {
            let _ = w.write(&[0u8; 4096]);
        }
        (r, w)
    }
}

fn decode(fmt: &str, b: &[u8]) -> Value {
    match fmt { "elf" => elf::decode(b), "macho" => mach::decode(b), _ => json!({"ok": false, "fmt": fmt}) }
}

impl Ctx {
    fn art(&mut self, o: &Value) -> &mut Artifact {
        let s = o["slot"].as_i64().unwrap_or(0);
        self.slots.get_mut(&s).unwrap_or_else(|| bad("no such slot"))
    }

    fn emit(&mut self, o: &Value, ev: &mut Map<String, Value>) -> Value {
        let via = st(o, "via").to_string();
        let path = self.scratch.join("out.o");
        let a = self.art(o);
        let asked = if via.ends_with("_as") { st(o, "bf").to_string() } else { bfname(a.target.binary_format).to_string() };
        ev.insert("bf".into(), json!(asked));
        let f = bf(&asked);
        let (r, bytes): (Value, Option<Vec<u8>>) = match via.as_str() {
            "emit" => res(guard(|| a.emit())),
            "emit_as" => res(guard(|| a.emit_as(f))),
            "write" | "write_as" => {
                let file = std::fs::File::create(&path).unwrap_or_else(|_| bad("scratch"));
                let (r, _) = res(guard(|| if via == "write" { a.write(file) } else { a.write_as(file, f) }));
                let mut b = Vec::new();
                std::fs::File::open(&path).and_then(|mut f| f.read_to_end(&mut b)).unwrap_or_else(|_| bad("scratch"));
                ev.insert("wlen".into(), json!(b.len()));
                let _ = std::fs::remove_file(&path);
                let ok = r["r"] == "ok";
                (r, if ok { Some(b) } else { None })
            }
            "file" | "file_as" => {
                // a file with contents of its own, written from some position or appended to
                let old: Vec<u8> = (0..o["pre"].as_u64().unwrap_or(0)).map(|i| (i % 251) as u8 | 1).collect();
                let app = o["app"].as_bool().unwrap_or(false);
                std::fs::write(&path, &old).unwrap_or_else(|_| bad("scratch"));
                let mut file = std::fs::OpenOptions::new().read(true).write(!app).append(app).open(&path).unwrap_or_else(|_| bad("scratch"));
                let at = o["at"].as_u64().unwrap_or(0);
                file.seek(std::io::SeekFrom::Start(at)).unwrap_or_else(|_| bad("seek"));
                let (r, _) = res(guard(|| if via == "file" { a.write(file) } else { a.write_as(file, f) }));
                let b = std::fs::read(&path).unwrap_or_else(|_| bad("scratch"));
                let _ = std::fs::remove_file(&path);
                let ok = r["r"] == "ok";
                let len = if ok { res(guard(|| a.emit_as(f))).1.map_or(0, |b| b.len()) } else { 0 };
                let start = if app { old.len() } else { at as usize };
                let was = |i: usize| old.get(i).copied().unwrap_or(0);
                let head = (0..start.min(b.len())).filter(|&i| b[i] == was(i)).count();
                let tail = (start + len..b.len()).filter(|&i| b[i] == was(i)).count();
                ev.insert("place".into(), json!({"pre": old.len(), "start": start, "olen": len, "flen": b.len(), "head": head, "tail": tail}));
                (r, if ok { Some(b[start.min(b.len())..(start + len).min(b.len())].to_vec()) } else { None })
            }
            "full_as" => {
                // a sink that accepts no data: the write must fail with an I/O error
                match std::fs::OpenOptions::new().write(true).open("/dev/full") {
                    Ok(file) => {
                        let (r, _) = res(guard(|| a.write_as(file, f)));
                        (r, None)
                    }
                    Err(_) => bad("/dev/full"),
                }
            }
            "ro_as" => {
                std::fs::write(&path, b"x").unwrap_or_else(|_| bad("scratch"));
                let file = std::fs::File::open(&path).unwrap_or_else(|_| bad("scratch"));
                let (r, _) = res(guard(|| a.write_as(file, f)));
                ev.insert("wlen".into(), json!(std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0)));
                let _ = std::fs::remove_file(&path);
                (r, None)
            }
            "pipe_as" | "short_as" => {
                // a pipe: emptied by a reader, or one that takes a part of the bytes and then no more
                let short = via == "short_as";
                let fill = o["fill"].as_u64().unwrap_or(0) as usize;
                let (mut rd, wr) = small_pipe(short, o["cap"].as_u64().unwrap_or(1) as usize, fill);
                let reader = if short { None } else { Some(std::thread::spawn({ let mut rd = rd.try_clone().unwrap_or_else(|_| bad("pipe")); move || { let mut b = Vec::new(); let _ = rd.read_to_end(&mut b); b } })) };
                let (r, _) = res(guard(|| a.write_as(wr, f)));
                let mut b = match reader { Some(h) => h.join().unwrap_or_default(), None => { let mut b = Vec::new(); let _ = rd.read_to_end(&mut b); b } };
                b.drain(..(4096 * fill).min(b.len()));
                ev.insert("wlen".into(), json!(b.len()));
                let ok = r["r"] == "ok";
                (r, if ok { Some(b) } else { None })
            }
            _ => bad("via"),
        };
        if let Some(b) = bytes {
            ev.insert("dg".into(), json!(digest(&b)));
            if !o["lite"].as_bool().unwrap_or(false) {
                if o["bulk"].is_object() {
                    ev.insert("obs".into(), bulk_view(&asked, &b, &o["bulk"]));
                } else {
                    ev.insert("obs".into(), decode(&asked, &b));
                }
            }
            if let Some(p) = o["save"].as_str() {
                let _ = std::fs::write(p, &b);
            }
        }
        r
    }

    /// The objects of several artifacts, and what a linker makes of them.
    fn join(&mut self, o: &Value, ev: &mut Map<String, Value>) -> Value {
        let (asked, ld) = (st(o, "bf").to_string(), st(o, "ld").to_string());
        let slots: Vec<i64> = o["slots"].as_array().unwrap_or_else(|| bad("slots")).iter().map(|s| s.as_i64().unwrap_or_else(|| bad("slots"))).collect();
        let mut objs = vec![];
        let mut failed = None;
        for s in &slots {
            let a = self.slots.get(s).unwrap_or_else(|| bad("no such slot"));
            match res(guard(|| a.emit_as(bf(&asked)))) {
                (_, Some(b)) => objs.push(b),
                (r, None) => failed = Some(r),
            }
        }
        let (r, img) = match failed {
            Some(r) => (json!({"r": "noobject", "e": "-", "s": "", "why": r}), json!({"ok": false})),
            None if ld == "none" => (json!({"r": "nolinker", "e": "-", "s": ""}), json!({"ok": false})),
            None => image::join(&ld, st(o, "arch"), &self.scratch, &objs),
        };
        ev.insert("img".into(), img);
        r
    }

    fn step(&mut self, o: &Value) -> Value {
        let mut ev = o.as_object().cloned().unwrap_or_else(|| bad("op is not an object"));
        let op = st(o, "op").to_string();
        if !ev.contains_key("slot") {
            ev.insert("slot".into(), json!(0));
        }
        let slot = ev["slot"].as_i64().unwrap_or(0);
        let nm = |k: &str| unesc(st(o, k));
        let mut r = json!({"r": "ok"});
        match op.as_str() {
            "new" => {
                let t = triple(o);
                let a = if st(o, "via") == "new" {
                    Artifact::new(t, nm("name"))
                } else {
                    let mut b = ArtifactBuilder::new(t);
                    if o["name"].is_string() {
                        b = b.name(nm("name"));
                    }
                    if let Some(l) = o["lib"].as_bool() {
                        b = b.library(l);
                    }
                    for c in o["chain"].as_array().map(|c| c.as_slice()).unwrap_or(&[]) {
                        b = match c["c"].as_str() {
                            Some("name") => b.name(unesc(st(c, "a"))),
                            Some("library") => b.library(c["a"].as_bool().unwrap_or_else(|| bad("library"))),
                            _ => bad("chain"),
                        };
                    }
                    b.finish()
                };
                ev.insert("gname".into(), json!(esc(a.name.as_bytes())));
                ev.insert("glib".into(), json!(a.is_library));
                ev.insert("gbf".into(), json!(bfname(a.target.binary_format)));
                self.slots.insert(slot, a);
            }
            "clone" => {
                let a = self.art(o).clone();
                self.slots.insert(o["dst"].as_i64().unwrap_or_else(|| bad("dst")), a);
            }
            "setname" => {
                let n = nm("name");
                self.art(o).name = n;
            }
            "settarget" => {
                let t = triple(o);
                self.art(o).target = t;
            }
            "setlib" => {
                let l = o["lib"].as_bool().unwrap_or_else(|| bad("lib"));
                self.art(o).is_library = l;
            }
            "declare" => {
                let (n, d) = (nm("n"), decl(&o["d"]));
                let a = self.art(o);
                r = res(guard(|| a.declare(n, d))).0;
            }
            "declmany" => {
                let items: Vec<(String, Decl)> = o["items"].as_array().unwrap_or_else(|| bad("items")).iter().map(|i| (unesc(st(i, "n")), decl(&i["d"]))).collect();
                let a = self.art(o);
                r = res(guard(|| a.declarations(items.into_iter()))).0;
            }
            "declwith" => {
                let (n, d, b) = (nm("n"), decl(&o["d"]), unhex(st(o, "b")));
                let a = self.art(o);
                r = res(guard(|| a.declare_with(n, d, b))).0;
            }
            "import" => {
                let (n, k) = (nm("n"), if st(o, "k") == "fn" { ImportKind::Function } else { ImportKind::Data });
                let a = self.art(o);
                r = res(guard(|| a.import(n, k))).0;
            }
            "define" => {
                let (n, b) = (nm("n"), unhex(st(o, "b")));
                let a = self.art(o);
                r = res(guard(|| a.define(n, b))).0;
            }
            "definez" => {
                let (n, z) = (nm("n"), from_l3(&o["z"]) as usize);
                let a = self.art(o);
                r = res(guard(|| a.define_zero_init(n, z))).0;
            }
            "defsyms" => {
                let (n, s) = (nm("n"), syms_in(o));
                let d = if o["zero"].as_bool().unwrap_or(false) { Data::ZeroInit(from_l3(&o["z"]) as usize) } else { Data::Blob(unhex(st(o, "b"))) };
                let a = self.art(o);
                r = res(guard(|| a.define_with_symbols(n, d, s))).0;
            }
            "link" | "linkw" => {
                let (f, t, at) = (nm("from"), nm("to"), from_l3(&o["at"]));
                let rel = if op == "link" { Reloc::Auto } else { reloc(&o["rel"]) };
                let a = self.art(o);
                let l = Link { from: &f, to: &t, at };
                r = res(guard(|| if op == "link" { a.link(l) } else { a.link_with(l, rel) })).0;
                if op == "link" {
                    ev.insert("rel".into(), json!({"t": "auto", "r": [0,0,0], "sz": 0, "add": [0,0,0]}));
                }
            }
            "emit" => {
                r = self.emit(o, &mut ev);
            }
            "cmp" => {}
            "join" => {
                r = self.join(o, &mut ev);
            }
            "bulk" => {
                r = self.bulk(o);
            }
            "blinks" => {
                r = self.blinks(o);
            }
            "absorb" => {
                let (old, new) = (decl(&o["old"]), decl(&o["new"]));
                let mut cur = old;
                r = res(guard(|| cur.absorb(new))).0;
                ev.insert("after".into(), undecl(&cur));
            }
            "build" => match guard(|| build(o)) {
                Ok((d, acc)) => {
                    ev.insert("d".into(), undecl(&d));
                    ev.insert("acc".into(), accessors(&d));
                    ev.insert("gets".into(), acc);
                }
                Err(p) => r = json!({"r": "panic", "e": "panic", "s": "", "msg": panic_msg(&p)}),
            },
            "data" => {
                let d = if o["zero"].as_bool().unwrap_or(false) { Data::ZeroInit(from_l3(&o["z"]) as usize) } else { unhex(st(o, "b")).into() };
                ev.insert("fsz".into(), l3(d.file_size() as u64));
                ev.insert("empty".into(), json!(d.is_empty()));
                ev.insert("zi".into(), json!(d.is_zero_init()));
            }
            _ => bad(&format!("unknown op {}", op)),
        }
        ev.insert("res".into(), r);
        if self.extra && !matches!(op.as_str(), "absorb" | "build" | "data") {
            let (i, u) = observe(&self.slots[&slot]);
            ev.insert("imps".into(), i);
            ev.insert("und".into(), u);
        }
        Value::Object(ev)
    }

    /// A family of declarations pre0..pre(n-1), all alike, defined with the same contents (followed by
    /// the member's number, if `own`) unless imports; sections may each hold one custom symbol.
    fn bulk(&mut self, o: &Value) -> Value {
        let (pre, n, d) = (unesc(st(o, "pre")), o["n"].as_u64().unwrap_or_else(|| bad("n")), decl(&o["d"]));
        let (zero, own, sy) = (o["zero"].as_bool().unwrap_or(false), o["own"].as_bool().unwrap_or(false), o["sy"].as_str().unwrap_or("").to_string());
        let b = if d.is_import() || zero { vec![] } else { unhex(st(o, "b")) };
        let z = if zero { from_l3(&o["z"]) as usize } else { 0 };
        let sval = if sy.is_empty() { 0 } else { from_l3(&o["sval"]) };
        let a = self.art(o);
        res(guard(|| {
            for i in 0..n {
                let name = format!("{}{}", pre, i);
                a.declare(&name, d)?;
                if d.is_import() {
                    continue;
                }
                if zero {
                    a.define_zero_init(&name, z)?;
                    continue;
                }
                let mut c = b.clone();
                if own {
                    c.extend_from_slice(&(i as u32).to_le_bytes());
                }
                if sy.is_empty() {
                    a.define(&name, c)?;
                } else {
                    a.define_with_symbols(&name, c, std::iter::once((format!("{}{}", sy, i), sval)).collect())?;
                }
            }
            Ok(())
        })).0
    }

    /// Groups of links: member k of a group goes from member fi+k*fs of one family to member ti+k*ts
    /// of another, at the offset at+k*step.
    fn blinks(&mut self, o: &Value) -> Value {
        let num = |g: &Value, k: &str| g[k].as_u64().unwrap_or_else(|| bad(k));
        let groups: Vec<&Value> = o["groups"].as_array().unwrap_or_else(|| bad("groups")).iter().collect();
        let mut links: Vec<(String, String, u64, Reloc)> = vec![];
        for g in groups {
            for k in 0..num(g, "n") {
                links.push((format!("{}{}", unesc(st(g, "from")), num(g, "fi") + k * num(g, "fs")), format!("{}{}", unesc(st(g, "to")), num(g, "ti") + k * num(g, "ts")),
                            num(g, "at") + k * num(g, "step"), reloc(&g["rel"])));
            }
        }
        let a = self.art(o);
        res(guard(|| {
            for (f, t, at, r) in &links {
                a.link_with(Link { from: f, to: t, at: *at }, *r)?;
            }
            Ok(())
        })).0
    }
}

/// Compact projection of a very large ELF object: a name that is a family's prefix and a number is
/// replaced by (family, number); nothing else is lost that the specification of such objects needs.
fn bulk_view(fmt: &str, b: &[u8], q: &Value) -> Value {
    if fmt != "elf" {
        return mach_view(b, q);
    }
    let e = match elf::parse(b) {
        Some(e) => e,
        None => return json!({"ok": false}),
    };
    let fams: Vec<(String, String, String)> = q["fams"].as_array().unwrap_or_else(|| bad("fams")).iter()
        .map(|v| (st(v, "pre").to_string(), st(v, "sec").to_string(), v["sy"].as_str().unwrap_or("").to_string())).collect();
    let num = |r: &str| -> Option<i64> { r.parse::<u32>().ok().filter(|i| i.to_string() == r).map(|i| i as i64) };
    let look = |n: &str, sec: bool| -> (usize, i64) {
        for (k, (p, s, y)) in fams.iter().enumerate() {
            let r = if sec { n.strip_prefix(s.as_str()).and_then(|n| n.strip_prefix(p.as_str())) }
                    else if y.is_empty() { if s.is_empty() { None } else { n.strip_prefix(p.as_str()) } }
                    else { n.strip_prefix(y.as_str()) };
            if let Some(i) = r.and_then(num) {
                return (k + 1, i);
            }
        }
        (0, -1)
    };
    // name of a relocation table: that of the section it is for, after ".rela"
    let secs: Vec<Value> = e.secs.iter().map(|s| {
        let (n, ok) = e.sec_name(s);
        let n = esc(n);
        let (f, i) = if s.ty == 4 { n.strip_prefix(".rela").map(|n| look(n, true)).unwrap_or((0, -1)) } else { look(&n, true) };
        let c = e.content(s);
        let fl: String = elf::flags(s.flags).as_array().unwrap().iter().map(|v| v.as_str().unwrap())
            .filter(|x| s.ty == 1 || s.ty == 8 || "WAXMS".contains(x)).collect();
        let head = match (s.ty, c) {
            (1, Some(c)) => hex(&c[..c.len().min(16)]),
            (3, Some([a, .., b])) => hex(&[*a, *b]),
            _ => String::new(),
        };
        json!([f, i, elf::sec_type(s.ty), ok, l3(s.size), c.is_some(), head, si(s.link), si(s.info),
               fl, util::alx(s.align), si(s.off), si(s.size), si(s.ent), s.addr == 0, if f > 0 { String::new() } else { n }])
    }).collect();
    // what is stored in the file, by position: the header (-1), the section headers (-2), sections
    let mut ord: Vec<(u64, i64)> = vec![(0, -1), (e.hdr["shoff"].as_u64().unwrap_or(0), -2)];
    ord.extend(e.secs.iter().enumerate().filter(|(_, s)| s.ty != 0 && s.ty != 8 && s.size > 0).map(|(i, s)| (s.off, i as i64)));
    ord.sort();
    let ord: Vec<i64> = ord.into_iter().map(|x| x.1).collect();
    let syms: Vec<Value> = e.syms.iter().map(|s| {
        let (n, ok) = e.sym_name(s);
        let (f, i) = look(&esc(n), false);
        json!([f, i, elf::bind_name(s.info), elf::type_name(s.info), ok, s.sx, s.raw_shndx == 0xffff, l3(s.value), l3(s.size), elf::vis_name(s.other), if f > 0 { String::new() } else { esc(n) }])
    }).collect();
    // the last field tells apart entries that say the same
    let denotes = |k: u64| -> (usize, i64) {
        match e.syms.get(k as usize) {
            None => (0, -1),
            Some(s) if s.info & 0xf == 3 => e.secs.get(s.sx.max(0) as usize).map(|t| look(&esc(e.sec_name(t).0), true)).unwrap_or((0, -1)),
            Some(s) => look(&esc(e.sym_name(s).0), false),
        }
    };
    let mut seen = std::collections::HashMap::new();
    let mut nth = std::collections::HashMap::new();
    let rels: Vec<Value> = e.rels.iter().map(|(sec, tgt, off, sym, ty, add)| {
        let n = seen.entry((*tgt, *off, denotes(*sym), *ty, *add)).or_insert(0usize);
        *n += 1;
        let m = nth.entry(*sec).or_insert(0usize);
        *m += 1;
        json!([sec, si(*tgt), si(*off), si(*sym), l3(*ty), l3(*add), *n - 1, *m - 1])
    }).collect();
    let st = e.symtab.map(|i| &e.secs[i]);
    json!({"ok": !e.truncated, "len": b.len(), "hdr": e.hdr, "secs": secs, "syms": syms, "rels": rels, "ord": ord,
        "symtab": e.symtab.map(|x| x as i64).unwrap_or(-1), "info": st.map(|s| si(s.info)).unwrap_or(-1), "strlink": st.map(|s| si(s.link)).unwrap_or(-1),
        "xtab": e.secs.iter().position(|s| s.ty == 18).map(|x| json!({"i": x, "link": si(e.secs[x].link), "isz": si(e.secs[x].size), "ent": si(e.secs[x].ent), "spare": e.spare})).unwrap_or(json!({"i": -1, "link": -1, "isz": -1, "ent": -1, "spare": 0})),
        "s0": {"isz": e.secs.first().map(|s| si(s.size)).unwrap_or(-1), "link": e.secs.first().map(|s| si(s.link)).unwrap_or(-1)}})
}

/// The same for Mach-O: the ordinary view with, for each symbol, its family and number and its first
/// bytes; for each relocation, the symbol it lies in; and the symbols in the order of their addresses.
fn mach_view(b: &[u8], q: &Value) -> Value {
    let mut o = mach::decode(b);
    if !o["ok"].as_bool().unwrap_or(false) {
        return json!({"ok": false});
    }
    let fams: Vec<(String, String, bool)> = q["fams"].as_array().unwrap_or_else(|| bad("fams")).iter()
        .map(|v| (st(v, "pre").to_string(), v["sy"].as_str().unwrap_or("").to_string(), st(v, "sec").is_empty())).collect();
    let num = |r: &str| -> Option<i64> { r.parse::<u32>().ok().filter(|i| i.to_string() == r).map(|i| i as i64) };
    let look = |n: &str| -> (usize, i64) {
        for (k, (p, y, sec)) in fams.iter().enumerate() {
            let r = if !y.is_empty() { n.strip_prefix(y.as_str()) } else if *sec { None } else { n.strip_prefix(p.as_str()) };
            if let Some(i) = r.and_then(num) {
                return (k + 1, i);
            }
        }
        (0, -1)
    };
    let secs: Vec<(u64, String)> = o["secs"].as_array().unwrap().iter().map(|s| (from_l3(&s["addr"]), st(s, "tok").to_string())).collect();
    let mut ord: Vec<(u64, usize)> = vec![];
    let mut by: BTreeMap<(u64, u64), usize> = BTreeMap::new();
    let mut ids = vec![];
    for (i, s) in o["syms"].as_array_mut().unwrap().iter_mut().enumerate() {
        let (f, k) = look(st(s, "nm"));
        let (val, sect) = (from_l3(&s["val"]), s["sect"].as_u64().unwrap_or(0));
        let mut head = String::new();
        if let Some((addr, tok)) = secs.get((sect as usize).wrapping_sub(1)) {
            let at = val.wrapping_sub(*addr).min(1 << 32) as usize * 2;
            head = tok.get(at..(at + 32).min(tok.len())).unwrap_or("").to_string();
            if f > 0 && fams[f - 1].1.is_empty() {
                ord.push((val, i));
                by.insert((sect, val), i);
            }
        }
        ids.push((f, k));
        let m = s.as_object_mut().unwrap();
        m.remove("nm");
        m.remove("strx");
        m.insert("f".into(), json!(f));
        m.insert("i".into(), json!(k));
        m.insert("head".into(), json!(head));
    }
    ord.sort();
    let mut seen = std::collections::HashMap::new();
    for r in o["rels"].as_array_mut().unwrap() {
        let sect = r["sec"].as_u64().unwrap();
        let at = from_l3(&r["off"]).wrapping_add(secs[sect as usize - 1].0);
        let inside = by.range(..=(sect, at)).next_back().filter(|(k, _)| k.0 == sect).map(|(_, i)| *i as i64).unwrap_or(-1);
        let n = seen.entry((sect, at, ids.get(r["sym"].as_u64().unwrap() as usize).cloned(), r["ty"].as_u64(), r["pcrel"].as_u64(), r["len"].as_u64())).or_insert(0usize);
        *n += 1;
        let m = r.as_object_mut().unwrap();
        m.insert("inside".into(), json!(inside));
        m.insert("dup".into(), json!(*n - 1));
    }
    // contents of the standard sections are told by the symbols
    for s in o["secs"].as_array_mut().unwrap() {
        if st(s, "tok").len() > 64 {
            s["tok"] = json!("-");
        }
    }
    o["ord"] = json!(ord.into_iter().map(|x| x.1).collect::<Vec<_>>());
    o
}

fn bfname(b: BinaryFormat) -> &'static str {
    match b { BinaryFormat::Elf => "elf", BinaryFormat::Macho => "macho", BinaryFormat::Coff => "coff", BinaryFormat::Wasm => "wasm", BinaryFormat::Xcoff => "xcoff", BinaryFormat::Unknown => "unknown", _ => "other" }
}

/// Run a chain of declaration-builder calls.
fn build(o: &Value) -> (Decl, Value) {
    macro_rules! common { ($d:ident, $c:expr, $a:expr) => { match $c {
        "with_align" => { $d = $d.with_align(align($a)); true }
        "set_align" => { $d.set_align(align($a)); true }
        _ => false } } }
    macro_rules! scoped { ($d:ident, $c:expr, $a:expr) => { match $c {
        "global" => { $d = $d.global(); true } "local" => { $d = $d.local(); true } "weak" => { $d = $d.weak(); true }
        "with_scope" => { $d = $d.with_scope(scope($a.as_str().unwrap())); true }
        "set_scope" => { $d.set_scope(scope($a.as_str().unwrap())); true }
        "default_visibility" => { $d = $d.default_visibility(); true } "protected" => { $d = $d.protected(); true } "hidden" => { $d = $d.hidden(); true }
        "with_visibility" => { $d = $d.with_visibility(vis($a.as_str().unwrap())); true }
        "set_visibility" => { $d.set_visibility(vis($a.as_str().unwrap())); true }
        _ => false } } }
    macro_rules! typed { ($d:ident, $c:expr, $a:expr) => { match $c {
        "with_datatype" => { $d = $d.with_datatype(dtype($a.as_str().unwrap())); true }
        "set_datatype" => { $d.set_datatype(dtype($a.as_str().unwrap())); true }
        _ => false } } }
    let calls: Vec<(String, Value)> = o["calls"].as_array().unwrap_or_else(|| bad("calls")).iter().map(|c| (st(c, "c").to_string(), c["a"].clone())).collect();
    match st(o, "base") {
        "fn" => {
            let mut d = Decl::function();
            for (c, a) in &calls {
                let c = c.as_str();
                if !(common!(d, c, a) || scoped!(d, c, a)) { bad("call") }
            }
            (d.into(), json!({"global": d.is_global(), "writable": false}))
        }
        b @ ("data" | "cstring") => {
            let mut d = if b == "data" { Decl::data() } else { Decl::cstring() };
            for (c, a) in &calls {
                let c = c.as_str();
                if common!(d, c, a) || scoped!(d, c, a) || typed!(d, c, a) { continue }
                match c {
                    "writable" => d = d.writable(),
                    "read_only" => d = d.read_only(),
                    "with_writable" => d = d.with_writable(a.as_bool().unwrap()),
                    "set_writable" => d.set_writable(a.as_bool().unwrap()),
                    _ => bad("call"),
                }
            }
            (d.into(), json!({"global": d.is_global(), "writable": d.is_writable()}))
        }
        "sec" => {
            let mut d = Decl::section(skind(st(o, "sk")));
            for (c, a) in &calls {
                let c = c.as_str();
                if !(common!(d, c, a) || typed!(d, c, a)) { bad("call") }
            }
            (d.into(), json!({"global": d.is_global(), "writable": d.is_writable()}))
        }
        "ifn" => (Decl::function_import().into(), json!({"global": false, "writable": false})),
        "idata" => (Decl::data_import().into(), json!({"global": false, "writable": false})),
        _ => bad("base"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "decode" {
        let b = std::fs::read(&args[2]).unwrap_or_else(|_| bad("cannot read"));
        let v = if b.starts_with(b"\x7fELF") { elf::decode(&b) } else { mach::decode(&b) };
        println!("{}", serde_json::to_string(&v).unwrap());
        return;
    }
    if args.len() < 5 || args[1] != "run" {
        eprintln!("usage: fh run PROGRAMS.ndjson OUT_PREFIX SHARDS | fh decode FILE");
        std::process::exit(2);
    }
    let shards: usize = args[4].parse().unwrap_or_else(|_| bad("shards"));
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap_or_else(|_| bad("cannot open programs")));
    let progs: Vec<String> = input.lines().map(|l| l.unwrap_or_else(|_| bad("read"))).filter(|l| !l.trim().is_empty()).collect();
    let progs = std::sync::Arc::new(progs);
    let mut ths = vec![];
    for sh in 0..shards {
        let progs = progs.clone();
        let prefix = args[3].clone();
        ths.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let path = format!("{}.{}.ndjson", prefix, sh);
            let scratch = std::path::PathBuf::from(format!("{}.{}.scratch", prefix, sh));
            std::fs::create_dir_all(&scratch).unwrap_or_else(|_| bad("scratch"));
            let mut out = std::io::BufWriter::new(std::fs::File::create(&path).unwrap_or_else(|_| bad("cannot create output")));
            let cur = format!("{}.{}.cur", prefix, sh);
            let mut count = 0usize;
            for (i, p) in progs.iter().enumerate() {
                if i % shards != sh {
                    continue;
                }
                let v: Value = serde_json::from_str(p).unwrap_or_else(|e| bad(&format!("{} in {}", e, p)));
                let mut c = Ctx { slots: BTreeMap::new(), scratch: scratch.clone(), extra: !v["quiet"].as_bool().unwrap_or(false) };
                let pid = v["id"].as_str().unwrap_or("?").to_string();
                let kf = v["kf"].as_bool().unwrap_or(false);
                for (k, o) in v["ops"].as_array().unwrap_or_else(|| bad("ops")).iter().enumerate() {
                    // which call is under way, should it never return
                    let _ = std::fs::write(&cur, format!("{} {}", i, k));
                    let mut ev = c.step(o);
                    let m = ev.as_object_mut().unwrap();
                    if kf {
                        m.insert("kf".into(), json!(true));
                    }
                    m.insert("pid".into(), json!(pid));
                    m.insert("seq".into(), json!(k));
                    m.insert("first".into(), json!(k == 0));
                    serde_json::to_writer(&mut out, &ev).unwrap();
                    out.write_all(b"\n").unwrap();
                    count += 1;
                    out.flush().unwrap();
                }
            }
            let _ = std::fs::remove_file(&cur);
            let _ = std::fs::remove_dir_all(&scratch);
            count
        }).unwrap());
    }
    let mut total = 0;
    for t in ths {
        match t.join() {
            Ok(n) => total += n,
            Err(_) => bad("harness thread died"),
        }
    }
    println!("{} programs {} events", progs.len(), total);
}
