"""Seeded generator of API programs for the conformance harness.

It decides nothing: it only proposes call sequences.  What the crate must answer, and what the
emitted objects must contain, is decided by the TLA+ specification (spec/Trace.tla)."""
import json, random

ARCHES = ["x86_64", "i686", "aarch64", "armv7", "mips", "mipsel", "mips64", "mips64el", "powerpc",
          "powerpc64", "powerpc64le", "riscv32imac", "riscv64gc", "s390x", "sparc", "sparc64"]
# other members of the same families (x32, ilp32: 64-bit processors with 32-bit objects)
KIN = {"x86_64": ["x32"], "i686": ["i386", "i586"], "aarch64": ["aarch64_be", "ilp32"], "armv7": ["arm", "armv4t", "armv5te", "armv6", "armv7k", "armv7m", "armv7r", "armv7s", "armv8", "thumbv6m", "thumbv7em",
       "thumbv7m", "thumbv7neon", "armeb", "armebv7r", "thumbeb"], "mips": ["mipsisa32r6"], "mipsel": ["mipsisa32r6el"], "mips64": ["mipsisa64r6"], "mips64el": ["mipsisa64r6el"],
       "riscv32imac": ["riscv32", "riscv32gc", "riscv32i"], "riscv64gc": ["riscv64", "riscv64imac"], "sparc64": ["sparcv9"]}
HEAD = {k: h for h, ks in KIN.items() for k in ks}
EVERY = ARCHES + sorted(HEAD)


def kin(*heads):
    return set(heads) | {k for h in heads for k in KIN.get(h, [])}


BITS32 = kin("i686", "armv7", "mips", "mipsel", "powerpc", "riscv32imac", "sparc") | {"x32", "ilp32"}
MACH = kin("x86_64", "i686", "aarch64", "armv7", "powerpc", "powerpc64", "powerpc64le", "sparc") - {"x32", "ilp32"}
MACHES = [a for a in ARCHES if a in MACH]


def pick_arch(r, mach=False):
    """any architecture, all families alike"""
    a = r.choice(MACHES if mach else ARCHES)
    return r.choice([a] + [k for k in KIN.get(a, []) if k in MACH or not mach])


def system(r):
    """the parts of a target that say nothing about objects"""
    return {} if r.random() < .6 else {"ven": r.choice(["unknown", "pc", "apple", "nvidia", "sun"]),
                                       "os": r.choice(["linux", "darwin", "freebsd", "solaris", "none", "windows", "ios", "haiku", "netbsd", "unknown"]),
                                       "env": r.choice(["unknown", "gnu", "musl", "eabi", "gnueabihf", "msvc", "android"])}


def u64(v):
    v &= (1 << 64) - 1
    return [v >> 48, (v >> 24) & 0xffffff, v & 0xffffff]


def D(k, scope="-", vis="-", w=False, dt="-", sk="-", al=-1):
    return {"k": k, "scope": scope, "vis": vis, "w": w, "dt": dt, "sk": sk, "al": al}


IFN, IDATA = D("ifn"), D("idata")
AUTO = {"t": "auto", "r": u64(0), "sz": 0, "add": u64(0)}


def raw(r, add=0):
    return {"t": "raw", "r": u64(r), "sz": 0, "add": u64(add)}


def dbg(sz, add=0):
    return {"t": "dbg", "r": u64(0), "sz": sz, "add": u64(add)}


class G:
    def __init__(self, rnd):
        self.r = rnd

    # ---- declarations ----
    def scope(self):
        return self.r.choice("LGGW")

    def vis(self):
        return self.r.choice("DDDPH")

    def al(self, hi=7):
        r = self.r
        return -1 if r.random() < .45 else r.randrange(0, hi + 1)

    def fn(self, hi=7):
        return D("fn", self.scope(), self.vis(), al=self.al(hi))

    def data(self, hi=7):
        return D("data", self.scope(), self.vis(), self.r.random() < .5, self.r.choice(["bytes", "bytes", "str"]), al=self.al(hi))

    def sec(self, hi=7):
        return D("sec", dt=self.r.choice(["bytes", "bytes", "str"]), sk=self.r.choice(["Data", "Debug", "Debug", "Text"]), al=self.al(hi))

    def decl(self):
        return self.r.choice([self.fn, self.data, self.sec, lambda: IFN, lambda: IDATA])()

    # ---- contents ----
    def blob(self, lo=0):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 100])
        n = max(n, lo)
        if n and r.random() < .4:
            # contents that a writer might be tempted to treat specially
            word = r.choice([b"\0", b"\0", b"\xff", b"hello\0", b"\0hello\0", b"no end", b"a\0b\0\0c\0", b"\x7fELF\x02\x01\x01\0", b"\xcf\xfa\xed\xfe", b"\xe8\0\0\0\0\xc3",
                             b"\x90", b"\r\n", b"\xef\xbb\xbftext", b"\xc3\xa9\xe2\x82\xac", b"\x80\0\0\0\0\0\0\0", b" "])
            word = (word * n)[:n]
            if r.random() < .2:
                word = bytes([r.randrange(1, 256)]) + bytes(n - 1) if r.random() < .5 else bytes(n - 1) + bytes([r.randrange(1, 256)])
            return word.hex()
        return bytes(r.randrange(256) for _ in range(n)).hex()

    def zsize(self, bits32):
        r = self.r
        c = [0, 1, 2, 7, 8, 15, 16, 4096, 65535, 65536, (1 << 20) + 1, (1 << 24) - 1, 1 << 24]
        if not bits32:
            c += [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 33) + 5, 1 << 40, (1 << 48) + 3]
        return r.choice(c)

    # ---- names ----
    def names(self, n):
        """n distinct names, a mixture of ordinary and awkward ones"""
        r = self.r
        base = r.choice(["a", "f", "main", "foo", "x", "_start", "very.dotted.name", "n$1", "Z"])
        pool = [base, base + base, base + "1", "_" + base, "__" + base, base + "_", base.upper() + "x", "." + base,
                "text." + base, ".text." + base, ".data." + base, "rodata", ".strtab", ".symtab", ".note.GNU-stack", "__text", "__data", "faerie.o", "t.o",
                "%20" + base, base + "%20", "%e2%82%ac",
                ".L" + base, "L" + base, "l_" + base, base + "%40plt", base + "%40%40V_1", "%01" + base, "_Z3" + base + "v", "%3f" + base + "%40%40YAXXZ", "$x", "$a.1", "$d",
                "_GLOBAL_OFFSET_TABLE_", "-%5bNSObject%20" + base + "%5d", "dir%2f" + base, base + "%2f", "12", "0x10", base.swapcase(), "sub" + base, "e%cc%81", "%f0%9f%a6%80",
                "%ef%bb%bf" + base, "__text%2c" + base, base + "%09", "%22" + base + "%22", "ltmp0", "__imp_" + base, "__start_" + base, ".data", ".rodata", ".bss", ".text",
                ".shstrtab", "__cstring", "__TEXT", "." + base + ".", base + "." + base, base[::-1] + "." + base, base + "%c3%a9", "%0a", "%25s", "a" * 7, "a" * 8, "a" * 9, "b" * 15, "b" * 16, "b" * 17, "c" * 255, "d" * 300]
        plain = ["n%d" % i for i in range(60)]
        out = []
        if r.random() < .5:
            out = r.sample(pool, min(n, r.randrange(1, len(pool))))
        rest = [p for p in plain if p not in out]
        r.shuffle(rest)
        out = [o for o in dict.fromkeys(out + rest) if o][:n]
        r.shuffle(out)
        return out

    def secnames(self, n, taken):
        r = self.r
        pool = [".debug_info", ".debug_str", ".debug_line_str", ".debug_abbrev", ".debug", ".debugx", "__LD,__compact", ".my_section", "s", ".custom", "x.y", "__mine",
                "sixteen_bytes_xx", "fifteen_bytes_x", ".rustc", "%20sec", ".debug_ranges", ".debug_12345678", ".init_array", ".text", ".data", ".bss", "__const",
                ".note.x", ".comment", ".eh_frame", ".tdata", ".tbss", ".init_array.5", ".gnu.x", ".group", "debug_x", ".zdebug_x", "__DWARF,__debug", ".debug_.x", "__debug_info",
                ".text.hot", ".rodata.str1.1", ".preinit_array", ".fini", ".interp", ".dynamic", ".hash", ".symtab_shndx", "%c3%a9", ".Debug_x", "a.debug_x", "__eh_frame", ".got", ".plt"]
        pool = [p.replace(",", "%2c") for p in pool]
        for _ in range(3):
            w, k = r.choice([("%c3%a9", 2), ("%e2%82%ac", 3), ("%f0%9f%a6%80", 4)])
            j = r.randrange(0, 17 - k)
            pool.append(r.choice(["x" * j, ".debugxxxxxxxxxx"[:j], "__debug_xxxxxxxx"[:j], "__DWARFxxxxxxxxx"[:j]]) + w)
        r.shuffle(pool)
        out = []
        for p in pool:              # ".debug_x" and "__debug_x" are one name in Mach-O
            q = p.replace(".debug", "__debug", 1) if p.startswith(".debug") else p
            if p not in taken and q not in taken:
                taken.add(q)
                out.append(p)
        pool = out
        return pool[:n]


def link_op(f, t, at, rel):
    if rel["t"] == "auto":
        return {"op": "link", "from": f, "to": t, "at": u64(at), "rel": AUTO}
    return {"op": "linkw", "from": f, "to": t, "at": u64(at), "rel": rel}


class Build:
    """One complete artifact as a plan: unordered facts plus call constraints."""

    def __init__(self, g, prof):
        r = g.r
        self.g = g
        self.arch = "x86_64" if r.random() < prof.get("x86", .75) else pick_arch(r)
        if prof.get("mach") and self.arch not in MACH:
            self.arch = pick_arch(r, True)
        self.b32 = self.arch in BITS32
        ndef = r.choice(prof.get("ndef", [1, 2, 3, 4, 5, 6, 8, 12]))
        nimp = r.choice(prof.get("nimp", [0, 0, 1, 2, 3, 4]))
        nsec = r.choice(prof.get("nsec", [0, 0, 1, 2, 3]))
        hi = prof.get("hi", 8)
        names = g.names(ndef + nimp)
        if ndef and ndef + nimp > 1 and r.random() < prof.get("alike", .12):
            j = r.randrange(len(names))
            m = r.choice([n for n in names if n != names[j]])
            n = r.choice([".text.", ".data.", ".rodata.", ".bss.", ".text.", ".rela.text.", ".rela.data.", "_", "__"]) + m
            if n not in names:
                names[j] = n
        self.decl, self.defn, self.imp, self.links = {}, {}, [], []
        for n in names[:ndef]:
            d = g.fn(hi) if r.random() < prof.get("pfn", .45) else g.data(hi)
            self.decl[n] = d
            if d["k"] == "data" and r.random() < prof.get("pz", .3):
                self.defn[n] = ("z", g.zsize(self.b32))
            else:
                self.defn[n] = ("b", g.blob())
        # equal declarations and equal contents under different names
        if ndef > 1 and r.random() < prof.get("equal", .3):
            for n in names[:ndef]:
                m = r.choice(names[:ndef])
                if m != n and r.random() < .4:
                    self.defn[n] = self.defn[m]
                    self.decl[n] = dict(self.decl[m])
        # a very large alignment, where no padding for it has to be stored
        if not self.b32 and r.random() < prof.get("huge", .08):
            n = r.choice(names[:ndef] or [""])
            if n and (self.defn[n][0] == "z" or not [m for m in names[:ndef] if m != n and self.defn[m][0] != "z" and self.cls(m) == self.cls(n)]):
                self.decl[n] = dict(self.decl[n], al=r.choice([24, 25, 30, 31, 32, 33, 36, 40]))
        for n in names[ndef:]:
            self.imp.append(n)
            self.decl[n] = r.choice([IFN, IDATA])
        taken = set(self.decl)
        csyms = [c for c in ["cs%d" % i for i in range(20)] + ["sym.x", "_cs", "cs%20s", "q" * 40] if c not in taken]
        r.shuffle(csyms)
        for n in g.secnames(nsec, taken):
            d = g.sec(min(hi, 8))
            self.decl[n] = d
            b = g.blob()
            syms = []
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                if csyms:
                    hi_off = r.choice([0, 1, max(len(b) // 2, 1) - 1, len(b) // 2, 1 << 20])
                    if not self.b32 and r.random() < .1:
                        hi_off = r.choice([1 << 31, (1 << 32) + 1, (1 << 40)])
                    syms.append([csyms.pop(), u64(hi_off)])
            syms.sort(key=lambda s: unesc(s[0]))
            self.defn[n] = ("s", b, syms)
        # links
        mode = prof.get("links", r.choice(["both", "elf", "macho"]))
        froms = [n for n in self.defn]
        anyn = list(self.decl)
        nl = r.choice(prof.get("nlink", [0, 0, 1, 2, 3, 5, 8]))
        for _ in range(nl * 3):
            if len(self.links) >= nl or not froms:
                break
            f, t = r.choice(froms), r.choice(anyn)
            if r.random() < .1 and froms:
                t = f
            rel = r.choice([AUTO, AUTO, AUTO, dbg(r.choice([4, 8]), r.choice([0, 0, 1, -1, 0x7fffffff, -0x80000000])),
                            raw(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 24, 41, 42, 255, 256, 65536, 0xffffffff] if mode == "elf" else [0, 1, 2, 3, 4, 5, 9, 15]),
                                r.choice([0, 1, 4, -4, -1, 255, 0x7fffffff, -0x80000000]) if mode == "elf" else 0)])
            fk, tk = self.decl[f]["k"], self.decl[t]["k"]
            elf_ok = macho_ok = True
            if rel["t"] == "auto":
                elf_ok = fk != "sec" and not (fk == "fn" and tk == "sec")
                macho_ok = fk != "sec" and tk != "sec"
            elif rel["t"] == "dbg":
                macho_ok = fk == "sec"
            else:
                elf_ok = not self.b32 or rel["r"] < u64(256)
                macho_ok = rel["add"] == u64(0) and rel["r"] < u64(16) and tk != "sec"
            if (mode in ("both", "elf") and not elf_ok) or (mode in ("both", "macho") and not macho_ok):
                continue
            kind = self.defn[f]
            size = kind[1] if kind[0] == "z" else len(kind[1]) // 2
            at = r.choice([0, 0, 1, max(size - 4, 0), max(size - 1, 0), size // 2, size])
            at = min(at, (1 << 31) - 1)
            if mode == "elf" and not self.b32 and r.random() < .08:
                at = r.choice([(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1])
            self.links.append((f, t, at, rel))
            if r.random() < .1:
                self.links.append((f, t, at, rel))
        self.mode = mode
        self.name = r.choice(["t.o", "t.o", "faerie.o", "lib%20x.o", ".strtab", "n0", "", "é.o".encode().hex() and "%c3%a9.o", "x" * 200, ".symtab", "dir%2ft.o", "%2ftmp%2fx%2f", "..%2f", "a%5cb.o", "t", "t.o.o", "t.c", "%2eo", "lib.a(t.o)".replace("(", "%28").replace(")", "%29"), "T.O", list(self.decl)[0]])
        self.bf = r.choice(["elf", "macho"])

    def cls(self, n):
        return (self.decl[n]["k"], self.decl[n]["dt"])

    def ops(self, r, slot=0, noise=0.0, emits=0.0):
        """a legal interleaving of the calls that build this artifact"""
        g = self.g
        todo = []          # (after, op): op may run once everything in `after` has run
        ids = {}
        tasks = []

        def task(op, deps):
            tasks.append((op, list(deps)))
            return len(tasks) - 1
        for n, d in self.decl.items():
            if n in self.imp:
                ids[n] = task({"op": "import", "n": n, "k": "fn" if d["k"] == "ifn" else "data"} if r.random() < .5 else {"op": "declare", "n": n, "d": d}, [])
                if r.random() < .2:
                    task({"op": "declare", "n": n, "d": d}, [ids[n]])
                continue
            dep = []
            if d["k"] != "sec" and r.random() < .35:
                dep = [task({"op": "import", "n": n, "k": d["k"]}, [])]
            kind = self.defn[n]
            if kind[0] == "b" and r.random() < .4:
                ids[n] = task({"op": "declwith", "n": n, "d": d, "b": kind[1]}, dep)
            else:
                ids[n] = task({"op": "declare", "n": n, "d": d}, dep)
                if kind[0] == "b":
                    op = {"op": "define", "n": n, "b": kind[1]} if r.random() < .7 else {"op": "defsyms", "n": n, "zero": False, "b": kind[1], "z": u64(0), "syms": []}
                elif kind[0] == "z":
                    op = {"op": "definez", "n": n, "z": u64(kind[1])} if r.random() < .7 else {"op": "defsyms", "n": n, "zero": True, "b": "", "z": u64(kind[1]), "syms": []}
                else:
                    op = {"op": "defsyms", "n": n, "zero": False, "b": kind[1], "z": u64(0), "syms": kind[2]}
                task(op, [ids[n]])
            if d["k"] != "sec" and r.random() < .15:
                task({"op": "import", "n": n, "k": d["k"]}, [ids[n]])
        for f, t, at, rel in self.links:
            task(link_op(f, t, at, rel), [ids[f], ids[t]])
        done, out = set(), []
        pend = list(range(len(tasks)))
        while pend:
            ready = [i for i in pend if all(x in done for x in tasks[i][1])]
            i = r.choice(ready)
            pend.remove(i)
            done.add(i)
            op = dict(tasks[i][0])
            if r.random() < noise:
                out.append(self.noise_op(r))
            out.append(op)
            if r.random() < emits:
                out.append({"op": "emit", "via": "emit_as", "bf": r.choice(["elf", "macho"]), "lite": True})
        for o in out:
            o["slot"] = slot
        return out

    def noise_op(self, r):
        """a call likely to be refused, or without effect"""
        g = self.g
        n = r.choice(list(self.decl) + ["ghost", "ghost2"])
        k = r.randrange(7)
        if k == 0:
            return {"op": "define", "n": "ghost%d" % r.randrange(3), "b": g.blob()}
        if k == 1:
            return {"op": "link", "from": "ghost", "to": n, "at": u64(0), "rel": AUTO}
        if k == 2:
            return {"op": "link", "from": n, "to": "ghost3", "at": u64(4), "rel": AUTO}
        if k == 3 and self.imp:
            return {"op": "define", "n": r.choice(self.imp), "b": "00"} if False else {"op": "link", "from": "ghost", "to": r.choice(self.imp), "at": u64(0), "rel": AUTO}
        if k == 4:
            return {"op": "definez", "n": "ghost4", "z": u64(4)}
        if k == 5:
            return {"op": "declmany", "items": []}
        return {"op": "defsyms", "n": "ghost5", "zero": False, "b": "", "z": u64(0), "syms": [["gs", u64(1)]]}


def unesc(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "%":
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


def new_op(r, b, slot=0, **kw):
    via = r.choice(["new", "builder"])
    o = {"op": "new", "via": via, "arch": b.arch, "bf": kw.get("bf", b.bf), "name": kw.get("name", b.name), "slot": slot}
    if via == "builder" and r.random() < .5:
        o["lib"] = r.random() < .5
    o.update(system(r))
    return o


def emit(via="emit_as", bf="elf", slot=0, **kw):
    if via in ("file", "file_as") and "pre" not in kw:
        # a file that holds something already; the position may lie before or beyond its end
        pre, app = random.Random("%s%s%s" % (via, bf, FILES[0])).choice([(0, False), (8, False), (700, False), (5000, False), (100000, False), (3, True), (64, True)])
        FILES[0] += 1
        kw.update(pre=pre, app=app, at=0 if app else (0, pre, pre // 2, pre + 5)[FILES[0] % 4])
    o = {"op": "emit", "via": via, "bf": bf, "slot": slot}
    o.update(kw)
    return o


FILES = [0]


# ---- program families ----
def object_program(g, prof, i):
    r = g.r
    b = Build(g, prof)
    if b.defn and b.mode == "elf" and not b.b32 and not prof.get("emits") and r.random() < .1:
        # ELF sections have no contents to be padded: any power of two of 64 bits will do
        n = r.choice(list(b.defn))
        b.decl[n] = dict(b.decl[n], al=r.randrange(31, 64))
    ops = [new_op(r, b)] + b.ops(r, noise=prof.get("noise", .05), emits=prof.get("emits", 0))
    fmts = {"both": ["elf", "macho"], "elf": ["elf"], "macho": ["macho"]}[b.mode]
    fmts = [f for f in fmts if f in prof.get("fmts", ["elf", "macho"])] or fmts
    r.shuffle(fmts)
    for f in fmts:
        ops.append(emit("emit" if b.bf == f and r.random() < .4 else r.choice(["emit_as", "emit_as", "write_as"]), f))
    return {"id": "obj%d" % i, "ops": ops}


def sink_program(g, prof, i):
    """objects of some pages, written to files, pipes, and sinks that stop taking bytes"""
    r = g.r
    ops = [{"op": "new", "via": "new", "arch": "x86_64", "bf": r.choice(["elf", "macho"]), "name": "t.o"}]
    for j in range(r.randrange(1, 4)):
        n = r.choice([0, 1, 100, 2000, 3700, 4000, 4096, 5000, 8191, 8192, 12000, 70000])
        ops.append({"op": "declwith", "n": "d%d" % j, "d": g.data(4), "b": (b"%02x" % r.randrange(256)).decode() * n})
    for f in ["elf", "macho"]:
        ops.append(emit("emit_as", f, lite=True))
    for _ in range(5):
        ops.append(emit(r.choice(["pipe_as", "short_as", "short_as", "write_as", "full_as", "file_as", "file_as"]), r.choice(["elf", "macho"]), lite=True))
    for o in ops:
        o.setdefault("slot", 0)
    return {"id": "sink%d" % i, "ops": ops}


def scale_program(g, prof, i):
    """one dimension of an artifact made large: definitions, imports, links, names, contents, sections, symbols"""
    r = g.r
    dim = prof.get("dims", ["defs", "imps", "links", "fan", "name", "blob", "secs", "syms", "pads"])
    dim = dim[i % len(dim)]
    n = r.choice([257, 260, 300, 330])
    mach = prof.get("mach", False)
    arch = "x86_64" if r.random() < .2 else pick_arch(r, mach)
    b32 = arch in BITS32
    fmts = prof.get("fmts", ["elf", "macho"] if arch in MACH else ["elf"])
    decl, defn, links = {}, {}, []

    def add(name, d, c):
        decl[name] = d
        defn[name] = c

    def small():
        return ("b", g.blob())
    for j in range(3):
        add("k%d" % j, [g.fn(4), g.data(4), g.fn(4)][j], small())
    if dim == "defs":
        for j in range(n):
            d = g.fn(5) if r.random() < .5 else g.data(5)
            add("n%d" % j, d, ("z", r.choice([0, 1, 8, 100])) if d["k"] == "data" and r.random() < .3 else small())
    elif dim == "imps":
        for j in range(n):
            decl["i%d" % j] = r.choice([IFN, IDATA])
        for _ in range(5):
            links.append(("k0", "i%d" % r.choice([0, 1, n - 1, n - 2, r.randrange(n), 255, 256]), r.randrange(8), AUTO))
    elif dim in ("links", "fan"):
        add("src", g.fn(4) if r.random() < .5 else D("data", "G", "D", True, "bytes"), ("b", "90" * 4096))
        if dim == "links":
            for j in range(n):
                links.append(("src", r.choice(["k0", "k1", "src"]), 4 * j, AUTO))
        else:
            for j in range(n):
                add("m%d" % j, g.fn(4), small())
                links.append(("m%d" % j, "src", r.randrange(4), AUTO) if r.random() < .5 else ("src", "m%d" % j, 4 * j, AUTO))
    elif dim == "name":
        for j, k in enumerate(r.sample([1000, 4095, 4096, 65530, 65535, 65536, 70000, 140000], 3)):
            add(chr(97 + j) * k, g.fn(4), small())
        add("after", g.data(4), small())
        links.append(("after", "k0", 0, AUTO))
    elif dim == "blob":
        for j, k in enumerate(r.sample([4095, 4096, 4097, 65535, 65536, 66000, 131073, 8191], 3)):
            d = r.choice([g.fn, g.data])(6)
            add("big%d" % j, d, ("b", "%02x" % r.randrange(256) * k))
            links.append(("big%d" % j, "k%d" % r.randrange(3), k - 8, AUTO))
        add("after", g.data(6), small())
        links.append(("after", "big0", 0, AUTO))
    elif dim == "secs":
        m = r.choice([40, 100, 200, 245])
        for j in range(m):
            add(".s%d" % j, g.sec(5), ("s", g.blob(), [["y%d" % j, u64(r.randrange(4))]] if r.random() < .5 else []))
        for _ in range(10):
            f = r.choice(sorted(decl))
            if decl[f]["k"] == "sec":
                links.append((f, r.choice(["k0", "k1", "k2"]), r.randrange(4), dbg(r.choice([4, 8]))))
    elif dim == "syms":
        for j in range(2):
            add(".s%d" % j, g.sec(5), ("s", g.blob(8), sorted([["y%d.%d" % (j, x), u64(x)] for x in range(n if j else 5)])))
    elif dim == "pads":
        # alignments far above the size of what is aligned, in every class of storage
        for j in range(24):
            d = g.fn(12) if j % 3 == 0 else g.data(12)
            d["al"] = r.choice([-1, 0, 3, 8, 10, 12])
            add("p%d" % j, d, ("z", r.randrange(9)) if d["k"] == "data" and r.random() < .3 else small())
    if prof.get("nolinks"):
        links = []
    b = Build.__new__(Build)
    b.g, b.arch, b.b32, b.decl, b.defn, b.links = g, arch, b32, decl, defn, links
    b.imp = [x for x, d in decl.items() if d["k"] in ("ifn", "idata")]
    b.name, b.bf, b.mode = r.choice(["t.o", "u" * 300]), r.choice(fmts), "both"
    ops = [new_op(r, b)]
    body = b.ops(r)
    ops += body
    if prof.get("twice"):
        ops += [new_op(r, b, 1, bf=b.bf, name=b.name)] + b.ops(r, 1)
    for f in fmts:
        if prof.get("twice"):
            ops += [emit("emit_as", f, 0), emit("emit_as", f, 1), {"op": "cmp", "slot": 0, "other": 1, "bf": f}]
        else:
            ops.append(emit(r.choice(["emit_as", "write_as"]), f, lite=prof.get("lite", False)))
    return {"id": "scale-%s-%d" % (dim, i), "ops": ops}


def order_program(g, prof, i):
    """the same artifact built twice, in two different orders, through different sugar"""
    r = g.r
    b = Build(g, prof)
    ops = [new_op(r, b, 0, bf="elf", name=b.name), new_op(r, b, 1, bf="elf", name=b.name)]
    o1, o2 = b.ops(r, 0), b.ops(r, 1)
    ops += o1 + o2
    fmts = {"both": ["elf", "macho"], "elf": ["elf"], "macho": ["macho"]}[b.mode]
    for f in fmts:
        ops += [emit("emit_as", f, 0), emit("emit_as", f, 1), {"op": "cmp", "slot": 0, "other": 1, "bf": f}]
    return {"id": "ord%d" % i, "ops": ops}


def purity_program(g, prof, i):
    r = g.r
    b = Build(g, prof)
    fmts = {"both": ["elf", "macho"], "elf": ["elf"], "macho": ["macho"]}[b.mode]
    ops = [new_op(r, b, 0, bf=r.choice(fmts))] + b.ops(r, 0, noise=.3, emits=.25)
    vias = ["emit_as", "write_as", "emit_as", "write_as", "full_as", "ro_as", "file_as"]
    slots = [0]
    for _ in range(r.randrange(4, 9)):
        k = r.random()
        s = r.choice(slots)
        if k < .62:
            via = r.choice(vias)
            ops.append(emit(via, r.choice(fmts), s, lite=r.random() < .8))
        elif k < .74 and len(slots) < 4:
            ops.append({"op": "clone", "slot": s, "dst": len(slots)})
            slots.append(len(slots))
        elif k < .86:
            o = b.noise_op(r)
            o["slot"] = s
            ops.append(o)
        elif k < .94:
            n = r.choice(list(b.decl))
            ops.append({"op": "declare", "n": n, "d": b.decl[n], "slot": s})
        else:
            ops.append({"op": "declwith", "n": "late%d" % len(ops), "d": g.fn(4), "b": "c3", "slot": s})
    for s in slots:
        for f in fmts:
            ops.append(emit(r.choice(["emit_as", "write_as"]), f, s, lite=True))
    # the very same calls again, in another artifact
    twin = [dict(o, slot=9) for o in ops if o["op"] not in ("clone",) and o.get("slot", 0) == 0]
    return {"id": "pure%d" % i, "ops": ops + twin}


def life_program(g, prof, i):
    """a few names live through import, declaration and definition, while calls that must be refused
    are attempted on them at any stage; the artifact is completed in the end and its objects are read"""
    r = g.r
    arch = "x86_64" if r.random() < .85 else pick_arch(r, True)
    b32 = arch in BITS32
    names = r.sample(["a", "b", "c", "ab", "d%20e", "B", "_a", "f.g"], r.randrange(2, 6))
    secs = r.sample([".s", "sec", ".debug_x", "%20z"], r.choice([0, 0, 1, 2]))
    pool = [r.choice(["c3", "", "00", "9090", "48656c6c6f00", "0102030405060708"]) for _ in range(2)]
    syms = sorted([["p%d" % j, u64(j)] for j in range(r.randrange(0, 3))])
    role, decl = {}, {}
    for n in names:
        k = r.choice(["fn", "fn", "data", "data", "z", "imp"])
        role[n] = k
        decl[n] = g.fn(5) if k == "fn" else g.data(5) if k in ("data", "z") else r.choice([IFN, IDATA])
    for n in secs:
        role[n], decl[n] = "sec", g.sec(4)
    every = names + secs

    def define(n, second=False):
        k = role[n]
        if second and r.random() < .6:
            k = r.choice(["fn", "z", "sec", k])
        if k == "z":
            z = u64(r.choice([0, 1, 8, 24]))
            return {"op": "definez", "n": n, "z": z} if r.random() < .5 else {"op": "defsyms", "n": n, "zero": True, "b": "", "z": z, "syms": []}
        b = r.choice(pool)
        if k == "sec" or (second and r.random() < .3):
            return {"op": "defsyms", "n": n, "zero": False, "b": b, "z": u64(0), "syms": syms if second or n == (secs or [0])[0] else []}
        return {"op": "define", "n": n, "b": b}

    def link(f, t):
        if role[f] == "sec":
            return link_op(f, t, r.choice([0, 1]), dbg(r.choice([4, 8])))
        rel = r.choice([AUTO, AUTO, raw(r.choice([0, 1, 2]))])
        return link_op(f, t, r.choice([0, 0, 1]), rel)
    plain = [n for n in every if role[n] != "sec"]
    steps = {}
    for n in every:
        steps[n] = []
        if role[n] in ("imp",):
            steps[n] += ["declare", "declare"][:r.choice([1, 2])]
        else:
            if role[n] != "sec" and r.random() < .6:
                steps[n].append("import")
            steps[n] += ["declare", "define"]
    ops = [{"op": "new", "via": r.choice(["new", "builder"]), "arch": arch, "bf": r.choice(["elf", "macho"]), "name": r.choice(["t.o", "a", "u.o"])}]
    left = [n for n in every for _ in steps[n]]
    r.shuffle(left)
    at, known = {n: 0 for n in every}, set()

    def attempt():
        k = r.random()
        n = r.choice(every)
        if k < .45 and plain:
            ops.append(link(r.choice(every), r.choice(plain)))
        elif k < .75:
            # a definition that is too early, or comes a second time
            if at[n] == len(steps[n]) or n not in known or (role[n] == "imp") or "import" in steps[n][at[n] - 1:at[n]]:
                ops.append(define(n, True))
        elif k < .9:
            if n in known:
                d = r.choice([g.fn(4), g.data(4), g.sec(4), IFN, IDATA, decl[n]])
                kind = {"ifn": "fn", "idata": "data"}.get(decl[n]["k"], decl[n]["k"])
                # on an import, only what cannot define it in an unexpected way
                if at[n] and steps[n][at[n] - 1] == "import" or role[n] == "imp":
                    if {"ifn": "fn", "idata": "data"}.get(d["k"], d["k"]) == kind and d["k"] not in ("ifn", "idata"):
                        return
                ops.append({"op": "declare", "n": n, "d": d} if r.random() < .7 else {"op": "declwith", "n": n, "d": d, "b": r.choice(pool)} if at[n] == len(steps[n]) else {"op": "declare", "n": n, "d": d})
        elif k < .95:
            ops.append(emit(r.choice(["emit_as", "write_as"]), r.choice(["elf", "macho"]), lite=True))
        else:
            ops.append(r.choice([{"op": "setname", "name": "w.o"}, {"op": "setlib", "lib": r.random() < .5},
                                 {"op": "settarget", "arch": arch, "bf": r.choice(["elf", "macho"])}]))
    nz = prof.get("noise", .55)
    while left:
        while r.random() < nz:
            attempt()
        n = left.pop()
        s = steps[n][at[n]]
        at[n] += 1
        if s == "import":
            k = {"ifn": "fn", "idata": "data"}.get(decl[n]["k"], decl[n]["k"])
            ops.append({"op": "import", "n": n, "k": k} if r.random() < .5 else {"op": "declare", "n": n, "d": IFN if k == "fn" else IDATA})
            known.add(n)
        elif s == "declare":
            ops.append({"op": "declare", "n": n, "d": decl[n]})
            known.add(n)
        else:
            ops.append(define(n))
    for _ in range(r.randrange(0, 4)):
        attempt()
    for _ in range(r.randrange(0, 3)):
        fs = [n for n in every if role[n] != "imp"]
        if fs and plain:
            ops.append(link(r.choice(fs), r.choice(plain)))
    if r.random() < .15:
        ops.append({"op": "settarget", "arch": pick_arch(r, True), "bf": r.choice(["elf", "macho"]), **system(r)})
    if r.random() < .2:
        ops.append({"op": "clone", "slot": 0, "dst": 1})
        ops += [emit("emit_as", f, 1) for f in ("elf", "macho")]
    for f in r.sample(["elf", "macho"], 2):
        ops.append(emit(r.choice(["emit_as", "write_as"]), f))
    if r.random() < .2:
        for _ in range(3):
            attempt()
        ops += [emit("emit_as", "elf", lite=True), emit("emit", "macho", lite=True)]
    for o in ops:
        o.setdefault("slot", 0)
    return {"id": "life%d" % i, "ops": ops}


def front_program(g, prof, i):
    """unconstrained call sequences over few names"""
    r = g.r
    names = r.sample(["a", "b", "c", "ab", "d%20e", ".s", "B"], r.randrange(2, 6))
    if r.random() < .15:
        names = g.names(6)
    arch = "x86_64" if r.random() < .2 else pick_arch(r)
    decls = [IFN, IDATA, D("fn", "L", "D"), D("fn", "G", "D"), D("fn", "G", "H"), D("fn", "W", "D"), D("fn", "G", "D", al=4), D("fn", "G", "D", al=5),
             D("data", "L", "D", False, "bytes"), D("data", "G", "D", False, "bytes"), D("data", "G", "D", True, "bytes"), D("data", "G", "D", True, "str"),
             D("data", "G", "P", True, "bytes"), D("data", "G", "D", True, "bytes", al=3), D("data", "W", "D", True, "bytes"),
             D("sec", dt="bytes", sk="Data"), D("sec", dt="bytes", sk="Debug"), D("sec", dt="str", sk="Debug"), D("sec", dt="bytes", sk="Text"), D("sec", dt="bytes", sk="Data", al=2)]
    k = r.random()
    if k < .3:
        decls = decls[:4] + decls[8:10]
    elif k < .5:
        decls = [IFN, IDATA, decls[3], decls[10]]
    ops = [{"op": "new", "via": r.choice(["new", "builder"]), "arch": arch, "bf": r.choice(["elf", "elf", "macho", "coff", "wasm"]), "name": "t.o", "slot": 0}]
    for _ in range(r.randrange(6, prof.get("maxops", 26))):
        n = r.choice(names)
        x = r.random()
        if x < .38:
            ops.append({"op": "declare", "n": n, "d": r.choice(decls)})
        elif x < .44:
            ops.append({"op": "import", "n": n, "k": r.choice(["fn", "data"])})
        elif x < .49:
            ops.append({"op": "declmany", "items": [{"n": r.choice(names), "d": r.choice(decls)} for _ in range(r.randrange(0, 4))]})
        elif x < .55:
            ops.append({"op": "declwith", "n": n, "d": r.choice(decls), "b": g.blob()})
        elif x < .67:
            ops.append({"op": "define", "n": n, "b": g.blob()})
        elif x < .73:
            ops.append({"op": "definez", "n": n, "z": u64(r.choice([0, 1, 8, 100]))})
        elif x < .79:
            z = r.random() < .3
            ops.append({"op": "defsyms", "n": n, "zero": z, "b": "" if z else g.blob(), "z": u64(8 if z else 0),
                        "syms": sorted([[r.choice(["p", "q", "r"]) + str(j), u64(j)] for j in range(r.randrange(0, 3))])})
        elif x < .92:
            ops.append(link_op(n, r.choice(names), r.choice([0, 1, 4]), r.choice([AUTO, AUTO, raw(2, 0), dbg(8, 0)])))
        elif x < .95:
            ops.append({"op": "setname", "name": r.choice(["t.o", "u.o", "v.o"])})
        else:
            ops.append(emit(r.choice(["emit_as", "write_as", "file_as"]), r.choice(["elf", "macho", "coff", "wasm", "unknown"])))
    ops += [emit(r.choice(["emit", "write", "file"]), "elf"), emit("emit_as", "elf"), emit("emit_as", "macho")]
    for o in ops:
        o.setdefault("slot", 0)
    return {"id": "front%d" % i, "ops": ops}


def upgrade_program(g, prof, i):
    """many imports, upgraded in some order; the import list is observed after each call"""
    r = g.r
    n = r.randrange(3, 9)
    names = g.names(n)
    for j in range(1, n):
        if r.random() < .15:
            m = r.choice([".text.", ".data.", ".rodata.", ".rela.text.", "_"]) + names[j - 1]
            if m not in names:
                names[j] = m
    kinds = {x: r.choice(["fn", "data"]) for x in names}
    ops = [{"op": "new", "via": "new", "arch": "x86_64", "bf": "elf", "name": "t.o"}]
    for x in names:
        ops.append({"op": "import", "n": x, "k": kinds[x]})
    up = r.sample(names, r.randrange(1, n + 1))
    for x in up:
        if r.random() < .3:
            y = r.choice(names)
            ops.append({"op": "import", "n": y, "k": kinds[y]})
        ops.append({"op": "declare", "n": x, "d": g.fn(5) if kinds[x] == "fn" else g.data(5)})
        if r.random() < .5:
            ops.append({"op": "define", "n": x, "b": g.blob(1)})
        if r.random() < .3:
            ops.append({"op": "import", "n": x, "k": kinds[x]})
        if r.random() < .2:
            ops.append({"op": "import", "n": x, "k": "fn" if kinds[x] == "data" else "data"})
        if r.random() < .15:
            ops.append(emit("emit_as", "elf", lite=True))
    have = {o["n"] for o in ops if o["op"] == "define"}
    for _ in range(3):
        f = r.choice(names)
        if f in have:
            ops.append(link_op(f, r.choice(names), 0, AUTO))
    for x in up:
        if x not in have:
            ops.append({"op": "define", "n": x, "b": g.blob(1)})
    ops += [emit("emit_as", "elf"), emit("emit_as", "macho")]
    for o in ops:
        o.setdefault("slot", 0)
    return {"id": "up%d" % i, "ops": ops}


def builder_program(g, prof, i):
    r = g.r
    ops = []
    for _ in range(12):
        base = r.choice(["fn", "data", "cstring", "sec", "ifn", "idata"])
        calls = []
        al = [{"c": "with_align"}, {"c": "set_align"}]
        sc = [{"c": "global", "a": "-"}, {"c": "local", "a": "-"}, {"c": "weak", "a": "-"}, {"c": "with_scope"}, {"c": "set_scope"},
              {"c": "default_visibility", "a": "-"}, {"c": "protected", "a": "-"}, {"c": "hidden", "a": "-"}, {"c": "with_visibility"}, {"c": "set_visibility"}]
        ty = [{"c": "with_datatype"}, {"c": "set_datatype"}]
        wr = [{"c": "writable", "a": "-"}, {"c": "read_only", "a": "-"}, {"c": "with_writable"}, {"c": "set_writable"}]
        menu = {"fn": al + sc, "data": al + sc + ty + wr, "cstring": al + sc + ty + wr, "sec": al + ty, "ifn": [], "idata": []}[base]
        for _ in range(r.randrange(0, 7)):
            if menu:
                c = dict(r.choice(menu))
                if "a" not in c:
                    c["a"] = {"align": r.choice([-1] + list(range(0, 64))), "scope": r.choice("LGW"), "visibility": r.choice("DPH"),
                              "datatype": r.choice(["bytes", "str"]), "writable": r.random() < .5}[c["c"].split("_")[1]]
                calls.append(c)
        ops.append({"op": "build", "base": base, "sk": r.choice(["Data", "Debug", "Text"]) if base == "sec" else "-", "calls": calls})
    z = r.random() < .5
    ops.append({"op": "data", "zero": z, "b": "" if z else g.blob(), "z": u64(r.choice([0, 1, 8, 1 << 33]) if z else 0)})
    out = [{"op": "new", "via": "builder", "arch": pick_arch(r), "bf": r.choice(["elf", "macho", "coff", "wasm"])}]
    out[0].update(system(r))
    if r.random() < .6:
        out[0]["name"] = r.choice(["x", "", "a%20b"])
    if r.random() < .6:
        out[0]["lib"] = r.random() < .5
    if r.random() < .5:
        out[0]["chain"] = [r.choice([{"c": "name", "a": r.choice(["x", "y.o", "", "%c3%a9"])}, {"c": "library", "a": r.random() < .5}]) for _ in range(r.randrange(1, 5))]
    out += ops
    for o in out:
        o.setdefault("slot", 0)
    return {"id": "bld%d" % i, "ops": out}


def absorb_programs(g, count):
    """pairs of declarations, exhaustive over a small attribute set, then random"""
    small = [IFN, IDATA]
    for s in "LGW":
        for v in "DPH":
            small.append(D("fn", s, v))
            small.append(D("data", s, v, False, "bytes"))
    small += [D("fn", "L", "D", al=0), D("fn", "L", "D", al=4), D("data", "L", "D", True, "bytes"), D("data", "L", "D", False, "str"),
              D("data", "L", "D", False, "bytes", al=3), D("data", "L", "D", True, "str", al=3)]
    for k in ["Data", "Debug", "Text"]:
        small += [D("sec", dt="bytes", sk=k), D("sec", dt="str", sk=k), D("sec", dt="bytes", sk=k, al=2)]
    pairs = [(a, b) for a in small for b in small]
    while len(pairs) < count:
        a, b = g.decl(), g.decl()
        if g.r.random() < .3:
            b = dict(a)
            f = g.r.choice(["scope", "vis", "w", "dt", "al"])
            if b[f] != "-" and b["k"] not in ("ifn", "idata") and not (f == "w" and b["k"] != "data"):
                b[f] = {"scope": g.r.choice("LGW"), "vis": g.r.choice("DPH"), "w": not b["w"], "dt": g.r.choice(["bytes", "str"]), "al": g.r.choice([-1, 0, 1, 2, 63])}[f]
        pairs.append((a, b))
    out, i = [], 0
    while pairs:
        chunk, pairs = pairs[:50], pairs[50:]
        out.append({"id": "absorb%d" % i, "ops": [{"op": "new", "via": "new", "arch": "x86_64", "bf": "elf", "name": "t.o", "slot": 0}]
                    + [{"op": "absorb", "old": a, "new": b, "slot": 0} for a, b in chunk]})
        i += 1
    return out


def target_programs(g):
    """every architecture, both formats, plus formats that do not exist"""
    out = []
    for a in EVERY:
        for bf in ["elf", "macho", "coff", "wasm", "xcoff", "unknown"]:
            if bf == "macho" and a not in MACH:
                continue
            for via in ["emit", "emit_as", "write", "write_as"] + ["file"] * (bf in ("elf", "macho")):
                ops = [{"op": "new", "via": "builder" if via == "write" else "new", "arch": a, "bf": bf if via in ("emit", "write", "file") else "elf", "name": "t.o"},
                       {"op": "declwith", "n": "f", "d": D("fn", "G", "D"), "b": "c3"},
                       {"op": "declwith", "n": "d", "d": D("data", "G", "D", True, "bytes"), "b": "0102030405060708"},
                       {"op": "declare", "n": "z", "d": D("data", "L", "D", True, "bytes")},
                       {"op": "definez", "n": "z", "z": u64(24)},
                       {"op": "import", "n": "i", "k": "fn"},
                       link_op("d", "f", 0, AUTO)]
                if bf == "elf" and via == "emit":
                    ops.append({"op": "declwith", "n": ".debug_x", "d": D("sec", dt="bytes", sk="Debug"), "b": "00" * 16})
                    ops.append(link_op("f", "d", 4, raw(7, -5)))
                ops.append(emit(via, bf))
                ops[0].update(system(g.r))
                for o in ops:
                    o.setdefault("slot", 0)
                out.append({"id": "tgt-%s-%s-%s" % (a, bf, via), "ops": ops})
    # systems that usually have another format than the one asked for
    for os in ["linux", "darwin", "ios", "freebsd", "solaris", "none", "windows", "haiku", "netbsd", "unknown"]:
        for bf in ["elf", "macho"]:
            ops = [{"op": "new", "via": "new", "arch": g.r.choice(["x86_64", "aarch64"]), "bf": bf, "name": "t.o", "ven": g.r.choice(["apple", "pc", "unknown"]), "os": os,
                    "env": g.r.choice(["unknown", "gnu", "msvc", "musl"])},
                   {"op": "declwith", "n": "f", "d": D("fn", "G", "D"), "b": "c3"}]
            ops += [emit(v, bf) for v in g.r.sample(["emit", "write", "file"], 3)] + [emit("emit_as", b) for b in ["macho", "elf"]]
            for o in ops:
                o.setdefault("slot", 0)
            out.append({"id": "sys-%s-%s" % (os, bf), "ops": ops})
    return out


# ---- artifacts with very many definitions (ELF extended section numbering) ----
def sec_prefix(fam):
    d = fam["d"]
    if d["k"] == "fn":
        return ".text."
    if d["k"] == "sec":
        return ""
    if d["k"] in ("ifn", "idata"):
        return "-"
    return ".bss." if fam.get("zero") else ".data." if d["w"] else ".rodata."


def group(fams, s, t, at, rel, n=1, fs=0, ts=0, step=0):
    """links from members s[1], s[1]+fs, .. of family s[0] to members t[1], t[1]+ts, .. of family t[0]"""
    return {"from": fams[s[0]]["pre"], "to": fams[t[0]]["pre"], "ff": s[0] + 1, "fi": s[1], "fs": fs, "tf": t[0] + 1, "ti": t[1], "ts": ts,
            "at": at, "step": step, "n": n, "rel": rel}


def large_program(r, i, what, arch, fmts, n):
    """many definitions, imports or links, in few sections or many"""
    hexes = lambda k: "".join(r.choice("0123456789abcdef") for _ in range(2 * k))
    vis = "DDPH" if fmts == ["elf"] else "D"
    fn = lambda: dict(d=D("fn", r.choice("LGW"), r.choice(vis), al=r.choice([-1, -1, 0, 2, 5])), b=hexes(r.randrange(1, 9)), own=True)
    data = lambda: dict(d=D("data", r.choice("LGW"), r.choice(vis), r.random() < .6, "bytes", al=r.choice([-1, 0, 0, 3])), b=hexes(r.randrange(0, 14)), own=True)
    text = lambda: dict(d=D("data", r.choice("LGW"), r.choice(vis), False, "str", al=0), b="41" * r.randrange(1, 9) + "00")
    zero = lambda: dict(d=D("data", r.choice("LGW"), r.choice(vis), True, "bytes", al=r.choice([-1, 0, 4])), zero=True, b="", z=u64(r.choice([1, 8, 24, 1 << 20])))
    sec = lambda: dict(d=D("sec", dt=r.choice(["bytes", "str"]), sk=r.choice(["Debug", "Debug", "Data", "Text"]), al=r.choice([-1, 0])), b=hexes(3), own=True, sy="Y", sval=u64(r.randrange(4)), n=r.randrange(1, 40))
    ifn, idata = dict(d=IFN, b=""), dict(d=IDATA, b="")
    one = lambda size: dict(d=D("fn", "G", r.choice(vis)), b=hexes(size), n=1)
    if what == "links":
        step = r.choice([4, 8])
        fams = [dict(one(step * n + 8)), dict(r.choice([ifn, idata]), n=n), dict(fn(), n=9), dict(data(), n=7)]
    elif what == "imps":
        fams = [dict(ifn, n=n), dict(idata, n=r.randrange(1, 3000)), dict(fn(), n=20), dict(data(), n=9), sec()]
    else:
        fams = [fn(), data(), text(), zero(), fn(), zero()]
        for f in fams:
            f["n"] = r.randrange(1, 2 * n // len(fams))
        fams[r.randrange(len(fams))]["n"] = n
        fams += [sec(), dict(ifn, n=4), dict(idata, n=3)]
    r.shuffle(fams)
    for j, f in enumerate(fams):
        f["pre"] = "abcdefghijkl"[j] + ("z" if r.random() < .3 else "")
        if f.get("sy"):
            f["sy"] += f["pre"]
    of = lambda *ks: [j for j, f in enumerate(fams) if f["d"]["k"] in ks]
    mach = "macho" in fmts
    rel = lambda: AUTO if r.random() < .6 else (raw(r.randrange(1, 10)) if mach else raw(r.choice([1, 2, 4, 10, 42]), r.choice([0, -4, 7]))) if arch not in ("x86_64",) or r.random() < .7 else raw(1 + r.randrange(3))
    plain_raw = arch != "x86_64" and r.random() < .7
    rl = (lambda: raw(r.randrange(1, 10))) if plain_raw else rel
    groups = []
    big = lambda js: max(js, key=lambda j: fams[j]["n"])
    if what == "links":
        src = next(j for j, f in enumerate(fams) if len(f["b"]) > 1000)
        dst = big(of("ifn", "idata"))
        groups.append(group(fams, (src, 0), (dst, 0), 0, rl(), n, 0, 1, step))
        groups.append(group(fams, (big(of("data")), 0), (dst, n - 7), 0, rl(), 7, 1, 1))
    else:
        src, dst = big([j for j in of("fn", "data") if not fams[j].get("zero")]), big(of("fn", "data", "ifn", "idata"))
        k = min(fams[src]["n"], fams[dst]["n"])
        groups.append(group(fams, (src, fams[src]["n"] - k), (dst, fams[dst]["n"] - k), 0, rl(), k, 1, 1))
        src = r.choice([j for j in of("fn", "data") if not fams[j].get("zero")])
        groups.append(group(fams, (src, 0), (dst, fams[dst]["n"] - 1), 1, rl(), fams[src]["n"], 1, 0))
    ops = [{"op": "new", "via": "new", "arch": arch, "bf": r.choice(fmts), "name": "large.o"}] + [dict(op="bulk", **f) for f in fams] + [{"op": "blinks", "groups": groups}]
    view = {"fams": [{"pre": f["pre"], "sec": sec_prefix(f), "sy": f.get("sy", "")} for f in fams]}
    for bf in fmts:
        ops.append({"op": "emit", "via": r.choice(["emit_as", "write_as"]), "bf": bf, "bulk": view})
    for o in ops:
        o["slot"] = 0
    return {"id": "%d-large-%s-%d-%s" % (i, what, n, arch), "quiet": True, "ops": ops}


# which large programs, for each property: (what, formats); more of them in the thorough tier
LARGE = {
    "C02": [("imps", ["elf"]), ("imps", ["macho"])],
    "C07": [("defs", ["elf"])],
    "C08": [("defs", ["elf"])],
    "C09": [("imps", ["elf"]), ("defs", ["elf"])],
    "C10": [("links", ["elf"]), ("imps", ["elf"])],
    "C12": [("defs", ["macho"]), ("defs", ["elf"])],
    "C13": [("defs", ["macho"]), ("defs", ["elf"])],
    "C14": [("defs", ["macho"]), ("links", ["macho"])],
    "C15": [("defs", ["macho"])],
    "C16": [("defs", ["macho"]), ("defs", ["elf"])],
    "C18": [("defs", ["elf", "macho"])],
    "C17": [("links", ["macho"]), ("defs", ["macho"]), ("imps", ["macho"])],
    "C19": [("links", ["elf", "macho"]), ("defs", ["elf", "macho"])],
}


def large_programs(prop, seed, thorough):
    r = random.Random("large-%s-%s" % (prop, seed))
    out = []
    for k, (what, fmts) in enumerate(LARGE.get(prop, []) * (6 if thorough else 1)):
        # definitions in ELF have a section each
        n = r.choice([65600, 70000, 66000 + r.randrange(9999)]) if what != "defs" or fmts == ["macho"] else r.randrange(3000, 12000)
        if what == "defs" and prop == "C09":
            n = r.randrange(36000, 40000)       # with their sections, more than 65 535 local symbols
        arch = "x86_64" if r.random() < .6 else r.choice(["aarch64", "i686", "armv7", "powerpc64le"])
        out.append(large_program(r, k, what, arch, fmts, n))
    return out


def bulk_program(r, i, total, arch, nlinks, mixed):
    """`total` sections in the object, counting all the emitter adds below the reserved range"""
    kinds = [dict(d=D("fn", "G", "D"), b="c3"), dict(d=D("fn", "L", "D"), b="c3c3"), dict(d=D("data", "W", "H", True, "bytes", al=0), b="0102030405"),
             dict(d=D("data", "L", "D", False, "bytes"), b="00"), dict(d=D("data", "G", "D", True, "bytes", al=2), zero=True, b="", z=u64(12)), dict(d=D("sec", dt="bytes", sk="Debug"), b="aabb"),
             dict(d=D("data", "G", "D", True, "str"), b="414200"), dict(d=D("sec", dt="str", sk="Debug", al=0), b="4100"), dict(d=D("sec", dt="str", sk="Data", al=3), b="00"), dict(d=D("sec", dt="bytes", sk="Text"), b="cc")]
    fams = [dict(kinds[0])] if not mixed else [dict(k) for k in r.sample(kinds, r.randrange(2, 6))]
    imps = [dict(d=IFN, b="", n=3), dict(d=IDATA, b="", n=2)] if nlinks else []
    for f in fams:
        if not f.get("zero") and r.random() < .6:
            f["own"] = True
        if f["d"]["k"] == "sec" and r.random() < .7:
            f["sy"], f["sval"] = "Y", u64(r.choice([0, 1, 2]))
        elif f["d"]["k"] != "sec":
            f["d"] = dict(f["d"], vis=r.choice("DDPH"), al=r.choice([f["d"]["al"], -1, 0, 6]))
    srcs = min(nlinks, 40)
    n = total - 4 - srcs
    left = n
    for j, f in enumerate(fams):
        f["n"] = left if j == len(fams) - 1 else max(1, min(left - len(fams), r.randrange(1, max(2, 2 * n // len(fams)))))
        left -= f["n"]
    fams += imps
    r.shuffle(fams)
    for j, f in enumerate(fams):
        f["pre"] = "abcdefgh"[j] + ("z" if r.random() < .3 else "")
        if f.get("sy"):
            f["sy"] += f["pre"]
    ops = [{"op": "new", "via": "new", "arch": arch, "bf": "elf", "name": "big.o"}]
    ops += [dict(op="bulk", **f) for f in fams]
    defs = [j for j, f in enumerate(fams) if f["d"]["k"] in ("fn", "data")]
    tgts = [j for j, f in enumerate(fams) if f["d"]["k"] != "sec"]
    links, used = [], []

    def pick(js, edge):
        j = r.choice(js)
        return j, (fams[j]["n"] - 1 if edge and r.random() < .5 else r.randrange(fams[j]["n"]))
    while defs and len(used) < srcs:
        s = pick(defs, True)
        if s not in used:
            used.append(s)
    for s in used + ([r.choice(used) for _ in range(nlinks - srcs)] if used else []):
        t = pick(tgts, True) if r.random() < .8 else s
        links.append(group(fams, s, t, r.choice([0, 0, 1, 4]), AUTO if r.random() < .6 else r.choice([raw(r.choice([1, 2, 9, 42, 255] + ([256, 1 << 20] if arch not in BITS32 else [])), r.choice([0, -4, 77])), dbg(r.choice([4, 8]), r.choice([0, 5, -1]))])))
    if links:
        ops.append({"op": "blinks", "groups": links})
    view = {"fams": [{"pre": f["pre"], "sec": sec_prefix(f), "sy": f.get("sy", "")} for f in fams]}
    ops.append({"op": "emit", "via": "emit_as", "bf": "elf", "bulk": view})
    ops.append({"op": "emit", "via": r.choice(["emit_as", "write_as"]), "bf": "elf", "lite": True})
    for o in ops:
        o["slot"] = 0
    return {"id": "%d-bulk-%x-%s" % (i, total, arch), "quiet": True, "ops": ops}


def bulk_programs(seed, thorough):
    r = random.Random("C11-%s" % seed)
    lo = 0xff00
    out = []
    sizes = [(lo - 1, "x86_64", 0, False), (lo, "x86_64", 0, False), (lo + 1, "x86_64", 30, True), (0x10001, "x86_64", 60, True),
             (r.randrange(200, 3000), "i686", 40, True), (lo - 1 - r.randrange(3), "powerpc64", 20, True), (lo + r.randrange(2, 300), "sparc", 50, True), (r.randrange(0x10000, 0x11000), "aarch64", 10, True)]
    if thorough:
        for d in list(range(-4, 6)) + [0xfe, 0xff, 0x100, 0x101, 0x102, 0x2000]:
            sizes.append((lo + d, r.choice(["x86_64", "i686", "mips", "aarch64"]), r.choice([0, 1, 30, 80]), True))
        for _ in range(10):
            sizes.append((r.randrange(0xf000, 0x14000), pick_arch(r), r.choice([0, 10, 100]), r.random() < .8))
        sizes += [(0x20003, "x86_64", 100, True), (0x30000, "s390x", 100, True)]
    for i, (t, a, n, m) in enumerate(sizes):
        out.append(bulk_program(r, i, t, a, n, m))
    return out


# ---- several artifacts for one program ----
ABS = {"x86_64": {8: 1, 4: 10}, "aarch64": {8: 257, 4: 258}, "riscv64gc": {8: 2, 4: 1}, "powerpc64le": {8: 38}, "powerpc64": {8: 38}, "s390x": {8: 22, 4: 4}, "i686": {4: 1}, "armv7": {4: 2},
       "mips": {4: 2}, "mipsel": {4: 2}, "mips64": {8: 18}, "mips64el": {8: 18}, "powerpc": {4: 1}, "sparcv9": {8: 32}, "sparc64": {8: 32}, "riscv32imac": {4: 1}}


def join_program(g, prof, i):
    """artifacts that define, import and hide the same few names; their objects are linked"""
    r = g.r
    kind = prof.get("kind") or ("x86" if r.random() < .6 else "mach" if r.random() < .4 else "abs")
    bf = "macho" if kind == "mach" else "elf"
    arch = "x86_64" if kind in ("x86", "mach") else r.choice(sorted(ABS))
    if kind == "mach" and r.random() < .1:
        arch = "aarch64"
    n = r.choice(prof.get("objects", [1, 2, 2, 3]))
    stems = r.sample(["f", "g", "alpha", "main", "x1", "table", "_u", "Name", "counter", "k9", "m_" + "y" * r.choice([3, 14, 40])], r.randrange(2, 8))
    what = {s: r.choice(["fn", "fn", "data"]) for s in stems}
    scopes = {s: {} for s in stems}                      # artifact -> role
    for s in stems:
        idx = list(range(n))
        r.shuffle(idx)
        if kind != "mach" and r.random() < .35:          # local definitions of one name here and there
            for a in idx[:r.randrange(1, n + 1)]:
                scopes[s][a] = "L"
        elif kind == "mach" and r.random() < .25:
            scopes[s][idx[0]] = "L"
            continue
        rest = [a for a in idx if a not in scopes[s]]
        if rest and r.random() < .9:
            scopes[s][rest[0]] = "G" if r.random() < .8 or kind == "mach" else "W"
        for a in rest[1:]:
            x = r.random()
            if x < .55:
                scopes[s][a] = "I"
            elif x < .75 and kind != "mach":
                scopes[s][a] = "W"
            elif x < .77:
                scopes[s][a] = "G"
        if rest and r.random() < (.03 if kind == "mach" else .06):
            scopes[s][rest[0]] = "I"
        elif rest and n > 1 and len(rest) == 1 and r.random() < .5:
            scopes[s][rest[0]] = "G"
    ops = []
    for a in range(n):
        mine = [s for s in stems if a in scopes[s]]
        r.shuffle(mine)
        front, back, links = [], [], []
        decls = {}
        for s in mine:
            role = scopes[s][a]
            if role == "I":
                decls[s] = IFN if what[s] == "fn" else IDATA
                front.append({"op": "import", "n": s, "k": what[s]})
                continue
            vis = "D" if role == "L" or any(v == "L" for v in scopes[s].values()) else r.choice("DDDDPH")
            al = g.al(r.choice([4, 6, 6, 12])) if r.random() < .6 else -1
            string = what[s] == "data" and r.random() < .15
            if string and kind == "mach":
                al = -1
            d = D("fn", role, vis, al=al) if what[s] == "fn" else D("data", role, vis, r.random() < .6 and not string, "str" if string else "bytes", al=al)
            decls[s] = d
            size = r.choice([0, 1, 7, 8, 9, 24, 40, 64, 100, 300]) if r.random() < .9 else r.randrange(0, 4000)
            body = [r.randrange(256) for _ in range(size)]
            if string:
                body = [r.randrange(97, 123) for _ in range(r.randrange(0, 12))] + [0]
            zero = d["k"] == "data" and not string and r.random() < .2
            # where links will go
            spots, p = [], r.choice([0, 1, 3, 4, 8])
            while not zero and not string and p + 8 <= size and len(spots) < 4:
                if r.random() < .6:
                    spots.append(p)
                p += r.choice([8, 9, 12, 16, 31])
            for q in spots:
                links.append((s, q))
                if kind == "mach":
                    body[q:q + 8] = [0] * 8
                elif q >= 2 and body[q - 2] == 0x8b:
                    body[q - 2] = 0x90
            x = {"op": "definez", "n": s, "z": u64(size)} if zero else {"op": "define", "n": s, "b": bytes(body)}
            if r.random() < .2:
                front.append({"op": "import", "n": s, "k": what[s]})
            front.append({"op": "declare", "n": s, "d": d})
            back.append(x)
        debugs = []
        if bf == "elf" and r.random() < .4:
            for s in r.sample([".debug_info", ".debug_line", ".debug_abbrev", ".debug_foo"], r.randrange(1, 4)):
                d = D("sec", dt="bytes", sk="Debug", al=r.choice([-1, -1, 0, 2, 3]))
                size = r.choice([0, 3, 8, 20, 50])
                decls[s] = d
                debugs.append(s)
                front.append({"op": "declare", "n": s, "d": d})
                back.append({"op": "define", "n": s, "b": bytes(r.randrange(256) for _ in range(size))})
                links += [(s, q) for q in range(0, size - 7, 8) if r.random() < .6]
        r.shuffle(front)
        front.sort(key=lambda o: o["op"] != "import")    # an import before the definition it becomes
        bodies = {o["n"]: o for o in back}
        todo = []
        plain = [s for s in decls if s not in debugs]
        for s, q in links:
            dbgsec = s in debugs
            t = r.choice(debugs if dbgsec and (r.random() < .4 or not plain) else plain)
            tk = decls[t]["k"]
            if dbgsec and tk == "sec" or dbgsec and r.random() < .8 or kind == "abs":
                ws = sorted(ABS[arch])
                w = r.choice(ws)
                add = r.choice([0, 1, 5, 100, 4096])
                if w == 8 and r.random() < .3 and not (dbgsec and tk == "sec"):
                    add = r.choice([-1, -8, -4096, 0x7fffffff])
                rel = dbg(w, add) if arch == "x86_64" and (dbgsec or r.random() < .3) else raw(ABS[arch][w], add)
            elif dbgsec:
                rel = dbg(r.choice([4, 8]), r.choice([0, 7]))
            elif kind == "mach":
                rel = AUTO if arch == "x86_64" else None
                if r.random() < .3 and arch == "x86_64" and tk not in ("idata", "ifn"):
                    rel = raw(r.choice([1, 2]) if decls[s]["k"] == "fn" else 0)
            elif r.random() < .65:
                rel = AUTO
            elif decls[s]["k"] == "fn":
                rel = r.choice([raw(2, r.choice([-4, -4, 0, 12])), raw(4, -4), raw(24, r.choice([0, -8])), raw(1, 3), raw(10, 4), raw(11, 0)])
            else:
                rel = r.choice([raw(1, r.choice([0, 9, -3])), raw(10, 4), raw(11, 0), dbg(8, 2), dbg(4, 1)])
            if rel is None:
                continue
            if kind == "mach" and rel is AUTO and decls[s]["k"] == "fn" and tk == "idata":
                b = bytearray(bodies[s]["b"])
                if q < 3 or any(x == s and q - 3 < y + 8 <= q for x, y in links):
                    continue
                b[q - 3:q] = b"\x48\x8b\x05"
                bodies[s]["b"] = bytes(b)
            todo.append({"op": "link", "from": s, "to": t, "at": u64(q)} if rel is AUTO and r.random() < .8 else {"op": "linkw", "from": s, "to": t, "at": u64(q), "rel": rel})
        r.shuffle(back)
        r.shuffle(todo)
        for o in back:
            if "b" in o:
                o["b"] = o["b"].hex()
        new = {"op": "new", "via": r.choice(["new", "builder"]), "arch": arch, "bf": r.choice(["elf", "macho"]), "name": "part%d" % a}
        ops += [dict(o, slot=a) for o in [new] + front + back + todo]
    slots = list(range(n))
    for ld in (["ld64"] if bf == "macho" else ["bfd", "lld"] if kind == "x86" else ["lld"]):
        ops.append({"op": "join", "slots": list(slots), "ld": ld, "bf": bf, "arch": arch, "slot": 0})
        r.shuffle(slots)
    return {"id": "%d-join-%s" % (i, kind), "ops": ops}


# which families, with which emphasis, for each property; weights are relative
P = {
    "C01": [(life_program, {}, 4), (front_program, {}, 5), (upgrade_program, {}, 2), (object_program, {"nimp": [1, 2, 4]}, 1)],
    "C02": [(life_program, {}, 2), (upgrade_program, {}, 4), (object_program, {"nimp": [1, 2, 3, 6, 10], "ndef": [0, 1, 2, 4], "links": "both"}, 5), (front_program, {}, 1)],
    "C03": [(life_program, {}, 5), (front_program, {}, 6), (object_program, {"noise": .3}, 1)],
    "C04": [(life_program, {}, 2), (front_program, {}, 5), (upgrade_program, {}, 2), (purity_program, {"ndef": [1, 2, 3], "huge": 0}, 1), (object_program, {"emits": .4}, 2)],
    "C05": [(life_program, {}, 5), (front_program, {}, 6), (object_program, {"nlink": [3, 6, 10], "noise": .4}, 2)],
    "C06": [(life_program, {}, 1), (purity_program, {"ndef": [1, 2, 3, 4], "huge": 0}, 6), (sink_program, {}, 1), (front_program, {}, 1), (object_program, {"emits": .5}, 1)],
    "C07": [(life_program, {}, 1), (object_program, {"links": "elf"}, 6), (object_program, {"links": "both", "ndef": [8, 16, 30], "nsec": [3, 6, 10], "nimp": [5, 10]}, 1), (front_program, {}, 1)],
    "C08": [(life_program, {}, 1), (object_program, {"links": "elf", "ndef": [1, 2, 4, 8, 16]}, 6), (upgrade_program, {}, 1), (front_program, {}, 1)],
    "C09": [(life_program, {}, 1), (object_program, {"links": "elf", "ndef": [2, 4, 8, 12], "nsec": [0, 1, 2, 3]}, 6), (upgrade_program, {}, 1), (front_program, {}, 1)],
    "C10": [(life_program, {}, 1), (object_program, {"links": "elf", "nlink": [1, 2, 4, 8, 16], "x86": .85}, 7), (front_program, {}, 1)],
    "C12": [(life_program, {}, 1), (object_program, {"pz": .8, "pfn": .15, "nlink": [0, 2]}, 6), (object_program, {"pz": .6, "pfn": .15, "links": "macho", "mach": True}, 3), (front_program, {}, 1)],
    "C13": [(life_program, {}, 1), (object_program, {"nsec": [1, 2, 3, 5, 8], "ndef": [0, 1, 2, 4]}, 6), (object_program, {"nsec": [1, 2, 3], "links": "macho", "mach": True}, 2)],
    "C14": [(life_program, {}, 1), (object_program, {"links": "macho", "mach": True}, 6), (object_program, {"links": "macho", "mach": True, "ndef": [8, 16, 30], "nsec": [3, 6, 10]}, 1), (front_program, {}, 1)],
    "C15": [(life_program, {}, 1), (object_program, {"links": "macho", "mach": True, "ndef": [1, 2, 4, 8, 16]}, 6), (upgrade_program, {}, 1), (front_program, {}, 1)],
    "C16": [(object_program, {"hi": 12, "links": "both", "mach": True, "ndef": [1, 2, 4, 6]}, 5), (object_program, {"hi": 30, "links": "elf", "fmts": ["elf"]}, 2), (object_program, {"hi": 5, "links": "macho", "mach": True, "ndef": [6, 12]}, 2)],
    "C17": [(life_program, {}, 1), (object_program, {"links": "macho", "mach": True, "nlink": [1, 2, 4, 8, 16], "x86": .9, "nsec": [0, 1, 2]}, 7), (front_program, {}, 1)],
    "C18": [(life_program, {}, 1), (object_program, {"x86": .1}, 3), (object_program, {"x86": .1, "mach": True, "links": "macho"}, 2), (front_program, {}, 2)],
    "C19": [(life_program, {}, 2), (object_program, {}, 4), (front_program, {}, 2), (purity_program, {"huge": 0}, 1), (object_program, {"ndef": [20, 40], "nsec": [5, 12], "nimp": [10, 20], "nlink": [20, 40]}, 1)],
    "C20": [(builder_program, {}, 1)],
    "C21": [(life_program, {}, 1), (object_program, {"links": "both", "mach": True}, 6), (upgrade_program, {}, 1)],
    "C22": [(order_program, {}, 4), (order_program, {"mach": True, "links": "both"}, 3)],
    "C23": [(join_program, {}, 6), (join_program, {"kind": "x86", "objects": [2, 3, 4]}, 3), (join_program, {"kind": "mach", "objects": [2, 2, 3]}, 1)],
}


# large artifacts, one dimension at a time: (how many in the quick tier, profile)
SCALE = {
    "C01": [(4, {"dims": ["defs", "imps"], "lite": True})],
    "C02": [(8, {"dims": ["imps", "fan", "defs", "name"]})],
    "C03": [(3, {"dims": ["defs"], "lite": True})],
    "C04": [(5, {"dims": ["defs", "imps", "blob", "links", "secs"], "lite": True})],
    "C05": [(3, {"dims": ["links", "fan"], "lite": True})],
    "C06": [(9, {"lite": True})],
    "C07": [(9, {"fmts": ["elf"]})],
    "C08": [(8, {"fmts": ["elf"], "dims": ["defs", "blob", "name", "pads"]})],
    "C09": [(8, {"fmts": ["elf"], "dims": ["defs", "imps", "syms", "fan"]})],
    "C10": [(8, {"fmts": ["elf"], "dims": ["links", "fan", "links", "blob"]})],
    "C12": [(6, {"dims": ["defs", "pads", "blob"]})],
    "C13": [(8, {"dims": ["secs", "syms", "secs", "blob"]})],
    "C14": [(9, {"fmts": ["macho"], "mach": True})],
    "C15": [(8, {"fmts": ["macho"], "mach": True, "dims": ["defs", "blob", "name", "pads"]})],
    "C16": [(8, {"dims": ["pads", "pads", "defs", "blob"]})],
    "C17": [(8, {"fmts": ["macho"], "dims": ["links", "fan", "links", "blob"]})],
    "C18": [(9, {})],
    "C19": [(9, {})],
    "C21": [(9, {"mach": True})],
    "C22": [(9, {"twice": True})],
}


def programs(prop, seed, count, thorough=False):
    if prop == "C11":
        return bulk_programs(seed, thorough)
    rnd = random.Random("%s-%s" % (prop, seed))
    g = G(rnd)
    fams = P[prop]
    tot = sum(w for _, _, w in fams)
    out = []
    for f, prof, w in fams:
        for i in range(max(1, count * w // tot)):
            p = f(g, prof, i)
            p["id"] = "%s-%s" % (len(out), p["id"])
            out.append(p)
    if prop == "C01":
        out += absorb_programs(g, 12000 if thorough else 3000)
    for n, prof in SCALE.get(prop, []):
        for i in range(6 * n if thorough else n):
            out.append(scale_program(g, prof, i))
    if prop in ("C18", "C19"):
        out += target_programs(g)
    out += large_programs(prop, seed, thorough)
    return out


if __name__ == "__main__":
    import sys
    for p in programs(sys.argv[1], sys.argv[2], int(sys.argv[3])):
        print(json.dumps(p, separators=(",", ":")))
