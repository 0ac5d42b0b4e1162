------------------------------ MODULE ElfProps ------------------------------
(* What an emitted ELF object must say about the artifact it was emitted     *)
(* from.  `o` is the decoded object: a record with the header, the section   *)
(* headers (secs), the symbols (syms) and the relocation entries (rels).     *)
(* Section i is o.secs[i+1], symbol i is o.syms[i+1].  Each EC.. operator    *)
(* yields the set of labels of the clauses that fail.                        *)
EXTENDS Supported

Chk(label, ok) == IF ok THEN {} ELSE {label}

NSec(o) == Len(o.secs)
NSym(o) == Len(o.syms)
Sec(o, i) == o.secs[i + 1]
Sym(o, i) == o.syms[i + 1]
IsSec(o, i) == i \in 0..(NSec(o) - 1)
SecIdx(o) == 0..(NSec(o) - 1)
SymIdx(o) == 0..(NSym(o) - 1)

Named(o) == {i \in 1..(NSym(o) - 1) : Sym(o, i).ty \notin {"SECTION", "FILE"}}
SymsOf(o, n) == {i \in Named(o) : Sym(o, i).nm = n}
UserSecs(o) == {i \in SecIdx(o) : Sec(o, i).ty \in {"PROGBITS", "NOBITS"}}
Note(o) == {i \in UserSecs(o) : Sec(o, i).nm = ".note.GNU-stack"}
One(S) == Cardinality(S) = 1
The(S) == CHOOSE x \in S : TRUE
Fl(s) == Range(s.fl)

(* the section of a definition: the one its symbol lies in; of a custom section: the one so named *)
HasHome(a, o, n) ==
  IF a.decl[n].k = "sec" THEN One({i \in UserSecs(o) : Sec(o, i).nm = n})
  ELSE One(SymsOf(o, n)) /\ Sym(o, The(SymsOf(o, n))).sx \in UserSecs(o)
Home(a, o, n) ==
  IF a.decl[n].k = "sec" THEN The({i \in UserSecs(o) : Sec(o, i).nm = n})
  ELSE Sym(o, The(SymsOf(o, n))).sx

(* ---- structural well-formedness ---- *)
WordBytes(o) == o.hdr.cls \div 8
(* [start, end) of everything stored in the file *)
FileRanges(o) ==
  SetToSeq({<<Sec(o, i).off, Sec(o, i).off + Sec(o, i).isz, i>> :
              i \in {j \in SecIdx(o) : Sec(o, j).ty \notin {"NULL", "NOBITS"} /\ Sec(o, j).isz > 0}}
           \cup {<<0, o.hdr.ehsize, -1>>, <<o.hdr.shoff, o.hdr.shoff + NSec(o) * o.hdr.shentsize, -2>>})
RangesDisjoint(rs) ==
  LET s == SortSeq(rs, LAMBDA x, y : x[1] < y[1])
  IN \A i \in 1..(Len(s) - 1) : s[i][2] <= s[i + 1][1]
Relas(o) == {i \in SecIdx(o) : Sec(o, i).ty = "RELA"}

Structure(a, o) ==
  LET h == o.hdr
      c64 == h.cls = 64
      st == o.symtab
      tabs == {i \in SecIdx(o) : Sec(o, i).ty = "STRTAB"}
  IN
  Chk("hdr-ident", h.ver = 1 /\ h.ver2 = 1)
  \cup Chk("hdr-type", h.ty = 1)
  \cup Chk("hdr-sizes", h.ehsize = (IF c64 THEN 64 ELSE 52) /\ h.shentsize = (IF c64 THEN 64 ELSE 40))
  \cup Chk("hdr-noprog", h.phnum = 0 /\ h.phoff = U0 /\ h.entry = U0)
  \cup Chk("shdr-align", h.shoff % WordBytes(o) = 0 /\ h.shoff > 0)
  \cup Chk("null-section", NSec(o) > 0 /\ Sec(o, 0).ty = "NULL" /\ Sec(o, 0).off = 0 /\ Sec(o, 0).addr = U0
        /\ Sec(o, 0).nm = "" /\ Sec(o, 0).fl = <<>> /\ Sec(o, 0).info = 0 /\ Sec(o, 0).alx = -1 /\ Sec(o, 0).ent = 0
        (* its size and link fields serve the extended numbering only *)
        /\ (h.rawnum # 0 => Sec(o, 0).size = U0) /\ (h.rawstr # 65535 => Sec(o, 0).link = 0))
  \cup Chk("one-symtab", st \in SecIdx(o) /\ One({i \in SecIdx(o) : Sec(o, i).ty = "SYMTAB"}))
  \cup Chk("shstrtab", h.shstr \in tabs)
  \cup Chk("section-names", \A i \in SecIdx(o) : Sec(o, i).nmok)
  \cup Chk("table-names", \A i \in SecIdx(o) : /\ Sec(o, i).ty = "SYMTAB" => Sec(o, i).nm = ".symtab"
                                               /\ Sec(o, i).ty = "STRTAB" => Sec(o, i).nm \in {".strtab", ".shstrtab"})
  \cup Chk("tables-not-loaded", \A i \in SecIdx(o) : Sec(o, i).ty \notin {"PROGBITS", "NOBITS"} => Fl(Sec(o, i)) \cap {"A", "W", "X", "M", "S"} = {})
  (* fields that mean nothing for the section's type are zero (the entry size of mergeable strings is left open) *)
  \cup Chk("unused-fields", \A i \in SecIdx(o) : LET t == Sec(o, i) IN
        /\ t.ty \in {"PROGBITS", "NOBITS", "STRTAB"} => t.link = 0 /\ t.info = 0
        /\ (t.ty \in {"NOBITS", "STRTAB"} \/ (t.ty = "PROGBITS" /\ "M" \notin Fl(t))) => t.ent = 0)
  \cup Chk("section-count", h.rawnum # 0 => h.rawnum = NSec(o))
  (* every entry is in exactly one table, and the tables hold nothing else *)
  \cup Chk("rela-entries", \A i \in Relas(o) : Sec(o, i).isz = Sec(o, i).ent * Cardinality({k \in 1..Len(o.rels) : o.rels[k].sec = i}))
  \cup Chk("rela-tables", \A k \in 1..Len(o.rels) : o.rels[k].sec \in Relas(o) /\ Sec(o, o.rels[k].sec).info = o.rels[k].tgt)
  \cup Chk("section-bytes", \A i \in SecIdx(o) : Sec(o, i).tok # "OOB" /\ Sec(o, i).isz >= (IF Sec(o, i).ty = "NOBITS" THEN -1 ELSE 0))
  (* only symbols that use the index table have anything in it *)
  \cup Chk("index-table", o.xspare = 0)
  \cup Chk("section-addr", \A i \in SecIdx(o) : Sec(o, i).addr = U0)
  \cup Chk("section-types", \A i \in 1..(NSec(o) - 1) : Sec(o, i).ty \in {"PROGBITS", "NOBITS", "STRTAB", "SYMTAB", "RELA", "XINDEX"})
  \cup Chk("section-align", \A i \in SecIdx(o) : Sec(o, i).alx >= -1)
  \cup Chk("strtab-nul", \A i \in tabs : Sec(o, i).isz > 0 /\ Len(Sec(o, i).tok) >= 4 /\ SubSeq(Sec(o, i).tok, 1, 2) = "00" /\ SubSeq(Sec(o, i).tok, 3, 4) = "00")
  \cup Chk("ranges-disjoint", RangesDisjoint(FileRanges(o)))
  \cup Chk("gnu-stack", One(Note(o)) /\ \A i \in Note(o) : Sec(o, i).isz = 0 /\ Sec(o, i).ty = "PROGBITS" /\ Fl(Sec(o, i)) \cap {"A", "W", "X", "M", "S"} = {} /\ Sec(o, i).tok = "")
  \cup (IF st \notin SecIdx(o) THEN {} ELSE
        Chk("symtab-link", Sec(o, st).link \in tabs)
        \cup Chk("symtab-entsize", Sec(o, st).ent = (IF c64 THEN 24 ELSE 16) /\ Sec(o, st).isz = NSym(o) * Sec(o, st).ent)
        \cup Chk("symtab-align", Sec(o, st).off % WordBytes(o) = 0)
        \cup Chk("null-symbol", NSym(o) > 0 /\ LET s == Sym(o, 0) IN
                 s.nm = "" /\ s.bind = "L" /\ s.ty = "NOTYPE" /\ s.vis = "D" /\ s.sx = -1 /\ s.val = U0 /\ s.size = U0)
        \cup Chk("symbol-names", \A i \in 1..(NSym(o) - 1) : Sym(o, i).nmok)
        \cup Chk("symbol-binding", \A i \in SymIdx(o) : Sym(o, i).bind \in {"L", "G", "W"})
        \cup Chk("symbol-section", \A i \in SymIdx(o) : Sym(o, i).sx \in (-2)..(NSec(o) - 1) /\ Sym(o, i).sx # 0)
        \cup Chk("file-symbol", LET F == {i \in SymIdx(o) : Sym(o, i).ty = "FILE"} IN
                 One(F) /\ \A i \in F : /\ Sym(o, i).nm = a.name /\ Sym(o, i).bind = "L" /\ Sym(o, i).sx = -2
                                       /\ Sym(o, i).val = U0 /\ Sym(o, i).size = U0 /\ Sym(o, i).vis = "D")
        \cup Chk("section-symbols", \A i \in SymIdx(o) : Sym(o, i).ty = "SECTION" =>
                 /\ Sym(o, i).bind = "L" /\ Sym(o, i).sx \in UserSecs(o) /\ Sym(o, i).val = U0
                 /\ Sym(o, i).size = U0 /\ Sym(o, i).vis = "D" /\ Sym(o, i).nm = "")
        (* at most one of them stands for a section *)
        \cup Chk("section-symbols-distinct", LET S == {i \in SymIdx(o) : Sym(o, i).ty = "SECTION"} IN Cardinality({Sym(o, i).sx : i \in S}) = Cardinality(S))
        \cup Chk("rela-form", \A i \in Relas(o) :
                 /\ Sec(o, i).link = st /\ Sec(o, i).info \in UserSecs(o)
                 /\ Sec(o, i).ent = (IF c64 THEN 24 ELSE 12) /\ Sec(o, i).isz % Sec(o, i).ent = 0
                 /\ Sec(o, i).off % WordBytes(o) = 0
                 /\ Sec(o, i).nm = ".rela" \o Sec(o, Sec(o, i).info).nm)
        \cup Chk("rela-symbols", \A k \in 1..Len(o.rels) : o.rels[k].sym \in SymIdx(o))
        \cup Chk("no-extra-sections",
                 NSec(o) = 4 + Cardinality(Defined(a)) + Cardinality(Relas(o)) + Cardinality({i \in SecIdx(o) : Sec(o, i).ty = "XINDEX"}) + (Cardinality(tabs) - 1)))

(* ---- definitions ---- *)
DefFlags(a, n) ==
  LET d == a.decl[n]
      x == a.defd[n] IN
  IF d.k = "fn" THEN {"A", "X"}
  ELSE IF x.zero THEN {"A", "W"}
  ELSE {"A"} \cup (IF d.w THEN {"W"} ELSE {}) \cup (IF d.dt = "str" THEN {"M", "S"} ELSE {})
EDef(a, o, n) ==
  LET d == a.decl[n]
      x == a.defd[n]
      S == SymsOf(o, n)
  IN IF ~One(S) THEN {"one-symbol"} ELSE
     LET s == Sym(o, The(S)) IN
     Chk("symbol-type", s.ty = (IF d.k = "fn" THEN "FUNC" ELSE "OBJECT"))
     \cup Chk("binding", s.bind = d.scope)
     \cup Chk("visibility", s.vis = d.vis)
     \cup Chk("value", s.val = U0)
     \cup (IF s.sx \notin UserSecs(o) THEN {"defined"} ELSE
           LET t == Sec(o, s.sx) IN
           Chk("own-section", \A i \in Named(o) : Sym(o, i).sx = s.sx => i = The(S))
           \cup Chk("section-name", t.nm = SectionName(a, n))
           \cup Chk("flags", Fl(t) = DefFlags(a, n))
           \cup (IF x.zero THEN {} ELSE
                 Chk("size", s.size = SizeOf(x))
                 \cup Chk("bytes", t.ty = "PROGBITS" /\ t.tok = x.b /\ t.size = SizeOf(x))))
Definitions(a, o) ==
  UNION {EDef(a, o, n) : n \in DefsOf(a)}
  \cup Chk("no-extra-symbols", Cardinality(Named(o)) = Cardinality(DefsOf(a)) + Cardinality(Imports(a)) + Cardinality(Custom(a)))
  \cup Chk("no-extra-sections", Cardinality(UserSecs(o)) = Cardinality(Defined(a)) + 1)

(* ---- the split of the symbol table ---- *)
LocalsFirst(a, o) ==
  IF o.symtab \notin SecIdx(o) THEN {"no-symtab"} ELSE
  LET k == Sec(o, o.symtab).info IN
  Chk("sh-info-range", k \in 1..NSym(o))
  \cup Chk("local-after-sh-info", \A i \in SymIdx(o) : i >= k => Sym(o, i).bind # "L")
  \cup Chk("nonlocal-before-sh-info", \A i \in SymIdx(o) : i < k => Sym(o, i).bind = "L")

(* ---- imports ---- *)
ImportSymbols(a, o) ==
  LET und == {i \in Named(o) : Sym(o, i).sx = -1} IN
  UNION {Chk("one-undefined-symbol", One({i \in und : Sym(o, i).nm = n}) /\ One(SymsOf(o, n))) : n \in Imports(a)}
  \cup Chk("no-other-undefined", \A i \in und : Sym(o, i).nm \in Imports(a))
  \cup Chk("undefined-global", \A i \in und : /\ Sym(o, i).bind = "G" /\ Sym(o, i).ty = "NOTYPE" /\ Sym(o, i).vis = "D"
                                              /\ Sym(o, i).val = U0 /\ Sym(o, i).size = U0)

(* ---- zero-initialised data ---- *)
ZeroData(a, o) ==
  UNION {LET S == SymsOf(o, n) IN
         IF ~One(S) \/ Sym(o, The(S)).sx \notin UserSecs(o) THEN {"one-symbol"} ELSE
         LET s == Sym(o, The(S))
             t == Sec(o, s.sx) IN
         Chk("nobits", t.ty = "NOBITS")
         \cup Chk("section-size", t.size = a.defd[n].z)
         \cup Chk("symbol-size", s.size = a.defd[n].z /\ s.val = U0)
         \cup Chk("flags", Fl(t) = {"A", "W"})
         \cup Chk("own-section", \A i \in Named(o) : Sym(o, i).sx = s.sx => i = The(S))
         : n \in {m \in DefsOf(a) : a.defd[m].zero}}
  \cup Chk("nobits-only-zero", Cardinality({i \in UserSecs(o) : Sec(o, i).ty = "NOBITS"}) = Cardinality({m \in DefsOf(a) : a.defd[m].zero}))

(* ---- custom sections and their symbols ---- *)
SecStrings(a, n) == a.decl[n].dt = "str" \/ n \in {".debug_str", ".debug_line_str"}
CustomSections(a, o) ==
  UNION {LET H == {i \in UserSecs(o) : Sec(o, i).nm = n} IN
         IF ~One(H) THEN {"one-section"} ELSE
         LET t == Sec(o, The(H)) IN
         Chk("type", t.ty = "PROGBITS")
         \cup Chk("bytes", t.tok = a.defd[n].b /\ t.size = SizeOf(a.defd[n]))
         \cup Chk("strings-flag", ({"M", "S"} \subseteq Fl(t)) = SecStrings(a, n) /\ (("M" \in Fl(t)) = ("S" \in Fl(t))))
         \cup Chk("debug-not-loaded", a.decl[n].sk = "Debug" => Fl(t) \cap {"A", "W", "X"} = {})
         : n \in SecsOf(a)}
  \cup UNION {LET S == SymsOf(o, CName(a, c)) IN
         IF ~One(S) THEN {"one-custom-symbol"} ELSE
         LET s == Sym(o, The(S)) IN
         Chk("custom-symbol-section", HasHome(a, o, c[1]) /\ s.sx = Home(a, o, c[1]))
         \cup Chk("custom-symbol-offset", s.val = CVal(a, c))
         : c \in Custom(a)}

(* ---- alignment ---- *)
ElfDefaultAlign(a, n) ==
  IF a.decl[n].k = "fn" THEN 4 ELSE IF a.decl[n].k = "data" /\ a.decl[n].w THEN 3 ELSE 0
ElfAlign(a, n) == IF a.decl[n].al >= 0 THEN a.decl[n].al ELSE ElfDefaultAlign(a, n)
Alignments(a, o) ==
  UNION {IF ~HasHome(a, o, n) THEN {"no-section"} ELSE
         LET x == Sec(o, Home(a, o, n)).alx IN
         Chk("declared-alignment", a.decl[n].al >= 0 => x = a.decl[n].al)
         \cup Chk("default-alignment", a.decl[n].al < 0 => x = ElfDefaultAlign(a, n))
         : n \in Defined(a)}

(* ---- relocations ---- *)
R_64 == 1
R_PC32 == 2
R_PLT32 == 4
R_GOTPCREL == 9
R_32 == 10
RelType(a, l) ==
  CASE l.rel.t = "raw" -> l.rel.r
    [] l.rel.t = "dbg" -> U(IF l.rel.sz = 8 THEN R_64 ELSE R_32)
    [] l.rel.t = "auto" ->
         IF From(a, l).k = "data" THEN U(IF Is32(a) THEN R_32 ELSE R_64)
         ELSE CASE To(a, l).k \in {"fn", "ifn"} -> U(R_PLT32)
                [] To(a, l).k = "data" -> U(R_PC32)
                [] To(a, l).k = "idata" -> U(R_GOTPCREL)
RelAddend(a, l) ==
  IF l.rel.t = "auto" THEN (IF From(a, l).k = "fn" THEN Minus4 ELSE U0) ELSE Sext32(l.rel.add)
(* Auto and Debug choose x86 relocation types; on other machines the type is not judged *)
JudgeType(a, l) == l.rel.t = "raw" \/ a.arch \in {"x86_64", "x32"}

(* the section each definition lives in, -1 if there is no telling; evaluated once per object *)
HomeMap(a, o) == TLCEval([n \in Defined(a) |-> IF HasHome(a, o, n) THEN Home(a, o, n) ELSE -1])
Resolves(a, o, hm, r, n) ==         \* the entry's symbol denotes name n
  /\ r.sym \in SymIdx(o)
  /\ LET s == Sym(o, r.sym) IN
     (* a weak definition may be replaced by another object's, so its section does not stand for its name *)
     IF s.ty = "SECTION" THEN ~IsImport(a.decl[n]) /\ a.decl[n].scope # "W" /\ hm[n] # -1 /\ s.sx = hm[n]
     ELSE s.nm = n /\ s.ty # "FILE" /\ ((s.sx = -1) = IsImport(a.decl[n]))
Realises(a, o, hm, r, l) ==
  /\ r.off = l.at
  /\ hm[l.from] # -1 /\ r.tgt = hm[l.from]
  /\ r.add = RelAddend(a, l)
  /\ (JudgeType(a, l) => r.ty = RelType(a, l))
  /\ Resolves(a, o, hm, r, l.to)
(* an entry that realises m also realises l, so at least that many entries do *)
SameEffect(a, l, m) == /\ l.at = m.at /\ l.from = m.from /\ l.to = m.to
                       /\ RelAddend(a, l) = RelAddend(a, m)
                       /\ (JudgeType(a, l) => JudgeType(a, m) /\ RelType(a, l) = RelType(a, m))
Relocations(a, o) ==
  LET hm == HomeMap(a, o) IN
  Chk("entry-count", Len(o.rels) = Len(a.links))
  \cup Chk("link-realised", \A i \in 1..Len(a.links) :
        LET l == a.links[i] IN
        Cardinality({k \in 1..Len(o.rels) : Realises(a, o, hm, o.rels[k], l)})
          >= Cardinality({j \in 1..Len(a.links) : SameEffect(a, l, a.links[j])}))
  \cup Chk("entry-explained", \A k \in 1..Len(o.rels) : \E i \in 1..Len(a.links) : Realises(a, o, hm, o.rels[k], a.links[i]))
  \cup Chk("one-table-per-section", \A i, j \in Relas(o) : Sec(o, i).info = Sec(o, j).info => i = j)
  \cup Chk("tables-are-rela", \A i \in SecIdx(o) : Sec(o, i).ty # "REL")

(* ---- target identity ---- *)
Identity(a, o) ==
  LET t == Target(a) IN
  Chk("class", o.hdr.cls = t.bits) \cup Chk("byte-order", o.hdr.dat = t.dat) \cup Chk("machine", o.hdr.mach = t.em)
  (* the byte order and word size hold throughout, not only in the header *)
  \cup Chk("symbols-in-byte-order", {Sym(o, i).nm : i \in Named(o)} = DefsOf(a) \cup Imports(a) \cup {CName(a, c) : c \in Custom(a)})
  \cup Chk("sections-in-byte-order", \A n \in DefsOf(a) : One(SymsOf(o, n)) =>
         LET s == Sym(o, The(SymsOf(o, n))) IN s.sx \in UserSecs(o) /\ Sec(o, s.sx).size = SizeOf(a.defd[n]))
  \cup Chk("relocations-in-byte-order", Len(o.rels) = Len(a.links) /\ \A k \in 1..Len(o.rels) : o.rels[k].sym \in SymIdx(o) /\ o.rels[k].off \in {a.links[i].at : i \in 1..Len(a.links)})
=============================================================================
