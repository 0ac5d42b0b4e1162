------------------------------ MODULE BulkProps ------------------------------
(* ELF objects of very large artifacts.  The object is described by a        *)
(* compact view in which a name of a family is the pair <<family, number>>.  *)
(* This is the same reading of an ELF object as ElfProps, organised so that  *)
(* each clause is linear in the size of the object: it concerns what has to  *)
(* survive when numbers outgrow the fields they are kept in, in particular   *)
(* section indices their 16-bit fields (C11).                                *)
(* `lo` is the first section index such a field cannot hold; TLC explores    *)
(* the boundary with a small one (MCNumbering).                              *)
EXTENDS BulkFamilies

SecPrefix(f) == CASE f.d.k = "fn" -> ".text." [] f.d.k = "sec" -> "" [] IsImport(f.d) -> "-"
                  [] f.zero -> ".bss." [] f.d.w -> ".data." [] OTHER -> ".rodata."
(* what the entry of a link says: <<type, addend>>; automatic types are known for x86-64 only *)
BX86(arch) == arch \in {"x86_64", "x32"}
BType(arch, fs, g) ==
  CASE g.rel.t = "raw" -> g.rel.r
    [] g.rel.t = "dbg" -> U(IF g.rel.sz = 8 THEN 1 ELSE 10)
    [] fs[g.ff].d.k = "data" -> U(IF Targets[arch].bits = 32 THEN 10 ELSE 1)
    [] OTHER -> U(CASE fs[g.tf].d.k \in {"fn", "ifn"} -> 4 [] fs[g.tf].d.k = "data" -> 2 [] fs[g.tf].d.k = "idata" -> 9)
BAddend(fs, g) == IF g.rel.t = "auto" THEN (IF fs[g.ff].d.k = "fn" THEN Minus4 ELSE U0) ELSE Sext32(g.rel.add)
BJudged(arch, gs) == BX86(arch) \/ \A k \in 1..Len(gs) : gs[k].rel.t = "raw"

(* ---- the object ---- *)
(* secs[i+1] = <<f, i, type, nameok, size, inside, head, link, info, flags, align, offset, isize, entry size, at address 0, name>>; *)
(*   of a relocation table, f and i name the section its own name says it is for; the flags of tables are those of W A X M S;      *)
(*   head: the first bytes, of a string table its first and last; name: of what is no family's                                     *)
(* rels[k] = <<table, target section, offset, symbol, type, addend, how many before say the same, how many before in its table>>   *)
(* syms[i+1] = <<f, i, bind, type, nameok, section, escaped, value, size, visibility, name>>                                       *)
StringFlags == {"MS", "WMS", "AMS", "WAMS", "XMS", "WXMS", "AXMS", "WAXMS"}
PlainFlags == {"", "W", "A", "WA", "X", "WX", "AX", "WAX"}
BulkFails(lo, arch, name, fs, gs, o) ==
  LET nsec == Len(o.secs)
      nsym == Len(o.syms)
      sec(i) == o.secs[i + 1]
      sym(i) == o.syms[i + 1]
      isec(i) == i >= 0 /\ i < nsec
      large == nsec >= lo
      defs == Total(fs, IsDef)
      named == {i \in 1..nsym : o.syms[i][1] > 0}
      strtabs == Cardinality({i \in 1..nsec : o.secs[i][3] = "STRTAB"})
      xtabs == Cardinality({i \in 1..nsec : o.secs[i][3] = "XINDEX"})
      user == {i \in 1..nsec : o.secs[i][3] \in {"PROGBITS", "NOBITS"}}
      home == {i \in user : o.secs[i][1] > 0}          \* the sections of members of families
      fam(i) == fs[o.secs[i][1]]
      relas == {i \in 1..nsec : o.secs[i][3] = "RELA"}
      (* the name a relocation's symbol denotes *)
      denotes(k) == IF k < 0 \/ k >= nsym THEN <<0, -1>>
                    ELSE IF sym(k)[4] = "SECTION" THEN (IF isec(sym(k)[6]) /\ (sec(sym(k)[6])[1] = 0 \/ fs[sec(sym(k)[6])[1]].d.scope # "W") THEN <<sec(sym(k)[6])[1], sec(sym(k)[6])[2]>> ELSE <<0, -1>>)
                    ELSE <<sym(k)[1], sym(k)[2]>>
  IN
  IF ~o.ok THEN {"unreadable"} ELSE
  BChk("header", o.hdr.ver = 1 /\ o.hdr.ver2 = 1 /\ o.hdr.ty = 1 /\ o.hdr.phnum = 0 /\ o.hdr.phoff = U0 /\ o.hdr.entry = U0)
  \cup BChk("identity", LET t == Targets[arch] IN o.hdr.cls = t.bits /\ o.hdr.dat = t.dat /\ o.hdr.mach = t.em)
  \cup BChk("null-section", LET t == o.secs[1] IN
             t[1] = 0 /\ t[3] = "NULL" /\ t[9] = 0 /\ t[10] = "" /\ t[11] = -1 /\ t[12] = 0 /\ t[14] = 0 /\ t[15] /\ t[16] = "")
  \cup BChk("one-symtab", Cardinality({i \in 1..nsec : o.secs[i][3] = "SYMTAB"}) = 1 /\ isec(o.symtab) /\ sec(o.symtab)[3] = "SYMTAB")
  \cup BChk("section-fields", \A i \in 2..nsec : LET t == o.secs[i] IN
             /\ t[15] /\ t[11] >= -1
             /\ t[3] \in {"PROGBITS", "NOBITS", "STRTAB", "SYMTAB", "RELA", "XINDEX"}
             /\ t[3] \in {"PROGBITS", "NOBITS", "STRTAB"} => t[8] = 0 /\ t[9] = 0
             /\ (t[3] \in {"NOBITS", "STRTAB"} \/ (t[3] = "PROGBITS" /\ t[10] \notin StringFlags)) => t[14] = 0
             /\ t[3] \notin {"PROGBITS", "NOBITS"} => t[10] = ""
             /\ t[3] = "SYMTAB" => t[16] = ".symtab"
             /\ t[3] = "STRTAB" => t[16] \in {".strtab", ".shstrtab"} /\ t[7] = "0000" /\ t[13] > 0)
  \cup BChk("gnu-stack", LET N == user \ home IN
             /\ Cardinality(N) = 1
             /\ \A i \in N : LET t == o.secs[i] IN t[16] = ".note.GNU-stack" /\ t[3] = "PROGBITS" /\ t[13] = 0 /\ t[10] = "" /\ t[7] = "")
  \cup BChk("section-count", nsec = 3 + strtabs + defs + Cardinality(relas) + xtabs)
  \cup BChk("count-field", IF large THEN o.hdr.rawnum = 0 /\ o.s0.isz = nsec ELSE o.hdr.rawnum = nsec /\ o.s0.isz = 0)
  \cup BChk("string-table-index", /\ isec(o.hdr.shstr) /\ sec(o.hdr.shstr)[3] = "STRTAB"
                                 /\ (IF o.hdr.shstr >= lo THEN o.hdr.rawstr = 65535 ELSE o.hdr.rawstr = o.hdr.shstr)
                                 /\ (o.hdr.rawstr # 65535 => o.s0.link = 0))
  \cup BChk("section-names", \A i \in 1..nsec : o.secs[i][4])
  \cup BChk("section-bytes", \A i \in 1..nsec : o.secs[i][6])
  \cup BChk("symbol-names", \A i \in 2..nsym : o.syms[i][5])
  \cup BChk("index-table", IF \E i \in 1..nsym : o.syms[i][7]
                          THEN xtabs = 1 /\ o.xtab.link = o.symtab /\ o.xtab.isz = 4 * nsym /\ o.xtab.ent = 4 /\ o.xtab.spare = 0
                          ELSE large \/ xtabs = 0)
  \cup BChk("extended-only-when-needed", \A i \in 1..nsym : o.syms[i][7] = (o.syms[i][6] >= lo))
  \cup BChk("symbol-section", \A i \in 1..nsym : o.syms[i][6] >= -2 /\ o.syms[i][6] < nsec /\ o.syms[i][6] # 0)
  \cup BChk("every-symbol-once", /\ Cardinality(named) = Total(fs, HasSym)
                                /\ Cardinality({<<o.syms[i][1], o.syms[i][2]>> : i \in named}) = Cardinality(named)
                                /\ \A i \in named : /\ o.syms[i][2] < fs[o.syms[i][1]].n /\ HasSym(fs[o.syms[i][1]])
                                                     /\ o.syms[i][4] \notin {"SECTION", "FILE"})
  \cup BChk("file-symbol", LET F == {i \in 1..nsym : o.syms[i][4] = "FILE"} IN
             /\ Cardinality(F) = 1
             /\ \A i \in F : LET s == o.syms[i] IN
                  s[11] = name /\ s[3] = "L" /\ s[6] = -2 /\ s[8] = U0 /\ s[9] = U0 /\ s[10] = "D")
  \cup BChk("null-symbol", nsym > 0 /\ LET s == o.syms[1] IN
             s[1] = 0 /\ s[3] = "L" /\ s[4] = "NOTYPE" /\ s[6] = -1 /\ s[8] = U0 /\ s[9] = U0 /\ s[10] = "D" /\ s[11] = "")
  \cup BChk("symbol-binding", \A i \in 1..nsym : o.syms[i][3] \in {"L", "G", "W"})
  \cup BChk("no-other-symbol", \A i \in 2..nsym : o.syms[i][1] > 0 \/ o.syms[i][4] \in {"SECTION", "FILE"})
  \cup BChk("every-section-once", /\ Cardinality(home) = defs /\ Cardinality({<<o.secs[i][1], o.secs[i][2]>> : i \in home}) = defs
                                 /\ \A i \in home : IsDef(fam(i)) /\ o.secs[i][2] < fam(i).n)
  \cup BChk("zero-data", \A i \in home : /\ (o.secs[i][3] = "NOBITS") = fam(i).zero
                                        /\ fam(i).zero => o.secs[i][5] = FSize(fam(i)) /\ o.secs[i][10] = FFlags(fam(i)))
  \cup BChk("bytes", \A i \in home : (fam(i).d.k \in {"fn", "data"} /\ ~fam(i).zero) =>
                                  o.secs[i][5] = FSize(fam(i)) /\ o.secs[i][7] = FirstBytes(FContent(fam(i), o.secs[i][2])))
  \cup BChk("flags", \A i \in home : fam(i).d.k \in {"fn", "data"} => o.secs[i][10] = FFlags(fam(i)))
  \cup BChk("custom-sections", \A i \in home : fam(i).d.k = "sec" =>
                                  /\ o.secs[i][3] = "PROGBITS" /\ o.secs[i][5] = FSize(fam(i)) /\ o.secs[i][7] = FirstBytes(FContent(fam(i), o.secs[i][2]))
                                  /\ IF fam(i).d.sk = "Debug" THEN o.secs[i][10] = FFlags(fam(i))
                                     ELSE o.secs[i][10] \in (IF fam(i).d.dt = "str" THEN StringFlags ELSE PlainFlags))
  \cup BChk("alignment", \A i \in home : o.secs[i][11] = FAlign(fam(i)))
  (* o.ord lists what is stored in the file by position: each once, none overlapping the next *)
  \cup BChk("ranges-disjoint",
       LET stored == {i \in 1..nsec : o.secs[i][3] \notin {"NULL", "NOBITS"} /\ o.secs[i][13] # 0}
           start(k) == CASE k = -1 -> 0 [] k = -2 -> o.hdr.shoff [] OTHER -> sec(k)[12]
           end(k) == CASE k = -1 -> o.hdr.ehsize [] k = -2 -> o.hdr.shoff + nsec * o.hdr.shentsize [] OTHER -> sec(k)[12] + sec(k)[13]
       IN /\ Len(o.ord) = Cardinality(stored) + 2
          /\ \A k \in 1..Len(o.ord) : o.ord[k] \in {-1, -2} \/ o.ord[k] + 1 \in stored
          /\ \A k \in 2..Len(o.ord) : start(o.ord[k]) >= end(o.ord[k - 1])
          /\ end(o.ord[Len(o.ord)]) <= o.len)
  \cup BChk("symbol-in-its-section", \A i \in named :
             LET s == o.syms[i]
                 f == fs[s[1]] IN
             IF f.d.k \notin {"fn", "data"} THEN TRUE
             ELSE /\ isec(s[6]) /\ s[6] > 0 /\ sec(s[6])[1] = s[1] /\ sec(s[6])[2] = s[2]
                  /\ sec(s[6])[3] \in {"PROGBITS", "NOBITS"}
                  /\ s[3] = f.d.scope /\ s[8] = U0 /\ s[9] = FSize(f)
                  /\ s[4] = (IF f.d.k = "fn" THEN "FUNC" ELSE "OBJECT") /\ s[10] = f.d.vis)
  \cup BChk("custom-symbols", \A i \in named :
             LET s == o.syms[i] IN
             fs[s[1]].d.k = "sec" => /\ isec(s[6]) /\ s[6] > 0 /\ sec(s[6])[1] = s[1] /\ sec(s[6])[2] = s[2] /\ sec(s[6])[3] = "PROGBITS"
                                     /\ s[8] = fs[s[1]].sval)
  \cup BChk("undefined-symbols", \A i \in 2..nsym : LET s == o.syms[i] IN
             IF s[1] > 0 /\ IsImport(fs[s[1]].d)
             THEN s[6] = -1 /\ s[3] = "G" /\ s[4] = "NOTYPE" /\ s[10] = "D" /\ s[8] = U0 /\ s[9] = U0
             ELSE s[6] # -1)
  \cup BChk("section-symbols", \A i \in 1..nsym : LET s == o.syms[i] IN
             s[4] = "SECTION" => /\ s[6] + 1 \in user /\ s[3] = "L" /\ s[8] = U0 /\ s[9] = U0 /\ s[10] = "D" /\ s[1] = 0 /\ s[11] = "")
  \cup BChk("section-symbols-distinct", LET S == {i \in 1..nsym : o.syms[i][4] = "SECTION"} IN Cardinality({o.syms[i][6] : i \in S}) = Cardinality(S))
  \cup BChk("locals-first", /\ o.info \in 1..nsym
                           /\ \A i \in 0..(nsym - 1) : (i < o.info) = (sym(i)[3] = "L"))
  \cup BChk("symtab-link", isec(o.strlink) /\ sec(o.strlink)[3] = "STRTAB")
  \cup BChk("relocation-tables", /\ \A i \in relas : /\ o.secs[i][8] = o.symtab /\ o.secs[i][9] + 1 \in user /\ o.secs[i][1] > 0
                                                      /\ sec(o.secs[i][9])[1] = o.secs[i][1] /\ sec(o.secs[i][9])[2] = o.secs[i][2]
                                 /\ Cardinality({o.secs[i][9] : i \in relas}) = Cardinality(relas))
  (* every entry is in a table, that of the section it is for; numbers below the tables' lengths, all distinct and as many: each table is full *)
  \cup BChk("table-entries",
       /\ \A i \in relas : o.secs[i][14] > 0
       /\ \A k \in 1..Len(o.rels) : LET r == o.rels[k] IN
            r[1] + 1 \in relas /\ LET t == sec(r[1]) IN t[9] = r[2] /\ r[8] < t[13] \div t[14]
       /\ Cardinality({<<o.rels[k][1], o.rels[k][8]>> : k \in 1..Len(o.rels)}) = Len(o.rels)
       /\ FoldLeft(LAMBDA acc, s : acc + (IF s[3] = "RELA" THEN s[13] \div s[14] ELSE 0), 0, o.secs) = Len(o.rels))
  \cup BChk("relocations",
       LET judged == BJudged(arch, gs)
           Ty(t) == IF judged THEN t ELSE "-"
           says(e) == LET t == sec(e[2]) x == denotes(e[4]) IN <<t[1], t[2], e[3], x[1], x[2], Ty(e[5]), e[6], e[7]>>
       IN /\ Len(o.rels) = LinkTotal(gs)
          /\ \A k \in 1..Len(o.rels) : isec(o.rels[k][2])
          /\ RealisedBy(gs, LAMBDA g : <<Ty(BType(arch, fs, g)), BAddend(fs, g)>>, TLCEval({says(o.rels[k]) : k \in 1..Len(o.rels)})))
  (* the tables lie on word boundaries and hold whole entries *)
  \cup BChk("table-form",
       LET word == o.hdr.cls \div 8
           form(i, align, ent) == sec(i)[12] % align = 0 /\ sec(i)[14] = ent /\ sec(i)[13] % ent = 0
       IN /\ o.hdr.shoff > 0 /\ o.hdr.shoff % word = 0
          /\ o.hdr.ehsize = (IF word = 8 THEN 64 ELSE 52) /\ o.hdr.shentsize = (IF word = 8 THEN 64 ELSE 40)
          /\ isec(o.symtab) /\ form(o.symtab, word, IF word = 8 THEN 24 ELSE 16) /\ sec(o.symtab)[13] = nsym * sec(o.symtab)[14]
          /\ \A i \in relas : form(i - 1, word, IF word = 8 THEN 24 ELSE 12)
          /\ o.xtab.i >= 0 => form(o.xtab.i, 4, 4))
=============================================================================
