------------------------------ MODULE BulkMach ------------------------------
(* Mach-O objects of very large artifacts, read as MachProps does but in     *)
(* time linear in their size.  The view is the ordinary one, with for each   *)
(* symbol its family f, number i and first bytes (head), for each relocation *)
(* the symbol it lies in (inside, -1 for none) and how many before it say    *)
(* the same (dup), and the defined symbols in the order of their addresses   *)
(* (ord).  The order and `inside` are hints: whatever they are, the clauses  *)
(* hold only of a right object.                                              *)
EXTENDS BulkFamilies, MachProps

P(prop, labels) == {<<prop, x>> : x \in labels}
FStd(f) == IF f.d.k = "fn" THEN "__text" ELSE IF f.d.k # "data" THEN "-" ELSE IF f.zero THEN "__bss" ELSE IF f.d.dt = "str" THEN "__cstring" ELSE "__data"
FSeg(f) == IF FStd(f) \in {"__text", "__cstring"} THEN "__TEXT" ELSE "__DATA"
FCustomSeg(f) == CASE f.d.sk = "Data" -> "__DATA" [] f.d.sk = "Debug" -> "__DWARF" [] f.d.sk = "Text" -> "__TEXT"
FType(f) == CASE FStd(f) = "__bss" -> S_ZEROFILL [] FStd(f) = "__cstring" -> S_CSTRING [] OTHER -> S_REGULAR
FMachAlign(f) == IF f.d.al >= 0 THEN f.d.al ELSE IF f.d.k = "fn" THEN 4 ELSE IF FStd(f) = "__data" THEN 3 ELSE 0
FKind(fs, g) ==
  CASE g.rel.t = "raw" -> IF g.rel.r = U0 THEN MRel(M_UNSIGNED, 0, 3) ELSE MRel(Nat32(g.rel.r), 1, 2)
    [] g.rel.t = "dbg" -> MRel(M_UNSIGNED, 0, IF g.rel.sz = 8 THEN 3 ELSE 2)
    [] fs[g.ff].d.k = "data" -> MRel(M_UNSIGNED, 0, 3)
    [] OTHER -> CASE fs[g.tf].d.k \in {"fn", "ifn"} -> MRel(M_BRANCH, 1, 2)
                  [] fs[g.tf].d.k = "data" -> MRel(M_SIGNED, 1, 2)
                  [] fs[g.tf].d.k = "idata" -> MRel(M_GOT_LOAD, 1, 2)

MBulkFails(arch, fs, gs, o) ==
  IF ~o.ok THEN {<<"C14", "unreadable">>} ELSE
  LET nsym == Len(o.syms)
      nsec == Len(o.secs)
      insec(s) == s.sect \in 1..nsec
      is32 == Targets[arch].bits = 32
      member(f, i) == MachSection(fs[f].pre \o ToString(i))
      secfams == {f \in 1..Len(fs) : fs[f].d.k = "sec"}
      (* which custom section is which *)
      secid == TLCEval([j \in 1..nsec |->
                 LET M == {x \in UNION {{<<f, i>> : i \in 0..(fs[f].n - 1)} : f \in secfams} : member(x[1], x[2]) = MSec(o, j).nm /\ MSec(o, j).gnm = FCustomSeg(fs[x[1]])}
                 IN IF Cardinality(M) = 1 THEN CHOOSE x \in M : TRUE ELSE <<0, -1>>])
      plain(s) == s.f > 0 /\ s.f <= Len(fs) /\ fs[s.f].d.k \in {"fn", "data"}
      sized == {k \in 1..nsym : plain(o.syms[k]) /\ FSize(fs[o.syms[k].f]) # U0}
      end(k) == Add(o.syms[k].val, FSize(fs[o.syms[k].f]))
  IN
  P("C14", MStructure(<<>>, o))
  \cup P("C15", MChk("every-symbol-once",
       /\ nsym = Total(fs, HasSym)
       /\ Cardinality({<<o.syms[k].f, o.syms[k].i>> : k \in 1..nsym}) = nsym
       /\ \A k \in 1..nsym : LET s == o.syms[k] IN s.f \in 1..Len(fs) /\ s.i \in 0..(fs[s.f].n - 1) /\ HasSym(fs[s.f])))
  \cup P("C15", MChk("subsections-flag", o.hdr.flags = U(8192)))
  \cup P("C15", UNION {LET s == o.syms[k] IN
       IF ~plain(s) THEN {} ELSE
       LET f == fs[s.f] IN
       MChk("kind", s.ty = "SECT")
       \cup MChk("external", s.ext = (f.d.scope # "L") /\ ~s.pext)
       \cup MChk("weak", s.desc = (IF f.d.scope = "W" THEN 128 ELSE 0))
       \cup (IF ~insec(s) THEN {"defined"} ELSE
             LET t == MSec(o, s.sect) IN
             MChk("section", t.nm = FStd(f) /\ t.gnm = FSeg(f) /\ t.sty = FType(f))
             \cup MChk("in-section", Le(t.addr, s.val) /\ Le(end(k), Add(t.addr, t.size)))
             \cup MChk("bytes", f.zero \/ LET c == FirstBytes(FContent(f, s.i)) IN Len(s.head) >= Len(c) /\ SubSeq(s.head, 1, Len(c)) = c))
       : k \in 1..nsym})
  (* in the order of their addresses no definition reaches into the next *)
  \cup P("C15", MChk("disjoint",
       LET q == SelectSeq(o.ord, LAMBDA k : (k + 1) \in sized) IN
       /\ Len(q) = Cardinality(sized)
       /\ \A j \in 2..Len(q) : Le(end(q[j - 1] + 1), o.syms[q[j] + 1].val)))
  \cup P("C12", UNION {LET s == o.syms[k] IN
       IF ~plain(s) \/ ~insec(s) THEN {} ELSE
       MChk("zerofill", fs[s.f].zero => MSec(o, s.sect).sty = S_ZEROFILL)
       \cup MChk("zerofill-only-zero", MSec(o, s.sect).sty = S_ZEROFILL => fs[s.f].zero)
       \cup MChk("zero-in-section", fs[s.f].zero => Le(MSec(o, s.sect).addr, s.val) /\ Le(end(k), Add(MSec(o, s.sect).addr, MSec(o, s.sect).size)))
       : k \in 1..nsym})
  \cup P("C12", MChk("no-file-bytes", Len(o.segs) = 1 =>
         o.segs[1].filesize <= FoldFunction(+, 0, [i \in MSecIdx(o) |-> IF MSec(o, i).sty = S_ZEROFILL \/ MSec(o, i).isz < 0 THEN 0 ELSE MSec(o, i).isz])))
  \cup P("C02", MChk("undefined-symbols", \A k \in 1..nsym : LET s == o.syms[k] IN
         IF s.f \in 1..Len(fs) /\ IsImport(fs[s.f].d)
         THEN s.ty = "UNDF" /\ s.ext /\ ~s.pext /\ s.sect = 0 /\ s.val = U0 /\ s.desc = 0
         ELSE s.ty # "UNDF"))
  \cup P("C13", MChk("custom-sections",
         /\ nsec = 4 + Total(fs, LAMBDA f : f.d.k = "sec")
         /\ \A f \in secfams : \A i \in 0..(fs[f].n - 1) :
              LET J == {j \in 1..nsec : secid[j] = <<f, i>>} IN
              Cardinality(J) = 1 /\ \A j \in J : LET t == MSec(o, j) IN
                 /\ t.sty = S_REGULAR /\ t.size = FSize(fs[f]) /\ t.tok = FContent(fs[f], i)
                 /\ ("DEBUG" \in At(t)) = (fs[f].d.sk = "Debug") /\ t.alx >= FMachAlign(fs[f])))
  \cup P("C13", MChk("custom-symbols", \A k \in 1..nsym : LET s == o.syms[k] IN
         (s.f \in secfams) => /\ s.ty = "SECT" /\ insec(s) /\ s.desc = 0 /\ ~s.pext
                              /\ secid[s.sect] = <<s.f, s.i>> /\ s.val = Add(MSec(o, s.sect).addr, fs[s.f].sval)))
  \cup P("C16", MChk("alignment", \A k \in 1..nsym : LET s == o.syms[k] IN
         (plain(s) /\ insec(s)) => Aligned(s.val, FMachAlign(fs[s.f])) /\ MSec(o, s.sect).alx >= FMachAlign(fs[s.f])))
  \cup P("C18", MChk("target", LET t == Targets[arch] IN o.hdr.cls = t.bits /\ o.hdr.dat = t.dat /\ o.hdr.cpu = t.cpu))
  \cup P("C17", IF Targets[arch].dat = "B" THEN {} ELSE MChk("relocations",
       LET raws == \A g \in 1..Len(gs) : gs[g].rel.t = "raw"
           Says(k) == IF arch = "x86_64" THEN k ELSE IF raws THEN <<k[1]>> ELSE <<>>
           place(r) ==
             IF r.inside < 0 THEN (IF IsSmall(r.off) THEN secid[r.sec] \o <<Nat32(r.off)>> ELSE <<0, -1, -1>>)
             ELSE LET s == o.syms[r.inside + 1]
                      v == Add(MSec(o, r.sec).addr, r.off) IN
                  IF s.sect = r.sec /\ Le(s.val, v) /\ IsSmall(Sub(v, s.val)) THEN <<s.f, s.i, Nat32(Sub(v, s.val))>> ELSE <<0, -1, -1>>
           says(r) == place(r) \o <<o.syms[r.sym + 1].f, o.syms[r.sym + 1].i>> \o Append(Says(<<r.ty, r.pcrel, r.len>>), r.dup)
       IN /\ Len(o.rels) = LinkTotal(gs)
          /\ \A k \in 1..Len(o.rels) : LET r == o.rels[k] IN r.sec \in 1..nsec /\ r.sym \in 0..(nsym - 1) /\ r.inside \in (-1)..(nsym - 1) /\ r.ext = 1
          /\ RealisedBy(gs, LAMBDA g : Says(FKind(fs, g)), TLCEval({says(o.rels[k]) : k \in 1..Len(o.rels)}))))
=============================================================================
