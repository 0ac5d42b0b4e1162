------------------------------- MODULE Props -------------------------------
(* The listed properties, as predicates over an artifact and what was        *)
(* observed of the crate.  Each yields the set of labels of failing clauses. *)
EXTENDS ElfProps, MachProps, Calls

(* properties of the front end that an object can also betray *)
FrontObj == {"C01", "C03", "C05"}
ElfPropIds  == {"C02", "C07", "C08", "C09", "C10", "C12", "C13", "C16", "C18"}
MachPropIds == {"C02", "C12", "C13", "C14", "C15", "C16", "C17", "C18"}
ObjPropIds(f) == IF f = "elf" THEN ElfPropIds ELSE MachPropIds

(* property p of the object o emitted from a in format f *)
ObjFails(p, a, f, o) ==
  IF ~o.ok THEN {"unreadable"}
  ELSE IF f = "elf" THEN
    CASE p = "C02" -> ImportSymbols(a, o)
      [] p = "C07" -> Structure(a, o)
      [] p = "C08" -> Definitions(a, o)
      [] p = "C09" -> LocalsFirst(a, o)
      [] p = "C10" -> Relocations(a, o)
      [] p = "C12" -> ZeroData(a, o)
      [] p = "C13" -> CustomSections(a, o)
      [] p = "C16" -> Alignments(a, o)
      [] p = "C18" -> Identity(a, o)
  ELSE
    CASE p = "C02" -> MImportSymbols(a, o)
      [] p = "C12" -> MZeroData(a, o)
      [] p = "C13" -> MCustomSections(a, o)
      [] p = "C14" -> MStructure(a, o)
      [] p = "C15" -> MDefinitions(a, o)
      [] p = "C16" -> MAlignments(a, o)
      [] p = "C17" -> IF o.hdr.dat = "L" THEN MRelocations(a, o) ELSE {}
      [] p = "C18" -> MIdentity(a, o)

(* C01: the declaration in force is the one the object shows.  C03: what was accepted as the    *)
(* definition is what the object holds.  C05: an entry for each accepted link, and for no other *)
C01Labels == {"symbol-type", "binding", "visibility", "flags", "section-name", "value", "declared-alignment",
              "external", "weak", "section", "code-attributes", "strings-flag", "debug-not-loaded", "debug-attribute", "type"}
C03Labels == {"one-symbol", "defined", "size", "bytes", "nobits", "section-size", "symbol-size", "zerofill", "in-section",
              "one-section", "one-custom-symbol", "custom-symbol-section", "custom-symbol-offset", "no-extra-symbols", "no-extra-sections"}
FrontObjFails(p, a, f, o) ==
  IF ~o.ok THEN {} ELSE
  CASE p = "C01" -> C01Labels \cap (IF f = "elf" THEN Definitions(a, o) \cup CustomSections(a, o) \cup Alignments(a, o)
                                                  ELSE MDefinitions(a, o) \cup MCustomSections(a, o) \cup MAlignments(a, o))
    [] p = "C03" -> C03Labels \cap (IF f = "elf" THEN Definitions(a, o) \cup ZeroData(a, o) \cup CustomSections(a, o)
                                                  ELSE MDefinitions(a, o) \cup MZeroData(a, o) \cup MCustomSections(a, o))
    [] p = "C05" -> IF f = "elf" THEN Chk("relocations-left", Len(o.rels) = Len(a.links))
                    ELSE Chk("relocations-left", o.hdr.dat = "L" => Len(o.rels) = Cardinality(MEntries(a)))

(* does the artifact have anything this property speaks about? (for counting only) *)
Relevant(p, a) ==
  CASE p = "C02" -> Imports(a) # {}
    [] p \in {"C08", "C15"} -> DefsOf(a) # {}
    [] p = "C09" -> \E n \in DefsOf(a) : ~IsLocal(a.decl[n])
    [] p \in {"C05", "C10", "C17"} -> a.links # <<>>
    [] p = "C12" -> \E n \in DefsOf(a) : a.defd[n].zero
    [] p = "C13" -> SecsOf(a) # {}
    [] p = "C16" -> \E n \in Defined(a) : a.decl[n].al >= 0
    [] OTHER -> Defined(a) # {}

(* ---- C21: the two formats say the same about one artifact ---- *)
CrossFails(a, e, m) ==
  IF ~e.ok \/ ~m.ok THEN {"unreadable"} ELSE
  LET ed == {i \in Named(e) : Sym(e, i).sx # -1 /\ Sym(e, i).ty # "NOTYPE"}
      cls(n) == LET s == MSym(m, MThe(MSymsOf(m, n))) IN
                IF ~s.ext THEN "L" ELSE IF s.desc = 128 THEN "W" ELSE "G"
  IN
  Chk("same-names", {Sym(e, i).nm : i \in Named(e)} = {MSym(m, i).nm : i \in MSymIdx(m)}
                    /\ Cardinality(Named(e)) = Len(m.syms))
  \cup Chk("same-imports", {Sym(e, i).nm : i \in {j \in Named(e) : Sym(e, j).sx = -1}}
                           = {MSym(m, i).nm : i \in {j \in MSymIdx(m) : MSym(m, j).ty = "UNDF"}})
  \cup UNION {LET s == Sym(e, i)
                  M == MSymsOf(m, s.nm) IN
         IF ~MOne(M) THEN {"same-names"} ELSE
         LET u == MSym(m, MThe(M)) IN
         IF ~IsSec(e, s.sx) \/ u.sect \notin MSecIdx(m) THEN {"defined"} ELSE
         LET es == Sec(e, s.sx)
             ms == MSec(m, u.sect) IN
         Chk("same-binding", s.bind = cls(s.nm))
         \cup Chk("same-zero", (es.ty = "NOBITS") = (ms.sty = S_ZEROFILL))
         \cup Chk("same-code", (s.ty = "FUNC") = ("PURE" \in At(ms)))
         \cup Chk("same-bytes", es.ty = "NOBITS" \/
                (/\ IsSmall(s.size) /\ Le(ms.addr, u.val) /\ IsSmall(Sub(u.val, ms.addr))
                 /\ SubTok(es.tok, 0, Nat32(s.size)) = SubTok(ms.tok, Nat32(Sub(u.val, ms.addr)), Nat32(s.size))))
         : i \in ed}
  \cup Chk("same-sections", Cardinality(UserSecs(e)) - 1 - Cardinality(ed) = MNSec(m) - 4)
  \cup Chk("same-relocations", Len(m.rels) = Len(e.rels) -
             Cardinality({i \in 1..Len(a.links) : a.links[i].rel.t = "dbg" /\ To(a, a.links[i]).k = "sec"}))

(* ---- C22: what was built matters, not the order it was built in ---- *)
Bag(s) == BagOf(s)
SameArtifact(a, b) == SameFacts(a, b)
SecNm(o, i) == IF IsSec(o, i) THEN Sec(o, i).nm ELSE "-"
SymNm(o, i) == IF i \notin SymIdx(o) THEN "?" ELSE IF Sym(o, i).ty = "SECTION" THEN "sec " \o SecNm(o, Sym(o, i).sx) ELSE Sym(o, i).nm
ElfMeaning(o) ==
  IF ~o.ok THEN <<"unreadable">> ELSE
  <<o.hdr.cls, o.hdr.dat, o.hdr.mach,
    Bag([i \in 1..NSec(o) |-> LET s == o.secs[i] IN
        IF s.ty \in {"PROGBITS", "NOBITS"} THEN <<s.nm, s.ty, s.fl, s.size, s.alx, s.tok>> ELSE <<s.ty>>]),
    Bag([i \in 1..NSym(o) |-> LET s == o.syms[i] IN <<s.nm, s.bind, s.ty, s.vis, SecNm(o, s.sx), s.val, s.size>>]),
    Bag([k \in 1..Len(o.rels) |-> LET r == o.rels[k] IN <<SecNm(o, r.tgt), r.off, SymNm(o, r.sym), r.ty, r.add>>])>>
(* where definition n starts in its section, what it holds, which relocations lie in it: not where its section is *)
MachStarts(a, o) == TLCEval([n \in DefsOf(a) |-> IF MPlaced(a, o, n) THEN <<MHome(a, o, n), MStart(a, o, n)>> ELSE <<-1, U0>>])
MachHeld(a, o, st) ==
  [n \in DefsOf(a) |->
     IF st[n][1] = -1 THEN "?" ELSE
     IF a.defd[n].zero THEN IF MSec(o, st[n][1]).sty = S_ZEROFILL THEN "zero" ELSE "stored"
     ELSE IF ~IsSmall(st[n][2]) THEN "OOB" ELSE SubTok(MSec(o, st[n][1]).tok, Nat32(st[n][2]), Len(a.defd[n].b) \div 2)]
MachCustom(a, o) ==
  [c \in Custom(a) |-> LET S == MSymsOf(o, CName(a, c)) IN
     IF ~MOne(S) \/ MSym(o, MThe(S)).sect \notin MSecIdx(o) THEN <<"?">>
     ELSE LET x == MSym(o, MThe(S)) IN <<MSec(o, x.sect).nm, LET v == Sub(x.val, MSec(o, x.sect).addr) IN <<v[2] % 256, v[3]>>>>]
(* the definition a relocation lies in is told by its offset, if every link lies within what it is from *)
(* and the section is small enough for 32-bit offsets                                                   *)
LinksWithin(a) == \A i \in 1..Len(a.links) : Lt(a.links[i].at, SizeOf(a.defd[a.links[i].from]))
MachOwner(a, o, st, r) ==
  LET N == {n \in DefsOf(a) : st[n][1] = r.sec /\ Le(st[n][2], r.off) /\ Lt(r.off, Add(st[n][2], SizeOf(a.defd[n])))}
  IN IF MOne(N) THEN <<MThe(N), Sub(r.off, st[MThe(N)][2])>> ELSE <<"-", r.off>>
MachMeaning(a, o) ==
  IF ~o.ok THEN <<"unreadable">> ELSE
  LET st == MachStarts(a, o)
      own == o.hdr.dat = "L" /\ LinksWithin(a) IN
  <<o.hdr.cls, o.hdr.dat, o.hdr.cpu, o.hdr.flags,
    Bag([i \in MSecIdx(o) |-> LET s == o.secs[i] IN <<s.nm, s.gnm, s.alx, s.sty, s.at, IF s.nm \in {"__text", "__data", "__cstring", "__bss"} THEN "" ELSE s.tok>>]),
    Bag([i \in 1..Len(o.syms) |-> LET s == o.syms[i] IN
        <<s.nm, s.ty, s.ext, s.desc, IF s.sect \in MSecIdx(o) THEN MSec(o, s.sect).nm ELSE "-">>]),
    Bag([k \in 1..Len(o.rels) |-> LET r == o.rels[k] IN
        <<IF r.sec \in MSecIdx(o) THEN MSec(o, r.sec).nm ELSE "?", IF r.sym \in MSymIdx(o) THEN MSym(o, r.sym).nm ELSE "?", r.ty, r.pcrel, r.len,
          IF own /\ r.sec \in MSecIdx(o) /\ IsSmall(MSec(o, r.sec).size) THEN MachOwner(a, o, st, r) ELSE <<>>>>]),
    MachHeld(a, o, st), MachCustom(a, o)>>
Meaning(a, f, o) == IF f = "elf" THEN ElfMeaning(o) ELSE MachMeaning(a, o)
=============================================================================
