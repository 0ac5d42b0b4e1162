----------------------------- MODULE MachProps -----------------------------
(* What an emitted Mach-O object must say about the artifact it was emitted  *)
(* from.  Sections are numbered from 1 (as n_sect does): section i is        *)
(* o.secs[i]; symbol i is o.syms[i+1].  Symbol names have lost their leading *)
(* underscore (field `under` says whether it was there).                     *)
EXTENDS Supported, Functions

MChk(label, ok) == IF ok THEN {} ELSE {label}
MNSec(o) == Len(o.secs)
MSecIdx(o) == 1..Len(o.secs)
MSymIdx(o) == 0..(Len(o.syms) - 1)
MSym(o, i) == o.syms[i + 1]
MSec(o, i) == o.secs[i]
MSymsOf(o, n) == {i \in MSymIdx(o) : MSym(o, i).nm = n}
MOne(S) == Cardinality(S) = 1
MThe(S) == CHOOSE x \in S : TRUE
At(s) == Range(s.at)

S_REGULAR == 0
S_ZEROFILL == 1
S_CSTRING == 2

SegOf(a, n) == LET k == a.decl[n].sk IN
               CASE k = "Data" -> "__DATA" [] k = "Debug" -> "__DWARF" [] k = "Text" -> "__TEXT"
(* the standard section a definition goes to *)
StdName(a, n) == IF a.decl[n].k = "fn" THEN "__text"
                 ELSE IF a.defd[n].zero THEN "__bss"
                 ELSE IF a.decl[n].dt = "str" THEN "__cstring" ELSE "__data"
StdSeg(a, n) == IF StdName(a, n) \in {"__text", "__cstring"} THEN "__TEXT" ELSE "__DATA"
StdType(a, n) == CASE StdName(a, n) = "__bss" -> S_ZEROFILL
                   [] StdName(a, n) = "__cstring" -> S_CSTRING
                   [] OTHER -> S_REGULAR

(* custom sections, found by segment and name *)
MHasHome(a, o, n) ==
  IF a.decl[n].k = "sec" THEN MOne({i \in MSecIdx(o) : MSec(o, i).nm = MachSection(n) /\ MSec(o, i).gnm = SegOf(a, n)})
  ELSE MOne(MSymsOf(o, n)) /\ MSym(o, MThe(MSymsOf(o, n))).sect \in MSecIdx(o)
MHome(a, o, n) ==
  IF a.decl[n].k = "sec" THEN MThe({i \in MSecIdx(o) : MSec(o, i).nm = MachSection(n) /\ MSec(o, i).gnm = SegOf(a, n)})
  ELSE MSym(o, MThe(MSymsOf(o, n))).sect
(* offset of a definition inside its section *)
MStart(a, o, n) ==
  IF a.decl[n].k = "sec" THEN U0
  ELSE LET s == MSym(o, MThe(MSymsOf(o, n))) IN Sub(s.val, MSec(o, s.sect).addr)
MPlaced(a, o, n) ==
  /\ MHasHome(a, o, n)
  /\ a.decl[n].k = "sec" \/ Le(MSec(o, MHome(a, o, n)).addr, MSym(o, MThe(MSymsOf(o, n))).val)

(* ---- structural well-formedness ---- *)
MRanges(o) ==
  SetToSeq({<<MSec(o, i).off, MSec(o, i).off + MSec(o, i).isz, i>> :
              i \in {j \in MSecIdx(o) : MSec(o, j).sty # S_ZEROFILL /\ MSec(o, j).isz > 0}}
     \cup {<<MSec(o, i).reloff, MSec(o, i).reloff + 8 * MSec(o, i).nreloc, 1000 + i>> :
              i \in {j \in MSecIdx(o) : MSec(o, j).nreloc > 0}}
     \cup {<<0, o.hdr.hsz + o.hdr.sizeofcmds, -1>>}
     \cup (IF o.symtab.nsyms > 0 THEN {<<o.symtab.symoff, o.symtab.symoff + o.symtab.nsyms * (IF o.hdr.cls = 64 THEN 16 ELSE 12), -2>>} ELSE {})
     \cup {<<o.symtab.stroff, o.symtab.stroff + o.symtab.strsize, -3>>})
MRangesOk(o) ==
  LET s == SortSeq(MRanges(o), LAMBDA x, y : x[1] < y[1])
  IN /\ \A i \in 1..(Len(s) - 1) : s[i][2] <= s[i + 1][1]
     /\ s[Len(s)][2] <= o.len
(* the sections occupy disjoint, aligned address ranges inside the segment *)
MAddrs(o) ==
  LET ss == SetToSeq({i \in MSecIdx(o) : MSec(o, i).size # U0})
      s == SortSeq(ss, LAMBDA i, j : Lt(MSec(o, i).addr, MSec(o, j).addr))
  IN \A i \in 1..(Len(s) - 1) : Le(Add(MSec(o, s[i]).addr, MSec(o, s[i]).size), MSec(o, s[i + 1]).addr)

MStructure(a, o) ==
  LET h == o.hdr
      c64 == h.cls = 64
      hsz == IF c64 THEN 32 ELSE 28
  IN
  MChk("hdr-type", h.ty = 1 /\ h.hsz = hsz)
  \cup MChk("commands", Len(o.cmds) = h.ncmds /\ h.ncmds = 2
        /\ {o.cmds[i].cmd : i \in 1..Len(o.cmds)} = {IF c64 THEN "SEG64" ELSE "SEG32", "SYMTAB"})
  \cup MChk("command-sizes", \A i \in 1..Len(o.cmds) :
        o.cmds[i].size = (IF o.cmds[i].cmd = "SYMTAB" THEN 24 ELSE IF c64 THEN 72 + 80 * MNSec(o) ELSE 56 + 68 * MNSec(o)))
  \cup MChk("sizeofcmds", Len(o.cmds) = 2 => h.sizeofcmds = o.cmds[1].size + o.cmds[2].size)
  \cup MChk("one-segment", Len(o.segs) = 1 /\ o.segs[1].nsects = MNSec(o))
  \cup MChk("file-ranges", MRangesOk(o))
  \cup MChk("section-bytes", \A i \in MSecIdx(o) : MSec(o, i).tok # "OOB")
  \cup MChk("string-ends", Len(o.strends) = 2 /\ o.strends[1] = 0 /\ o.strends[2] = 0)
  \cup MChk("symbol-names", \A i \in MSymIdx(o) : MSym(o, i).nmok /\ MSym(o, i).under)
  \cup MChk("symbol-count", o.symtab.nsyms = Len(o.syms))
  \cup MChk("symbol-kind", \A i \in MSymIdx(o) : LET s == MSym(o, i) IN
        \/ s.ty = "SECT" /\ s.sect \in MSecIdx(o)
        \/ s.ty = "UNDF" /\ s.sect = 0 /\ s.ext)
  \cup MChk("section-addresses", MAddrs(o))
  \cup MChk("section-aligned", \A i \in MSecIdx(o) : MSec(o, i).alx >= 0 /\ Aligned(MSec(o, i).addr, MSec(o, i).alx))
  \cup MChk("section-names", \A i, j \in MSecIdx(o) : (MSec(o, i).nm = MSec(o, j).nm /\ MSec(o, i).gnm = MSec(o, j).gnm) => i = j)
  \cup MChk("reloc-counts", \A i \in MSecIdx(o) : MSec(o, i).nreloc = Cardinality({k \in 1..Len(o.rels) : o.rels[k].sec = i}))
  \cup MChk("standard-sections", \A x \in {<<"__text", "__TEXT", S_REGULAR>>, <<"__data", "__DATA", S_REGULAR>>, <<"__cstring", "__TEXT", S_CSTRING>>, <<"__bss", "__DATA", S_ZEROFILL>>} :
        MOne({i \in MSecIdx(o) : MSec(o, i).nm = x[1] /\ MSec(o, i).gnm = x[2]}) /\ \A i \in MSecIdx(o) : (MSec(o, i).nm = x[1] /\ MSec(o, i).gnm = x[2]) => MSec(o, i).sty = x[3]
        /\ Range(MSec(o, i).at) \cap {"PURE", "SOME", "DEBUG"} = (IF x[1] = "__text" THEN {"PURE", "SOME"} ELSE {}))
  \cup MChk("reloc-symbols", \A k \in 1..Len(o.rels) : o.rels[k].ext = 1 /\ o.rels[k].sym \in MSymIdx(o))
  \cup (IF Len(o.segs) # 1 THEN {} ELSE
        LET g == o.segs[1] IN
        MChk("segment-file", \A i \in MSecIdx(o) : MSec(o, i).sty # S_ZEROFILL /\ MSec(o, i).isz > 0 =>
               MSec(o, i).off >= g.fileoff /\ MSec(o, i).off + MSec(o, i).isz <= g.fileoff + g.filesize)
        \cup MChk("segment-memory", \A i \in MSecIdx(o) :
               /\ Le(g.vmaddr, MSec(o, i).addr)
               /\ Le(Add(MSec(o, i).addr, MSec(o, i).size), Add(g.vmaddr, g.vmsize)))
        \cup MChk("segment-vm-covers-file", g.filesize >= 0 /\ Le(U(g.filesize), g.vmsize)))

(* ---- definitions ---- *)
SubTok(t, from, len) == IF from < 0 \/ len < 0 \/ from > 1000000000 \/ len > 1000000000 \/ 2 * (from + len) > Len(t) THEN "OOB" ELSE SubSeq(t, 2 * from + 1, 2 * (from + len))
MDef(a, o, n) ==
  LET d == a.decl[n]
      x == a.defd[n]
      S == MSymsOf(o, n)
  IN IF ~MOne(S) THEN {"one-symbol"} ELSE
     LET s == MSym(o, MThe(S)) IN
     MChk("kind", s.ty = "SECT")
     \cup MChk("external", s.ext = ~IsLocal(d) /\ ~s.pext)
     \cup MChk("weak", (s.desc = 128) = (d.scope = "W") /\ s.desc \in {0, 128})
     \cup (IF s.sect \notin MSecIdx(o) THEN {"defined"} ELSE
           LET t == MSec(o, s.sect) IN
           MChk("section", t.nm = StdName(a, n) /\ t.gnm = StdSeg(a, n) /\ t.sty = StdType(a, n))
           \cup MChk("code-attributes", IF d.k = "fn" THEN {"PURE", "SOME"} \subseteq At(t) ELSE {"PURE", "SOME"} \cap At(t) = {})
           \cup MChk("not-debug", "DEBUG" \notin At(t))
           \cup MChk("in-section", Le(t.addr, s.val) /\ Le(Add(s.val, SizeOf(x)), Add(t.addr, t.size)))
           \cup (IF x.zero THEN {} ELSE
                 MChk("bytes", /\ Le(t.addr, s.val) /\ IsSmall(Sub(s.val, t.addr))
                               /\ SubTok(t.tok, Nat32(Sub(s.val, t.addr)), Len(x.b) \div 2) = x.b)))
(* no two definitions share an address *)
MDisjoint(a, o, D) ==
  LET N == {n \in D : MOne(MSymsOf(o, n)) /\ SizeOf(a.defd[n]) # U0}
      val(n) == MSym(o, MThe(MSymsOf(o, n))).val
      s == SortSeq(SetToSeq({<<val(n), SizeOf(a.defd[n]), n>> : n \in N}), LAMBDA x, y : Lt(x[1], y[1]))
  IN \A i \in 1..(Len(s) - 1) : Le(Add(s[i][1], s[i][2]), s[i + 1][1])
MDefinitions(a, o) ==
  UNION {MDef(a, o, n) : n \in DefsOf(a)}
  \cup MChk("disjoint", MDisjoint(a, o, DefsOf(a)))
  \cup MChk("no-extra-symbols", Len(o.syms) = Cardinality(DefsOf(a)) + Cardinality(Imports(a)) + Cardinality(Custom(a)))
  \cup MChk("subsections-flag", o.hdr.flags = U(8192))

(* ---- imports ---- *)
MImportSymbols(a, o) ==
  LET und == {i \in MSymIdx(o) : MSym(o, i).ty = "UNDF"} IN
  UNION {MChk("one-undefined-symbol", MOne({i \in und : MSym(o, i).nm = n}) /\ MOne(MSymsOf(o, n))) : n \in Imports(a)}
  \cup MChk("no-other-undefined", \A i \in und : MSym(o, i).nm \in Imports(a))
  \cup MChk("undefined-external", \A i \in und : MSym(o, i).ext /\ ~MSym(o, i).pext /\ MSym(o, i).sect = 0 /\ MSym(o, i).val = U0 /\ MSym(o, i).desc = 0)

(* ---- zero-initialised data ---- *)
MZeroData(a, o) ==
  LET Z == {m \in DefsOf(a) : a.defd[m].zero} IN
  UNION {LET S == MSymsOf(o, n) IN
         IF ~MOne(S) \/ MSym(o, MThe(S)).sect \notin MSecIdx(o) THEN {"one-symbol"} ELSE
         LET s == MSym(o, MThe(S))
             t == MSec(o, s.sect) IN
         MChk("zerofill", t.sty = S_ZEROFILL)
         \cup MChk("in-section", Le(t.addr, s.val) /\ Le(Add(s.val, a.defd[n].z), Add(t.addr, t.size)))
         : n \in Z}
  \cup MChk("disjoint", MDisjoint(a, o, Z))
  (* nothing else lives in their addresses *)
  \cup MChk("own-addresses", \A n \in Z : (a.defd[n].z # U0 /\ MOne(MSymsOf(o, n))) =>
         LET s == MSym(o, MThe(MSymsOf(o, n)))
             end == Add(s.val, a.defd[n].z) IN
         \A i \in MSecIdx(o) : i = s.sect \/ MSec(o, i).size = U0 \/ Le(end, MSec(o, i).addr) \/ Le(Add(MSec(o, i).addr, MSec(o, i).size), s.val))
  \cup MChk("zerofill-only-zero", \A i \in MSecIdx(o) : MSec(o, i).sty = S_ZEROFILL =>
         \A n \in DefsOf(a) \ Z : MOne(MSymsOf(o, n)) => MSym(o, MThe(MSymsOf(o, n))).sect # i)
  \cup MChk("no-file-bytes", Len(o.segs) = 1 =>
         o.segs[1].filesize <= FoldFunction(+, 0, [i \in MSecIdx(o) |-> IF MSec(o, i).sty = S_ZEROFILL \/ MSec(o, i).isz < 0 THEN 0 ELSE MSec(o, i).isz]))

(* ---- custom sections and their symbols ---- *)
MCustomSections(a, o) ==
  UNION {IF ~MHasHome(a, o, n) THEN {"one-section"} ELSE
         LET t == MSec(o, MHome(a, o, n)) IN
         MChk("type", t.sty = S_REGULAR)
         \cup MChk("bytes", t.tok = a.defd[n].b /\ t.size = SizeOf(a.defd[n]))
         \cup MChk("debug-attribute", ("DEBUG" \in At(t)) = (a.decl[n].sk = "Debug"))
         : n \in SecsOf(a)}
  \cup UNION {LET S == MSymsOf(o, CName(a, c)) IN
         IF ~MOne(S) THEN {"one-custom-symbol"} ELSE
         LET s == MSym(o, MThe(S)) IN
         MChk("custom-symbol-section", s.ty = "SECT" /\ s.desc = 0 /\ ~s.pext /\ MHasHome(a, o, c[1]) /\ s.sect = MHome(a, o, c[1]))
         \cup MChk("custom-symbol-offset", MHasHome(a, o, c[1]) =>
                s.val = (LET v == Add(MSec(o, MHome(a, o, c[1])).addr, CVal(a, c)) IN IF Is32(a) THEN <<0, v[2] % 256, v[3]>> ELSE v))
         : c \in Custom(a)}
  \cup MChk("no-extra-sections", MNSec(o) = 4 + Cardinality(SecsOf(a)))

(* ---- alignment ---- *)
MachDefaultAlign(a, n) ==
  IF a.decl[n].k = "fn" THEN 4
  ELSE IF a.decl[n].k = "data" /\ StdName(a, n) = "__data" THEN 3 ELSE 0
MAlignments(a, o) ==
  UNION {IF ~MPlaced(a, o, n) THEN {"no-symbol"} ELSE
         LET t == MSec(o, MHome(a, o, n))
             v == Add(t.addr, MStart(a, o, n))
             k == a.decl[n].al IN
         MChk("declared-alignment", k >= 0 => Aligned(v, k))
         \cup MChk("default-alignment", k < 0 => Aligned(v, MachDefaultAlign(a, n)))
         \cup MChk("section-alignment", t.alx >= (IF k >= 0 THEN k ELSE MachDefaultAlign(a, n)))
         \cup MChk("section-start", Aligned(t.addr, t.alx))
         : n \in Defined(a)}

(* ---- relocations ---- *)
M_UNSIGNED == 0
M_SIGNED == 1
M_BRANCH == 2
M_GOT_LOAD == 3
(* [ty, pcrel, len] *)
MRel(t, p, l) == <<t, p, l>>
MRelKind(a, l) ==
  CASE l.rel.t = "raw" -> IF l.rel.r = U0 THEN MRel(M_UNSIGNED, 0, 3) ELSE MRel(Nat32(l.rel.r), 1, 2)
    [] l.rel.t = "dbg" -> MRel(M_UNSIGNED, 0, IF l.rel.sz = 8 THEN 3 ELSE 2)
    [] l.rel.t = "auto" ->
         IF From(a, l).k = "data" THEN MRel(M_UNSIGNED, 0, 3)
         ELSE CASE To(a, l).k \in {"fn", "ifn"} -> MRel(M_BRANCH, 1, 2)
                [] To(a, l).k = "data" -> MRel(M_SIGNED, 1, 2)
                [] To(a, l).k = "idata" -> MRel(M_GOT_LOAD, 1, 2)
(* Debug links to sections carry no entry in Mach-O: the bytes are final already *)
Entry(a, l) == ~(l.rel.t = "dbg" /\ To(a, l).k = "sec")
MEntries(a) == {i \in 1..Len(a.links) : Entry(a, a.links[i])}
(* section and start of each definition, evaluated once per object *)
MHomeMap(a, o) == TLCEval([n \in Defined(a) |-> IF MPlaced(a, o, n) THEN <<MHome(a, o, n), MStart(a, o, n)>> ELSE <<-1, U0>>])
MOffset(hm, l) == LET v == Add(hm[l.from][2], l.at) IN <<0, v[2] % 256, v[3]>>
MRealises(a, o, hm, r, l) ==
  /\ hm[l.from][1] # -1 /\ r.sec = hm[l.from][1]
  /\ r.off = MOffset(hm, l)
  /\ r.sym \in MSymIdx(o) /\ MSym(o, r.sym).nm = l.to
  /\ (IsX86_64(a) => <<r.ty, r.pcrel, r.len>> = MRelKind(a, l))
  /\ (l.rel.t = "raw" => r.ty = MRelKind(a, l)[1])         \* the type asked for; what it means is the machine's
MSameEffect(a, l, m) == /\ l.at = m.at /\ l.from = m.from /\ l.to = m.to
                        /\ (IsX86_64(a) => MRelKind(a, l) = MRelKind(a, m))
                        /\ (~IsX86_64(a) /\ l.rel.t = "raw" => m.rel.t = "raw" /\ MRelKind(a, l)[1] = MRelKind(a, m)[1])
MRelocations(a, o) ==
  LET hm == MHomeMap(a, o)
      es == MEntries(a) IN
  MChk("entry-count", Len(o.rels) = Cardinality(es))
  \cup MChk("link-realised", \A i \in es :
        LET l == a.links[i] IN
        Cardinality({k \in 1..Len(o.rels) : MRealises(a, o, hm, o.rels[k], l)})
          >= Cardinality({j \in es : MSameEffect(a, l, a.links[j])}))
  \cup MChk("entry-explained", \A k \in 1..Len(o.rels) : \E i \in es : MRealises(a, o, hm, o.rels[k], a.links[i]))

(* ---- target identity ---- *)
MIdentity(a, o) ==
  LET t == Target(a) IN
  MChk("class", o.hdr.cls = t.bits) \cup MChk("byte-order", o.hdr.dat = t.dat) \cup MChk("cpu", o.hdr.cpu = t.cpu)
  (* the byte order and word size hold throughout, not only in the header *)
  \cup MChk("commands-in-byte-order", {o.cmds[i].cmd : i \in 1..Len(o.cmds)} = {IF t.bits = 64 THEN "SEG64" ELSE "SEG32", "SYMTAB"})
  \cup MChk("symbols-in-byte-order", {MSym(o, i).nm : i \in MSymIdx(o)} = DefsOf(a) \cup Imports(a) \cup {CName(a, c) : c \in Custom(a)})
  \cup MChk("sections-in-byte-order", \A n \in DefsOf(a) : MOne(MSymsOf(o, n)) =>
         LET s == MSym(o, MThe(MSymsOf(o, n))) IN s.sect \in MSecIdx(o) /\ Le(Add(s.val, SizeOf(a.defd[n])), Add(MSec(o, s.sect).addr, MSec(o, s.sect).size)))
  \cup MChk("relocations-in-byte-order", t.dat = "L" => Len(o.rels) = Cardinality(MEntries(a)) /\ \A k \in 1..Len(o.rels) : o.rels[k].sym \in MSymIdx(o))
=============================================================================
