------------------------------ MODULE ElfBuild ------------------------------
(* How the ELF back end turns an artifact into an object: a constructive      *)
(* model of the emitter, from which TLC computes complete objects of exactly  *)
(* the shape the decoder of the harness produces.  It is the design whose     *)
(* properties MCObjects checks, and it is compared with the real emitter on   *)
(* every object driven (agreement is reported, never demanded: positions and  *)
(* order of table entries are the emitter's business).                        *)
(*                                                                            *)
(* `lo` is the first section index a 16-bit field cannot hold (65280 in the   *)
(* format; small in MCNumbering, where TLC explores the boundary).            *)
(* `bug` names a planted design error, or is "none".                          *)
EXTENDS Emission

LO_RESERVE == 65280
XIndex == -99          \* the reserved value that refers to the index table

FlagSeq(S) == SelectSeq(<<"W", "A", "X", "M", "S", "I">>, LAMBDA x : x \in S)
AlignUp(x, k) == ((x + k - 1) \div k) * k

(* the emitter's state while it takes definitions, imports and links *)
ElfInit(a) ==
  [strs |-> <<>>, soff |-> <<>>, slen |-> 1,       \* string table
   bits |-> IF Is32(a) THEN 52 ELSE 64,            \* file position behind the contents so far
   secs |-> <<>>,                                  \* user sections, in order
   syms |-> <<>>, nloc |-> 0,                      \* named symbols, in order
   rels |-> <<>>]                                  \* <<section position, entries>>, in order of first link

AddStr(st, s) ==
  IF s \in DOMAIN st.soff THEN st
  ELSE [st EXCEPT !.strs = Append(@, s), !.soff = @ @@ (s :> st.slen), !.slen = @ + RawLen(s) + 1]
AddStrs(st, ss) == FoldLeft(AddStr, st, ss)
ElfStart(a) == AddStrs(ElfInit(a), <<".strtab", ".symtab", a.name>>)

SecFlags(a, n) ==
  LET d == a.decl[n] x == a.defd[n]
      str == d.dt = "str" \/ (d.k = "sec" /\ n \in {".debug_str", ".debug_line_str"})
  IN CASE d.k = "fn" -> {"A", "X"}
       [] x.zero -> {"A", "W"}
       [] d.k = "data" -> {"A"} \cup (IF d.w THEN {"W"} ELSE {}) \cup (IF str THEN {"M", "S"} ELSE {})
       [] d.k = "sec" -> IF str THEN {"M", "S"} ELSE {}
SecAlign(a, n) ==
  LET d == a.decl[n] IN
  IF d.al >= 0 THEN d.al ELSE IF d.k = "fn" THEN 4 ELSE IF d.k = "data" /\ d.w THEN 3 ELSE 0

Symbol(nm, bind, ty, vis, sh, val, size) ==
  [nm |-> nm, bind |-> bind, ty |-> ty, vis |-> vis, sh |-> sh, val |-> val, size |-> size]

AddDefinition(a, bug, st0, n) ==
  LET d == a.decl[n]
      x == a.defd[n]
      sn == SectionName(a, n)
      st == AddStr(st0, sn)
      sh == Len(st.secs) + 3
      size == SizeOf(x)
      sec == [nm |-> sn, ty |-> IF x.zero THEN "NOBITS" ELSE "PROGBITS", fl |-> FlagSeq(SecFlags(a, n)),
              off |-> st.bits, size |-> size, alx |-> SecAlign(a, n), tok |-> x.b]
      st1 == [st EXCEPT !.secs = Append(@, sec),
                        !.bits = @ + (IF x.zero THEN 0 ELSE Nat32(size))]
  IN IF d.k = "sec"
     THEN FoldLeft(LAMBDA s, c : [AddStr(s, c[1]) EXCEPT !.syms = Append(@, Symbol(c[1], "L", "NOTYPE", "D", sh, c[2], U0)),
                                                         !.nloc = @ + (IF bug = "custom-not-counted" THEN 0 ELSE 1)],
                   st1, x.syms)
     ELSE [AddStr(st1, n) EXCEPT
             !.syms = Append(@, Symbol(n, d.scope, IF d.k = "fn" THEN "FUNC" ELSE "OBJECT", d.vis, sh, U0,
                                       IF x.zero /\ bug = "bss-size-zero" THEN U0 ELSE size)),
             !.nloc = @ + (IF d.scope = "L" \/ (bug = "weak-counted" /\ d.scope = "W") THEN 1 ELSE 0)]

AddImport(st, n) == [AddStr(st, n) EXCEPT !.syms = Append(@, Symbol(n, "G", "NOTYPE", "D", 0, U0, U0))]

PosOf(s, P(_)) == CHOOSE i \in 1..Len(s) : P(s[i])
(* position of the section that holds n, of the symbol named n *)
SecPos(a, st, n) == PosOf(st.secs, LAMBDA s : s.nm = SectionName(a, n))
SymPos(st, n) == PosOf(st.syms, LAMBDA s : s.nm = n)

AutoType(a, l) ==
  IF a.decl[l.from].k = "data" THEN IF Is32(a) THEN 10 ELSE 1
  ELSE CASE a.decl[l.to].k \in {"fn", "ifn"} -> 4
         [] a.decl[l.to].k = "data" -> 2
         [] a.decl[l.to].k = "idata" -> 9
AddLink(a, bug, st0, l) ==
  LET p == SecPos(a, st0, l.from)
      st == AddStr(st0, ".rela" \o st0.secs[p].nm)
      ty == CASE l.rel.t = "raw" -> l.rel.r [] l.rel.t = "dbg" -> U(IF l.rel.sz = 8 THEN 1 ELSE 10) [] OTHER -> U(AutoType(a, l))
      add == IF l.rel.t = "auto" THEN (IF a.decl[l.from].k = "fn" THEN Minus4 ELSE U0) ELSE Sext32(l.rel.add)
      sym == IF IsImport(a.decl[l.to]) \/ (a.decl[l.to].scope = "W" /\ bug # "weak-by-section") THEN 2 + Len(st.secs) + SymPos(st, l.to) - 1
             ELSE 2 + SecPos(a, st, l.to) - 1 + (IF bug = "symbol-off-by-one" /\ l.from = l.to THEN 1 ELSE 0)
      r == [off |-> l.at, sym |-> sym, ty |-> ty, add |-> add]
  IN IF \E i \in 1..Len(st.rels) : st.rels[i][1] = p
     THEN LET i == PosOf(st.rels, LAMBDA e : e[1] = p) IN
          IF bug = "repeat-dropped" /\ r \in Range(st.rels[i][2]) THEN st
          ELSE [st EXCEPT !.rels[i] = <<p, Append(@[2], r)>>]
     ELSE [st EXCEPT !.rels = Append(@, <<p, <<r>>>>)]

ElfCollect(a, bug) ==
  LET s1 == FoldLeft(LAMBDA st, n : AddDefinition(a, bug, st, n), ElfStart(a), DefOrder(a))
      s2 == FoldLeft(AddImport, s1, a.imps)
  IN FoldLeft(LAMBDA st, l : AddLink(a, bug, st, l), s2, a.links)

(* ---- layout ---- *)
BuildElf(a, lo, bug) ==
  LET st0 == ElfCollect(a, bug)
      w == IF Is32(a) THEN 4 ELSE 8
      nuser == Len(st0.secs)
      nrela == Len(st0.rels)
      nsec0 == 4 + nuser + nrela
      ext == IF bug = "boundary" THEN nsec0 > lo ELSE nsec0 >= lo      \* extended numbering
      nsec == nsec0 + (IF ext THEN 1 ELSE 0)
      st == AddStrs(st0, (IF ext THEN <<".symtab_shndx">> ELSE <<>>) \o <<".note.GNU-stack">>)
      nsym == 2 + nuser + Len(st.syms)
      syment == IF Is32(a) THEN 16 ELSE 24
      relent == IF Is32(a) THEN 12 ELSE 24
      nrel == FoldLeft(LAMBDA x, e : x + Len(e[2]), 0, st.rels)
      strOff == st.bits
      symOff == AlignUp(strOff + st.slen, w)
      xOff == AlignUp(symOff + nsym * syment, 4)
      relOff == AlignUp(IF ext THEN xOff + 4 * nsym ELSE symOff + nsym * syment, w)
      shOff == AlignUp(relOff + nrel * relent, w)
      S(nm, ty, fl, off, size, link, info, alx, ent, tok) ==
        [nm |-> nm, nmok |-> TRUE, ty |-> ty, fl |-> fl, addr |-> U0, off |-> off, size |-> size,
         isz |-> IF IsSmall(size) THEN Nat32(size) ELSE -1, link |-> link, info |-> info, alx |-> alx, ent |-> ent, tok |-> tok]
      null == S("", "NULL", <<>>, 0, IF ext THEN U(nsec) ELSE U0, 0, 0, -1, 0, "")
      strtab == S(".strtab", "STRTAB", <<>>, strOff, U(st.slen), 0, 0, 0, 0, "0000")
      symtab == S(".symtab", "SYMTAB", <<>>, symOff, U(nsym * syment), 1, 2 + nuser + st.nloc, 3, syment, "")
      user == [i \in 1..nuser |-> LET u == st.secs[i] IN S(u.nm, u.ty, u.fl, u.off, u.size, 0, 0, u.alx, 0, u.tok)]
      xsec == IF ext THEN <<S(".symtab_shndx", "XINDEX", <<>>, xOff, U(4 * nsym), 2, 0, 2, 4, "")>> ELSE <<>>
      before(i) == FoldLeft(LAMBDA x, e : x + Len(e[2]), 0, SubSeq(st.rels, 1, i - 1))
      rela == [i \in 1..nrela |-> S(".rela" \o st.secs[st.rels[i][1]].nm, "RELA", <<"I">>, relOff + relent * before(i),
                                    U(relent * Len(st.rels[i][2])), 2, st.rels[i][1] + 2, 3, relent, "")]
      note == S(".note.GNU-stack", "PROGBITS", <<>>, 0, U0, 0, 0, 0, 0, "")
      (* what ends up in the 16-bit field, and what the index table holds *)
      raw(sh) == IF sh >= lo THEN XIndex ELSE sh
      table(sh) == IF bug = "table-truncated" THEN sh % lo ELSE sh
      read(sh) == IF raw(sh) = XIndex THEN (IF ext THEN table(sh) ELSE -9) ELSE IF sh = 0 THEN -1 ELSE sh
      Y(nm, bind, ty, vis, sx, xi, val, size) ==
        [nm |-> nm, nmok |-> TRUE, bind |-> bind, ty |-> ty, vis |-> vis, sx |-> sx, xi |-> xi, val |-> val, size |-> size,
         strx |-> IF ty = "SECTION" \/ nm = "" THEN 0 ELSE st.soff[nm]]
      named == [i \in 1..Len(st.syms) |-> LET s == st.syms[i] IN Y(s.nm, s.bind, s.ty, s.vis, read(s.sh), raw(s.sh) = XIndex, s.val, s.size)]
      secsym == [i \in 1..nuser |-> Y("", "L", "SECTION", "D", read(i + 2), raw(i + 2) = XIndex, U0, U0)]
      file == [Y(a.name, "L", "FILE", "D", -2, FALSE, U0, U0) EXCEPT !.strx = st.soff[a.name]]
      xn == IF ext THEN 1 ELSE 0
      entries(i) == [k \in 1..Len(st.rels[i][2]) |-> LET r == st.rels[i][2][k] IN
                     [sec |-> 2 + nuser + xn + i, tgt |-> st.rels[i][1] + 2, off |-> r.off, sym |-> r.sym, ty |-> r.ty, add |-> r.add]]
  IN [ok |-> TRUE, fmt |-> "elf", len |-> shOff + nsec * (IF Is32(a) THEN 40 ELSE 64),
      hdr |-> [cls |-> Target(a).bits, dat |-> Target(a).dat, ver |-> 1, osabi |-> 0, ty |-> 1, mach |-> Target(a).em, ver2 |-> 1,
               entry |-> U0, phoff |-> U0, shoff |-> shOff, flags |-> U0, ehsize |-> IF Is32(a) THEN 52 ELSE 64,
               phentsize |-> IF Is32(a) THEN 32 ELSE 56, phnum |-> 0, shentsize |-> IF Is32(a) THEN 40 ELSE 64,
               rawnum |-> IF nsec >= lo THEN 0 ELSE nsec, rawstr |-> 1, nsec |-> nsec, shstr |-> 1],
      secs |-> <<null, strtab, symtab>> \o user \o xsec \o rela \o <<note>>,
      syms |-> <<Y("", "L", "NOTYPE", "D", -1, FALSE, U0, U0), file>> \o secsym \o named,
      rels |-> FoldLeft(LAMBDA x, i : x \o entries(i), <<>>, [i \in 1..nrela |-> i]),
      (* entries of symbols whose 16-bit field suffices *)
      xspare |-> IF ~ext \/ bug # "table-everywhere" THEN 0
                 ELSE 1 + Cardinality({i \in 1..nuser : i + 2 < lo}) + Cardinality({i \in 1..Len(st.syms) : st.syms[i].sh > 0 /\ st.syms[i].sh < lo}),
      symtab |-> 2]
=============================================================================
