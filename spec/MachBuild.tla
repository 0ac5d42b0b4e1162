----------------------------- MODULE MachBuild -----------------------------
(* How the Mach-O back end turns an artifact into an object: a constructive   *)
(* model of the emitter (see ElfBuild).  `bug` names a planted design error,  *)
(* or is "none".                                                              *)
EXTENDS Emission

Part(a, P(_)) == SelectSeq(DefOrder(a), P)
CodeDefs(a) == Part(a, LAMBDA n : a.decl[n].k = "fn")
BssDefs(a) == Part(a, LAMBDA n : a.decl[n].k = "data" /\ a.defd[n].zero)
StrDefs(a) == Part(a, LAMBDA n : a.decl[n].k = "data" /\ ~a.defd[n].zero /\ a.decl[n].dt = "str")
DataDefs(a) == Part(a, LAMBDA n : a.decl[n].k = "data" /\ ~a.defd[n].zero /\ a.decl[n].dt # "str")
SecDefs(a) == Part(a, LAMBDA n : a.decl[n].k = "sec")

Al(a, n) == IF a.decl[n].al < 0 THEN 0 ELSE a.decl[n].al
MaxOf(x, y) == IF x > y THEN x ELSE y
(* round a 64-bit value up to a multiple of 2^k, for any k *)
RoundUp(x, k) ==
  IF k <= 24 THEN Round(x, k)
  ELSE LET r == IF k <= 48 THEN <<0, x[2] % (2^(k - 24)), x[3]>> ELSE <<x[1] % (2^(k - 48)), x[2], x[3]>>
           m == IF k < 48 THEN <<0, 2^(k - 24), 0>> ELSE <<2^(k - 48), 0, 0>>
       IN IF r = U0 THEN x ELSE Add(x, Sub(m, r))
RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN "" ELSE IF k % 2 = 1 THEN s \o Rep(s \o s, k \div 2) ELSE Rep(s \o s, k \div 2)

(* the emitter's state: sections so far, symbols so far, next address *)
MachInit == [secs |-> <<>>, syms |-> <<>>, addr |-> U0]
MSymbol(n, sect, val, rel, ext, weak) == [nm |-> n, sect |-> sect, val |-> val, rel |-> rel, ext |-> ext, weak |-> weak]

(* one of the four standard sections, holding ds in order, each aligned to at least 2^min *)
StdSection(a, bug, st, nm, gnm, sty, at, min, pad, ds) ==
  LET alx == FoldLeft(LAMBDA x, n : MaxOf(x, Al(a, n)), min, ds)
      start == RoundUp(st.addr, alx)
      idx == Len(st.secs) + 1
      next(i) == MaxOf(min, IF i < Len(ds) THEN Al(a, ds[i + 1]) ELSE 0)
      place(acc, i) ==
        LET n == ds[i]
            x == a.defd[n]
            size == IF x.zero /\ bug = "bss-size-zero" THEN U0 ELSE SizeOf(x)
            end == Add(acc.off, size)
            k == IF bug = "own-alignment" THEN MaxOf(min, Al(a, n)) ELSE next(i)
            padded == RoundUp(end, k)
        IN [off |-> padded,
            tok |-> IF x.zero THEN "" ELSE acc.tok \o x.b \o (IF padded = end THEN "" ELSE Rep(pad, Nat32(Sub(padded, end)))),
            syms |-> Append(acc.syms, MSymbol(n, idx, Add(start, acc.off), acc.off, a.decl[n].scope # "L", a.decl[n].scope = "W"))]
      r == FoldLeft(place, [off |-> U0, tok |-> "", syms |-> <<>>], [i \in 1..Len(ds) |-> i])
  IN [secs |-> Append(st.secs, [nm |-> nm, gnm |-> gnm, sty |-> sty, at |-> at, alx |-> alx, addr |-> start, size |-> r.off, tok |-> r.tok]),
      syms |-> st.syms \o r.syms, addr |-> Add(start, r.off)]
CustomSection(a, st, n) ==
  LET x == a.defd[n]
      k == a.decl[n].sk
      start == RoundUp(st.addr, Al(a, n))
      idx == Len(st.secs) + 1
  IN [secs |-> Append(st.secs, [nm |-> MachSection(n), gnm |-> CASE k = "Data" -> "__DATA" [] k = "Debug" -> "__DWARF" [] k = "Text" -> "__TEXT",
                                sty |-> 0, at |-> IF k = "Debug" THEN <<"DEBUG">> ELSE <<>>, alx |-> Al(a, n), addr |-> start, size |-> SizeOf(x), tok |-> x.b]),
      syms |-> st.syms \o [i \in 1..Len(x.syms) |-> MSymbol(x.syms[i][1], idx, Add(start, x.syms[i][2]), x.syms[i][2], TRUE, FALSE)],
      addr |-> Add(start, SizeOf(x))]
MachCollect(a, bug) ==
  LET s1 == StdSection(a, bug, MachInit, "__text", "__TEXT", 0, <<"PURE", "SOME">>, 4, "cc", CodeDefs(a))
      s2 == StdSection(a, bug, s1, "__data", "__DATA", 0, <<>>, 3, "aa", DataDefs(a))
      s3 == StdSection(a, bug, s2, "__cstring", "__TEXT", 2, <<>>, 0, "aa", StrDefs(a))
      s4 == StdSection(a, bug, s3, "__bss", "__DATA", 1, <<>>, 0, "", BssDefs(a))
  IN FoldLeft(LAMBDA st, n : CustomSection(a, st, n), s4, SecDefs(a))

(* the entry of a link, or nothing *)
MKind(a, l) ==
  CASE l.rel.t = "raw" -> IF l.rel.r = U0 THEN <<0, 0, 3>> ELSE <<Nat32(l.rel.r), 1, 2>>
    [] l.rel.t = "dbg" -> <<0, 0, IF l.rel.sz = 8 THEN 3 ELSE 2>>
    [] OTHER -> IF a.decl[l.from].k = "data" THEN <<0, 0, 3>>
                ELSE CASE a.decl[l.to].k \in {"fn", "ifn"} -> <<2, 1, 2>>
                       [] a.decl[l.to].k = "data" -> <<1, 1, 2>>
                       [] a.decl[l.to].k = "idata" -> <<3, 1, 2>>
Low32(x) == <<0, x[2] % 256, x[3]>>

BuildMach(a, bug) ==
  LET st == MachCollect(a, bug)
      is32 == Is32(a)
      syms == st.syms \o [i \in 1..Len(a.imps) |-> MSymbol(a.imps[i], 0, U0, U0, TRUE, FALSE)]
      nsec == Len(st.secs)
      hsz == IF is32 THEN 28 ELSE 32
      segsz == IF is32 THEN 56 + 68 * nsec ELSE 72 + 80 * nsec
      cmds == segsz + 24
      first == hsz + cmds
      fsize(i) == IF st.secs[i].sty = 1 THEN 0 ELSE Nat32(st.secs[i].size)
      fileSize == FoldLeft(LAMBDA x, i : x + fsize(i), 0, [i \in 1..nsec |-> i])
      symoff == first + fileSize
      nsz == IF is32 THEN 12 ELSE 16
      stroff == symoff + nsz * Len(syms)
      strx(i) == FoldLeft(LAMBDA x, s : x + RawLen(s.nm) + 2, 1, SubSeq(syms, 1, i - 1))
      strsize == strx(Len(syms) + 1)
      relstart == stroff + strsize
      idx(n) == (CHOOSE i \in 1..Len(syms) : syms[i].nm = n) - 1
      home(n) == IF a.decl[n].k = "sec" THEN 4 + (CHOOSE i \in 1..Len(SecDefs(a)) : SecDefs(a)[i] = n) ELSE syms[idx(n) + 1].sect
      base(n) == IF a.decl[n].k = "sec" THEN U0 ELSE IF bug = "reloc-base" THEN syms[idx(n) + 1].val ELSE syms[idx(n) + 1].rel
      kept == SelectSeq(a.links, LAMBDA l : ~(l.rel.t = "dbg" /\ a.decl[l.to].k = "sec"))
      entry(l) == LET k == MKind(a, l) IN
        [sec |-> home(l.from), off |-> Low32(Add(base(l.from), l.at)), sym |-> idx(l.to), ext |-> 1, ty |-> k[1], pcrel |-> k[2], len |-> k[3]]
      all == [i \in 1..Len(kept) |-> entry(kept[i])]
      of(s) == SelectSeq(all, LAMBDA r : r.sec = s)
      rels == FoldLeft(LAMBDA x, s : x \o of(s), <<>>, [s \in 1..nsec |-> s])
      before(i) == Cardinality({k \in 1..Len(all) : all[k].sec < i})
      val(v) == IF is32 THEN Low32(v) ELSE v
      sec(i) == LET s == st.secs[i] IN
        [nm |-> s.nm, gnm |-> s.gnm, addr |-> val(s.addr), size |-> val(s.size), isz |-> IF IsSmall(s.size) THEN Nat32(s.size) ELSE -1,
         off |-> first + FoldLeft(LAMBDA x, j : x + fsize(j), 0, [j \in 1..(i - 1) |-> j]),
         alx |-> s.alx, reloff |-> IF of(i) = <<>> THEN 0 ELSE relstart + 8 * before(i), nreloc |-> Len(of(i)),
         sty |-> s.sty, at |-> s.at, tok |-> s.tok]
      nlist(i) == LET s == syms[i] IN
        [nm |-> s.nm, under |-> TRUE, nmok |-> TRUE, ty |-> IF s.sect = 0 THEN "UNDF" ELSE "SECT",
         ext |-> s.ext /\ ~(bug = "weak-not-external" /\ s.weak), pext |-> FALSE,
         sect |-> s.sect, desc |-> IF s.weak THEN 128 ELSE 0, val |-> val(s.val), strx |-> strx(i)]
  IN [ok |-> TRUE, fmt |-> "macho", len |-> relstart + 8 * Len(rels) + 1,
      hdr |-> [cls |-> Target(a).bits, dat |-> Target(a).dat, cpu |-> Target(a).cpu, sub |-> U(3), ty |-> 1, ncmds |-> 2,
               sizeofcmds |-> cmds, flags |-> U(8192), hsz |-> hsz],
      cmds |-> <<[cmd |-> IF is32 THEN "SEG32" ELSE "SEG64", size |-> segsz, off |-> hsz], [cmd |-> "SYMTAB", size |-> 24, off |-> hsz + segsz]>>,
      segs |-> <<[nm |-> "", vmaddr |-> U0, vmsize |-> val(st.addr), fileoff |-> first, filesize |-> fileSize, maxp |-> 7, initp |-> 7, nsects |-> nsec, fl |-> 0]>>,
      secs |-> [i \in 1..nsec |-> sec(i)],
      symtab |-> [symoff |-> symoff, nsyms |-> Len(syms), stroff |-> stroff, strsize |-> strsize],
      syms |-> [i \in 1..Len(syms) |-> nlist(i)],
      rels |-> rels, strends |-> <<0, 0>>]
=============================================================================
