---------------------------- MODULE BulkFamilies ----------------------------
(* Very large artifacts, described by families of alike names               *)
(* pre0 .. pre(n-1) and by groups of alike links, so that what an object     *)
(* must say about them can be judged in time linear in its size.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, U64, Decls, Targets

BChk(label, ok) == IF ok THEN {} ELSE {label}

(* ---- the artifact ---- *)
(* a family: [pre, n, d, zero, b, z, own, sy, sval]; with `own` each member's contents are b *)
(* followed by its number in four bytes; with `sy` each section holds the symbol sy<i>       *)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Byte(n) == Hex[((n \div 16) % 16) + 1] \o Hex[(n % 16) + 1]
Number(i) == Byte(i) \o Byte(i \div 256) \o Byte(i \div 65536) \o Byte(i \div 16777216)
FContent(f, i) == IF f.own THEN f.b \o Number(i) ELSE f.b
(* the views show the first 16 bytes of contents *)
FirstBytes(c) == IF Len(c) > 32 THEN SubSeq(c, 1, 32) ELSE c
Total(fs, Wanted(_)) == FoldLeft(LAMBDA acc, f : acc + (IF Wanted(f) THEN f.n ELSE 0), 0, fs)
IsDef(f) == ~IsImport(f.d)
HasSym(f) == f.d.k # "sec" \/ f.sy # ""
FSize(f) == IF f.zero THEN f.z ELSE U((Len(f.b) \div 2) + (IF f.own THEN 4 ELSE 0))
(* section flags as letters, in the order W A X M S *)
FFlags(f) == CASE f.d.k = "fn" -> "AX" [] f.zero -> "WA"
               [] f.d.k = "data" -> (IF f.d.w THEN "WA" ELSE "A") \o (IF f.d.dt = "str" THEN "MS" ELSE "")
               [] f.d.k = "sec" -> IF f.d.dt = "str" THEN "MS" ELSE ""
FAlign(f) == IF f.d.al >= 0 THEN f.d.al ELSE IF f.d.k = "fn" THEN 4 ELSE IF f.d.k = "data" /\ f.d.w THEN 3 ELSE 0

(* ---- links ---- *)
(* a group: [ff, fi, fs, tf, ti, ts, at, step, n, rel]; its member m goes from member fi+m*fs of *)
(* family ff to member ti+m*ts of family tf, at at+m*step                                        *)
Places(g, m) == <<g.ff, g.fi + m * g.fs, g.at + m * g.step, g.tf, g.ti + m * g.ts>>
LinkTotal(gs) == FoldLeft(LAMBDA acc, g : acc + g.n, 0, gs)
(* the entries O are those of the links: as many, and for each link one that says what its entry must. *)
(* The last component of an entry tells apart those that say the same (single links: groups of more    *)
(* never repeat one).                                                                                  *)
RealisedBy(gs, Means(_), O) ==
  /\ Cardinality(O) = LinkTotal(gs)
  /\ \A k \in 1..Len(gs) :
       IF gs[k].n = 1 THEN LET x == Places(gs[k], 0) \o Means(gs[k]) IN
                           Append(x, Cardinality({j \in 1..(k - 1) : gs[j].n = 1 /\ Places(gs[j], 0) \o Means(gs[j]) = x})) \in O
       ELSE LET y == Append(Means(gs[k]), 0) IN \A m \in 0..(gs[k].n - 1) : Places(gs[k], m) \o y \in O
=============================================================================
