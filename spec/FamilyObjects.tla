---------------------------- MODULE FamilyObjects ----------------------------
(* The artifact a few families and groups of links describe, and the views   *)
(* BulkProps and BulkMach take of an object of it.  The harness computes the  *)
(* same views of very large objects of the real crate; here they are taken of *)
(* objects the models of the back ends build, so that the clauses can be      *)
(* model-checked (MCNumbering, MCLarge).                                      *)
EXTENDS BulkProps, BulkMach, ElfBuild, MachBuild, Calls

MemberName(fs, f, i) == fs[f].pre \o ToString(i)
DefineMember(a, fs, f, i) ==
  LET n == MemberName(fs, f, i) r == Declare(a, n, fs[f].d).a IN
  IF IsImport(fs[f].d) THEN r ELSE Define(r, n, [zero |-> fs[f].zero, b |-> FContent(fs[f], i), z |-> fs[f].z,
                                                 syms |-> IF fs[f].sy = "" THEN <<>> ELSE <<<<fs[f].sy \o ToString(i), fs[f].sval>>>>]).a
LinkMember(a, fs, g, m) ==
  LET p == Places(g, m) IN Link(a, MemberName(fs, g.ff, p[2]), MemberName(fs, g.tf, p[5]), U(p[3]), g.rel).a
FamilyArtifact(arch, fmt, fs, gs) ==
  LET a0 == NewArtifact("big.o", arch, fmt, FALSE)
      a1 == FoldLeft(LAMBDA a, f : FoldLeft(LAMBDA x, i : DefineMember(x, fs, f, i - 1), a, [i \in 1..fs[f].n |-> i]), a0, [f \in 1..Len(fs) |-> f])
  IN FoldLeft(LAMBDA a, k : FoldLeft(LAMBDA x, m : LinkMember(x, fs, gs[k], m - 1), a, [m \in 1..gs[k].n |-> m]), a1, [k \in 1..Len(gs) |-> k])

(* ---- names as <<family, number>> ---- *)
FMembers(fs) == UNION {{<<f, i>> : i \in 0..(fs[f].n - 1)} : f \in 1..Len(fs)}
Among(M) == IF M = {} THEN <<0, -1>> ELSE CHOOSE m \in M : TRUE
SecId(fs, nm) == Among({m \in FMembers(fs) : ~IsImport(fs[m[1]].d) /\ nm = SecPrefix(fs[m[1]]) \o MemberName(fs, m[1], m[2])})
SymId(fs, nm) == Among({m \in FMembers(fs) : HasSym(fs[m[1]]) /\ nm = (IF fs[m[1]].d.k = "sec" THEN fs[m[1]].sy \o ToString(m[2]) ELSE MemberName(fs, m[1], m[2]))})

(* ---- the view of an ELF object ---- *)
Letters(fl) == (IF "W" \in Range(fl) THEN "W" ELSE "") \o (IF "A" \in Range(fl) THEN "A" ELSE "") \o (IF "X" \in Range(fl) THEN "X" ELSE "")
               \o (IF "M" \in Range(fl) THEN "M" ELSE "") \o (IF "S" \in Range(fl) THEN "S" ELSE "")
Small(x) == IF IsSmall(x) THEN Nat32(x) ELSE -1
ElfView(fs, o) ==
  LET st == o.symtab
      X == {i \in 1..Len(o.secs) : o.secs[i].ty = "XINDEX"}
      x == CHOOSE i \in X : TRUE
      issec(i) == i >= 0 /\ i < Len(o.secs)
      stored == {i \in 1..Len(o.secs) : o.secs[i].ty \notin {"NULL", "NOBITS"} /\ o.secs[i].isz # 0}
      at(k) == CASE k = -1 -> 0 [] k = -2 -> o.hdr.shoff [] OTHER -> o.secs[k + 1].off
      denotes(k) == IF k < 0 \/ k >= Len(o.syms) THEN <<0, -1>>
                    ELSE LET s == o.syms[k + 1] IN
                         IF s.ty = "SECTION" THEN (IF issec(s.sx) THEN SecId(fs, o.secs[s.sx + 1].nm) ELSE <<0, -1>>) ELSE SymId(fs, s.nm)
      same(p, q) == p.tgt = q.tgt /\ p.off = q.off /\ p.ty = q.ty /\ p.add = q.add /\ denotes(p.sym) = denotes(q.sym)
  IN [ok |-> o.ok, len |-> o.len, hdr |-> o.hdr,
      ord |-> SetToSortSeq({-1, -2} \cup {i - 1 : i \in stored}, LAMBDA p, q : at(p) < at(q) \/ (at(p) = at(q) /\ p < q)),
      symtab |-> st, info |-> IF issec(st) THEN o.secs[st + 1].info ELSE -1, strlink |-> IF issec(st) THEN o.secs[st + 1].link ELSE -1,
      secs |-> [i \in 1..Len(o.secs) |-> LET s == o.secs[i] id == SecId(fs, IF s.ty = "RELA" /\ Len(s.nm) > 5 THEN SubSeq(s.nm, 6, Len(s.nm)) ELSE s.nm) IN
                <<id[1], id[2], s.ty, s.nmok, s.size, TRUE, IF s.ty = "PROGBITS" THEN FirstBytes(s.tok) ELSE IF s.ty = "STRTAB" THEN s.tok ELSE "", s.link, s.info,
                  Letters(s.fl), s.alx, s.off, s.isz, s.ent, s.addr = U0, IF id[1] > 0 THEN "" ELSE s.nm>>],
      syms |-> [i \in 1..Len(o.syms) |-> LET s == o.syms[i] id == SymId(fs, s.nm) IN
                <<id[1], id[2], s.bind, s.ty, s.nmok, s.sx, s.xi, s.val, s.size, s.vis, IF id[1] > 0 THEN "" ELSE s.nm>>],
      rels |-> [k \in 1..Len(o.rels) |-> LET r == o.rels[k] IN
                <<r.sec, r.tgt, Small(r.off), r.sym, r.ty, r.add, Cardinality({j \in 1..(k - 1) : same(o.rels[j], r)}), Cardinality({j \in 1..(k - 1) : o.rels[j].sec = r.sec})>>],
      xtab |-> IF X = {} THEN [i |-> -1, link |-> -1, isz |-> -1, ent |-> -1, spare |-> 0]
               ELSE [i |-> x - 1, link |-> o.secs[x].link, isz |-> o.secs[x].isz, ent |-> o.secs[x].ent, spare |-> o.xspare],
      s0 |-> [isz |-> o.secs[1].isz, link |-> o.secs[1].link]]

(* ---- the view of a Mach-O object ---- *)
MachView(fs, o) ==
  LET nsec == Len(o.secs)
      nsym == Len(o.syms)
      id == [k \in 1..nsym |-> SymId(fs, o.syms[k].nm)]
      insec(k) == o.syms[k].sect \in 1..nsec
      plain == {k \in 1..nsym : insec(k) /\ id[k][1] > 0 /\ fs[id[k][1]].sy = ""}
      head(k) == IF ~insec(k) THEN "" ELSE
                 LET t == o.secs[o.syms[k].sect] at == Sub(o.syms[k].val, t.addr) IN
                 IF ~Le(t.addr, o.syms[k].val) \/ ~IsSmall(at) \/ 2 * Nat32(at) > Len(t.tok) THEN "" ELSE FirstBytes(SubSeq(t.tok, 2 * Nat32(at) + 1, Len(t.tok)))
      inside(r) == LET v == Add(o.secs[r.sec].addr, r.off)
                       B == {k \in plain : o.syms[k].sect = r.sec /\ Le(o.syms[k].val, v)}
                   IN IF B = {} THEN -1 ELSE (CHOOSE k \in B : \A j \in B : Lt(o.syms[j].val, o.syms[k].val) \/ (o.syms[j].val = o.syms[k].val /\ j <= k)) - 1
      who(n) == IF n \in 0..(nsym - 1) THEN id[n + 1] ELSE <<0, -1>>
      same(p, q) == p.sec = q.sec /\ p.off = q.off /\ p.ty = q.ty /\ p.pcrel = q.pcrel /\ p.len = q.len /\ who(p.sym) = who(q.sym)
  IN [o EXCEPT !.syms = [k \in 1..nsym |-> o.syms[k] @@ [f |-> id[k][1], i |-> id[k][2], head |-> head(k)]],
               !.rels = [j \in 1..Len(o.rels) |-> LET r == o.rels[j] IN
                          r @@ [inside |-> IF r.sec \in 1..nsec THEN inside(r) ELSE -1, dup |-> Cardinality({i \in 1..(j - 1) : same(o.rels[i], r)})]],
               !.secs = [j \in 1..nsec |-> IF Len(o.secs[j].tok) > 64 THEN [o.secs[j] EXCEPT !.tok = "-"] ELSE o.secs[j]]]
     @@ [ord |-> SetToSortSeq({k - 1 : k \in plain}, LAMBDA p, q : Lt(o.syms[p + 1].val, o.syms[q + 1].val) \/ (o.syms[p + 1].val = o.syms[q + 1].val /\ p < q))]
=============================================================================
