------------------------------- MODULE MCLarge -------------------------------
(* The clauses for very large objects (BulkProps, BulkMach), checked on small *)
(* ones: every artifact of up to three families of two or three members, with *)
(* up to MaxLinks groups of links, is emitted by the models of both back ends.*)
(*   Holds   no clause is broken by what the models build (none is too strong)*)
(*   Agrees  whatever perturbation of the object the ordinary clauses notice, *)
(*           those for large objects notice as well (none is too weak), but   *)
(*           for what Beyond lists                                            *)
EXTENDS FamilyObjects, Props, Mutations, Json

CONSTANTS Arches, MaxLinks,
          Slice, Slices,       \* every Slices-th perturbation is looked at, from the Slice-th on; none if Slices is 0
          Bug
VARIABLES arch, fmt, fams, links, m
vars == <<arch, fmt, fams, links, m>>
Lo == 65280

Kd(d, zero, b, z, own, sy) == [d |-> d, zero |-> zero, b |-> b, z |-> z, own |-> own, sy |-> sy, sval |-> IF sy = "" THEN U0 ELSE U(1)]
Kinds == <<Kd([Fn0 EXCEPT !.scope = "G"], FALSE, "9090c3", U0, FALSE, ""),
           Kd([Fn0 EXCEPT !.vis = "H", !.al = 5], FALSE, "c3", U0, TRUE, ""),
           Kd([Data0 EXCEPT !.scope = "W", !.w = TRUE], FALSE, "0102", U0, TRUE, ""),
           Kd([Data0 EXCEPT !.scope = "G", !.al = 5], TRUE, "", U(12), FALSE, ""),
           Kd([Cstr0 EXCEPT !.al = 1], FALSE, "616200", U0, FALSE, ""),
           Kd(Sec0("Debug"), FALSE, "aabb", U0, TRUE, "y"),
           Kd(Ifn, FALSE, "", U0, FALSE, ""),
           Kd(Idata, FALSE, "", U0, FALSE, "")>>
Letter(i) == <<"a", "b", "c">>[i]
Fam(i, n, k) == [Kinds[k] EXCEPT !.sy = IF @ = "" THEN "" ELSE "y" \o Letter(i)] @@ [pre |-> Letter(i), n |-> n]
AllFams ==
  {<<Fam(1, 2, k)>> : k \in 1..8} \cup {<<Fam(1, 2, k), Fam(2, 2, j)>> : k \in 1..8, j \in 1..8}
  \cup {<<Fam(1, 2, k), Fam(2, 3, 4), Fam(3, 2, j)>> : k \in {1, 3, 5}, j \in {2, 6, 7}}
Rel(k) == CASE k = 1 -> AutoRel [] k = 2 -> [t |-> "raw", r |-> U(2), sz |-> 0, add |-> U0] [] k = 3 -> [t |-> "dbg", r |-> U0, sz |-> 8, add |-> U0]
Group(f, t, k, n) == [ff |-> f, fi |-> 0, fs |-> IF n = 1 THEN 0 ELSE 1, tf |-> t, ti |-> IF n = 1 THEN 1 ELSE 0, ts |-> IF n = 1 THEN 0 ELSE 1,
                      at |-> Len(links), step |-> 0, n |-> n, rel |-> Rel(k)]
Groups0 ==
  {Group(f, t, k, n) : f \in {x \in 1..Len(fams) : fams[x].d.k \in {"fn", "data"}}, t \in {x \in 1..Len(fams) : fams[x].d.k # "sec"}, k \in {1, 2}, n \in {1, 2}}
  \cup {Group(f, t, 3, n) : f \in {x \in 1..Len(fams) : fams[x].d.k = "sec"}, t \in {x \in 1..Len(fams) : fams[x].d.k # "sec"}, n \in {1, 2}}
Art == FamilyArtifact(arch, fmt, fams, links)
Object == IF fmt = "elf" THEN BuildElf(Art, Lo, Bug) ELSE BuildMach(Art, Bug)
Bulk(o) == IF fmt = "elf" THEN BulkFails(Lo, arch, "big.o", fams, links, ElfView(fams, o)) ELSE {x[2] : x \in MBulkFails(arch, fams, links, MachView(fams, o))}

Init == arch \in Arches /\ fmt \in {"elf", "macho"} /\ fams \in AllFams /\ links = <<>> /\ m = <<>>
AddLinks == m = <<>> /\ Len(links) < MaxLinks /\ \E g \in Groups0 : links' = Append(links, g) /\ UNCHANGED m
Change ==
  /\ Slices > 0 /\ m = <<>>
  /\ LET all == SetToSeq(Mutations(Object, fmt)) IN
     \E k \in 1..Len(all) : k % Slices = Slice /\ m' = all[k]
  /\ UNCHANGED links
Next == (AddLinks \/ Change) /\ UNCHANGED <<arch, fmt, fams>>
Spec == Init /\ [][Next]_vars

Accounted == (m = <<>> /\ Supported(Art, fmt)) => (Bulk(Object) = {} \/ ~PrintT(Bulk(Object)))
Holds == Accounted
Unnoticed == Accounted
(* ---- what the ordinary clauses see and those for large objects do not ---- *)
Agrees ==
  m = <<>> \/
  LET a == TLCEval(Art)
      o == TLCEval([Object EXCEPT ![m[1]] = m[4]])
      seen == {p \in ObjPropIds(fmt) : ObjFails(p, a, fmt, o) # {}}
  IN Bulk(o) # {} \/ ~Supported(a, fmt) \/ seen = {}
     \/ ~PrintT("GAP " \o fmt \o " " \o m[1] \o " " \o m[2] \o " " \o ToString(m[3]) \o " " \o ToString(UNION {ObjFails(p, a, fmt, o) : p \in seen}))
=============================================================================
