----------------------------- MODULE MCNumbering -----------------------------
(* The numbering of sections and symbols across the boundary at which a      *)
(* section index no longer fits its 16-bit field (C11), explored with a      *)
(* boundary small enough for TLC: every artifact of up to two families of    *)
(* definitions and one of imports, with up to MaxLinks links between their   *)
(* first and last members, is emitted by the model of the ELF back end with  *)
(* its boundary set to Lo, and the clauses of BulkProps are checked on it.   *)
(* The same artifacts, with their largest family enlarged by 65280 - Lo, are *)
(* driven through the real crate and judged by the same clauses.             *)
EXTENDS FamilyObjects, Json

CONSTANTS Lo, MaxLinks,
          Bug

Arch == "x86_64"
VARIABLES fams, links
vars == <<fams, links>>

Kd(d, zero, b, z, own, sy) == [d |-> d, zero |-> zero, b |-> b, z |-> z, own |-> own, sy |-> sy, sval |-> IF sy = "" THEN U0 ELSE U(1)]
Kinds == <<Kd([Fn0 EXCEPT !.scope = "G"], FALSE, "c3", U0, FALSE, ""),
           Kd([Fn0 EXCEPT !.vis = "H"], FALSE, "c3", U0, TRUE, ""),
           Kd([Data0 EXCEPT !.scope = "W", !.w = TRUE], FALSE, "0102", U0, TRUE, ""),
           Kd([Data0 EXCEPT !.scope = "G", !.al = 5], TRUE, "", U(12), FALSE, ""),
           Kd(Sec0("Debug"), FALSE, "aabb", U0, TRUE, "y")>>
Fam(pre, n, k) == [k EXCEPT !.sy = IF k.sy = "" THEN "" ELSE "y" \o pre] @@ [pre |-> pre, n |-> n]
DefFams ==
  {<<Fam("a", n, Kinds[k])>> : n \in 3..(Lo - 1), k \in 1..5}
  \cup {<<Fam("a", n, Kinds[k]), Fam("b", m, Kinds[j])>> : n \in 1..(Lo - 3), m \in {1, 3}, k \in 1..5, j \in 1..5}
AllFams == DefFams \cup {Append(f, Fam("i", 2, Kd(Ifn, FALSE, "", U0, FALSE, ""))) : f \in DefFams}
Edge(f) == {0, fams[f].n - 1}
Init == fams \in AllFams /\ links = <<>>
Next ==
  /\ Len(links) < MaxLinks
  /\ \E f, t \in 1..Len(fams) : \E i \in Edge(f), j \in Edge(t) :
       /\ fams[f].d.k \in {"fn", "data"} /\ fams[t].d.k # "sec"
       /\ \E rel \in {AutoRel, [t |-> "raw", r |-> U(300), sz |-> 0, add |-> Minus4]} :
            links' = Append(links, [ff |-> f, fi |-> i, fs |-> 0, tf |-> t, ti |-> j, ts |-> 0, at |-> IF f = t THEN 4 ELSE 0, step |-> 0, n |-> 1, rel |-> rel])
  /\ fams' = fams
Spec == Init /\ [][Next]_vars

Art == FamilyArtifact(Arch, "elf", fams, links)
Object == BuildElf(Art, Lo, Bug)
Holds == BulkFails(Lo, Arch, "big.o", fams, links, ElfView(fams, Object)) = {}
Unnoticed == Holds
Emit == PrintT("STATE " \o ToJson([fams |-> fams, links |-> links, nsec |-> Len(Object.secs)]))
=============================================================================
