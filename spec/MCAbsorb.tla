------------------------------ MODULE MCAbsorb ------------------------------
(* Redeclaration: every pair of declarations of a small attribute space       *)
(* (C01), and the laws the rule obeys.                                        *)
EXTENDS Decls, TLC, FiniteSets, Json

CONSTANTS Exponents,         \* alignment exponents declared, besides none
          Triples          \* also the laws about three declarations?

VARIABLES old, new
vars == <<old, new>>

Aligns == {-1} \cup Exponents
All ==
  {Ifn, Idata}
  \cup {[Fn0 EXCEPT !.scope = s, !.vis = v, !.al = a] : s \in {"L", "G", "W"}, v \in {"D", "P", "H"}, a \in Aligns}
  \cup {[Data0 EXCEPT !.scope = s, !.vis = v, !.al = a, !.w = w, !.dt = t] : s \in {"L", "G", "W"}, v \in {"D", "P", "H"}, a \in Aligns, w \in BOOLEAN, t \in {"bytes", "str"}}
  \cup {[Sec0(k) EXCEPT !.dt = t, !.al = a] : k \in {"Data", "Debug", "Text"}, t \in {"bytes", "str"}, a \in Aligns}
Init == old \in All /\ new \in All
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("STATE " \o ToJson([old |-> old, new |-> new]))

R(o, n) == AbsorbResult(o, n)
Reflexive == Absorbs(old, old) /\ R(old, old) = old
Symmetric == Absorbs(old, new) <=> Absorbs(new, old)
(* whichever came first, the same declaration is in force; it is one of the two, a definition if one is *)
OrderFree == Absorbs(old, new) => /\ R(old, new) = R(new, old) /\ R(old, new) \in {old, new}
                                  /\ (IsImport(R(old, new)) => IsImport(old) /\ IsImport(new))
(* repeating either afterwards is accepted and changes nothing *)
Stable == Absorbs(old, new) => \A x \in {old, new} : Absorbs(R(old, new), x) /\ R(R(old, new), x) = R(old, new)
(* nothing changes kind, and a section is never imported *)
KindSafe == Absorbs(old, new) => (old.k = new.k \/ {old.k, new.k} \in {{"fn", "ifn"}, {"data", "idata"}})
(* two definitions of one name never both stand *)
OneDefinition == (Absorbs(old, new) /\ ~IsImport(old) /\ ~IsImport(new)) => old = new
Third == Triples => \A x \in All : (Absorbs(old, new) /\ Absorbs(R(old, new), x)) => (Absorbs(old, x) /\ Absorbs(new, x) /\ R(R(old, x), new) = R(R(old, new), x))
=============================================================================
