------------------------------ MODULE Emission ------------------------------
(* The order in which both back ends take the definitions of an artifact:     *)
(* local ones first, each part ordered by declaration and then by the order   *)
(* in which the names were first mentioned.                                   *)
EXTENDS Supported

Rank(d, i) ==
  LET s == CASE d.scope = "G" -> 0 [] d.scope = "L" -> 1 [] d.scope = "W" -> 2 [] OTHER -> 0
      v == CASE d.vis = "D" -> 0 [] d.vis = "P" -> 1 [] d.vis = "H" -> 2 [] OTHER -> 0
      w == IF d.w THEN 1 ELSE 0
      t == IF d.dt = "str" THEN 1 ELSE 0
      k == CASE d.sk = "Data" -> 0 [] d.sk = "Debug" -> 1 [] d.sk = "Text" -> 2 [] OTHER -> 0
  IN CASE d.k = "fn" -> <<0, s, v, d.al, i, 0, 0>>
       [] d.k = "data" -> <<1, s, v, w, t, d.al, i>>
       [] d.k = "sec" -> <<2, k, t, d.al, i, 0, 0>>
Before(x, y) == \E i \in 1..7 : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
DefOrder(a) ==
  LET ranked(loc) == SortSeq(SelectSeq([i \in 1..Len(a.strs) |-> <<i, a.strs[i]>>],
                                       LAMBDA p : p[2] \in Defined(a) /\ IsLocal(a.decl[p[2]]) = loc),
                             LAMBDA p, q : Before(Rank(a.decl[p[2]], p[1]), Rank(a.decl[q[2]], q[1])))
      both == ranked(TRUE) \o ranked(FALSE)
  IN [i \in 1..Len(both) |-> both[i][2]]
=============================================================================
