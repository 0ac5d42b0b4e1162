------------------------------ MODULE MCStart ------------------------------
(* The builder of artifacts: every chain of its calls up to MaxCalls, and     *)
(* what the artifact starts with (C20).                                       *)
EXTENDS Decls, TLC, Json

CONSTANTS Texts, MaxCalls

VARIABLES x, path
vars == <<x, path>>

Menu == {[c |-> "name", a |-> t] : t \in Texts} \cup {[c |-> "library", a |-> l] : l \in BOOLEAN}
Init == x = Started(DefaultName, FALSE) /\ path = <<>>
Next == Len(path) < MaxCalls /\ \E c \in Menu : x' = Setting(x, c) /\ path' = Append(path, c)
Spec == Init /\ [][Next]_vars
Emit == PrintT("STATE " \o ToJson([chain |-> path]))

LastOf(what, other) == LET P == {i \in DOMAIN path : path[i].c = what} IN
                       IF P = {} THEN other ELSE path[CHOOSE i \in P : \A j \in P : j <= i].a
(* of the calls about one thing the last decides, and the others do not matter *)
LastDecides == x.name = LastOf("name", DefaultName) /\ x.lib = LastOf("library", FALSE)
Folded == x = Settings(Started(DefaultName, FALSE), path, 1)
=============================================================================
