------------------------------ MODULE MCBuilder ------------------------------
(* Declaration builders: every declaration reachable by builder calls, and    *)
(* what each further call makes of it (C20).                                  *)
EXTENDS Decls, TLC, FiniteSets, SequencesExt, Json

CONSTANT Exponents          \* alignment exponents offered, besides none
Aligns == {-1} \cup Exponents

VARIABLES base, d, path
vars == <<base, d, path>>

C(c, a) == [c |-> c, a |-> a]
AlignCalls == {C(c, x) : c \in {"with_align", "set_align"}, x \in Aligns}
ScopeCalls == {C("global", "-"), C("local", "-"), C("weak", "-")} \cup {C(c, s) : c \in {"with_scope", "set_scope"}, s \in {"L", "G", "W"}}
VisCalls == {C("default_visibility", "-"), C("protected", "-"), C("hidden", "-")} \cup {C(c, v) : c \in {"with_visibility", "set_visibility"}, v \in {"D", "P", "H"}}
TypeCalls == {C(c, t) : c \in {"with_datatype", "set_datatype"}, t \in {"bytes", "str"}}
WriteCalls == {C("writable", "-"), C("read_only", "-")} \cup {C(c, w) : c \in {"with_writable", "set_writable"}, w \in BOOLEAN}
Groups == <<AlignCalls, ScopeCalls, VisCalls, TypeCalls, WriteCalls>>
Attr == <<"al", "scope", "vis", "dt", "w">>
Menu(b) == CASE b.b = "fn" -> {1, 2, 3} [] b.b \in {"data", "cstring"} -> 1..5 [] b.b = "sec" -> {1, 4} [] OTHER -> {}
Bases == {[b |-> b, sk |-> "-"] : b \in {"fn", "data", "cstring", "ifn", "idata"}} \cup {[b |-> "sec", sk |-> s] : s \in {"Data", "Debug", "Text"}}

Init == \E b \in Bases : base = b /\ d = Base(b.b, b.sk) /\ path = <<>>
Next == \E g \in Menu(base) : \E c \in Groups[g] :
          /\ d' = Call(d, c) /\ d' # d
          /\ path' = Append(path, c) /\ base' = base
Spec == Init /\ [][Next]_vars
View == <<base, d>>
Emit == PrintT("STATE " \o ToJson([base |-> base.b, sk |-> base.sk, calls |-> path,
                                  next |-> SetToSeq(UNION {Groups[g] : g \in Menu(base)})]))

(* a call changes its own attribute and nothing else *)
OneAttribute == \A g \in Menu(base) : \A c \in Groups[g] : \A i \in 1..5 : i # g => Call(d, c)[Attr[i]] = d[Attr[i]]
KindKept == \A g \in Menu(base) : \A c \in Groups[g] : Call(d, c).k = d.k /\ Call(d, c).sk = d.sk
(* the last of two calls about the same attribute decides; calls about different ones commute *)
LastWins == \A g \in Menu(base) : \A c, e \in Groups[g] : Call(Call(d, c), e) = Call(d, e)
Independent == \A g, h \in Menu(base) : g # h => \A c \in Groups[g], e \in Groups[h] : Call(Call(d, c), e) = Call(Call(d, e), c)
(* every value of every attribute can be reached from here *)
Settable == \A g \in Menu(base) : \A v \in (CASE g = 1 -> Aligns [] g = 2 -> {"L", "G", "W"} [] g = 3 -> {"D", "P", "H"} [] g = 4 -> {"bytes", "str"} [] OTHER -> BOOLEAN) :
              \E c \in Groups[g] : Call(d, c)[Attr[g]] = v
=============================================================================
