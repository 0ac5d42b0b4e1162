------------------------------- MODULE Decls -------------------------------
(* Declarations and the rules by which a later declaration of a name is     *)
(* absorbed into the earlier one.                                           *)
(* A declaration is a record                                                *)
(*   [k, scope, vis, w, dt, sk, al]                                         *)
(* k: "fn" function, "data" data object, "sec" section, "ifn"/"idata"       *)
(* imports; scope L/G/W; vis D/P/H; w writable; dt "bytes"/"str";           *)
(* sk Data/Debug/Text; al exponent of the declared alignment, -1 for none.  *)
(* Attributes a kind does not have are "-" (FALSE for w).                   *)
EXTENDS Integers, Sequences

Ifn   == [k |-> "ifn",   scope |-> "-", vis |-> "-", w |-> FALSE, dt |-> "-", sk |-> "-", al |-> -1]
Idata == [k |-> "idata", scope |-> "-", vis |-> "-", w |-> FALSE, dt |-> "-", sk |-> "-", al |-> -1]
Fn0   == [k |-> "fn", scope |-> "L", vis |-> "D", w |-> FALSE, dt |-> "-", sk |-> "-", al |-> -1]
Data0 == [k |-> "data", scope |-> "L", vis |-> "D", w |-> FALSE, dt |-> "bytes", sk |-> "-", al |-> -1]
Cstr0 == [Data0 EXCEPT !.dt = "str"]
Sec0(sk) == [k |-> "sec", scope |-> "-", vis |-> "-", w |-> FALSE, dt |-> "bytes", sk |-> sk, al |-> -1]

IsImport(d) == d.k \in {"ifn", "idata"}
Imported(d) == IF d.k = "fn" THEN "ifn" ELSE IF d.k = "data" THEN "idata" ELSE "none"

(* May `new` follow `old`, and what holds afterwards? *)
Absorbs(old, new) ==
  \/ old = new                                   \* a repetition
  \/ IsImport(old) /\ Imported(new) = old.k      \* an import becomes a definition
  \/ IsImport(new) /\ Imported(old) = new.k      \* importing what is to be defined here
AbsorbResult(old, new) == IF IsImport(old) THEN new ELSE old

IsLocal(d)  == d.k = "sec" \/ d.scope = "L"
IsGlobal(d) == d.k \in {"fn", "data"} /\ d.scope = "G"
IsWritable(d) == \/ d.k = "data" /\ d.w
                 \/ d.k = "sec" /\ d.sk = "Data"

(* --- declaration builders: the effect of one builder call --- *)
Base(b, sk) == CASE b = "fn" -> Fn0 [] b = "data" -> Data0 [] b = "cstring" -> Cstr0
                 [] b = "sec" -> Sec0(sk) [] b = "ifn" -> Ifn [] b = "idata" -> Idata
Call(d, c) ==
  CASE c.c \in {"with_align", "set_align"} -> [d EXCEPT !.al = c.a]
    [] c.c = "global" -> [d EXCEPT !.scope = "G"]
    [] c.c = "local" -> [d EXCEPT !.scope = "L"]
    [] c.c = "weak" -> [d EXCEPT !.scope = "W"]
    [] c.c \in {"with_scope", "set_scope"} -> [d EXCEPT !.scope = c.a]
    [] c.c = "default_visibility" -> [d EXCEPT !.vis = "D"]
    [] c.c = "protected" -> [d EXCEPT !.vis = "P"]
    [] c.c = "hidden" -> [d EXCEPT !.vis = "H"]
    [] c.c \in {"with_visibility", "set_visibility"} -> [d EXCEPT !.vis = c.a]
    [] c.c \in {"with_datatype", "set_datatype"} -> [d EXCEPT !.dt = c.a]
    [] c.c = "writable" -> [d EXCEPT !.w = TRUE]
    [] c.c = "read_only" -> [d EXCEPT !.w = FALSE]
    [] c.c \in {"with_writable", "set_writable"} -> [d EXCEPT !.w = c.a]
RECURSIVE Calls(_, _, _)
Calls(d, cs, i) == IF i > Len(cs) THEN d ELSE Calls(Call(d, cs[i]), cs, i + 1)
(* --- the builder of artifacts: what an artifact starts with --- *)
DefaultName == "faerie.o"
Started(nm, lib) == [name |-> nm, lib |-> lib]
Setting(x, c) == CASE c.c = "name" -> [x EXCEPT !.name = c.a]
                   [] c.c = "library" -> [x EXCEPT !.lib = c.a]
RECURSIVE Settings(_, _, _)
Settings(x, cs, i) == IF i > Len(cs) THEN x ELSE Settings(Setting(x, cs[i]), cs, i + 1)
=============================================================================
