------------------------------ MODULE Artifact ------------------------------
(* The artifact: the mutable front end through which a user declares,        *)
(* defines, imports and links names.  Every public call is a function from   *)
(* an abstract artifact to                                                   *)
(*    [a |-> artifact afterwards, errs |-> set of the errors it may report]  *)
(* where errs = {} means the call succeeds.  A call for which several errors *)
(* apply may report any one of them.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, U64, Decls

None == "none"

(* bf: binary format of the target; decl: name -> declaration; order: names  *)
(* in the order first declared; defd: name -> contents; imps: the import     *)
(* list; links: accepted links, in order; strs: names in the order in which  *)
(* they were first mentioned in any call (decides the layout order only).    *)
NewArtifact(nm, arch, bf, lib) ==
  [name |-> nm, arch |-> arch, bf |-> bf, lib |-> lib, strs |-> <<>>, order |-> <<>>,
   decl |-> <<>>, defd |-> <<>>, imps |-> <<>>, links |-> <<>>]

Declared(a) == DOMAIN a.decl
Defined(a) == DOMAIN a.defd
Undefined(a) == {n \in Declared(a) : ~IsImport(a.decl[n]) /\ n \notin Defined(a)}
Imports(a) == {n \in Declared(a) : IsImport(a.decl[n])}

Intern(a, n) == IF n \in Range(a.strs) THEN a ELSE [a EXCEPT !.strs = Append(@, n)]

Ok(a) == [a |-> a, errs |-> {}]
Fail(a, es) == [a |-> a, errs |-> es]
Err(e, s) == [e |-> e, s |-> s]

(* removing an import that became a definition moves the last one in its place *)
SwapRemove(s, n) ==
  LET i == CHOOSE j \in 1..Len(s) : s[j] = n
      l == Len(s)
  IN IF i = l THEN SubSeq(s, 1, l - 1) ELSE SubSeq([s EXCEPT ![i] = s[l]], 1, l - 1)

Declare(a0, n, d) ==
  LET a == Intern(a0, n) IN
  IF n \notin Declared(a)
  THEN Ok([a EXCEPT !.decl = @ @@ (n :> d), !.order = Append(@, n),
                    !.imps = IF IsImport(d) THEN Append(@, n) ELSE @])
  ELSE LET old == a.decl[n] IN
       IF ~Absorbs(old, d)
       THEN Fail(a, {[e |-> "Incompatible", s |-> "", old |-> old, new |-> d]})
       ELSE LET r == AbsorbResult(old, d) IN
            Ok([a EXCEPT !.decl[n] = r,
                         !.imps = IF IsImport(old) /\ ~IsImport(r) THEN SwapRemove(@, n) ELSE @])

(* x: the contents, [zero, b (hex), z (size), syms (sequence of <<name, offset>>)] *)
DefineErrs(a, n, x) ==
  IF n \notin Declared(a) THEN {Err("Undeclared", n)}
  ELSE LET d == a.decl[n] IN
    IF IsImport(d) THEN {Err("ImportDefined", n)}
    ELSE (IF n \in Defined(a) THEN {Err("Duplicate", n)} ELSE {})
      \cup (IF d.k # "sec" /\ x.syms # <<>>
            THEN {[e |-> "NonSectionSymbols", s |-> "", old |-> d, syms |-> x.syms]} ELSE {})
      \cup (IF d.k # "data" /\ x.zero THEN {[e |-> "InvalidZeroInit", s |-> "", old |-> d]} ELSE {})
Define(a0, n, x) ==
  LET a == Intern(a0, n)
      es == DefineErrs(a, n, x)
  IN IF es # {} THEN Fail(a, es) ELSE Ok([a EXCEPT !.defd = @ @@ (n :> x)])

DeclareWith(a, n, d, x) ==
  LET r == Declare(a, n, d) IN IF r.errs # {} THEN r ELSE Define(r.a, n, x)

RECURSIVE DeclareAll(_, _, _)
DeclareAll(a, items, i) ==
  IF i > Len(items) THEN Ok(a)
  ELSE LET r == Declare(a, items[i].n, items[i].d) IN
       IF r.errs # {} THEN r ELSE DeclareAll(r.a, items, i + 1)

LinkErrs(a, f, t) ==
  (IF f \notin Declared(a) THEN {Err("Undeclared", f)} ELSE {})
  \cup (IF t \notin Declared(a) THEN {Err("Undeclared", t)} ELSE {})
  \cup (IF f \in Declared(a) /\ IsImport(a.decl[f]) THEN {Err("RelocateImport", f)} ELSE {})
Link(a0, f, t, at, rel) ==
  LET a == Intern(Intern(a0, f), t)
      es == LinkErrs(a, f, t)
  IN IF es # {} THEN Fail(a, es)
     ELSE Ok([a EXCEPT !.links = Append(@, [from |-> f, to |-> t, at |-> at, rel |-> rel])])

Blob(b) == [zero |-> FALSE, b |-> b, z |-> U0, syms |-> <<>>]
Zero(z) == [zero |-> TRUE, b |-> "", z |-> z, syms |-> <<>>]
SizeOf(x) == IF x.zero THEN x.z ELSE U(Len(x.b) \div 2)

AutoRel == [t |-> "auto", r |-> U0, sz |-> 0, add |-> U0]

(* --- the two object formats and when emission must refuse --- *)
Formats == {"elf", "macho"}
EmitErrs(a, f) ==
  (IF Undefined(a) # {} THEN {[e |-> "Undefined", s |-> "", l |-> Undefined(a)]} ELSE {})
  \cup (IF f \notin Formats THEN {Err("Unsupported", f)} ELSE {})

(* what an artifact is, apart from the order names were first mentioned in *)
Essence(a) == [a EXCEPT !.strs = <<>>]

(* --- consistency of the front end: invariants of every reachable artifact --- *)
ImportsListed(a) ==
  /\ Range(a.imps) = Imports(a)
  /\ \A i, j \in 1..Len(a.imps) : i # j => a.imps[i] # a.imps[j]
DefsSound(a) ==
  \A n \in Defined(a) :
    /\ n \in Declared(a) /\ ~IsImport(a.decl[n])
    /\ a.defd[n].zero => a.decl[n].k = "data"
    /\ a.defd[n].syms # <<>> => a.decl[n].k = "sec"
LinksSound(a) ==
  \A i \in 1..Len(a.links) :
    /\ a.links[i].from \in Declared(a) /\ a.links[i].to \in Declared(a)
    /\ ~IsImport(a.decl[a.links[i].from])
OrderSound(a) == /\ Range(a.order) = Declared(a) /\ Len(a.order) = Cardinality(Declared(a))
                 /\ Declared(a) \subseteq Range(a.strs)
ArtifactSound(a) == ImportsListed(a) /\ DefsSound(a) /\ LinksSound(a) /\ OrderSound(a)

(* a call never weakens what was accepted before *)
Grows(a, b) ==
  /\ Declared(a) \subseteq Declared(b)
  /\ \A n \in Declared(a) : a.decl[n] = b.decl[n] \/ (IsImport(a.decl[n]) /\ Imported(b.decl[n]) = a.decl[n].k)
  /\ \A n \in Defined(a) : n \in Defined(b) /\ a.defd[n] = b.defd[n]
  /\ IsPrefix(a.links, b.links)
=============================================================================
