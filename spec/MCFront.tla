------------------------------ MODULE MCFront ------------------------------
(* All histories of the front end over a small alphabet of calls.  TLC        *)
(* explores every reachable artifact; `path` is a shortest history leading    *)
(* to it, hidden from the state by VIEW and printed once per artifact, so     *)
(* that the driver can replay every state and every transition on the crate.  *)
EXTENDS Calls, Json

CONSTANTS Big,          \* the larger alphabet?
          MaxLinks      \* links per history

VARIABLES a, path
vars == <<a, path>>

Names == {"a", "b"}
Decls0 == {Ifn, Idata, Fn0, [Fn0 EXCEPT !.scope = "G"], Data0, Sec0("Data")}
DeclsB == Decls0 \cup {[Data0 EXCEPT !.w = TRUE, !.scope = "W"], [Fn0 EXCEPT !.al = 4], Sec0("Debug"), Cstr0}
D == IF Big THEN DeclsB ELSE Decls0

Call2(f, g) == f @@ g
Decl(n, d) == [op |-> "declare", n |-> n, d |-> d]
Contents(n) ==
  {[op |-> "define", n |-> n, b |-> "c3"], [op |-> "definez", n |-> n, z |-> U(8)],
   [op |-> "defsyms", n |-> n, zero |-> FALSE, b |-> "c3", z |-> U0, syms |-> <<<<"s" \o n, U(1)>>>>]}
ContentsB(n) ==
  {[op |-> "define", n |-> n, b |-> ""], [op |-> "defsyms", n |-> n, zero |-> TRUE, b |-> "", z |-> U(4), syms |-> <<>>],
   [op |-> "defsyms", n |-> n, zero |-> TRUE, b |-> "", z |-> U(4), syms |-> <<<<"s" \o n, U0>>>>]}
Links ==
  {[op |-> "link", from |-> f, to |-> t, at |-> U0, rel |-> AutoRel] : f, t \in Names}
Raw1 == [t |-> "raw", r |-> U(1), sz |-> 0, add |-> U0]
LinksB ==
  {[op |-> "linkw", from |-> f, to |-> t, at |-> U(1), rel |-> Raw1] : f, t \in Names}
(* every call, whether it succeeds or not; the last few exercise other entry points *)
Alphabet ==
  {Decl(n, d) : n \in Names, d \in D}
  \cup {[op |-> "import", n |-> n, k |-> k] : n \in Names, k \in {"fn", "data"}}
  \cup UNION {Contents(n) : n \in Names}
  \cup (IF Big THEN UNION {ContentsB(n) : n \in Names} \cup LinksB ELSE {})
  \cup Links
  \cup {[op |-> "declwith", n |-> n, d |-> d, b |-> "90"] : n \in Names, d \in {Fn0, Idata, Data0}}
  \cup {[op |-> "declmany", items |-> <<[n |-> "a", d |-> d], [n |-> "b", d |-> e]>>] : d, e \in {Fn0, Idata}}
  \cup {[op |-> "declmany", items |-> <<[n |-> "b", d |-> Data0], [n |-> "b", d |-> Ifn]>>]}

AlphaSeq == SetToSeq(Alphabet)
ASSUME PrintT("ALPHABET " \o ToJson(AlphaSeq))

Init == a = NewArtifact("t.o", "x86_64", "elf", FALSE) /\ path = <<>>
Next == \E c \in Alphabet :
          LET r == Step(a, c) IN
          /\ Len(r.a.links) <= MaxLinks
          /\ Essence(r.a) # Essence(a)
          /\ a' = r.a
          /\ path' = Append(path, c)
Spec == Init /\ [][Next]_vars
View == Essence(a)

(* `stay`: the calls (by their position in the alphabet) that leave the artifact as it is *)
Emit == PrintT("STATE " \o ToJson([path |-> path, complete |-> Undefined(a) = {},
                                  stay |-> SelectSeq([i \in 1..Len(AlphaSeq) |-> i], LAMBDA i : Essence(Step(a, AlphaSeq[i]).a) = Essence(a))]))

(* ---- what is checked of the specification itself ---- *)
Inv == ArtifactSound(a)
(* nothing accepted is ever lost *)
NeverLost == [][Grows(a, a')]_vars
(* a refused single call changes nothing at all *)
RefusedIsNeutral ==
  \A c \in Alphabet : c.op \notin {"declwith", "declmany"} =>
    LET r == Step(a, c) IN r.errs # {} => Essence(r.a) = Essence(a)
(* C01: the outcome of a declaration depends on the declaration in force and the new one only *)
DeclOutcome ==
  \A n \in Names, d \in D :
    LET r == Declare(a, n, d) IN
    /\ (n \notin Declared(a)) => r.errs = {} /\ r.a.decl[n] = d
    /\ (n \in Declared(a)) =>
         LET o == a.decl[n] IN
         /\ (r.errs = {}) <=> (o = d \/ (IsImport(o) # IsImport(d) /\ (o.k \in {"fn", "ifn"}) = (d.k \in {"fn", "ifn"}) /\ "sec" \notin {o.k, d.k}))
         /\ (r.errs = {}) => r.a.decl[n] = (IF IsImport(o) THEN d ELSE o)
         /\ (r.errs # {}) => Essence(r.a) = Essence(a)
(* C02/C04: every declared name is exactly one of imported, undefined, defined *)
Partition ==
  /\ Declared(a) = Imports(a) \cup Undefined(a) \cup Defined(a)
  /\ Imports(a) \cap (Undefined(a) \cup Defined(a)) = {} /\ Undefined(a) \cap Defined(a) = {}
  /\ (EmitErrs(a, "elf") = {}) <=> (Declared(a) = Imports(a) \cup Defined(a))
(* C03: a second definition is always refused, the first kept *)
OnceDefined ==
  \A n \in Defined(a) : \A c \in Contents(n) :
    LET r == Step(a, c) IN r.errs # {} /\ r.a.defd[n] = a.defd[n]
(* C05 *)
LinkRule ==
  \A c \in Links : (Step(a, c).errs = {}) <=> ({c.from, c.to} \subseteq Declared(a) /\ c.from \notin Imports(a))
(* an artifact can always be completed: every undefined name accepts some contents *)
Completable == \A n \in Undefined(a) : \E c \in Contents(n) : Step(a, c).errs = {}
(* C22: calls that succeed in both orders commute on the facts *)
Ok2(s, c, e) == LET r == Step(s, c) IN r.errs = {} /\ Step(r.a, e).errs = {}
Commute ==
  \A c, e \in Alphabet :
    (Ok2(a, c, e) /\ Ok2(a, e, c)) =>
      LET x == Step(Step(a, c).a, e).a
          y == Step(Step(a, e).a, c).a
      IN SameFacts(x, y) \/ (c.op \in {"declare", "import", "declwith", "declmany"} /\ e.op \in {"declare", "import", "declwith", "declmany"})
(* ... including declarations, unless the two disagree about the definition *)
DeclCommute ==
  \A n \in Names, c, e \in D :
    LET p == Declare(a, n, c) q == Declare(a, n, e) IN
    (p.errs = {} /\ q.errs = {}) =>
       LET x == Declare(p.a, n, e) y == Declare(q.a, n, c) IN
       /\ (x.errs = {}) = (y.errs = {})
       /\ (x.errs = {}) => SameFacts(x.a, y.a)
=============================================================================
