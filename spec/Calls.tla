------------------------------- MODULE Calls -------------------------------
(* A public call, as recorded from (or proposed to) the real crate, and its   *)
(* effect on the abstract artifact.  The same operator drives the exploration *)
(* of the specification (MCFront) and the validation of traces (Trace).       *)
EXTENDS Artifact

Content(e) ==
  IF e.op = "definez" THEN Zero(e.z)
  ELSE IF e.op = "defsyms" THEN [zero |-> e.zero, b |-> IF e.zero THEN "" ELSE e.b, z |-> IF e.zero THEN e.z ELSE U0, syms |-> e.syms]
  ELSE Blob(e.b)
Kind(k) == IF k = "fn" THEN Ifn ELSE Idata
Step(a, e) ==
  CASE e.op = "declare" -> Declare(a, e.n, e.d)
    [] e.op = "import" -> Declare(a, e.n, Kind(e.k))
    [] e.op = "declmany" -> DeclareAll(a, e.items, 1)
    [] e.op = "declwith" -> DeclareWith(a, e.n, e.d, Content(e))
    [] e.op \in {"define", "definez", "defsyms"} -> Define(a, e.n, Content(e))
    [] e.op \in {"link", "linkw"} -> Link(a, e.from, e.to, e.at, e.rel)
    (* the public fields of an artifact may be changed at any time *)
    [] e.op = "setname" -> Ok([a EXCEPT !.name = e.name])
    [] e.op = "settarget" -> Ok([a EXCEPT !.arch = e.arch, !.bf = e.bf])
    [] e.op = "setlib" -> Ok([a EXCEPT !.lib = e.lib])
    [] OTHER -> Ok(a)
(* whose rule decides the result of a call *)
Owner(a, e) ==
  CASE e.op \in {"declare", "import", "declmany"} -> "C01"
    [] e.op = "declwith" -> IF Declare(a, e.n, e.d).errs # {} THEN "C01" ELSE "C03"
    [] e.op \in {"define", "definez", "defsyms"} -> "C03"
    [] e.op \in {"link", "linkw"} -> "C05"
    [] OTHER -> "C19"
FrontOps == {"declare", "import", "declmany", "declwith", "define", "definez", "defsyms", "link", "linkw", "setname", "settarget", "setlib"}

(* two artifacts with the same facts, in whatever order they were stated *)
BagOf(s) == LET R == Range(s) IN [x \in R |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
SameFacts(a, b) ==
  /\ a.name = b.name /\ a.arch = b.arch /\ a.decl = b.decl /\ a.defd = b.defd
  /\ BagOf(a.links) = BagOf(b.links)
=============================================================================
