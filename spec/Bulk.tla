------------------------------- MODULE Bulk -------------------------------
(* Validation of traces with very large objects, see BulkProps and BulkMach. *)
(* Every clause about an ELF object belongs to C11; most belong to one of    *)
(* the other properties as well.                                             *)
EXTENDS BulkProps, BulkMach, Json, IOUtils

CONSTANT Judge                \* the property being judged
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, arch, name, fams, links, dg
bvars == <<l, arch, name, fams, links, dg>>
LoReserve == 65280            \* first section index a 16-bit field cannot hold

(* ---- the trace machine ---- *)
Report(e, fs) == \A x \in fs : PrintT("FAIL " \o ToJson([p |-> Judge, c |-> x, pid |-> e.pid, k |-> e.seq, op |-> e.op]))
Owners(label) ==
  {"C11"} \cup
  CASE label \in {"every-symbol-once", "no-other-symbol", "every-section-once", "symbol-in-its-section", "bytes", "flags"} -> {"C08"}
    [] label = "zero-data" -> {"C12"}
    [] label \in {"custom-sections", "custom-symbols"} -> {"C13"}
    [] label = "alignment" -> {"C16"}
    [] label = "identity" -> {"C18"}
    [] label = "locals-first" -> {"C09"}
    [] label = "relocations" -> {"C10"}
    [] label = "undefined-symbols" -> {"C02"}
    [] OTHER -> {"C07"}
Count(key, n) == TLCSet(1, LET m == TLCGet(1) IN (key :> ((IF key \in DOMAIN m THEN m[key] ELSE 0) + n)) @@ m)
Family(e) == [pre |-> e.pre, n |-> e.n, d |-> e.d,
              zero |-> IF "zero" \in DOMAIN e THEN e.zero ELSE FALSE,
              b |-> IF "b" \in DOMAIN e THEN e.b ELSE "", z |-> IF "z" \in DOMAIN e THEN e.z ELSE U0,
              own |-> IF "own" \in DOMAIN e THEN e.own ELSE FALSE,
              sy |-> IF "sy" \in DOMAIN e THEN e.sy ELSE "", sval |-> IF "sval" \in DOMAIN e THEN e.sval ELSE U0]
Groups(e) == [i \in 1..Len(e.groups) |-> LET g == e.groups[i] IN
  [ff |-> g.ff, fi |-> g.fi, fs |-> g.fs, tf |-> g.tf, ti |-> g.ti, ts |-> g.ts, at |-> g.at, step |-> g.step, n |-> g.n, rel |-> g.rel]]
Mine(S) == {x[2] : x \in {y \in S : y[1] = Judge}}
Judged(e, t, nm, S, L) ==
  IF "obs" \notin DOMAIN e THEN {}
  ELSE IF e.bf = "elf" THEN {x \in BulkFails(LoReserve, t, nm, S, L, e.obs) : Judge \in Owners(x)}
  ELSE Mine(MBulkFails(t, S, L, e.obs))
Fails(t, nm, S, L, D, e) ==
  CASE e.op \in {"bulk", "blinks"} -> BChk("accepted", e.res.r = "ok" \/ Judge \notin {"C11", "C19"})
    [] e.op = "emit" -> IF e.res.r # "ok" THEN BChk("no-object", Judge \notin {"C11", "C19"}) ELSE
         Judged(e, t, nm, S, L) \cup BChk("same-bytes-again", e.bf \notin DOMAIN D \/ D[e.bf] = e.dg \/ Judge \notin {"C11", "C06"})
    [] OTHER -> {}
Init == l = 1 /\ arch = "-" /\ name = "-" /\ fams = <<>> /\ links = <<>> /\ dg = <<>> /\ TLCSet(1, <<>>)
Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ arch' = IF Log[l].op = "new" THEN Log[l].arch ELSE arch
  /\ name' = IF Log[l].op = "new" THEN Log[l].name ELSE name
  /\ LET e == Log[l]
         S == IF e.first THEN <<>> ELSE fams
         L == IF e.first THEN <<>> ELSE links
         D == IF e.first THEN <<>> ELSE dg
     IN /\ Report(e, Fails(arch', name', S, L, D, e))
        /\ Count("events", 1)
        /\ (e.op = "emit" /\ e.res.r = "ok" /\ "obs" \in DOMAIN e /\ e.obs.ok) =>
             /\ Count(Judge \o " large objects judged, " \o (IF e.bf # "elf" THEN e.bf ELSE IF Len(e.obs.secs) >= LoReserve THEN "elf, extended numbering" ELSE "elf, ordinary numbering"), 1)
             /\ Count(Judge \o " their sections", Len(e.obs.secs))
             /\ Count(Judge \o " their symbols", Len(e.obs.syms))
             /\ Count(Judge \o " their relocations", Len(e.obs.rels))
             /\ e.bf = "elf" => Count(Judge \o " their extended symbol indices", Cardinality({i \in 1..Len(e.obs.syms) : e.obs.syms[i][7]}))
        /\ fams' = IF e.op = "bulk" THEN Append(S, Family(e)) ELSE S
        /\ links' = IF e.op = "blinks" THEN L \o Groups(e) ELSE L
        /\ dg' = IF e.op = "emit" /\ "dg" \in DOMAIN e THEN (e.bf :> e.dg) @@ D ELSE IF e.op \in {"bulk", "blinks"} THEN <<>> ELSE D
Spec == Init /\ [][Next]_bvars
Accepted ==
  /\ PrintT("COUNTS " \o ToJson(TLCGet(1)))
  /\ TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
