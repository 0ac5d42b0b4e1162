------------------------------- MODULE Trace -------------------------------
(* Trace validation: one step per recorded call of the real crate.  The      *)
(* recorded call is replayed on the abstract artifact; the recorded result,  *)
(* the visible state afterwards and any emitted object are judged against    *)
(* the properties named in Judge.  A trace whose front end diverges from the *)
(* specification is reported and not followed further (dead), so that one    *)
(* divergence is reported once.  Every line must be consumed (Accepted).     *)
EXTENDS Props, Linker, ElfBuild, MachBuild, Json, IOUtils, TLCExt

CONSTANTS Judge,        \* the property ids to judge
          Fidelity      \* compare every so many-th object with the constructive model of the emitter (0: none; reported only)
TracePath == IOEnv.TRACE

Log == ndJsonDeserialize(TracePath)

VARIABLES l, slots, dead
tvars == <<l, slots, dead>>

Has(e, f) == f \in DOMAIN e
Names(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Names(s)) = Len(s)

(* ---- results ---- *)
(* says: the text of the error mentions the names, or the format, the error is about *)
MatchErr(er, r) ==
  /\ r.r = "err" /\ r.e = er.e /\ r.says
  /\ CASE er.e = "Incompatible" -> r.old = er.old /\ r.new = er.new
       [] er.e = "InvalidZeroInit" -> r.old = er.old
       [] er.e = "NonSectionSymbols" -> r.old = er.old /\ r.syms = er.syms
       [] er.e = "Undefined" -> Names(r.l) = er.l /\ NoDup(r.l)
       [] er.e = "Unsupported" -> r.s = er.s
       [] OTHER -> r.s = er.s
ResultOk(errs, r) == IF errs = {} THEN r.r = "ok" ELSE \E er \in errs : MatchErr(er, r)

(* ---- the front end ---- *)
F(p, labels) == {<<p, x>> : x \in labels}
FrontFails(a, e) ==
  LET r == Step(a, e)
      b == r.a
      imps == {<<e.imps[i].n, e.imps[i].k>> : i \in 1..Len(e.imps)}
      wantI == {<<n, IF b.decl[n].k = "ifn" THEN "fn" ELSE "data">> : n \in Imports(b)}
  IN
  (IF ResultOk(r.errs, e.res) THEN {} ELSE F(Owner(a, e), {"result"}))
  \cup (IF e.res.r \in {"panic", "hang", "abort"} THEN F("C19", {e.res.r}) ELSE {})
  \cup (IF imps = wantI /\ Len(e.imps) = Cardinality(imps) THEN {} ELSE F("C02", {"import-list"}) \cup F(Owner(a, e), {"import-list"}))
  \cup (IF Names(e.und) = Undefined(b) /\ NoDup(e.und) THEN {} ELSE F("C04", {"undefined-list"}) \cup F(Owner(a, e), {"undefined-list"}))

(* ---- emission ---- *)
Emitted(e) == e.res.r = "ok"
(* a file with contents of its own: the object is where the position was (at the end, if the file is appended to), and all else is as before *)
Larger(x, y) == IF x > y THEN x ELSE y
Untouched(p) == p.flen = p.pre /\ p.tail + p.head = p.pre
Placed(p) == p.olen > 0 /\ p.flen = Larger(p.pre, p.start + p.olen) /\ p.head = p.start /\ p.tail = p.flen - (p.start + p.olen)
PlaceFails(e) == IF ~Has(e, "place") THEN {}
                 ELSE IF e.res.r = "ok" THEN (IF Placed(e.place) THEN {} ELSE F("C06", {"misplaced"}))
                 ELSE IF e.res.r = "err" /\ e.res.e # "Io" /\ ~Untouched(e.place) THEN F("C06", {"wrote-something"}) \cup F("C04", {"wrote-something"}) ELSE {}
EmitFails(s, e) ==
  LET a == s.a
      f == e.bf
      errs == EmitErrs(a, f)
      kf == Has(e, "kf")
      sup == errs = {} /\ (Supported(a, f) \/ (kf /\ KnownArch(a)))
      badsink == e.via \in {"full_as", "ro_as"}
  IN
  IF errs # {} THEN
       (IF ResultOk(errs, e.res) THEN {} ELSE
          LET p == IF \E er \in errs : er.e = "Undefined" THEN "C04" ELSE "C18" IN F(p, {"refusal"}))
       \cup (IF e.res.r = "ok" /\ Undefined(a) # {} THEN F("C04", {"emitted-undefined"}) ELSE {})
       \cup (IF Has(e, "wlen") /\ e.wlen # (IF e.via = "ro_as" THEN 1 ELSE 0) THEN F("C04", {"wrote-something"}) \cup F("C06", {"wrote-something"}) ELSE {})
       \cup (IF e.res.r \in {"panic", "hang", "abort"} THEN F("C19", {e.res.r}) ELSE {})
  ELSE IF badsink THEN
       (IF ~sup \/ (e.res.r = "err" /\ e.res.e = "Io") THEN {} ELSE F("C06", {"write-error"}))
       \cup (IF e.via = "ro_as" /\ Has(e, "wlen") /\ e.wlen # 1 THEN F("C06", {"wrote-read-only"}) ELSE {})
  ELSE IF ~sup THEN {}
  (* a sink that stops taking bytes: an I/O error, unless everything had been delivered *)
  ELSE IF e.via = "short_as" /\ e.res.r = "err" THEN
       (IF e.res.e = "Io" THEN {} ELSE F("C06", {"write-error"}))
  ELSE IF ~Emitted(e) THEN
       F("C19", {"no-object"}) \cup F("C04", IF e.res.r = "err" THEN {"refused-complete"} ELSE {"no-object"})
       \cup UNION {F(p, {"no-object"}) : p \in ObjPropIds(f)}
       \cup F("C06", {"no-object"}) \cup F("C21", {"no-object"}) \cup F("C22", {"no-object"})
  ELSE
       (IF Has(e, "obs")
        THEN (IF e.obs.ok THEN {} ELSE F("C19", {"unreadable"}))
             \cup UNION {F(p, ObjFails(p, a, f, e.obs)) : p \in ObjPropIds(f) \cap Judge}
             \cup (IF kf THEN {} ELSE UNION {F(p, FrontObjFails(p, a, f, e.obs)) : p \in FrontObj \cap Judge})
             \cup (IF "C21" \in Judge /\ Cardinality(DOMAIN s.em \cup {f}) = 2 /\ \A g \in Formats : Supported(a, g)
                   THEN LET g == IF f = "elf" THEN "macho" ELSE "elf" IN
                        IF s.em[g].o = <<>> THEN {} ELSE
                        F("C21", IF f = "elf" THEN CrossFails(a, e.obs, s.em[g].o[1]) ELSE CrossFails(a, s.em[g].o[1], e.obs))
                   ELSE {})
        ELSE {})
       \cup (IF f \in DOMAIN s.em /\ s.em[f].dg # e.dg THEN F("C06", {"changed-bytes"}) ELSE {})
       \cup (IF \E t \in DOMAIN slots : slots[t].a = a /\ f \in DOMAIN slots[t].em /\ slots[t].em[f].dg # e.dg
             THEN F("C06", {"same-artifact-different-bytes"}) ELSE {})
(* emission is a pure read: imports and undefined symbols afterwards as before *)
EmitFailsAll(s, e) ==
  EmitFails(s, e)
  \cup PlaceFails(e)
  \cup (IF Names(e.und) = Undefined(s.a) /\ {e.imps[i].n : i \in 1..Len(e.imps)} = Imports(s.a) THEN {} ELSE F("C06", {"not-pure"}))

CmpFails(s, t, f) ==
  IF ~SameArtifact(s.a, t.a) \/ f \notin DOMAIN s.em \/ f \notin DOMAIN t.em \/ ~Supported(s.a, f) THEN {}
  ELSE IF s.em[f].o = <<>> \/ t.em[f].o = <<>> THEN {}
  ELSE IF Meaning(s.a, f, s.em[f].o[1]) = Meaning(t.a, f, t.em[f].o[1]) THEN {} ELSE F("C22", {"order-dependent"})

(* the objects of several artifacts, linked *)
Team(S, e) == [k \in 1..Len(e.slots) |-> S[e.slots[k]].a]

(* ---- pure calls ---- *)
AbsorbFails(e) ==
  (IF Absorbs(e.old, e.new)
   THEN (IF e.res.r = "ok" /\ e.after = AbsorbResult(e.old, e.new) THEN {} ELSE {"absorb"})
   ELSE (IF MatchErr([e |-> "Incompatible", s |-> "", old |-> e.old, new |-> e.new], e.res) /\ e.after = e.old THEN {} ELSE {"absorb-refusal"}))
BuildFails(e) ==
  IF e.res.r # "ok" THEN {"builder"} ELSE
  LET d == Calls(Base(e.base, e.sk), e.calls, 1)
      k == d.k IN
  (IF e.d = d THEN {} ELSE {"builder"})
  \cup (IF e.acc = [import |-> IsImport(d), section |-> k = "sec", dfn |-> k = "fn", ddata |-> k = "data", dsec |-> k = "sec",
                    global |-> IsGlobal(d), writable |-> IsWritable(d), al |-> d.al,
                    ik |-> IF k = "ifn" THEN "fn" ELSE IF k = "idata" THEN "data" ELSE "-"] THEN {} ELSE {"accessor"})
  \cup (IF e.gets = [global |-> IsGlobal(d), writable |-> IsWritable(d)] THEN {} ELSE {"accessor"})
DataFails(e) ==
  LET n == IF e.zero THEN e.z ELSE U(Len(e.b) \div 2) IN
  (IF e.fsz = (IF e.zero THEN U0 ELSE n) THEN {} ELSE {"file-size"})
  \cup (IF e.empty = (n = U0) THEN {} ELSE {"is-empty"})
  \cup (IF e.zi = e.zero THEN {} ELSE {"is-zero-init"})
NewFails(e) ==
  LET given == Started(IF Has(e, "name") THEN e.name ELSE DefaultName, IF Has(e, "lib") /\ e.via = "builder" THEN e.lib ELSE FALSE)
      made == IF Has(e, "chain") THEN Settings(given, e.chain, 1) ELSE given
      nm == made.name
      lib == made.lib IN
  (IF e.gname = nm THEN {} ELSE {"name"}) \cup (IF e.glib = lib THEN {} ELSE {"library"}) \cup (IF e.gbf = e.bf THEN {} ELSE {"target"})
  \cup (IF e.imps = <<>> /\ e.und = <<>> THEN {} ELSE {"not-empty"})

(* ---- the trace machine ---- *)
Fails(S, e) ==
  CASE e.op = "new" -> F("C20", NewFails(e))
    [] e.op = "clone" -> {}
    [] e.op \in FrontOps -> FrontFails(S[e.slot].a, e)
    [] e.op = "emit" -> EmitFailsAll(S[e.slot], e)
    [] e.op = "cmp" -> CmpFails(S[e.slot], S[e.other], e.bf)
    [] e.op = "join" -> F("C23", JoinFails(Team(S, e), e.bf, e.ld, e.res, e.img))
    [] e.op = "absorb" -> F("C01", AbsorbFails(e))
    [] e.op = "build" -> F("C20", BuildFails(e))
    [] e.op = "data" -> F("C20", DataFails(e))
NoSlots == <<>>
Effect(S, e) ==
  CASE e.op = "new" ->
         (e.slot :> [a |-> NewArtifact(e.gname, e.arch, e.bf, e.glib), em |-> <<>>]) @@ S
    [] e.op = "clone" -> (e.dst :> S[e.slot]) @@ S
    [] e.op \in FrontOps ->
         LET s == S[e.slot]
             b == Step(s.a, e).a IN
         [S EXCEPT ![e.slot] = [a |-> b, em |-> IF Essence(b) = Essence(s.a) THEN s.em ELSE <<>>]]
    [] e.op = "emit" /\ Emitted(e) /\ Has(e, "dg") ->
         LET s == S[e.slot]
             keep == IF e.bf \in DOMAIN s.em THEN s.em[e.bf].o ELSE <<>>
             o == IF Has(e, "obs") /\ ({"C21", "C22"} \cap Judge # {}) THEN <<e.obs>> ELSE keep IN
         [S EXCEPT ![e.slot].em = (e.bf :> [dg |-> e.dg, o |-> o]) @@ @]
    [] OTHER -> S

(* every failing clause is printed; only a divergence of the front end ends the trace *)
Report(e, fs) ==
  \A x \in fs : PrintT("FAIL " \o ToJson([p |-> x[1], c |-> x[2], pid |-> e.pid, k |-> e.seq, op |-> e.op]))
Diverged(e, fs) == e.op \in FrontOps \cup {"new"} /\ fs # {}

Count(key, n) == TLCSet(1, LET m == TLCGet(1) IN (key :> ((IF key \in DOMAIN m THEN m[key] ELSE 0) + n)) @@ m)
CountAll(S, e, fs) ==
  /\ Count("events", 1)
  /\ (e.op = "emit" /\ Has(e, "obs")) =>
       \A p \in (ObjPropIds(e.bf) \cup FrontObj) \cap Judge : (Undefined(S[e.slot].a) = {} /\ Supported(S[e.slot].a, e.bf) /\ Relevant(p, S[e.slot].a)) => Count(p \o " " \o e.bf \o " objects judged", 1)
  /\ (Fidelity > 0 /\ l % Fidelity = 0 /\ e.op = "emit" /\ Has(e, "obs")) =>
       LET a == S[e.slot].a IN
       (Undefined(a) = {} /\ Supported(a, e.bf) /\ Cardinality(Declared(a)) < 100 /\ \A n \in Declared(a) : Len(n) < 2000) =>
         LET m == IF e.bf = "elf" THEN BuildElf(a, LO_RESERVE, "none") ELSE BuildMach(a, "none")
             D == {f \in DOMAIN m : m[f] # e.obs[f]} IN
         Count("model of the emitter " \o (IF D = {} THEN "agrees: " ELSE "differs: ") \o e.bf, 1)
         /\ (D # {} => Count("differing part " \o e.bf \o " " \o (CHOOSE f \in D : TRUE), 1))
         /\ (D # {} /\ Judge = {} => PrintT("DIFF " \o ToJson([pid |-> e.pid, d |-> D, m |-> [f \in D |-> m[f]], o |-> [f \in D |-> e.obs[f]]])))
  /\ (e.op \in FrontOps) => Count(Owner(S[e.slot].a, e) \o " calls " \o e.res.r, 1)
  /\ (e.op \in {"absorb", "build", "data", "new", "clone"}) => Count(e.op, 1)
  /\ (e.op = "emit") => Count("emit " \o e.via \o " " \o e.res.r, 1)
  /\ (e.op = "emit" /\ Emitted(e) /\ e.bf \in DOMAIN S[e.slot].em) => Count("C06 repeated emission", 1)
  /\ (e.op = "cmp" /\ SameArtifact(S[e.slot].a, S[e.other].a)) => Count("C22 pairs compared", 1)
  /\ (e.op = "join") => IF Joinable(Team(S, e), e.bf, e.ld) THEN Count("C23 " \o e.ld \o " " \o e.res.r, 1) ELSE Count("C23 not judged", 1)
  /\ (e.op = "emit" /\ Has(e, "obs") /\ Cardinality(DOMAIN S[e.slot].em \cup {e.bf}) = 2) => Count("C21 pairs compared", 1)

Init == l = 1 /\ slots = NoSlots /\ dead = FALSE /\ TLCSet(1, <<>>)
Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         S == IF e.first THEN NoSlots ELSE slots
         skip == dead /\ ~e.first
         fs == IF skip THEN {} ELSE Fails(S, e)
     IN /\ Report(e, {x \in fs : x[1] \in Judge})
        /\ (IF skip THEN TRUE ELSE CountAll(S, e, fs))
        /\ dead' = (IF Diverged(e, fs) THEN TRUE ELSE IF e.first THEN FALSE ELSE dead)
        /\ slots' = IF skip \/ Diverged(e, fs) THEN S ELSE Effect(S, e)
        /\ (Diverged(e, fs) => Count("traces ended by divergence", 1))
Spec == Init /\ [][Next]_tvars

(* every artifact the real crate was driven to satisfies the front-end invariants *)
Sound == \A s \in DOMAIN slots : ArtifactSound(slots[s].a)

Accepted ==
  /\ PrintT("COUNTS " \o ToJson(TLCGet(1)))
  /\ TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
