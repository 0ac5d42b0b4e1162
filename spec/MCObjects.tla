----------------------------- MODULE MCObjects -----------------------------
(* Small complete artifacts, exhaustively: TLC builds every artifact of a     *)
(* scope by the public calls of the front end, emits it with the constructive *)
(* models of the two back ends, and checks the listed properties on what they *)
(* emit.  The calls of every artifact are printed, so that the same artifacts *)
(* are built and emitted by the real crate.                                   *)
EXTENDS Props, ElfBuild, MachBuild, Json

CONSTANTS Scope,        \* which artifacts
          Judged,       \* property ids to check on the models
          Bug           \* a design error planted in the models ("none": the design as it is)

VARIABLES a, path, k
vars == <<a, path, k>>

(* ---- the catalogue of things an artifact may contain ---- *)
Bytes(b) == [zero |-> FALSE, b |-> b, z |-> U0, syms |-> <<>>]
Zeros(n) == [zero |-> TRUE, b |-> "", z |-> U(n), syms |-> <<>>]
WithSyms(b, ss) == [zero |-> FALSE, b |-> b, z |-> U0, syms |-> ss]
Def(d, x) == [d |-> d, x |-> x]
Imp(d) == [d |-> d, x |-> Bytes("")]

Scopes == {"L", "G", "W"}
Viss == {"D", "P", "H"}
Als == {-1, 0, 3, 5}
Blob3 == "a1b2c3"
FnDecls == {[Fn0 EXCEPT !.scope = s, !.vis = v, !.al = al] : s \in Scopes, v \in Viss, al \in Als}
DataDecls == {[Data0 EXCEPT !.scope = s, !.vis = v, !.al = al, !.w = w, !.dt = t] : s \in Scopes, v \in Viss, al \in Als, w \in BOOLEAN, t \in {"bytes", "str"}}
SecDecls == {[Sec0(sk) EXCEPT !.dt = t, !.al = al] : sk \in {"Data", "Debug", "Text"}, t \in {"bytes", "str"}, al \in Als}
Everything ==
  {Def(d, Bytes(b)) : d \in FnDecls, b \in {"", Blob3}}
  \cup {Def(d, x) : d \in DataDecls, x \in {Bytes(""), Bytes(Blob3), Zeros(0), Zeros(24)}}
  \cup {Def(d, x) : d \in SecDecls, x \in {Bytes(""), WithSyms(Blob3, <<<<"s1", U(1)>>>>), WithSyms(Blob3, <<<<"s1", U0>>, <<"s2", U(9)>>>>)}}
  \cup {Imp(Ifn), Imp(Idata)}

G(d) == [d EXCEPT !.scope = "G"]
Wk(d) == [d EXCEPT !.scope = "W"]
A(d, n) == [d EXCEPT !.al = n]
Wr(d) == [d EXCEPT !.w = TRUE]
Some ==
  {Def(Fn0, Bytes("c3")), Def(G(Fn0), Bytes("9090c3")), Def(A(Wk(Fn0), 6), Bytes("")), Def(A(Fn0, 0), Bytes(Blob3)),
   Def(Data0, Bytes(Blob3)), Def(G(Wr(Data0)), Bytes("0102030405060708")), Def(A(Wk(Data0), 5), Bytes("ff")), Def(A(Wr(Data0), 0), Bytes("")),
   Def(Cstr0, Bytes("6100")), Def(A(G(Cstr0), 4), Bytes("626300")),
   Def(Wr(Data0), Zeros(8)), Def(A(G(Data0), 4), Zeros(1)), Def(Wk(Cstr0), Zeros(3)),
   Def(Sec0("Data"), Bytes("0011")), Def(A(Sec0("Debug"), 3), WithSyms(Blob3, <<<<"@1", U(1)>>, <<"@2", U(3)>>>>)), Def([Sec0("Text") EXCEPT !.dt = "str"], Bytes("")),
   Imp(Ifn), Imp(Idata)}
(* custom symbols need names of their own: "@" stands for the section's name *)
Own(n, ss) == [i \in 1..Len(ss) |-> <<IF SubSeq(ss[i][1], 1, 1) = "@" THEN n \o SubSeq(ss[i][1], 2, 2) ELSE ss[i][1], ss[i][2]>>]
(* the calls that put an entry of the catalogue into an artifact under name n *)
CallsFor(n, e) ==
  IF IsImport(e.d) THEN <<[op |-> "import", n |-> n, k |-> IF e.d.k = "ifn" THEN "fn" ELSE "data"]>>
  ELSE IF e.d.k = "sec" THEN <<[op |-> "declare", n |-> n, d |-> e.d],
                              [op |-> "defsyms", n |-> n, zero |-> FALSE, b |-> e.x.b, z |-> U0, syms |-> Own(n, e.x.syms)]>>
  ELSE IF e.x.zero THEN <<[op |-> "declare", n |-> n, d |-> e.d], [op |-> "definez", n |-> n, z |-> e.x.z]>>
  ELSE <<[op |-> "declwith", n |-> n, d |-> e.d, b |-> e.x.b]>>
LinkCall(f, t, at, rel) == [op |-> IF rel.t = "auto" THEN "link" ELSE "linkw", from |-> f, to |-> t, at |-> U(at), rel |-> rel]
Raw(r, add) == [t |-> "raw", r |-> U(r), sz |-> 0, add |-> add]
Dbg(sz, add) == [t |-> "dbg", r |-> U0, sz |-> sz, add |-> add]

Run(x, cs) == FoldLeft(LAMBDA s, c : Step(s, c).a, x, cs)
Name(i) == <<"a", "b", "c", "d", "e", "f", "g", "h", "i">>[i]

(* ---- scopes ---- *)
(* a fixed base, then up to MaxItems items out of a menu that may depend on how many there are *)
Empty(nm, arch) == [a |-> NewArtifact(nm, arch, "elf", FALSE), path |-> <<>>]
Add1(s, cs) == [a |-> Run(s.a, cs), path |-> s.path \o cs]
Fill(s, es) == FoldLeft(LAMBDA x, i : Add1(x, CallsFor(Name(i), es[i])), s, [i \in 1..Len(es) |-> i])
AllKinds == <<Def(Fn0, Bytes("9090909090909090")), Def(G(Fn0), Bytes("9090c3")), Def(Wr(Data0), Bytes("0102030405060708")), Def(A(G(Data0), 4), Zeros(16)),
              Def(Cstr0, Bytes("6100")), Def(Sec0("Debug"), WithSyms("0011223344556677", <<<<"s1", U(1)>>>>)), Imp(Ifn), Imp(Idata), Def(Wk(Fn0), Bytes("90909090c3"))>>
AllNames == {Name(i) : i \in 1..Len(AllKinds)}
Rels == {AutoRel, Raw(0, U0), Raw(1, U0), Raw(3, Minus4), Dbg(8, U0), Dbg(4, U(5))}
AwkwardNames == {".strtab", ".symtab", "a", ".text.a", ".data.a", ".rodata.a", ".note.GNU-stack", "t.o", ".relaa", ".rela.text.a", "__text", "text.a", "%c3%a9"}

Bases ==
  CASE Scope = "single" -> {Empty("t.o", arch) : arch \in {"x86_64", "powerpc"}}
    [] Scope \in {"pairs", "triples"} -> {Empty("t.o", "x86_64")}
    [] Scope = "links" -> {Fill(Empty("t.o", arch), AllKinds) : arch \in {"x86_64", "i686"}}
    [] Scope = "links2" -> {Fill(Empty("t.o", "x86_64"), AllKinds)}
    [] Scope \in {"names", "names2"} -> {Empty(nm, "x86_64") : nm \in AwkwardNames}
    [] Scope = "targets" -> {Fill(Empty("t.o", arch), AllKinds) : arch \in DOMAIN Targets}
MaxItems == CASE Scope \in {"single", "links", "names"} -> 1 [] Scope \in {"pairs", "links2", "names2"} -> 2 [] Scope = "triples" -> 3 [] OTHER -> 0
Menu ==
  CASE Scope = "single" -> {CallsFor("a", e) : e \in Everything}
    [] Scope \in {"pairs", "triples"} -> {CallsFor(Name(k + 1), e) : e \in Some}
    [] Scope = "links" -> {<<LinkCall(f, t, at, rel)>> : f, t \in AllNames, at \in {0, 4}, rel \in Rels}
    [] Scope = "links2" -> {<<LinkCall(f, t, at, rel)>> : f \in {"a", "c", "f"}, t \in {"a", "b", "d", "f", "g"}, at \in {0, 4}, rel \in {AutoRel, Raw(1, U0), Dbg(8, U0)}}
    [] Scope \in {"names", "names2"} -> {CallsFor(n, e) : n \in AwkwardNames \ Declared(a), e \in {Def(G(Fn0), Bytes("c3")), Def(Sec0("Data"), Bytes("0011")), Imp(Ifn)}}
    [] OTHER -> {}

Init == \E s \in Bases : a = s.a /\ path = s.path /\ k = 0
Next == /\ k < MaxItems
        /\ \E cs \in Menu :
             LET b == Run(a, cs) IN
             /\ b # a
             /\ a' = b /\ path' = path \o cs /\ k' = k + 1
Spec == Init /\ [][Next]_vars

Emit == PrintT("STATE " \o ToJson([name |-> a.name, arch |-> a.arch, path |-> path, elf |-> ElfSupported(a), macho |-> MachSupported(a)]))

(* ---- the properties, on the models of the back ends ---- *)
(* the same facts, stated in other orders *)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Reordered(b) ==
  {[b EXCEPT !.strs = Swap(@, i, i + 1)] : i \in 1..(Len(b.strs) - 1)}
  \cup {[b EXCEPT !.imps = Swap(@, i, i + 1)] : i \in 1..(Len(b.imps) - 1)}
  \cup {[b EXCEPT !.links = Swap(@, i, i + 1)] : i \in 1..(Len(b.links) - 1)}
Built(f) == IF f = "elf" THEN BuildElf(a, LO_RESERVE, Bug) ELSE BuildMach(a, Bug)
ModelFails ==
  IF Undefined(a) # {} THEN {} ELSE
  UNION {IF ~Supported(a, f) THEN {} ELSE
         LET o == Built(f) IN {<<f, p>> : p \in {q \in ObjPropIds(f) \cap Judged : ObjFails(q, a, f, o) # {}}}
         : f \in Formats}
  \cup (IF "C21" \in Judged /\ ElfSupported(a) /\ MachSupported(a)
        THEN IF CrossFails(a, Built("elf"), Built("macho")) = {} THEN {} ELSE {<<"both", "C21">>} ELSE {})
  \cup (IF "C22" \in Judged
        THEN UNION {IF Supported(a, f) /\ \E b \in Reordered(a) : Meaning(b, f, IF f = "elf" THEN BuildElf(b, LO_RESERVE, Bug) ELSE BuildMach(b, Bug)) # Meaning(a, f, Built(f))
                    THEN {<<f, "C22">>} ELSE {} : f \in Formats} ELSE {})
Holds == ModelFails = {}
Sound == ArtifactSound(a) /\ Undefined(a) = {}
(* with a planted design error: some artifact must show it *)
Unnoticed == ModelFails = {}
=============================================================================
