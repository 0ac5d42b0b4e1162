------------------------------ MODULE MCLinker ------------------------------
(* Teams of artifacts that share one or two names: every way in which each of *)
(* them may define, hide or import them.  The rules of Linker.tla are checked *)
(* for what a user relies on when a program is compiled in pieces; and the    *)
(* objects the models of the two back ends emit, read by nothing but their    *)
(* symbol tables, are checked to mean the same as the artifacts.              *)
(* The teams are printed, so that their objects are made by the real crate    *)
(* and linked by the real linkers.                                            *)
EXTENDS Calls, Linker, ElfBuild, MachBuild, Json

CONSTANTS Size,      \* how many artifacts at most
          Shared2,   \* do they share a second name?
          Judge,     \* programs of up to how many artifacts are perturbed
          Bug

VARIABLES role, what, form
vars == <<role, what, form>>

(* "-": not mentioned; I import; G, H, W, L: a global, hidden, weak or local definition *)
Roles == {"-", "I", "G", "H", "W", "L"}
Names == IF Shared2 THEN {"f", "g"} ELSE {"f"}
Slots == 1..Len(role)
Init == role = <<>> /\ what \in (IF Shared2 THEN {"fn"} ELSE {"fn", "data"}) /\ form \in Formats
Next == Len(role) < Size /\ role' \in {Append(role, r) : r \in [Names -> Roles]} /\ UNCHANGED <<what, form>>
Spec == Init /\ [][Next]_vars

(* ---- the calls that make artifact i ---- *)
DeclOf(r) ==
  LET d == IF what = "fn" THEN Fn0 ELSE Data0 IN
  [d EXCEPT !.scope = CASE r \in {"G", "H"} -> "G" [] r = "W" -> "W" [] OTHER -> "L", !.vis = IF r = "H" THEN "H" ELSE "D"]
OwnName(i) == <<"u1", "u2", "u3">>[i]
Body(i) == <<"11", "22", "33">>[i]
PutName(i, n, r) ==
  IF r = "-" THEN <<>>
  ELSE IF r = "I" THEN <<[op |-> "import", n |-> n, k |-> what]>>
  ELSE <<[op |-> "declwith", n |-> n, d |-> DeclOf(r), b |-> Body(i) \o "00000000000000000000" \o Body(i)]>>
(* a function of its own that refers to every name it mentions; definitions refer to themselves *)
(* an instruction whose reference the linkers of the format leave as it is, or may only make direct *)
Load == IF form = "elf" THEN "480305" ELSE "488b05"
UserDecl == [Fn0 EXCEPT !.scope = "G"]
PlaceIn(n) == IF n = "f" THEN 3 ELSE 11
Uses(i, n, r) ==
  IF r = "-" THEN <<>>
  ELSE <<[op |-> "link", from |-> OwnName(i), to |-> n, at |-> U(PlaceIn(n)), rel |-> AutoRel]>>
       \o (IF r = "I" THEN <<>> ELSE <<[op |-> "link", from |-> n, to |-> n, at |-> U(2), rel |-> AutoRel]>>)
(* debug information about its own function, in ELF: links to the function and into the section itself *)
Debug(i) ==
  IF form # "elf" THEN <<>>
  ELSE <<[op |-> "declare", n |-> ".debug_info", d |-> [Sec0("Debug") EXCEPT !.al = <<-1, 3, 0>>[i]]],
         [op |-> "define", n |-> ".debug_info", b |-> Body(i) \o "000000000000000000000000" \o Body(i)],
         [op |-> "linkw", from |-> ".debug_info", to |-> OwnName(i), at |-> U(1), rel |-> [t |-> "dbg", r |-> U0, sz |-> 8, add |-> U0]],
         [op |-> "linkw", from |-> ".debug_info", to |-> ".debug_info", at |-> U(9), rel |-> [t |-> "dbg", r |-> U0, sz |-> 4, add |-> U(2)]]>>
CallsOf(i) ==
  PutName(i, "f", role[i]["f"]) \o (IF Shared2 THEN PutName(i, "g", role[i]["g"]) ELSE <<>>)
  \o <<[op |-> "declwith", n |-> OwnName(i), d |-> UserDecl, b |-> Load \o "00000000" \o "90" \o Load \o "00000000" \o "c3"]>>
  \o Uses(i, "f", role[i]["f"]) \o (IF Shared2 THEN Uses(i, "g", role[i]["g"]) ELSE <<>>) \o Debug(i)
PartName(i) == <<"part1", "part2", "part3">>[i]
Part1(i) == FoldLeft(LAMBDA s, c : Step(s, c).a, NewArtifact(PartName(i), "x86_64", "elf", FALSE), CallsOf(i))
TeamOf == [i \in Slots |-> Part1(i)]

Refused == \E i \in Slots : \E k \in 1..Len(CallsOf(i)) :
  Step(FoldLeft(LAMBDA s, c : Step(s, c).a, NewArtifact(PartName(i), "x86_64", "elf", FALSE), SubSeq(CallsOf(i), 1, k - 1)), CallsOf(i)[k]).errs # {}
Sound == ~Refused /\ \A i \in Slots : ArtifactSound(TeamOf[i]) /\ Undefined(TeamOf[i]) = {}
Lds == {ld \in (IF form = "elf" THEN {"bfd", "lld"} ELSE {"ld64"}) : Joinable(TeamOf, form, ld)}
Emit == role = <<>> \/ PrintT("STATE " \o ToJson([parts |-> [i \in Slots |-> [name |-> PartName(i), calls |-> CallsOf(i)]],
                                   form |-> form, joins |-> Joins(TeamOf), lds |-> Lds]))

(* ---- the rules ---- *)
Perms == {p \in [Slots -> Slots] : \A i, j \in Slots : p[i] = p[j] => i = j}
Shuffled(A, p) == [i \in Slots |-> A[p[i]]]
(* whether a program can be made does not depend on the order of its parts, nor does what a strong definition stands for *)
OrderFree ==
  LET A == TeamOf IN
  \A p \in Perms : LET B == Shuffled(A, p) IN
    /\ Joins(A) = Joins(B) /\ Missing(A) = Missing(B) /\ Duplicates(A) = Duplicates(B)
    /\ Joins(A) => \A i \in Slots : \A n \in Wanted(B, i) :
         LET x == Resolve(B, i, n) IN
         (x # 0 /\ (B[x].decl[n].scope # "W" \/ Cardinality(Providers(A, n)) = 1)) => p[x] = Resolve(A, p[i], n)
(* a name means one thing to all who do not hide it *)
Agreement ==
  LET A == TeamOf IN
  \A i, j \in Slots : \A n \in Wanted(A, i) \cap Wanted(A, j) :
    Resolve(A, i, n) # Resolve(A, j, n) => \E k \in {i, j} : n \in LocalsOf(A[k])
(* a local definition is what its own artifact means, and nobody else *)
Locality ==
  LET A == TeamOf IN
  \A i \in Slots : \A n \in LocalsOf(A[i]) : Resolve(A, i, n) = i /\ \A j \in Slots \ {i} : Resolve(A, j, n) # i
(* a weak definition gives way to any other, also for references of its own artifact *)
StrongWins ==
  LET A == TeamOf IN
  \A i \in Slots : \A n \in Wanted(A, i) :
    LET x == Resolve(A, i, n) IN (x # 0 /\ A[x].decl[n].scope = "W") => Strongs(A, n) = {}
(* more parts: nothing that was found is lost, and no conflict is cured *)
Growth ==
  LET A == TeamOf IN
  \A m \in 1..(Len(role) - 1) : LET B == SubSeq(A, 1, m) IN
    /\ Duplicates(B) \subseteq Duplicates(A)
    /\ \A i \in 1..m : \A n \in Wanted(B, i) :
         /\ Resolve(B, i, n) # 0 => Resolve(A, i, n) # 0
         /\ (Resolve(B, i, n) # 0 /\ B[Resolve(B, i, n)].decl[n].scope # "W" /\ n \notin Duplicates(A)) => Resolve(A, i, n) = Resolve(B, i, n)
(* what is live is defined once *)
OneLive ==
  LET A == TeamOf IN
  \A x, y \in Live(A) : (x # y /\ x[2] = y[2]) => \E z \in {x, y} : A[z[1]].decl[z[2]].scope = "L"

(* ---- the same, read off the objects ---- *)
(* what an object offers: <<name, strong?>> *)
ElfOffers(o) == {<<o.syms[k].nm, o.syms[k].bind = "G">> : k \in {j \in 1..Len(o.syms) : o.syms[j].bind # "L" /\ o.syms[j].sx > 0}}
MachOffers(o) == {<<o.syms[k].nm, o.syms[k].desc # 128>> : k \in {j \in 1..Len(o.syms) : o.syms[j].ext /\ o.syms[j].ty = "SECT"}}
Offered(O, n) ==
  LET S == {i \in Slots : <<n, TRUE>> \in O[i]}
      W == {i \in Slots : <<n, FALSE>> \in O[i]} IN
  IF S # {} THEN Least(S) ELSE IF W # {} THEN Least(W) ELSE 0
(* what entry r of object i leads to: <<part, section, offset>>, <<0>> if nothing *)
ElfPlace(o, i, k) == <<i, o.secs[o.syms[k].sx + 1].nm, o.syms[k].val>>
ElfLeads(objs, O, i, r) ==
  LET s == objs[i].syms[r.sym + 1] IN
  IF s.bind = "L" THEN ElfPlace(objs[i], i, r.sym + 1)
  ELSE LET j == Offered(O, s.nm) IN
       IF j = 0 THEN <<0>> ELSE ElfPlace(objs[j], j, CHOOSE k \in 1..Len(objs[j].syms) : objs[j].syms[k].nm = s.nm /\ objs[j].syms[k].bind # "L")
MachPlace(o, i, k) == <<i, o.syms[k].sect, o.syms[k].val>>
MachLeads(objs, O, i, r) ==
  LET s == objs[i].syms[r.sym + 1] IN
  IF ~s.ext THEN MachPlace(objs[i], i, r.sym + 1)
  ELSE LET j == Offered(O, s.nm) IN
       IF j = 0 THEN <<0>> ELSE MachPlace(objs[j], j, CHOOSE k \in 1..Len(objs[j].syms) : objs[j].syms[k].nm = s.nm /\ objs[j].syms[k].ext)
(* where a definition lies in the object of its part *)
ElfHome(A, j, n) == <<j, SectionName(A[j], n), U0>>
MachHome(objs, j, n) == MachPlace(objs[j], j, CHOOSE k \in 1..Len(objs[j].syms) : objs[j].syms[k].nm = n)
ElfEntry(A, objs, i, l) ==
  {k \in 1..Len(objs[i].rels) : objs[i].rels[k].off = l.at /\ objs[i].secs[objs[i].rels[k].tgt + 1].nm = SectionName(A[i], l.from)}
MachEntry(objs, i, l) ==
  LET h == objs[i].syms[CHOOSE k \in 1..Len(objs[i].syms) : objs[i].syms[k].nm = l.from] IN
  {k \in 1..Len(objs[i].rels) : LET r == objs[i].rels[k] IN
     r.sec = h.sect /\ r.off = Low32(Add(Sub(h.val, objs[i].secs[h.sect].addr), l.at))}
SameMeaning(A, f, objs) ==
  LET O == [i \in Slots |-> IF f = "elf" THEN ElfOffers(objs[i]) ELSE MachOffers(objs[i])] IN
  \A i \in Slots : \A k \in 1..Len(A[i].links) :
    LET l == A[i].links[k]
        x == Resolve(A, i, l.to)
        E == IF f = "elf" THEN ElfEntry(A, objs, i, l) ELSE MachEntry(objs, i, l) IN
    /\ Cardinality(E) = 1
    /\ LET r == objs[i].rels[CHOOSE e \in E : TRUE]
           at == IF f = "elf" THEN ElfLeads(objs, O, i, r) ELSE MachLeads(objs, O, i, r) IN
       at = IF l.to \in SecsOf(A[i]) THEN <<i, l.to, U0>> ELSE IF x = 0 THEN <<0>> ELSE IF f = "elf" THEN ElfHome(A, x, l.to) ELSE MachHome(objs, x, l.to)
SameConflicts(A, f, objs) ==
  LET O == [i \in Slots |-> IF f = "elf" THEN ElfOffers(objs[i]) ELSE MachOffers(objs[i])] IN
  {n \in UNION {{x[1] : x \in O[i]} : i \in Slots} : Cardinality({i \in Slots : <<n, TRUE>> \in O[i]}) > 1} = Duplicates(A)
(* references to a name that is defined twice mean nothing *)
Bridged ==
  LET A == TeamOf
      O == TLCEval([i \in Slots |-> IF form = "elf" THEN BuildElf(A[i], LO_RESERVE, Bug) ELSE BuildMach(A[i], Bug)]) IN
  /\ SameConflicts(A, form, O)
  /\ Duplicates(A) = {} => SameMeaning(A, form, O)
Unnoticed == Bridged

(* ---- a program as a plain linker makes it, and what must be seen of it ---- *)
LiveSeq(A) == FoldLeft(LAMBDA s, i : s \o [k \in 1..Len(SelectSeq(DefOrder(A[i]), LAMBDA n : n \in DefsOf(A[i]) /\ <<i, n>> \in Live(A))) |->
                                          <<i, SelectSeq(DefOrder(A[i]), LAMBDA n : n \in DefsOf(A[i]) /\ <<i, n>> \in Live(A))[k]>>],
                       <<>>, [i \in Slots |-> i])
(* one section for each definition, 64 bytes apart; a table entry for each link of the kind, behind them *)
Base0 == U(4194304)
At(k) == Add(Base0, U(64 * k))
GotLinks(A) == UNION {{<<i, k>> : k \in {j \in 1..Len(A[i].links) : LinkEff(A[i], form, A[i].links[j]).k = "got"}} : i \in Slots}
Earlier(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
RankIn(S, x) == Cardinality({y \in S : Earlier(y, x)})
Image(A) ==
  LET live == LiveSeq(A)
      place(i, n) == At(CHOOSE k \in 1..Len(live) : live[k] = <<i, n>>)
      got == GotLinks(A)
      entry(i, k) == Add(At(Len(live) + 1), U(8 * RankIn(got, <<i, k>>)))
      S(i, l) == IF l.to \in SecsOf(A[i]) THEN U(PieceStart(A, i, l.to)) ELSE place(Resolve(A, i, l.to), l.to)
      field(i, k, P) ==
        LET l == A[i].links[k]
            e == LinkEff(A[i], form, l)
            D == LinkAdd(A[i], form, l) IN
        CASE e.k = "abs" -> Bytes(Add(S(i, l), D), e.w, "L")
          [] e.k = "rel" -> Bytes(Minus(Add(S(i, l), D), P), e.w, "L")
          [] e.k = "got" -> Bytes(Minus(entry(i, k), Add(P, U(4))), 4, "L")
      filled(i, n, va) ==
        FoldLeft(LAMBDA b, k :
                   IF A[i].links[k].from # n THEN b ELSE
                   LET at == Nat32(A[i].links[k].at)
                       v == field(i, k, Add(va, U(at))) IN
                   SubSeq(b, 1, 2 * at) \o v \o SubSeq(b, 2 * at + Len(v) + 1, Len(b)),
                 A[i].defd[n].b, [k \in 1..Len(A[i].links) |-> k])
      sec(n, va, b, alloc, x, w) == [n |-> n, va |-> va, size |-> U(Len(b) \div 2), alloc |-> alloc, x |-> x, w |-> w, zero |-> FALSE, b |-> b]
      piece(acc, i) == LET n == ".debug_info"
                           at == PieceStart(A, i, n) IN acc \o Zeros(at - (Len(acc) \div 2)) \o filled(i, n, U(at))
      table == FoldLeft(LAMBDA b, x : b \o LEBytes(S(x[1], A[x[1]].links[x[2]]), 0, 8), "", SetToSortSeq(got, Earlier)) IN
  [ok |-> TRUE, stack |-> "nx",
   secs |-> [k \in 1..Len(live) |-> LET i == live[k][1] n == live[k][2] IN
               sec("s", At(k), filled(i, n, At(k)), TRUE, A[i].decl[n].k = "fn", FALSE)]
            \o (IF got = {} THEN <<>> ELSE <<sec("table", At(Len(live) + 1), table, TRUE, FALSE, TRUE)>>)
            \o (IF form = "elf" THEN <<sec(".debug_info", U0, FoldLeft(piece, "", [i \in Slots |-> i]), FALSE, FALSE, FALSE)>> ELSE <<>>),
   syms |-> [k \in 1..Len(live) |-> LET i == live[k][1] n == live[k][2] l == A[i].decl[n].scope = "L" IN
               [n |-> n, d |-> TRUE, l |-> l, g |-> IF l /\ form = "elf" THEN A[i].name ELSE "", va |-> At(k)]]]
Good == [r |-> "ok", und |-> <<>>, dup |-> <<>>, other |-> <<>>]
Bad(u, d) == [r |-> "err", und |-> SetToSeq(u), dup |-> SetToSeq(d), other |-> <<>>]
NoImage == [ok |-> FALSE, stack |-> "-", secs |-> <<>>, syms |-> <<>>]
Ld == IF form = "elf" THEN "bfd" ELSE "ld64"
Fails1(A, r, img) == JoinFails(A, form, Ld, r, img)
(* the program that follows the rules is accepted; where there is none, its refusal is *)
Program ==
  LET A == TeamOf IN
  Lds # {} => IF Joins(A) THEN Fails1(A, Good, Image(A)) = {}
              ELSE Fails1(A, Bad(Missing(A), Duplicates(A)), NoImage) = {}
(* and nothing else is: other bytes, addresses, permissions; symbols missing; a refusal without reason or for another one *)
Flip(c) == IF c = "0" THEN "1" ELSE "0"
OtherByte(s, k) == [s EXCEPT !.b = SubSeq(@, 1, k - 1) \o Flip(SubSeq(@, k, k)) \o SubSeq(@, k + 1, Len(@))]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Mutants(img) ==
  UNION {{[img EXCEPT !.secs[k] = OtherByte(@, b)] : b \in {x \in 1..Len(img.secs[k].b) : x % 2 = 0}} : k \in 1..Len(img.secs)}
  \cup {[img EXCEPT !.secs[k].x = FALSE] : k \in {j \in 1..Len(img.secs) : img.secs[j].x}}
  \cup {[img EXCEPT !.secs[k].w = TRUE] : k \in {j \in 1..Len(img.secs) : form = "elf" /\ img.secs[j].n = "s"}}
  \cup {[img EXCEPT !.secs[k].va = Add(@, U(1))] : k \in {j \in 1..Len(img.secs) : img.secs[j].n = "s"}}
  \cup {[img EXCEPT !.syms[k].va = Add(@, U(1))] : k \in 1..Len(img.syms)}
  \cup {[img EXCEPT !.syms = Without(@, k)] : k \in 1..Len(img.syms)}
  \cup {[img EXCEPT !.syms = Append(@, @[k])] : k \in 1..Len(img.syms)}
  \cup {[img EXCEPT !.secs = Without(@, k)] : k \in 1..Len(img.secs)}
  \cup (IF form = "elf" THEN {[img EXCEPT !.stack = "x"]} ELSE {})
(* the padding between pieces of debug sections is free *)
Padding(A, img) ==
  IF form # "elf" THEN {} ELSE
  LET d == Len(img.secs)
      used == UNION {(2 * PieceStart(A, i, ".debug_info") + 1)..(2 * PieceStart(A, i, ".debug_info") + Len(A[i].defd[".debug_info"].b)) : i \in Slots} IN
  {[img EXCEPT !.secs[d] = OtherByte(@, b)] : b \in (1..Len(img.secs[d].b)) \ used}
Strict ==
  LET A == TeamOf IN
  (Len(role) <= Judge /\ Lds # {}) =>
    IF Joins(A)
    THEN LET I == TLCEval(Image(A)) IN
         /\ \A m \in Mutants(I) \ Padding(A, I) : Fails1(A, Good, m) # {}
         /\ Fails1(A, Bad({"f"}, {}), NoImage) # {} /\ Fails1(A, Bad({}, {"f"}), NoImage) # {} /\ Fails1(A, Good, NoImage) # {}
         /\ Fails1(A, [Good EXCEPT !.other = <<"">>], I) # {}
    ELSE /\ Fails1(A, Good, NoImage) # {} /\ Fails1(A, Bad({}, {}), NoImage) # {} /\ Fails1(A, Bad({"u1"}, {}), NoImage) # {}
         /\ Fails1(A, Bad(Duplicates(A), Missing(A)), NoImage) # {}
=============================================================================
