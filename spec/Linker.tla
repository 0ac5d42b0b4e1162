------------------------------- MODULE Linker -------------------------------
(* What the objects of several artifacts mean together: the rules by which a *)
(* linker makes one program of them, stated on artifacts (not on objects),   *)
(* and what must be seen of the program the real linkers of the system make  *)
(* of the real objects.                                                      *)
(* A sequence A of artifacts; a provider of a name is the index of one that  *)
(* defines it for the others.                                                *)
EXTENDS Supported

(* ---- which definition a name stands for ---- *)
Visible(a, n) == n \in DefsOf(a) /\ a.decl[n].scope # "L"
Providers(A, n) == {i \in 1..Len(A) : Visible(A[i], n)}
Strongs(A, n) == {i \in Providers(A, n) : A[i].decl[n].scope = "G"}
Shared(A) == UNION {{n \in DefsOf(A[i]) : A[i].decl[n].scope # "L"} : i \in 1..Len(A)}
Duplicates(A) == {n \in Shared(A) : Cardinality(Strongs(A, n)) > 1}
(* the strong definition, or the first of the weak ones; 0 if there is none *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Chosen(A, n) == IF Providers(A, n) = {} THEN 0
                ELSE IF Strongs(A, n) # {} THEN Least(Strongs(A, n)) ELSE Least(Providers(A, n))
(* a definition of its own that is not offered to others comes first *)
Resolve(A, i, n) == IF n \in DefsOf(A[i]) /\ A[i].decl[n].scope = "L" THEN i ELSE Chosen(A, n)
Wanted(A, i) == {A[i].links[k].to : k \in 1..Len(A[i].links)}
Missing(A) == UNION {{n \in Wanted(A, i) : n \notin SecsOf(A[i]) /\ Resolve(A, i, n) = 0} : i \in 1..Len(A)}
Joins(A) == Duplicates(A) = {} /\ Missing(A) = {}
(* what is in the program under an address *)
Live(A) == {<<i, n>> \in UNION {{i} \X DefsOf(A[i]) : i \in 1..Len(A)} : Resolve(A, i, n) = i}

(* ---- the values in a program ---- *)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Byte(v) == Hex[(v \div 16) + 1] \o Hex[(v % 16) + 1]
(* byte k (0 is the least) of a 64-bit value *)
ByteOf(v, k) == Byte(IF k < 3 THEN (v[3] \div (256 ^ k)) % 256 ELSE IF k < 6 THEN (v[2] \div (256 ^ (k - 3))) % 256 ELSE (v[1] \div (256 ^ (k - 6))) % 256)
RECURSIVE LEBytes(_, _, _)
LEBytes(v, k, w) == IF k = w THEN "" ELSE ByteOf(v, k) \o LEBytes(v, k + 1, w)
RECURSIVE BEBytes(_, _, _)
BEBytes(v, k, w) == IF k = w THEN "" ELSE BEBytes(v, k + 1, w) \o ByteOf(v, k)
Bytes(v, w, dat) == IF dat = "L" THEN LEBytes(v, 0, w) ELSE BEBytes(v, 0, w)
Neg(x) == Add(<<65535 - x[1], 16777215 - x[2], 16777215 - x[3]>>, U(1))
Minus(x, y) == Add(x, Neg(y))                      \* modulo 2^64
HexDigit(c) == CHOOSE k \in 0..15 : Hex[k + 1] = c
RECURSIVE Number(_, _)                             \* of little-endian bytes, at most 8
Number(s, w) == IF w = 0 THEN U0
                ELSE LET hi == HexDigit(SubSeq(s, 2 * w - 1, 2 * w - 1)) * 16 + HexDigit(SubSeq(s, 2 * w, 2 * w))
                         k == w - 1 IN
                     Add(Number(s, k), IF k < 3 THEN <<0, 0, hi * (256 ^ k)>> ELSE IF k < 6 THEN <<0, hi * (256 ^ (k - 3)), 0>> ELSE <<hi * (256 ^ (k - 6)), 0, 0>>)
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN "00" \o Zeros(n - 1) ELSE LET h == Zeros(n \div 2) IN h \o h

(* ---- what a link comes to: [w width, k kind], kind "no" if it is left open ---- *)
(* abs: S + A; rel: S + A - P; got: the place holds the way to a word that holds S *)
Eff(w, k) == [w |-> w, k |-> k]
NoEff == Eff(0, "no")
(* the relocation types by which a machine states an absolute address, by width *)
AbsTypes == [x86_64 |-> (8 :> 1) @@ (4 :> 10), aarch64 |-> (8 :> 257) @@ (4 :> 258), riscv64gc |-> (8 :> 2) @@ (4 :> 1),
             powerpc64le |-> (8 :> 38), powerpc64 |-> (8 :> 38), s390x |-> (8 :> 22) @@ (4 :> 4), i686 |-> (4 :> 1), armv7 |-> (4 :> 2),
             mips |-> (4 :> 2), mipsel |-> (4 :> 2), mips64 |-> (8 :> 18), mips64el |-> (8 :> 18),
             powerpc |-> (4 :> 1), sparcv9 |-> (8 :> 32), sparc64 |-> (8 :> 32), riscv32imac |-> (4 :> 1)]
ElfEff(a, l) ==
  CASE l.rel.t = "raw" ->
         IF ~IsSmall(l.rel.r) THEN NoEff ELSE
         LET r == Nat32(l.rel.r) IN
         IF a.arch = "x86_64" /\ r \in {2, 4} THEN Eff(4, "rel")
         ELSE IF a.arch = "x86_64" /\ r = 24 THEN Eff(8, "rel")
         ELSE IF a.arch = "x86_64" /\ r = 11 THEN Eff(4, "abs")
         ELSE IF a.arch \notin DOMAIN AbsTypes THEN NoEff
         ELSE LET W == {w \in DOMAIN AbsTypes[a.arch] : AbsTypes[a.arch][w] = r} IN
              IF W = {} THEN NoEff ELSE Eff(Least(W), "abs")
    [] a.arch # "x86_64" -> NoEff
    [] l.rel.t = "dbg" -> Eff(l.rel.sz, "abs")
    [] l.rel.t = "auto" ->
         IF From(a, l).k = "data" THEN Eff(8, "abs")
         ELSE IF To(a, l).k = "idata" THEN Eff(4, "got") ELSE Eff(4, "rel")
ElfAdd(a, l) == IF l.rel.t = "auto" THEN (IF From(a, l).k = "fn" THEN Minus4 ELSE U0) ELSE Sext32(l.rel.add)
(* Mach-O: on x86-64 only; what lies at the place is the addend, so the places are zero *)
MachEff(a, l) ==
  IF a.arch # "x86_64" \/ From(a, l).k = "sec" THEN NoEff ELSE
  CASE l.rel.t = "auto" ->
         IF From(a, l).k = "data" THEN Eff(8, "abs")
         ELSE IF To(a, l).k = "idata" THEN Eff(4, "got") ELSE Eff(4, "rel")
    [] l.rel.t = "raw" -> IF l.rel.r = U0 THEN Eff(8, "abs") ELSE IF l.rel.r \in {U(1), U(2)} THEN Eff(4, "rel") ELSE NoEff
    [] OTHER -> NoEff
MachAdd(a, l) == LET e == MachEff(a, l) IN IF e.k = "abs" THEN U0 ELSE Minus4
LinkEff(a, f, l) == IF f = "elf" THEN ElfEff(a, l) ELSE MachEff(a, l)
LinkAdd(a, f, l) == IF f = "elf" THEN ElfAdd(a, l) ELSE MachAdd(a, l)

(* ---- which sets of artifacts are judged ---- *)
NameChars == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
              "A", "B", "C", "D", "E", "F", "G", "H", "K", "L", "M", "N", "P", "R", "S", "T", "V", "W", "X", "Y", "Z",
              "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "_"}
(* names that mean something to linkers themselves *)
Special == {"end", "etext", "edata", "unlikely", "hot", "startup", "exit", "rel", "init", "fini", "_start", "_end", "_etext", "_edata", "__bss_start"}
Plain(n) == n \notin Special /\ Len(n) > 0 /\ \A k \in 1..Len(n) : SubSeq(n, k, k) \in NameChars
LinkFits(a, f, l) ==
  LET e == LinkEff(a, f, l)
      x == a.defd[l.from]
      A == LinkAdd(a, f, l) IN
  /\ e.w > 0 /\ ~x.zero /\ a.decl[l.from].dt # "str"
  /\ IsSmall(l.at) /\ Nat32(l.at) + e.w <= Len(x.b) \div 2
  (* nothing overflows a field of 32 bits *)
  /\ (e.w = 4 => IF e.k = "abs" THEN A[1] = 0 /\ A[2] = 0 ELSE (A[1] = 0 /\ A[2] = 0) \/ (A[1] = 65535 /\ A[2] = 16777215))
  /\ (To(a, l).k = "sec" => From(a, l).k = "sec" /\ e.k = "abs")
  (* a load through a table entry may be turned into a direct one where the instruction is a plain load *)
  /\ (e.k = "got" => LET at == Nat32(l.at) IN
        IF f = "elf" THEN at < 2 \/ SubSeq(x.b, 2 * at - 3, 2 * at - 2) # "8b"
        ELSE at >= 3 /\ SubSeq(x.b, 2 * at - 5, 2 * at) = "488b05")
  /\ (f = "macho" => SubSeq(x.b, 2 * Nat32(l.at) + 1, 2 * (Nat32(l.at) + e.w)) = Zeros(e.w))
  /\ (e.k # "abs" => From(a, l).k = "fn")
Apart(a, f) ==
  \A j, k \in 1..Len(a.links) :
    LET l == a.links[j]
        m == a.links[k] IN
    (j # k /\ l.from = m.from) => \/ Nat32(l.at) + LinkEff(a, f, l).w <= Nat32(m.at)
                                  \/ Nat32(m.at) + LinkEff(a, f, m).w <= Nat32(l.at)
OneString(x) == /\ ~x.zero /\ Len(x.b) >= 2
                /\ \A k \in 1..(Len(x.b) \div 2) : (SubSeq(x.b, 2 * k - 1, 2 * k) = "00") = (k = Len(x.b) \div 2)
IsDebug(n) == StartsWith(n, ".debug_") /\ n \notin {".debug_str", ".debug_line_str"}
SizeBound == 4096
JoinableOne(a, f) ==
  /\ Undefined(a) = {} /\ Supported(a, f) /\ Custom(a) = {}
  /\ Plain(a.name) /\ \A n \in Declared(a) : a.decl[n].k # "sec" => Plain(n)
  /\ \A n \in Defined(a) : /\ a.decl[n].al <= 12 /\ Le(SizeOf(a.defd[n]), U(SizeBound))
                           /\ (a.decl[n].dt = "str" => OneString(a.defd[n]))
                           /\ (a.decl[n].k = "sec" => f = "elf" /\ a.decl[n].sk = "Debug" /\ IsDebug(n) /\ a.decl[n].dt # "str")
                           (* Mach-O: weak definitions are reached through tables of the dynamic linker *)
                           /\ (f = "macho" => a.decl[n].scope # "W" /\ (a.decl[n].dt = "str" => a.decl[n].al = -1))
  /\ \A k \in 1..Len(a.links) : LinkFits(a, f, a.links[k])
  /\ Apart(a, f)
(* a name that is local somewhere must be told apart in the program: by the name of its artifact in ELF *)
LocalsOf(a) == {n \in DefsOf(a) : a.decl[n].scope = "L"}
HiddenSomewhere(A, n) == \E i \in Providers(A, n) : A[i].decl[n].vis = "H"
Joinable(A, f, ld) ==
  /\ Len(A) > 0
  /\ \A i, j \in 1..Len(A) : A[i].arch = A[j].arch /\ (i # j => A[i].name # A[j].name)
  /\ CASE ld = "bfd" -> f = "elf" /\ A[1].arch = "x86_64"
       [] ld = "lld" -> f = "elf" /\ A[1].arch \in DOMAIN AbsTypes
       [] ld = "ld64" -> f = "macho" /\ A[1].arch \in {"x86_64", "aarch64"}
  /\ \A i \in 1..Len(A) : JoinableOne(A[i], f)
  /\ \A i, j \in 1..Len(A) : \A n \in LocalsOf(A[i]) :
        /\ ~HiddenSomewhere(A, n)
        /\ (f = "macho" /\ i # j => n \notin DefsOf(A[j]))
  (* how a linker treats an import that is missing is told by links from what is loaded *)
  /\ \A i \in 1..Len(A) : \A k \in 1..Len(A[i].links) :
        LET l == A[i].links[k] IN
        (From(A[i], l).k = "sec" /\ To(A[i], l).k # "sec") => Resolve(A, i, l.to) # 0
  /\ \A i \in 1..Len(A) : \A n \in Imports(A[i]) : Chosen(A, n) # 0 \/ n \in Wanted(A, i)

(* ---- what the linker made of them ---- *)
JChk(label, ok) == IF ok THEN {} ELSE {label}
SymsAt(img, n, g, l) == {k \in 1..Len(img.syms) : img.syms[k].n = n /\ img.syms[k].d /\ img.syms[k].l = l /\ (l => img.syms[k].g = g)}
(* the symbols that may stand for definition n of artifact i *)
Shown(A, f, img, i, n) ==
  IF A[i].decl[n].scope = "L" THEN SymsAt(img, n, IF f = "elf" THEN A[i].name ELSE "", TRUE)
  ELSE IF HiddenSomewhere(A, n) THEN {k \in 1..Len(img.syms) : img.syms[k].n = n /\ img.syms[k].d}
  ELSE SymsAt(img, n, "", FALSE)
Addresses(A, f, img) ==
  TLCEval([x \in Live(A) |-> LET S == Shown(A, f, img, x[1], x[2]) IN
            IF Cardinality(S) = 1 THEN <<img.syms[CHOOSE k \in S : TRUE].va>> ELSE <<>>])
(* the loaded section that holds w bytes at an address; 0 if there is none *)
SecAt(img, va, w) ==
  LET S == {k \in 1..Len(img.secs) : LET s == img.secs[k] IN s.alloc /\ Le(s.va, va) /\ Le(Add(va, w), Add(s.va, s.size))}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
ReadSec(s, off, w) == IF s.zero THEN Zeros(w) ELSE SubSeq(s.b, 2 * off + 1, 2 * (off + w))
Read(img, va, w) == LET k == SecAt(img, va, U(w)) IN IF k = 0 THEN "?" ELSE ReadSec(img.secs[k], Nat32(Sub(va, img.secs[k].va)), w)

(* debug sections: the pieces of one name follow each other, at their alignment *)
AlOf(a, n) == IF a.decl[n].al < 0 THEN 0 ELSE a.decl[n].al
RECURSIVE PieceStart(_, _, _)
PieceStart(A, i, n) ==
  IF i = 1 THEN 0 ELSE
  LET j == i - 1
      end == PieceStart(A, j, n) + (IF n \in SecsOf(A[j]) THEN Len(A[j].defd[n].b) \div 2 ELSE 0)
      al == IF n \in SecsOf(A[i]) THEN 2 ^ AlOf(A[i], n) ELSE 1
  IN ((end + al - 1) \div al) * al
DebugSec(img, n) == {k \in 1..Len(img.secs) : img.secs[k].n = n}

(* the address a link from artifact i leads to *)
Dest(A, adr, i, l) ==
  IF l.to \in SecsOf(A[i]) THEN U(PieceStart(A, i, l.to)) ELSE adr[<<Resolve(A, i, l.to), l.to>>][1]
Known(A, adr, i, l) == l.to \in SecsOf(A[i]) \/ adr[<<Resolve(A, i, l.to), l.to>>] # <<>>
Mine(a, n) == {k \in 1..Len(a.links) : a.links[k].from = n}
(* the bytes at the place of a link in the program, given what is there: {} or a label *)
LinkPlaceFails(A, f, img, adr, i, n, here, va, k) ==
  LET a == A[i]
      l == a.links[k]
      e == LinkEff(a, f, l)
      at == Nat32(l.at)
      got == SubSeq(here, 2 * at + 1, 2 * (at + e.w))
      P == Add(va, l.at) IN
  (* no address is claimed for an empty definition *)
  IF ~Known(A, adr, i, l) THEN {} ELSE
  LET S == Dest(A, adr, i, l)
      D == LinkAdd(a, f, l) IN
  CASE e.k = "abs" -> JChk("link-absolute", got = Bytes(Add(S, D), e.w, Target(a).dat))
    [] e.k = "rel" -> JChk("link-relative", got = Bytes(Minus(Add(S, D), P), e.w, Target(a).dat))
    [] e.k = "got" ->
         LET to == Add(Add(P, U(4)), Sext32(Number(got, 4))) IN
         IF f = "macho" /\ SubSeq(here, 2 * at - 3, 2 * at - 2) = "8d" THEN JChk("link-table", to = S)
         ELSE JChk("link-table", Read(img, to, 8) = LEBytes(S, 0, 8))
(* the contents with the places of links blanked out *)
RECURSIVE Blank(_, _, _, _)
Blank(a, f, s, K) ==
  IF K = {} THEN s ELSE
  LET k == CHOOSE x \in K : TRUE
      l == a.links[k]
      e == LinkEff(a, f, l)
      at == Nat32(l.at)
      t == SubSeq(s, 1, 2 * at) \o Zeros(e.w) \o SubSeq(s, 2 * (at + e.w) + 1, Len(s))
      (* a load through the table that was made direct *)
      u == IF f = "macho" /\ e.k = "got" /\ SubSeq(t, 2 * at - 3, 2 * at - 2) = "8d"
           THEN SubSeq(t, 1, 2 * at - 4) \o "8b" \o SubSeq(t, 2 * at - 1, Len(t)) ELSE t IN
  Blank(a, f, u, K \ {k})
ContentFails(A, f, img, adr, i, n, here, va) ==
  LET a == A[i]
      K == Mine(a, n) IN
  IF Len(here) # Len(a.defd[n].b) THEN {"contents"} ELSE
  JChk("contents", Blank(a, f, here, K) = Blank(a, f, a.defd[n].b, K))
  \cup UNION {LinkPlaceFails(A, f, img, adr, i, n, here, va, k) : k \in K}

DefaultAl(a, f, n) == IF f # "elf" THEN 0 ELSE IF a.decl[n].k = "fn" THEN 4 ELSE IF a.decl[n].w THEN 3 ELSE 0
DefFails(A, f, img, adr, i, n) ==
  LET a == A[i]
      d == a.decl[n]
      x == a.defd[n]
      w == Nat32(SizeOf(x)) IN
  (* an empty definition may vanish with its section, the local symbols of an object without contents too *)
  IF adr[<<i, n>>] = <<>> THEN (IF w = 0 \/ (d.scope = "L" /\ \A m \in DefsOf(a) : a.defd[m].zero \/ a.defd[m].b = "") THEN {} ELSE {"symbol"}) ELSE
  IF w = 0 THEN {} ELSE
  LET va == adr[<<i, n>>][1]
      k == SecAt(img, va, U(w)) IN
  IF k = 0 THEN {"not-loaded"} ELSE
  LET s == img.secs[k] IN
  JChk("address-alignment", Aligned(va, IF d.al >= 0 THEN d.al ELSE DefaultAl(a, f, n)))
  \cup JChk("executable", d.k = "fn" => s.x /\ (f = "elf" => ~s.w))
  \cup JChk("writable", (d.k = "data" /\ (d.w \/ x.zero)) => s.w)
  \cup JChk("read-only", (f = "elf" /\ d.k = "data" /\ ~d.w /\ ~x.zero) => ~s.w /\ ~s.x)
  \cup (IF x.zero THEN JChk("zero", Read(img, va, w) = Zeros(w))
        ELSE ContentFails(A, f, img, adr, i, n, Read(img, va, w), va))
(* no two definitions share a byte (equal strings may) *)
Spread(A, adr) ==
  LET X == {x \in Live(A) : adr[x] # <<>> /\ SizeOf(A[x[1]].defd[x[2]]) # U0 /\ A[x[1]].decl[x[2]].dt # "str"}
      end(x) == Add(adr[x][1], SizeOf(A[x[1]].defd[x[2]])) IN
  JChk("overlap", \A x, y \in X : x # y => Le(end(x), adr[y][1]) \/ Le(end(y), adr[x][1]))
DebugFails(A, f, img, adr) ==
  UNION {UNION {LET S == DebugSec(img, n)
                    w == Len(A[i].defd[n].b) \div 2
                    p == PieceStart(A, i, n) IN
     IF w = 0 THEN {}
     ELSE IF Cardinality(S) # 1 THEN {"debug-section"}
     ELSE LET s == img.secs[CHOOSE k \in S : TRUE] IN
          IF s.alloc \/ s.zero \/ ~Le(U(p + w), s.size) THEN {"debug-section"}
          ELSE ContentFails(A, f, img, adr, i, n, ReadSec(s, p, w), U(p))
     : n \in SecsOf(A[i])} : i \in 1..Len(A)}

Set(s) == {s[k] : k \in 1..Len(s)}
Refusal(A, r) ==
  /\ r.r = "err" /\ Len(r.und) + Len(r.dup) > 0
  /\ Set(r.und) \subseteq Missing(A) /\ Set(r.dup) \subseteq Duplicates(A)
  /\ (Missing(A) = {} => Set(r.dup) = Duplicates(A)) /\ (Duplicates(A) = {} => Set(r.und) = Missing(A))
JoinFails(A, f, ld, r, img) ==
  IF r.r = "nolinker" \/ ~Joinable(A, f, ld) THEN {}
  ELSE IF r.r = "noobject" THEN {"no-object"}
  ELSE IF ~Joins(A) THEN JChk("refusal", Refusal(A, r))
  ELSE IF r.r # "ok" THEN {"refused"}
  ELSE IF ~img.ok THEN {"no-image"}
  ELSE LET adr == Addresses(A, f, img) IN
       JChk("complaint", r.und = <<>> /\ r.dup = <<>> /\ r.other = <<>>)
       \cup JChk("stack", (ld = "bfd" /\ \E x \in Live(A) : SizeOf(A[x[1]].defd[x[2]]) # U0) => img.stack = "nx")
       \cup UNION {DefFails(A, f, img, adr, x[1], x[2]) : x \in Live(A)}
       \cup Spread(A, adr)
       \cup (IF f = "elf" THEN DebugFails(A, f, img, adr) ELSE {})
=============================================================================
