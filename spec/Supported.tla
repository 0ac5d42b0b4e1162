----------------------------- MODULE Supported -----------------------------
(* Which complete artifacts the two back ends undertake to emit.  Outside    *)
(* these conditions a back end may refuse (by panicking, as the crate        *)
(* documents for unsupported relocations) and nothing is claimed about it.   *)
EXTENDS Artifact, Targets

DefsOf(a) == {n \in Defined(a) : a.decl[n].k \in {"fn", "data"}}
SecsOf(a) == {n \in Defined(a) : a.decl[n].k = "sec"}

(* names of the sections and symbols ELF emission generates *)
SectionName(a, n) ==
  LET d == a.decl[n] IN
  IF d.k = "sec" THEN n
  ELSE IF d.k = "fn" THEN ".text." \o n
  ELSE IF a.defd[n].zero THEN ".bss." \o n
  ELSE IF d.w THEN ".data." \o n ELSE ".rodata." \o n

(* (section, index) of every custom symbol *)
Custom(a) == UNION {{<<s, i>> : i \in 1..Len(a.defd[s].syms)} : s \in SecsOf(a)}
CName(a, c) == a.defd[c[1]].syms[c[2]][1]
CVal(a, c) == a.defd[c[1]].syms[c[2]][2]

NamesOk(a) == "" \notin (Declared(a) \cup {CName(a, c) : c \in Custom(a)})

(* custom symbols share the symbol namespace with definitions and imports *)
SymbolsDistinct(a) ==
  /\ \A c \in Custom(a) : CName(a, c) \notin DefsOf(a) \cup Imports(a)
  /\ \A c, e \in Custom(a) : c # e => CName(a, c) # CName(a, e)
Fits32(a) ==
  Is32(a) => /\ \A n \in Defined(a) : IsU32(SizeOf(a.defd[n])) /\ a.decl[n].al < 32
             /\ \A c \in Custom(a) : IsU32(CVal(a, c))
             /\ \A i \in 1..Len(a.links) : IsU32(a.links[i].at)

From(a, l) == a.decl[l.from]
To(a, l) == a.decl[l.to]

(* --- ELF --- *)
Reserved == {".note.GNU-stack"}
ElfNames(a) ==                       \* no custom section is named like a generated one
  /\ \A s \in SecsOf(a) : \A n \in DefsOf(a) : SectionName(a, n) # s
  /\ SecsOf(a) \cap Reserved = {}
  /\ Cardinality({SectionName(a, n) : n \in DefsOf(a)}) = Cardinality(DefsOf(a))
ElfLink(a, l) ==
  CASE l.rel.t = "auto" -> /\ From(a, l).k # "sec"
                           /\ ~(From(a, l).k = "fn" /\ To(a, l).k = "sec")
    [] l.rel.t = "dbg" -> l.rel.sz \in {4, 8}
    [] l.rel.t = "raw" -> Is32(a) => IsSmall(l.rel.r) /\ Nat32(l.rel.r) < 256
ElfLinks(a) == \A i \in 1..Len(a.links) : ElfLink(a, a.links[i])
ElfSupported(a) == /\ KnownArch(a) /\ NamesOk(a) /\ Fits32(a) /\ SymbolsDistinct(a)
                   /\ ElfNames(a) /\ ElfLinks(a)

(* --- Mach-O --- *)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
MachSection(n) == IF StartsWith(n, ".debug") THEN "__debug" \o SubSeq(n, 7, Len(n)) ELSE n
(* escaped characters (%xx) count once *)
RECURSIVE Escapes(_, _)
Escapes(s, i) == IF i > Len(s) THEN 0 ELSE (IF SubSeq(s, i, i) = "%" THEN 1 ELSE 0) + Escapes(s, i + 1)
RawLen(s) == Len(s) - 2 * Escapes(s, 1)
MachNames(a) ==
  /\ \A s \in SecsOf(a) : /\ RawLen(MachSection(s)) <= 16
                          /\ s \notin {"__text", "__data", "__cstring", "__bss"}
  /\ Cardinality({MachSection(s) : s \in SecsOf(a)}) = Cardinality(SecsOf(a))   \* ".debug_x" becomes "__debug_x"
  /\ Cardinality(SecsOf(a)) <= 251
MachLink(a, l) ==
  CASE l.rel.t = "auto" -> From(a, l).k # "sec" /\ To(a, l).k # "sec"
    [] l.rel.t = "dbg" -> From(a, l).k = "sec" /\ (l.rel.sz \in {4, 8} \/ To(a, l).k = "sec")
    [] l.rel.t = "raw" -> /\ l.rel.add = U0 /\ IsSmall(l.rel.r) /\ Nat32(l.rel.r) < 16
                          /\ To(a, l).k # "sec"
(* r_address has 31 bits; what does not fit is not judged *)
MachLinks(a) == \A i \in 1..Len(a.links) : IsSmall(a.links[i].at) /\ MachLink(a, a.links[i])
(* definitions that share a standard section in the file with n *)
Together(a, n) == {m \in DefsOf(a) : /\ ~a.defd[m].zero /\ (a.decl[m].k = "fn") = (a.decl[n].k = "fn")
                                     /\ a.decl[m].dt = a.decl[n].dt}
(* everything file-backed must be small enough to lay out: an alignment may be huge  *)
(* only where no padding for it has to be stored                                     *)
MachSizes(a) ==
  \A n \in Defined(a) : /\ \/ a.decl[n].al < 24
                           \/ /\ a.decl[n].al <= 40 /\ ~Is32(a)
                              /\ a.decl[n].k = "sec" \/ a.defd[n].zero \/ Together(a, n) = {n}
                        /\ (Is32(a) => IsSmall(SizeOf(a.defd[n])))
MachSupported(a) == /\ KnownArch(a) /\ Target(a).cpu # <<>> /\ NamesOk(a) /\ Fits32(a)
                    /\ SymbolsDistinct(a) /\ MachNames(a) /\ MachLinks(a) /\ MachSizes(a)

Supported(a, f) == IF f = "elf" THEN ElfSupported(a) ELSE f = "macho" /\ MachSupported(a)
=============================================================================
