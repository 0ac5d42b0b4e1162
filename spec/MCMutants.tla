------------------------------ MODULE MCMutants ------------------------------
(* How tightly do the listed properties pin an emitted object down?  TLC      *)
(* takes objects computed by the models of the two back ends (on which every  *)
(* property holds, MCObjects), perturbs one field of one record at a time, or *)
(* drops, repeats or exchanges records, and asks which properties notice.     *)
(* A perturbation no property notices must be one the specification leaves    *)
(* open on purpose (Open): otherwise the properties have a hole.              *)
EXTENDS Props, ElfBuild, MachBuild, Mutations, Json, TLCExt

CONSTANTS Arches

VARIABLES a, f, m
vars == <<a, f, m>>

(* ---- a few artifacts that between them contain everything ---- *)
Raw(r, add) == [t |-> "raw", r |-> U(r), sz |-> 0, add |-> add]
Dbg(sz, add) == [t |-> "dbg", r |-> U0, sz |-> sz, add |-> add]
Dc(n, d, b) == [op |-> "declwith", n |-> n, d |-> d, b |-> b]
Dz(n, d, z) == <<[op |-> "declare", n |-> n, d |-> d], [op |-> "definez", n |-> n, z |-> z]>>
Ds(n, d, b, ss) == <<[op |-> "declare", n |-> n, d |-> d], [op |-> "defsyms", n |-> n, zero |-> FALSE, b |-> b, z |-> U0, syms |-> ss]>>
Im(n, k) == [op |-> "import", n |-> n, k |-> k]
Ln(f0, t, at) == [op |-> "link", from |-> f0, to |-> t, at |-> U(at), rel |-> AutoRel]
Lw(f0, t, at, r) == [op |-> "linkw", from |-> f0, to |-> t, at |-> U(at), rel |-> r]
G(d) == [d EXCEPT !.scope = "G"]
Wk(d) == [d EXCEPT !.scope = "W"]
A(d, n) == [d EXCEPT !.al = n]
Wr(d) == [d EXCEPT !.w = TRUE]
Hid(d) == [d EXCEPT !.vis = "H"]

Sample(i) ==
  CASE i = 1 -> <<Dc("f", G(Fn0), "90909090c3"), Dc("g", Fn0, "c3"), Dc("d", G(Wr(Data0)), "0102030405060708"), Dc("r", A(Data0, 4), "a1b2c3"),
                  Im("i", "fn"), Im("j", "data"), Ln("f", "g", 1), Ln("f", "i", 0), Ln("d", "f", 0), Lw("f", "d", 1, Raw(2, U0))>>
    [] i = 2 -> <<Dc("w", Wk(Fn0), "909090"), Dc("s", G(Cstr0), "6100"), Dc("t", Hid(Wr(Cstr0)), "62636400")>>
                \o Dz("z", G(Wr(Data0)), U(16)) \o Dz("y", A(Data0, 5), U(3)) \o <<Im("k", "data"), Ln("w", "z", 0), Ln("w", "k", 2)>>
    [] i = 3 -> Ds(".debug_x", A(Sec0("Debug"), 2), "0011223344556677", <<<<"p", U(1)>>, <<"q", U(7)>>>>)
                \o Ds("own", [Sec0("Data") EXCEPT !.dt = "str"], "414200", <<>>)
                \o <<Dc("f", Hid(G(Fn0)), "9090c3"), Lw(".debug_x", "f", 0, Dbg(8, U(1))), Lw(".debug_x", "f", 4, Dbg(4, U0))>>
    [] i = 4 -> <<Dc("only", Fn0, "")>>
NSamples == 4
Run(x, cs) == FoldLeft(LAMBDA s, c : Step(s, c).a, x, cs)
Artifact0(i, arch) == Run(NewArtifact("t.o", arch, "elf", FALSE), Sample(i))
Built(g) == IF g = "elf" THEN BuildElf(a, LO_RESERVE, "none") ELSE BuildMach(a, "none")

(* ---- who notices ---- *)
Other(g) == IF g = "elf" THEN "macho" ELSE "elf"
Both == ElfSupported(a) /\ MachSupported(a)
NoticedBy(g, o, p) ==
  CASE p \in ObjPropIds(g) -> ObjFails(p, a, g, o) # {}
    [] p = "C21" -> Both /\ CrossFails(a, IF g = "elf" THEN o ELSE Built("elf"), IF g = "elf" THEN Built("macho") ELSE o) # {}
    [] p = "C22" -> Meaning(a, g, o) # Meaning(a, g, Built(g))
    [] OTHER -> FALSE

(* Left open on purpose: what no listed property speaks about.                *)
(* - the order of table entries (every reference into a table is checked, so   *)
(*   an exchange that goes unnoticed exchanges entries nothing refers to);     *)
(* - header flags, ABI, program header entry size, CPU subtype;                *)
(* - where a section without bytes in the file claims to lie, and how it is    *)
(*   aligned; the section symbol of a section nothing refers to;               *)
(* - flags and entry size of sections whose declaration does not settle them;  *)
(* - size, type, visibility and binding of a custom section's symbols;         *)
(* - relocation types chosen by the library for other machines than x86-64;    *)
(* - stronger alignment than any definition needs, the bytes of the padding;   *)
(* - offsets in the file and ends of tables, as far as nothing overlaps: the   *)
(*   decoder reads contents, names and relocations through them and refuses an *)
(*   object that is cut short, so a wrong one is seen in what is decoded, but  *)
(*   not when what was decoded is left alone, as here.                         *)
StdSecs == {"__text", "__data", "__cstring", "__bss"}
CustomNames == {CName(a, c) : c \in Custom(a)}
Open(g, x, o) ==
  LET s == IF x[3] = 0 THEN o[x[1]] ELSE IF x[1] \in {"secs", "syms", "rels", "cmds", "segs"} THEN o[x[1]][x[3]] ELSE <<>>
      t == IF x[3] = 0 \/ x[1] \notin {"secs", "syms", "rels", "cmds", "segs"} THEN <<>> ELSE x[4][x[3]] IN
  IF x[2] \in {"exchanged", "len"} THEN TRUE
  ELSE CASE g = "elf" /\ x[1] = "hdr" -> x[2] \in {"flags", "osabi", "phentsize", "shoff"} \/ (x[2] = "rawnum" /\ x[4].rawnum = 0)
         [] g = "elf" /\ x[1] = "secs" ->
              \/ x[2] = "alx" /\ s.ty \notin {"PROGBITS", "NOBITS"}
              \/ x[2] = "alx" /\ s.nm = ".note.GNU-stack"
              \/ x[2] = "ent" /\ "M" \in Fl(s)
              \/ x[2] = "fl" /\ s.nm \in SecsOf(a) /\ a.decl[s.nm].sk # "Debug"
              \/ x[2] = "fl" /\ s.ty = "RELA"
              \/ x[2] = "off" /\ (s.isz = 0 \/ s.ty \in {"NOBITS", "STRTAB"})
              \/ x[2] = "size" /\ s.ty = "STRTAB"
         [] g = "elf" /\ x[1] = "syms" ->
              \/ x[2] = "nmok" /\ x[3] = 1
              \/ x[2] \in {"size", "vis", "ty"} /\ s.nm \in CustomNames
              \/ x[2] = "sx" /\ s.ty = "SECTION"
         [] g = "macho" /\ x[1] = "hdr" -> x[2] = "sub"
         [] g = "macho" /\ x[1] = "secs" ->
              \/ x[2] \in {"addr", "alx", "off", "tok"} /\ s.isz = 0
              \/ x[2] = "alx" /\ t.alx > s.alx
              \/ x[2] = "addr" /\ s.nm \notin StdSecs /\ \A c \in Custom(a) : c[1] # s.nm
              \/ x[2] = "at" /\ s.nm \notin StdSecs
              \/ x[2] \in {"off", "reloff"}
              \/ x[2] = "tok" /\ s.gnm # "__DWARF"
         [] g = "macho" /\ x[1] = "segs" -> (x[2] = "fileoff" /\ s.filesize = 0) \/ (x[2] = "vmsize" /\ ~Lt(t.vmsize, s.vmsize))
         [] g = "macho" /\ x[1] = "syms" -> x[2] = "ext" /\ s.nm \in CustomNames
         [] g = "macho" /\ x[1] = "symtab" -> x[2] \in {"stroff", "strsize"}
         [] x[1] = "rels" /\ a.arch # "x86_64" -> x[2] \in {"ty", "len", "pcrel"}     \* relocation types of other machines
         [] OTHER -> FALSE

Init == /\ \E i \in 1..NSamples, arch \in Arches : a = Artifact0(i, arch)
        /\ f \in {g \in Formats : Supported(a, g)}
        /\ m = <<>>
Next == m = <<>> /\ m' \in Mutations(Built(f), f) /\ UNCHANGED <<a, f>>
Spec == Init /\ [][Next]_vars

Noticed ==
  \E p \in ObjPropIds(f) \cup {"C21"} : NoticedBy(f, Mutated(Built(f), m), p)
Pinned == m = <<>> \/ Noticed \/ Open(f, m, Built(f))
(* the properties that notice it *)
Who == m = <<>> \/ PrintT("WHO " \o f \o " " \o m[1] \o " " \o m[2] \o " " \o
         FoldLeft(LAMBDA x, p : IF NoticedBy(f, Mutated(Built(f), m), p) THEN x \o "," \o p ELSE x, "", SetToSeq(ObjPropIds(f) \cup {"C21", "C22"})))
=============================================================================
