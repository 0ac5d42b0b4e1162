------------------------------ MODULE Mutations ------------------------------
(* Perturbations of a decoded object: one field of one record at a time, or   *)
(* a record dropped, repeated or exchanged with the next.  A perturbation is  *)
(* <<part, field, index, new value of the part or of its field>>.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, U64

(* ---- perturbations of a value, by what the field is ---- *)
P32 == <<0, 256, 0>>
Ints(x) == {x + 1, x - 1, x + 256, 0} \ {x}
Wide(x) == {Add(x, U(1)), Add(x, U(8)), Add(x, P32), U0} \ {x}
Texts(x) == {x \o "x", ""} \ {x}
Hexes(x) == {x \o "00", "ff" \o SubSeq(x, 3, Len(x)), SubSeq(x, 1, Len(x) - 2)} \ {x}
Flags(x, all) == {SelectSeq(x, LAMBDA y : y # g) : g \in Range(x)} \cup {Append(x, g) : g \in all \ Range(x)}
Size(s, v) == [s EXCEPT !.size = v, !.isz = IF IsSmall(v) THEN Nat32(v) ELSE -1]

SecTypes == {"PROGBITS", "NOBITS", "STRTAB", "RELA", "SYMTAB", "NULL"}
ElfSecMutants(s) ==
  {<<"nm", [s EXCEPT !.nm = v]>> : v \in Texts(s.nm)} \cup {<<"nmok", [s EXCEPT !.nmok = FALSE]>>}
  \cup {<<"ty", [s EXCEPT !.ty = v]>> : v \in SecTypes \ {s.ty}}
  \cup {<<"fl", [s EXCEPT !.fl = v]>> : v \in Flags(s.fl, {"A", "W", "X", "M", "S"})}
  \cup {<<"addr", [s EXCEPT !.addr = v]>> : v \in Wide(s.addr)}
  \cup {<<"off", [s EXCEPT !.off = v]>> : v \in Ints(s.off)}
  \cup {<<"size", Size(s, v)>> : v \in Wide(s.size)}
  \cup {<<"link", [s EXCEPT !.link = v]>> : v \in Ints(s.link)} \cup {<<"info", [s EXCEPT !.info = v]>> : v \in Ints(s.info)}
  \cup {<<"alx", [s EXCEPT !.alx = v]>> : v \in {s.alx + 1, s.alx - 1, -2}}
  \cup {<<"ent", [s EXCEPT !.ent = v]>> : v \in Ints(s.ent)}
  \cup (IF s.ty = "PROGBITS" THEN {<<"tok", [s EXCEPT !.tok = v]>> : v \in Hexes(s.tok)} ELSE {})
ElfSymMutants(s) ==
  {<<"nm", [s EXCEPT !.nm = v]>> : v \in Texts(s.nm)} \cup {<<"nmok", [s EXCEPT !.nmok = FALSE]>>}
  \cup {<<"bind", [s EXCEPT !.bind = v]>> : v \in {"L", "G", "W"} \ {s.bind}}
  \cup {<<"ty", [s EXCEPT !.ty = v]>> : v \in {"NOTYPE", "OBJECT", "FUNC", "SECTION", "FILE"} \ {s.ty}}
  \cup {<<"vis", [s EXCEPT !.vis = v]>> : v \in {"D", "P", "H"} \ {s.vis}}
  \cup {<<"sx", [s EXCEPT !.sx = v]>> : v \in {s.sx + 1, s.sx - 1, -1, -2} \ {s.sx}}
  \cup {<<"val", [s EXCEPT !.val = v]>> : v \in Wide(s.val)} \cup {<<"size", [s EXCEPT !.size = v]>> : v \in Wide(s.size)}
ElfRelMutants(r) ==
  {<<"off", [r EXCEPT !.off = v]>> : v \in Wide(r.off)} \cup {<<"sym", [r EXCEPT !.sym = v]>> : v \in Ints(r.sym)}
  \cup {<<"ty", [r EXCEPT !.ty = v]>> : v \in Wide(r.ty)} \cup {<<"add", [r EXCEPT !.add = v]>> : v \in Wide(r.add)}
  \cup {<<"tgt", [r EXCEPT !.tgt = v]>> : v \in Ints(r.tgt)}
ElfHdrMutants(h) ==
  {<<"cls", [h EXCEPT !.cls = 96 - @]>>, <<"dat", [h EXCEPT !.dat = IF @ = "L" THEN "B" ELSE "L"]>>}
  \cup {<<x, [h EXCEPT ![x] = v]>> : x \in {"ver"}, v \in Ints(h.ver)} \cup {<<"ver2", [h EXCEPT !.ver2 = v]>> : v \in Ints(h.ver2)}
  \cup {<<"ty", [h EXCEPT !.ty = v]>> : v \in Ints(h.ty)} \cup {<<"mach", [h EXCEPT !.mach = v]>> : v \in Ints(h.mach)}
  \cup {<<"entry", [h EXCEPT !.entry = v]>> : v \in Wide(h.entry)} \cup {<<"phoff", [h EXCEPT !.phoff = v]>> : v \in Wide(h.phoff)}
  \cup {<<"flags", [h EXCEPT !.flags = v]>> : v \in Wide(h.flags)} \cup {<<"osabi", [h EXCEPT !.osabi = v]>> : v \in Ints(h.osabi)}
  \cup {<<"ehsize", [h EXCEPT !.ehsize = v]>> : v \in Ints(h.ehsize)} \cup {<<"phnum", [h EXCEPT !.phnum = v]>> : v \in Ints(h.phnum)}
  \cup {<<"shentsize", [h EXCEPT !.shentsize = v]>> : v \in Ints(h.shentsize)} \cup {<<"phentsize", [h EXCEPT !.phentsize = v]>> : v \in Ints(h.phentsize)}
  \cup {<<"shstr", [h EXCEPT !.shstr = v]>> : v \in Ints(h.shstr)} \cup {<<"rawnum", [h EXCEPT !.rawnum = v]>> : v \in Ints(h.rawnum)}
  \cup {<<"shoff", [h EXCEPT !.shoff = v]>> : v \in Ints(h.shoff)}

MachSecMutants(s) ==
  {<<"nm", [s EXCEPT !.nm = v]>> : v \in Texts(s.nm)} \cup {<<"gnm", [s EXCEPT !.gnm = v]>> : v \in Texts(s.gnm) \cup ({"__TEXT", "__DATA"} \ {s.gnm})}
  \cup {<<"addr", [s EXCEPT !.addr = v]>> : v \in Wide(s.addr)} \cup {<<"size", Size(s, v)>> : v \in Wide(s.size)}
  \cup {<<"off", [s EXCEPT !.off = v]>> : v \in Ints(s.off)} \cup {<<"alx", [s EXCEPT !.alx = v]>> : v \in {s.alx + 1, s.alx - 1, -2}}
  \cup {<<"reloff", [s EXCEPT !.reloff = v]>> : v \in Ints(s.reloff)} \cup {<<"nreloc", [s EXCEPT !.nreloc = v]>> : v \in Ints(s.nreloc)}
  \cup {<<"sty", [s EXCEPT !.sty = v]>> : v \in {0, 1, 2} \ {s.sty}}
  \cup {<<"at", [s EXCEPT !.at = v]>> : v \in Flags(s.at, {"PURE", "SOME", "DEBUG"})}
  \cup (IF s.sty # 1 THEN {<<"tok", [s EXCEPT !.tok = v]>> : v \in Hexes(s.tok)} ELSE {})
MachSymMutants(s) ==
  {<<"nm", [s EXCEPT !.nm = v]>> : v \in Texts(s.nm)} \cup {<<"nmok", [s EXCEPT !.nmok = FALSE]>>, <<"under", [s EXCEPT !.under = FALSE]>>}
  \cup {<<"ty", [s EXCEPT !.ty = v]>> : v \in {"SECT", "UNDF", "ABS"} \ {s.ty}} \cup {<<"ext", [s EXCEPT !.ext = ~@]>>, <<"pext", [s EXCEPT !.pext = ~@]>>}
  \cup {<<"sect", [s EXCEPT !.sect = v]>> : v \in Ints(s.sect)} \cup {<<"desc", [s EXCEPT !.desc = v]>> : v \in {0, 64, 128} \ {s.desc}}
  \cup {<<"val", [s EXCEPT !.val = v]>> : v \in Wide(s.val)}
MachRelMutants(r) ==
  {<<"off", [r EXCEPT !.off = v]>> : v \in Wide(r.off)} \cup {<<"sym", [r EXCEPT !.sym = v]>> : v \in Ints(r.sym)}
  \cup {<<"ty", [r EXCEPT !.ty = v]>> : v \in Ints(r.ty)} \cup {<<"ext", [r EXCEPT !.ext = 1 - @]>>, <<"pcrel", [r EXCEPT !.pcrel = 1 - @]>>}
  \cup {<<"len", [r EXCEPT !.len = v]>> : v \in {0, 1, 2, 3} \ {r.len}} \cup {<<"sec", [r EXCEPT !.sec = v]>> : v \in Ints(r.sec)}
MachHdrMutants(h) ==
  {<<"cls", [h EXCEPT !.cls = 96 - @]>>, <<"dat", [h EXCEPT !.dat = IF @ = "L" THEN "B" ELSE "L"]>>}
  \cup {<<"cpu", [h EXCEPT !.cpu = v]>> : v \in Wide(h.cpu)} \cup {<<"sub", [h EXCEPT !.sub = v]>> : v \in Wide(h.sub)}
  \cup {<<"ty", [h EXCEPT !.ty = v]>> : v \in Ints(h.ty)} \cup {<<"ncmds", [h EXCEPT !.ncmds = v]>> : v \in Ints(h.ncmds)}
  \cup {<<"sizeofcmds", [h EXCEPT !.sizeofcmds = v]>> : v \in Ints(h.sizeofcmds)} \cup {<<"flags", [h EXCEPT !.flags = v]>> : v \in Wide(h.flags)}
MachCmdMutants(c) == {<<"cmd", [c EXCEPT !.cmd = "OTHER"]>>} \cup {<<"size", [c EXCEPT !.size = v]>> : v \in Ints(c.size)}
MachSegMutants(s) ==
  {<<"vmaddr", [s EXCEPT !.vmaddr = v]>> : v \in Wide(s.vmaddr)} \cup {<<"vmsize", [s EXCEPT !.vmsize = v]>> : v \in Wide(s.vmsize)}
  \cup {<<"fileoff", [s EXCEPT !.fileoff = v]>> : v \in Ints(s.fileoff)} \cup {<<"filesize", [s EXCEPT !.filesize = v]>> : v \in Ints(s.filesize)}
  \cup {<<"nsects", [s EXCEPT !.nsects = v]>> : v \in Ints(s.nsects)}
MachTabMutants(t) == UNION {{<<x, [t EXCEPT ![x] = v]>> : v \in Ints(t[x])} : x \in {"symoff", "nsyms", "stroff", "strsize"}}

(* ---- perturbations of a table ---- *)
Each(part, s, M(_)) == UNION {{<<part, v[1], i, [s EXCEPT ![i] = v[2]]>> : v \in M(s[i])} : i \in 1..Len(s)}
Whole(part, s) ==
  {<<part, "dropped", i, RemoveAt(s, i)>> : i \in 1..Len(s)} \cup {<<part, "repeated", i, InsertAt(s, i, s[i])>> : i \in 1..Len(s)}
  \cup {<<part, "exchanged", i, [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]>> : i \in 1..(Len(s) - 1)}
One1(part, M) == {<<part, v[1], 0, v[2]>> : v \in M}
Mutations(o, g) ==
  IF g = "elf"
  THEN Each("secs", o.secs, ElfSecMutants) \cup Each("syms", o.syms, ElfSymMutants) \cup Each("rels", o.rels, ElfRelMutants) \cup One1("hdr", ElfHdrMutants(o.hdr))
       \cup Whole("secs", o.secs) \cup Whole("syms", o.syms) \cup Whole("rels", o.rels) \cup {<<"symtab", "symtab", 0, v>> : v \in Ints(o.symtab)} \cup {<<"len", "len", 0, o.len - 1>>}
  ELSE Each("secs", o.secs, MachSecMutants) \cup Each("syms", o.syms, MachSymMutants) \cup Each("rels", o.rels, MachRelMutants) \cup One1("hdr", MachHdrMutants(o.hdr))
       \cup Each("cmds", o.cmds, MachCmdMutants) \cup Each("segs", o.segs, MachSegMutants) \cup One1("symtab", MachTabMutants(o.symtab))
       \cup Whole("secs", o.secs) \cup Whole("syms", o.syms) \cup Whole("rels", o.rels) \cup Whole("cmds", o.cmds)
       \cup {<<"strends", "strends", i, [o.strends EXCEPT ![i] = 1]>> : i \in 1..2} \cup {<<"len", "len", 0, o.len - 2>>}
Mutated(o, x) == [o EXCEPT ![x[1]] = x[4]]
=============================================================================
