From f25d56dff6d1063e2b72a96e7a5a12cab6a23733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 01/11] fix: give ELF zero-initialized data its size and
 alignment

---
 src/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 91c8add..5f062b5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -322,6 +322,7 @@ impl SectionBuilder {
                 shdr.sh_type = SHT_SYMTAB_SHNDX;
             }
             SectionType::NoBits => {
+                shdr.sh_addralign = align;
                 shdr.sh_type = SHT_NOBITS;
                 // .bss is always SHF_WRITE and SHF_ALLOC
                 // TODO: warn users if self.alloc is not set
@@ -502,7 +503,11 @@ impl<'a> Elf<'a> {
     pub fn add_definition(&mut self, def: artifact::Definition<'a>) {
         let name = def.name;
         let decl = def.decl;
-        let def_size = def.data.file_size();
+        // the size in memory, which for zero-initialized data differs from the size on disk
+        let def_size = match def.data {
+            Data::Blob(bytes) => bytes.len(),
+            Data::ZeroInit(size) => *size,
+        };
 
         let section_name = match (def.data, decl) {
             (Data::Blob(_), DefinedDecl::Function(_)) => format!(".text.{}", name),
-- 
2.43.0


From cf2c597e8c214888e14ec261b019c9ec3f560cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 02/11] fix: put only local symbols before sh_info in the ELF
 symbol table

---
 src/artifact.rs      | 2 +-
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 9 ++++++---
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index d0b9418..ce34ad2 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -496,7 +496,7 @@ impl Artifact {
                     }
                 }
 
-                if decl.is_global() {
+                if !decl.is_local() {
                     self.nonlocal_definitions.insert(InternalDefinition {
                         name: decl_name,
                         data,
diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 07c35fa..80b449e 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Whether symbols of this definition have local binding (weak symbols do not)
+    pub(crate) fn is_local(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Section(_) => true,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 5f062b5..78cb57c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -572,9 +572,9 @@ impl<'a> Elf<'a> {
                 // insert it into our symbol table
                 self.symbols.insert(idx, symbol);
                 // sh_info requires nsections + nlocals to add as delimiter; see the associated FunFact
-                // nonglobals go into the symbol table first (per iteration through definitions in
+                // locals go into the symbol table first (per iteration through definitions in
                 // caller)
-                if !decl.is_global() {
+                if decl.is_local() {
                     self.nlocals += 1;
                 }
             }
@@ -594,7 +594,10 @@ impl<'a> Elf<'a> {
                         .value(*symbol_dst_offset)
                         .create();
 
-                    self.symbols.insert(idx, symbol);
+                    // custom symbols have local binding as well
+                    if self.symbols.insert(idx, symbol).is_none() {
+                        self.nlocals += 1;
+                    }
                 }
             }
         }
-- 
2.43.0


From 50c7635f1303fcdf3b765839fd959c1cd75988b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 03/11] fix: place Mach-O sections at the alignment their
 definitions ask for

---
 src/mach.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index d23809c..f48acaa 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -56,6 +56,12 @@ fn align_to_align_exp(align: u64) -> u64 {
     align_exp
 }
 
+/// Round `offset` up to a multiple of `1 << align_exp`
+fn align_up(offset: u64, align_exp: u64) -> u64 {
+    let mask = (1 << align_exp) - 1;
+    (offset + mask) & !mask
+}
+
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
@@ -418,6 +424,7 @@ struct SegmentBuilder {
     /// A stupid offset value I need to refactor out
     pub offset: u64,
     size: u64,
+    vmsize: u64,
     align_pad_map: HashMap<String, u64>,
 }
 
@@ -426,6 +433,10 @@ impl SegmentBuilder {
     pub fn size(&self) -> u64 {
         self.size
     }
+    /// The size of this segment in memory, including the alignment gaps between its sections
+    pub fn vmsize(&self) -> u64 {
+        self.vmsize
+    }
     /// The size of this segment's _load command_, including its associated sections, in bytes
     pub fn load_command_size(&self, ctx: &Ctx) -> u64 {
         Segment::size_with(&ctx) as u64
@@ -452,7 +463,13 @@ impl SegmentBuilder {
     ) {
         let mut local_size = 0;
         let mut section_relative_offset = 0;
-        let mut alignment_exponent = min_alignment_exponent;
+        let alignment_exponent = definitions
+            .iter()
+            .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
+            .fold(min_alignment_exponent, std::cmp::max);
+        // definitions are aligned relative to the section, so the section itself must be aligned
+        *addr = align_up(*addr, alignment_exponent);
+        *symbol_offset = align_up(*symbol_offset, alignment_exponent);
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
             if let DefinedDecl::Section { .. } = def.decl {
@@ -479,7 +496,6 @@ impl SegmentBuilder {
                     .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
                     .unwrap_or(0),
             );
-            alignment_exponent = std::cmp::max(alignment_exponent, next_def_alignment_exponent);
 
             let align_pad = (1 << next_def_alignment_exponent)
                 - (section_relative_offset % (1 << next_def_alignment_exponent));
@@ -531,6 +547,10 @@ impl SegmentBuilder {
             def.name.to_string()
         };
 
+        let alignment_exponent = align_to_align_exp(s.get_align().unwrap_or(1));
+        *addr = align_up(*addr, alignment_exponent);
+        *symbol_offset = align_up(*symbol_offset, alignment_exponent);
+
         let mut flags = 0;
 
         if s.kind() == SectionKind::Debug {
@@ -554,7 +574,7 @@ impl SegmentBuilder {
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(align_to_align_exp(s.get_align().unwrap_or(1)))
+            .align(alignment_exponent)
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
@@ -573,7 +593,7 @@ impl SegmentBuilder {
         ctx: &Ctx,
     ) -> Self {
         let mut offset = Header::size_with(&ctx.container) as u64;
-        let mut size = 0;
+        let mut vmsize = 0;
         let mut symbol_offset = 0;
         let mut sections = IndexMap::new();
         let mut align_pad_map = HashMap::new();
@@ -584,7 +604,7 @@ impl SegmentBuilder {
             "__TEXT",
             &mut sections,
             &mut offset,
-            &mut size,
+            &mut vmsize,
             &mut symbol_offset,
             CODE_SECTION_INDEX,
             &code,
@@ -598,7 +618,7 @@ impl SegmentBuilder {
             "__DATA",
             &mut sections,
             &mut offset,
-            &mut size,
+            &mut vmsize,
             &mut symbol_offset,
             DATA_SECTION_INDEX,
             &blob_data,
@@ -612,7 +632,7 @@ impl SegmentBuilder {
             "__TEXT",
             &mut sections,
             &mut offset,
-            &mut size,
+            &mut vmsize,
             &mut symbol_offset,
             CSTRING_SECTION_INDEX,
             &cstrings,
@@ -626,7 +646,7 @@ impl SegmentBuilder {
             "__DATA",
             &mut sections,
             &mut offset,
-            &mut size,
+            &mut vmsize,
             &mut symbol_offset,
             BSS_SECTION_INDEX,
             &zeroed_data,
@@ -639,7 +659,7 @@ impl SegmentBuilder {
                 symtab,
                 &mut sections,
                 &mut offset,
-                &mut size,
+                &mut vmsize,
                 &mut symbol_offset,
                 idx + NUM_DEFAULT_SECTIONS,
                 def,
@@ -650,12 +670,14 @@ impl SegmentBuilder {
         }
         // FIXME re add assert
         //assert_eq!(offset, Header::size_with(&ctx.container) + Self::load_command_size(ctx));
+        let size = offset - Header::size_with(&ctx.container) as u64;
         debug!(
             "Segment Size: {} Symtable LoadCommand Offset: {}",
             size, offset
         );
         SegmentBuilder {
             size,
+            vmsize,
             sections,
             offset,
             align_pad_map,
@@ -789,7 +811,7 @@ impl<'a> Mach<'a> {
         segment_load_command.maxprot = 7;
         segment_load_command.filesize = self.segment.size();
         // segment size, with __bss data sizes added
-        segment_load_command.vmsize = segment_load_command.filesize + self.bss_size as u64;
+        segment_load_command.vmsize = self.segment.vmsize() + self.bss_size as u64;
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
-- 
2.43.0


From 6ae47329c48e7abb96c93ed0da5750b0171e43d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 04/11] fix: give each Mach-O zero-initialized definition its
 own address range

---
 src/mach.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index f48acaa..f3dd7a9 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -287,7 +287,9 @@ impl SectionBuilder {
             flags: self.flags,
         };
         section.offset = *section_offset as u32;
-        *section_offset += section.size;
+        if self.flags != S_ZEROFILL {
+            *section_offset += section.size;
+        }
         if !self.relocations.is_empty() {
             let nrelocs = self.relocations.len();
             section.nreloc = nrelocs as _;
@@ -485,9 +487,14 @@ impl SegmentBuilder {
                     global: def.decl.is_global(),
                 },
             );
-            *symbol_offset += def.data.file_size() as u64;
-            section_relative_offset += def.data.file_size() as u64;
-            local_size += def.data.file_size() as u64;
+            // zero-initialized data occupies memory, even though it takes no space on disk
+            let def_size = match def.data {
+                Data::Blob(bytes) => bytes.len(),
+                Data::ZeroInit(size) => *size,
+            } as u64;
+            *symbol_offset += def_size;
+            section_relative_offset += def_size;
+            local_size += def_size;
 
             let next_def_alignment_exponent = std::cmp::max(
                 min_alignment_exponent,
@@ -517,7 +524,9 @@ impl SegmentBuilder {
         if let Some(flags) = flags {
             section = section.flags(flags);
         }
-        *offset += local_size;
+        if section.flags != S_ZEROFILL {
+            *offset += local_size;
+        }
         *addr += local_size;
         sections.insert(sectname.to_string(), section);
     }
@@ -694,7 +703,6 @@ struct Mach<'a> {
     segment: SegmentBuilder,
     code: ArtifactCode<'a>,
     data: ArtifactData<'a>,
-    bss_size: usize,
     cstrings: Vec<Definition<'a>>,
     sections: Vec<Definition<'a>>,
     _p: ::std::marker::PhantomData<&'a ()>,
@@ -704,13 +712,12 @@ impl<'a> Mach<'a> {
     pub fn new(artifact: &'a Artifact) -> Self {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
-        let (mut code, mut data, mut bss, mut cstrings, mut sections, mut bss_size) = (
+        let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
-            0,
         );
         for def in artifact.definitions() {
             match def.decl {
@@ -718,9 +725,8 @@ impl<'a> Mach<'a> {
                     code.push(def);
                 }
                 DefinedDecl::Data(d) => {
-                    if let Data::ZeroInit(size) = def.data {
+                    if def.data.is_zero_init() {
                         bss.push(def);
-                        bss_size += size;
                     } else if d.get_datatype() == DataType::String {
                         cstrings.push(def);
                     } else {
@@ -754,7 +760,6 @@ impl<'a> Mach<'a> {
             _p: ::std::marker::PhantomData::default(),
             code,
             data,
-            bss_size,
             cstrings,
             sections,
         }
@@ -811,7 +816,7 @@ impl<'a> Mach<'a> {
         segment_load_command.maxprot = 7;
         segment_load_command.filesize = self.segment.size();
         // segment size, with __bss data sizes added
-        segment_load_command.vmsize = self.segment.vmsize() + self.bss_size as u64;
+        segment_load_command.vmsize = self.segment.vmsize();
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
-- 
2.43.0


From 48039887d731ad5fd5799cdb4c03713d8eabc1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 05/11] fix: put Mach-O relocations in the section that
 contains them

---
 src/mach.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index f3dd7a9..ee8997a 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -370,6 +370,13 @@ impl SymbolTable {
             .and_then(|idx| self.symbols.get(&idx))
             .and_then(|sym| Some(sym.get_segment_relative_offset()))
     }
+    /// Lookup the section this symbol is defined in, if any
+    pub fn section(&self, symbol_name: &str) -> Option<SectionIndex> {
+        self.strtable
+            .get(symbol_name)
+            .and_then(|idx| self.symbols.get(&idx))
+            .and_then(|sym| sym.section)
+    }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
         self.strtable
@@ -973,8 +980,6 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = segment.sections.get_full("__text").unwrap().0;
-    let data_idx = segment.sections.get_full("__data").unwrap().0;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
@@ -1048,17 +1053,20 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.index(link.to.name)) {
-            (Some(base_offset), Some(to_symbol_index)) => {
+        // the relocation belongs to the section which contains `from`
+        let (from_section, from_offset) = if link.from.decl.is_section() {
+            (segment.sections.get_full(link.from.name).map(|(idx, _, _)| idx), Some(0))
+        } else {
+            (symtab.section(link.from.name), symtab.offset(link.from.name))
+        };
+        match (from_section, from_offset, symtab.index(link.to.name)) {
+            (Some(section_idx), Some(base_offset), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
-                let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-                // NB: we currently associate absolute relocations with data relocations; this may prove
-                // too fragile for future additions; needs analysis
+                let mut builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
                 if absolute {
-                    segment.sections.get_index_mut(data_idx).unwrap().1.relocations.push(builder.absolute().create());
-                } else {
-                    segment.sections.get_index_mut(text_idx).unwrap().1.relocations.push(builder.create());
+                    builder = builder.absolute();
                 }
+                segment.sections.get_index_mut(section_idx).unwrap().1.relocations.push(builder.create());
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
-- 
2.43.0


From 20372ef84caef24c3a435ef2e0eb6513511894fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 06/11] fix: report the requested binary format when it is
 unsupported

---
 src/artifact.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index ce34ad2..1fc29d7 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -590,11 +590,7 @@ impl Artifact {
             let bytes = match format {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
-                _ => {
-                    return Err(ArtifactError::UnsupportedBinaryFormat(
-                        self.target.binary_format.to_owned(),
-                    ))
-                }
+                _ => return Err(ArtifactError::UnsupportedBinaryFormat(format)),
             };
             Ok(bytes)
         } else {
-- 
2.43.0


From e515e5061b86ae1cadf502e86024e780debeb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 07/11] fix: emit ELF for artifacts named like a generated
 string

---
 src/elf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 78cb57c..24893a7 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -442,10 +442,12 @@ impl<'a> Elf<'a> {
                 let name = name.to_owned();
                 let size = name.len() + 1;
                 let idx = strings.get_or_intern(name);
-                let offset = sizeof_strtab;
-                offsets.insert(idx, offset);
-                sizeof_strtab += size;
-                offset
+                // the artifact may be named like one of our own strings, which is stored only once
+                *offsets.entry(idx).or_insert_with(|| {
+                    let offset = sizeof_strtab;
+                    sizeof_strtab += size;
+                    offset
+                })
             };
 
             push_strtab(".strtab");
-- 
2.43.0


From b92c0a250b222056176f825751175388dd89f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 08/11] fix: emit Mach-O weak definitions as external weak
 symbols

---
 src/mach.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index ee8997a..d760f35 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -77,6 +77,7 @@ struct SymbolBuilder {
     name: StrtableOffset,
     section: Option<SectionIndex>,
     global: bool,
+    weak: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -89,6 +90,7 @@ impl SymbolBuilder {
             name,
             section: None,
             global: false,
+            weak: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -104,6 +106,11 @@ impl SymbolBuilder {
         self.global = global;
         self
     }
+    /// Is this symbol a weak definition?
+    pub fn weak(mut self, weak: bool) -> Self {
+        self.weak = weak;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -124,12 +131,12 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
         let mut n_value = self.offset;
-        let n_desc = 0;
+        let n_desc = if self.weak { N_WEAK_DEF } else { 0 };
         if self.global {
             n_type |= N_EXT;
         } else {
@@ -337,6 +344,7 @@ enum SymbolType {
         absolute_offset: u64,
         segment_relative_offset: u64,
         global: bool,
+        weak: bool,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -408,9 +416,11 @@ impl SymbolTable {
                     section,
                     absolute_offset,
                     global,
+                    weak,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
                     .global(global)
+                    .weak(weak)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -491,7 +501,9 @@ impl SegmentBuilder {
                     section,
                     segment_relative_offset: section_relative_offset,
                     absolute_offset: *symbol_offset,
-                    global: def.decl.is_global(),
+                    // weak definitions are visible to other objects as well
+                    global: !def.decl.is_local(),
+                    weak: !def.decl.is_local() && !def.decl.is_global(),
                 },
             );
             // zero-initialized data occupies memory, even though it takes no space on disk
@@ -581,6 +593,7 @@ impl SegmentBuilder {
                     segment_relative_offset: *symbol_dst_offset,
                     absolute_offset: *symbol_offset + *symbol_dst_offset,
                     global: true,
+                    weak: false,
                 },
             );
         }
-- 
2.43.0


From 2d881aa48f9b4d337e2d3aed7c48bad0f980d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:55 +0000
Subject: [PATCH 09/11] fix: use the little-endian layout of relocation info
 for 64-bit MIPS

Little-endian 64-bit MIPS objects keep the symbol index in the low 32 bits of
r_info and the relocation types, byte by byte from the last, above them.
---
 src/elf.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 24893a7..e580bb5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -738,6 +738,15 @@ impl<'a> Elf<'a> {
             Decl::Import(_) => to_idx,
         };
 
+        // Little-endian 64-bit MIPS stores the symbol in the low word of `r_info`,
+        // and the bytes of the type in reverse in the high one.
+        let (reloc, sym_idx) = match self.architecture {
+            Architecture::Mips64(_) if self.ctx.le.is_little() => {
+                (sym_idx as u32, reloc.swap_bytes() as usize)
+            }
+            _ => (reloc, sym_idx),
+        };
+
         let reloc = RelocationBuilder::new(reloc)
             .sym(sym_idx)
             .offset(l.at)
-- 
2.43.0


From fd334a8e96d87b861f98844fea8925f8f7f072d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:58 +0000
Subject: [PATCH 10/11] fix: leave extended index table entries zero where they
 are not used

An entry of SHT_SYMTAB_SHNDX must be zero unless the symbol's st_shndx is
SHN_XINDEX.
---
 src/elf.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index e580bb5..55aab8c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -946,7 +946,7 @@ impl<'a> Elf<'a> {
             // so we don't do the shn conversion here
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(symbol.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(0u32, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for special symbols");
             }
             file.iowrite_with(symbol, self.ctx)?;
@@ -954,28 +954,34 @@ impl<'a> Elf<'a> {
         for (_id, section) in self.sections.into_iter() {
             debug!("Section Symbol: {:?}", section.symbol);
             let mut sym = section.symbol.clone();
+            // the entry must be zero unless st_shndx is SHN_XINDEX
+            let mut shndx = 0;
+            if sym.st_shndx >= SHN_LORESERVE as usize {
+                shndx = sym.st_shndx as u32;
+                sym.st_shndx = SHN_XINDEX as usize;
+            }
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(shndx, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for sections");
             }
-            if sym.st_shndx >= SHN_LORESERVE as usize {
-                sym.st_shndx = SHN_XINDEX as usize;
-            }
             file.iowrite_with(sym, self.ctx)?;
             section_headers.push(section.header);
         }
         for (_id, symbol) in self.symbols.into_iter() {
             debug!("Symbol: {:?}", symbol);
             let mut sym = symbol.clone();
+            // the entry must be zero unless st_shndx is SHN_XINDEX
+            let mut shndx = 0;
+            if sym.st_shndx >= SHN_LORESERVE as usize {
+                shndx = sym.st_shndx as u32;
+                sym.st_shndx = SHN_XINDEX as usize;
+            }
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(shndx, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for symbols");
             }
-            if sym.st_shndx >= SHN_LORESERVE as usize {
-                sym.st_shndx = SHN_XINDEX as usize;
-            }
             file.iowrite_with(sym, self.ctx)?;
         }
         if need_symtab_shndx {
-- 
2.43.0


From 27c1756dab8af923bac94aaae28498ba24a006e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:05 +0000
Subject: [PATCH 11/11] fix: refer to weak definitions by their own symbols

A relocation against the section symbol of a weak definition keeps pointing
at it even when a strong definition in another object replaces it.
---
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 80b449e..9cc7ae9 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Whether symbols of this definition have weak binding
+    pub(crate) fn is_weak(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Section(_) => false,
+        }
+    }
+
     /// Whether symbols of this definition have local binding (weak symbols do not)
     pub(crate) fn is_local(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 55aab8c..d0ac448 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -730,6 +730,9 @@ impl<'a> Elf<'a> {
         let addend = i64::from(addend);
 
         let sym_idx = match *l.to.decl {
+            // Another object may replace a weak definition, so references to it
+            // must name its own symbol rather than the section it is in.
+            Decl::Defined(ref d) if d.is_weak() => to_idx,
             Decl::Defined(_) => {
                 // We don't emit symbols for null + strtab + symtab, and
                 // section symbols come after special symbols.
-- 
2.43.0

