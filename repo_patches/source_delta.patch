From ef9728521d23611c232f50296c360e540abec3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:17 +0000
Subject: [PATCH 01/17] fix: paths must not lead back to the item a chain
 started from

---
 analyze/analyses/paths/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 70b84e0..1af6c98 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -109,6 +109,10 @@ fn create_entry(
     let name = item.name().to_string();
     let size = item.size();
 
+    // Temporarily add the current item to the set of discovered nodes, so that
+    // none of its children leads back to it.
+    seen.insert(id);
+
     // Collect the `ir::Id` values of this entry's children, depending on
     // whether we are ascending or descending the IR-tree.
     let children_ids: Vec<ir::Id> = if opts.descending() {
@@ -127,9 +131,7 @@ fn create_entry(
             .collect()
     };
 
-    // Temporarily add the current item to the set of discovered nodes, and
-    // create an entry for each child. Collect these into a `children` vector.
-    seen.insert(id);
+    // Create an entry for each child. Collect these into a `children` vector.
     let children = children_ids
         .into_iter()
         .map(|id| create_entry(id, items, opts, seen))
-- 
2.43.0


From 8b0f12d2dacbed9c4269b12171f2a3923ab3e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:08 +0000
Subject: [PATCH 02/17] fix: dominators counts only the rows it shows against
 the row limit

---
 analyze/analyses/dominators/emit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 28b53d5..6ad5769 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -36,11 +36,12 @@ impl traits::Emit for DominatorTree {
         ) {
             assert_eq!(id == items.meta_root(), depth == 0);
 
-            if *row > opts.max_rows() || depth > opts.max_depth() {
+            if *row >= opts.max_rows() || depth > opts.max_depth() {
                 return;
             }
 
             if depth > 0 {
+                *row += 1;
                 add_text_item(items, depth, id, table);
             }
 
@@ -48,7 +49,6 @@ impl traits::Emit for DominatorTree {
                 let mut children = children.to_vec();
                 children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
                 for child in children {
-                    *row += 1;
                     recursive_add_rows(
                         table,
                         items,
-- 
2.43.0


From 2eefa8ddfeebc531889dd3763ee76cf7fe096af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:39 +0000
Subject: [PATCH 03/17] fix: dominators CSV covers the requested items

---
 analyze/analyses/dominators/emit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 6ad5769..785be09 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -165,7 +165,9 @@ impl traits::Emit for DominatorTree {
         }
 
         let mut wtr = csv::Writer::from_writer(dest);
-        recursive_add_children(items, &self.opts, &self.tree, items.meta_root(), &mut wtr)?;
+        for id in &self.items {
+            recursive_add_children(items, &self.opts, &self.tree, *id, &mut wtr)?;
+        }
 
         if let Some(UnreachableItemsSummary {
             count,
-- 
2.43.0


From 2d71982b90c05fa9a146c78a8a3488bf2680c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:47 +0000
Subject: [PATCH 04/17] fix: diff adds up the sizes of items with the same name

---
 analyze/analyses/diff.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index d7613f7..d19971e 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -101,11 +101,13 @@ pub fn diff(
     let max_items = opts.max_items() as usize;
 
     // Given a set of items, create a HashMap of the items' names and sizes.
+    // The sizes of items that share a name add up.
     fn get_names_and_sizes(items: &ir::Items) -> HashMap<&str, i64> {
-        items
-            .iter()
-            .map(|item| (item.name(), i64::from(item.size())))
-            .collect()
+        let mut sizes = HashMap::new();
+        for item in items.iter() {
+            *sizes.entry(item.name()).or_insert(0) += i64::from(item.size());
+        }
+        sizes
     }
 
     // Collect the names and sizes of the items in the old and new collections.
-- 
2.43.0


From f85d28221dc1169850abc4408dcb869a4c681572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 05/17] fix: monos counts every instantiation, also those equal
 in name and size

---
 analyze/analyses/monos/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index b6c1a3a..21503b2 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -1,5 +1,5 @@
 use std::cmp;
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use regex;
 use twiggy_ir as ir;
@@ -29,7 +29,7 @@ fn collect_monomorphizations<'a>(
     let using_regexps = opts.using_regexps();
     let regexps = regex::RegexSet::new(opts.functions())?;
 
-    let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
+    let unsorted_monos: MonosMap<'a> = items
         .iter()
         .filter_map(|item| {
             if let Some(generic) = item.monomorphization_of() {
@@ -46,15 +46,14 @@ fn collect_monomorphizations<'a>(
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
             monos
                 .entry(generic)
-                .or_insert_with(BTreeSet::new)
-                .insert((inst.name().to_string(), inst.size()));
+                .or_insert_with(Vec::new)
+                .push((inst.name().to_string(), inst.size()));
             monos
         });
 
     Ok(unsorted_monos
         .into_iter()
-        .map(|(generic, inst_set)| {
-            let mut insts = inst_set.into_iter().collect::<Vec<_>>();
+        .map(|(generic, mut insts)| {
             insts.sort_by(|(a_name, a_size), (b_name, b_size)| {
                 b_size.cmp(a_size).then(a_name.cmp(b_name))
             });
-- 
2.43.0


From 57624a6a701292c043e67be18af884eb9f150418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 06/17] fix: paths and dominators cover every item that has a
 requested name

---
 analyze/analyses/dominators/mod.rs | 2 +-
 analyze/analyses/paths/mod.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/dominators/mod.rs b/analyze/analyses/dominators/mod.rs
index 79d99e1..4ed6f64 100644
--- a/analyze/analyses/dominators/mod.rs
+++ b/analyze/analyses/dominators/mod.rs
@@ -48,7 +48,7 @@ pub fn dominators(
     } else {
         arguments
             .iter()
-            .filter_map(|name| items.get_item_by_name(name))
+            .flat_map(|name| items.iter().filter(move |item| item.name() == name))
             .map(|item| item.id())
             .collect()
     };
diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 1af6c98..eed456c 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -75,7 +75,7 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
     let get_exact_matches = || -> Vec<ir::Id> {
         opts.functions()
             .iter()
-            .filter_map(|s| items.get_item_by_name(s))
+            .flat_map(|s| items.iter().filter(move |item| item.name() == s))
             .map(|item| item.id())
             .collect()
     };
-- 
2.43.0


From 6683c708cf70591459f733c464d9c5bc5ec8bd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 07/17] fix: monos compiles the given names as expressions only
 when asked to

---
 analyze/analyses/monos/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index 21503b2..a5348dd 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -26,8 +26,12 @@ fn collect_monomorphizations<'a>(
     opts: &opt::Monos,
 ) -> anyhow::Result<MonosMap<'a>> {
     let args_given = !opts.functions().is_empty();
-    let using_regexps = opts.using_regexps();
-    let regexps = regex::RegexSet::new(opts.functions())?;
+    // The given names are only expressions when the caller says so.
+    let regexps = if opts.using_regexps() {
+        Some(regex::RegexSet::new(opts.functions())?)
+    } else {
+        None
+    };
 
     let unsorted_monos: MonosMap<'a> = items
         .iter()
@@ -38,9 +42,9 @@ fn collect_monomorphizations<'a>(
                 None
             }
         })
-        .filter(|(generic, _)| match (args_given, using_regexps) {
-            (true, true) => regexps.is_match(generic),
-            (true, false) => opts.functions().iter().any(|name| name == generic),
+        .filter(|(generic, _)| match (args_given, &regexps) {
+            (true, Some(regexps)) => regexps.is_match(generic),
+            (true, None) => opts.functions().iter().any(|name| name == generic),
             (false, _) => true,
         })
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
-- 
2.43.0


From d55c1673dccedfbe0807127be1b346765b1599ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:46 +0000
Subject: [PATCH 08/17] fix: escape backslashes, newlines and control
 characters in JSON strings

---
 analyze/formats/json.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index c7b5ead..116a601 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -14,8 +14,9 @@ impl<'a> JsonPrimitive for &'a str {
         for c in self.chars() {
             match c {
                 '"' => write!(w, "\\\"")?,
-                '\\' => write!(w, "\\")?,
-                '\n' => writeln!(w,)?,
+                '\\' => write!(w, "\\\\")?,
+                '\n' => write!(w, "\\n")?,
+                c if c < ' ' => write!(w, "\\u{:04x}", u32::from(c))?,
                 c => write!(w, "{}", c)?,
             }
         }
-- 
2.43.0


From 597b51cda1037d0116f924d801217385a2e7f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 09/17] fix: a C++ symbol that cannot be demangled keeps its
 name

---
 ir/ir.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 5cb3d22..dca95c1 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -617,7 +617,8 @@ impl Code {
         }
 
         if let Ok(sym) = cpp_demangle::Symbol::new(s) {
-            return Some(sym.to_string());
+            // Some symbols parse but cannot be demangled.
+            return sym.demangle(&cpp_demangle::DemangleOptions::default()).ok();
         }
 
         None
-- 
2.43.0


From cc233169bdf88454a8a64db1b9a9b54364a107a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:28 +0000
Subject: [PATCH 10/17] fix: the garbage report can be written as CSV

---
 analyze/analyses/garbage.rs | 47 +++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 77fce23..3523310 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -5,6 +5,8 @@ use petgraph::visit::Walker;
 
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
+use csv;
+use serde_derive::Serialize;
 use twiggy_ir as ir;
 use twiggy_opt as opt;
 use twiggy_traits as traits;
@@ -137,8 +139,49 @@ impl traits::Emit for Garbage {
     }
 
     #[cfg(feature = "emit_csv")]
-    fn emit_csv(&self, _items: &ir::Items, _dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        unimplemented!();
+    fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
+        #[derive(Serialize, Debug)]
+        #[serde(rename_all = "PascalCase")]
+        struct CsvRecord {
+            name: String,
+            bytes: u32,
+            size_percent: f64,
+        }
+
+        let mut wtr = csv::Writer::from_writer(dest);
+        let mut write_record = |name: String, bytes: u32| -> anyhow::Result<()> {
+            wtr.serialize(CsvRecord {
+                name,
+                bytes,
+                size_percent: f64::from(bytes) / f64::from(items.size()) * 100.0,
+            })?;
+            wtr.flush()?;
+            Ok(())
+        };
+        let total = |ids: &[ir::Id]| ids.iter().map(|&id| items[id].size()).sum::<u32>();
+
+        let (listed, rest) = self.items.split_at(self.limit.min(self.items.len()));
+        for &id in listed {
+            write_record(items[id].name().to_string(), items[id].size())?;
+        }
+        if !rest.is_empty() {
+            write_record(format!("... and {} more", rest.len()), total(rest))?;
+        }
+        write_record(
+            format!("Σ [{} Total Rows]", self.items.len()),
+            total(&self.items),
+        )?;
+        if !self.data_segments.is_empty() {
+            write_record(
+                format!(
+                    "{} potential false-positive data segments",
+                    self.data_segments.len()
+                ),
+                total(&self.data_segments),
+            )?;
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From e4b5c65177f0a110033f6449df27a27da2ef3392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:33 +0000
Subject: [PATCH 11/17] fix: constant addresses of loads are unsigned

---
 parser/wasm_parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dee5313..26a00a2 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -609,7 +609,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
                         if let Some(Operator::I32Const { value }) = prev {
-                            if let Some(data_id) = items.get_data(value as u64 + memarg.offset) {
+                            // Addresses are unsigned.
+                            let addr = u64::from(value as u32).saturating_add(memarg.offset);
+                            if let Some(data_id) = items.get_data(addr) {
                                 edges.push((body_id, data_id));
                             }
                         }
-- 
2.43.0


From 7678d38fda8941e4a5cb5ac5c02683d84f80990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 12/17] fix: out-of-range indices and truncated code sections
 in a module are errors

---
 parser/wasm_parse/mod.rs | 61 +++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 26a00a2..dce218f 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -7,7 +7,7 @@ use wasmparser::{self, Operator, SectionReader, Type};
 
 #[derive(Default)]
 pub struct SectionIndices {
-    type_: Option<usize>,
+    types: Vec<Option<Id>>,
     code: Option<usize>,
     functions: Vec<Id>,
     tables: Vec<Id>,
@@ -70,12 +70,13 @@ impl<'a> ModuleReader<'a> {
         start_offset: usize,
         byte_range: wasmparser::Range,
     ) -> anyhow::Result<CodeSection<'a>> {
+        let bytes = self
+            .data
+            .get(byte_range.start..byte_range.end)
+            .ok_or_else(|| anyhow!("code section is truncated"))?;
         Ok(CodeSection {
             index: index,
-            reader: wasmparser::CodeSectionReader::new(
-                &self.data[byte_range.start..byte_range.end],
-                byte_range.start,
-            )?,
+            reader: wasmparser::CodeSectionReader::new(bytes, byte_range.start)?,
             byte_size: byte_range.end - start_offset,
         })
     }
@@ -256,8 +257,14 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         let mut indices = SectionIndices::default();
         for IndexedSection(idx, section) in sections.iter() {
             match section {
-                wasmparser::Payload::TypeSection(_reader) => {
-                    indices.type_ = Some(*idx);
+                wasmparser::Payload::TypeSection(reader) => {
+                    for (i, ty) in reader.clone().into_iter().enumerate() {
+                        indices.types.push(match ty? {
+                            wasmparser::TypeDef::Func(_) => Some(Id::entry(*idx, i)),
+                            wasmparser::TypeDef::Module(_) => None,
+                            wasmparser::TypeDef::Instance(_) => None,
+                        });
+                    }
                 }
                 wasmparser::Payload::ImportSection(reader) => {
                     for (i, import) in reader.clone().into_iter().enumerate() {
@@ -499,6 +506,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         (imported_functions, names): Self::ItemsExtra,
     ) -> anyhow::Result<()> {
         let (func_section, code_section) = self;
+        if func_section.reader.get_count() != code_section.reader.get_count() {
+            return Err(anyhow!("function and code section differ in length"));
+        }
 
         let func_section_index = func_section.index;
         let func_items: Vec<ir::Item> = iterate_with_size(&mut func_section.reader)
@@ -561,12 +571,11 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         // Function section reader parsing.
         for (func_i, type_ref) in iterate_with_size(&mut function_section.reader).enumerate() {
             let (type_ref, _) = type_ref?;
-            if let Some(type_idx) = indices.type_ {
-                let type_id = Id::entry(type_idx, type_ref as usize);
-                if let Some(code_idx) = indices.code {
-                    let body_id = Id::entry(code_idx, func_i);
-                    edges.push((body_id, type_id));
-                }
+            let type_id = lookup(&indices.types, type_ref)?
+                .ok_or_else(|| anyhow!("the type of a function is not a function type"))?;
+            if let Some(code_idx) = indices.code {
+                let body_id = Id::entry(code_idx, func_i);
+                edges.push((body_id, type_id));
             }
         }
 
@@ -580,7 +589,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                 let prev = cache.take();
                 match op? {
                     Operator::Call { function_index } => {
-                        let f_id = indices.functions[function_index as usize];
+                        let f_id = lookup(&indices.functions, function_index)?;
                         edges.push((body_id, f_id));
                     }
 
@@ -590,7 +599,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::CallIndirect { .. } => continue,
 
                     Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
-                        let g_id = indices.globals[global_index as usize];
+                        let g_id = lookup(&indices.globals, global_index)?;
                         edges.push((body_id, g_id));
                     }
 
@@ -857,16 +866,16 @@ impl<'a> Parse<'a> for wasmparser::ExportSectionReader<'a> {
             let exp_id = Id::entry(idx, i);
             match exp.kind {
                 wasmparser::ExternalKind::Function => {
-                    items.add_edge(exp_id, indices.functions[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.functions, exp.index)?);
                 }
                 wasmparser::ExternalKind::Table => {
-                    items.add_edge(exp_id, indices.tables[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.tables, exp.index)?);
                 }
                 wasmparser::ExternalKind::Memory => {
-                    items.add_edge(exp_id, indices.memories[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.memories, exp.index)?);
                 }
                 wasmparser::ExternalKind::Global => {
-                    items.add_edge(exp_id, indices.globals[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.globals, exp.index)?);
                 }
                 wasmparser::ExternalKind::Tag
                 | wasmparser::ExternalKind::Type
@@ -900,7 +909,7 @@ impl<'a> Parse<'a> for StartSection<'a> {
     ) -> anyhow::Result<()> {
         items.add_edge(
             Id::section(idx),
-            indices.functions[self.function_index as usize],
+            lookup(&indices.functions, self.function_index)?,
         );
         Ok(())
     }
@@ -932,7 +941,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
 
             match elem.kind {
                 wasmparser::ElementKind::Active { table_index, .. } => {
-                    items.add_edge(indices.tables[table_index as usize], elem_id);
+                    items.add_edge(lookup(&indices.tables, table_index)?, elem_id);
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -941,7 +950,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
                 let element_item = element_item?;
                 match element_item {
                     wasmparser::ElementItem::Func(func_idx) => {
-                        items.add_edge(elem_id, indices.functions[func_idx as usize]);
+                        items.add_edge(elem_id, lookup(&indices.functions, func_idx)?);
                     }
                     wasmparser::ElementItem::Null(_ty) => {}
                 }
@@ -995,6 +1004,14 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
     }
 }
 
+/// Look up an index that comes from the binary in its index space.
+fn lookup<T: Copy>(index_space: &[T], index: u32) -> anyhow::Result<T> {
+    index_space
+        .get(index as usize)
+        .copied()
+        .ok_or_else(|| anyhow!("index {} is out of bounds", index))
+}
+
 fn iterate_with_size<'a, S: SectionWithLimitedItems + SectionReader>(
     s: &'a mut S,
 ) -> impl Iterator<Item = anyhow::Result<(S::Item, u32)>> + 'a {
-- 
2.43.0


From 4dc3383c31bc7b0dd8971e461f702094d4865dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 13/17] fix: a module with two function or code sections is
 malformed

---
 parser/wasm_parse/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dce218f..6074040 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -112,9 +112,15 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             let indexed_section = IndexedSection(idx, section);
             match indexed_section.1 {
                 wasmparser::Payload::CodeSectionStart { range, .. } => {
+                    if code_section.is_some() {
+                        return Err(anyhow!("more than one code section"));
+                    }
                     code_section = Some(self.new_code_section(idx, start, range)?);
                 }
                 wasmparser::Payload::FunctionSection(reader) => {
+                    if function_section.is_some() {
+                        return Err(anyhow!("more than one function section"));
+                    }
                     function_section = Some(FunctionSection {
                         index: idx,
                         byte_size: reader.range().end - start,
-- 
2.43.0


From c7c41ff476d488b73d342f7fa12f9443a302e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 14/17] fix: link data segments over the whole 32-bit address
 space

Segment offsets are unsigned, a segment may end at the last address, and an
empty segment must not hide another one at the same offset.
---
 ir/ir.rs                 | 6 +++++-
 parser/wasm_parse/mod.rs | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index dca95c1..cd3eba3 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -79,7 +79,11 @@ impl ItemsBuilder {
 
     /// Add a range of static data and the `Id` that defines it.
     pub fn link_data(&mut self, offset: i64, len: usize, id: Id) {
-        if offset >= 0 && offset <= i64::from(u32::MAX) && offset as usize + len < u32::MAX as usize
+        // An empty segment holds no address.
+        if len > 0
+            && offset >= 0
+            && offset <= i64::from(u32::MAX)
+            && offset as u64 + len as u64 <= u64::from(u32::MAX) + 1
         {
             self.data.insert(offset as u64, (id, len as u64));
         }
diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 6074040..4b4f53b 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -989,7 +989,8 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
             if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
                 let mut iter = init_expr.get_operators_reader();
                 let offset = match iter.read()? {
-                    Operator::I32Const { value } => Some(i64::from(value)),
+                    // Addresses are unsigned.
+                    Operator::I32Const { value } => Some(i64::from(value as u32)),
                     Operator::I64Const { value } => Some(value),
                     _ => None,
                 };
-- 
2.43.0


From 5d306cf90877c581fd1d8a0e05531d1d8bd4cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 15/17] fix: errors of writing the report's end are reported

A full disk went unnoticed when the data was still buffered (text and JSON
written to a file, JSON written to standard output), and an error while a
JSON array or object was closed was ignored: the exit status was 0.
---
 twiggy/twiggy.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/twiggy/twiggy.rs b/twiggy/twiggy.rs
index e1119cf..7a2a9c3 100644
--- a/twiggy/twiggy.rs
+++ b/twiggy/twiggy.rs
@@ -3,6 +3,7 @@
 #![deny(missing_docs)]
 #![deny(missing_debug_implementations)]
 
+use std::io::Write;
 use std::process;
 use structopt::StructOpt;
 use twiggy_analyze as analyze;
@@ -32,7 +33,12 @@ fn run(opts: &opt::Options) -> anyhow::Result<()> {
         }
     };
 
-    let mut dest = opts.output_destination().open()?;
+    let mut report = Vec::new();
+    data.emit(&items, &mut report, opts.output_format())?;
 
-    data.emit(&items, &mut *dest, opts.output_format())
+    // Errors of writes that are still buffered must not get lost.
+    let mut dest = opts.output_destination().open()?;
+    dest.write_all(&report)?;
+    dest.flush()?;
+    Ok(())
 }
-- 
2.43.0


From 16255bcfacd1e86af69d844a1c9be95599713121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 16/17] fix: DWARF addresses that make no sense are errors

A DW_AT_high_pc below DW_AT_low_pc, ranges whose lengths overflow and functions that are larger than 32-bit
sizes panicked or were given a wrong size.
---
 parser/object_parse/die_parse/location_attrs.rs | 12 +++++++++---
 parser/object_parse/die_parse/mod.rs            |  5 +++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index d66bfba..319fef4 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -53,7 +53,10 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
             (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                Ok(Some(high_pc - low_pc))
+                let size = high_pc
+                    .checked_sub(low_pc)
+                    .ok_or_else(|| anyhow!("DW_AT_high_pc is below DW_AT_low_pc"))?;
+                Ok(Some(size))
             }
             // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
             // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
@@ -77,8 +80,11 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             let offset = dwarf.ranges_offset_from_raw(unit, raw_offset);
             let ranges = dwarf.ranges(unit, offset)?;
             let size = ranges
-                .map(|r| Ok(r.end - r.begin))
-                .fold(0, |res, size| Ok(res + size))?;
+                .map(|r| Ok(r.end.checked_sub(r.begin)))
+                .fold(Some(0u64), |res, size| {
+                    Ok(res.and_then(|res| res.checked_add(size?)))
+                })?
+                .ok_or_else(|| anyhow!("Unexpected DW_AT_ranges address ranges"))?;
             Ok(Some(size))
         } else {
             Ok(None)
diff --git a/parser/object_parse/die_parse/mod.rs b/parser/object_parse/die_parse/mod.rs
index ef40092..cb0af97 100644
--- a/parser/object_parse/die_parse/mod.rs
+++ b/parser/object_parse/die_parse/mod.rs
@@ -1,3 +1,4 @@
+use anyhow::anyhow;
 use gimli;
 use twiggy_ir as ir;
 mod item_name;
@@ -25,6 +26,10 @@ pub(super) fn parse_items<R: gimli::Reader>(
                 let name = item_name(entry, dwarf, unit)?
                     .unwrap_or_else(|| format!("Subroutine[{}][{}]", unit_id, entry_id));
                 let kind: ir::ItemKind = ir::Code::new(&name).into();
+                // Neither an item nor all of them can be larger than 32-bit sizes allow.
+                if size > u64::from(u32::MAX - items.size_added()) {
+                    return Err(anyhow!("Subprogram `{}` is too large: {} bytes", name, size));
+                }
                 ir::Item::new(id, &name, size as u32, kind)
             } else {
                 return Ok(());
-- 
2.43.0


From a26f09d3b0cb6360237456b2489341abe811776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 17/17] fix: DWARF 5 addresses and ranges given by index

Compilers use DW_FORM_addrx and DW_FORM_rnglistx for the functions' locations; such files were refused.
---
 .../object_parse/die_parse/location_attrs.rs  | 46 +++++++++++++------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index 319fef4..e69a13e 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -36,7 +36,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(size) = self.contiguous_entity_size()? {
+        if let Some(size) = self.contiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
         } else if let Some(size) = self.noncontiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
@@ -47,14 +47,23 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
 
     /// Compute the size of an entity occupying a contiguous range of machine
     /// code addresses in the binary.
-    fn contiguous_entity_size(&self) -> FallilbleOption<u64> {
-        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc()?;
+    fn contiguous_entity_size(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
+        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc(dwarf, unit)?;
         match (dw_at_low_pc, &self.dw_at_high_pc) {
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
-            (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                let size = high_pc
-                    .checked_sub(low_pc)
+            (
+                Some(low_pc),
+                Some(value @ gimli::AttributeValue::Addr(_))
+                | Some(value @ gimli::AttributeValue::DebugAddrIndex(_)),
+            ) => {
+                let size = dwarf
+                    .attr_address(unit, value.clone())?
+                    .and_then(|high_pc| high_pc.checked_sub(low_pc))
                     .ok_or_else(|| anyhow!("DW_AT_high_pc is below DW_AT_low_pc"))?;
                 Ok(Some(size))
             }
@@ -76,8 +85,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(raw_offset) = self.dw_at_ranges()? {
-            let offset = dwarf.ranges_offset_from_raw(unit, raw_offset);
+        if let Some(offset) = self.dw_at_ranges(dwarf, unit)? {
             let ranges = dwarf.ranges(unit, offset)?;
             let size = ranges
                 .map(|r| Ok(r.end.checked_sub(r.begin)))
@@ -92,21 +100,33 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
     }
 
     /// Return the DW_AT_low_pc attribute as a u64 value representing an address.
-    fn dw_at_low_pc(&self) -> FallilbleOption<u64> {
+    fn dw_at_low_pc(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
         match &self.dw_at_low_pc {
             Some(gimli::AttributeValue::Addr(address)) => Ok(Some(*address)),
+            Some(value @ gimli::AttributeValue::DebugAddrIndex(_)) => {
+                Ok(dwarf.attr_address(unit, value.clone())?)
+            }
             Some(_) => Err(anyhow!("Unexpected base address attribute value",)),
             None => Ok(None),
         }
     }
 
-    /// Return the DW_AT_ranges attribute as a u64 value representing an offset
-    /// into the `.debug_ranges` section of the file.
+    /// Return the DW_AT_ranges attribute as an offset into the `.debug_ranges`
+    /// or `.debug_rnglists` section of the file.
     fn dw_at_ranges(
         &self,
-    ) -> FallilbleOption<gimli::RawRangeListsOffset<<R as gimli::Reader>::Offset>> {
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<gimli::RangeListsOffset<R::Offset>> {
         match &self.dw_at_ranges {
-            Some(gimli::AttributeValue::RangeListsRef(offset)) => Ok(Some(*offset)),
+            Some(value @ gimli::AttributeValue::RangeListsRef(_))
+            | Some(value @ gimli::AttributeValue::DebugRngListsIndex(_)) => {
+                Ok(dwarf.attr_ranges_offset(unit, value.clone())?)
+            }
             Some(_) => Err(anyhow!("Unexpected DW_AT_ranges value")),
             None => Ok(None),
         }
-- 
2.43.0

