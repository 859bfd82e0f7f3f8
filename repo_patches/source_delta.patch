From 3b25cd2e842335d4d0cd2b37dce1105f119bb3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 01/81] fix: measure block comments in bytes, not in characters

---
 crates/syntax/src/parse/lexer/move_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/lexer/move_model.rs b/crates/syntax/src/parse/lexer/move_model.rs
index 813a552..55ba4c4 100644
--- a/crates/syntax/src/parse/lexer/move_model.rs
+++ b/crates/syntax/src/parse/lexer/move_model.rs
@@ -541,7 +541,8 @@ fn get_block_comment_len(text: &str) -> usize {
             pos += 2;
             continue;
         }
-        pos += 1;
+        // comment text can be of any script, `pos` is in bytes
+        pos += curr.len_utf8();
     }
 
     2 + pos
-- 
2.43.0


From 17b247a4ad9d78308b9511276080afe1ca8603bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 02/81] fix: do not panic on a module declaration or an
 argument list that is not there yet

`module @::`, `requires_of<f>` and `apply lemma` without an argument list made the parser
assert on a token the text does not have.
---
 crates/syntax/src/parse/grammar.rs             | 2 +-
 crates/syntax/src/parse/grammar/expressions.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/parse/grammar.rs b/crates/syntax/src/parse/grammar.rs
index 6178d03..94e3944 100644
--- a/crates/syntax/src/parse/grammar.rs
+++ b/crates/syntax/src/parse/grammar.rs
@@ -83,7 +83,7 @@ pub mod entry_points {
 
 pub(crate) fn module(p: &mut Parser, m: Marker) {
     p.bump(T![module]);
-    if p.nth_at(1, T![::]) {
+    if (p.at(INT_NUMBER) || p.at(IDENT)) && p.nth_at(1, T![::]) {
         // named address
         any_address(p);
         p.bump(T![::]);
diff --git a/crates/syntax/src/parse/grammar/expressions.rs b/crates/syntax/src/parse/grammar/expressions.rs
index 61c8a07..df2dddd 100644
--- a/crates/syntax/src/parse/grammar/expressions.rs
+++ b/crates/syntax/src/parse/grammar/expressions.rs
@@ -301,7 +301,10 @@ fn index_expr(p: &mut Parser, lhs: CompletedMarker) -> CompletedMarker {
 }
 
 pub(crate) fn value_arg_list(p: &mut Parser) {
-    assert!(p.at(T!['(']));
+    if !p.at(T!['(']) {
+        p.error("expected argument list");
+        return;
+    }
     let m = p.start();
     p.bump(T!['(']);
     delimited_with_recovery(
-- 
2.43.0


From 0d0bd66ff6cf1e7bdaae25b14e9cbbb75e9f1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 03/81] fix: don't panic on parameters without a name

---
 crates/syntax/src/ast/node_ext/param.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/ast/node_ext/param.rs b/crates/syntax/src/ast/node_ext/param.rs
index ce0c7e1..90ea4fc 100644
--- a/crates/syntax/src/ast/node_ext/param.rs
+++ b/crates/syntax/src/ast/node_ext/param.rs
@@ -22,9 +22,10 @@ impl ast::Param {
         if self.wildcard_pat().is_some() {
             return "_".to_string();
         }
-        // todo: ident_pat can be none
-        let ident_pat = self.ident_pat().unwrap();
-        ident_pat.name().unwrap().as_string()
+        // the name is not there yet while the parameter is being typed
+        self.ident_pat()
+            .and_then(|it| it.name())
+            .map_or_else(|| "_".to_string(), |name| name.as_string())
     }
 
     pub fn is_self(&self) -> bool {
-- 
2.43.0


From 7d1695ebf7b212c8ef28c041111dc9b8a95383c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 04/81] fix: don't panic on structs and enums outside of a
 module

---
 crates/lang/src/nameres/fq_named_element.rs      | 2 +-
 crates/lang/src/types/ty.rs                      | 2 +-
 crates/lang/src/types/ty/adt.rs                  | 3 +--
 crates/syntax/src/ast/node_ext/struct_or_enum.rs | 6 ++----
 4 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/lang/src/nameres/fq_named_element.rs b/crates/lang/src/nameres/fq_named_element.rs
index fdbe615..9c920a7 100644
--- a/crates/lang/src/nameres/fq_named_element.rs
+++ b/crates/lang/src/nameres/fq_named_element.rs
@@ -110,7 +110,7 @@ impl<T: AstNode> ItemFQNameOwner for InFile<T> {
                     })
                 },
                 ast::StructOrEnum(it) => {
-                    let module_fq_name = it.module().in_file(it_file_id).fq_name(db)?;
+                    let module_fq_name = it.module()?.in_file(it_file_id).fq_name(db)?;
                     let name = it.name()?;
                     Some(ItemFQName::Item {
                         module_fq_name: Box::new(module_fq_name),
diff --git a/crates/lang/src/types/ty.rs b/crates/lang/src/types/ty.rs
index 8291397..07973fb 100644
--- a/crates/lang/src/types/ty.rs
+++ b/crates/lang/src/types/ty.rs
@@ -112,7 +112,7 @@ impl Ty {
         match ty {
             Ty::Adt(ty_adt) => {
                 let item = ty_adt.adt_item_loc.to_ast::<ast::StructOrEnum>(db)?;
-                Some(item.map(|it| it.module()))
+                item.and_then(|it| it.module())
             }
             Ty::Seq(TySequence::Vector(_)) => {
                 let module = get_modules_as_entries(db, current_package_id, Address::named("std"))
diff --git a/crates/lang/src/types/ty/adt.rs b/crates/lang/src/types/ty/adt.rs
index c3f0ad2..7661924 100644
--- a/crates/lang/src/types/ty/adt.rs
+++ b/crates/lang/src/types/ty/adt.rs
@@ -39,8 +39,7 @@ impl TyAdt {
 
     pub fn adt_item_module(&self, db: &dyn SourceDatabase) -> Option<ast::Module> {
         let adt_item = self.adt_item(db)?;
-        let m = adt_item.value.module();
-        Some(m)
+        adt_item.value.module()
     }
 }
 
diff --git a/crates/syntax/src/ast/node_ext/struct_or_enum.rs b/crates/syntax/src/ast/node_ext/struct_or_enum.rs
index ce05829..b1a2aa0 100644
--- a/crates/syntax/src/ast/node_ext/struct_or_enum.rs
+++ b/crates/syntax/src/ast/node_ext/struct_or_enum.rs
@@ -10,10 +10,8 @@ use crate::{AstNode, ast};
 use std::collections::HashSet;
 
 impl ast::StructOrEnum {
-    pub fn module(&self) -> ast::Module {
-        self.syntax()
-            .parent_of_type::<ast::Module>()
-            .expect("required by the parser")
+    pub fn module(&self) -> Option<ast::Module> {
+        self.syntax().parent_of_type::<ast::Module>()
     }
 
     pub fn fields(&self) -> Vec<(String, ast::AnyField)> {
-- 
2.43.0


From 879edf3e3a22b9f3d735a04c340b4164517f2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 05/81] fix: don't panic on let statements outside of a block

---
 .../src/handlers/unused_variables.rs          | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_variables.rs b/crates/ide-diagnostics/src/handlers/unused_variables.rs
index a1b89c6..0209bba 100644
--- a/crates/ide-diagnostics/src/handlers/unused_variables.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_variables.rs
@@ -48,17 +48,15 @@ pub(crate) fn check_unused_ident_pat<'db>(
     if matches!(ident_owner, ast::IdentPatOwner::LetStmt(_)) && ident_pat.is_msl() {
         // if there's an `include` statement anywhere in this block, don't warn
         // NOTE: it should be implement properly, but for now we just do it easy way
-        let outer_block = ident_pat
-            .value
-            .syntax()
-            .ancestor_strict::<ast::BlockExpr>()
-            .expect("LetStmt is always a child of a block");
-        if outer_block
-            .syntax()
-            .descendants_of_type::<ast::IncludeSchema>()
-            .next()
-            .is_some()
-        {
+        // NOTE: there's no block around a statement of a broken item
+        let outer_block = ident_pat.value.syntax().ancestor_strict::<ast::BlockExpr>();
+        if outer_block.is_some_and(|block| {
+            block
+                .syntax()
+                .descendants_of_type::<ast::IncludeSchema>()
+                .next()
+                .is_some()
+        }) {
             return None;
         }
     }
-- 
2.43.0


From 7850bb8d6032dc1a5d8b81cb0b5d66d85d2f4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 06/81] fix: prepare rename of the name under the cursor, not
 of its definition

---
 crates/ide/src/rename.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index 3d5aac9..77b102c 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -23,12 +23,14 @@ pub(crate) fn prepare_rename(db: &RootDatabase, position: FilePosition) -> Renam
     let syntax = source_file.syntax();
 
     let named_element = find_definition(&sema, syntax, position)?;
-    let name = named_element
+    let name_like = named_element
         .value
         .name()
+        .and_then(|_| sema.find_namelike_at_offset(syntax, position.offset))
         .ok_or_else(|| format_err!("No references found at position"))?;
 
-    Ok(RangeInfo::new(name.syntax().text_range(), ()))
+    // the definition can be anywhere, even in another file
+    Ok(RangeInfo::new(name_like.syntax().text_range(), ()))
 }
 
 pub(crate) fn rename(
-- 
2.43.0


From 691c1ab4e98dc426b4b9a191ddaebf53f9d8d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 07/81] fix: query cycle on the path of a module spec

---
 crates/lang/src/nameres/resolve_scopes.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/lang/src/nameres/resolve_scopes.rs b/crates/lang/src/nameres/resolve_scopes.rs
index 1429a28..cdd732a 100644
--- a/crates/lang/src/nameres/resolve_scopes.rs
+++ b/crates/lang/src/nameres/resolve_scopes.rs
@@ -76,6 +76,10 @@ pub(crate) fn get_resolve_scopes(
                     scopes.push(module.as_ref().map(|it| it.syntax().clone()));
                     scopes.extend(module_inner_spec_scopes(&module));
                 }
+            } else {
+                // `use`s and items of the spec are not in scope for the path,
+                // and resolving them requires module of the spec
+                scopes.pop();
             }
         }
     }
-- 
2.43.0


From cff7015f17b88ce32040ac4863f1bf1811909118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 08/81] fix: decimal addresses in paths to import

---
 crates/syntax/src/ast/syntax_factory/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/ast/syntax_factory/paths.rs b/crates/syntax/src/ast/syntax_factory/paths.rs
index eed2d87..cc08591 100644
--- a/crates/syntax/src/ast/syntax_factory/paths.rs
+++ b/crates/syntax/src/ast/syntax_factory/paths.rs
@@ -52,7 +52,7 @@ impl SyntaxFactory {
         let path_segments = import_path
             .split("::")
             .map(|it| {
-                if it.starts_with("0x") {
+                if it.starts_with(|c: char| c.is_ascii_digit()) {
                     self.path_segment_from_value_address(it)
                 } else {
                     self.path_segment_from_name(it)
-- 
2.43.0


From 0896683a0c334a8257f20e37850f9bb0cb90f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 09/81] fix: more patterns than types after the rest pattern

---
 crates/lang/src/types/patterns.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/patterns.rs b/crates/lang/src/types/patterns.rs
index 2f79bb7..791eb80 100644
--- a/crates/lang/src/types/patterns.rs
+++ b/crates/lang/src/types/patterns.rs
@@ -275,7 +275,10 @@ impl TypeAstWalker<'_, '_> {
             let pat_ty = if indx < first_rest_indx {
                 get_type(indx as usize)
             } else if indx > last_rest_indx {
-                get_type(tuple_size - (pats_len - (indx as usize)))
+                // there can be more patterns than types in the code being typed
+                (tuple_size + indx as usize)
+                    .checked_sub(pats_len)
+                    .map_or(Ty::Unknown, &get_type)
             } else {
                 Ty::Unknown
             };
-- 
2.43.0


From 1b072f3275aadf39b015fbd557202157dcddb062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 10/81] fix: 'use' statements at less than four spaces cannot
 be split

---
 crates/syntax/src/syntax_editor/syntax_editor_ext.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/syntax/src/syntax_editor/syntax_editor_ext.rs b/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
index a7db036..30393ba 100644
--- a/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
+++ b/crates/syntax/src/syntax_editor/syntax_editor_ext.rs
@@ -10,8 +10,7 @@ impl SyntaxEditor {
         self.insert_all(
             Position::after(relative_to.syntax()),
             vec![
-                make.newline().syntax_element(),
-                make.whitespace(&indent_level.to_string()).syntax_element(),
+                make.whitespace(&format!("\n{indent_level}")).syntax_element(),
                 element.syntax_element(),
             ],
         );
-- 
2.43.0


From ba50231f7c08837d775c330ac24b639d8b65a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 11/81] fix: don't panic when files are deleted

---
 crates/base-db/src/change.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/base-db/src/change.rs b/crates/base-db/src/change.rs
index 3713b1a..a3343e7 100644
--- a/crates/base-db/src/change.rs
+++ b/crates/base-db/src/change.rs
@@ -80,7 +80,12 @@ impl FileChanges {
 
         let is_replacing_package_roots = self.package_roots.is_some();
         for (file_id, text) in self.files_changed {
-            let text = text.unwrap_or_default();
+            let Some(text) = text else {
+                // XXX: can't actually remove the file, just reset the text
+                // NOTE: it's not in any of the package roots anymore
+                db.set_file_text(file_id, "");
+                continue;
+            };
             // only use durability if roots are explicitly provided
             if is_replacing_package_roots {
                 let package_id = db.file_package_id(file_id);
@@ -89,7 +94,6 @@ impl FileChanges {
                 db.set_file_text_with_durability(file_id, text.as_str(), durability);
                 continue;
             }
-            // XXX: can't actually remove the file, just reset the text
             db.set_file_text(file_id, text.as_str())
         }
     }
-- 
2.43.0


From aa9e8e94122fa324c06813e8861f79807425ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 12/81] fix: keep the memoized queries up to date when package
 roots are replaced

---
 crates/base-db/src/inputs.rs | 127 ++++++++++++++++++++++++++++-------
 crates/ide-db/src/root_db.rs |   2 +-
 2 files changed, 102 insertions(+), 27 deletions(-)

diff --git a/crates/base-db/src/inputs.rs b/crates/base-db/src/inputs.rs
index 6e6449d..af9df6e 100644
--- a/crates/base-db/src/inputs.rs
+++ b/crates/base-db/src/inputs.rs
@@ -13,6 +13,7 @@ use salsa::Setter;
 use std::collections::HashSet;
 use std::sync::Arc;
 use vfs::FileId;
+use vfs::file_set::FileSet;
 
 pub type AddressPair = (String, String);
 
@@ -53,6 +54,12 @@ pub struct PackageRootInput {
     pub data: Arc<PackageRoot>,
 }
 
+#[salsa::input]
+pub struct FilePackageInput {
+    /// `None` for the files which are not present anymore
+    pub package_id: Option<PackageId>,
+}
+
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub struct PackageMetadata {
     pub package_name: Option<String>,
@@ -70,8 +77,10 @@ pub struct PackageMetadataInput {
 #[derive(Default)]
 pub struct Files {
     files: Arc<DashMap<FileId, FileText>>,
-    file_package_ids: Arc<DashMap<FileId, PackageId>>,
+    file_package_ids: Arc<DashMap<FileId, FilePackageInput>>,
 
+    // all ids ever created, by index
+    known_package_ids: Arc<DashMap<u32, PackageId>>,
     package_roots: Arc<DashMap<PackageId, PackageRootInput>>,
     package_metadata: Arc<DashMap<ManifestFileId, PackageMetadataInput>>,
 
@@ -122,36 +131,50 @@ impl Files {
         *package_root
     }
 
+    // NOTE: memoized queries depend on the inputs, so those need to be updated in place:
+    // memo wouldn't notice that its input has been dropped and replaced with the new one
     pub fn replace_package_roots(&self, db: &mut dyn SourceDatabase, package_roots: Vec<PackageRoot>) {
-        self.file_package_ids.clear();
-        self.package_roots.clear();
-
-        self.spec_file_sets.clear();
-        if let Some(builtins_file_id) = db.builtins_file_id() {
-            db.set_spec_related_files(builtins_file_id.data(db), vec![])
-        }
-
         let mut all_package_ids = vec![];
+        let mut present_file_ids = HashSet::new();
         for (idx, package_root) in package_roots.into_iter().enumerate() {
-            let package_id = PackageId::new(db, idx as u32);
+            let package_id = *self
+                .known_package_ids
+                .entry(idx as u32)
+                .or_insert_with(|| PackageId::new(db, idx as u32));
+            let package_durability = package_root_durability(&package_root);
             for file_id in package_root.file_ids() {
-                self.file_package_ids.insert(file_id, package_id);
+                present_file_ids.insert(file_id);
+                self.set_file_package_id(db, file_id, Some(package_id), package_durability);
                 self.set_spec_related_files(
                     db,
                     file_id,
                     find_spec_file_set(file_id, package_root.clone()).unwrap_or(vec![]),
                 );
             }
-            let package_durability = package_root_durability(&package_root);
-            self.package_roots.insert(
-                package_id,
-                PackageRootInput::builder(Arc::from(package_root))
-                    .durability(package_durability)
-                    .new(db),
-            );
+            self.set_package_root(db, package_id, package_root, package_durability);
             all_package_ids.push(package_id);
         }
 
+        // files and packages which are gone
+        let known_file_ids = self.file_package_ids.iter().map(|it| *it.key()).collect::<Vec<_>>();
+        for file_id in known_file_ids {
+            if !present_file_ids.contains(&file_id) {
+                self.set_file_package_id(db, file_id, None, Durability::LOW);
+                self.set_spec_related_files(db, file_id, vec![]);
+            }
+        }
+        let known_package_ids = self.known_package_ids.iter().map(|it| *it.value()).collect::<Vec<_>>();
+        for package_id in known_package_ids {
+            if !all_package_ids.contains(&package_id) {
+                let empty_root = PackageRoot::new(FileSet::default(), PackageKind::Local, None);
+                self.set_package_root(db, package_id, empty_root, Durability::LOW);
+            }
+        }
+
+        if let Some(builtins_file_id) = db.builtins_file_id() {
+            db.set_spec_related_files(builtins_file_id.data(db), vec![])
+        }
+
         self.all_package_ids
             .unwrap()
             .set_data(db)
@@ -159,15 +182,65 @@ impl Files {
             .to(all_package_ids);
     }
 
-    pub fn file_package_id(&self, file_id: FileId) -> PackageId {
-        let file_package_id = self.file_package_ids.get(&file_id).expect(&format!(
-            "Unable to fetch PackageId for {file_id:?}; this is a bug"
-        ));
-        *file_package_id
+    fn set_package_root(
+        &self,
+        db: &mut dyn SourceDatabase,
+        package_id: PackageId,
+        package_root: PackageRoot,
+        durability: Durability,
+    ) {
+        match self.package_roots.entry(package_id) {
+            Entry::Occupied(mut occupied) => {
+                if *occupied.get().data(db) != package_root {
+                    occupied
+                        .get_mut()
+                        .set_data(db)
+                        .with_durability(durability)
+                        .to(Arc::from(package_root));
+                }
+            }
+            Entry::Vacant(vacant) => {
+                let input = PackageRootInput::builder(Arc::from(package_root))
+                    .durability(durability)
+                    .new(db);
+                vacant.insert(input);
+            }
+        }
+    }
+
+    pub fn file_package_id(&self, db: &dyn SourceDatabase, file_id: FileId) -> PackageId {
+        let file_package = self.file_package_ids.get(&file_id).map(|it| *it);
+        file_package
+            .and_then(|it| it.package_id(db))
+            .expect(&format!(
+                "Unable to fetch PackageId for {file_id:?}; this is a bug"
+            ))
     }
 
-    pub fn set_file_package_id(&self, file_id: FileId, package_id: PackageId) {
-        self.file_package_ids.insert(file_id, package_id);
+    fn set_file_package_id(
+        &self,
+        db: &mut dyn SourceDatabase,
+        file_id: FileId,
+        package_id: Option<PackageId>,
+        durability: Durability,
+    ) {
+        match self.file_package_ids.entry(file_id) {
+            Entry::Occupied(mut occupied) => {
+                if occupied.get().package_id(db) != package_id {
+                    occupied
+                        .get_mut()
+                        .set_package_id(db)
+                        .with_durability(durability)
+                        .to(package_id);
+                }
+            }
+            Entry::Vacant(vacant) => {
+                let input = FilePackageInput::builder(package_id)
+                    .durability(durability)
+                    .new(db);
+                vacant.insert(input);
+            }
+        }
     }
 
     pub fn package_metadata(&self, manifest_file_id: ManifestFileId) -> PackageMetadataInput {
@@ -220,7 +293,9 @@ impl Files {
     ) {
         match self.spec_file_sets.entry(file_id) {
             Entry::Occupied(mut occupied) => {
-                occupied.get_mut().set_data(db).to(spec_related_files);
+                if occupied.get().data(db) != spec_related_files {
+                    occupied.get_mut().set_data(db).to(spec_related_files);
+                }
             }
             Entry::Vacant(vacant) => {
                 let file_set = FileIdSet::new(db, spec_related_files);
diff --git a/crates/ide-db/src/root_db.rs b/crates/ide-db/src/root_db.rs
index b21453b..cf3594a 100644
--- a/crates/ide-db/src/root_db.rs
+++ b/crates/ide-db/src/root_db.rs
@@ -83,7 +83,7 @@ impl SourceDatabase for RootDatabase {
     }
 
     fn file_package_id(&self, id: FileId) -> PackageId {
-        self.files.file_package_id(id)
+        self.files.file_package_id(self, id)
     }
 
     fn builtins_file_id(&self) -> Option<FileIdInput> {
-- 
2.43.0


From d5dc4d4843bb8183ad4c9871f9ad42adc14afa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 13/81] fix: match arms refer to the enum variants they name

---
 crates/ide-db/src/rename.rs  |  5 ++++-
 crates/ide-db/src/search.rs  | 10 ++++++++++
 crates/ide/src/references.rs |  3 ++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 6dc0581..8585599 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -97,7 +97,10 @@ fn source_edit_from_name(
     name: &ast::Name,
     new_name: &dyn fmt::Display,
 ) -> bool {
-    if let Some(struct_pat_field) = ast::StructPatField::for_field_name(name) {
+    if let Some(struct_pat_field) = ast::StructPatField::for_field_name(name)
+        // `Foo { field: CONST }` is not a shorthand
+        && struct_pat_field.name_ref().is_none()
+    {
         let ident_pat = struct_pat_field.ident_pat().unwrap();
         // Foo { field } -> Foo { new_name: field }
         //      ^ insert `new_name: `
diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 18bec57..54ac04d 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -476,6 +476,16 @@ impl<'a> FindUsages<'a> {
 
     fn found_name(&self, name: &ast::Name, sink: &mut dyn FnMut(FileId, FileReference) -> bool) -> bool {
         match NameClass::classify(self.sema, name.clone()) {
+            Some(NameClass::ConstReference(Definition::NamedItem(_, named_item)))
+                if self.named_item == named_item =>
+            {
+                let FileRange { file_id, range } = self.sema.file_range(name.syntax());
+                let reference = FileReference {
+                    range,
+                    name: FileReferenceNode::Name(name.clone()),
+                };
+                sink(file_id, reference)
+            }
             Some(NameClass::ItemSpecFunctionParam {
                 spec_ident_pat,
                 fun_param_ident_pat,
diff --git a/crates/ide/src/references.rs b/crates/ide/src/references.rs
index 8d098d9..8baf899 100644
--- a/crates/ide/src/references.rs
+++ b/crates/ide/src/references.rs
@@ -90,7 +90,8 @@ pub(crate) fn find_def_at_offset(
             }
         }
         ast::NameLike::Name(name) => match NameClass::classify(sema, name)? {
-            NameClass::Definition(Definition::NamedItem(_, named_item)) => Some(named_item),
+            NameClass::Definition(Definition::NamedItem(_, named_item))
+            | NameClass::ConstReference(Definition::NamedItem(_, named_item)) => Some(named_item),
             NameClass::PatFieldShorthand { ident_pat, .. } => Some(ident_pat.map_into()),
             _ => None,
         },
-- 
2.43.0


From 06fdd222273f6100035725610223c29834023075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 14/81] fix: references of parameters from their item spec

---
 crates/ide/src/references.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ide/src/references.rs b/crates/ide/src/references.rs
index 8baf899..c8a8bab 100644
--- a/crates/ide/src/references.rs
+++ b/crates/ide/src/references.rs
@@ -93,6 +93,9 @@ pub(crate) fn find_def_at_offset(
             NameClass::Definition(Definition::NamedItem(_, named_item))
             | NameClass::ConstReference(Definition::NamedItem(_, named_item)) => Some(named_item),
             NameClass::PatFieldShorthand { ident_pat, .. } => Some(ident_pat.map_into()),
+            NameClass::ItemSpecFunctionParam { fun_param_ident_pat, .. } => {
+                Some(fun_param_ident_pat.map_into())
+            }
             _ => None,
         },
     }
-- 
2.43.0


From 978f9ffb97f5fe51826bd8774fdad193c5059222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 15/81] fix: references of a for loop variable in the loop's
 spec

---
 crates/ide-db/src/search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 54ac04d..ecbab0c 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -153,9 +153,9 @@ fn ident_pat_search_scope(db: &RootDatabase, ident_pat: InFile<ast::IdentPat>) -
             Some(SearchScope::from_file_range(fun.syntax().file_range()))
         }
         IdentPatOwner::ForCondition(for_condition) => {
-            let for_body_expr = for_condition.for_expr().loop_body_expr()?;
+            // the condition can have a spec block, with invariants on the loop variable
             Some(SearchScope::from_file_range(
-                for_body_expr.in_file(file_id).file_range(),
+                for_condition.for_expr().in_file(file_id).file_range(),
             ))
         }
         IdentPatOwner::MatchArm(match_arm) => Some(SearchScope::from_file_range(
-- 
2.43.0


From 73cf52e894c93b39c7eaf2404ae9fc76f2a2051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 16/81] fix: renaming a variable bound by a field shorthand
 keeps the field's name

---
 crates/ide-db/src/rename.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 8585599..1bc7e8c 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -189,8 +189,16 @@ fn source_edit_from_name_ref(
 fn source_edit_from_def(named_element: ast::NamedElement, new_name: &str) -> Result<TextEdit> {
     let mut edit = TextEdit::builder();
 
-    let old_name_range = named_element.name().unwrap().syntax().text_range();
-    edit.replace(old_name_range, new_name.to_string());
+    let name = named_element.name().unwrap();
+    let old_name_range = name.syntax().text_range();
+    let is_shorthand = ast::StructPatField::for_field_name(&name).is_some_and(|it| it.name_ref().is_none());
+    if is_shorthand {
+        // Foo { field } -> Foo { field: new_name }
+        //       ^^^^^ the field keeps its name
+        edit.replace(old_name_range, format!("{}: {new_name}", name.as_string()));
+    } else {
+        edit.replace(old_name_range, new_name.to_string());
+    }
     Ok(edit.finish())
 }
 
-- 
2.43.0


From f1193839b5dd1205780b75852227b0994bce15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 17/81] fix: shorthand fields of an unknown struct use the
 variable they name

---
 crates/ide-db/src/defs.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/defs.rs b/crates/ide-db/src/defs.rs
index 5b08f2e..dffba78 100644
--- a/crates/ide-db/src/defs.rs
+++ b/crates/ide-db/src/defs.rs
@@ -183,8 +183,17 @@ impl NameRefClass {
                 }
                 ast::StructLitFieldKind::Shorthand { struct_field: _, path } => {
                     let entries = sema.resolve(path);
-                    let (named_field, ident_pat) = into_field_shorthand_items(sema.db, entries)?;
-                    Some(NameRefClass::FieldShorthand { ident_pat, named_field })
+                    if let Some((named_field, ident_pat)) =
+                        into_field_shorthand_items(sema.db, entries.clone())
+                    {
+                        return Some(NameRefClass::FieldShorthand { ident_pat, named_field });
+                    }
+                    // there's no such field, or no such variable
+                    let named_item = entries
+                        .single_or_none()?
+                        .node_loc
+                        .to_ast::<ast::NamedElement>(sema.db)?;
+                    Some(NameRefClass::Definition(Definition::named_item(named_item)))
                 }
             };
         }
-- 
2.43.0


From 7c98802dc238f7414c51ede711cde85ec36c9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 18/81] fix: renaming an unused variable bound by a field
 shorthand keeps the field's name

---
 .../src/handlers/unused_variables.rs           | 18 +++++++++++++++---
 crates/syntax/src/ast/syntax_factory/exprs.rs  |  7 +++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_variables.rs b/crates/ide-diagnostics/src/handlers/unused_variables.rs
index 0209bba..03beedd 100644
--- a/crates/ide-diagnostics/src/handlers/unused_variables.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_variables.rs
@@ -100,15 +100,27 @@ fn fixes(
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
     let mut assists = ctx.local_assists_for_node(ident_pat.as_ref())?;
-    let new_ident_name = format!("_{}", ident_pat.value.name()?.as_string());
+    let name = ident_pat.value.name()?;
+    let new_ident_name = format!("_{}", name.as_string());
+    let shorthand_field =
+        ast::StructPatField::for_field_name(&name).filter(|it| it.name_ref().is_none());
     assists.add_fix(
         "rename-with-underscore-prefix",
         format!("Rename to {new_ident_name}"),
         diagnostic_range.range,
         |editor| {
             let make = SyntaxFactory::new();
-            let new_ident_pat = make.ident_pat(&new_ident_name);
-            editor.replace(ident_pat.value.syntax(), new_ident_pat.syntax());
+            match shorthand_field {
+                // Foo { field } -> Foo { field: _field }
+                Some(field) => {
+                    let new_field = make.pat_field(&name.as_string(), &new_ident_name);
+                    editor.replace(field.syntax(), new_field.syntax());
+                }
+                None => {
+                    let new_ident_pat = make.ident_pat(&new_ident_name);
+                    editor.replace(ident_pat.value.syntax(), new_ident_pat.syntax());
+                }
+            }
             editor.add_mappings(make.finish_with_mappings());
         },
     );
diff --git a/crates/syntax/src/ast/syntax_factory/exprs.rs b/crates/syntax/src/ast/syntax_factory/exprs.rs
index 34cb7b4..84f40ef 100644
--- a/crates/syntax/src/ast/syntax_factory/exprs.rs
+++ b/crates/syntax/src/ast/syntax_factory/exprs.rs
@@ -157,6 +157,13 @@ impl SyntaxFactory {
         new_lit_field
     }
 
+    pub fn pat_field(&self, field_name: &str, ident_name: &str) -> ast::StructPatField {
+        ast_from_text::<ast::StructPatField>(&format!(
+            "module 0x1::m {{ fun main() {{ let S {{ {field_name}: {ident_name} }}; }} }}",
+        ))
+        .clone_for_update()
+    }
+
     pub fn pat_field_shorthand(&self, ident_pat: ast::IdentPat) -> ast::StructPatField {
         let new_pat_field = ast_from_text::<ast::StructPatField>(&format!(
             "module 0x1::m {{ fun main() {{ let S {{ {} }} }}",
-- 
2.43.0


From e27b208f7cd5877b7431761740e3deb586904bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 19/81] fix: no import is offered for names that are imported
 twice

---
 .../src/handlers/unresolved_reference.rs               | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unresolved_reference.rs b/crates/ide-diagnostics/src/handlers/unresolved_reference.rs
index 8cdae6e..82e7c07 100644
--- a/crates/ide-diagnostics/src/handlers/unresolved_reference.rs
+++ b/crates/ide-diagnostics/src/handlers/unresolved_reference.rs
@@ -272,10 +272,12 @@ fn try_check_resolve(
 
                 error
             };
-            acc.push(
-                Diagnostic::error("unresolved-reference", error_message, reference_range)
-                    .with_local_fixes(fixes),
-            );
+            // one more import cannot make it less ambiguous
+            acc.push(Diagnostic::error(
+                "unresolved-reference",
+                error_message,
+                reference_range,
+            ));
             return Some(());
         }
     }
-- 
2.43.0


From bd1af1676e47cfa4ebb96d281092dbb67a32cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 20/81] fix: removing '::' before type arguments removes the
 blanks that would make it a comparison

---
 crates/ide-diagnostics/src/handlers/simplify_turbofish.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs b/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
index edb07c3..9fb5253 100644
--- a/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
+++ b/crates/ide-diagnostics/src/handlers/simplify_turbofish.rs
@@ -1,8 +1,8 @@
 use crate::DiagnosticsContext;
 use crate::diagnostic::Diagnostic;
 use ide_db::assist_context::LocalAssists;
-use syntax::ast;
 use syntax::files::{FileRange, InFile, InFileExt};
+use syntax::{SyntaxKind, ast};
 
 pub(crate) fn simplify_turbofish(
     acc: &mut Vec<Diagnostic>,
@@ -41,6 +41,12 @@ fn fixes(
         diagnostic_range.range,
         |editor| {
             if let Some(coloncolon) = type_arg_list.value.coloncolon_token() {
+                // `call <u8>()` is a comparison
+                for sibling in [coloncolon.prev_token(), coloncolon.next_token()].into_iter().flatten() {
+                    if sibling.kind() == SyntaxKind::WHITESPACE {
+                        editor.delete(sibling);
+                    }
+                }
                 editor.delete(coloncolon);
             }
         },
-- 
2.43.0


From 9009c79248e8accf8ff566414e806b3883816b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 21/81] fix: 'friend' and 'package' are kept apart from the
 'fun' that touches them

---
 .../ide-diagnostics/src/handlers/replace_with_friend.rs  | 9 ++++++++-
 .../ide-diagnostics/src/handlers/replace_with_package.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/replace_with_friend.rs b/crates/ide-diagnostics/src/handlers/replace_with_friend.rs
index fd498ca..0eb5357 100644
--- a/crates/ide-diagnostics/src/handlers/replace_with_friend.rs
+++ b/crates/ide-diagnostics/src/handlers/replace_with_friend.rs
@@ -6,6 +6,7 @@ use crate::diagnostic::Diagnostic;
 use ide_db::assist_context::LocalAssists;
 use syntax::ast;
 use syntax::ast::AstNode;
+use syntax::ast::syntax_factory::SyntaxFactory;
 use syntax::files::{FileRange, InFile, InFileExt};
 
 pub(crate) fn public_friend_can_be_replaced_with_friend(
@@ -51,7 +52,13 @@ fn fixes(
                 editor.delete(l_paren);
             }
             if let Some(r_paren) = vis.r_paren_token() {
-                editor.delete(r_paren);
+                // `public(friend)fun` -> `friend fun`
+                match r_paren.next_token() {
+                    Some(next) if !next.kind().is_trivia() => {
+                        editor.replace(r_paren, SyntaxFactory::new().whitespace(" "));
+                    }
+                    _ => editor.delete(r_paren),
+                }
             }
         },
     );
diff --git a/crates/ide-diagnostics/src/handlers/replace_with_package.rs b/crates/ide-diagnostics/src/handlers/replace_with_package.rs
index 7eedb7b..3552b1d 100644
--- a/crates/ide-diagnostics/src/handlers/replace_with_package.rs
+++ b/crates/ide-diagnostics/src/handlers/replace_with_package.rs
@@ -6,6 +6,7 @@ use crate::diagnostic::Diagnostic;
 use ide_db::assist_context::LocalAssists;
 use syntax::ast;
 use syntax::ast::AstNode;
+use syntax::ast::syntax_factory::SyntaxFactory;
 use syntax::files::{FileRange, InFile, InFileExt};
 
 pub(crate) fn public_package_can_be_replaced_with_package(
@@ -51,7 +52,13 @@ fn fixes(
                 editor.delete(l_paren);
             }
             if let Some(r_paren) = vis.r_paren_token() {
-                editor.delete(r_paren);
+                // `public(package)fun` -> `package fun`
+                match r_paren.next_token() {
+                    Some(next) if !next.kind().is_trivia() => {
+                        editor.replace(r_paren, SyntaxFactory::new().whitespace(" "));
+                    }
+                    _ => editor.delete(r_paren),
+                }
             }
         },
     );
-- 
2.43.0


From a09581be164e8f212e2e48163d649f6f07ceb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 22/81] fix: completion of functions imported with an alias
 inserts the alias

---
 crates/ide-completion/src/render/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ide-completion/src/render/function.rs b/crates/ide-completion/src/render/function.rs
index db68ecc..3ad85f2 100644
--- a/crates/ide-completion/src/render/function.rs
+++ b/crates/ide-completion/src/render/function.rs
@@ -38,7 +38,8 @@ pub(crate) fn render_function(
 
     let (_, fun) = fun.unpack();
 
-    let function_name = fun.name().unwrap().as_string();
+    // name in scope, differs from the name of the function if it's imported with an alias
+    let function_name = fun_name.to_string();
     item_builder.lookup_by(function_name.clone());
 
     let params = render_params(ctx, fun.clone(), call_ty.clone()).unwrap_or_default();
-- 
2.43.0


From 4c9e1cc149df5d22adfc02ee54ef93892b708f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 23/81] fix: completion of structs and schemas keeps the type
 arguments that are there

---
 crates/ide-completion/src/completions/reference/paths.rs | 2 +-
 crates/ide-completion/src/render/struct_or_enum.rs       | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/ide-completion/src/completions/reference/paths.rs b/crates/ide-completion/src/completions/reference/paths.rs
index 660b8cf..0e72d3f 100644
--- a/crates/ide-completion/src/completions/reference/paths.rs
+++ b/crates/ide-completion/src/completions/reference/paths.rs
@@ -291,7 +291,7 @@ fn render_scope_entry(
         STRUCT | ENUM => {
             render_struct_or_enum(ctx, name, path_ctx, named_item.cast_into::<ast::StructOrEnum>()?)
         }
-        SCHEMA => render_schema(ctx, name, named_item.cast_into::<ast::Schema>()?),
+        SCHEMA => render_schema(ctx, name, path_ctx, named_item.cast_into::<ast::Schema>()?),
         IDENT_PAT => {
             let ident_pat = named_item.cast_into::<ast::IdentPat>()?;
             render_ident_pat(ctx, &name, ident_pat)
diff --git a/crates/ide-completion/src/render/struct_or_enum.rs b/crates/ide-completion/src/render/struct_or_enum.rs
index c7501bd..796cf78 100644
--- a/crates/ide-completion/src/render/struct_or_enum.rs
+++ b/crates/ide-completion/src/render/struct_or_enum.rs
@@ -20,7 +20,8 @@ pub(crate) fn render_struct_or_enum(
     let has_type_params = !struct_or_enum.ty_type_params().is_empty();
     let snippet = match path_ctx.path_kind {
         PathKind::Type => {
-            if has_type_params {
+            // type arguments could be there already
+            if has_type_params && !path_ctx.has_type_args {
                 format!("{item_name}<$0>")
             } else {
                 format!("{item_name}$0")
@@ -36,12 +37,13 @@ pub(crate) fn render_struct_or_enum(
 pub(crate) fn render_schema(
     ctx: &CompletionContext<'_>,
     item_name: String,
+    path_ctx: &PathCompletionCtx,
     schema: InFile<ast::Schema>,
 ) -> CompletionItemBuilder {
     let mut item_builder = new_named_item(ctx, &item_name, schema.kind());
 
     let has_type_params = !schema.ty_type_params().is_empty();
-    let snippet = if has_type_params {
+    let snippet = if has_type_params && !path_ctx.has_type_args {
         format!("{item_name}<$0>")
     } else {
         format!("{item_name}$0")
-- 
2.43.0


From c04a24546602069079cea71b05829478fe4cb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 24/81] fix: imports of enums used in paths to their variants
 are used

---
 .../src/handlers/unused_import/use_items.rs   | 43 ++++++++++++++-----
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
index b956624..ead93fe 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
@@ -2,10 +2,12 @@ use base_db::SourceDatabase;
 use lang::hir_db;
 use lang::item_scope::ItemScope;
 use lang::loc::SyntaxLocFileExt;
+use lang::nameres;
 use lang::nameres::use_speck_entries::{UseItem, UseItemType};
 use std::collections::HashSet;
+use syntax::SyntaxKind::{ENUM, MODULE};
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
-use syntax::files::InFile;
+use syntax::files::{InFile, InFileExt};
 use syntax::{AstNode, ast};
 
 pub(crate) fn find_use_items_hit_with_scopes(
@@ -39,7 +41,7 @@ fn find_use_item_hit_for_path(
         .as_ref()
         .flat_map(|it| it.syntax().ancestors_of_type::<ast::AnyUseStmtsOwner>());
 
-    let base_path_type = BasePathType::for_path(db, &path.value)?;
+    let base_path_type = BasePathType::for_path(db, path.clone())?;
     for use_item_owner_ans in use_item_owner_ancestors {
         let owner_use_items = hir_db::combined_use_items(db, use_item_owner_ans)
             .into_iter()
@@ -97,7 +99,8 @@ enum BasePathType {
 }
 
 impl BasePathType {
-    fn for_path(db: &dyn SourceDatabase, path: &ast::Path) -> Option<BasePathType> {
+    fn for_path(db: &dyn SourceDatabase, path: InFile<ast::Path>) -> Option<BasePathType> {
+        let (file_id, path) = path.unpack();
         let root_path = path.root_path();
         let qualifier = root_path.qualifier();
         match qualifier {
@@ -105,21 +108,41 @@ impl BasePathType {
             None => Some(BasePathType::Item {
                 item_name: root_path.reference_name()?,
             }),
-            // 0x1::foo
-            Some(qualifier) if qualifier.path_address().is_some() => Some(BasePathType::Address),
+            // 0x1::foo, 0x1::m::foo
+            Some(qualifier) if qualifier.base_path().path_address().is_some() => {
+                Some(BasePathType::Address)
+            }
             Some(qualifier) => {
                 let parent_qualifier = qualifier.qualifier();
                 // addr::m::foo
-                if let Some(parent_qualifier) = parent_qualifier
+                if let Some(parent_qualifier) = parent_qualifier.clone()
                     && let Some(parent_name) = parent_qualifier.reference_name()
                     && hir_db::named_addresses(db).contains_key(&parent_name)
                 {
-                    Some(BasePathType::Address)
-                } else {
+                    return Some(BasePathType::Address);
+                }
+                let is_enum = nameres::resolve_multi(db, qualifier.clone().in_file(file_id), None)
+                    .is_some_and(|entries| {
+                        entries.iter().any(|it| it.scope_entry.node_loc.kind() == ENUM)
+                            && entries.iter().all(|it| it.scope_entry.node_loc.kind() != MODULE)
+                    });
+                match parent_qualifier {
+                    // MyEnum::One
+                    None if is_enum => Some(BasePathType::Item {
+                        item_name: qualifier.reference_name()?,
+                    }),
+                    // mod::MyEnum::One
+                    Some(module_path) if is_enum && module_path.qualifier().is_none() => {
+                        Some(BasePathType::Module {
+                            module_name: module_path.reference_name()?,
+                        })
+                    }
+                    // addr::mod::MyEnum::One
+                    Some(_) if is_enum => Some(BasePathType::Address),
                     // mod::foo
-                    Some(BasePathType::Module {
+                    _ => Some(BasePathType::Module {
                         module_name: qualifier.reference_name()?,
-                    })
+                    }),
                 }
             }
         }
-- 
2.43.0


From 6e8beb091662a5791bceca029e2269dfc3474a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 25/81] fix: organize imports edits each import once

---
 .../src/handlers/unused_import.rs             |  21 ++--
 .../unused_import/organize_imports.rs         | 112 ++++++++++--------
 .../src/syntax_editor/node_ext/use_stmt.rs    |  48 ++++----
 3 files changed, 97 insertions(+), 84 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import.rs b/crates/ide-diagnostics/src/handlers/unused_import.rs
index e74ef6b..ce28685 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import.rs
@@ -112,6 +112,17 @@ impl UnusedUseKind {
                 .and_then(|it| it.use_stmt()),
         }
     }
+
+    pub fn use_specks(&self, db: &dyn SourceDatabase) -> Vec<ast::UseSpeck> {
+        match self {
+            UnusedUseKind::UseStmt { .. } => vec![],
+            UnusedUseKind::UseSpeck { use_speck_locs } => use_speck_locs
+                .iter()
+                .filter_map(|it| it.to_ast::<ast::UseSpeck>(db))
+                .map(|it| it.value)
+                .collect(),
+        }
+    }
 }
 
 pub(crate) fn unused_use_kind(
@@ -233,16 +244,13 @@ fn highlight_unused_scoped_use_items(
             );
         }
         UnusedUseKind::UseSpeck { ref use_speck_locs } => {
-            let root_use_speck = use_stmt.use_speck()?;
-            let module_path = root_use_speck.path()?;
             for use_speck_loc in use_speck_locs {
                 let diag_range = use_speck_loc.file_range();
                 if let Some(use_speck) = use_speck_loc
                     .to_ast::<ast::UseSpeck>(ctx.sema.db)
                     .map(|it| it.value)
-                    && let Some(use_speck_name_ref) = use_speck.path_name_ref()
+                    && let Some(new_root_use_speck) = use_stmt.simplified_group(use_speck.clone())
                 {
-                    let use_speck_alias = use_speck.use_alias().clone();
                     acc.push(
                         Diagnostic::warning(
                             "too-broad-scoped-import",
@@ -258,11 +266,6 @@ fn highlight_unused_scoped_use_items(
                                 use_stmt.delete_group_use_specks(editor, vec![use_speck.clone()]);
                                 let make = SyntaxFactory::new();
                                 let indent_level = use_stmt.indent_level();
-                                let new_root_use_speck = make.root_use_speck(
-                                    module_path.clone(),
-                                    Some(use_speck_name_ref.clone()),
-                                    use_speck_alias,
-                                );
                                 editor.insert_at_next_line_after(
                                     &use_stmt,
                                     make.use_stmt(vec![make.attr("test_only")], new_root_use_speck)
diff --git a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
index 15470c0..e32ff19 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/organize_imports.rs
@@ -3,7 +3,7 @@
 
 use crate::handlers::reduced_scope_import::find_use_items_with_redundant_main_scope;
 use crate::handlers::unused_import::{
-    UnusedUseKind, UnusedUseStmtKind, find_unused_use_items, unused_use_kind,
+    UnusedUseKind, find_unused_use_items, unused_use_kind,
 };
 use base_db::SourceDatabase;
 use ide_db::RootDatabase;
@@ -11,6 +11,7 @@ use ide_db::assist_context::LocalAssists;
 use ide_db::assists::{Assist, AssistResolveStrategy};
 use lang::Semantics;
 use lang::loc::SyntaxLocFileExt;
+use lang::nameres::use_speck_entries::UseItem;
 use syntax::ast::UseStmtsOwner;
 use syntax::ast::edit::AstNodeEdit;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
@@ -46,25 +47,27 @@ fn organize_imports_in_stmts_owner(
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
     let unused_use_items = find_unused_use_items(db, &use_stmts_owner)?;
-    let use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
-    for use_stmt in use_stmts {
-        let unused_stmt_use_items = unused_use_items
-            .iter()
-            .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
-            .collect::<Vec<_>>();
-        let unused_use_kind = unused_use_kind(db, use_stmt.clone(), unused_stmt_use_items)?;
-        remove_unused_imports_in_use_stmt(db, use_stmt.value, unused_use_kind, editor);
-    }
-
     let redundant_main_scope_use_items = find_use_items_with_redundant_main_scope(db, &use_stmts_owner)?;
     let use_stmts = use_stmts_owner.as_ref().flat_map(|it| it.use_stmts());
     for use_stmt in use_stmts {
-        let redundant_scope_use_items = redundant_main_scope_use_items
-            .iter()
-            .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
-            .collect::<Vec<_>>();
-        let unused_use_kind = unused_use_kind(db, use_stmt.clone(), redundant_scope_use_items)?;
-        replace_main_scope_with_test_only(db, use_stmt.value, unused_use_kind, editor);
+        let use_items_of_stmt = |use_items: &Vec<UseItem>| -> Vec<UseItem> {
+            use_items
+                .iter()
+                .filter(|it| use_stmt.loc().contains(&it.use_speck_loc))
+                .cloned()
+                .collect()
+        };
+        let unused_items = use_items_of_stmt(&unused_use_items);
+        let unused_kind = unused_use_kind(db, use_stmt.clone(), unused_items.iter().collect())?;
+
+        let redundant_scope_items = use_items_of_stmt(&redundant_main_scope_use_items);
+        if redundant_scope_items.is_empty() {
+            remove_unused_imports_in_use_stmt(db, use_stmt.value, unused_kind, editor);
+            continue;
+        }
+        let redundant_scope_kind =
+            unused_use_kind(db, use_stmt.clone(), redundant_scope_items.iter().collect())?;
+        replace_main_scope_with_test_only(db, use_stmt.value, unused_kind, redundant_scope_kind, editor);
     }
 
     Some(())
@@ -78,18 +81,13 @@ fn remove_unused_imports_in_use_stmt(
 ) -> Option<()> {
     match &unused_use_kind {
         UnusedUseKind::UseStmt { use_stmt, .. } => use_stmt.value.delete(editor),
-        UnusedUseKind::UseSpeck { use_speck_locs } => {
+        UnusedUseKind::UseSpeck { .. } => {
             if use_stmt.use_speck().is_some_and(|it| it.is_root_self()) {
                 // try to simplify use stmt
                 use_stmt.simplify_root_self(editor);
                 return Some(());
             }
-            let use_specks = use_speck_locs
-                .iter()
-                .filter_map(|it| it.to_ast::<ast::UseSpeck>(db))
-                .map(|it| it.value)
-                .collect();
-            use_stmt.delete_group_use_specks(editor, use_specks);
+            use_stmt.delete_group_use_specks(editor, unused_use_kind.use_specks(db));
         }
     }
     Some(())
@@ -99,42 +97,52 @@ fn replace_main_scope_with_test_only(
     db: &dyn SourceDatabase,
     use_stmt: ast::UseStmt,
     unused_use_kind: UnusedUseKind,
+    redundant_scope_use_kind: UnusedUseKind,
     editor: &mut SyntaxEditor,
 ) -> Option<()> {
-    match unused_use_kind {
-        UnusedUseKind::UseStmt { use_stmt, kind } => {
-            if kind == UnusedUseStmtKind::EmptyGroup {
-                return None;
-            }
+    match redundant_scope_use_kind {
+        UnusedUseKind::UseStmt { use_stmt, .. } => {
             use_stmt.value.add_attribute(editor, "test_only");
         }
-        UnusedUseKind::UseSpeck { use_speck_locs } => {
-            let root_use_speck = use_stmt.use_speck()?;
-            let module_path = root_use_speck.path()?;
-            for use_speck_loc in use_speck_locs {
-                if let Some(use_speck) = use_speck_loc.to_ast::<ast::UseSpeck>(db).map(|it| it.value)
-                    && let Some(use_speck_name_ref) = use_speck.path_name_ref()
-                {
-                    let use_speck_alias = use_speck.use_alias().clone();
-                    use_stmt.delete_group_use_specks(editor, vec![use_speck.clone()]);
+        UnusedUseKind::UseSpeck { .. } => {
+            let unused_use_specks = unused_use_kind.use_specks(db);
+            let test_only_use_specks = redundant_scope_use_kind.use_specks(db);
 
-                    let make = SyntaxFactory::new();
-                    let new_root_use_speck = make.root_use_speck(
-                        module_path.clone(),
-                        Some(use_speck_name_ref.clone()),
-                        use_speck_alias,
-                    );
-                    editor.insert_at_next_line_after(
-                        &use_stmt,
-                        make.use_stmt(vec![make.attr("test_only")], new_root_use_speck)
-                            .indent_inner(use_stmt.indent_level())
-                            .syntax()
-                            .syntax_element(),
-                    );
+            let make = SyntaxFactory::new();
+            let indent_level = use_stmt.indent_level();
+            let test_only_stmts = test_only_use_specks
+                .iter()
+                .filter_map(|it| use_stmt.simplified_group(it.clone()))
+                .map(|it| {
+                    make.use_stmt(vec![make.attr("test_only")], it)
+                        .indent_inner(indent_level)
+                        .syntax()
+                        .syntax_element()
+                })
+                .collect::<Vec<_>>();
 
-                    editor.add_mappings(make.finish_with_mappings());
+            let use_specks_to_delete = [unused_use_specks, test_only_use_specks].concat();
+            let nothing_left = use_stmt
+                .group_use_specks()
+                .iter()
+                .all(|it| use_specks_to_delete.contains(it));
+            if nothing_left {
+                let mut new_elements = vec![];
+                for test_only_stmt in test_only_stmts {
+                    if !new_elements.is_empty() {
+                        let ws = make.whitespace(&format!("\n{indent_level}"));
+                        new_elements.push(ws.syntax_element());
+                    }
+                    new_elements.push(test_only_stmt);
+                }
+                editor.replace_with_many(use_stmt.syntax(), new_elements);
+            } else {
+                use_stmt.delete_group_use_specks(editor, use_specks_to_delete);
+                for test_only_stmt in test_only_stmts {
+                    editor.insert_at_next_line_after(&use_stmt, test_only_stmt);
                 }
             }
+            editor.add_mappings(make.finish_with_mappings());
         }
     }
     Some(())
diff --git a/crates/syntax/src/syntax_editor/node_ext/use_stmt.rs b/crates/syntax/src/syntax_editor/node_ext/use_stmt.rs
index 69a3413..546ab91 100644
--- a/crates/syntax/src/syntax_editor/node_ext/use_stmt.rs
+++ b/crates/syntax/src/syntax_editor/node_ext/use_stmt.rs
@@ -24,9 +24,13 @@ impl ast::UseStmt {
         let attr = make.attr(attr_name);
         let indent_level = self.indent_level();
         if let Some(use_speck) = self.use_speck() {
+            let use_speck = self
+                .simplified_root_self()
+                .or_else(|| self.simplified_group(self.group_use_specks().into_iter().exactly_one().ok()?))
+                .unwrap_or_else(|| use_speck.clone_for_update());
             editor.replace(
                 self.syntax(),
-                make.use_stmt(vec![attr], use_speck.clone_for_update())
+                make.use_stmt(vec![attr], use_speck)
                     .indent_inner(indent_level)
                     .syntax(),
             );
@@ -35,23 +39,21 @@ impl ast::UseStmt {
 
     pub fn simplify_root_self(&self, editor: &mut SyntaxEditor) -> Option<()> {
         let root_use_speck = self.use_speck()?;
-        // cannot be used with groups
-        // if root_use_speck.use_group().is_some() {
-        //     return None;
-        // }
-        if root_use_speck.is_root_self() {
-            let module_path = root_use_speck.path()?.qualifier()?;
-            let make = SyntaxFactory::new();
-            let alias = root_use_speck.use_alias().map(|it| it.clone_for_update());
-            editor.replace(
-                root_use_speck.syntax(),
-                make.root_use_speck(module_path.clone_for_update(), None, alias)
-                    .syntax(),
-            );
+        if let Some(simplified) = self.simplified_root_self() {
+            editor.replace(root_use_speck.syntax(), simplified.syntax());
         }
         Some(())
     }
 
+    /// `use 0x1::m::Self` -> `0x1::m`
+    fn simplified_root_self(&self) -> Option<ast::UseSpeck> {
+        let root_use_speck = self.use_speck().filter(|it| it.is_root_self())?;
+        let module_path = root_use_speck.path()?.qualifier()?;
+        let alias = root_use_speck.use_alias().map(|it| it.clone_for_update());
+        let make = SyntaxFactory::new();
+        Some(make.root_use_speck(module_path.clone_for_update(), None, alias))
+    }
+
     pub fn add_group_item(
         &self,
         editor: &mut SyntaxEditor,
@@ -115,9 +117,14 @@ impl ast::UseStmt {
         use_speck: ast::UseSpeck,
         editor: &mut SyntaxEditor,
     ) -> Option<()> {
-        let use_group = self.use_speck()?.use_group()?;
-        let root_use_speck = use_group.use_stmt()?.use_speck()?;
-        let root_path = root_use_speck.path()?;
+        let new_root_use_speck = self.simplified_group(use_speck)?;
+        editor.replace(self.use_speck()?.syntax(), new_root_use_speck.syntax());
+        Some(())
+    }
+
+    /// `use 0x1::m::{a, b}` -> `0x1::m::a`, `use 0x1::m::{Self, b}` -> `0x1::m`
+    pub fn simplified_group(&self, use_speck: ast::UseSpeck) -> Option<ast::UseSpeck> {
+        let root_path = self.use_speck()?.path()?;
 
         let make = SyntaxFactory::new();
         let new_root_path = if use_speck.is_group_self() {
@@ -130,11 +137,6 @@ impl ast::UseStmt {
         };
 
         let alias = use_speck.use_alias().map(|it| it.clone_for_update());
-        editor.replace(
-            root_use_speck.syntax(),
-            make.use_speck(new_root_path, alias).syntax(),
-        );
-        editor.add_mappings(make.finish_with_mappings());
-        Some(())
+        Some(make.use_speck(new_root_path, alias))
     }
 }
-- 
2.43.0


From 2f8f100665b89faf468bc4fbde4f6b9acadcaaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 26/81] fix: variables bound by struct pattern shorthands have
 types

---
 crates/lang/src/types/inference.rs |  7 -------
 crates/lang/src/types/patterns.rs  | 11 ++++++-----
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/lang/src/types/inference.rs b/crates/lang/src/types/inference.rs
index 342804b..7d7d4ae 100644
--- a/crates/lang/src/types/inference.rs
+++ b/crates/lang/src/types/inference.rs
@@ -59,7 +59,6 @@ pub struct InferenceCtx<'db> {
     pub int_table: UnificationTable<TyIntVar>,
 
     pub pat_types: HashMap<ast::Pat, Ty>,
-    pub pat_field_types: HashMap<ast::StructPatField, Ty>,
     pub expr_types: HashMap<ast::Expr, Ty>,
     pub expected_expr_types: HashMap<ast::Expr, Ty>,
 
@@ -88,7 +87,6 @@ impl<'db> InferenceCtx<'db> {
             call_expr_types: HashMap::new(),
             expected_expr_types: HashMap::new(),
             pat_types: HashMap::new(),
-            pat_field_types: HashMap::new(),
             resolved_paths: HashMap::new(),
             resolved_method_calls: HashMap::new(),
             resolved_fields: HashMap::new(),
@@ -327,11 +325,6 @@ impl<'db> InferenceCtx<'db> {
     }
 
     pub fn get_binding_type(&self, ident_pat: ast::IdentPat) -> Option<Ty> {
-        if let Some(pat_field) = ident_pat.syntax().parent_of_type::<ast::StructPatField>() {
-            if matches!(pat_field.field_kind(), PatFieldKind::Shorthand { .. }) {
-                return self.pat_field_types.get(&pat_field).map(|it| it.to_owned());
-            }
-        }
         self.pat_types.get(&ident_pat.into()).cloned()
     }
 
diff --git a/crates/lang/src/types/patterns.rs b/crates/lang/src/types/patterns.rs
index 791eb80..78501e4 100644
--- a/crates/lang/src/types/patterns.rs
+++ b/crates/lang/src/types/patterns.rs
@@ -99,14 +99,15 @@ impl TypeAstWalker<'_, '_> {
                     let pat_field_ty = ty.substitute(&ty_adt_subst);
                     match pat_field.field_kind() {
                         PatFieldKind::Full { pat: Some(pat), .. } => {
-                            self.collect_pat_bindings(pat, pat_field_ty.clone(), pat_bm.clone());
-                            self.ctx.pat_field_types.insert(pat_field, pat_field_ty);
+                            self.collect_pat_bindings(pat, pat_field_ty, pat_bm.clone());
                         }
                         PatFieldKind::Shorthand { ident_pat } => {
-                            self.ctx.resolved_ident_pats.insert(ident_pat, named_field_entry);
                             self.ctx
-                                .pat_field_types
-                                .insert(pat_field, apply_bm(pat_field_ty, pat_bm.clone(), self.ctx.msl));
+                                .resolved_ident_pats
+                                .insert(ident_pat.clone(), named_field_entry);
+                            self.ctx
+                                .pat_types
+                                .insert(ident_pat.into(), apply_bm(pat_field_ty, pat_bm.clone(), self.ctx.msl));
                         }
                         _ => (),
                     }
-- 
2.43.0


From b5bc5e6718dc5a61867ec69945639ef70be45d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 27/81] fix: 'apply' without a lemma has no path expression

---
 crates/syntax/src/parse/grammar/expressions/atom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions/atom.rs b/crates/syntax/src/parse/grammar/expressions/atom.rs
index 4001411..118e52e 100644
--- a/crates/syntax/src/parse/grammar/expressions/atom.rs
+++ b/crates/syntax/src/parse/grammar/expressions/atom.rs
@@ -149,7 +149,11 @@ fn is_assert_ident(p: &Parser) -> bool {
 
 pub(crate) fn path_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
-    paths::path(p, Some(PathMode::Expr));
+    if !paths::path(p, Some(PathMode::Expr)) {
+        // `PathExpr` and `StructLit` always have a path
+        p.error("expected path");
+        return m.complete(p, ERROR);
+    }
     let cm = match p.current() {
         T!['{'] => {
             struct_lit_field_list(p);
-- 
2.43.0


From 3893810b88a5ebd9e0c285a820c9ded64a978f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 28/81] fix: signature help marks the field of a shorthand

---
 crates/ide-db/src/active_parameter.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/ide-db/src/active_parameter.rs b/crates/ide-db/src/active_parameter.rs
index 84931e9..4308bca 100644
--- a/crates/ide-db/src/active_parameter.rs
+++ b/crates/ide-db/src/active_parameter.rs
@@ -118,12 +118,21 @@ pub fn fields_owner_for_struct_lit(
         .map(|list| active_param(list.syntax(), offset))?;
 
     let lit_fields = struct_lit.value.clone().fields();
-    let active_lit_field = lit_fields.get(active_lit_field_idx).and_then(|it| it.name_ref());
+    let active_lit_field = lit_fields.get(active_lit_field_idx).cloned();
 
     let fields_owner = sema.resolve_to_element::<ast::FieldsOwner>(struct_lit.map(|it| it.path()))?;
 
-    let active_field_name = match active_lit_field {
-        Some(name_ref) => Some(name_ref.as_string()),
+    let active_lit_field_name = active_lit_field.and_then(|it| {
+        if let Some(name_ref) = it.name_ref() {
+            return Some(name_ref.as_string());
+        }
+        // shorthand, or a field name that is not there in full yet
+        it.field_name()
+            .filter(|name| fields_owner.value.named_field_names().contains(name))
+    });
+
+    let active_field_name = match active_lit_field_name {
+        Some(name) => Some(name),
         None => {
             // compute next field skipping all filled fields
             let all_field_names = fields_owner.value.named_field_names();
-- 
2.43.0


From cc05a5ce6f4306059e70ee18ddfaad846f07cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 29/81] fix: query cycle on a module spec path with an item in
 it

---
 crates/lang/src/nameres/path_resolution.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/lang/src/nameres/path_resolution.rs b/crates/lang/src/nameres/path_resolution.rs
index e2c76ab..31f20d8 100644
--- a/crates/lang/src/nameres/path_resolution.rs
+++ b/crates/lang/src/nameres/path_resolution.rs
@@ -102,6 +102,10 @@ pub fn get_path_resolve_variants(
             ..
         } => get_modules_as_entries(db, ctx.package_id(db), address),
 
+        // nothing can be there, i.e. `spec 0x1::m::item {}`. Items of `0x1::m` cannot be asked for,
+        // as they depend on the module specs, and so on this very path
+        PathKind::Qualified { ns, .. } if ns.is_empty() => vec![],
+
         PathKind::Qualified { qualifier, ns, .. } => {
             let qualified_path_entries = get_qualified_path_entries(db, ctx, qualifier);
             tracing::debug!(?qualified_path_entries);
-- 
2.43.0


From 43b1087e4939ecdc1579a9a2153f0c143288bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 30/81] fix: expressions in triggers of quantifiers have types

---
 crates/lang/src/types/inference/ast_walker/infer_proofs.rs | 4 ++++
 crates/lang/src/types/inference/ast_walker/infer_specs.rs  | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/crates/lang/src/types/inference/ast_walker/infer_proofs.rs b/crates/lang/src/types/inference/ast_walker/infer_proofs.rs
index a487d7a..4e745a9 100644
--- a/crates/lang/src/types/inference/ast_walker/infer_proofs.rs
+++ b/crates/lang/src/types/inference/ast_walker/infer_proofs.rs
@@ -48,6 +48,10 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
                 self.ctx.pat_types.insert(ident_pat.into(), ty);
             }
         }
+        self.infer_quant_triggers(forall_apply_lemma.quant_trigger_list());
+        if let Some(weight) = forall_apply_lemma.weight() {
+            self.infer_weight_expr(&weight);
+        }
         let apply_lemma = forall_apply_lemma.apply_lemma()?;
         self.process_apply_lemma(&apply_lemma);
         Some(())
diff --git a/crates/lang/src/types/inference/ast_walker/infer_specs.rs b/crates/lang/src/types/inference/ast_walker/infer_specs.rs
index bd831f6..e607126 100644
--- a/crates/lang/src/types/inference/ast_walker/infer_specs.rs
+++ b/crates/lang/src/types/inference/ast_walker/infer_specs.rs
@@ -113,6 +113,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
                 self.ctx.pat_types.insert(ident_pat.into(), ty);
             }
         }
+        self.infer_quant_triggers(quant_expr.quant_trigger_list());
         if let Some(weight) = quant_expr.weight() {
             self.infer_weight_expr(&weight);
         }
@@ -123,6 +124,12 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         Some(Ty::Bool)
     }
 
+    pub(super) fn infer_quant_triggers(&mut self, trigger_list: Option<ast::QuantTriggerList>) {
+        for trigger_expr in trigger_list.into_iter().flat_map(|it| it.trigger_exprs()) {
+            self.infer_expr(&trigger_expr, Expected::NoValue);
+        }
+    }
+
     pub(super) fn infer_weight_expr(&mut self, weight: &ast::Weight) -> Option<()> {
         let weight_expr = weight.expr()?;
         self.infer_expr_coerceable_to(&weight_expr, Ty::integer());
-- 
2.43.0


From c583e1259414b6755dddb2f2a5f3c0e6243ac8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 31/81] fix: receiver and arguments of a method call do not
 lead to the method

---
 crates/ide/src/goto_definition.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/ide/src/goto_definition.rs b/crates/ide/src/goto_definition.rs
index 230c773..5f7c743 100644
--- a/crates/ide/src/goto_definition.rs
+++ b/crates/ide/src/goto_definition.rs
@@ -12,7 +12,7 @@ use ide_db::helpers::pick_best_token;
 use lang::Semantics;
 use lang::nameres::scope::VecExt;
 use syntax::files::FilePosition;
-use syntax::{AstNode, SyntaxKind::*, T, algo, ast};
+use syntax::{AstNode, SyntaxKind::*, T, ast};
 
 pub(crate) fn goto_definition(
     db: &RootDatabase,
@@ -62,7 +62,16 @@ pub(crate) fn goto_definition_multi(
         };
     }
 
-    let reference = algo::find_node_at_offset::<ast::ReferenceElement>(file.syntax(), offset)?;
+    let reference = original_token
+        .parent_ancestors()
+        // receiver and arguments of the method call do not refer to the method
+        .take_while(|it| {
+            matches!(
+                it.kind(),
+                NAME | NAME_REF | PATH_SEGMENT | PATH_ADDRESS | VALUE_ADDRESS
+            ) || ast::ReferenceElement::can_cast(it.kind())
+        })
+        .find_map(ast::ReferenceElement::cast)?;
     let scope_entries = sema.resolve(reference);
 
     let nav_targets = scope_entries
-- 
2.43.0


From 36f79345d86c4ace9f24884985a4a54f2864ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 32/81] fix: highlight constants and variants in patterns, item
 spec parameters and literal shorthands

---
 crates/ide/src/syntax_highlighting/highlight/name_like.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ide/src/syntax_highlighting/highlight/name_like.rs b/crates/ide/src/syntax_highlighting/highlight/name_like.rs
index 4d2829e..d955eea 100644
--- a/crates/ide/src/syntax_highlighting/highlight/name_like.rs
+++ b/crates/ide/src/syntax_highlighting/highlight/name_like.rs
@@ -29,6 +29,9 @@ fn highlight_name(sema: &Semantics<'_, RootDatabase>, name: ast::Name) -> Highli
             let h = highlight_def(def) /*| HlMod::Definition*/;
             h
         }
+        // constant or enum variant in the pattern
+        Some(NameClass::ConstReference(def)) => highlight_def(def),
+        Some(NameClass::ItemSpecFunctionParam { .. }) => HlTag::Symbol(SymbolKind::Local).into(),
         Some(NameClass::PatFieldShorthand { .. }) => HlTag::Symbol(SymbolKind::Field).into(),
         // None => highlight_name_by_syntax(name) | HlMod::Definition,
         _ => HlTag::None.into(),
@@ -42,7 +45,7 @@ fn highlight_name_ref(sema: &Semantics<'_, RootDatabase>, name_ref: ast::NameRef
     };
     let h = match name_ref_class {
         NameRefClass::Definition(def) => highlight_def(def),
-        _ => Highlight::new(HlTag::None),
+        NameRefClass::FieldShorthand { .. } => HlTag::Symbol(SymbolKind::Field).into(),
     };
 
     h
-- 
2.43.0


From 66d2a9080f4684ff1af55da1c84f0c94283ab0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 33/81] fix: selection at the end of an incomplete file grows

---
 crates/ide/src/extend_selection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ide/src/extend_selection.rs b/crates/ide/src/extend_selection.rs
index 6701177..63b0707 100644
--- a/crates/ide/src/extend_selection.rs
+++ b/crates/ide/src/extend_selection.rs
@@ -151,7 +151,11 @@ fn extend_ws(root: &SyntaxNode, ws: SyntaxToken, offset: TextSize) -> TextRange
     let ws_suffix = &ws_text[suffix];
     let ws_prefix = &ws_text[prefix];
     if ws_text.contains('\n') && !ws_suffix.contains('\n') {
-        if let Some(node) = ws.next_sibling_or_token() {
+        // nodes of the incomplete source can be empty, selection would not grow
+        if let Some(node) = ws
+            .next_sibling_or_token()
+            .filter(|it| !it.text_range().is_empty())
+        {
             let start = match ws_prefix.rfind('\n') {
                 Some(idx) => ws.text_range().start() + TextSize::from((idx + 1) as u32),
                 None => node.text_range().start(),
-- 
2.43.0


From 8a0871539331d602e03e1b09e363abefb3b3e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 34/81] fix: colours of a range inside of a named address

---
 crates/ide/src/syntax_highlighting.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ide/src/syntax_highlighting.rs b/crates/ide/src/syntax_highlighting.rs
index f115942..9c0ccbd 100644
--- a/crates/ide/src/syntax_highlighting.rs
+++ b/crates/ide/src/syntax_highlighting.rs
@@ -48,6 +48,11 @@ pub(crate) fn highlight(
                     NodeOrToken::Node(it) => it,
                     NodeOrToken::Token(it) => it.parent().unwrap_or_else(|| source_file.clone()),
                 };
+                // `@named_address` is highlighted as a whole
+                let covering_node = covering_node
+                    .ancestors()
+                    .find(|it| ast::AddressLit::can_cast(it.kind()))
+                    .unwrap_or(covering_node);
                 (covering_node, range)
             }
             None => (source_file.clone(), source_file.text_range()),
-- 
2.43.0


From d6f7d27e5f03f22a825c84fbc4f3e15f0f037a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 35/81] fix: answer formatting and selection range requests
 made before the packages are loaded

Both went to the database for files it does not know yet and panicked; like all the other requests they now get an empty answer until then.
---
 .../src/handlers/dispatch.rs                  | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/aptos-language-server/src/handlers/dispatch.rs b/crates/aptos-language-server/src/handlers/dispatch.rs
index 01c4dfa..eb4390b 100644
--- a/crates/aptos-language-server/src/handlers/dispatch.rs
+++ b/crates/aptos-language-server/src/handlers/dispatch.rs
@@ -72,7 +72,8 @@ impl RequestDispatcher<'_> {
         self
     }
 
-    /// Dispatches the request onto the current thread.
+    /// Dispatches the request onto the current thread. When the VFS is marked not ready this will
+    /// return a default constructed `R::Result`.
     pub(crate) fn on_sync<R>(
         &mut self,
         f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<R::Result>,
@@ -80,8 +81,17 @@ impl RequestDispatcher<'_> {
     where
         R: lsp_types::Request,
         R::Params: DeserializeOwned + panic::UnwindSafe + fmt::Debug,
-        R::Result: Serialize,
+        R::Result: Serialize + Default,
     {
+        if !self.global_state.vfs_initialized_and_loaded() {
+            if let Some(lsp_server::Request { id, .. }) =
+                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
+            {
+                self.global_state
+                    .respond(lsp_server::Response::new_ok(id, R::Result::default()));
+            }
+            return self;
+        }
         let (req, params, panic_context) = match self.parse::<R>() {
             Some(it) => it,
             None => return self,
@@ -212,6 +222,7 @@ impl RequestDispatcher<'_> {
     /// Formatting requests should never block on waiting a for task thread to open up, editors will wait
     /// on the response and a late formatting update might mess with the document and user.
     /// We can't run this on the main thread though as we invoke rustfmt which may take arbitrary time to complete!
+    /// When the VFS is marked not ready this will return a default constructed `R::Result`.
     pub(crate) fn on_fmt_thread<R>(
         &mut self,
         f: fn(GlobalStateSnapshot, R::Params) -> anyhow::Result<R::Result>,
@@ -219,8 +230,17 @@ impl RequestDispatcher<'_> {
     where
         R: lsp_types::Request + 'static,
         R::Params: DeserializeOwned + panic::UnwindSafe + Send + fmt::Debug,
-        R::Result: Serialize,
+        R::Result: Serialize + Default,
     {
+        if !self.global_state.vfs_initialized_and_loaded() {
+            if let Some(lsp_server::Request { id, .. }) =
+                self.req.take_if(|it| it.method.as_str() == R::METHOD.as_str())
+            {
+                self.global_state
+                    .respond(lsp_server::Response::new_ok(id, R::Result::default()));
+            }
+            return self;
+        }
         self.on_with_thread_intent::<true, false, R>(
             ThreadIntent::LatencySensitive,
             f,
-- 
2.43.0


From 5760b378ef21317c3e2d41a24e7e9080cd6b16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 36/81] fix: find references of a builtin function without a
 panic

Builtins are declared in an in-memory file, which has no URI to report the declaration at.
---
 crates/ide/src/references.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/ide/src/references.rs b/crates/ide/src/references.rs
index c8a8bab..3fbf139 100644
--- a/crates/ide/src/references.rs
+++ b/crates/ide/src/references.rs
@@ -5,6 +5,7 @@
 // Modifications have been made to the original code.
 
 use crate::NavigationTarget;
+use base_db::SourceDatabase;
 use ide_db::defs::{Definition, NameClass, NameRefClass};
 use ide_db::search::SearchScope;
 use ide_db::{RootDatabase, search};
@@ -64,7 +65,15 @@ pub(crate) fn find_all_refs<'a>(
         })
         .collect();
 
-    let declaration = NavigationTarget::from_named_item(named_item);
+    // builtins are declared in an in-memory file, there's nothing to navigate to
+    let is_builtin = db
+        .builtins_file_id()
+        .is_some_and(|fid| fid.data(db) == named_item.file_id);
+    let declaration = if is_builtin {
+        None
+    } else {
+        NavigationTarget::from_named_item(named_item)
+    };
     Some(ReferenceSearchResult { declaration, references })
 }
 
-- 
2.43.0


From 416c4fd3e6ab8f79c3eef64e5f1b4ee90760317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 37/81] fix: resolving a completion answered with another item
 whose name is a prefix

---
 .../src/handlers/request.rs                   | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/crates/aptos-language-server/src/handlers/request.rs b/crates/aptos-language-server/src/handlers/request.rs
index fd588eb..a939d13 100644
--- a/crates/aptos-language-server/src/handlers/request.rs
+++ b/crates/aptos-language-server/src/handlers/request.rs
@@ -294,7 +294,7 @@ pub(crate) fn handle_completion_resolve(
         return Ok(original_completion);
     };
 
-    let resolve_data: lsp_ext::CompletionResolveData = serde_json::from_value(data)?;
+    let resolve_data: lsp_ext::CompletionResolveData = serde_json::from_value(data.clone())?;
 
     let file_id = from_proto::file_id(&snap, &resolve_data.position.text_document.uri)?;
     let line_index = snap.file_line_index(file_id)?;
@@ -314,31 +314,20 @@ pub(crate) fn handle_completion_resolve(
     else {
         return Ok(original_completion);
     };
-    // let Ok(resolve_data_hash) = BASE64_STANDARD.decode(resolve_data.hash) else {
-    //     return Ok(original_completion);
-    // };
-
-    let Some(corresponding_completion) = completions.into_iter().find(|completion_item| {
-        // Avoid computing hashes for items that obviously do not match
-        // r-a might append a detail-based suffix to the label, so we cannot check for equality
-        original_completion
-            .label
-            .starts_with(completion_item.label.primary.as_str())
-        // && resolve_data_hash == completion_item_hash(completion_item, resolve_data.for_ref)
-    }) else {
-        return Ok(original_completion);
-    };
-
-    let mut resolved_completions = to_proto::completion_items(
+    // The label on its own is not enough: there are items with the label of another one as a prefix,
+    // and items with the same label and different imports.
+    let resolved_completion = to_proto::completion_items(
         &snap.config,
         // &forced_resolve_completions_config.fields_to_resolve,
         &line_index,
         snap.file_version(position.file_id),
         resolve_data.position,
         resolve_data.trigger_character,
-        vec![corresponding_completion],
-    );
-    let Some(mut resolved_completion) = resolved_completions.pop() else {
+        completions,
+    )
+    .into_iter()
+    .find(|it| it.label == original_completion.label && it.data.as_ref() == Some(&data));
+    let Some(mut resolved_completion) = resolved_completion else {
         return Ok(original_completion);
     };
 
-- 
2.43.0


From c4d3f85718fbb87b5ff0c49315c491379d782353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 38/81] fix: report settings that have an invalid value

---
 crates/aptos-language-server/src/config/options.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/aptos-language-server/src/config/options.rs b/crates/aptos-language-server/src/config/options.rs
index 8320426..66f39d6 100644
--- a/crates/aptos-language-server/src/config/options.rs
+++ b/crates/aptos-language-server/src/config/options.rs
@@ -177,8 +177,7 @@ fn get_field_json<T: DeserializeOwned>(
             json.pointer_mut(&pointer)
                 .map(|it| serde_json::from_value(it.take()).map_err(|e| (e, pointer)))
         })
-        .find(Result::is_ok)
-        .and_then(|res| match res {
+        .find_map(|res| match res {
             Ok(it) => Some(it),
             Err((e, pointer)) => {
                 tracing::warn!("Failed to deserialize config field at {}: {:?}", pointer, e);
-- 
2.43.0


From 25244c252987aae29c41c58ed02ba0bc4a2c51e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 39/81] fix: name syntax errors by their own code in the
 diagnostics settings

---
 crates/ide-diagnostics/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/lib.rs b/crates/ide-diagnostics/src/lib.rs
index 0823957..b6cd204 100644
--- a/crates/ide-diagnostics/src/lib.rs
+++ b/crates/ide-diagnostics/src/lib.rs
@@ -58,8 +58,7 @@ pub fn syntax_diagnostics(
 ) -> Vec<Diagnostic> {
     let _p = tracing::info_span!("syntax_diagnostics").entered();
 
-    if !config.is_diagnostic_enabled("syntax_error") {
-        // if config.disabled.contains("syntax-error") {
+    if !config.is_diagnostic_enabled("syntax-error") {
         return Vec::new();
     }
 
-- 
2.43.0


From 801cfc236321284668b96e49b28fc43cb5c6db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 40/81] fix: show run lenses when the lenses of specifications
 are off

---
 crates/aptos-language-server/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/config.rs b/crates/aptos-language-server/src/config.rs
index 1b374dc..1305017 100644
--- a/crates/aptos-language-server/src/config.rs
+++ b/crates/aptos-language-server/src/config.rs
@@ -59,7 +59,7 @@ pub struct LensConfig {
 
 impl LensConfig {
     pub fn any(&self) -> bool {
-        self.specifications
+        self.runnables || self.specifications
     }
 
     pub fn none(&self) -> bool {
-- 
2.43.0


From 669dd8974b5adcf8446abbeeed72e06c00eedba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 41/81] fix: print diagnostics of every file, not only up to
 the first one with errors

---
 .../aptos-language-server/src/cli/diagnostics.rs   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aptos-language-server/src/cli/diagnostics.rs b/crates/aptos-language-server/src/cli/diagnostics.rs
index bf7be9a..50dd17b 100644
--- a/crates/aptos-language-server/src/cli/diagnostics.rs
+++ b/crates/aptos-language-server/src/cli/diagnostics.rs
@@ -149,13 +149,13 @@ impl Diagnostics {
 
                     let apply_assists = package_cmd_config.allowed_fix_codes.has_codes_to_apply();
                     if !apply_assists {
-                        found_error = found_error
-                            || self.print_diagnostics_for_a_file(
-                                &db,
-                                &package_cmd_config,
-                                file_id,
-                                &abs_file_path,
-                            );
+                        // do not skip the remaining files after the first error
+                        found_error |= self.print_diagnostics_for_a_file(
+                            &db,
+                            &package_cmd_config,
+                            file_id,
+                            &abs_file_path,
+                        );
                         continue;
                     }
 
-- 
2.43.0


From 71ed1d68823e65dd860df67359b63b4de26306d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 42/81] fix: accept paths with `.` and `..` on the command line

---
 crates/aptos-language-server/src/cli/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index 2c76f42..3356a57 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -106,7 +106,9 @@ pub(super) enum CmdPathKind {
 impl CmdPath {
     pub fn new(path: &PathBuf) -> anyhow::Result<Self> {
         let provided_path = Utf8PathBuf::from_path_buf(std::env::current_dir()?.join(path)).unwrap();
-        Ok(CmdPath { path: provided_path })
+        // paths of the files in Vfs are normalized
+        let normalized_path = AbsPathBuf::assert(provided_path).normalize();
+        Ok(CmdPath { path: normalized_path.into() })
     }
 
     pub fn kind(&self) -> CmdPathKind {
-- 
2.43.0


From 987b2e2ebd51b7b859bd1b7a62f6e3cfab14cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 43/81] fix: keep CRLF line endings of files written from the
 command line

---
 crates/aptos-language-server/src/cli/utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index 3356a57..c133b9e 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -10,6 +10,7 @@ use project_model::aptos_package::load_from_fs;
 use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
+use stdext::line_endings::LineEndings;
 use syntax::TextRange;
 use vfs::{FileId, Vfs};
 
@@ -89,8 +90,15 @@ pub(crate) fn write_file_text(
     let file_path = vfs.file_path(file_id).to_owned();
     let abs_file_path = file_path.as_path().unwrap().to_path_buf();
 
-    vfs.set_file_contents(file_path, Some(new_file_text.clone().into_bytes()));
-    fs::write(&abs_file_path, new_file_text.clone()).expect("cannot write file");
+    // texts in the database always have unix line endings
+    let line_endings = match fs::read_to_string(&abs_file_path) {
+        Ok(old_file_text) => LineEndings::normalize(old_file_text).1,
+        Err(_) => LineEndings::Unix,
+    };
+    let new_file_contents = line_endings.map(new_file_text.clone());
+
+    vfs.set_file_contents(file_path, Some(new_file_contents.clone().into_bytes()));
+    fs::write(&abs_file_path, new_file_contents).expect("cannot write file");
 }
 
 pub(super) struct CmdPath {
-- 
2.43.0


From 66609c96cfc3619279ada6624c80d7a35c5904e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 44/81] fix: show the text of applied fixes at the right place

---
 crates/aptos-language-server/src/cli/utils.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/aptos-language-server/src/cli/utils.rs b/crates/aptos-language-server/src/cli/utils.rs
index c133b9e..d3754a3 100644
--- a/crates/aptos-language-server/src/cli/utils.rs
+++ b/crates/aptos-language-server/src/cli/utils.rs
@@ -11,7 +11,7 @@ use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
 use stdext::line_endings::LineEndings;
-use syntax::TextRange;
+use syntax::{TextRange, TextSize};
 use vfs::{FileId, Vfs};
 
 pub(crate) fn init_db(manifests: Vec<DiscoveredManifest>) -> (RootDatabase, Vfs) {
@@ -71,7 +71,14 @@ pub(crate) fn apply_assist(assist: &Assist, before: &str) -> (String, Vec<TextRa
     let mut after = before.to_string();
     let mut new_text_ranges = vec![];
     for text_edit in source_change.source_file_edits.values() {
-        new_text_ranges.extend(text_edit.iter().map(|it| it.new_range()));
+        // every edit is shifted by the ones before it
+        let mut inserted = TextSize::new(0);
+        let mut deleted = TextSize::new(0);
+        for edit in text_edit.iter() {
+            new_text_ranges.push(edit.new_range() + inserted - deleted);
+            inserted += TextSize::of(&edit.new_text);
+            deleted += edit.range.len();
+        }
         text_edit.apply(&mut after);
     }
     (after, new_text_ranges)
-- 
2.43.0


From 4cf8fae76bfae5133436ef21f5ef675bba4cb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 45/81] fix: load packages with a file that is not valid UTF-8

---
 crates/ide-db/src/load.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ide-db/src/load.rs b/crates/ide-db/src/load.rs
index d8ac2fd..c18c97f 100644
--- a/crates/ide-db/src/load.rs
+++ b/crates/ide-db/src/load.rs
@@ -63,10 +63,10 @@ pub fn load_db(packages: &[AptosPackage]) -> anyhow::Result<(RootDatabase, vfs::
     let changes = vfs.take_changes();
     for (_, changed_file) in changes {
         if let vfs::Change::Create(file_bytes, _) /*| vfs::Change::Modify(v, _)*/ = changed_file.change {
-            if let Ok(file_text) = String::from_utf8(file_bytes) {
-                let (file_text, _) = LineEndings::normalize(file_text);
-                analysis_change.change_file(changed_file.file_id, Some(file_text))
-            }
+            // every file needs a text, as it's in one of the package roots
+            let file_text = String::from_utf8(file_bytes).unwrap_or_default();
+            let (file_text, _) = LineEndings::normalize(file_text);
+            analysis_change.change_file(changed_file.file_id, Some(file_text))
         }
     }
     let package_root_config = project_folders.package_root_config;
-- 
2.43.0


From e750bf59a578fa7ce84b2b9b7b3dec4cd152d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 46/81] fix: do not offer an import for the name of a module
 spec

---
 .../src/handlers/unresolved_reference/auto_import.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs b/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
index 90e5fc4..6242e02 100644
--- a/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
@@ -23,6 +23,11 @@ pub(crate) fn auto_import_fix(
 
     let (file_id, path) = path.unpack();
 
+    // `spec unresolved {}`, imports of the spec itself are not visible there
+    if path.syntax().parent_is::<ast::ModuleSpec>() {
+        return None;
+    }
+
     let expected_ns = path_kind(db, path.qualifier(), &path, false)?.unqualified_ns()?;
     let import_candidates = hir_db::import_candidates(db, file_id)
         .iter()
-- 
2.43.0


From cfdbfa25ce3769389c4e28457e098537b8c5f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 47/81] fix: a package in a cycle of dependencies is not its
 own dependency

---
 crates/project-model/src/aptos_package/load_from_fs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/project-model/src/aptos_package/load_from_fs.rs b/crates/project-model/src/aptos_package/load_from_fs.rs
index 1d4a5a0..5b37e81 100644
--- a/crates/project-model/src/aptos_package/load_from_fs.rs
+++ b/crates/project-model/src/aptos_package/load_from_fs.rs
@@ -127,7 +127,8 @@ fn collect_package_from_manifest_entry(
         named_addresses,
     } = manifest_entry;
     // for every reachable package in the workspace, we need to build it's dependencies
-    let collected_deps = collect_deps_transitively(declared_deps, valid_manifest_entries);
+    let collected_deps =
+        collect_deps_transitively(&manifest_path, declared_deps, valid_manifest_entries);
 
     let aptos_package = AptosPackage::new(
         package_name,
@@ -142,10 +143,12 @@ fn collect_package_from_manifest_entry(
 }
 
 fn collect_deps_transitively(
+    package_manifest: &ManifestPath,
     declared_deps: Vec<(ManifestPath, PackageKind)>,
     valid_manifest_entries: &HashMap<ManifestPath, ManifestEntry>,
 ) -> Vec<(ManifestPath, PackageKind)> {
-    let mut visited_dep_manifests = HashSet::new();
+    // with cyclic dependencies, package is reachable from itself, but it's not a dependency of itself
+    let mut visited_dep_manifests = HashSet::from([package_manifest.clone()]);
     let mut visited_dep_names = HashSet::new();
 
     let mut deps_queue = VecDeque::new();
-- 
2.43.0


From 7a588524d7ce28ae05ce9ce756467202cd02302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 48/81] fix: answer requests about a file that is not valid
 UTF-8 without a panic

---
 crates/aptos-language-server/src/global_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/global_state.rs b/crates/aptos-language-server/src/global_state.rs
index 52f735d..b2f7ce6 100644
--- a/crates/aptos-language-server/src/global_state.rs
+++ b/crates/aptos-language-server/src/global_state.rs
@@ -284,7 +284,8 @@ impl GlobalStateSnapshot {
     }
 
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
-        let endings = self.vfs.read().1[&file_id];
+        // there are no line endings recorded for the files that are not valid UTF-8
+        let endings = self.vfs.read().1.get(&file_id).copied().unwrap_or(LineEndings::Unix);
         let index = self.analysis.file_line_index(file_id)?;
         let res = LineIndex {
             index,
-- 
2.43.0


From 958d962d9e5357668a1eb31f96f9632b9b918c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 49/81] fix: offer imports only of what can be imported and
 used at the place

---
 .../src/completions/reference/paths.rs        |  7 +-
 .../unresolved_reference/auto_import.rs       |  5 ++
 crates/lang/src/nameres/is_visible.rs         | 64 ++++++++++++-------
 3 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/crates/ide-completion/src/completions/reference/paths.rs b/crates/ide-completion/src/completions/reference/paths.rs
index 0e72d3f..a1a6a3e 100644
--- a/crates/ide-completion/src/completions/reference/paths.rs
+++ b/crates/ide-completion/src/completions/reference/paths.rs
@@ -15,7 +15,7 @@ use ide_db::SymbolKind;
 use ide_db::defs::BUILTIN_MUT_RESOURCE_FUNCTIONS;
 use lang::hir_db;
 use lang::nameres::fq_named_element::ItemFQNameOwner;
-use lang::nameres::is_visible::is_visible_in_context;
+use lang::nameres::is_visible::{is_importable_in_context, is_visible_in_context};
 use lang::nameres::name_resolution::WalkScopesCtx;
 use lang::nameres::namespaces::NONE;
 use lang::nameres::path_kind::path_kind;
@@ -235,7 +235,10 @@ fn add_out_of_scope_completion_items(
     let import_candidates = hir_db::import_candidates(ctx.db, original_start_at.file_id)
         .iter()
         .filter(|it| unqualified_nsset.contains(it.ns))
-        .filter(|it| is_visible_in_context(ctx.db, it, original_start_at.clone()).is_none());
+        .filter(|it| {
+            let context = original_start_at.clone().map(|it| it.into());
+            is_importable_in_context(ctx.db, it, context)
+        });
     let mut completion_items = vec![];
     for import_candidate in import_candidates {
         if !existing_entries.contains(import_candidate) {
diff --git a/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs b/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
index 6242e02..788c259 100644
--- a/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
@@ -6,6 +6,7 @@ use lang::hir_db;
 use lang::item_scope::ItemScope;
 use lang::loc::SyntaxLocNodeExt;
 use lang::nameres::fq_named_element::ItemFQNameOwner;
+use lang::nameres::is_visible::is_importable_in_context;
 use lang::nameres::path_kind::path_kind;
 use lang::nameres::scope::ScopeEntry;
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
@@ -33,6 +34,10 @@ pub(crate) fn auto_import_fix(
         .iter()
         .filter(|it| expected_ns.contains(it.ns))
         .filter(|it| it.name == reference_name)
+        .filter(|it| {
+            let context = InFile::new(file_id, path.syntax().clone().into());
+            is_importable_in_context(db, it, context)
+        })
         .collect::<Vec<_>>();
 
     // limit to 3 autofixes, otherwise just bail out
diff --git a/crates/lang/src/nameres/is_visible.rs b/crates/lang/src/nameres/is_visible.rs
index ddc55c9..85fc871 100644
--- a/crates/lang/src/nameres/is_visible.rs
+++ b/crates/lang/src/nameres/is_visible.rs
@@ -71,6 +71,46 @@ pub fn check_if_visible(
     ScopeEntryWithVis { scope_entry, invis_reason }
 }
 
+/// Whether the name from the `context` is going to be resolved to the `scope_entry`, if it's imported.
+pub fn is_importable_in_context(
+    db: &dyn SourceDatabase,
+    scope_entry: &ScopeEntry,
+    context: InFile<SyntaxElement>,
+) -> bool {
+    let Some(item) = scope_entry.node_loc.to_ast::<ast::NamedElement>(db) else {
+        return false;
+    };
+    let (context_file_id, context_element) = context.clone().unpack();
+    let context_loc =
+        SyntaxLoc::from_file_syntax_node(&context_element.loc_node().in_file(context_file_id));
+    is_visible_in_use_speck(&item.value, scope_entry.ns, hir_db::item_scope(db, context_loc))
+        && is_visible_in_context(db, scope_entry, context).is_none()
+}
+
+fn is_visible_in_use_speck(item: &ast::NamedElement, item_ns: Ns, use_item_scope: ItemScope) -> bool {
+    use syntax::SyntaxKind::*;
+
+    // those are always public in use specks
+    if matches!(item.syntax().kind(), MODULE | STRUCT | ENUM) {
+        return true;
+    }
+
+    // items needs to be non-private to be visible, no other rules apply in use specks
+    if let Some(visible_item) = ast::AnyHasVisibility::cast(item.syntax().clone()) {
+        if visible_item.vis() != Vis::Private {
+            return true;
+        }
+    }
+
+    // msl-only items are available from imports
+    if item.syntax().is_msl_only_item() {
+        return true;
+    }
+
+    // consts are importable in tests
+    use_item_scope.is_test() && item_ns == Ns::NAME
+}
+
 pub fn is_visible_in_context(
     db: &dyn SourceDatabase,
     scope_entry: &ScopeEntry,
@@ -97,7 +137,6 @@ pub fn is_visible_in_context(
     else {
         return Some(ItemInvisibleReason::Unknown);
     };
-    let item_kind = item.syntax().kind();
     let item_ns = scope_entry.ns;
     let opt_visible_item = ast::AnyHasVisibility::cast(item.syntax().clone());
 
@@ -107,28 +146,9 @@ pub fn is_visible_in_context(
     let context_opt_path = context.as_node().and_then(|it| it.cast::<ast::Path>());
     if let Some(path) = &context_opt_path
         && path.root_parent_of_type::<ast::UseSpeck>().is_some()
+        && is_visible_in_use_speck(&item, item_ns, context_item_scope)
     {
-        // those are always public in use specks
-        if matches!(item_kind, MODULE | STRUCT | ENUM) {
-            return None;
-        }
-
-        // items needs to be non-private to be visible, no other rules apply in use specks
-        if let Some(visible_item) = opt_visible_item.clone() {
-            if visible_item.vis() != Vis::Private {
-                return None;
-            }
-        }
-
-        // msl-only items are available from imports
-        if item.syntax().is_msl_only_item() {
-            return None;
-        }
-
-        // consts are importable in tests
-        if context_item_scope.is_test() && item_ns == Ns::NAME {
-            return None;
-        }
+        return None;
     }
 
     let item_module = item.syntax().containing_module();
-- 
2.43.0


From ae440a40cf9abc31c0de1ed3cf8ba29b2617e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 50/81] fix: an import that cannot be resolved does not make
 another of its name unused

---
 .../src/handlers/unused_import/use_items.rs       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
index ead93fe..6b0c486 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
@@ -56,13 +56,15 @@ fn find_use_item_hit_for_path(
             .and_then(|path_scope| {
                 use_items_hit_in_owner
                     .iter()
-                    .find(|item| item.declared_scope == path_scope)
+                    .filter(|item| item.declared_scope == path_scope)
+                    .min_by_key(|item| !is_resolved(db, item))
             })
             // then in main scope, if nothing was found
             .or_else(|| {
                 use_items_hit_in_owner
                     .iter()
-                    .find(|item| item.declared_scope == ItemScope::Main)
+                    .filter(|item| item.declared_scope == ItemScope::Main)
+                    .min_by_key(|item| !is_resolved(db, item))
             })
             .cloned();
 
@@ -73,6 +75,15 @@ fn find_use_item_hit_for_path(
     None
 }
 
+/// an import that cannot be resolved does not shadow one with the same name that can
+fn is_resolved(db: &dyn SourceDatabase, use_item: &UseItem) -> bool {
+    use_item
+        .use_speck(db)
+        .and_then(|use_speck| use_speck.and_then(|it| it.path()))
+        .and_then(|path| nameres::resolve_no_inf(db, path))
+        .is_some()
+}
+
 fn find_use_items_hit<'a>(
     use_items: impl Iterator<Item = &'a UseItem>,
     path_type: &'a BasePathType,
-- 
2.43.0


From 2abf1e877e9c20e2affb83fe29f98a490a356a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 51/81] fix: offer no import for a name that is imported
 already

---
 .../unresolved_reference/auto_import.rs       | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs b/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
index 788c259..99dc854 100644
--- a/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
+++ b/crates/ide-diagnostics/src/handlers/unresolved_reference/auto_import.rs
@@ -4,13 +4,15 @@ use ide_db::assist_context::LocalAssists;
 use ide_db::imports;
 use lang::hir_db;
 use lang::item_scope::ItemScope;
-use lang::loc::SyntaxLocNodeExt;
+use lang::loc::{SyntaxLocFileExt, SyntaxLocNodeExt};
 use lang::nameres::fq_named_element::ItemFQNameOwner;
 use lang::nameres::is_visible::is_importable_in_context;
 use lang::nameres::path_kind::path_kind;
 use lang::nameres::scope::ScopeEntry;
+use lang::nameres::use_speck_entries::UseItemType;
+use syntax::SyntaxKind::MODULE;
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
-use syntax::files::{FileRange, InFile};
+use syntax::files::{FileRange, InFile, InFileExt};
 use syntax::{AstNode, ast};
 
 pub(crate) fn auto_import_fix(
@@ -45,6 +47,14 @@ pub(crate) fn auto_import_fix(
         return None;
     }
 
+    // the name is taken by another import, one more would not be used
+    if import_candidates
+        .iter()
+        .any(|it| is_imported_already(db, it, path.clone().in_file(file_id)))
+    {
+        return None;
+    }
+
     let current_items_owner = path.syntax().containing_items_owner()?;
     let mut assists = ctx.local_assists_for_node(InFile::new(file_id, &path))?;
 
@@ -92,3 +102,20 @@ fn add_autoimport_fix_for_import_candidate(
     );
     Some(())
 }
+
+fn is_imported_already(
+    db: &dyn SourceDatabase,
+    import_candidate: &ScopeEntry,
+    path: InFile<ast::Path>,
+) -> bool {
+    let path_scope = hir_db::item_scope(db, path.loc());
+    let is_module = import_candidate.node_loc.kind() == MODULE;
+    path.as_ref()
+        .flat_map(|it| it.syntax().ancestors_of_type::<ast::AnyUseStmtsOwner>())
+        .into_iter()
+        .flat_map(|use_stmts_owner| hir_db::combined_use_items(db, use_stmts_owner))
+        .filter(|it| it.declared_scope == ItemScope::Main || it.declared_scope == path_scope)
+        .any(|it| {
+            it.alias_or_name == import_candidate.name && (it.type_ != UseItemType::Item) == is_module
+        })
+}
-- 
2.43.0


From 98377f029f44d87eaf0bad77337340333267c313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 52/81] fix: watch the files below the source folders of a
 client without relative patterns

---
 crates/aptos-language-server/src/reload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 5d9921c..8ca3c17 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -266,7 +266,7 @@ impl GlobalState {
                     folder_root
                         .source_dirs()
                         .iter()
-                        .map(|base| format!("{base}**/*.move"))
+                        .map(|base| format!("{base}/**/*.move"))
                         .collect::<Vec<_>>()
                 })
                 .map(|glob_pattern| FileSystemWatcher {
-- 
2.43.0


From b02ac002d04d3edcb06220e07b562d77ab94ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 53/81] fix: a dependency with an invalid manifest is not part
 of the package graph

---
 crates/project-model/src/aptos_package/load_from_fs.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/project-model/src/aptos_package/load_from_fs.rs b/crates/project-model/src/aptos_package/load_from_fs.rs
index 5b37e81..e158bbd 100644
--- a/crates/project-model/src/aptos_package/load_from_fs.rs
+++ b/crates/project-model/src/aptos_package/load_from_fs.rs
@@ -183,7 +183,6 @@ fn collect_deps_transitively(
                     "cannot collect deps due to invalid Move.toml file: {}",
                     current_dep.0
                 );
-                res.push(current_dep);
             }
         }
     }
-- 
2.43.0


From ba5d81a2e0b20531ad9a3de064473a9106c1c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 54/81] fix: assign the files to packages again when the
 packages change

---
 crates/aptos-language-server/src/reload.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 8ca3c17..3357a45 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -344,12 +344,15 @@ impl GlobalState {
             return;
         };
 
-        {
+        // files already known to vfs could be moved to another package, it's not visible as a file change
+        let package_roots = {
             let vfs = &self.vfs.read().0;
             trace_dependencies(&package_graph, vfs);
-        }
+            self.package_root_config.partition_into_package_roots(vfs)
+        };
 
         let mut changes = FileChanges::new();
+        changes.set_package_roots(package_roots);
         changes.set_package_graph(package_graph);
         self.analysis_host.apply_change(changes);
     }
-- 
2.43.0


From dfcd1e2a69145c55323a6293d0c2b2a546528ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:26 +0000
Subject: [PATCH 55/81] fix: load the files outside of packages again when they
 become part of one

---
 crates/aptos-language-server/src/reload.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/aptos-language-server/src/reload.rs b/crates/aptos-language-server/src/reload.rs
index 3357a45..e05b345 100644
--- a/crates/aptos-language-server/src/reload.rs
+++ b/crates/aptos-language-server/src/reload.rs
@@ -226,12 +226,34 @@ impl GlobalState {
             watch,
             version: self.vfs_config_version,
         });
+        // those are not watched before or after the switch
+        self.forget_files_outside_of_packages(&self.all_packages);
+        self.forget_files_outside_of_packages(&packages_from_fs);
         self.package_root_config = project_folders.package_root_config;
         self.all_packages = Arc::new(packages_from_fs.to_vec());
 
         tracing::info!("vfs_refresh scheduled");
     }
 
+    /// Files outside of packages can be changed on disk unnoticed, removes them from vfs to have them
+    /// loaded again if they become part of the package.
+    fn forget_files_outside_of_packages(&self, packages: &[AptosPackage]) {
+        let load_entries = ProjectFolders::new(packages).load;
+        let vfs = &mut self.vfs.write().0;
+        let outside_files = vfs
+            .iter()
+            .filter(|(_, path)| {
+                path.as_path()
+                    .is_some_and(|it| !load_entries.iter().any(|entry| entry.contains_file(it)))
+                    && !self.opened_files.contains(path)
+            })
+            .map(|(_, path)| path.clone())
+            .collect::<Vec<_>>();
+        for path in outside_files {
+            vfs.set_file_contents(path, None);
+        }
+    }
+
     fn setup_client_file_watchers(&mut self, packages: &[AptosPackage]) {
         let local_folder_roots = packages
             .iter()
-- 
2.43.0


From 6f935883dcd61fe0fe0742c6403958ff7fa6ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 56/81] fix: reload the packages on every change of a manifest
 on disk

---
 crates/aptos-language-server/src/main_loop.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/aptos-language-server/src/main_loop.rs b/crates/aptos-language-server/src/main_loop.rs
index 150e4ac..0078c64 100644
--- a/crates/aptos-language-server/src/main_loop.rs
+++ b/crates/aptos-language-server/src/main_loop.rs
@@ -11,6 +11,7 @@ use crate::handlers::request;
 use crate::handlers::request::empty_diagnostic_report;
 use crate::lsp::utils::{Progress, notification_is};
 use crate::lsp_ext;
+use crate::reload;
 use crate::reload::FetchPackagesProgress;
 use crossbeam_channel::Receiver;
 use lsp_server::Connection;
@@ -406,6 +407,15 @@ impl GlobalState {
 
     fn load_files_into_vfs(&mut self, files: Vec<(AbsPathBuf, Option<Vec<u8>>)>, is_changed: bool) {
         tracing::debug!("load files into vfs, n_files = {}", files.len());
+        // packages are loaded from the file system directly, vfs could have those contents of the manifest already
+        if is_changed && files.iter().any(|(path, _)| reload::is_manifest_file(path)) {
+            self.load_aptos_packages_queue.request_op(
+                "manifest file changed on disk".to_owned(),
+                LoadPackagesRequest {
+                    force_reload_package_deps: true,
+                },
+            );
+        }
         let vfs = &mut self.vfs.write().0;
         for (path, contents) in files {
             let path = VfsPath::from(path);
-- 
2.43.0


From 922151afee98acf6ea3d26584761d219734e8309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 57/81] fix: file names in a workspace could be anything

---
 crates/project-model/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/project-model/src/lib.rs b/crates/project-model/src/lib.rs
index 5b5530e..9338340 100644
--- a/crates/project-model/src/lib.rs
+++ b/crates/project-model/src/lib.rs
@@ -106,7 +106,10 @@ fn walk_and_discover_manifests(ws_root: &AbsPathBuf) -> Vec<DiscoveredManifest>
         .into_iter()
         .filter_map(|it| it.ok())
     {
-        let path = AbsPathBuf::assert_utf8(entry.into_path());
+        // file names could be anything
+        let Some(path) = entry.path().to_str().and_then(|it| AbsPathBuf::try_from(it).ok()) else {
+            continue;
+        };
         let resolve_deps = aptos_core_dirs
             .as_ref()
             .is_none_or(|dirs| dirs.iter().any(|dir| path.starts_with(dir)));
-- 
2.43.0


From ff38d3c18c38c07be6c6b0f1957fe2b98175e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 58/81] fix: movefmt could write its output before the whole
 input is read

---
 crates/aptos-language-server/src/movefmt.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/aptos-language-server/src/movefmt.rs b/crates/aptos-language-server/src/movefmt.rs
index a495b4d..981f20a 100644
--- a/crates/aptos-language-server/src/movefmt.rs
+++ b/crates/aptos-language-server/src/movefmt.rs
@@ -16,6 +16,7 @@ use std::io;
 use std::io::{ErrorKind, Write};
 use std::process::{Command, Stdio};
 use std::sync::LazyLock;
+use std::thread;
 use stdext::line_endings::LineEndings;
 use syntax::{TextRange, TextSize};
 
@@ -79,9 +80,18 @@ pub(crate) fn run_movefmt(
         tracing::info!(?command);
 
         let mut movefmt = spawn_command(command)?;
-        movefmt.stdin.as_mut().unwrap().write_all(file_text.as_bytes())?;
-
-        movefmt.wait_with_output()?
+        let mut stdin = movefmt.stdin.take().unwrap();
+        let input = file_text.as_bytes();
+
+        thread::scope(|scope| {
+            // movefmt could write its output before the whole input is read (or exit without reading it at all)
+            let writer = scope.spawn(move || stdin.write_all(input));
+            let output = movefmt.wait_with_output()?;
+            match writer.join() {
+                Ok(Err(err)) if err.kind() != ErrorKind::BrokenPipe => Err(err),
+                _ => Ok(output),
+            }
+        })?
     };
 
     let captured_stdout = String::from_utf8(output.stdout)?;
-- 
2.43.0


From c072a768b62639dc2ea53cfa938c0d43d44a467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 59/81] fix: a type parameter shadows an enum or tuple struct
 of its name

---
 crates/lang/src/nameres/name_resolution.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/nameres/name_resolution.rs b/crates/lang/src/nameres/name_resolution.rs
index 1915c1b..b227c61 100644
--- a/crates/lang/src/nameres/name_resolution.rs
+++ b/crates/lang/src/nameres/name_resolution.rs
@@ -7,7 +7,7 @@
 use crate::hir_db::get_modules_in_file;
 use crate::nameres::address::Address;
 use crate::nameres::blocks::get_entries_in_block;
-use crate::nameres::namespaces::{Ns, NsSet};
+use crate::nameres::namespaces::{ITEM_TYPE_NS, Ns, NsSet};
 use crate::nameres::path_resolution::ResolutionContext;
 use crate::nameres::resolve_scopes;
 use crate::nameres::scope::{NamedItemsInFileExt, ScopeEntry};
@@ -85,7 +85,9 @@ pub fn get_entries_from_walking_scopes(
                 continue;
             }
 
-            let ns_pair = (entry_ns, scope_entry.name.as_str());
+            // all the types share names, i.e. a type parameter shadows an enum
+            let shadowed_ns = if ITEM_TYPE_NS.contains(entry_ns) { Ns::TYPE } else { entry_ns };
+            let ns_pair = (shadowed_ns, scope_entry.name.as_str());
             if prev_visited_names.contains(&ns_pair) {
                 continue;
             }
-- 
2.43.0


From d6dedc42c8828e8d213f869117cd0566590e6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 60/81] fix: operands of bitwise and unary operators keep their
 integer types

---
 crates/lang/src/types/inference/ast_walker.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index bcd8c7d..74c5367 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -1288,7 +1288,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         rhs: Option<ast::Expr>,
         is_compound: bool,
     ) -> Ty {
-        let lhs_ty = self.infer_expr_coerceable_to(&lhs, Ty::integer());
+        let lhs_ty = self.infer_integer_operand(&lhs);
         if let Some(rhs) = rhs {
             self.infer_expr_coerceable_to(&rhs, lhs_ty.clone());
         }
@@ -1301,13 +1301,24 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         rhs: Option<ast::Expr>,
         is_compound: bool,
     ) -> Ty {
-        let lhs_ty = self.infer_expr_coerceable_to(&lhs, Ty::integer());
+        let lhs_ty = self.infer_integer_operand(&lhs);
         if let Some(rhs) = rhs {
             self.infer_expr_coerceable_to(&rhs, Ty::Integer(IntegerKind::U8));
         }
         if is_compound { Ty::Unit } else { lhs_ty }
     }
 
+    // any integer type will do, and `integer` as the expected one would hide which one it is
+    fn infer_integer_operand(&mut self, expr: &ast::Expr) -> Ty {
+        let ty = self.infer_expr(expr, Expected::NoValue);
+        let resolved_ty = self.ctx.resolve_ty_vars_if_possible(ty.clone());
+        if !matches!(resolved_ty, Ty::Infer(TyInfer::IntVar(_))) {
+            self.ctx
+                .coerce_types(expr.node_or_token(), resolved_ty, Ty::integer());
+        }
+        ty
+    }
+
     fn infer_logic_binary_expr(&mut self, lhs: ast::Expr, rhs: Option<ast::Expr>) -> Ty {
         self.infer_expr_coerceable_to(&lhs, Ty::Bool);
         if let Some(rhs) = rhs {
@@ -1371,7 +1382,7 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
     fn infer_minus_expr(&mut self, minus_expr: &ast::MinusExpr) -> Option<Ty> {
         minus_expr
             .expr()
-            .map(|it| self.infer_expr_coerceable_to(&it, Ty::integer()))
+            .map(|it| self.infer_integer_operand(&it))
     }
 
     pub(crate) fn infer_literal(&mut self, literal: &ast::Literal) -> Ty {
-- 
2.43.0


From 697ba5e8354b5d104cf3bd046fb0b14a7b262fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 61/81] fix: the index of a vector is checked, not its item
 type

---
 crates/lang/src/types/inference/ast_walker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index 74c5367..57bded5 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -863,13 +863,13 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         if let Ty::Seq(TySequence::Vector(item_ty)) = deref_ty.clone() {
             let item_ty = item_ty.deref().to_owned();
             // arg_ty can be either TyInteger or TyRange
-            return match arg_ty {
+            return match self.ctx.resolve_ty_vars_if_possible(arg_ty.clone()) {
                 Ty::Seq(TySequence::Range(_)) => deref_ty,
                 Ty::Integer(_) | Ty::Infer(TyInfer::IntVar(_)) | Ty::Num => item_ty,
                 _ => {
                     self.ctx.coerce_types(
                         arg_expr.node_or_token(),
-                        item_ty.clone(),
+                        arg_ty,
                         if self.ctx.msl { Ty::Num } else { Ty::integer() },
                     );
                     item_ty
-- 
2.43.0


From f005f1de8312242c47494489fb051a10e08a69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 62/81] fix: fields matched on a value of an unknown type have
 unknown types

---
 crates/lang/src/types/patterns.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/lang/src/types/patterns.rs b/crates/lang/src/types/patterns.rs
index 78501e4..d0b3ca5 100644
--- a/crates/lang/src/types/patterns.rs
+++ b/crates/lang/src/types/patterns.rs
@@ -5,10 +5,11 @@
 // Modifications have been made to the original code.
 
 use crate::nameres::scope::{ScopeEntry, ScopeEntryExt, VecExt};
+use crate::types::has_type_params_ext::GenericItemExt;
 use crate::types::inference::ast_walker::TypeAstWalker;
 use crate::types::inference::{TyVarIndex, TypeError};
 use crate::types::patterns::BindingMode::{BindByReference, BindByValue};
-use crate::types::substitution::{ApplySubstitution, empty_substitution};
+use crate::types::substitution::{ApplySubstitution, Substitution};
 use crate::types::ty::Ty;
 use crate::types::ty::reference::Mutability;
 use crate::types::ty::tuple::TyTuple;
@@ -89,11 +90,8 @@ impl TypeAstWalker<'_, '_> {
                 }
 
                 let pat_fields = struct_pat.fields();
+                let ty_adt_subst = pat_fields_subst(expected, fields_owner.clone());
                 let pat_field_tys = self.get_pat_field_tys(fields_owner, &pat_fields);
-                let ty_adt_subst = expected
-                    .into_ty_adt()
-                    .map(|it| it.substitution)
-                    .unwrap_or(empty_substitution());
 
                 for (pat_field, (named_field_entry, ty)) in pat_fields.into_iter().zip(pat_field_tys) {
                     let pat_field_ty = ty.substitute(&ty_adt_subst);
@@ -126,6 +124,7 @@ impl TypeAstWalker<'_, '_> {
                     }
                     return None;
                 }
+                let ty_adt_subst = pat_fields_subst(expected, fields_owner.clone());
                 let fields_owner = fields_owner.unwrap();
 
                 let pats = tuple_struct_pat.fields().collect();
@@ -141,10 +140,6 @@ impl TypeAstWalker<'_, '_> {
                         //     .unwrap_or(Ty::Unknown)
                     })
                     .collect::<Vec<_>>();
-                let ty_adt_subst = expected
-                    .into_ty_adt()
-                    .map(|it| it.substitution)
-                    .unwrap_or(empty_substitution());
 
                 #[rustfmt::skip]
                 self.infer_tuple_pat_fields(
@@ -288,6 +283,17 @@ impl TypeAstWalker<'_, '_> {
     }
 }
 
+/// What the type parameters of the matched item stand for, unknown if the matched value is.
+fn pat_fields_subst(matched_ty: Ty, fields_owner: Option<InFile<ast::FieldsOwner>>) -> Substitution {
+    if let Some(ty_adt) = matched_ty.into_ty_adt() {
+        return ty_adt.substitution;
+    }
+    let type_params = fields_owner
+        .map(|it| it.map(|it| it.struct_or_enum()).ty_type_params())
+        .unwrap_or_default();
+    Substitution::new(type_params.into_iter().map(|it| (it, Ty::Unknown)).collect())
+}
+
 pub fn anonymous_pat_ty_var(ty_var_index: &TyVarIndex, pat: &ast::Pat) -> Ty {
     match pat {
         ast::Pat::IdentPat(_) => Ty::new_ty_var(ty_var_index),
-- 
2.43.0


From 753f4e54daaf86290ffcff22f1f970abfe298dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 63/81] fix: type variables of a lambda body are different from
 the outer ones

---
 crates/lang/src/types/inference.rs                        | 6 ++++++
 crates/lang/src/types/inference/ast_walker/lambda_expr.rs | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/inference.rs b/crates/lang/src/types/inference.rs
index 7d7d4ae..73b9ce9 100644
--- a/crates/lang/src/types/inference.rs
+++ b/crates/lang/src/types/inference.rs
@@ -45,6 +45,11 @@ impl TyVarIndex {
         self.0.set(new_val);
         new_val
     }
+
+    /// Variables of both contexts can be met in one type, those should never have the same index.
+    pub fn continue_from(&self, other: &TyVarIndex) {
+        self.0.set(other.0.get());
+    }
 }
 
 pub struct InferenceCtx<'db> {
@@ -98,6 +103,7 @@ impl<'db> InferenceCtx<'db> {
 
     pub fn from_parent_ctx(ctx: &'db InferenceCtx) -> InferenceCtx<'db> {
         let mut new_ctx = Self::new(ctx.db, ctx.file_id, ctx.msl);
+        new_ctx.ty_var_index.continue_from(&ctx.ty_var_index);
         new_ctx.pat_types = ctx.pat_types.clone();
         new_ctx
     }
diff --git a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
index 9c0c2cb..8e76e8e 100644
--- a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
+++ b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
@@ -33,7 +33,11 @@ impl TypeAstWalker<'_, '_> {
         // // need to infer return type to proceed further
         let lambda_return_ty = if let Some(body_expr) = lambda_expr.body_expr() {
             let mut inner_ctx = InferenceCtx::from_parent_ctx(self.ctx);
-            TypeAstWalker::new(&mut inner_ctx, Ty::Unknown).infer_expr(&body_expr, Expected::NoValue)
+            let return_ty = TypeAstWalker::new(&mut inner_ctx, Ty::Unknown)
+                .infer_expr(&body_expr, Expected::NoValue);
+            let inner_ty_var_index = inner_ctx.ty_var_index;
+            self.ctx.ty_var_index.continue_from(&inner_ty_var_index);
+            return_ty
         } else {
             Ty::Unit
         };
-- 
2.43.0


From 8e47bbacbff5a109db4a2879d08d753123400159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:49 +0000
Subject: [PATCH 64/81] fix: a use shadowed by a variable or type parameter is
 no use of an import

---
 .../src/handlers/unused_import/use_items.rs   | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
index 6b0c486..64a07c1 100644
--- a/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
+++ b/crates/ide-diagnostics/src/handlers/unused_import/use_items.rs
@@ -5,7 +5,7 @@ use lang::loc::SyntaxLocFileExt;
 use lang::nameres;
 use lang::nameres::use_speck_entries::{UseItem, UseItemType};
 use std::collections::HashSet;
-use syntax::SyntaxKind::{ENUM, MODULE};
+use syntax::SyntaxKind::{ENUM, IDENT_PAT, MODULE, TYPE_PARAM};
 use syntax::ast::node_ext::syntax_element::SyntaxElementExt;
 use syntax::files::{InFile, InFileExt};
 use syntax::{AstNode, ast};
@@ -42,6 +42,9 @@ fn find_use_item_hit_for_path(
         .flat_map(|it| it.syntax().ancestors_of_type::<ast::AnyUseStmtsOwner>());
 
     let base_path_type = BasePathType::for_path(db, path.clone())?;
+    if is_binding_or_type_param(db, &path) {
+        return None;
+    }
     for use_item_owner_ans in use_item_owner_ancestors {
         let owner_use_items = hir_db::combined_use_items(db, use_item_owner_ans)
             .into_iter()
@@ -75,6 +78,20 @@ fn find_use_item_hit_for_path(
     None
 }
 
+/// variables and type parameters shadow the imports of the same name
+fn is_binding_or_type_param(db: &dyn SourceDatabase, path: &InFile<ast::Path>) -> bool {
+    let root_path = path.as_ref().map(|it| it.root_path());
+    if root_path.value.qualifier().is_some() {
+        return false;
+    }
+    nameres::resolve_multi(db, root_path, None).is_some_and(|entries| {
+        !entries.is_empty()
+            && entries
+                .iter()
+                .all(|it| matches!(it.scope_entry.node_loc.kind(), IDENT_PAT | TYPE_PARAM))
+    })
+}
+
 /// an import that cannot be resolved does not shadow one with the same name that can
 fn is_resolved(db: &dyn SourceDatabase, use_item: &UseItem) -> bool {
     use_item
-- 
2.43.0


From 5bcc17ee267627878a1916010488f246530ce912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:49 +0000
Subject: [PATCH 65/81] fix: the method call that replaces a call uses the name
 of the function and not its alias

---
 .../src/handlers/can_be_replaced_with_method_call.rs  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
index 56099e2..f64e077 100644
--- a/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
+++ b/crates/ide-diagnostics/src/handlers/can_be_replaced_with_method_call.rs
@@ -79,7 +79,12 @@ pub(crate) fn can_be_replaced_with_method_call(
                 "Can be replaced with method call",
                 call_expr.file_range(),
             )
-            .with_local_fixes(fixes(ctx, call_expr.clone(), call_expr.file_range())),
+            .with_local_fixes(fixes(
+                ctx,
+                call_expr.clone(),
+                fun.value,
+                call_expr.file_range(),
+            )),
         )
     }
 
@@ -90,6 +95,7 @@ pub(crate) fn can_be_replaced_with_method_call(
 fn fixes(
     ctx: &DiagnosticsContext<'_>,
     call_expr: InFile<ast::CallExpr>,
+    fun: ast::Fun,
     diagnostic_range: FileRange,
 ) -> Option<LocalAssists> {
     let mut assists = ctx.local_assists_for_node(call_expr.as_ref())?;
@@ -101,7 +107,8 @@ fn fixes(
         receiver_expr = receiver_expr.borrow_expr().unwrap().expr()?;
     }
 
-    let name = call_expr.path()?.reference_name()?;
+    // the call can name the function by an alias
+    let name = fun.name()?.as_string();
     let type_arg_list = call_expr.path()?.segment().and_then(|it| it.type_arg_list());
 
     let method_args = call_expr
-- 
2.43.0


From 54b3386806d4c2b3ffb2eb76d8893fa5cb5cf067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:16 +0000
Subject: [PATCH 66/81] fix: an index is not what is indexed, so anything can
 be completed there

---
 crates/lang/src/nameres/path_kind.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/path_kind.rs b/crates/lang/src/nameres/path_kind.rs
index db02aba..c11e34c 100644
--- a/crates/lang/src/nameres/path_kind.rs
+++ b/crates/lang/src/nameres/path_kind.rs
@@ -327,7 +327,13 @@ fn path_namespaces(
         PATH_EXPR if path_parent.has_ancestor_or_self::<ast::AttrItem>() => ALL_NS,
 
         // TYPE | ENUM for resource indexing, NAME for vector indexing
-        PATH_EXPR if path_parent.parent_is::<ast::IndexExpr>() => INDEXABLE_NS,
+        PATH_EXPR
+            if path_parent
+                .parent_of_type::<ast::IndexExpr>()
+                .is_some_and(|it| it.base_expr().syntax() == &path_parent) =>
+        {
+            INDEXABLE_NS
+        }
 
         PATH_EXPR if path_parent.parent_is::<ast::ApplyLemma>() => enum_set!(Ns::LEMMA),
 
-- 
2.43.0


From c952b9aecbe5ef0602826cf53c2e00113862eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:16 +0000
Subject: [PATCH 67/81] fix: return type of a lambda follows from the expected
 types of its parameters

---
 crates/lang/src/types/inference.rs               |  2 +-
 .../types/inference/ast_walker/lambda_expr.rs    | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference.rs b/crates/lang/src/types/inference.rs
index 73b9ce9..f850889 100644
--- a/crates/lang/src/types/inference.rs
+++ b/crates/lang/src/types/inference.rs
@@ -104,7 +104,7 @@ impl<'db> InferenceCtx<'db> {
     pub fn from_parent_ctx(ctx: &'db InferenceCtx) -> InferenceCtx<'db> {
         let mut new_ctx = Self::new(ctx.db, ctx.file_id, ctx.msl);
         new_ctx.ty_var_index.continue_from(&ctx.ty_var_index);
-        new_ctx.pat_types = ctx.pat_types.clone();
+        new_ctx.pat_types = ctx.resolve_map_vars_if_possible(ctx.pat_types.clone());
         new_ctx
     }
 
diff --git a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
index 8e76e8e..dfaaceb 100644
--- a/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
+++ b/crates/lang/src/types/inference/ast_walker/lambda_expr.rs
@@ -30,11 +30,25 @@ impl TypeAstWalker<'_, '_> {
         // defer inference
         self.ctx.lambda_exprs.push(lambda_expr.clone());
 
+        // return type can depend on the parameters, so make use of the expected types of those
+        let expected_ty = expected.ty(self.ctx);
+        if let Some(Ty::Callable(expected_callable_ty)) = &expected_ty {
+            for (param_ty, expected_param_ty) in param_tys.iter().zip(&expected_callable_ty.param_types)
+            {
+                if matches!(param_ty, Ty::Infer(_)) {
+                    let _ = self
+                        .ctx
+                        .combine_types(expected_param_ty.clone(), param_ty.clone());
+                }
+            }
+        }
+
         // // need to infer return type to proceed further
         let lambda_return_ty = if let Some(body_expr) = lambda_expr.body_expr() {
             let mut inner_ctx = InferenceCtx::from_parent_ctx(self.ctx);
             let return_ty = TypeAstWalker::new(&mut inner_ctx, Ty::Unknown)
                 .infer_expr(&body_expr, Expected::NoValue);
+            let return_ty = inner_ctx.resolve_ty_vars_if_possible(return_ty);
             let inner_ty_var_index = inner_ctx.ty_var_index;
             self.ctx.ty_var_index.continue_from(&inner_ty_var_index);
             return_ty
@@ -53,7 +67,7 @@ impl TypeAstWalker<'_, '_> {
             .insert(lambda_expr.clone(), lambda_call_ty.clone());
 
         let lambda_ty = Ty::Callable(lambda_call_ty);
-        if let Some(expected_ty) = expected.ty(self.ctx) {
+        if let Some(expected_ty) = expected_ty {
             // error if not TyCallable
             self.ctx
                 .coerce_types(lambda_expr.node_or_token(), lambda_ty.clone(), expected_ty);
-- 
2.43.0


From 05aa6322c58c009ad2e0412e60cb0b96c60923ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:50 +0000
Subject: [PATCH 68/81] fix: a let inside of a spec condition does not hide
 names of the post state

---
 crates/lang/src/nameres/blocks.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/blocks.rs b/crates/lang/src/nameres/blocks.rs
index ac83d35..6c0c741 100644
--- a/crates/lang/src/nameres/blocks.rs
+++ b/crates/lang/src/nameres/blocks.rs
@@ -32,7 +32,13 @@ pub fn get_entries_in_block<'db>(
     let let_stmts = let_stmts_with_bindings_tracked(db, block_loc);
 
     // make it lazy to not call it in non-msl case (most common)
-    let current_let_stmt = LazyCell::new(|| start_at.ancestor_or_self::<ast::LetStmt>());
+    // NOTE: there could be other let statements between, i.e. in `ensures { let a = 1; a } == 1;`
+    let current_let_stmt = LazyCell::new(|| {
+        start_at
+            .ancestors()
+            .find(|it| it.parent().as_ref() == Some(block_expr.value.syntax()))
+            .and_then(ast::LetStmt::cast)
+    });
     let bindings = let_stmts.iter().filter(|(let_stmt_info, _)| {
         if !is_msl {
             return let_stmt_info.strictly_before(start_at_offset);
-- 
2.43.0


From e1f746ea7b008e080ff2d9791b9e59fc132a6ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:50 +0000
Subject: [PATCH 69/81] fix: a struct literal in the spec of the struct
 resolves its shorthand field once

---
 crates/lang/src/nameres/path_resolution.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/path_resolution.rs b/crates/lang/src/nameres/path_resolution.rs
index 31f20d8..289c8f0 100644
--- a/crates/lang/src/nameres/path_resolution.rs
+++ b/crates/lang/src/nameres/path_resolution.rs
@@ -76,7 +76,12 @@ pub fn get_path_resolve_variants(
             let lit_field_entries = nameres::resolve_multi_no_inf(db, lit_field)
                 .unwrap_or_default()
                 .into_visible_entries();
-            entries.extend(lit_field_entries);
+            // it could be the same field in a spec of the struct
+            for lit_field_entry in lit_field_entries {
+                if !entries.contains(&lit_field_entry) {
+                    entries.push(lit_field_entry);
+                }
+            }
             entries
         }
 
-- 
2.43.0


From fc01ffcc82c9cf5838e435966d3818ad5a997a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:50 +0000
Subject: [PATCH 70/81] fix: variables with a dereferenced value have types in
 inline specs

---
 crates/lang/src/types/inference/ast_walker.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index 57bded5..11a7fcb 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -1151,8 +1151,9 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
             _ => {
                 self.ctx
                     .type_errors
-                    .push(TypeError::invalid_dereference(inner_expr, inner_ty));
-                return None;
+                    .push(TypeError::invalid_dereference(inner_expr, inner_ty.clone()));
+                // there are no references in specs, but function body is inferred for those too
+                return self.ctx.msl.then_some(inner_ty);
             }
         };
         let inner_ty_ref = inner_ty.into_ty_ref()?;
-- 
2.43.0


From 5e6f450c3b6cc29b94a97d68fe457123c4080213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 71/81] fix: renaming a field keeps the shorthand where its
 value is that field too

---
 crates/ide-db/src/rename.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 1bc7e8c..1b91437 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -4,6 +4,7 @@
 // This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
 // Modifications have been made to the original code.
 
+use crate::defs::NameRefClass;
 use crate::search::{FileReference, FileReferenceNode};
 use crate::source_change::SourceChange;
 use crate::text_edit::{TextEdit, TextEditBuilder};
@@ -57,7 +58,7 @@ pub fn rename_named_element<'db>(
     let usages = search::item_usages(sema, named_element.clone()).fetch_all();
 
     for (file_id, references) in usages.iter() {
-        let text_edit = source_edit_from_references(references, named_element.value.clone(), new_name);
+        let text_edit = source_edit_from_references(sema, references, named_element.value.clone(), new_name);
         source_change.insert_source_edit(file_id, text_edit);
     }
 
@@ -72,6 +73,7 @@ pub fn rename_named_element<'db>(
 }
 
 pub fn source_edit_from_references(
+    sema: &Semantics<'_, RootDatabase>,
     references: &[FileReference],
     named_element: ast::NamedElement,
     new_name: &str,
@@ -80,7 +82,7 @@ pub fn source_edit_from_references(
     for &FileReference { range, ref name, .. } in references {
         let has_emitted_edit = match name {
             FileReferenceNode::NameRef(name_ref) => {
-                source_edit_from_name_ref(&mut edit, name_ref, &new_name, &named_element)
+                source_edit_from_name_ref(sema, &mut edit, name_ref, &new_name, &named_element)
             }
             FileReferenceNode::Name(name) => source_edit_from_name(&mut edit, name, &new_name),
         };
@@ -111,6 +113,7 @@ fn source_edit_from_name(
 }
 
 fn source_edit_from_name_ref(
+    sema: &Semantics<'_, RootDatabase>,
     edit: &mut TextEditBuilder,
     name_ref: &ast::NameRef,
     new_name: &dyn fmt::Display,
@@ -137,7 +140,13 @@ fn source_edit_from_name_ref(
                 }
             }
             ast::StructLitFieldKind::Shorthand { .. } => {
+                // in a spec of the struct, both the name and the value can be the same field
+                let has_own_value = matches!(
+                    NameRefClass::classify(sema, name_ref),
+                    Some(NameRefClass::FieldShorthand { .. })
+                );
                 match named_element {
+                    _ if !has_own_value => (),
                     ast::NamedElement::NamedField(_) => {
                         // Foo { field } -> Foo { new_name: field }
                         //       ^ insert `new_name: `
-- 
2.43.0


From 1fdc110892678eaccebe9faf417ba2914ec6a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:27 +0000
Subject: [PATCH 72/81] fix: shorthand fields can take their value from a field
 in a spec of its struct

---
 crates/ide-db/src/defs.rs                     |  7 +++---
 crates/ide-db/src/rename.rs                   | 23 ++++++++-----------
 crates/ide-db/src/search.rs                   |  4 ++--
 crates/ide/src/rename.rs                      |  4 +---
 crates/lang/src/nameres/scope.rs              | 19 ++++++++-------
 crates/lang/src/types/inference/ast_walker.rs |  6 ++---
 6 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/crates/ide-db/src/defs.rs b/crates/ide-db/src/defs.rs
index dffba78..65bdecf 100644
--- a/crates/ide-db/src/defs.rs
+++ b/crates/ide-db/src/defs.rs
@@ -158,7 +158,8 @@ impl NameClass {
 pub enum NameRefClass {
     Definition(Definition),
     FieldShorthand {
-        ident_pat: InFile<ast::IdentPat>,
+        /// variable, or a field in a spec of its struct
+        value: InFile<ast::NamedElement>,
         named_field: InFile<ast::NamedField>,
     },
 }
@@ -183,10 +184,10 @@ impl NameRefClass {
                 }
                 ast::StructLitFieldKind::Shorthand { struct_field: _, path } => {
                     let entries = sema.resolve(path);
-                    if let Some((named_field, ident_pat)) =
+                    if let Some((named_field, value)) =
                         into_field_shorthand_items(sema.db, entries.clone())
                     {
-                        return Some(NameRefClass::FieldShorthand { ident_pat, named_field });
+                        return Some(NameRefClass::FieldShorthand { value, named_field });
                     }
                     // there's no such field, or no such variable
                     let named_item = entries
diff --git a/crates/ide-db/src/rename.rs b/crates/ide-db/src/rename.rs
index 1b91437..b51c872 100644
--- a/crates/ide-db/src/rename.rs
+++ b/crates/ide-db/src/rename.rs
@@ -58,7 +58,7 @@ pub fn rename_named_element<'db>(
     let usages = search::item_usages(sema, named_element.clone()).fetch_all();
 
     for (file_id, references) in usages.iter() {
-        let text_edit = source_edit_from_references(sema, references, named_element.value.clone(), new_name);
+        let text_edit = source_edit_from_references(sema, references, &named_element, new_name);
         source_change.insert_source_edit(file_id, text_edit);
     }
 
@@ -75,14 +75,14 @@ pub fn rename_named_element<'db>(
 pub fn source_edit_from_references(
     sema: &Semantics<'_, RootDatabase>,
     references: &[FileReference],
-    named_element: ast::NamedElement,
+    named_element: &InFile<ast::NamedElement>,
     new_name: &str,
 ) -> TextEdit {
     let mut edit = TextEdit::builder();
     for &FileReference { range, ref name, .. } in references {
         let has_emitted_edit = match name {
             FileReferenceNode::NameRef(name_ref) => {
-                source_edit_from_name_ref(sema, &mut edit, name_ref, &new_name, &named_element)
+                source_edit_from_name_ref(sema, &mut edit, name_ref, &new_name, named_element)
             }
             FileReferenceNode::Name(name) => source_edit_from_name(&mut edit, name, &new_name),
         };
@@ -117,7 +117,7 @@ fn source_edit_from_name_ref(
     edit: &mut TextEditBuilder,
     name_ref: &ast::NameRef,
     new_name: &dyn fmt::Display,
-    named_element: &ast::NamedElement,
+    named_element: &InFile<ast::NamedElement>,
 ) -> bool {
     if let Some(struct_lit_field_kind) = name_ref.try_into_struct_lit_field() {
         match struct_lit_field_kind {
@@ -140,28 +140,23 @@ fn source_edit_from_name_ref(
                 }
             }
             ast::StructLitFieldKind::Shorthand { .. } => {
-                // in a spec of the struct, both the name and the value can be the same field
-                let has_own_value = matches!(
-                    NameRefClass::classify(sema, name_ref),
-                    Some(NameRefClass::FieldShorthand { .. })
-                );
-                match named_element {
-                    _ if !has_own_value => (),
-                    ast::NamedElement::NamedField(_) => {
+                if let Some(NameRefClass::FieldShorthand { value, named_field }) =
+                    NameRefClass::classify(sema, name_ref)
+                {
+                    if *named_element == named_field.map_into() {
                         // Foo { field } -> Foo { new_name: field }
                         //       ^ insert `new_name: `
                         let offset = name_ref.syntax().text_range().start();
                         edit.insert(offset, format!("{new_name}: "));
                         return true;
                     }
-                    ast::NamedElement::IdentPat(_) => {
+                    if *named_element == value {
                         // Foo { field } -> Foo { field: new_name }
                         //            ^ insert `: new_name`
                         let offset = name_ref.syntax().text_range().end();
                         edit.insert(offset, format!(": {new_name}"));
                         return true;
                     }
-                    _ => (),
                 }
             }
         }
diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index ecbab0c..5972110 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -459,8 +459,8 @@ impl<'a> FindUsages<'a> {
                 };
                 sink(file_id, reference)
             }
-            Some(NameRefClass::FieldShorthand { ident_pat, named_field })
-                if self.named_item == ident_pat.clone().map_into()
+            Some(NameRefClass::FieldShorthand { value, named_field })
+                if self.named_item == value
                     || self.named_item == named_field.clone().map_into() =>
             {
                 let FileRange { file_id, range } = self.sema.file_range(name_ref.syntax());
diff --git a/crates/ide/src/rename.rs b/crates/ide/src/rename.rs
index 77b102c..34ca952 100644
--- a/crates/ide/src/rename.rs
+++ b/crates/ide/src/rename.rs
@@ -92,9 +92,7 @@ fn find_definition(
                 NameRefClass::Definition(Definition::BuiltinType) => {
                     bail!("Cannot rename built-in type.");
                 }
-                NameRefClass::FieldShorthand { ident_pat, named_field: _ } => {
-                    ident_pat.map(|it| it.into())
-                }
+                NameRefClass::FieldShorthand { value, named_field: _ } => value,
             };
 
             // if the name differs from the definitions name it has to be an alias
diff --git a/crates/lang/src/nameres/scope.rs b/crates/lang/src/nameres/scope.rs
index 9d5b3a7..565d778 100644
--- a/crates/lang/src/nameres/scope.rs
+++ b/crates/lang/src/nameres/scope.rs
@@ -193,15 +193,18 @@ impl ScopeEntryListExt for Vec<ScopeEntry> {
 pub fn into_field_shorthand_items(
     db: &dyn SourceDatabase,
     mut entries: Vec<ScopeEntry>,
-) -> Option<(InFile<ast::NamedField>, InFile<ast::IdentPat>)> {
+) -> Option<(InFile<ast::NamedField>, InFile<ast::NamedElement>)> {
     if entries.len() != 2 {
         return None;
     }
-    let named_field = entries
-        .remove(entries.iter().position(|it| it.kind() == NAMED_FIELD)?)
-        .cast_into::<ast::NamedField>(db)?;
-    let ident_pat = entries
-        .remove(entries.iter().position(|it| it.kind() == IDENT_PAT)?)
-        .cast_into::<ast::IdentPat>(db)?;
-    Some((named_field, ident_pat))
+    // value comes first, it can be a field too in a spec of its struct
+    let named_field = entries.pop()?.cast_into::<ast::NamedField>(db)?;
+    let value = entries.pop()?.cast_into::<ast::NamedElement>(db)?;
+    match value.kind() {
+        IDENT_PAT => (),
+        // otherwise, the field is just declared twice
+        NAMED_FIELD if value.value.syntax().parent() != named_field.value.syntax().parent() => (),
+        _ => return None,
+    }
+    Some((named_field, value))
 }
diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index 11a7fcb..adad802 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -531,9 +531,9 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         let expected_ty = expected.ty(self.ctx);
         let named_elements = self.ctx.resolve_path_cached_multi(path_expr.path(), expected_ty);
         let named_element = if named_elements.len() == 2 {
-            // if it's field and ident pat, fetch type of ident_pat
-            let (_, ident_pat) = into_field_shorthand_items(self.ctx.db, named_elements.clone())?;
-            ident_pat.map_into()
+            // if it's field and its value, fetch type of the value
+            let (_, value) = into_field_shorthand_items(self.ctx.db, named_elements.clone())?;
+            value
         } else {
             named_elements
                 .single_or_none()?
-- 
2.43.0


From 1800c382305b4f3b3072f6017cf3f36df2f672dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:27 +0000
Subject: [PATCH 73/81] fix: '<' after a blank compares, it does not start type
 arguments

---
 crates/syntax/src/parse/grammar/type_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/type_args.rs b/crates/syntax/src/parse/grammar/type_args.rs
index a4e00da..5fdc7f6 100644
--- a/crates/syntax/src/parse/grammar/type_args.rs
+++ b/crates/syntax/src/parse/grammar/type_args.rs
@@ -15,7 +15,7 @@ pub(crate) fn opt_path_type_arg_list(p: &mut Parser, mode: PathMode) {
     match mode {
         PathMode::Type => opt_type_arg_list_for_type(p),
         PathMode::Expr => {
-            opt_type_arg_list_for_expr(p, false);
+            opt_type_arg_list_for_expr(p, true);
         }
     }
 }
-- 
2.43.0


From ff649a04942e094d809ca1fd4c3e409e545c8bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:12 +0000
Subject: [PATCH 74/81] fix: specs of test-only code use the imports as
 test-only code

---
 crates/lang/src/item_scope.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/lang/src/item_scope.rs b/crates/lang/src/item_scope.rs
index 5576cd8..921b618 100644
--- a/crates/lang/src/item_scope.rs
+++ b/crates/lang/src/item_scope.rs
@@ -9,7 +9,7 @@ use base_db::{SourceDatabase, source_db};
 use serde::{Deserialize, Serialize};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Display, Formatter};
-use syntax::{AstNode, NodeOrToken, SyntaxNode, SyntaxNodePtr, WalkEvent, ast};
+use syntax::{AstNode, NodeOrToken, SyntaxKind, SyntaxNode, SyntaxNodePtr, WalkEvent, ast};
 
 #[derive(Debug, Eq, PartialEq, Copy, Clone, Hash, Serialize, Deserialize)]
 pub enum ItemScope {
@@ -69,11 +69,14 @@ pub(crate) fn item_scopes(
             WalkEvent::Enter(NodeOrToken::Node(node)) => {
                 let node_ptr = SyntaxNodePtr::new(&node);
                 let explicit_item_scope = node_item_scope(node.clone());
+                let last_scope = scope_nodes.last().map(|(_, it)| *it).unwrap_or(ItemScope::Main);
                 match explicit_item_scope {
                     ItemScope::Main => {
                         // gets its scope from the last scoped node
-                        let last_scope =
-                            scope_nodes.last().map(|(_, it)| *it).unwrap_or(ItemScope::Main);
+                        map.insert(node_ptr, last_scope);
+                    }
+                    // specs of the #[test_only] code are there only in tests
+                    ItemScope::Verify if last_scope.is_test() && is_spec(node.kind()) => {
                         map.insert(node_ptr, last_scope);
                     }
                     ItemScope::Test | ItemScope::Verify => {
@@ -96,12 +99,16 @@ pub(crate) fn item_scopes(
     map
 }
 
-fn node_item_scope(node: SyntaxNode) -> ItemScope {
+fn is_spec(kind: SyntaxKind) -> bool {
     use syntax::SyntaxKind::*;
-    if matches!(
-        node.kind(),
+    matches!(
+        kind,
         SCHEMA | SPEC_FUN | SPEC_INLINE_FUN | ITEM_SPEC | MODULE_SPEC | SPEC_BLOCK_EXPR | LEMMA
-    ) {
+    )
+}
+
+fn node_item_scope(node: SyntaxNode) -> ItemScope {
+    if is_spec(node.kind()) {
         return ItemScope::Verify;
     }
     if let Some(has_attrs) = ast::AnyHasAttrs::cast(node) {
-- 
2.43.0


From 8f6017afe6b7e00c56a0513503266d16badf6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 75/81] fix: abilities of a call's value are checked where the
 call is an argument

---
 crates/lang/src/types/inference/ast_walker.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index adad802..af268b8 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -16,6 +16,7 @@ use crate::nameres::scope::{ScopeEntryExt, ScopeEntryListExt, VecExt, into_field
 use crate::node_ext::item_spec::ItemSpecExt;
 use crate::node_ext::{any_field_ext, item_spec};
 use crate::types::expectation::Expected;
+use crate::types::inference::combine_types::CombineError;
 use crate::types::inference::{InferenceCtx, TypeError};
 use crate::types::patterns::{BindingMode, anonymous_pat_ty_var};
 use crate::types::substitution::ApplySubstitution;
@@ -1412,6 +1413,17 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
         };
         let declared_ret_ty = self.ctx.resolve_ty_vars_if_possible(ty_callable.ret_type_ty());
 
+        // missing abilities are reported later for the whole expr, types need to stay unbound until then
+        let is_missing_abilities = self.ctx.freeze(|ctx| {
+            matches!(
+                ctx.combine_types(expected_ret_ty.clone(), declared_ret_ty.clone()),
+                Err(CombineError::AbilityMismatch { .. })
+            )
+        });
+        if is_missing_abilities {
+            return vec![];
+        }
+
         // unify return types and check if they are compatible
         let combined = self.ctx.combine_types(expected_ret_ty, declared_ret_ty);
         match combined {
-- 
2.43.0


From 8c15358f087ccb3125afd0f7a5dfc3de7cfcdd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:20 +0000
Subject: [PATCH 76/81] fix: vectors do not have the key ability of their
 elements

---
 crates/lang/src/types/abilities.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/abilities.rs b/crates/lang/src/types/abilities.rs
index d201dd4..7724d3d 100644
--- a/crates/lang/src/types/abilities.rs
+++ b/crates/lang/src/types/abilities.rs
@@ -75,7 +75,14 @@ impl Ty {
                 Some(abilities)
             }
             Ty::TypeParam(ty_type_param) => ty_type_param.abilities(db),
-            Ty::Seq(TySequence::Vector(item_ty)) => item_ty.abilities(db),
+            Ty::Seq(TySequence::Vector(item_ty)) => {
+                let mut abilities = item_ty.abilities(db)?;
+                if !item_ty.is_unknown() {
+                    // vectors are never top-level resources
+                    abilities.retain(|it| *it != Ability::Key);
+                }
+                Some(abilities)
+            }
             Ty::Infer(TyInfer::Var(_)) => Some(Ability::all()),
             Ty::Reference(_) => Some(vec![Ability::Drop, Ability::Copy]),
             // todo: lambda abilities
-- 
2.43.0


From 377956c72798f197cd7ec3e0d761812ce4897b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:00 +0000
Subject: [PATCH 77/81] fix: the expression a loop or quantified variable
 ranges over does not see the variable

---
 crates/lang/src/nameres/name_resolution.rs | 43 +++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/name_resolution.rs b/crates/lang/src/nameres/name_resolution.rs
index b227c61..e3cf957 100644
--- a/crates/lang/src/nameres/name_resolution.rs
+++ b/crates/lang/src/nameres/name_resolution.rs
@@ -19,7 +19,7 @@ use rustc_hash::FxHashSet;
 use syntax::SyntaxKind;
 use syntax::ast::node_ext::syntax_node::SyntaxNodeExt;
 use syntax::files::InFile;
-use syntax::{AstNode, SyntaxNode, ast};
+use syntax::{AstNode, SyntaxNode, TextSize, ast};
 
 pub struct WalkScopesCtx {
     pub allowed_ns: NsSet,
@@ -60,6 +60,7 @@ pub fn get_entries_from_walking_scopes(
             .map(|block_expr| get_entries_in_block(db, block_expr, start_at))
             .unwrap_or_default();
         let resolve_scope_entries = get_entries_in_scope(db, &resolve_scope);
+        let ranged_over_here = binding_ranged_over_at(&resolve_scope.value, start_at_offset);
 
         let scope_entries_len = block_entries.len() + resolve_scope_entries.len();
         if scope_entries_len == 0 {
@@ -80,6 +81,11 @@ pub fn get_entries_from_walking_scopes(
                 continue;
             }
 
+            // the variable and the ones after it are not visible in the expression it ranges over
+            if ranged_over_here.is_some_and(|it| it <= scope_entry.node_loc.node_offset()) {
+                continue;
+            }
+
             let entry_ns = scope_entry.ns;
             if !walk_ctx.allowed_ns.contains(entry_ns) {
                 continue;
@@ -99,6 +105,41 @@ pub fn get_entries_from_walking_scopes(
     entries
 }
 
+/// If `offset` is in the expression that some variable of the scope (`for` or quantifier) ranges over,
+/// returns the start of that variable.
+fn binding_ranged_over_at(scope: &SyntaxNode, offset: TextSize) -> Option<TextSize> {
+    let bindings = match scope.kind() {
+        SyntaxKind::FOR_EXPR => {
+            let for_condition = scope.cast::<ast::ForExpr>()?.for_condition()?;
+            vec![(for_condition.ident_pat(), for_condition.expr())]
+        }
+        SyntaxKind::FORALL_EXPR
+        | SyntaxKind::EXISTS_EXPR
+        | SyntaxKind::CHOOSE_EXPR
+        | SyntaxKind::FORALL_APPLY_LEMMA => {
+            let quant_bindings = match scope.kind() {
+                SyntaxKind::CHOOSE_EXPR => {
+                    scope.cast::<ast::ChooseExpr>()?.quant_binding().into_iter().collect()
+                }
+                SyntaxKind::FORALL_APPLY_LEMMA => scope.cast::<ast::ForallApplyLemma>()?.quant_bindings(),
+                _ => scope.cast::<ast::QuantExpr>()?.quant_bindings(),
+            };
+            quant_bindings
+                .into_iter()
+                .map(|it| (it.ident_pat(), it.expr()))
+                .collect()
+        }
+        _ => return None,
+    };
+    bindings.into_iter().find_map(|(ident_pat, range_expr)| {
+        let range_expr = range_expr?;
+        if !range_expr.syntax().text_range().contains(offset) {
+            return None;
+        }
+        Some(ident_pat?.syntax().text_range().start())
+    })
+}
+
 pub fn get_modules_as_entries(
     db: &dyn SourceDatabase,
     package_id: PackageId,
-- 
2.43.0


From e672662d3879a9b45ec51d64e2423bf44a65e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:00 +0000
Subject: [PATCH 78/81] fix: type parameters of a struct are visible in its
 spec

---
 crates/lang/src/nameres/scope_entries_owner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lang/src/nameres/scope_entries_owner.rs b/crates/lang/src/nameres/scope_entries_owner.rs
index 4fe7057..496f3a9 100644
--- a/crates/lang/src/nameres/scope_entries_owner.rs
+++ b/crates/lang/src/nameres/scope_entries_owner.rs
@@ -84,6 +84,8 @@ pub fn get_entries_from_owner(db: &dyn SourceDatabase, scope: &InFile<SyntaxNode
                         entries.extend(fun.params_as_bindings().to_entries(fid));
                     }
                     ast::ItemSpecItem::StructOrEnum(struct_or_enum) => {
+                        let generic_element = ast::GenericElement::from(struct_or_enum.clone());
+                        entries.extend(generic_element.type_params().to_entries(fid));
                         entries.extend(struct_or_enum.named_fields().to_entries(fid));
                     }
                 }
-- 
2.43.0


From 662c417071df8fc8841eb16c32d9a5db80f4fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:00 +0000
Subject: [PATCH 79/81] fix: references to the parameters of a lemma include
 those in its proof

---
 crates/ide-db/src/search.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ide-db/src/search.rs b/crates/ide-db/src/search.rs
index 5972110..c9221d5 100644
--- a/crates/ide-db/src/search.rs
+++ b/crates/ide-db/src/search.rs
@@ -137,6 +137,9 @@ fn ident_pat_search_scope(db: &RootDatabase, ident_pat: InFile<ast::IdentPat>) -
             if let Some(block_expr) = fun.block_expr() {
                 search_scope.add_range(file_id, block_expr.syntax().text_range());
             }
+            if let Some(proof) = fun.syntax().children().find_map(ast::Proof::cast) {
+                search_scope.add_range(file_id, proof.syntax().text_range());
+            }
             for item_spec_loc in item_specs::get_item_specs_for_fun(db, fun.in_file(file_id).loc()) {
                 search_scope.add_file_range(item_spec_loc.file_range());
             }
-- 
2.43.0


From 27cba25a6cc30ee1555750d86e0ecd0043952a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:52 +0000
Subject: [PATCH 80/81] fix: nothing is expected of the right operand if the
 left one is already wrong

---
 crates/lang/src/types/inference/ast_walker.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/inference/ast_walker.rs b/crates/lang/src/types/inference/ast_walker.rs
index af268b8..4412f16 100644
--- a/crates/lang/src/types/inference/ast_walker.rs
+++ b/crates/lang/src/types/inference/ast_walker.rs
@@ -1251,7 +1251,13 @@ impl<'a, 'db> TypeAstWalker<'a, 'db> {
             is_error = true;
         }
         if let Some(rhs) = rhs {
-            let right_ty = self.infer_expr(&rhs, Expected::ExpectType(left_ty.clone()));
+            // nothing is expected of the right operand if the left one is already wrong
+            let rhs_expected = if is_error {
+                Expected::NoValue
+            } else {
+                Expected::ExpectType(left_ty.clone())
+            };
+            let right_ty = self.infer_expr(&rhs, rhs_expected);
             if !self
                 .ctx
                 .resolve_ty_vars_if_possible(right_ty.clone())
-- 
2.43.0


From d72db6d560fbc6e9a9592a5c340bb4d3efcccef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:52 +0000
Subject: [PATCH 81/81] fix: type arguments of enums and of tuple struct
 constructors are counted, too

---
 .../ide-diagnostics/src/handlers/missing_type_arguments.rs   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ide-diagnostics/src/handlers/missing_type_arguments.rs b/crates/ide-diagnostics/src/handlers/missing_type_arguments.rs
index 6e95d95..7f6ebdc 100644
--- a/crates/ide-diagnostics/src/handlers/missing_type_arguments.rs
+++ b/crates/ide-diagnostics/src/handlers/missing_type_arguments.rs
@@ -57,7 +57,7 @@ pub(crate) fn missing_type_arguments(
     let item_label = item.fq_name(ctx.sema.db)?.fq_identifier_text();
 
     match (item.kind(), parent.kind()) {
-        (STRUCT, PATH_TYPE) => {
+        (STRUCT | ENUM, PATH_TYPE) => {
             if parent.has_ancestor_strict::<ast::Acquires>() {
                 return None;
             }
@@ -74,7 +74,8 @@ pub(crate) fn missing_type_arguments(
                 }
             }
         }
-        (STRUCT, STRUCT_LIT) => {
+        // `ENUM` is a qualifier of its variant here
+        (STRUCT, STRUCT_LIT | PATH_EXPR | STRUCT_PAT | TUPLE_STRUCT_PAT) | (ENUM, PATH) => {
             if let Some(type_arg_list) = type_arg_list {
                 // if any type param is passed, inference is disabled, so check fully
                 check_type_arg_list(acc, item_label, expected_count, actual_count, type_arg_list);
-- 
2.43.0

