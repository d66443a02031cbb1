From 515b1c56d67a425b2245fab9d0e2d75797be7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 01/11] fix: return the cached document when another thread
 loads it first

---
 plotline/src/document/lazy.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/plotline/src/document/lazy.rs b/plotline/src/document/lazy.rs
index e60a031..ba40751 100644
--- a/plotline/src/document/lazy.rs
+++ b/plotline/src/document/lazy.rs
@@ -60,16 +60,10 @@ where
             return doc;
         }
 
-        if self
-            .document
-            .set(self.document_repo.find_by_id(&self.document_id)?)
-            .is_err()
-        {
-            tracing::error!(id = format!("{:?}", self.document_id), "document not found");
-            return None;
-        }
-
-        self.document.get()
+        // Another thread may have cached the document in the meantime, in which case that one
+        // prevails.
+        let document = self.document_repo.find_by_id(&self.document_id)?;
+        Some(self.document.get_or_init(|| document))
     }
 }
 
-- 
2.43.0


From 28dd386bb65ce762888bf84cb218c682c0f25a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 02/11] fix: insert every interval of the joined trees, instead
 of recursing endlessly

---
 plugins/interval/src/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1b430e4..1618eec 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -222,6 +222,7 @@ where
 
             let center = intervals.len() / 2;
             let left = intervals.drain(0..center).collect();
+            let root = root.insert(intervals.remove(0));
             immersion(immersion(root, left), intervals)
         }
 
-- 
2.43.0


From 17d403d94c6ff5edf54ca0602a593df15f24a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 03/11] fix: look for intervals with the same lower bound where
 they are inserted

---
 plugins/interval/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1618eec..c1eb83f 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -89,7 +89,7 @@ where
 
         if interval.lo() < self.value.lo() {
             self.left = self.left.map(|left| left.delete(interval)).flatten();
-        } else if interval.lo() > self.value.lo() {
+        } else {
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
-- 
2.43.0


From 7f85e028ee7ab4fa4b6bfd58333e34c297379353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 04/11] fix: keep the subtrees' maximum up to date when an
 interval is deleted

---
 plugins/interval/src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index c1eb83f..aa18e5b 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -93,6 +93,11 @@ where
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
+        self.max = Some(self.value.hi())
+            .max(self.left.as_ref().map(|left| left.max))
+            .max(self.right.as_ref().map(|right| right.max))
+            .expect("max with Some should never be None");
+
         Some(self)
     }
 }
-- 
2.43.0


From facd34b5516277510513f9833c07af62731253be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 05/11] fix: fail the save whose target became inaccessible,
 instead of not saving it

---
 plotline/src/schema/ops/save.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plotline/src/schema/ops/save.rs b/plotline/src/schema/ops/save.rs
index 426f052..6f3186e 100644
--- a/plotline/src/schema/ops/save.rs
+++ b/plotline/src/schema/ops/save.rs
@@ -4,7 +4,7 @@ use crate::{
     deref::With,
     id::Identify,
     prelude::Transaction,
-    schema::{trigger::Trigger, Result},
+    schema::{trigger::Trigger, Error, Result},
 };
 
 /// Schedules a trigger before a save is performed.
@@ -28,7 +28,9 @@ impl<T> Save<T> {
         tx.with(|ctx| {
             let ctx = ctx.with_target(self.node);
             ctx.triggers().select(BeforeSave).execute(&ctx)?;
-            ctx.target().with(|node| ctx.save(node.clone()));
+            ctx.target()
+                .with(|node| ctx.save(node.clone()))
+                .ok_or_else(|| Error::custom("target is not accessible"))?;
             ctx.triggers().select(AfterSave).execute(&ctx)?;
 
             Ok(())
-- 
2.43.0


From daa02590349d8316beb728cc9ef107c110f9093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 06/11] fix: find documents whose id has a dot in its last
 component

---
 plotline-cli/src/repository.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index be8dd8e..a54e776 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -21,7 +21,9 @@ impl DocumentRepository for LocalDocumentRepository {
     type Document = Document;
 
     fn find_by_id(&self, id: &<Self::Document as Identify>::Id) -> Option<Self::Document> {
-        let path = self.context.join(id).with_extension(&self.extension);
+        let mut path = self.context.join(id).into_os_string();
+        path.push(format!(".{}", self.extension));
+        let path = PathBuf::from(path);
 
         fs::read(&path)
             .inspect_err(|err| {
-- 
2.43.0


From c9744dbd7ceccacc65cc82aec780b77fc8bfb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 07/11] fix: match the extension of the documents literally

---
 plotline-cli/src/repository.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index a54e776..8c098f9 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -56,7 +56,7 @@ impl LocalDocumentRepository {
                 entry.ok()
             })
             .filter({
-                let regex = Regex::new(&format!("\\.{}$", self.extension))
+                let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-- 
2.43.0


From 77d957319185d0d143378813710a925e0a6ec939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 08/11] fix: list no directory as a document

---
 plotline-cli/src/repository.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 8c098f9..2140358 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -60,7 +60,8 @@ impl LocalDocumentRepository {
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-                    let matches = regex.is_match(&entry.file_name().to_string_lossy());
+                    let matches = regex.is_match(&entry.file_name().to_string_lossy())
+                        && entry.path().is_file();
                     tracing::debug!(path = entry.path().to_string_lossy().to_string(), matches);
 
                     matches
-- 
2.43.0


From 637f9b35d0db1835ca2c34931985f70e417bcb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 09/11] fix: remove the whole extension from the ids of the
 listed documents

---
 plotline-cli/src/repository.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 2140358..3ae4ec7 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -68,9 +68,11 @@ impl LocalDocumentRepository {
                 }
             })
             .filter_map(move |entry| {
-                let path = entry
-                    .path()
-                    .with_extension("")
+                // The extension may have several components, all of which have to be removed.
+                let path = self
+                    .extension
+                    .split('.')
+                    .fold(entry.path().to_owned(), |path, _| path.with_extension(""))
                     .strip_prefix(&self.context)
                     .map(ToOwned::to_owned);
 
-- 
2.43.0


From 9e44fdb6fdaef344eaec8dfec734671590fbee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:49 +0000
Subject: [PATCH 10/11] fix: commit a transaction whose context is never
 dropped

---
 plotline/src/schema/transaction.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/plotline/src/schema/transaction.rs b/plotline/src/schema/transaction.rs
index be58ad7..a68210b 100644
--- a/plotline/src/schema/transaction.rs
+++ b/plotline/src/schema/transaction.rs
@@ -28,7 +28,7 @@ where
 {
     schema: &'a Schema<T>,
     guard: OnceLock<SchemaWriteGuard<'a, T>>,
-    operations: Arc<RwLock<Vec<Operation<T>>>>,
+    operations: RwLock<Vec<Operation<T>>>,
 }
 
 impl<'a, T> From<&'a Schema<T>> for Background<'a, T>
@@ -72,12 +72,7 @@ where
             return;
         };
 
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
+        let ops = match self.operations.into_inner() {
             Ok(ops) => ops,
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
@@ -102,7 +97,7 @@ where
     T: Identify,
 {
     context: &'a Context<'a, T>,
-    operations: Arc<RwLock<Vec<Operation<T>>>>,
+    operations: RwLock<Vec<Operation<T>>>,
 }
 
 impl<'a, T> From<&'a Context<'a, T>> for Foreground<'a, T>
@@ -138,12 +133,7 @@ where
     T: Identify,
 {
     fn commit(self) {
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
+        let ops = match self.operations.into_inner() {
             Ok(ops) => ops,
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
@@ -356,7 +346,7 @@ where
     graph: &'a Graph<T>,
     schema: &'a Schema<T>,
     parent: Option<&'a Context<'a, T>>,
-    operations: Arc<RwLock<Vec<Operation<T>>>>,
+    operations: &'a RwLock<Vec<Operation<T>>>,
     target: Target<T>,
 }
 
@@ -408,7 +398,7 @@ where
         Context {
             schema: tx.schema,
             graph: tx.guard.get_or_init(|| tx.schema.write()),
-            operations: tx.operations.clone(),
+            operations: &tx.operations,
             target: Default::default(),
             parent: Default::default(),
         }
@@ -423,7 +413,7 @@ where
         Context {
             graph: tx.context.graph,
             schema: tx.context.schema,
-            operations: tx.operations.clone(),
+            operations: &tx.operations,
             target: Default::default(),
             parent: Some(tx.context),
         }
-- 
2.43.0


From 1f857e9eb20ce668fcb7e003ba39add83d489d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 11/11] fix: find documents under the id they are asked for

---
 plotline-cli/src/repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 3ae4ec7..c65d904 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -35,7 +35,10 @@ impl DocumentRepository for LocalDocumentRepository {
                     "finding document by id"
                 )
             })
-            .map(|bytes| Document { path, bytes })
+            .map(|bytes| Document {
+                path: id.clone(),
+                bytes,
+            })
             .ok()
     }
 }
-- 
2.43.0

