From 11675fa74e80621113d04f753b54dd2795292ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 01/38] fix: detect missing inner types when finalizing a type
 system

The completeness check looked up the id of the referencing type, which is
always present, instead of the id of the referenced one.
---
 src/typesys/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 52a2fd2..e5b6cce 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -124,7 +124,7 @@ impl SystemBuilder {
 
         for (sem_id, info) in &self.types {
             for (inner_id, _) in info.ty.type_refs() {
-                if !self.types.contains_key(sem_id) {
+                if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
                         known: *sem_id,
-- 
2.43.0


From 759e6a45b1d3ad4d7dbedd2dc146c7ca4f4b516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 02/38] fix: do not overflow the position when iterating types
 with 255 fields

---
 src/ast/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/iter.rs b/src/ast/iter.rs
index 127b52f..e424f26 100644
--- a/src/ast/iter.rs
+++ b/src/ast/iter.rs
@@ -61,7 +61,7 @@ impl<Ref: TypeRef> Iterator for IntoIter<Ref> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let ret = self.ty.ty_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         ret.cloned()
     }
 }
@@ -100,7 +100,7 @@ impl<'ty, Ref: TypeRef + 'ty> Iterator for Iter<'ty, Ref> {
     fn next(&mut self) -> Option<Self::Item> {
         let r = self.ty.ty_at(self.pos);
         let item = self.ty.case_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         r.map(|r| (r, item))
     }
 }
-- 
2.43.0


From a3f53cbc29e69fd625aa875c64ded17a50c2f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 03/38] fix: follow all steps of a type path in their order

The path was walked from its last step, and each step was applied to the root
type. Fields of tuples were not addressable.
---
 src/ast/path.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/path.rs b/src/ast/path.rs
index 3195b5c..2345e6b 100644
--- a/src/ast/path.rs
+++ b/src/ast/path.rs
@@ -106,11 +106,11 @@ impl<'ty, Ref: TypeRef> PathError<'ty, Ref> {
 impl<Ref: TypeRef> Ty<Ref> {
     pub fn at_path(&self, path: &Path) -> Result<&Self, PathError<Ref>> {
         let mut ty = self;
-        let mut path = path.clone();
         let mut path_so_far = Path::new();
-        while let Some(step) = path.pop() {
-            let res = match (self, &step) {
+        for step in path {
+            let res = match (ty, step) {
                 (Ty::Struct(fields), Step::NamedField(name)) => fields.ty_by_name(name),
+                (Ty::Tuple(fields), Step::UnnamedField(pos)) => fields.ty_by_pos(*pos),
                 (Ty::Union(variants), Step::Variant(name)) => variants.ty_by_name(name),
                 (Ty::Struct(fields), Step::UnnamedField(tag)) => fields.ty_by_pos(*tag),
                 (Ty::Union(variants), Step::UnnamedField(tag)) => variants.ty_by_tag(*tag),
@@ -121,7 +121,7 @@ impl<Ref: TypeRef> Ty<Ref> {
                 (Ty::Map(_, ty, _), Step::MapValue) => Some(ty),
                 (_, _) => None,
             };
-            path_so_far.push(step).expect("confinement collection guarantees");
+            path_so_far.push(step.clone()).expect("confinement collection guarantees");
             ty = res
                 .and_then(|r| r.as_ty())
                 .ok_or_else(|| PathError::new(self, path_so_far.clone()))?
-- 
2.43.0


From e7cbd03f2866defc2302b3ba8c7dbeb00b6aa89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 04/38] fix: follow all steps of a value path

All steps except the first one were ignored.
---
 src/value/path.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/value/path.rs b/src/value/path.rs
index 8ee3ea3..6553e82 100644
--- a/src/value/path.rs
+++ b/src/value/path.rs
@@ -165,8 +165,8 @@ impl StrictVal {
         path: impl IntoIterator<Item = &'p Step>,
     ) -> Result<&StrictVal, PathError> {
         let mut iter = path.into_iter();
-        match (self, iter.next()) {
-            (val, None) => Ok(val),
+        let next = match (self, iter.next()) {
+            (val, None) => return Ok(val),
             (StrictVal::Tuple(fields), Some(Step::UnnamedField(no)))
                 if *no as usize >= fields.len() =>
             {
@@ -191,6 +191,7 @@ impl StrictVal {
                 .ok_or(PathError::UnknownKey(idx.clone())),
 
             (_, Some(step)) => Err(PathError::TypeMismatch(step.clone(), self.clone())),
-        }
+        }?;
+        next.at_path(iter)
     }
 }
-- 
2.43.0


From f1aa243526ae8f2e3248b31253d1c6f7bae2d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 05/38] fix: report the position of tuple fields when
 traversing a type

The position of an unnamed field was compared for equality with the number of
fields, so no field of any tuple had its case reported. Layouts now name such
fields by their position, with a prefix making it a valid identifier.
---
 src/ast/ty.rs           |    2 +-
 src/layout/translate.rs |    2 +-
 stl/TypeLib.vesper      | 1170 +++++++++++++++++++--------------------
 3 files changed, 587 insertions(+), 587 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fb65021..3c194aa 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -330,7 +330,7 @@ impl<Ref: TypeRef> Ty<Ref> {
             Ty::Struct(fields) => {
                 fields.get(pos as usize).map(|field| ItemCase::NamedField(pos, field.name.clone()))
             }
-            Ty::Tuple(fields) if fields.len_u8() == pos => Some(ItemCase::UnnamedField(pos)),
+            Ty::Tuple(fields) if fields.len_u8() > pos => Some(ItemCase::UnnamedField(pos)),
             Ty::Array(_, _) if pos == 0 => Some(ItemCase::ArrayItem),
             Ty::List(_, _) if pos == 0 => Some(ItemCase::ListItem),
             Ty::Set(_, _) if pos == 0 => Some(ItemCase::SetItem),
diff --git a/src/layout/translate.rs b/src/layout/translate.rs
index 6637624..b5b80ac 100644
--- a/src/layout/translate.rs
+++ b/src/layout/translate.rs
@@ -47,7 +47,7 @@ impl TypeInfo {
             Some(ItemCase::UnnamedField(pos)) => {
                 if name.as_str() == "_" {
                     comment = fqn;
-                    ident!("{}", pos)
+                    ident!("_{}", pos)
                 } else {
                     name.into_ident()
                 }
diff --git a/stl/TypeLib.vesper b/stl/TypeLib.vesper
index 1481b0a..e0a17b7 100644
--- a/stl/TypeLib.vesper
+++ b/stl/TypeLib.vesper
@@ -92,7 +92,7 @@ rec TypeLib
                                   rec extern, ExternRef, wrapped, tag 1
                                     bytes libId, len 32, aka TypeLibId
                                     bytes semId, len 32, aka SemId
-                                is _, U16
+                                is _1, U16
                               tuple list, tag 7
                                 union InlineRef2
                                   bytes named, len 32, wrapped, aka SemId, tag 0
@@ -167,7 +167,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -244,7 +244,7 @@ rec TypeLib
                                   rec extern, ExternRef, wrapped, tag 1
                                     bytes libId, len 32, aka TypeLibId
                                     bytes semId, len 32, aka SemId
-                                is _, U16
+                                is _1, U16
                               tuple list, tag 7
                                 union InlineRef2
                                   bytes named, len 32, wrapped, aka SemId, tag 0
@@ -319,7 +319,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -356,7 +356,7 @@ rec TypeLib
                           rec extern, ExternRef, wrapped, tag 2
                             bytes libId, len 32, aka TypeLibId
                             bytes semId, len 32, aka SemId
-                        is _, U16
+                        is _1, U16
                       tuple list, tag 7
                         union InlineRef1
                           union inline, TyInlineRef2, wrapped, tag 0
@@ -395,7 +395,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -473,7 +473,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -551,7 +551,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -625,7 +625,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -719,7 +719,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -794,7 +794,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -871,7 +871,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -946,7 +946,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -983,7 +983,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -1022,7 +1022,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1100,7 +1100,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1178,7 +1178,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1252,7 +1252,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1348,7 +1348,7 @@ rec TypeLib
                                   rec extern, ExternRef, wrapped, tag 1
                                     bytes libId, len 32, aka TypeLibId
                                     bytes semId, len 32, aka SemId
-                                is _, U16
+                                is _1, U16
                               tuple list, tag 7
                                 union InlineRef2
                                   bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1423,7 +1423,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1500,7 +1500,7 @@ rec TypeLib
                                   rec extern, ExternRef, wrapped, tag 1
                                     bytes libId, len 32, aka TypeLibId
                                     bytes semId, len 32, aka SemId
-                                is _, U16
+                                is _1, U16
                               tuple list, tag 7
                                 union InlineRef2
                                   bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1575,7 +1575,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1612,7 +1612,7 @@ rec TypeLib
                           rec extern, ExternRef, wrapped, tag 2
                             bytes libId, len 32, aka TypeLibId
                             bytes semId, len 32, aka SemId
-                        is _, U16
+                        is _1, U16
                       tuple list, tag 7
                         union InlineRef1
                           union inline, TyInlineRef2, wrapped, tag 0
@@ -1651,7 +1651,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1729,7 +1729,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1807,7 +1807,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1881,7 +1881,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -1975,7 +1975,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2050,7 +2050,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2127,7 +2127,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2202,7 +2202,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2239,7 +2239,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -2278,7 +2278,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2356,7 +2356,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2434,7 +2434,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2508,7 +2508,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2552,7 +2552,7 @@ rec TypeLib
                   rec extern, ExternRef, wrapped, tag 2
                     bytes libId, len 32, aka TypeLibId
                     bytes semId, len 32, aka SemId
-                is _, U16
+                is _1, U16
               tuple list, tag 7
                 union InlineRef
                   union inline, TyInlineRef1, wrapped, tag 0
@@ -2603,7 +2603,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2678,7 +2678,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2755,7 +2755,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2830,7 +2830,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2867,7 +2867,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -2906,7 +2906,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -2984,7 +2984,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3062,7 +3062,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3136,7 +3136,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3233,7 +3233,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3308,7 +3308,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3385,7 +3385,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3460,7 +3460,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3497,7 +3497,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -3536,7 +3536,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3614,7 +3614,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3692,7 +3692,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3766,7 +3766,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3863,7 +3863,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -3938,7 +3938,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4015,7 +4015,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4090,7 +4090,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4127,7 +4127,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -4166,7 +4166,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4244,7 +4244,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4322,7 +4322,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4396,7 +4396,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4489,7 +4489,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4564,7 +4564,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4641,7 +4641,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4716,7 +4716,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4753,7 +4753,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -4792,7 +4792,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4870,7 +4870,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -4948,7 +4948,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5022,7 +5022,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5135,7 +5135,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5210,7 +5210,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5287,7 +5287,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5362,7 +5362,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5399,7 +5399,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -5438,7 +5438,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5516,7 +5516,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5594,7 +5594,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5668,7 +5668,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5762,7 +5762,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5837,7 +5837,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5914,7 +5914,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -5989,7 +5989,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6026,7 +6026,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -6065,7 +6065,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6143,7 +6143,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6221,7 +6221,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6295,7 +6295,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6391,7 +6391,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6466,7 +6466,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6543,7 +6543,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6618,7 +6618,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6655,7 +6655,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -6694,7 +6694,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6772,7 +6772,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6850,7 +6850,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -6924,7 +6924,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7018,7 +7018,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7093,7 +7093,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7170,7 +7170,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7245,7 +7245,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7282,7 +7282,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -7321,7 +7321,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7399,7 +7399,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7477,7 +7477,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7551,7 +7551,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7595,7 +7595,7 @@ rec TypeLib
                 rec extern, ExternRef, wrapped, tag 2
                   bytes libId, len 32, aka TypeLibId
                   bytes semId, len 32, aka SemId
-              is _, U16
+              is _1, U16
             tuple list, tag 7
               union InlineRef
                 union inline, TyInlineRef1, wrapped, tag 0
@@ -7646,7 +7646,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7721,7 +7721,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7798,7 +7798,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7873,7 +7873,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -7910,7 +7910,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -7949,7 +7949,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8027,7 +8027,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8105,7 +8105,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8179,7 +8179,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8276,7 +8276,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8351,7 +8351,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8428,7 +8428,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8503,7 +8503,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8540,7 +8540,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -8579,7 +8579,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8657,7 +8657,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8735,7 +8735,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8809,7 +8809,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8906,7 +8906,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -8981,7 +8981,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9058,7 +9058,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9133,7 +9133,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9170,7 +9170,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -9209,7 +9209,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9287,7 +9287,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9365,7 +9365,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9439,7 +9439,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9532,7 +9532,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9607,7 +9607,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9684,7 +9684,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9759,7 +9759,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9796,7 +9796,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -9835,7 +9835,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9913,7 +9913,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -9991,7 +9991,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10065,7 +10065,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10180,7 +10180,7 @@ rec TypeLib
                                   rec extern, ExternRef, wrapped, tag 1
                                     bytes libId, len 32, aka TypeLibId
                                     bytes semId, len 32, aka SemId
-                                is _, U16
+                                is _1, U16
                               tuple list, tag 7
                                 union InlineRef2
                                   bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10255,7 +10255,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10332,7 +10332,7 @@ rec TypeLib
                                   rec extern, ExternRef, wrapped, tag 1
                                     bytes libId, len 32, aka TypeLibId
                                     bytes semId, len 32, aka SemId
-                                is _, U16
+                                is _1, U16
                               tuple list, tag 7
                                 union InlineRef2
                                   bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10407,7 +10407,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10444,7 +10444,7 @@ rec TypeLib
                           rec extern, ExternRef, wrapped, tag 2
                             bytes libId, len 32, aka TypeLibId
                             bytes semId, len 32, aka SemId
-                        is _, U16
+                        is _1, U16
                       tuple list, tag 7
                         union InlineRef1
                           union inline, TyInlineRef2, wrapped, tag 0
@@ -10483,7 +10483,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10561,7 +10561,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10639,7 +10639,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10713,7 +10713,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10807,7 +10807,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10882,7 +10882,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -10959,7 +10959,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11034,7 +11034,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11071,7 +11071,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -11110,7 +11110,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11188,7 +11188,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11266,7 +11266,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11340,7 +11340,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11436,7 +11436,7 @@ rec TypeLib
                                   rec extern, ExternRef, wrapped, tag 1
                                     bytes libId, len 32, aka TypeLibId
                                     bytes semId, len 32, aka SemId
-                                is _, U16
+                                is _1, U16
                               tuple list, tag 7
                                 union InlineRef2
                                   bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11511,7 +11511,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11588,7 +11588,7 @@ rec TypeLib
                                   rec extern, ExternRef, wrapped, tag 1
                                     bytes libId, len 32, aka TypeLibId
                                     bytes semId, len 32, aka SemId
-                                is _, U16
+                                is _1, U16
                               tuple list, tag 7
                                 union InlineRef2
                                   bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11663,7 +11663,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11700,7 +11700,7 @@ rec TypeLib
                           rec extern, ExternRef, wrapped, tag 2
                             bytes libId, len 32, aka TypeLibId
                             bytes semId, len 32, aka SemId
-                        is _, U16
+                        is _1, U16
                       tuple list, tag 7
                         union InlineRef1
                           union inline, TyInlineRef2, wrapped, tag 0
@@ -11739,7 +11739,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11817,7 +11817,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11895,7 +11895,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -11969,7 +11969,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12063,7 +12063,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12138,7 +12138,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12215,7 +12215,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12290,7 +12290,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12327,7 +12327,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -12366,7 +12366,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12444,7 +12444,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12522,7 +12522,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12596,7 +12596,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12640,7 +12640,7 @@ rec TypeLib
                   rec extern, ExternRef, wrapped, tag 2
                     bytes libId, len 32, aka TypeLibId
                     bytes semId, len 32, aka SemId
-                is _, U16
+                is _1, U16
               tuple list, tag 7
                 union InlineRef
                   union inline, TyInlineRef1, wrapped, tag 0
@@ -12691,7 +12691,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12766,7 +12766,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12843,7 +12843,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12918,7 +12918,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -12955,7 +12955,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -12994,7 +12994,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13072,7 +13072,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13150,7 +13150,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13224,7 +13224,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13321,7 +13321,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13396,7 +13396,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13473,7 +13473,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13548,7 +13548,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13585,7 +13585,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -13624,7 +13624,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13702,7 +13702,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13780,7 +13780,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13854,7 +13854,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -13951,7 +13951,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14026,7 +14026,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14103,7 +14103,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14178,7 +14178,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14215,7 +14215,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -14254,7 +14254,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14332,7 +14332,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14410,7 +14410,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14484,7 +14484,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14577,7 +14577,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14652,7 +14652,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14729,7 +14729,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14804,7 +14804,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14841,7 +14841,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -14880,7 +14880,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -14958,7 +14958,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15036,7 +15036,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15110,7 +15110,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15223,7 +15223,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15298,7 +15298,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15375,7 +15375,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15450,7 +15450,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15487,7 +15487,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -15526,7 +15526,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15604,7 +15604,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15682,7 +15682,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15756,7 +15756,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15850,7 +15850,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -15925,7 +15925,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16002,7 +16002,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16077,7 +16077,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16114,7 +16114,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -16153,7 +16153,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16231,7 +16231,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16309,7 +16309,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16383,7 +16383,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16479,7 +16479,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16554,7 +16554,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16631,7 +16631,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16706,7 +16706,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16743,7 +16743,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -16782,7 +16782,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16860,7 +16860,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -16938,7 +16938,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17012,7 +17012,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17106,7 +17106,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17181,7 +17181,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17258,7 +17258,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17333,7 +17333,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17370,7 +17370,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -17409,7 +17409,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17487,7 +17487,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17565,7 +17565,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17639,7 +17639,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17683,7 +17683,7 @@ rec TypeLib
                 rec extern, ExternRef, wrapped, tag 2
                   bytes libId, len 32, aka TypeLibId
                   bytes semId, len 32, aka SemId
-              is _, U16
+              is _1, U16
             tuple list, tag 7
               union InlineRef
                 union inline, TyInlineRef1, wrapped, tag 0
@@ -17734,7 +17734,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17809,7 +17809,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17886,7 +17886,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17961,7 +17961,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -17998,7 +17998,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -18037,7 +18037,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18115,7 +18115,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18193,7 +18193,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18267,7 +18267,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18364,7 +18364,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18439,7 +18439,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18516,7 +18516,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18591,7 +18591,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18628,7 +18628,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -18667,7 +18667,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18745,7 +18745,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18823,7 +18823,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18897,7 +18897,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -18994,7 +18994,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19069,7 +19069,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19146,7 +19146,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19221,7 +19221,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19258,7 +19258,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -19297,7 +19297,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19375,7 +19375,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19453,7 +19453,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19527,7 +19527,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19620,7 +19620,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19695,7 +19695,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19772,7 +19772,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19847,7 +19847,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -19884,7 +19884,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -19923,7 +19923,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20001,7 +20001,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20079,7 +20079,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20153,7 +20153,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20204,7 +20204,7 @@ rec TypeLib
           rec extern, ExternRef, wrapped, tag 2
             bytes libId, len 32, aka TypeLibId
             bytes semId, len 32, aka SemId
-        is _, U16
+        is _1, U16
       tuple list, tag 7
         union LibRef
           union inline, TyInlineRef, wrapped, tag 0
@@ -20267,7 +20267,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20342,7 +20342,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20419,7 +20419,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20494,7 +20494,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20531,7 +20531,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -20570,7 +20570,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20648,7 +20648,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20726,7 +20726,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20800,7 +20800,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20894,7 +20894,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -20969,7 +20969,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21046,7 +21046,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21121,7 +21121,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21158,7 +21158,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -21197,7 +21197,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21275,7 +21275,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21353,7 +21353,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21427,7 +21427,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21523,7 +21523,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21598,7 +21598,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21675,7 +21675,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21750,7 +21750,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21787,7 +21787,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -21826,7 +21826,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21904,7 +21904,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -21982,7 +21982,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22056,7 +22056,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22150,7 +22150,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22225,7 +22225,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22302,7 +22302,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22377,7 +22377,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22414,7 +22414,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -22453,7 +22453,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22531,7 +22531,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22609,7 +22609,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22683,7 +22683,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22727,7 +22727,7 @@ rec TypeLib
                 rec extern, ExternRef, wrapped, tag 2
                   bytes libId, len 32, aka TypeLibId
                   bytes semId, len 32, aka SemId
-              is _, U16
+              is _1, U16
             tuple list, tag 7
               union InlineRef
                 union inline, TyInlineRef1, wrapped, tag 0
@@ -22778,7 +22778,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22853,7 +22853,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -22930,7 +22930,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23005,7 +23005,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23042,7 +23042,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -23081,7 +23081,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23159,7 +23159,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23237,7 +23237,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23311,7 +23311,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23408,7 +23408,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23483,7 +23483,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23560,7 +23560,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23635,7 +23635,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23672,7 +23672,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -23711,7 +23711,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23789,7 +23789,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23867,7 +23867,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -23941,7 +23941,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24038,7 +24038,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24113,7 +24113,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24190,7 +24190,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24265,7 +24265,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24302,7 +24302,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -24341,7 +24341,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24419,7 +24419,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24497,7 +24497,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24571,7 +24571,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24664,7 +24664,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24739,7 +24739,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24816,7 +24816,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24891,7 +24891,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -24928,7 +24928,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -24967,7 +24967,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25045,7 +25045,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25123,7 +25123,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25197,7 +25197,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25313,7 +25313,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25388,7 +25388,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25465,7 +25465,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25540,7 +25540,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25577,7 +25577,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -25616,7 +25616,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25694,7 +25694,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25772,7 +25772,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25846,7 +25846,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -25940,7 +25940,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26015,7 +26015,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26092,7 +26092,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26167,7 +26167,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26204,7 +26204,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -26243,7 +26243,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26321,7 +26321,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26399,7 +26399,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26473,7 +26473,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26569,7 +26569,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26644,7 +26644,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26721,7 +26721,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26796,7 +26796,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26833,7 +26833,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -26872,7 +26872,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -26950,7 +26950,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27028,7 +27028,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27102,7 +27102,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27196,7 +27196,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27271,7 +27271,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27348,7 +27348,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27423,7 +27423,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27460,7 +27460,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -27499,7 +27499,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27577,7 +27577,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27655,7 +27655,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27729,7 +27729,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27773,7 +27773,7 @@ rec TypeLib
                 rec extern, ExternRef, wrapped, tag 2
                   bytes libId, len 32, aka TypeLibId
                   bytes semId, len 32, aka SemId
-              is _, U16
+              is _1, U16
             tuple list, tag 7
               union InlineRef
                 union inline, TyInlineRef1, wrapped, tag 0
@@ -27824,7 +27824,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27899,7 +27899,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -27976,7 +27976,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28051,7 +28051,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28088,7 +28088,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -28127,7 +28127,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28205,7 +28205,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28283,7 +28283,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28357,7 +28357,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28454,7 +28454,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28529,7 +28529,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28606,7 +28606,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28681,7 +28681,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28718,7 +28718,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -28757,7 +28757,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28835,7 +28835,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28913,7 +28913,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -28987,7 +28987,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29084,7 +29084,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29159,7 +29159,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29236,7 +29236,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29311,7 +29311,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29348,7 +29348,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -29387,7 +29387,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29465,7 +29465,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29543,7 +29543,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29617,7 +29617,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29710,7 +29710,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29785,7 +29785,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29862,7 +29862,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29937,7 +29937,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -29974,7 +29974,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -30013,7 +30013,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30091,7 +30091,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30169,7 +30169,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30243,7 +30243,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30359,7 +30359,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30434,7 +30434,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30511,7 +30511,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30586,7 +30586,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30623,7 +30623,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -30662,7 +30662,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30740,7 +30740,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30818,7 +30818,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30892,7 +30892,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -30986,7 +30986,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31061,7 +31061,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31138,7 +31138,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31213,7 +31213,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31250,7 +31250,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -31289,7 +31289,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31367,7 +31367,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31445,7 +31445,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31519,7 +31519,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31615,7 +31615,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31690,7 +31690,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31767,7 +31767,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31842,7 +31842,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31879,7 +31879,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -31918,7 +31918,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -31996,7 +31996,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32074,7 +32074,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32148,7 +32148,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32242,7 +32242,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32317,7 +32317,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32394,7 +32394,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32469,7 +32469,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32506,7 +32506,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -32545,7 +32545,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32623,7 +32623,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32701,7 +32701,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32775,7 +32775,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32819,7 +32819,7 @@ rec TypeLib
                 rec extern, ExternRef, wrapped, tag 2
                   bytes libId, len 32, aka TypeLibId
                   bytes semId, len 32, aka SemId
-              is _, U16
+              is _1, U16
             tuple list, tag 7
               union InlineRef
                 union inline, TyInlineRef1, wrapped, tag 0
@@ -32870,7 +32870,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -32945,7 +32945,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33022,7 +33022,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33097,7 +33097,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33134,7 +33134,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -33173,7 +33173,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33251,7 +33251,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33329,7 +33329,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33403,7 +33403,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33500,7 +33500,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33575,7 +33575,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33652,7 +33652,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33727,7 +33727,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33764,7 +33764,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -33803,7 +33803,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33881,7 +33881,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -33959,7 +33959,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34033,7 +34033,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34130,7 +34130,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34205,7 +34205,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34282,7 +34282,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34357,7 +34357,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34394,7 +34394,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -34433,7 +34433,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34511,7 +34511,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34589,7 +34589,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34663,7 +34663,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34756,7 +34756,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34831,7 +34831,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34908,7 +34908,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -34983,7 +34983,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35020,7 +35020,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -35059,7 +35059,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35137,7 +35137,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35215,7 +35215,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35289,7 +35289,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35401,7 +35401,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35476,7 +35476,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35553,7 +35553,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35628,7 +35628,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35665,7 +35665,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -35704,7 +35704,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35782,7 +35782,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35860,7 +35860,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -35934,7 +35934,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36028,7 +36028,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36103,7 +36103,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36180,7 +36180,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36255,7 +36255,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36292,7 +36292,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -36331,7 +36331,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36409,7 +36409,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36487,7 +36487,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36561,7 +36561,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36657,7 +36657,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36732,7 +36732,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36809,7 +36809,7 @@ rec TypeLib
                                 rec extern, ExternRef, wrapped, tag 1
                                   bytes libId, len 32, aka TypeLibId
                                   bytes semId, len 32, aka SemId
-                              is _, U16
+                              is _1, U16
                             tuple list, tag 7
                               union InlineRef2
                                 bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36884,7 +36884,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -36921,7 +36921,7 @@ rec TypeLib
                         rec extern, ExternRef, wrapped, tag 2
                           bytes libId, len 32, aka TypeLibId
                           bytes semId, len 32, aka SemId
-                      is _, U16
+                      is _1, U16
                     tuple list, tag 7
                       union InlineRef1
                         union inline, TyInlineRef2, wrapped, tag 0
@@ -36960,7 +36960,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37038,7 +37038,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37116,7 +37116,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37190,7 +37190,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37284,7 +37284,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37359,7 +37359,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37436,7 +37436,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37511,7 +37511,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37548,7 +37548,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -37587,7 +37587,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37665,7 +37665,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37743,7 +37743,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37817,7 +37817,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37861,7 +37861,7 @@ rec TypeLib
                 rec extern, ExternRef, wrapped, tag 2
                   bytes libId, len 32, aka TypeLibId
                   bytes semId, len 32, aka SemId
-              is _, U16
+              is _1, U16
             tuple list, tag 7
               union InlineRef
                 union inline, TyInlineRef1, wrapped, tag 0
@@ -37912,7 +37912,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -37987,7 +37987,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38064,7 +38064,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38139,7 +38139,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38176,7 +38176,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -38215,7 +38215,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38293,7 +38293,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38371,7 +38371,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38445,7 +38445,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38542,7 +38542,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38617,7 +38617,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38694,7 +38694,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38769,7 +38769,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38806,7 +38806,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -38845,7 +38845,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -38923,7 +38923,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39001,7 +39001,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39075,7 +39075,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39172,7 +39172,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39247,7 +39247,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39324,7 +39324,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39399,7 +39399,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39436,7 +39436,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -39475,7 +39475,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39553,7 +39553,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39631,7 +39631,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39705,7 +39705,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39798,7 +39798,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39873,7 +39873,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -39950,7 +39950,7 @@ rec TypeLib
                               rec extern, ExternRef, wrapped, tag 1
                                 bytes libId, len 32, aka TypeLibId
                                 bytes semId, len 32, aka SemId
-                            is _, U16
+                            is _1, U16
                           tuple list, tag 7
                             union InlineRef2
                               bytes named, len 32, wrapped, aka SemId, tag 0
@@ -40025,7 +40025,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -40062,7 +40062,7 @@ rec TypeLib
                       rec extern, ExternRef, wrapped, tag 2
                         bytes libId, len 32, aka TypeLibId
                         bytes semId, len 32, aka SemId
-                    is _, U16
+                    is _1, U16
                   tuple list, tag 7
                     union InlineRef1
                       union inline, TyInlineRef2, wrapped, tag 0
@@ -40101,7 +40101,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -40179,7 +40179,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -40257,7 +40257,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
@@ -40331,7 +40331,7 @@ rec TypeLib
                             rec extern, ExternRef, wrapped, tag 1
                               bytes libId, len 32, aka TypeLibId
                               bytes semId, len 32, aka SemId
-                          is _, U16
+                          is _1, U16
                         tuple list, tag 7
                           union InlineRef2
                             bytes named, len 32, wrapped, aka SemId, tag 0
-- 
2.43.0


From 4b2f8c26aae873da5891b2d921ec5d0f14567adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 06/38] fix: report unresolvable references when compiling a
 symbolic library

A reference to an undefined type within an embedded type, or a type referring
to itself, made the compilation loop forever (or panic in debug builds).
---
 src/typelib/symbolic.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index a41e6ea..085cd8f 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -274,6 +274,14 @@ impl LibBuilder {
     pub fn compile(self) -> Result<TypeLib, CompileError> { self.compile_symbols()?.compile() }
 }
 
+fn unresolved_name<'ty>(ty: &'ty Ty<TranspileRef>, index: &TypeIndex) -> Option<&'ty TypeName> {
+    ty.type_refs().find_map(|(subty, _)| match subty {
+        TranspileRef::Named(name) if !index.contains_key(name) => Some(name),
+        TranspileRef::Embedded(ty) => unresolved_name(ty, index),
+        _ => None,
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
@@ -313,7 +321,12 @@ impl SymbolicLib {
                 new_types.insert(name.clone(), ty);
                 old_types.remove(name);
             }
-            debug_assert!(found, "incomplete type definition found in the library");
+            if !found {
+                // None of the remaining types can be resolved
+                let within = old_types.into_values().next().expect("non-empty");
+                let unknown = unresolved_name(&within, &index).expect("unresolved type").clone();
+                return Err(CompileError::UnknownType { unknown, within });
+            }
         }
 
         let mut used_dependencies = BTreeSet::<Dependency>::new();
-- 
2.43.0


From 43f7ab3476285e942c4909d8207d210e865e8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 07/38] fix: print semantic version pre-release after '-' and
 build after '+'

---
 src/util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 64d32d5..57c765b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -174,11 +174,11 @@ impl Display for SemVer {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
 
-        if !self.build.is_empty() {
+        if !self.pre.is_empty() {
             f.write_str("-")?;
         }
-        let mut len = self.build.len();
-        for item in &self.build {
+        let mut len = self.pre.len();
+        for item in &self.pre {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
@@ -186,11 +186,11 @@ impl Display for SemVer {
             }
         }
 
-        if !self.pre.is_empty() {
+        if !self.build.is_empty() {
             f.write_str("+")?;
         }
-        let mut len = self.pre.len();
-        for item in &self.pre {
+        let mut len = self.build.len();
+        for item in &self.build {
             Display::fmt(item, f)?;
             len -= 1;
             if len > 0 {
-- 
2.43.0


From af87e644885ac865a4c3da98ea7334a3ed7239ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 08/38] fix: keep all names of a type defined by more than one
 library

Two libraries defining the same type under the same name give it the same
semantic id, and the library imported last took over the name: the type was
not found under its name in the other library, and the symbols depended on the
order of the imports.
---
 src/typesys/symbols.rs   | 11 +++++++++--
 src/typesys/translate.rs |  9 +++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/typesys/symbols.rs b/src/typesys/symbols.rs
index c931e79..4153180 100644
--- a/src/typesys/symbols.rs
+++ b/src/typesys/symbols.rs
@@ -21,7 +21,7 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::fmt::{self, Display, Formatter};
 use std::ops::Index;
 
@@ -124,13 +124,20 @@ impl SymbolicSys {
     pub(crate) fn with(
         libs: impl IntoIterator<Item = Dependency>,
         types: BTreeMap<SemId, SymTy>,
+        mut aliases: BTreeSet<TypeSymbol>,
     ) -> Result<Self, translate::Error> {
         let mut sys = TypeSystem::new();
         let mut sym = Symbols::with(libs)?;
 
         for (sem_id, info) in types {
             sys.insert_unchecked(sem_id, info.ty)?;
-            sym.update_unchecked(sem_id, info.orig)?;
+            aliases.insert(TypeSymbol {
+                id: sem_id,
+                fqn: info.orig,
+            });
+        }
+        for alias in aliases {
+            sym.update_unchecked(alias.id, alias.fqn)?;
         }
 
         Ok(Self {
diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index e5b6cce..1289b96 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -93,6 +93,9 @@ pub struct SystemBuilder {
     pending_deps: BTreeSet<Dependency>,
     imported_deps: BTreeSet<Dependency>,
     types: BTreeMap<SemId, SymTy>,
+    /// Other names under which the named types are known, if the same type is defined by more than
+    /// one library.
+    aliases: BTreeSet<TypeSymbol>,
 }
 
 impl SystemBuilder {
@@ -109,7 +112,9 @@ impl SystemBuilder {
             let id = ty.sem_id_named(&ty_name);
             let ty = ty.translate(&mut self, &())?;
             let info = SymTy::named(lib.name.clone(), ty_name.clone(), ty);
-            self.types.insert(id, info);
+            if let Some(fqn) = self.types.insert(id, info).and_then(|prev| prev.orig) {
+                self.aliases.insert(TypeSymbol::with(id, fqn));
+            }
         }
 
         Ok(self)
@@ -136,7 +141,7 @@ impl SystemBuilder {
             return Err(errors);
         }
 
-        SymbolicSys::with(self.imported_deps, self.types).map_err(|err| vec![err])
+        SymbolicSys::with(self.imported_deps, self.types, self.aliases).map_err(|err| vec![err])
     }
 
     #[allow(clippy::multiple_bound_locations)]
-- 
2.43.0


From 2d342f01bf1aafa0f018c6b017fe31f3582cc1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 09/38] fix: do not overflow the size bounds of restricted
 strings

---
 src/typesys/iter.rs     | 4 ++--
 src/typesys/type_sys.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index 99fb6a9..f393c4a 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -181,8 +181,8 @@ impl Iterator for TypeTreeIter<'_> {
                             let first = self.sys.symbols.lookup(fields[0]);
                             let rest = self.sys.symbols.lookup(*rest);
                             let mut sizing = *sizing;
-                            sizing.min += 1;
-                            sizing.max += 1;
+                            sizing.min = sizing.min.saturating_add(1);
+                            sizing.max = sizing.max.saturating_add(1);
                             let _ = iter.next(); // skipping first char
                             let _ = iter.next(); // skipping nested list
                             nested.push(NestedCase::RStr(first.cloned(), rest.cloned(), sizing))
diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index 662e746..c13193c 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -161,8 +161,8 @@ impl TypeSystem {
         let rest = self.find(rest).ok_or(UnknownType(rest))?;
         if let Ty::List(rest, sizing) = rest {
             let mut sizing = *sizing;
-            sizing.min += 1;
-            sizing.max += 1;
+            sizing.min = sizing.min.saturating_add(1);
+            sizing.max = sizing.max.saturating_add(1);
             return Ok(Some((*rest, sizing)));
         }
         Ok(None)
-- 
2.43.0


From f232240c6c51e4804fd954eb837d412bcfc31f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 10/38] fix: classify primitive types by the numbers which fit
 them

Bytes were typified as signed integers, unit type was accepting numbers, and
integers above 64 bits were accepting small numbers which can't be serialized.
---
 src/value/typify.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 177505c..f90dc78 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -120,10 +120,12 @@ trait PrimitiveValue {
 }
 
 impl PrimitiveValue for Primitive {
-    fn is_small_unsigned(&self) -> bool { self.into_code() <= 16 }
-    fn is_large_unsigned(&self) -> bool { self.into_code() > 16 && self.into_code() < 0x40 }
-    fn is_small_signed(&self) -> bool { self.into_code() >= 0x40 && self.into_code() <= 0x4f }
-    fn is_large_signed(&self) -> bool { self.into_code() > 0x4f && self.into_code() < 0x80 }
+    fn is_small_unsigned(&self) -> bool {
+        *self == Primitive::BYTE || self.into_code() > 0 && self.into_code() <= 8
+    }
+    fn is_large_unsigned(&self) -> bool { self.into_code() > 8 && self.into_code() < 0x40 }
+    fn is_small_signed(&self) -> bool { self.into_code() > 0x40 && self.into_code() <= 0x48 }
+    fn is_large_signed(&self) -> bool { self.into_code() > 0x48 && self.into_code() < 0x80 }
 }
 
 impl SymbolicSys {
@@ -180,6 +182,11 @@ impl TypeSystem {
             {
                 StrictVal::Number(StrictNum::Int(val as i64))
             }
+            (StrictVal::Number(StrictNum::Uint(val)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() =>
+            {
+                StrictVal::Number(StrictNum::BigUint(val.into()))
+            }
             (val @ StrictVal::Number(StrictNum::BigUint(_)), Ty::Primitive(prim))
                 if prim.is_large_unsigned() =>
             {
@@ -190,6 +197,11 @@ impl TypeSystem {
             {
                 val
             }
+            (StrictVal::Number(StrictNum::Int(val)), Ty::Primitive(prim))
+                if prim.is_large_signed() =>
+            {
+                StrictVal::Number(StrictNum::BigInt(val.into()))
+            }
             (val @ StrictVal::Number(StrictNum::BigInt(_)), Ty::Primitive(prim))
                 if prim.is_large_signed() =>
             {
-- 
2.43.0


From 829d0c7131bbac9587489a6c399e044b90b63860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 11/38] fix: reject numbers which do not fit the size of a
 primitive type

They were accepted and silently truncated in serialization.
---
 src/value/typify.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index f90dc78..e426429 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -25,6 +25,7 @@
 
 use amplify::ascii::{AsAsciiStrError, AsciiString};
 use amplify::confinement::NonEmptyOrdSet;
+use amplify::num::{i1024, u1024};
 use amplify::Wrapper;
 use encoding::{FieldName, InvalidRString, Primitive, Sizing, VariantName};
 use indexmap::IndexMap;
@@ -117,6 +118,7 @@ trait PrimitiveValue {
     fn is_large_unsigned(&self) -> bool;
     fn is_small_signed(&self) -> bool;
     fn is_large_signed(&self) -> bool;
+    fn fits(&self, num: StrictNum) -> bool;
 }
 
 impl PrimitiveValue for Primitive {
@@ -126,6 +128,22 @@ impl PrimitiveValue for Primitive {
     fn is_large_unsigned(&self) -> bool { self.into_code() > 8 && self.into_code() < 0x40 }
     fn is_small_signed(&self) -> bool { self.into_code() > 0x40 && self.into_code() <= 0x48 }
     fn is_large_signed(&self) -> bool { self.into_code() > 0x48 && self.into_code() < 0x80 }
+    fn fits(&self, num: StrictNum) -> bool {
+        let (bytes, negative) = match num {
+            StrictNum::Uint(val) => (u1024::from(val).to_le_bytes(), false),
+            StrictNum::BigUint(val) => (val.to_le_bytes(), false),
+            StrictNum::Int(val) => (i1024::from(val).to_le_bytes(), val < 0),
+            StrictNum::BigInt(val) => (val.to_le_bytes(), val < i1024::ZERO),
+        };
+        let size = self.byte_size() as usize;
+        if size == 0 || size > bytes.len() {
+            return false;
+        }
+        let signed = self.is_small_signed() || self.is_large_signed();
+        let sign_bit = signed && bytes[size - 1] >= 0x80;
+        let padding = if negative { 0xFF } else { 0x00 };
+        sign_bit == negative && bytes[size..].iter().all(|byte| *byte == padding)
+    }
 }
 
 impl SymbolicSys {
@@ -172,6 +190,12 @@ impl TypeSystem {
                 StrictVal::Unit
             }
 
+            (val @ StrictVal::Number(num), Ty::Primitive(prim)) if !prim.fits(num) => {
+                return Err(Error::TypeMismatch {
+                    value: val,
+                    expected: ty.clone(),
+                });
+            }
             (val @ StrictVal::Number(StrictNum::Uint(_)), Ty::Primitive(prim))
                 if prim.is_small_unsigned() =>
             {
-- 
2.43.0


From 0204fa83f41ccca86c9ae3e7c5d9676d5cec885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 12/38] fix: accept non-negative numbers irrespective of their
 signedness

TOML loads all integers as signed, which made them not matching unsigned types.
---
 src/value/typify.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index e426429..d794d03 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -211,6 +211,21 @@ impl TypeSystem {
             {
                 StrictVal::Number(StrictNum::BigUint(val.into()))
             }
+            (StrictVal::Number(StrictNum::Uint(val)), Ty::Primitive(prim))
+                if prim.is_large_signed() =>
+            {
+                StrictVal::Number(StrictNum::BigInt(i1024::from(val as i128)))
+            }
+            (StrictVal::Number(StrictNum::Int(val)), Ty::Primitive(prim))
+                if prim.is_small_unsigned() =>
+            {
+                StrictVal::Number(StrictNum::Uint(val as u64))
+            }
+            (StrictVal::Number(StrictNum::Int(val)), Ty::Primitive(prim))
+                if prim.is_large_unsigned() =>
+            {
+                StrictVal::Number(StrictNum::BigUint(u1024::from(val as u64)))
+            }
             (val @ StrictVal::Number(StrictNum::BigUint(_)), Ty::Primitive(prim))
                 if prim.is_large_unsigned() =>
             {
-- 
2.43.0


From 5841b52713c4a18f4bbdc9eae0eb71ead28ffc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 13/38] fix: typify single-character strings

A character of an enum was kept as a string, which panicked on serialization;
unicode characters of more than one byte were not accepted.
---
 src/value/typify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index d794d03..a4f6a73 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -281,11 +281,12 @@ impl TypeSystem {
 
             // Ascii or other sub-byte character
             (StrictVal::String(s), Ty::Enum(en)) if s.len() == 1 && en.has_tag(s.as_bytes()[0]) => {
-                StrictVal::String(s)
+                let name = en.name_by_tag(s.as_bytes()[0]).expect("checked in match");
+                StrictVal::enumer(name.clone())
             }
             // Unicode character
             (StrictVal::String(s), ty @ Ty::UnicodeChar)
-                if ty.is_unicode_char() && s.len() == 1 =>
+                if ty.is_unicode_char() && s.chars().count() == 1 =>
             {
                 StrictVal::String(s)
             }
-- 
2.43.0


From c6a268fb8a8b663cd874e00e70a30d8d222d0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 14/38] fix: check length and items of arrays

Arrays were accepted when they are shorter than required by the type, list items
were not checked, and serialization of non-byte arrays has panicked.
---
 src/value/encode.rs |  8 +++++++-
 src/value/typify.rs | 21 +++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 06c4a48..e5e8649 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -143,9 +143,15 @@ impl TypeSystem {
                 writer.write_all(vec)?;
             }
             (StrictVal::String(s), Ty::Array(_, len)) => {
-                debug_assert_eq!(s.len(), *len as usize);
+                debug_assert_eq!(s.chars().count(), *len as usize);
                 writer.write_all(s.as_bytes())?;
             }
+            (StrictVal::List(vals), Ty::Array(sem_id, len)) => {
+                debug_assert_eq!(vals.len(), *len as usize);
+                for val in vals {
+                    self.strict_write_val(val, *sem_id, writer)?;
+                }
+            }
 
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
diff --git a/src/value/typify.rs b/src/value/typify.rs
index a4f6a73..b3c8684 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -249,19 +249,21 @@ impl TypeSystem {
 
             // Collection bounds check:
             (StrictVal::Bytes(s), Ty::Array(id, len))
-                if id.is_byte() && s.len() > *len as usize =>
+                if id.is_byte() && s.len() != *len as usize =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::Array(id, len))
-                if id.is_unicode_char() && s.len() > *len as usize =>
+                if id.is_unicode_char() && s.chars().count() != *len as usize =>
             {
-                return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
+                return Err(Error::OutOfBounds(spec, s.chars().count(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::String(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::String(s), Ty::Array(id, len))
+                if !id.is_unicode_char() && s.len() != *len as usize =>
+            {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
-            (StrictVal::List(s), Ty::Array(_, len)) if s.len() > *len as usize => {
+            (StrictVal::List(s), Ty::Array(_, len)) if s.len() != *len as usize => {
                 return Err(Error::OutOfBounds(spec, s.len(), Sizing::fixed(*len as u64)));
             }
             (StrictVal::String(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
@@ -295,7 +297,14 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
                 StrictVal::String(s)
             }
-            (val @ StrictVal::List(_), Ty::Array(_, _)) => val,
+            (StrictVal::List(s), Ty::Array(id, _)) => {
+                let mut new = Vec::with_capacity(s.len());
+                for item in s {
+                    let checked = self.typify(item, *id)?;
+                    new.push(checked.val);
+                }
+                StrictVal::List(new)
+            }
 
             // RString
             (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
-- 
2.43.0


From 171eeb769e76a5408d27a2b275a986938ccdf07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 15/38] fix: check that string characters belong to the item
 type

Strings were accepted as lists and arrays of any items, including those which
are not characters, and were serialized as raw bytes.
---
 src/value/typify.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index b3c8684..e566d2e 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -159,6 +159,14 @@ impl TypeSystem {
         self.as_inner().iter().find(|(my_id, _)| **my_id == sem_id).map(|(_, ty)| ty)
     }
 
+    /// Detects whether all characters of a string are variants of the enum type.
+    fn is_string_of(&self, s: &str, sem_id: SemId) -> bool {
+        match self.find(sem_id) {
+            Some(Ty::Enum(variants)) => s.is_ascii() && s.bytes().all(|c| variants.has_tag(c)),
+            _ => false,
+        }
+    }
+
     pub fn typify(&self, val: StrictVal, sem_id: SemId) -> Result<TypedVal, Error> {
         let spec = TypeSpec::from(sem_id);
         let ty = if sem_id == SemId::unit() {
@@ -294,7 +302,12 @@ impl TypeSystem {
             }
 
             (val @ StrictVal::Bytes(_), Ty::Array(id, _)) if id.is_byte() => val,
-            (StrictVal::String(s), Ty::Array(id, _)) if s.is_ascii() || id.is_unicode_char() => {
+            (StrictVal::String(s), Ty::Array(id, _)) if id.is_byte() => {
+                StrictVal::Bytes(Blob(s.into_bytes()))
+            }
+            (StrictVal::String(s), Ty::Array(id, _))
+                if id.is_unicode_char() || self.is_string_of(&s, *id) =>
+            {
                 StrictVal::String(s)
             }
             (StrictVal::List(s), Ty::Array(id, _)) => {
@@ -325,7 +338,7 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::List(id, _)) if id.is_byte() => {
                 StrictVal::Bytes(Blob(s.into_bytes()))
             }
-            (StrictVal::String(s), Ty::List(_, _)) if s.is_ascii() => {
+            (StrictVal::String(s), Ty::List(id, _)) if self.is_string_of(&s, *id) => {
                 AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
                 StrictVal::String(s)
             }
-- 
2.43.0


From b9f6c9d43a4743641877b7a46243af9a09f67615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 16/38] fix: check restricted strings against their type

Any ASCII string was accepted for any tuple with two fields without checking its
length and alphabet, and tuples given for restricted strings were serialized in
a form which can't be deserialized.
---
 src/typesys/type_sys.rs |  2 +-
 src/value/typify.rs     | 31 +++++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index c13193c..367f885 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -38,7 +38,7 @@ use crate::{SemId, Ty};
 
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Display, Error)]
 #[display("type with id `{0}` is not a part of the type system.")]
-pub struct UnknownType(SemId);
+pub struct UnknownType(pub(crate) SemId);
 
 #[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Display)]
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
diff --git a/src/value/typify.rs b/src/value/typify.rs
index e566d2e..0dbe672 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -32,7 +32,7 @@ use indexmap::IndexMap;
 
 use super::{Blob, StrictVal};
 use crate::ast::EnumVariants;
-use crate::typesys::{SymbolicSys, TypeFqn, TypeSymbol};
+use crate::typesys::{SymbolicSys, TypeFqn, TypeSymbol, UnknownType};
 use crate::value::{EnumTag, StrictNum};
 use crate::{SemId, Ty, TypeRef, TypeSystem};
 
@@ -113,6 +113,10 @@ pub enum Error {
     InvalidOptional(StrictVal),
 }
 
+impl From<UnknownType> for Error {
+    fn from(UnknownType(sem_id): UnknownType) -> Self { Error::TypeAbsent(sem_id.into()) }
+}
+
 trait PrimitiveValue {
     fn is_small_unsigned(&self) -> bool;
     fn is_large_unsigned(&self) -> bool;
@@ -320,7 +324,20 @@ impl TypeSystem {
             }
 
             // RString
-            (StrictVal::String(s), Ty::Tuple(fields)) if s.is_ascii() && fields.len() == 2 => {
+            (StrictVal::String(s), Ty::Tuple(fields)) if self.is_rstring(fields)? => {
+                let (rest, sizing) = self.rstring_sizing(fields)?.expect("checked in match");
+                if !sizing.check(s.len()) {
+                    return Err(Error::OutOfBounds(spec, s.len(), sizing));
+                }
+                if !s.is_ascii()
+                    || !self.is_string_of(&s[..1], fields[0])
+                    || !self.is_string_of(&s[1..], rest)
+                {
+                    return Err(Error::TypeMismatch {
+                        value: StrictVal::String(s),
+                        expected: ty.clone(),
+                    });
+                }
                 /* Invalid: we need to preserve string structure
                 let first = fields.first().expect("checked length");
                 let rest = fields.last().expect("checked length");
@@ -420,6 +437,16 @@ impl TypeSystem {
                 StrictVal::Union(tag, Box::new(checked.val))
             }
 
+            // RString must be given as a string, since it is serialized as a single string
+            (val @ (StrictVal::Tuple(_) | StrictVal::List(_)), Ty::Tuple(fields))
+                if self.is_rstring(fields)? =>
+            {
+                return Err(Error::TypeMismatch {
+                    value: val,
+                    expected: ty.clone(),
+                });
+            }
+
             // Field count check:
             (StrictVal::Tuple(fields), Ty::Tuple(fields_req))
                 if fields.len() != fields_req.len() =>
-- 
2.43.0


From 5b320737ab54913caabdcdf07c1876d228159ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 17/38] fix: check fields of tuples given as lists and
 structures given as maps

Missing fields were accepted, and extra tuple fields or repeated structure fields
were silently dropped.
---
 src/value/typify.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 0dbe672..d05e964 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -448,7 +448,7 @@ impl TypeSystem {
             }
 
             // Field count check:
-            (StrictVal::Tuple(fields), Ty::Tuple(fields_req))
+            (StrictVal::Tuple(fields) | StrictVal::List(fields), Ty::Tuple(fields_req))
                 if fields.len() != fields_req.len() =>
             {
                 return Err(Error::FieldNumberMismatch {
@@ -467,6 +467,16 @@ impl TypeSystem {
                 });
             }
 
+            (StrictVal::Map(fields), Ty::Struct(fields_req))
+                if fields.len() != fields_req.len() =>
+            {
+                return Err(Error::FieldNumberMismatch {
+                    spec,
+                    expected: fields_req.len(),
+                    found: fields.len(),
+                });
+            }
+
             // Check specific field types:
             (StrictVal::Tuple(s) | StrictVal::List(s), Ty::Tuple(fields_req)) => {
                 let mut new = Vec::with_capacity(s.len());
@@ -498,6 +508,12 @@ impl TypeSystem {
                         return Err(Error::ExtraField(fname));
                     };
                     let checked = self.typify(item, *field)?;
+                    if new.contains_key(&fname) {
+                        return Err(Error::RepeatedKeyValue(
+                            spec,
+                            StrictVal::String(fname.to_string()),
+                        ));
+                    }
                     new.insert(fname, checked.val);
                 }
                 StrictVal::Struct(new)
-- 
2.43.0


From 0c1ef9e4bf500b2e1e67ae10d19f21a239f372ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 18/38] fix: typify lists of unicode characters into strings

Unicode strings are prefixed with their length in bytes, while lists of characters
were serialized with the number of characters.
---
 src/value/typify.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index d05e964..bd1189c 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -268,7 +268,11 @@ impl TypeSystem {
             (StrictVal::String(s), Ty::Array(id, len))
                 if id.is_unicode_char() && s.chars().count() != *len as usize =>
             {
-                return Err(Error::OutOfBounds(spec, s.chars().count(), Sizing::fixed(*len as u64)));
+                return Err(Error::OutOfBounds(
+                    spec,
+                    s.chars().count(),
+                    Sizing::fixed(*len as u64),
+                ));
             }
             (StrictVal::String(s), Ty::Array(id, len))
                 if !id.is_unicode_char() && s.len() != *len as usize =>
@@ -284,11 +288,14 @@ impl TypeSystem {
             (StrictVal::Bytes(s), Ty::List(_, sizing)) if !sizing.check(s.len()) => {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
-            (StrictVal::List(s), Ty::List(_, sizing)) | (StrictVal::Set(s), Ty::Set(_, sizing))
-                if !sizing.check(s.len()) =>
+            (StrictVal::List(s), Ty::List(id, sizing))
+                if !id.is_unicode_char() && !sizing.check(s.len()) =>
             {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
+            (StrictVal::Set(s), Ty::Set(_, sizing)) if !sizing.check(s.len()) => {
+                return Err(Error::OutOfBounds(spec, s.len(), *sizing));
+            }
             (StrictVal::Map(s), Ty::Map(_, _, sizing)) if !sizing.check(s.len()) => {
                 return Err(Error::OutOfBounds(spec, s.len(), *sizing));
             }
@@ -359,6 +366,18 @@ impl TypeSystem {
                 AsciiString::from_ascii(s.as_bytes()).map_err(|err| err.ascii_error())?;
                 StrictVal::String(s)
             }
+            // Unicode strings are serialized by bytes and not by characters
+            (StrictVal::List(s), Ty::List(id, sizing)) if id.is_unicode_char() => {
+                let mut new = String::with_capacity(s.len());
+                for item in s {
+                    let checked = self.typify(item, *id)?;
+                    new.push_str(&checked.val.unwrap_string());
+                }
+                if !sizing.check(new.len()) {
+                    return Err(Error::OutOfBounds(spec, new.len(), *sizing));
+                }
+                StrictVal::String(new)
+            }
             (StrictVal::List(s), Ty::List(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
                 for item in s {
-- 
2.43.0


From 7bfdfe1f658d7cc54688c0f5a481475dcd51beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 19/38] fix: detect repeated set values and map keys given in
 different forms

The same enum variant can be given by its name and its tag, the same string by its
characters etc, which resulted in serialized collections with repeated items.
---
 src/value/encode.rs | 7 +++++++
 src/value/typify.rs | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index e5e8649..c353355 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -88,6 +88,13 @@ impl TypeSystem {
         self.strict_write_val(&typed.val, typed.orig.id, writer)
     }
 
+    /// Serialized form of the value, the same for all of its equivalent representations.
+    pub(super) fn strict_val_bytes(&self, val: &StrictVal, sem_id: SemId) -> Vec<u8> {
+        let mut buf = Vec::new();
+        self.strict_write_val(val, sem_id, &mut buf).expect("in-memory writer can't fail");
+        buf
+    }
+
     fn strict_write_val(
         &self,
         val: &StrictVal,
diff --git a/src/value/typify.rs b/src/value/typify.rs
index bd1189c..555738c 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -23,6 +23,8 @@
 
 //! Checks strict values against provied strict type specification.
 
+use std::collections::BTreeSet;
+
 use amplify::ascii::{AsAsciiStrError, AsciiString};
 use amplify::confinement::NonEmptyOrdSet;
 use amplify::num::{i1024, u1024};
@@ -388,9 +390,10 @@ impl TypeSystem {
             }
             (StrictVal::Set(s), Ty::Set(id, _)) => {
                 let mut new = Vec::with_capacity(s.len());
+                let mut seen = BTreeSet::new();
                 for item in s {
                     let checked = self.typify(item, *id)?;
-                    if new.contains(&checked.val) {
+                    if !seen.insert(self.strict_val_bytes(&checked.val, *id)) {
                         return Err(Error::RepeatedSetValue(spec, checked.val));
                     }
                     new.push(checked.val);
@@ -399,10 +402,11 @@ impl TypeSystem {
             }
             (StrictVal::Map(s), Ty::Map(key_id, id, _)) => {
                 let mut new = Vec::<(StrictVal, StrictVal)>::with_capacity(s.len());
+                let mut seen = BTreeSet::new();
                 for (key, item) in s {
                     let checked_key = self.typify(key, *key_id)?;
                     let checked_val = self.typify(item, *id)?;
-                    if new.iter().any(|(k, _)| k == &checked_key.val) {
+                    if !seen.insert(self.strict_val_bytes(&checked_key.val, *key_id)) {
                         return Err(Error::RepeatedKeyValue(spec, checked_key.val));
                     }
                     new.push((checked_key.val, checked_val.val));
-- 
2.43.0


From 759ba085cde0297505de721e7fa8b999e4820191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 20/38] fix: deserialize unicode characters

It was unimplemented and panicked.
---
 src/value/decode.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index cf1aa04..0f75aab 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -159,7 +159,16 @@ impl TypeSystem {
                 }
             }
             Ty::UnicodeChar => {
-                todo!()
+                let d = reader.unbox();
+                let mut buf = d.read_raw::<4>(1).map_err(DecodeError::from)?;
+                let continuation = match buf[0] {
+                    0xC0..=0xDF => 1,
+                    0xE0..=0xEF => 2,
+                    0xF0..=0xF7 => 3,
+                    _ => 0,
+                };
+                buf.extend(d.read_raw::<4>(continuation).map_err(DecodeError::from)?);
+                StrictVal::String(String::from_utf8(buf).map_err(DecodeError::from)?)
             }
 
             // ASCII strings:
-- 
2.43.0


From 9f1cfacc9c09964e96b21dd8205f44ee2d81f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 21/38] fix: do not allocate memory by unverified collection
 length

Huge length prefix was aborting the process; byte and unicode strings which may be
longer than 2^32 bytes were read as lists of their characters.
---
 src/value/decode.rs | 49 +++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 0f75aab..16fd203 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -25,9 +25,8 @@
 
 use amplify::ascii::AsciiString;
 use amplify::confinement::{
-    Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
-    SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16,
-    U32 as MAX32,
+    LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString, SmallAscii,
+    SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
 use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
@@ -81,6 +80,19 @@ impl SymbolicSys {
     }
 }
 
+/// Reads blob prefixed with 64-bit length. Since the length can't be trusted the memory is
+/// allocated only for the data which are actually present.
+fn read_huge_blob(d: &mut impl ReadRaw) -> Result<Vec<u8>, DecodeError> {
+    let mut len = u64::from_le_bytes(d.read_raw_array::<8>()?);
+    let mut buf = Vec::new();
+    while len > 0 {
+        let chunk = len.min(MAX16 as u64);
+        buf.extend(d.read_raw::<MAX16>(chunk as usize)?);
+        len -= chunk;
+    }
+    Ok(buf)
+}
+
 impl TypeSystem {
     fn strict_read_list(
         &self,
@@ -88,7 +100,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX16));
         for _ in 0..len {
             let item = self.strict_read_type(ty, d)?;
             list.push(item.val);
@@ -103,7 +115,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX16));
         for _ in 0..len {
             let key = self.strict_read_type(key_ty, d)?;
             let item = self.strict_read_type(ty, d)?;
@@ -187,12 +199,10 @@ impl TypeSystem {
                 } else if sizing.max <= u32::MAX as u64 {
                     StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    let buf = read_huge_blob(reader.unbox())?;
+                    let ascii = AsciiString::from_ascii(buf)
+                        .map_err(|err| DecodeError::Ascii(err.ascii_error()))?;
+                    StrictVal::String(ascii.to_string())
                 }
             }
             // Restricted strings:
@@ -207,12 +217,10 @@ impl TypeSystem {
                 } else if sizing.max <= u32::MAX as u64 {
                     StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    let buf = read_huge_blob(reader.unbox())?;
+                    let ascii = AsciiString::from_ascii(buf)
+                        .map_err(|err| DecodeError::Ascii(err.ascii_error()))?;
+                    StrictVal::String(ascii.to_string())
                 }
             }
 
@@ -283,6 +291,9 @@ impl TypeSystem {
                 let string = LargeBlob::strict_decode(&mut reader)?;
                 StrictVal::Bytes(Blob(string.release()))
             }
+            Ty::List(ty, _) if ty.is_byte() => {
+                StrictVal::Bytes(Blob(read_huge_blob(reader.unbox())?))
+            }
 
             // Unicode strings:
             Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u8::MAX as u64 => {
@@ -301,6 +312,10 @@ impl TypeSystem {
                 let string = LargeString::strict_decode(&mut reader)?;
                 StrictVal::String(string.release())
             }
+            Ty::List(ty, _) if ty.is_unicode_char() => {
+                let buf = read_huge_blob(reader.unbox())?;
+                StrictVal::String(String::from_utf8(buf).map_err(DecodeError::from)?)
+            }
 
             // Other lists:
             Ty::List(ty, sizing) if sizing.max <= u8::MAX as u64 => {
-- 
2.43.0


From 4710b2d0a15324342263a6de0ecc26fea8bebaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 22/38] fix: check size of deserialized collections

Collections exceeding the bounds of their type were accepted by deserialization.
---
 src/value/decode.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 16fd203..90bed55 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -25,7 +25,7 @@
 
 use amplify::ascii::AsciiString;
 use amplify::confinement::{
-    LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString, SmallAscii,
+    self, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString, SmallAscii,
     SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
@@ -124,6 +124,37 @@ impl TypeSystem {
         Ok(list)
     }
 
+    /// Checks that deserialized collection satisfies size requirements of its type.
+    fn check_collection(&self, val: &StrictVal, ty: &Ty<SemId>) -> Result<(), Error> {
+        let (len, sizing) = match (val, ty) {
+            (StrictVal::String(s), Ty::List(_, sizing)) => (s.len(), *sizing),
+            (StrictVal::String(s), Ty::Tuple(fields)) => {
+                let (_, sizing) = self.rstring_sizing(fields)?.expect("string read for a tuple");
+                (s.len(), sizing)
+            }
+            (StrictVal::Bytes(s), Ty::List(_, sizing)) => (s.len(), *sizing),
+            (StrictVal::List(s), Ty::List(_, sizing)) => (s.len(), *sizing),
+            (StrictVal::Set(s), Ty::Set(_, sizing)) => (s.len(), *sizing),
+            (StrictVal::Map(s), Ty::Map(_, _, sizing)) => (s.len(), *sizing),
+            _ => return Ok(()),
+        };
+        if (len as u64) < sizing.min {
+            return Err(DecodeError::Confinement(confinement::Error::Undersize {
+                len,
+                min_len: sizing.min as usize,
+            })
+            .into());
+        }
+        if len as u64 > sizing.max {
+            return Err(DecodeError::Confinement(confinement::Error::Oversize {
+                len,
+                max_len: sizing.max as usize,
+            })
+            .into());
+        }
+        Ok(())
+    }
+
     pub fn strict_deserialize_type(&self, sem_id: SemId, data: &[u8]) -> Result<TypedVal, Error> {
         let mut cursor = StreamReader::cursor::<MAX32>(data);
         let ty = self.strict_read_type(sem_id, &mut cursor)?;
@@ -410,6 +441,7 @@ impl TypeSystem {
                 StrictVal::Map(list)
             }
         };
+        self.check_collection(&val, ty)?;
 
         Ok(TypedVal {
             val,
-- 
2.43.0


From 0311422cad31a2b955f8ce4e03a11a4fdb303655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 23/38] fix: check uniqueness and alphabet of deserialized
 collections

Sets and maps with repeated items and strings with characters outside of their type
were accepted by deserialization.
---
 src/value/decode.rs | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 90bed55..b32e13e 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -23,6 +23,8 @@
 
 //! Reification module: reads & writes strict values from binary strict encodings.
 
+use std::collections::BTreeSet;
+
 use amplify::ascii::AsciiString;
 use amplify::confinement::{
     self, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString, SmallAscii,
@@ -124,7 +126,8 @@ impl TypeSystem {
         Ok(list)
     }
 
-    /// Checks that deserialized collection satisfies size requirements of its type.
+    /// Checks that deserialized collection satisfies requirements of its type to the size,
+    /// alphabet and absence of repeated items.
     fn check_collection(&self, val: &StrictVal, ty: &Ty<SemId>) -> Result<(), Error> {
         let (len, sizing) = match (val, ty) {
             (StrictVal::String(s), Ty::List(_, sizing)) => (s.len(), *sizing),
@@ -152,9 +155,43 @@ impl TypeSystem {
             })
             .into());
         }
+
+        match (val, ty) {
+            (StrictVal::String(s), Ty::List(id, _)) if !id.is_unicode_char() => {
+                self.check_alphabet(s, *id)?
+            }
+            (StrictVal::String(s), Ty::Tuple(fields)) if !s.is_empty() => {
+                let (rest, _) = self.rstring_sizing(fields)?.expect("string read for a tuple");
+                self.check_alphabet(&s[..1], fields[0])?;
+                self.check_alphabet(&s[1..], rest)?;
+            }
+            (StrictVal::Set(s), Ty::Set(id, _)) => {
+                let mut seen = BTreeSet::new();
+                if !s.iter().all(|item| seen.insert(self.strict_val_bytes(item, *id))) {
+                    return Err(DecodeError::RepeatedSetValue.into());
+                }
+            }
+            (StrictVal::Map(s), Ty::Map(id, _, _)) => {
+                let mut seen = BTreeSet::new();
+                if !s.iter().all(|(key, _)| seen.insert(self.strict_val_bytes(key, *id))) {
+                    return Err(DecodeError::RepeatedMapValue.into());
+                }
+            }
+            _ => {}
+        }
         Ok(())
     }
 
+    fn check_alphabet(&self, s: &str, id: SemId) -> Result<(), DecodeError> {
+        let Some(Ty::Enum(variants)) = self.find(id) else {
+            return Ok(());
+        };
+        match s.bytes().find(|c| !variants.has_tag(*c)) {
+            Some(c) => Err(DecodeError::EnumTagNotKnown(id.to_string(), c)),
+            None => Ok(()),
+        }
+    }
+
     pub fn strict_deserialize_type(&self, sem_id: SemId, data: &[u8]) -> Result<TypedVal, Error> {
         let mut cursor = StreamReader::cursor::<MAX32>(data);
         let ty = self.strict_read_type(sem_id, &mut cursor)?;
@@ -379,7 +416,6 @@ impl TypeSystem {
                 let list = self.strict_read_list(len as usize, *ty, d)?;
                 StrictVal::List(list)
             }
-            // TODO: Find a way to check for the uniqueness of the set values
             Ty::Set(ty, sizing) if sizing.max <= u8::MAX as u64 => {
                 let len = u8::strict_decode(&mut reader)?;
                 d = reader.unbox();
-- 
2.43.0


From d614949fb0a574dcacbd2cb5c2565cee08b5df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 24/38] fix: check content of an absent optional value against
 its type

---
 src/value/typify.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/value/typify.rs b/src/value/typify.rs
index 555738c..55f110c 100644
--- a/src/value/typify.rs
+++ b/src/value/typify.rs
@@ -543,16 +543,20 @@ impl TypeSystem {
             }
 
             // Optional
-            (StrictVal::Unit, ty @ Ty::Union(_)) if ty.is_option() => {
+            (StrictVal::Unit, ty @ Ty::Union(fields)) if ty.is_option() => {
                 // this is `None`
-                StrictVal::union("none", ())
+                let content = *fields.ty_by_tag(0).expect("optional always have `None`");
+                let inner = self.typify(StrictVal::Unit, content)?.val;
+                StrictVal::union("none", inner)
             }
             (StrictVal::Tuple(mut tuple), ty @ Ty::Union(fields))
                 if ty.is_option() && tuple.len() == 2 =>
             {
                 let content = *fields.ty_by_tag(1).expect("optional always have `Some`");
                 if tuple[0] == StrictVal::String(s!("none")) && tuple[1] == StrictVal::Unit {
-                    StrictVal::union("none", StrictVal::Unit)
+                    let content = *fields.ty_by_tag(0).expect("optional always have `None`");
+                    let inner = self.typify(StrictVal::Unit, content)?.val;
+                    StrictVal::union("none", inner)
                 } else if tuple[0] == StrictVal::String(s!("some")) {
                     let inner = self.typify(tuple.pop().expect("two elements"), content)?.val;
                     StrictVal::union("some", inner)
-- 
2.43.0


From 09ea63116e48c858f51d978f883bc30344ac1d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 25/38] fix: do not allocate for unverified 32-bit lengths of
 byte strings

---
 src/value/decode.rs | 47 +++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index b32e13e..34019d3 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -27,11 +27,11 @@ use std::collections::BTreeSet;
 
 use amplify::ascii::AsciiString;
 use amplify::confinement::{
-    self, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString, SmallAscii,
-    SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16, U32 as MAX32,
+    self, MediumAscii, MediumBlob, MediumString, SmallAscii, SmallBlob, SmallString, TinyAscii,
+    TinyBlob, TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
-use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
+use encoding::{DecodeError, Primitive, ReadRaw, Sizing, StreamReader, StrictDecode, StrictReader};
 use indexmap::IndexMap;
 
 use crate::typesys::{SymbolicSys, TypeSymbol, UnknownType};
@@ -82,10 +82,9 @@ impl SymbolicSys {
     }
 }
 
-/// Reads blob prefixed with 64-bit length. Since the length can't be trusted the memory is
-/// allocated only for the data which are actually present.
-fn read_huge_blob(d: &mut impl ReadRaw) -> Result<Vec<u8>, DecodeError> {
-    let mut len = u64::from_le_bytes(d.read_raw_array::<8>()?);
+/// Reads blob of a given length. Since the length can't be trusted the memory is allocated only for
+/// the data which are actually present.
+fn read_huge_blob(d: &mut impl ReadRaw, mut len: u64) -> Result<Vec<u8>, DecodeError> {
     let mut buf = Vec::new();
     while len > 0 {
         let chunk = len.min(MAX16 as u64);
@@ -95,6 +94,16 @@ fn read_huge_blob(d: &mut impl ReadRaw) -> Result<Vec<u8>, DecodeError> {
     Ok(buf)
 }
 
+/// Reads blob prefixed with either 32- or 64-bit length, depending on its maximal size.
+fn read_large_blob(d: &mut impl ReadRaw, sizing: Sizing) -> Result<Vec<u8>, DecodeError> {
+    let len = if sizing.max <= u32::MAX as u64 {
+        u32::from_le_bytes(d.read_raw_array::<4>()?) as u64
+    } else {
+        u64::from_le_bytes(d.read_raw_array::<8>()?)
+    };
+    read_huge_blob(d, len)
+}
+
 impl TypeSystem {
     fn strict_read_list(
         &self,
@@ -264,10 +273,8 @@ impl TypeSystem {
                     StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
                 } else if sizing.max <= u24::MAX.into_u64() {
                     StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
-                    let buf = read_huge_blob(reader.unbox())?;
+                    let buf = read_large_blob(reader.unbox(), *sizing)?;
                     let ascii = AsciiString::from_ascii(buf)
                         .map_err(|err| DecodeError::Ascii(err.ascii_error()))?;
                     StrictVal::String(ascii.to_string())
@@ -282,10 +289,8 @@ impl TypeSystem {
                     StrictVal::String(SmallAscii::strict_decode(&mut reader)?.to_string())
                 } else if sizing.max <= u24::MAX.into_u64() {
                     StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
-                } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
                 } else {
-                    let buf = read_huge_blob(reader.unbox())?;
+                    let buf = read_large_blob(reader.unbox(), sizing)?;
                     let ascii = AsciiString::from_ascii(buf)
                         .map_err(|err| DecodeError::Ascii(err.ascii_error()))?;
                     StrictVal::String(ascii.to_string())
@@ -355,12 +360,8 @@ impl TypeSystem {
                 let string = MediumBlob::strict_decode(&mut reader)?;
                 StrictVal::Bytes(Blob(string.release()))
             }
-            Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
-            }
-            Ty::List(ty, _) if ty.is_byte() => {
-                StrictVal::Bytes(Blob(read_huge_blob(reader.unbox())?))
+            Ty::List(ty, sizing) if ty.is_byte() => {
+                StrictVal::Bytes(Blob(read_large_blob(reader.unbox(), *sizing)?))
             }
 
             // Unicode strings:
@@ -376,12 +377,8 @@ impl TypeSystem {
                 let string = MediumString::strict_decode(&mut reader)?;
                 StrictVal::String(string.release())
             }
-            Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
-            }
-            Ty::List(ty, _) if ty.is_unicode_char() => {
-                let buf = read_huge_blob(reader.unbox())?;
+            Ty::List(ty, sizing) if ty.is_unicode_char() => {
+                let buf = read_large_blob(reader.unbox(), *sizing)?;
                 StrictVal::String(String::from_utf8(buf).map_err(DecodeError::from)?)
             }
 
-- 
2.43.0


From aed45421cc7ddcef69986e6066f1303691193604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 26/38] fix: report libraries absent from dependencies instead
 of a panic

---
 src/typelib/transpile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index 49268b0..fb7d63d 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -102,7 +102,8 @@ impl LibBuilder {
             .keys()
             .find(|dep| &dep.name == lib_name)
             .map(|dep| dep.id)
-            .unwrap_or_else(|| panic!("use of library '{lib_name}' which is not a dependency"))
+            // Libraries which are not known are reported when the builder gets compiled
+            .unwrap_or_else(TypeLibId::strict_dumb)
     }
 }
 
-- 
2.43.0


From bd018006d772645323ff7268882ae22db8039d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 27/38] fix: report references to libraries absent from
 dependencies when compiling

---
 src/typelib/symbolic.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index 085cd8f..31243ed 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -283,7 +283,26 @@ fn unresolved_name<'ty>(ty: &'ty Ty<TranspileRef>, index: &TypeIndex) -> Option<
 }
 
 impl SymbolicLib {
+    fn check_externs(&self, ty: &Ty<TranspileRef>) -> Result<(), CompileError> {
+        for (subty, _) in ty.type_refs() {
+            match subty {
+                TranspileRef::Embedded(ty) => self.check_externs(ty)?,
+                TranspileRef::Named(_) => {}
+                TranspileRef::Extern(r) => {
+                    if !self.dependencies.iter().any(|d| d.id == r.lib_id && d.name == r.lib_name) {
+                        return Err(CompileError::UnknownLib(r.lib_name.clone()));
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn compile(self) -> Result<TypeLib, CompileError> {
+        for ty in self.types.values() {
+            self.check_externs(ty)?;
+        }
+
         let name = self.name;
         let dependencies = self.dependencies;
         let mut extern_types = self.extern_types;
-- 
2.43.0


From c75372727ac671a8e7bd310abf04342f8f065e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 28/38] fix: name the undefined type when a library can't be
 compiled

---
 src/typelib/symbolic.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index 31243ed..5e010b0 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -274,10 +274,13 @@ impl LibBuilder {
     pub fn compile(self) -> Result<TypeLib, CompileError> { self.compile_symbols()?.compile() }
 }
 
-fn unresolved_name<'ty>(ty: &'ty Ty<TranspileRef>, index: &TypeIndex) -> Option<&'ty TypeName> {
+fn find_name<'ty>(
+    ty: &'ty Ty<TranspileRef>,
+    pred: &impl Fn(&TypeName) -> bool,
+) -> Option<&'ty TypeName> {
     ty.type_refs().find_map(|(subty, _)| match subty {
-        TranspileRef::Named(name) if !index.contains_key(name) => Some(name),
-        TranspileRef::Embedded(ty) => unresolved_name(ty, index),
+        TranspileRef::Named(name) if pred(name) => Some(name),
+        TranspileRef::Embedded(ty) => find_name(ty, pred),
         _ => None,
     })
 }
@@ -341,9 +344,16 @@ impl SymbolicLib {
                 old_types.remove(name);
             }
             if !found {
-                // None of the remaining types can be resolved
-                let within = old_types.into_values().next().expect("non-empty");
-                let unknown = unresolved_name(&within, &index).expect("unresolved type").clone();
+                // None of the remaining types can be resolved: there is a reference to an
+                // undefined type or, if all of them are defined, a loop.
+                let find = |pred: &dyn Fn(&TypeName) -> bool| {
+                    old_types.values().find_map(|ty| {
+                        find_name(ty, &pred).map(|unknown| (unknown.clone(), ty.clone()))
+                    })
+                };
+                let (unknown, within) = find(&|name| !names.contains(name))
+                    .or_else(|| find(&|name| !index.contains_key(name)))
+                    .expect("unresolved type");
                 return Err(CompileError::UnknownType { unknown, within });
             }
         }
-- 
2.43.0


From 9c202dc6fadcde8f7f56e1f25a2348877c4aa1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 29/38] fix: report self-referencing Rust types instead of
 overflowing the stack

---
 src/typelib/transpile.rs | 51 ++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index fb7d63d..c7b1df4 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -31,8 +31,9 @@ use encoding::StreamWriter;
 use strict_encoding::{
     DefineEnum, DefineStruct, DefineTuple, DefineUnion, FieldName, LibName, Primitive, Sizing,
     SplitParent, StrictDumb, StrictEncode, StrictEnum, StrictParent, StrictStruct, StrictSum,
-    StrictTuple, StrictUnion, StrictWriter, StructWriter, TypeName, TypedParent, TypedWrite,
-    UnionWriter, VariantName, WriteEnum, WriteStruct, WriteTuple, WriteUnion, LIB_EMBEDDED,
+    StrictTuple, StrictType, StrictUnion, StrictWriter, StructWriter, TypeName, TypedParent,
+    TypedWrite, UnionWriter, VariantName, WriteEnum, WriteStruct, WriteTuple, WriteUnion,
+    LIB_EMBEDDED,
 };
 
 use crate::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
@@ -57,6 +58,8 @@ pub struct LibBuilder {
     pub(super) types: HashMap<TypeName, Ty<TranspileRef>>,
     sink: StreamWriter<Sink>,
     last_compiled: Option<TranspileRef>,
+    /// Types of the library which definition is not complete yet
+    incomplete: HashSet<TypeName>,
 }
 
 impl LibBuilder {
@@ -76,6 +79,7 @@ impl LibBuilder {
             types: empty!(),
             sink: StreamWriter::sink::<MAX_WRITE_COUNT>(),
             last_compiled: None,
+            incomplete: empty!(),
         }
     }
 
@@ -90,6 +94,7 @@ impl LibBuilder {
             types: empty!(),
             sink: StreamWriter::sink::<MAX_WRITE_COUNT>(),
             last_compiled: None,
+            incomplete: empty!(),
         }
     }
 
@@ -105,6 +110,25 @@ impl LibBuilder {
             // Libraries which are not known are reported when the builder gets compiled
             .unwrap_or_else(TypeLibId::strict_dumb)
     }
+
+    /// Runs definition of a type, unless the type refers to itself, in which case the reference
+    /// is left to be reported when the library gets compiled.
+    fn define<T: StrictType>(
+        mut self,
+        definition: impl FnOnce(Self) -> io::Result<Self>,
+    ) -> io::Result<Self> {
+        let name = match T::strict_name() {
+            Some(name) if T::STRICT_LIB_NAME == self.lib_name.as_str() => name,
+            _ => return definition(self),
+        };
+        if !self.incomplete.insert(name.clone()) {
+            self.last_compiled = Some(TranspileRef::Named(name));
+            return Ok(self);
+        }
+        let mut me = definition(self)?;
+        me.incomplete.remove(&name);
+        Ok(me)
+    }
 }
 
 impl TypedWrite for LibBuilder {
@@ -119,8 +143,7 @@ impl TypedWrite for LibBuilder {
         self,
         inner: impl FnOnce(Self::UnionDefiner) -> io::Result<Self>,
     ) -> io::Result<Self> {
-        let builder = UnionBuilder::with::<T>(self);
-        inner(builder)
+        self.define::<T>(|me| inner(UnionBuilder::with::<T>(me)))
     }
 
     fn write_enum<T: StrictEnum>(self, value: T) -> io::Result<Self>
@@ -138,20 +161,24 @@ impl TypedWrite for LibBuilder {
         self,
         inner: impl FnOnce(Self::TupleWriter) -> io::Result<Self>,
     ) -> io::Result<Self> {
-        let writer = StructWriter::tuple::<T>(self);
-        let builder =
-            StructBuilder::with(libname!(T::STRICT_LIB_NAME), T::strict_name(), writer, false);
-        inner(builder)
+        self.define::<T>(|me| {
+            let writer = StructWriter::tuple::<T>(me);
+            let builder =
+                StructBuilder::with(libname!(T::STRICT_LIB_NAME), T::strict_name(), writer, false);
+            inner(builder)
+        })
     }
 
     fn write_struct<T: StrictStruct>(
         self,
         inner: impl FnOnce(Self::StructWriter) -> io::Result<Self>,
     ) -> io::Result<Self> {
-        let writer = StructWriter::structure::<T>(self);
-        let builder =
-            StructBuilder::with(libname!(T::STRICT_LIB_NAME), T::strict_name(), writer, false);
-        inner(builder)
+        self.define::<T>(|me| {
+            let writer = StructWriter::structure::<T>(me);
+            let builder =
+                StructBuilder::with(libname!(T::STRICT_LIB_NAME), T::strict_name(), writer, false);
+            inner(builder)
+        })
     }
 
     unsafe fn register_primitive(mut self, prim: Primitive) -> Self {
-- 
2.43.0


From c367d72eb284b4685fdee371355679c61dc94c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 30/38] fix: reject binary unions with a repeated variant name
 instead of losing variants

---
 src/ast/encoding.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index d866d5b..c43df7b 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -58,6 +58,12 @@ impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
         let mut inner = BTreeMap::new();
         for (tag, info) in read {
+            if inner.keys().any(|variant: &Variant| variant.name == info.name) {
+                return Err(DecodeError::DataIntegrityError(format!(
+                    "repeated union variant name '{}'",
+                    info.name
+                )));
+            }
             inner.insert(
                 Variant {
                     name: info.name,
-- 
2.43.0


From 65ab0bdb92867733949fdc8cbc7b48be3672eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:59 +0000
Subject: [PATCH 31/38] fix: keep armor header with several dependencies in one
 line so it can be parsed

---
 src/typelib/serialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 6871dd5..9a8dc6e 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -180,10 +180,10 @@ impl armor::StrictArmor for TypeLib {
 
         let mut headers = vec![ArmorHeader::new("Name", self.name.to_string())];
         if !self.dependencies.is_empty() {
-            headers.push(ArmorHeader::with(
-                "Dependencies",
-                self.dependencies.iter().map(Dependency::to_string),
-            ));
+            // The armor parser reads headers line by line, so the list has to fit a single one
+            let deps =
+                self.dependencies.iter().map(Dependency::to_string).collect::<Vec<_>>().join(", ");
+            headers.push(ArmorHeader::new("Dependencies", deps));
         }
         headers
     }
-- 
2.43.0


From 350d603c37e66bbb1379d930befe6ed8f66b7c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:02 +0000
Subject: [PATCH 32/38] fix: keep optional parts at their place in type trees
 and layouts

---
 src/typesys/iter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index f393c4a..f8442c3 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -170,6 +170,7 @@ impl Iterator for TypeTreeIter<'_> {
             } else if ty.is_option() {
                 nested.push(NestedCase::Option);
                 let _ = iter.next(); // skipping none
+                dive = false;
                 ret = false;
             } else if let Ty::Tuple(fields) = ty {
                 if fields.len() == 2 {
@@ -240,7 +241,8 @@ impl Iterator for TypeTreeIter<'_> {
                 }
                 Some((id, item)) => {
                     self.sem_id = *id;
-                    if !matches!(self.nested.last(), Some(NestedCase::NewType(_))) {
+                    // Types which are not returned pass their place to the type they wrap
+                    if self.nested.is_empty() {
                         self.item = item;
                     }
                     self.ty = self.sys.get(*id);
-- 
2.43.0


From a63619524d668ef1efcc9542b4daa3679e049271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 33/38] fix: group nested compound types in the source text

---
 src/ast/ty.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 3c194aa..7d2c84a 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -206,9 +206,11 @@ impl<Ref: TypeRef> Ty<Ref> {
     }
     pub fn is_compound(&self) -> bool {
         match self {
-            Ty::Tuple(fields) if fields.len() > 1 => true,
+            Ty::Tuple(fields) if fields.len() == 1 => fields[0].is_compound(),
+            Ty::Tuple(_) => true,
             Ty::Struct(fields) if fields.len() > 1 => true,
-            Ty::Enum(_) | Ty::Union(_) => true,
+            Ty::Enum(_) => true,
+            Ty::Union(_) => !self.is_option(),
             _ => false,
         }
     }
@@ -256,7 +258,7 @@ where Ref: Display
             Ty::Enum(vars) => Display::fmt(vars, f),
             Ty::Union(fields) if self.is_option() => {
                 let variant = fields.get(&Variant::some()).expect("optional");
-                Display::fmt(variant, f)?;
+                fmt_nested(variant, f)?;
                 f.write_str("?")
             }
             Ty::Union(fields) => Display::fmt(fields, f),
@@ -287,6 +289,17 @@ where Ref: Display
     }
 }
 
+/// Displays type which is a part of some other type, grouping compound types with parentheses.
+fn fmt_nested<Ref: TypeRef + Display>(ty: &Ref, f: &mut Formatter<'_>) -> fmt::Result {
+    if ty.is_compound() {
+        f.write_str("(")?;
+        Display::fmt(ty, f)?;
+        f.write_str(")")
+    } else {
+        Display::fmt(ty, f)
+    }
+}
+
 #[derive(Clone, Eq, PartialEq, Hash, Debug)]
 #[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
 #[strict_type(lib = STRICT_TYPES_LIB, tags = custom)]
@@ -359,7 +372,7 @@ where Ref: Display
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         Display::fmt(&self.name, f)?;
         f.write_str(" ")?;
-        Display::fmt(&self.ty, f)
+        fmt_nested(&self.ty, f)
     }
 }
 
@@ -492,14 +505,18 @@ impl<Ref: TypeRef> Display for UnnamedFields<Ref>
 where Ref: Display
 {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        if self.len() == 1 {
+            // A single field is displayed as the type itself
+            return Display::fmt(&self[0], f);
+        }
         let mut iter = self.iter();
         let last = iter.next_back();
         for ty in iter {
-            Display::fmt(ty, f)?;
+            fmt_nested(ty, f)?;
             f.write_str(", ")?;
         }
         if let Some(ty) = last {
-            Display::fmt(ty, f)?;
+            fmt_nested(ty, f)?;
         }
         Ok(())
     }
-- 
2.43.0


From 0771cf19ace86477c26f108c075ea28e17e0ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:35 +0000
Subject: [PATCH 34/38] fix: distinguish lists of fixed length from arrays in
 the source text

---
 src/ast/ty.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 7d2c84a..2b9d42e 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -273,6 +273,10 @@ where Ref: Display
             Ty::List(ty, sizing) => {
                 f.write_str("[")?;
                 Display::fmt(ty, f)?;
+                if sizing.min == sizing.max {
+                    // Makes a list of fixed length distinguishable from an array
+                    return write!(f, " ^ {0}..{0:#x}]", sizing.min);
+                }
                 write!(f, "{sizing}]")
             }
             Ty::Set(ty, sizing) => {
-- 
2.43.0


From 61d5c00e29fb1e28eb10ea6fca67ed59eb7626d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 35/38] fix: report failures to write the end of a serialized
 library

---
 src/typelib/serialize.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 9a8dc6e..4c8bf1c 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -57,7 +57,8 @@ impl TypeLib {
 
         match format {
             StlFormat::Binary => {
-                self.strict_encode(StrictWriter::with(StreamWriter::new::<U24MAX>(file)))?;
+                let writer = StrictWriter::with(StreamWriter::new::<U24MAX>(&mut file));
+                self.strict_encode(writer)?;
             }
             #[cfg(feature = "armor")]
             StlFormat::Armored => {
@@ -75,7 +76,8 @@ impl TypeLib {
             }
         }
 
-        Ok(())
+        // Data left in a buffer are otherwise written on drop, which ignores the errors
+        file.flush()
     }
 }
 
@@ -109,7 +111,7 @@ impl SymbolicLib {
         )?;
         writeln!(file, "{self}")?;
 
-        Ok(())
+        file.flush()
     }
 }
 
-- 
2.43.0


From e8039daabd66e822223253e5654816f99d9ddcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 36/38] fix: generate libraries with the feature their binaries
 require

---
 scripts/typelib.sh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/typelib.sh b/scripts/typelib.sh
index 2c1c076..a75a8ef 100755
--- a/scripts/typelib.sh
+++ b/scripts/typelib.sh
@@ -1,11 +1,11 @@
 #!/usr/bin/env bash
 
-cargo run --features armor --bin std-stl -- --stl
-cargo run --features armor --bin std-stl -- --sty
-cargo run --features armor --bin std-stl -- --sta
+cargo run --features stl --bin std-stl -- --stl
+cargo run --features stl --bin std-stl -- --sty
+cargo run --features stl --bin std-stl -- --sta
 
-cargo run --features armor --bin strict-stl -- --stl
-cargo run --features armor --bin strict-stl -- --sty
-cargo run --features armor --bin strict-stl -- --sta
+cargo run --features stl --bin strict-stl -- --stl
+cargo run --features stl --bin strict-stl -- --sty
+cargo run --features stl --bin strict-stl -- --sta
 
 cargo run --bin strict-vesper
-- 
2.43.0


From ada7419eec148511885f6e00ef0619c7850e7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 37/38] fix: construct a map with svtable macro

The macro named a constructor which doesn't exist, so none of its uses compiled.
---
 src/value/val.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/val.rs b/src/value/val.rs
index 92e06b9..c30eec5 100644
--- a/src/value/val.rs
+++ b/src/value/val.rs
@@ -169,7 +169,7 @@ macro_rules! svset {
 #[macro_export]
 macro_rules! svtable {
     ($val:expr) => {
-        $crate::StrictVal::table($val)
+        $crate::StrictVal::map($val)
     };
 }
 
-- 
2.43.0


From d30e47e34725fac2ad1b3e149111587fff954c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 38/38] fix: reserve no memory by the length prefix of a memory
 layout

---
 src/layout/memory.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/layout/memory.rs b/src/layout/memory.rs
index 51f58dc..b3b155e 100644
--- a/src/layout/memory.rs
+++ b/src/layout/memory.rs
@@ -22,19 +22,49 @@
 // the License.
 
 use amplify::confinement::LargeVec;
-use strict_encoding::STRICT_TYPES_LIB;
+use strict_encoding::{
+    DecodeError, ReadStruct, StrictDecode, StrictEncode, StrictType, TypedRead, STRICT_TYPES_LIB,
+};
 
 #[cfg(feature = "vesper")]
 use super::vesper::TypeVesper;
 use crate::typesys::{TypeInfo, TypeTree};
 
 #[derive(Clone, Eq, PartialEq, Debug)]
-#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
+#[derive(StrictType, StrictDumb, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB)]
 pub struct MemoryLayout {
     items: LargeVec<TypeInfo>,
 }
 
+impl StrictDecode for MemoryLayout {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        /// Reads items one by one, since a corrupted length prefix must not lead to the
+        /// reservation of memory for billions of items.
+        struct Items(LargeVec<TypeInfo>);
+
+        impl StrictType for Items {
+            const STRICT_LIB_NAME: &'static str = STRICT_TYPES_LIB;
+        }
+
+        impl StrictDecode for Items {
+            fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+                let len = u32::strict_decode(reader)?;
+                let mut items = LargeVec::new();
+                for _ in 0..len {
+                    items.push(TypeInfo::strict_decode(reader)?)?;
+                }
+                Ok(Items(items))
+            }
+        }
+
+        reader.read_struct(|r| {
+            let Items(items) = r.read_field(fname!("items"))?;
+            Ok(MemoryLayout { items })
+        })
+    }
+}
+
 impl From<TypeTree<'_>> for MemoryLayout {
     fn from(tree: TypeTree) -> Self {
         let mut layout = MemoryLayout::new();
-- 
2.43.0

