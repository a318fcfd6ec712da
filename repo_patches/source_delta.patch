From dc62f168f3ef9a75d1befc4f73000ad509fd8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:03 +0000
Subject: [PATCH 01/62] fix: take differences of documents that have an
 undefiable mutable list

---
 dochy_diff/src/imp/prepare/get_root_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_root_diff.rs b/dochy_diff/src/imp/prepare/get_root_diff.rs
index b2690b3..0e653a5 100644
--- a/dochy_diff/src/imp/prepare/get_root_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_root_diff.rs
@@ -1,4 +1,4 @@
-use dochy_core::structs::{RootObject, RootValue, RustParam, MetaValue, RootSabValue};
+use dochy_core::structs::{RootObject, RootValue, RustParam, RootSabValue};
 use std::collections::BTreeMap;
 use crate::imp::structs_write::{RootDiffW, ListDiffW};
 use crate::diff_error::DiffError;
@@ -50,7 +50,7 @@ pub(crate) fn get_root_diff<'a, 'b>(from : &'a RootObject, to : &'b RootObject)
                 let (&id, mdef) = if let Some((id, RootValue::MList(mdef))) = def.get(key) { (id, mdef) } else {
                     panic!("invalid def");
                 };
-                let meta = if let Some((_key, MetaValue::MList(meta))) = meta.get(id) { meta } else {
+                let meta = if let Some(meta) = meta.get_tables(id) { meta } else {
                     panic!("invalid meta");
                 };
 
-- 
2.43.0


From 0cf44240349d3ba156f5324c6e9ee989906d4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:22 +0000
Subject: [PATCH 02/62] fix: keep the next ID of an empty mutable list when it
 is copied or rebuilt

---
 dochy_core/src/imp/structs/linked_m.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_m.rs b/dochy_core/src/imp/structs/linked_m.rs
index f8087cd..4aaf792 100644
--- a/dochy_core/src/imp/structs/linked_m.rs
+++ b/dochy_core/src/imp/structs/linked_m.rs
@@ -81,7 +81,7 @@ impl<V> LinkedMap<V> {
     }
     pub fn construct(items : Vec<(u64,V)>, next_id : u64) -> LinkedMap<V>{
         if items.is_empty(){
-            return LinkedMap::new();
+            return LinkedMap{ next_id, ..LinkedMap::new() };
         }
         let mut map : HashM<u64,Box<MutNode<V>>> = HashMt::with_capacity(items.len());
         let mut iter = items.into_iter();
@@ -388,7 +388,7 @@ impl<V> LinkedMap<V> {
 
 impl<V : Clone> Clone for LinkedMap<V>{
     fn clone(&self) -> Self {
-        if self.map.is_empty(){ return LinkedMap::new() }
+        if self.map.is_empty(){ return LinkedMap{ next_id : self.next_id, ..LinkedMap::new() } }
         let mut map = self.map.clone();
         let first_node = map.get_mut(&self.first_id().unwrap()).unwrap().as_mut() as *mut _;
         let last_node = map.get_mut(&self.last_id().unwrap()).unwrap().as_mut() as *mut _;
-- 
2.43.0


From 93016da535645894bdfa895f5610eeeca5dd5fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:22 +0000
Subject: [PATCH 03/62] fix: put a changed next ID of a mutable list into the
 difference

Inserting and removing an item leaves the items as they were, but the ID that
was used must not be given out again after the document is restored.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index bc8d9c3..fa419a6 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -26,7 +26,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
         prev_id = Some(id)
     }
 
-    if result.len() == 0{
+    if result.len() == 0 && from.next_id() == to.next_id(){
         None
     } else {
         Some(ListDiffW::new(result, meta, to.next_id()))
-- 
2.43.0


From f2d2af3609b42bf890a0752a6352079e1e81a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:57 +0000
Subject: [PATCH 04/62] fix: restore the order of moved list items from a
 difference

A difference held created, modified and deleted items only, so an item that was
moved stayed at its old position. Items that have to move are now deleted and
created again, which the file format already supports.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 10 ++++--
 dochy_diff/src/imp/prepare/mod.rs            |  1 +
 dochy_diff/src/imp/prepare/moved_items.rs    | 35 ++++++++++++++++++++
 3 files changed, 44 insertions(+), 2 deletions(-)
 create mode 100644 dochy_diff/src/imp/prepare/moved_items.rs

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index fa419a6..4ff28a2 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -2,13 +2,19 @@ use crate::imp::structs_write::{ListDiffW, ListItemDiffEnumW, BS};
 use dochy_core::structs::{ListDefObj, LinkedMap, MutItem, MetaTables};
 use crate::imp::prepare::compare_items::compare_items;
 use crate::imp::prepare::new_item::new_item;
+use crate::imp::prepare::moved_items::moved_items;
 
 pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b LinkedMap<MutItem>,
                               to_def : &'b ListDefObj, meta : &'b MetaTables) -> Option<ListDiffW<'b>>{
 
+    //the format has no way to move an item, so moved items are deleted and created again
+    let moved = moved_items(from, to);
+
     let mut result : Vec<(u64, ListItemDiffEnumW)> = Vec::new();
     for (&id, from_item) in from {
-        if let Some(to_item) = to.get_item(id) {
+        if moved.contains(&id) {
+            result.push((id, ListItemDiffEnumW::Delete));
+        } else if let Some(to_item) = to.get_item(id) {
             if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
                 result.push((id, ListItemDiffEnumW::Modify(diff)));
             }
@@ -19,7 +25,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        if from.contains_key(id) == false{
+        if from.contains_key(id) == false || moved.contains(&id){
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
diff --git a/dochy_diff/src/imp/prepare/mod.rs b/dochy_diff/src/imp/prepare/mod.rs
index 4a686c0..085d56a 100644
--- a/dochy_diff/src/imp/prepare/mod.rs
+++ b/dochy_diff/src/imp/prepare/mod.rs
@@ -3,3 +3,4 @@ pub mod get_root_diff;
 pub mod compare_items;
 pub mod new_item;
 pub mod new_list;
+pub mod moved_items;
\ No newline at end of file
diff --git a/dochy_diff/src/imp/prepare/moved_items.rs b/dochy_diff/src/imp/prepare/moved_items.rs
new file mode 100644
index 0000000..c45cc96
--- /dev/null
+++ b/dochy_diff/src/imp/prepare/moved_items.rs
@@ -0,0 +1,35 @@
+use std::collections::{HashMap, HashSet};
+use dochy_core::structs::{LinkedMap, MutItem};
+
+/// IDs of the items which exist in both lists but must be moved to get from the order of 'from' to the order of 'to'.
+/// The rest is a longest common subsequence, so as few items as possible are moved.
+pub(crate) fn moved_items(from : &LinkedMap<MutItem>, to : &LinkedMap<MutItem>) -> HashSet<u64>{
+    let positions : HashMap<u64, usize> = from.iter().enumerate().map(|(pos, (&id, _))| (id, pos)).collect();
+    let common : Vec<(u64, usize)> = to.iter()
+        .filter_map(|(&id, _)| positions.get(&id).map(|&pos| (id, pos))).collect();
+
+    if common.windows(2).all(|w| w[0].1 < w[1].1){
+        return HashSet::new();
+    }
+
+    //tails[n] is the index of the smallest last item of the increasing subsequences whose length is n + 1
+    let mut tails : Vec<usize> = Vec::new();
+    let mut prevs : Vec<Option<usize>> = Vec::with_capacity(common.len());
+    for (ind, &(_, pos)) in common.iter().enumerate(){
+        let len = tails.partition_point(|&t| common[t].1 < pos);
+        prevs.push(if len == 0{ None } else{ Some(tails[len - 1]) });
+        if len == tails.len(){
+            tails.push(ind);
+        } else{
+            tails[len] = ind;
+        }
+    }
+
+    let mut moved : HashSet<u64> = common.iter().map(|&(id, _)| id).collect();
+    let mut current = tails.last().cloned();
+    while let Some(ind) = current{
+        moved.remove(&common[ind].0);
+        current = prevs[ind];
+    }
+    moved
+}
-- 
2.43.0


From 17119d84f42296fe583142c8e5570ee33013b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:57 +0000
Subject: [PATCH 05/62] fix: read differences of wide list items that contain a
 changed inner list

When the IDs of changed members are stored as numbers, inner lists are read
after the values, so the value loop has to skip them.
---
 dochy_diff/src/imp/read/read_list.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dochy_diff/src/imp/read/read_list.rs b/dochy_diff/src/imp/read/read_list.rs
index 4aeacf0..559666c 100644
--- a/dochy_diff/src/imp/read/read_list.rs
+++ b/dochy_diff/src/imp/read/read_list.rs
@@ -87,8 +87,6 @@ fn read_list_item2(r : &mut Reader, meta : &MetaTables) -> Result<ListItemDiffR,
             for &id in &n{
                 if let Some((_,MetaValue::Param(p))) = meta.items().get(id){
                     params.push((id, read_param(p, r)?));
-                } else {
-                    Err("invalid meta read_list_item2")?
                 }
             }
             read_lists_numbers(r, meta.items(), &n, &mut lists)?;
-- 
2.43.0


From 7eb981f05a74d6cc8ad18c7eb1c332584d92b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:11 +0000
Subject: [PATCH 06/62] fix: restore an item's enum value from a difference

Setting an enum removes the former reference of the item, which a difference
could not express, so the restored item had both. Such items are now deleted
and created again.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index 4ff28a2..2c97e4c 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -7,12 +7,20 @@ use crate::imp::prepare::moved_items::moved_items;
 pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b LinkedMap<MutItem>,
                               to_def : &'b ListDefObj, meta : &'b MetaTables) -> Option<ListDiffW<'b>>{
 
-    //the format has no way to move an item, so moved items are deleted and created again
-    let moved = moved_items(from, to);
+    //the format has no way to move an item or to remove a reference from it,
+    // so such items are deleted and created again
+    let mut recreated = moved_items(from, to);
+    for (&id, from_item) in from {
+        if let Some(to_item) = to.get_item(id) {
+            if from_item.refs().keys().any(|key| to_item.refs().contains_key(key) == false) {
+                recreated.insert(id);
+            }
+        }
+    }
 
     let mut result : Vec<(u64, ListItemDiffEnumW)> = Vec::new();
     for (&id, from_item) in from {
-        if moved.contains(&id) {
+        if recreated.contains(&id) {
             result.push((id, ListItemDiffEnumW::Delete));
         } else if let Some(to_item) = to.get_item(id) {
             if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
@@ -25,7 +33,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        if from.contains_key(id) == false || moved.contains(&id){
+        if from.contains_key(id) == false || recreated.contains(&id){
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
-- 
2.43.0


From ae320644848da520df285471f14c458a85754369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:48 +0000
Subject: [PATCH 07/62] fix: answer is_last() of list iterators by the last
 item, not the first

---
 dochy_core/src/imp/structs/linked_map_iter.rs     | 2 +-
 dochy_core/src/imp/structs/linked_map_iter_mut.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_map_iter.rs b/dochy_core/src/imp/structs/linked_map_iter.rs
index e3f8050..7af002f 100644
--- a/dochy_core/src/imp/structs/linked_map_iter.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter.rs
@@ -39,7 +39,7 @@ impl<'a, V> LinkedMapIter<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIter<'a, V>{
diff --git a/dochy_core/src/imp/structs/linked_map_iter_mut.rs b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
index 6d9754b..672200d 100644
--- a/dochy_core/src/imp/structs/linked_map_iter_mut.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
@@ -36,7 +36,7 @@ impl<'a, V> LinkedMapIterMut<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIterMut<'a, V>{
-- 
2.43.0


From 3a36bc2fd5bb9cbc63784706bfbf06c015156137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:48 +0000
Subject: [PATCH 08/62] fix: make prev() of the mutable list iterator step
 backwards

---
 dochy_core/src/imp/intf/mlist_iter_mut.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/intf/mlist_iter_mut.rs b/dochy_core/src/imp/intf/mlist_iter_mut.rs
index b7c5660..699bde9 100644
--- a/dochy_core/src/imp/intf/mlist_iter_mut.rs
+++ b/dochy_core/src/imp/intf/mlist_iter_mut.rs
@@ -29,7 +29,7 @@ impl<'a, V : From<MItemPtr>> MListIterMut<'a, V>{
             MItemMut::from_phantom(v, self.phantom)))
     }
     pub fn prev(&mut self) -> Option<(u64, MItemMut<'a, V>)> {
-        self.ptr.next_mut().map(|(id, v)| (
+        self.ptr.prev_mut().map(|(id, v)| (
             id,
             MItemMut::from_phantom(v, self.phantom)))
     }
-- 
2.43.0


From 2597c4106447e0527271bc055107f7e00478020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:03 +0000
Subject: [PATCH 09/62] fix: drop the padding byte when a URL string is
 converted back to bytes

---
 dochy_compaction/src/url_string/b8s_and_b6s.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/url_string/b8s_and_b6s.rs b/dochy_compaction/src/url_string/b8s_and_b6s.rs
index b428b48..e71b237 100644
--- a/dochy_compaction/src/url_string/b8s_and_b6s.rs
+++ b/dochy_compaction/src/url_string/b8s_and_b6s.rs
@@ -48,5 +48,5 @@ pub fn to_b8s(b6s : &[u8]) -> Vec<u8>{
     if byte_size != vec.len(){
         vec.pop();
     }
-    result.to_bytes()
+    vec
 }
\ No newline at end of file
-- 
2.43.0


From f59fa36747693da821ddfb8ac4379ba057653c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:03 +0000
Subject: [PATCH 10/62] fix: compact only strings with a decimal point as
 decimals, not any character

---
 dochy_compaction/src/string_compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/string_compaction.rs b/dochy_compaction/src/string_compaction.rs
index 58fbc11..a9061a7 100644
--- a/dochy_compaction/src/string_compaction.rs
+++ b/dochy_compaction/src/string_compaction.rs
@@ -100,7 +100,7 @@ struct NumResult{
 }
 
 fn rex(s : &str) -> Option<regex::Captures>{
-    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(.?)([0-9]*))$"#).unwrap());
+    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(\.?)([0-9]*))$"#).unwrap());
 
     return RE.captures(s);
 }
-- 
2.43.0


From ff598639a292c773f73678b1fb0a9dbbcacb4afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:20 +0000
Subject: [PATCH 11/62] fix: report damaged encoded values as errors instead of
 panicking or allocating their claimed size

---
 dochy_compaction/src/enc_dec/decode.rs     | 19 +++++-----
 dochy_compaction/src/enc_dec/reader.rs     | 40 +++++++++++-----------
 dochy_compaction/src/enc_dec/tag_reader.rs |  1 +
 dochy_compaction/src/enc_dec/var_int.rs    |  3 +-
 4 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/dochy_compaction/src/enc_dec/decode.rs b/dochy_compaction/src/enc_dec/decode.rs
index ba8d6e6..20e25eb 100644
--- a/dochy_compaction/src/enc_dec/decode.rs
+++ b/dochy_compaction/src/enc_dec/decode.rs
@@ -1,7 +1,8 @@
 use crate::kval_enum::{KVal};
 use super::tag_reader::TagReader;
 use crate::enc_dec::kihon_from_tag::KihonFromTag;
-use anyhow::Result;
+use anyhow::{bail, Result};
+use std::convert::TryFrom;
 use std::io::Read;
 use crate::enc_dec::reader::Reader;
 use with_capacity_safe::vec_with_capacity_safe;
@@ -10,11 +11,13 @@ use with_capacity_safe::vec_with_capacity_safe;
 pub fn decode<R : Read>(read : &mut R) -> Result<(Vec<KVal>, usize)>{
     let mut reader = Reader::new(read);
     let (count, _) = super::var_int::read(&mut reader)?;
-    let count = count as usize;
+    let count = usize::try_from(count)?;
     let (tag_len, _) = super::var_int::read(&mut reader)?;
-    let tag_len = tag_len as usize;
+    let tag_len = usize::try_from(tag_len)?;
 
     let mut tr = TagReader::new(reader.read(tag_len)?);
+    //a tag has 2 bits or more
+    if tag_len.saturating_mul(4) < count{ bail!("the number of values doesn't match the size of tags") }
     let mut tags : Vec<KihonFromTag> = vec_with_capacity_safe(count)?;
     for _ in 0..count{
         tags.push(tr.read_tag()?);
@@ -59,30 +62,30 @@ pub fn decode<R : Read>(read : &mut R) -> Result<(Vec<KVal>, usize)>{
             KihonFromTag::BigStr(size) =>{
                 let v = reader.read(size as usize)?;
                 let len = super::var_int::decode(v);
-                let s = reader.read_string(len as usize)?;
+                let s = reader.read_string(usize::try_from(len)?)?;
                 KVal::BigStr(s)
             },
             KihonFromTag::Binary(size) =>{
                 let v = reader.read(size as usize)?;
-                let len = super::var_int::decode(v) as usize;
+                let len = usize::try_from(super::var_int::decode(v))?;
                 let v = reader.read_binary(len)?;
                 KVal::Binary(v)
             },
             KihonFromTag::Binary8(size) =>{
                 let v = reader.read(size as usize)?;
-                let len = super::var_int::decode(v) as usize;
+                let len = usize::try_from(super::var_int::decode(v))?;
                 let v = reader.read_binary8(len)?;
                 KVal::Binary8(v)
             },
             KihonFromTag::Binary4(size) =>{
                 let v = reader.read(size as usize)?;
-                let len = super::var_int::decode(v) as usize;
+                let len = usize::try_from(super::var_int::decode(v))?;
                 let v = reader.read_binary4(len)?;
                 KVal::Binary4(v)
             },
             KihonFromTag::Binary2(size) =>{
                 let v = reader.read(size as usize)?;
-                let len = super::var_int::decode(v) as usize;
+                let len = usize::try_from(super::var_int::decode(v))?;
                 let v = reader.read_binary2(len)?;
                 KVal::Binary2(v)
             },
diff --git a/dochy_compaction/src/enc_dec/reader.rs b/dochy_compaction/src/enc_dec/reader.rs
index e28bae4..52e23bf 100644
--- a/dochy_compaction/src/enc_dec/reader.rs
+++ b/dochy_compaction/src/enc_dec/reader.rs
@@ -17,27 +17,24 @@ impl<'a, T : Read> Reader<'a, T>{
         Ok(buf[0])
     }
     pub fn read(&mut self, bytes : usize) -> Result<&[u8]>{
-        self.set_buf_len(bytes);
-        self.read.read_exact(&mut self.buf)?;
+        read_bytes(self.read, &mut self.buf, bytes)?;
         self.len += self.buf.len();
         Ok(&self.buf)
     }
     pub fn read_string(&mut self, bytes : usize) -> Result<String>{
-        let mut buf : Vec<u8> = vec_with_capacity_safe(bytes)?;
-        unsafe{ buf.set_len(bytes); }
-        self.read.read_exact(&mut buf)?;
+        let mut buf : Vec<u8> = Vec::new();
+        read_bytes(self.read, &mut buf, bytes)?;
         self.len += buf.len();
         Ok(String::from_utf8(buf)?)
     }
     pub fn read_binary(&mut self, bytes : usize) -> Result<Vec<u8>>{
-        let mut buf : Vec<u8> = vec_with_capacity_safe(bytes)?;
-        unsafe{ buf.set_len(bytes); }
-        self.read.read_exact(&mut buf)?;
+        let mut buf : Vec<u8> = Vec::new();
+        read_bytes(self.read, &mut buf, bytes)?;
         self.len += buf.len();
         Ok(buf)
     }
     pub fn read_binary8(&mut self, len : usize) -> Result<Vec<u64>>{
-        let mut buf : Vec<u64> = vec_with_capacity_safe(len)?;
+        let mut buf : Vec<u64> = vec_with_capacity_safe(len.min(CHUNK))?;
         let mut temp = [0u8; 8];
         for _ in 0..len{
             self.read.read_exact(&mut temp)?;
@@ -47,7 +44,7 @@ impl<'a, T : Read> Reader<'a, T>{
         Ok(buf)
     }
     pub fn read_binary4(&mut self, len : usize) -> Result<Vec<u32>>{
-        let mut buf : Vec<u32> = vec_with_capacity_safe(len)?;
+        let mut buf : Vec<u32> = vec_with_capacity_safe(len.min(CHUNK))?;
         let mut temp = [0u8; 4];
         for _ in 0..len{
             self.read.read_exact(&mut temp)?;
@@ -57,7 +54,7 @@ impl<'a, T : Read> Reader<'a, T>{
         Ok(buf)
     }
     pub fn read_binary2(&mut self, len : usize) -> Result<Vec<u16>>{
-        let mut buf : Vec<u16> = vec_with_capacity_safe(len)?;
+        let mut buf : Vec<u16> = vec_with_capacity_safe(len.min(CHUNK))?;
         let mut temp = [0u8; 2];
         for _ in 0..len{
             self.read.read_exact(&mut temp)?;
@@ -68,14 +65,17 @@ impl<'a, T : Read> Reader<'a, T>{
     }
 
     pub fn bytes_read(&self) -> usize{ self.len }
+}
 
-    fn set_buf_len(&mut self, len : usize){
-        let capacity = self.buf.capacity();
-        if len <= capacity{
-            unsafe{ self.buf.set_len(len) }
-        } else{
-            self.buf.reserve(len - self.buf.len());
-            unsafe{ self.buf.set_len(len); }
-        }
+/// The length may come from a broken file, so the buffer grows only as far as the data really exists.
+const CHUNK : usize = 64 * 1024;
+
+fn read_bytes<T : Read>(read : &mut T, buf : &mut Vec<u8>, bytes : usize) -> Result<()>{
+    buf.clear();
+    while buf.len() < bytes{
+        let start = buf.len();
+        buf.resize(start + (bytes - start).min(CHUNK), 0);
+        read.read_exact(&mut buf[start..])?;
     }
-}
\ No newline at end of file
+    Ok(())
+}
diff --git a/dochy_compaction/src/enc_dec/tag_reader.rs b/dochy_compaction/src/enc_dec/tag_reader.rs
index ed8f6c7..7fc6e5e 100644
--- a/dochy_compaction/src/enc_dec/tag_reader.rs
+++ b/dochy_compaction/src/enc_dec/tag_reader.rs
@@ -99,6 +99,7 @@ impl TagReader{
             }
             4 =>{
                 let count = self.read_next_1()?;
+                if 8 <= count{ bail!("Undefined must be 0..=7") }
                 return Ok(KihonFromTag::Undefined(count as u8));
             },
             _ =>{ bail!("undefined_tag 00000") } //panic!("Tag's zeroes must be within 3") }
diff --git a/dochy_compaction/src/enc_dec/var_int.rs b/dochy_compaction/src/enc_dec/var_int.rs
index 82e1dc8..83a6047 100644
--- a/dochy_compaction/src/enc_dec/var_int.rs
+++ b/dochy_compaction/src/enc_dec/var_int.rs
@@ -1,6 +1,6 @@
 use super::signed_bytes::{signed_bytes, signed_bytes128};
 use arrayvec::ArrayVec;
-use anyhow::{Result};
+use anyhow::{bail, Result};
 use std::io::{Write, Read};
 use crate::enc_dec::writer::Writer;
 use crate::enc_dec::reader::Reader;
@@ -136,6 +136,7 @@ pub(crate) fn write<T : Write>(int : i64, writer : &mut Writer<T>) -> Result<usi
 
 pub(crate) fn read<T : Read>(reader : &mut Reader<T>) -> Result<(i64, usize)> {
     let bytes_len = reader.read_byte()? as usize;
+    if 8 < bytes_len{ bail!("the size of the integer is too large") }
     let bytes = reader.read(bytes_len)?;
     Ok((super::var_int::decode(bytes), bytes_len + 1))
 }
\ No newline at end of file
-- 
2.43.0


From 053948dddc6c3ca3e909ce4e37a0827ed6720ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:07 +0000
Subject: [PATCH 12/62] fix: parse Infinity and NaN as real numbers

---
 dochy_json5/src/de.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index fa2d5a4..9554e6f 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -102,9 +102,9 @@ fn parse_char_escape_sequence(pair: &Pair<'_, Rule>) -> String {
 
 fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
     match pair.as_str() {
-        "Infinity" => Ok(f64::INFINITY),
+        "Infinity" | "+Infinity" => Ok(f64::INFINITY),
         "-Infinity" => Ok(f64::NEG_INFINITY),
-        "NaN" | "-NaN" => Ok(f64::NAN),
+        "NaN" | "+NaN" | "-NaN" => Ok(f64::NAN),
         s if is_hex_literal(s) => parse_hex(&s[2..], pair).map(f64::from),
         s => {
             if let Ok(r) = s.parse::<f64>() {
@@ -130,7 +130,8 @@ fn parse_integer(pair: &Pair<'_, Rule>) -> Result<i64> {
 }
 
 fn is_int(s: &str) -> bool {
-    !s.contains('.') && (is_hex_literal(s) || (!s.contains('e') && !s.contains('E')))
+    !s.ends_with("Infinity") && !s.ends_with("NaN") &&
+        !s.contains('.') && (is_hex_literal(s) || (!s.contains('e') && !s.contains('E')))
 }
 
 fn parse_hex(s: &str, p: &Pair<'_, Rule>) -> Result<u32> {
-- 
2.43.0


From 1d360ceb2d7ad51ba745c28ce3d40599055f5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:07 +0000
Subject: [PATCH 13/62] fix: parse hexadecimal integers that have a sign or
 more than 32 bits

---
 dochy_json5/src/de.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index 9554e6f..6d70bf6 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -105,7 +105,6 @@ fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
         "Infinity" | "+Infinity" => Ok(f64::INFINITY),
         "-Infinity" => Ok(f64::NEG_INFINITY),
         "NaN" | "+NaN" | "-NaN" => Ok(f64::NAN),
-        s if is_hex_literal(s) => parse_hex(&s[2..], pair).map(f64::from),
         s => {
             if let Ok(r) = s.parse::<f64>() {
                 if r.is_finite() {
@@ -122,7 +121,11 @@ fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
 
 fn parse_integer(pair: &Pair<'_, Rule>) -> Result<i64> {
     match pair.as_str() {
-        s if is_hex_literal(s) => Ok(parse_hex(&s[2..], pair)? as i64),
+        s if is_hex_literal(without_sign(s)) => {
+            let minus = if s.starts_with('-') { "-" } else { "" };
+            i64::from_str_radix(&format!("{}{}", minus, &without_sign(s)[2..]), 16)
+                .or(Err(create_err("error parsing hex", pair)))
+        },
         s => s
             .parse()
             .or(Err(create_err("error parsing integer", pair)))
@@ -131,13 +134,17 @@ fn parse_integer(pair: &Pair<'_, Rule>) -> Result<i64> {
 
 fn is_int(s: &str) -> bool {
     !s.ends_with("Infinity") && !s.ends_with("NaN") &&
-        !s.contains('.') && (is_hex_literal(s) || (!s.contains('e') && !s.contains('E')))
+        !s.contains('.') && (is_hex_literal(without_sign(s)) || (!s.contains('e') && !s.contains('E')))
 }
 
 fn parse_hex(s: &str, p: &Pair<'_, Rule>) -> Result<u32> {
     u32::from_str_radix(s, 16).or(Err(create_err("error parsing hex", p)))
 }
 
+fn without_sign(s: &str) -> &str {
+    s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s)
+}
+
 fn is_hex_literal(s: &str) -> bool {
     s.len() > 2 && (&s[..2] == "0x" || &s[..2] == "0X")
 }
-- 
2.43.0


From f4056536b4c2eecfc869e040276cb4fd2224a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:07 +0000
Subject: [PATCH 14/62] fix: resolve escape sequences in the keys of objects

---
 dochy_json5/src/de.rs               |  2 +-
 dochy_json5/src/deserialize_item.rs | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index 6d70bf6..05ce987 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -70,7 +70,7 @@ pub(crate) fn create_err_from_str(s : &str) -> MyError {
 }
 
 
-fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
+pub(crate) fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
     pair.into_inner()
         .map(|component| match component.as_rule() {
             Rule::char_literal => Ok(String::from(component.as_str())),
diff --git a/dochy_json5/src/deserialize_item.rs b/dochy_json5/src/deserialize_item.rs
index a91e74c..7f7367b 100644
--- a/dochy_json5/src/deserialize_item.rs
+++ b/dochy_json5/src/deserialize_item.rs
@@ -1,6 +1,6 @@
 use crate::error::Result;
 use crate::jval::JVal;
-use crate::de::{deserialize_any, Seq, Map};
+use crate::de::{deserialize_any, parse_string, Seq, Map};
 use pest::Span;
 use crate::de::Rule;
 use std::rc::Rc;
@@ -38,11 +38,12 @@ pub(crate) fn get_map(m: Map, span : Span, rc : Rc<String>) -> Result<JVal> {
         if op.is_none(){ break; }
         let p = op.unwrap();
         let ident = match p.as_rule(){
-            Rule::identifier =>{ p.as_str().to_string() },
-            Rule::string =>{
-                let s = p.as_str();
-                (&s[1..s.len()-1]).to_string()
+            Rule::identifier =>{
+                //the suffixes don't belong to the inner pairs
+                let suffix = p.as_str().trim_start_matches(|c| c != '!' && c != '?').to_string();
+                parse_string(p)? + &suffix
             },
+            Rule::string =>{ parse_string(p)? },
             _ =>{
                 //println!("{:?}",p.as_rule());
                 //println!("{:?}",p.as_str());
-- 
2.43.0


From 4c0f721650652c20df3f9a6758c79175327f586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:13 +0000
Subject: [PATCH 15/62] fix: parse surrogate pairs of unicode escape sequences

---
 dochy_json5/src/de.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index 05ce987..4ca554c 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -71,21 +71,36 @@ pub(crate) fn create_err_from_str(s : &str) -> MyError {
 
 
 pub(crate) fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
-    pair.into_inner()
-        .map(|component| match component.as_rule() {
-            Rule::char_literal => Ok(String::from(component.as_str())),
-            Rule::char_escape_sequence => Ok(parse_char_escape_sequence(&component)),
-            Rule::nul_escape_sequence => Ok(String::from("\u{0000}")),
+    let mut components = pair.into_inner().peekable();
+    let mut result = String::new();
+    while let Some(component) = components.next() {
+        let part = match component.as_rule() {
+            Rule::char_literal => String::from(component.as_str()),
+            Rule::char_escape_sequence => parse_char_escape_sequence(&component),
+            Rule::nul_escape_sequence => String::from("\u{0000}"),
             Rule::hex_escape_sequence | Rule::unicode_escape_sequence => {
-                let hex_escape = parse_hex(component.as_str(), &component)?;
+                let mut hex_escape = parse_hex(component.as_str(), &component)?;
+                if (0xD800..0xDC00).contains(&hex_escape) {
+                    //a surrogate pair is written as two escape sequences
+                    if let Some(Ok(low)) = components.peek()
+                        .filter(|next| next.as_rule() == Rule::unicode_escape_sequence)
+                        .map(|next| parse_hex(next.as_str(), next)) {
+                        if (0xDC00..0xE000).contains(&low) {
+                            hex_escape = 0x10000 + ((hex_escape - 0xD800) << 10) + (low - 0xDC00);
+                            components.next();
+                        }
+                    }
+                }
                 match char::from_u32(hex_escape) {
-                    Some(s) => Ok(s.to_string()),
-                    None => Err(create_err("error parsing hex prefix", &component)),
+                    Some(s) => s.to_string(),
+                    None => return Err(create_err("error parsing hex prefix", &component)),
                 }
             }
             _ => unreachable!(),
-        })
-        .collect()
+        };
+        result.push_str(&part);
+    }
+    Ok(result)
 }
 
 fn parse_char_escape_sequence(pair: &Pair<'_, Rule>) -> String {
-- 
2.43.0


From a80a344d79299d6805831bc667627c0745b24085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:45 +0000
Subject: [PATCH 16/62] fix: allow U+2028 and U+2029 in strings as JSON5 does

---
 dochy_json5/src/json5.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_json5/src/json5.pest b/dochy_json5/src/json5.pest
index 0b90104..4112d84 100644
--- a/dochy_json5/src/json5.pest
+++ b/dochy_json5/src/json5.pest
@@ -20,7 +20,7 @@ boolean = @{ "true" | "false" }
 
 char_escape_sequence = @{ single_escape_char | non_escape_char }
 
-char_literal = @{ !("\\" | line_terminator) ~ ANY }
+char_literal = @{ !("\\" | "\u{000A}" | "\u{000D}") ~ ANY }
 
 decimal_integer_literal = _{ "0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT* }
 
-- 
2.43.0


From f27355f8bd362c7165131a517ab1207662b4b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:37 +0000
Subject: [PATCH 17/62] fix: refuse a source that defines the same member more
 than once

---
 dochy_core/src/imp/json_to_rust/construct_root.rs   | 4 +++-
 dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs | 4 +++-
 dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs      | 5 +++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/construct_root.rs b/dochy_core/src/imp/json_to_rust/construct_root.rs
index e4e9963..f23152b 100644
--- a/dochy_core/src/imp/json_to_rust/construct_root.rs
+++ b/dochy_core/src/imp/json_to_rust/construct_root.rs
@@ -16,7 +16,9 @@ pub(crate) fn construct_root(root : RootObject, vec : Vec<(String, RootValue, Op
     vec.sort_by(|(a,_,_),(b,_,_)| a.cmp(b));
     for (name, value, sab) in vec {
         let id = default.len();
-        default.insert(name.to_string(), (id, value));
+        if default.insert(name.to_string(), (id, value)).is_some(){
+            Err(format!("Root's member {} is defined multiple times", name))?
+        }
         if let Some(sab) = sab{
             sabun.insert(name, sab);
         }
diff --git a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
index 591eea7..fa6089d 100644
--- a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
+++ b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
@@ -29,7 +29,9 @@ pub(crate) fn json_obj_to_rust(v : &LinkedHashMap<String, JVal>, is_ref_obj : bo
                     json_item_to_rust(&name, vt,v, names)?
                 };
 
-                r.insert_default(name.to_string(), id, v);
+                if r.insert_default(name.to_string(), id, v) == false{
+                    Err(format!("{} {} is defined multiple times {}", span.line_str(), name, names))?
+                }
                 counter += 1;
             },
             NameType::SystemName(sn) =>{
diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs
index 7f55eeb..c3744fd 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs
@@ -97,8 +97,9 @@ impl TmpObj{
                            self.refs.into_ref_def_obj(), self.old))
     }
 
-    pub fn insert_default(&mut self, s : String, id : usize, v : RustValue){
-        self.default.insert(s, (id,v));
+    ///同じ名前のメンバがすでにあった場合falseを返す
+    pub fn insert_default(&mut self, s : String, id : usize, v : RustValue) -> bool{
+        self.default.insert(s, (id,v)).is_none()
     }
 
     pub fn into_list_item(self) -> CoreResult<ConstItem>{
-- 
2.43.0


From 0a671ffbfc4617b2c932825d4d8adb0cdd4f5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:42 +0000
Subject: [PATCH 18/62] fix: refuse a table that has the same ID more than once

---
 dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
index 60f26bb..34f1d3d 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
@@ -212,7 +212,11 @@ fn to_list_items(vec : Vec<TmpObj>) -> CoreResult<Vec<ConstItem>>{
 fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
     let mut result : HashM<String, ConstItem> = HashMt::with_capacity(vec.len());
     for item in vec{
+        let span = item.span.clone();
         let (s,m) = item.into_list_item_with_id()?;
+        if result.contains_key(&s){
+            Err(format!("{} ID {} is used multiple times {}", span.line_str(), s, span.slice()))?
+        }
         result.insert(s, m);
     }
     return Ok(result);
-- 
2.43.0


From 2e1b750f2318ac45098b663aff3603a5df44b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:04 +0000
Subject: [PATCH 19/62] fix: accept an integer as the ID of an item of a
 mutable list

---
 dochy_core/src/imp/json_to_rust/get_id.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dochy_core/src/imp/json_to_rust/get_id.rs b/dochy_core/src/imp/json_to_rust/get_id.rs
index 52cd204..e889ed9 100644
--- a/dochy_core/src/imp/json_to_rust/get_id.rs
+++ b/dochy_core/src/imp/json_to_rust/get_id.rs
@@ -4,6 +4,7 @@ use dochy_json5::{JVal};
 pub(crate) fn get_id(v : &JVal) -> Option<IdValue> {
     match v {
         JVal::String(s, _) => Some(IdValue::Str(s.to_string())),
+        JVal::Int(i, _) if 0 <= *i => Some(IdValue::Num(*i as u64)),
         JVal::Double(d, _) => Some(IdValue::Num(*d as u64)),
         _ => None
     }
-- 
2.43.0


From ecbc34704a43c1b358461d04e10a76f7edbb0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:19 +0000
Subject: [PATCH 20/62] fix: refuse repeated IDs in a mutable list and a next
 ID that is already in use

---
 .../imp/json_to_rust/list/list_attribute.rs   |  2 +-
 .../src/imp/json_to_rust/tmp/tmp_list.rs      | 26 +++++++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/list/list_attribute.rs b/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
index f9d1dd3..dc1bb9d 100644
--- a/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
+++ b/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
@@ -38,7 +38,7 @@ pub(crate) fn list_attribute(array : &Vec<JVal>, span : &Span, names : &Names) -
                 "NextID" =>{
                     if array.len() == 2{
                         match array[1]{
-                            JVal::Int(n, _) =>{
+                            JVal::Int(n, _) if 0 <= n =>{
                                 return Ok(ListAttribute::NextID(n as u64))
                             }
                             _ =>{}
diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
index 34f1d3d..f6b2d62 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
@@ -136,9 +136,7 @@ impl TmpList{
             Err(format!("{} Default must be defined {}", self.span.line_str(), self.span.slice()))?
         }
 
-        let next_id = self.next_id.unwrap_or(self.vec.len() as u64);
-
-        let items = to_mut_list_items(self.vec, next_id)?;
+        let items = to_mut_list_items(self.vec, self.next_id)?;
         //let compatible = self.compatible.unwrap_or_else(|| HashSt::new());
         let def = self.default.unwrap();
         Ok((MutListDef::new(def, undefiable), Some(MutListVal::new(items))))
@@ -155,9 +153,7 @@ impl TmpList{
             Err(format!("{} Default must not be defined {}", self.span.line_str(), self.span.slice()))?
         }
 
-        let next_id = self.next_id.unwrap_or(self.vec.len() as u64);
-
-        let items = to_mut_list_items(self.vec, next_id)?;
+        let items = to_mut_list_items(self.vec, self.next_id)?;
 
         Ok(MutListVal::new(items))
     }
@@ -222,12 +218,26 @@ fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
     return Ok(result);
 }
 
-fn to_mut_list_items(vec : Vec<TmpObj>, next_id : u64) -> CoreResult<LinkedMap<MutItem>>{
+fn to_mut_list_items(vec : Vec<TmpObj>, next_id : Option<u64>) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(vec.len());
+    let mut ids : HashS<u64> = HashSt::with_capacity(vec.len());
+    //NextIDが書かれていない場合、すべてのIDより大きくする
+    let mut min_next_id = vec.len() as u64;
     for (idx, tmp_item) in vec.into_iter().enumerate(){
-        //let span = tmp_item.span.clone();
+        let span = tmp_item.span.clone();
         let pair = tmp_item.into_mut_list_item(idx)?;
+        let id = pair.0;
+        if ids.insert(id) == false{
+            Err(format!("{} ID {} is used multiple times {}", span.line_str(), id, span.slice()))?
+        }
+        if let Some(next_id) = next_id{
+            if next_id <= id{
+                Err(format!("{} ID {} must be less than NextID {} {}", span.line_str(), id, next_id, span.slice()))?
+            }
+        }
+        min_next_id = min_next_id.max(id.saturating_add(1));
         result.push(pair);
     }
+    let next_id = next_id.unwrap_or(min_next_id);
     return Ok(LinkedMap::construct(result, next_id));
 }
\ No newline at end of file
-- 
2.43.0


From 3427e2d3c189aeca1d9d63f8352ab829bff50b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:42 +0000
Subject: [PATCH 21/62] fix: refuse null and undefined defaults of members that
 don't allow them

---
 .../src/imp/json_to_rust/validation/validate_list_def.rs   | 6 +++++-
 .../src/imp/json_to_rust/validation/validate_root.rs       | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
index 1451db3..2869fb4 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
@@ -35,7 +35,11 @@ pub(crate) fn validate_list_def(def : &ListDefObj, root : &RootObject, can_use_o
                 }
                 validate_list_def(d, root, can_use_old, is_mut,&names.append(name))?;
             },
-            ListDefValue::Param(_,_) => {},
+            ListDefValue::Param(p, vt) => {
+                if vt.acceptable(&p.qv_type()) == false{
+                    Err(format!("{} {} is null or undefined in spite of its type", names, name))?
+                }
+            },
             //_ => { Err(format!("{} {} can't be defined here", names, name))? }
         }
     }
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
index 9fd7f26..da89c99 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
@@ -33,10 +33,13 @@ pub(crate) fn validate_root(root : &RootObject, can_use_old: bool) -> CoreResult
         //RootはOldでも値を入れざるを得ないので入れて良い
         //なのでここではOldは無視
         match val {
-            RootValue::Param(p, _) => {
+            RootValue::Param(p, vt) => {
+                if vt.acceptable(&p.qv_type()) == false{
+                    Err(format!("Root's member {} is null or undefined in spite of its type", name))?
+                }
                 if let Some(sab) = root.sabun().get(name) {
                     if let RootSabValue::Param(sab) = sab {
-                        if p.acceptable(sab) == false {
+                        if p.acceptable(sab) == false || vt.acceptable(&sab.qv_type()) == false {
                             Err(format!("Root's member {}'s sabun is invalid", name))?
                         }
                     } else {
-- 
2.43.0


From 1852b976990dff06ae2b1407378c27486e0c7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:00 +0000
Subject: [PATCH 22/62] fix: refuse default references to missing table items

---
 .../validation/validate_list_def.rs           |  2 +-
 .../validation/validate_ref_def.rs            | 15 ++++++-
 .../json_to_rust/validation/validate_refs.rs  | 41 +++++++++++--------
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
index 2869fb4..8639fc2 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
@@ -10,7 +10,7 @@ use crate::imp::structs::list_def_obj::ListDefObj;
 /// Itemについて調べるvalidate_list/data/mut_listとは違う
 /// is_mutの場合、InnerMutしか認めない
 pub(crate) fn validate_list_def(def : &ListDefObj, root : &RootObject, can_use_old : bool, is_mut : bool, names : &Names) -> CoreResult<()> {
-    validate_ref_def(def.refs(), names)?;
+    validate_ref_def(def.refs(), root, can_use_old, names)?;
     validate_old_list_def_mem(def.old(), def.default(), names)?;
 
     for (name,_, val) in def.default().iter() {
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
index 056830d..6905da4 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
@@ -3,9 +3,11 @@ use crate::error::CoreResult;
 use crate::imp::json_to_rust::validation::validate_old_def_mem::validate_old_ref_def;
 use crate::imp::structs::ref_def_obj::RefDefObj;
 use crate::imp::structs::qv::Qv;
+use crate::imp::structs::root_obj::RootObject;
+use crate::imp::json_to_rust::validation::validate_refs::validate_ref_target;
 
 
-pub(crate) fn validate_ref_def(def : &RefDefObj, names : &Names) -> CoreResult<()> {
+pub(crate) fn validate_ref_def(def : &RefDefObj, root : &RootObject, can_use_old : bool, names : &Names) -> CoreResult<()> {
     if def.is_enum() {
         for (_, _, v) in def.refs() {
             match v.value() {
@@ -13,6 +15,17 @@ pub(crate) fn validate_ref_def(def : &RefDefObj, names : &Names) -> CoreResult<(
                 _ => Err(format!("{} all default members of Enum must be null", names))?,
             }
         }
+    } else{
+        for (name, _, v) in def.refs() {
+            if v.var_type().acceptable(&v.value().qv_type()) == false{
+                Err(format!("{} ref {} is null or undefined in spite of its type", names, name))?
+            }
+            match v.value() {
+                //空のデフォルト値は、アイテム側で必ず定義するという意味になる
+                Qv::Val(id) if id.is_empty() == false => validate_ref_target(name, id, root, can_use_old, names)?,
+                _ => {},
+            }
+        }
     }
     if def.is_enum() {
         validate_old_ref_def(def.old(), def.refs(), &names.append("Enum"))?;
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs b/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
index eff5404..6f23f30 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
@@ -42,23 +42,7 @@ pub(crate) fn validate_refs(def : &RefDefObj, sabun : &HashM<String, RefSabValue
                         if id.is_empty(){
                             Err(format!("{} ref {} is empty", names, name))?
                         }
-                        match root.default().get(name) {
-                            Some(RootValue::Table(d)) => {
-                                if d.list().get(id).is_none() {
-                                    Err(format!("{}'s {} was not found {}", name, id, names))?
-                                }
-                                if can_use_old == false && d.old().contains(id) {
-                                    Err(format!("{}'s {} is old {}", name, id, names))?
-                                }
-                                continue;
-                            },
-                            Some(_) => {
-                                Err(format!("{} the root object's {} was not Data", names, name))?
-                            },
-                            None => {
-                                Err(format!("{} the root object's {} was not found", names, name))?
-                            }
-                        }
+                        validate_ref_target(name, id, root, can_use_old, names)?;
                     },
                     _ =>{
                         //nullとかundefinedとかは有効な値である
@@ -71,4 +55,25 @@ pub(crate) fn validate_refs(def : &RefDefObj, sabun : &HashM<String, RefSabValue
 
 
     return Ok(());
-}
\ No newline at end of file
+}
+
+///参照先のTableとIDが存在するか
+pub(crate) fn validate_ref_target(name : &str, id : &str, root : &RootObject, can_use_old: bool, names : &Names) -> CoreResult<()>{
+    match root.default().get(name) {
+        Some(RootValue::Table(d)) => {
+            if d.list().get(id).is_none() {
+                Err(format!("{}'s {} was not found {}", name, id, names))?
+            }
+            if can_use_old == false && d.old().contains(id) {
+                Err(format!("{}'s {} is old {}", name, id, names))?
+            }
+        },
+        Some(_) => {
+            Err(format!("{} the root object's {} was not Data", names, name))?
+        },
+        None => {
+            Err(format!("{} the root object's {} was not found", names, name))?
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From 8a33b19465ef000be2331f1e81986a15296cf411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:17 +0000
Subject: [PATCH 23/62] fix: write tables and constant lists when a document is
 converted to JSON

---
 dochy_core/src/imp/rust_to_json/root_to_json.rs | 5 ++---
 dochy_core/src/imp/structs/root_value.rs        | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dochy_core/src/imp/rust_to_json/root_to_json.rs b/dochy_core/src/imp/rust_to_json/root_to_json.rs
index e0b4fd9..ae98f85 100644
--- a/dochy_core/src/imp/rust_to_json/root_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/root_to_json.rs
@@ -30,9 +30,8 @@ pub fn root_to_json_new_default(obj : &RootObject) -> CoreResult<Value> {
                 result.insert(name, RustValue::Param(p, vt));
             }
         } else{
-            if let Some(sab) = sabun.remove(&name) {
-                result.insert(name, val.into_rust_value(sab)?);
-            }
+            let sab = sabun.remove(&name);
+            result.insert(name, val.into_rust_value(sab)?);
         }
     }
 
diff --git a/dochy_core/src/imp/structs/root_value.rs b/dochy_core/src/imp/structs/root_value.rs
index 57f2772..8404642 100644
--- a/dochy_core/src/imp/structs/root_value.rs
+++ b/dochy_core/src/imp/structs/root_value.rs
@@ -17,13 +17,13 @@ pub enum RootValue{
 
 impl RootValue{
 
-    pub fn into_rust_value(self, sab : RootSabValue) -> CoreResult<RustValue>{
+    pub fn into_rust_value(self, sab : Option<RootSabValue>) -> CoreResult<RustValue>{
         match self{
             RootValue::Param(p,v) => Ok(RustValue::Param(p,v)),
             RootValue::Table(d) => Ok(RustValue::Table(d)),
             RootValue::CList(d) => Ok(RustValue::CList(d)),
             RootValue::MList(d) =>{
-                if let RootSabValue::Mut(m) = sab {
+                if let Some(RootSabValue::Mut(m)) = sab {
                     Ok(RustValue::MList((d, m)))
                 } else{
                     Err("unmatched Mut List")?
-- 
2.43.0


From ae4c8666211541da177d1e6e64d241e8708acdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:22 +0000
Subject: [PATCH 24/62] fix: escape strings when a document is converted to
 JSON

---
 dochy_core/src/imp/structs/my_json.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/structs/my_json.rs b/dochy_core/src/imp/structs/my_json.rs
index da60408..9476a54 100644
--- a/dochy_core/src/imp/structs/my_json.rs
+++ b/dochy_core/src/imp/structs/my_json.rs
@@ -23,7 +23,7 @@ impl Value{
 fn write(value : &Value, s : &mut String, indent_level : usize){
     match value{
         Value::Bool(b) => s.push_str(&b.to_string()),
-        Value::String(val) => s.push_str(&format!(r#""{}""#, val)),
+        Value::String(val) => write_string(val, s),
         Value::Null => s.push_str("null"),
         Value::Undefined => s.push_str("undefined"),
         Value::Number(f) => s.push_str(&f.to_string()),
@@ -32,6 +32,21 @@ fn write(value : &Value, s : &mut String, indent_level : usize){
     }
 }
 
+fn write_string(val : &str, s : &mut String){
+    s.push('"');
+    for c in val.chars(){
+        match c{
+            '"' => s.push_str("\\\""),
+            '\\' => s.push_str("\\\\"),
+            '\n' => s.push_str("\\n"),
+            '\r' => s.push_str("\\r"),
+            c if c.is_control() => s.push_str(&format!("\\u{:04x}", c as u32)),
+            c => s.push(c),
+        }
+    }
+    s.push('"');
+}
+
 fn write_array(array : &Vec<Value>, s : &mut String, indent_level : usize){
     if array.len() == 0{
         s.push_str("[]");
-- 
2.43.0


From c726d08d015a54c8d0836056ebe31c3d8de365b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:28 +0000
Subject: [PATCH 25/62] fix: write integers and reals exactly when a document
 is converted to JSON

---
 dochy_core/src/imp/rust_to_json/get_param.rs        |  2 +-
 .../src/imp/rust_to_json/list/tmp_list_to_json.rs   |  2 +-
 .../src/imp/rust_to_json/list/tmp_obj_to_json.rs    |  2 +-
 dochy_core/src/imp/structs/my_json.rs               | 13 ++++++++++++-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/dochy_core/src/imp/rust_to_json/get_param.rs b/dochy_core/src/imp/rust_to_json/get_param.rs
index 077cbcc..3a5e64d 100644
--- a/dochy_core/src/imp/rust_to_json/get_param.rs
+++ b/dochy_core/src/imp/rust_to_json/get_param.rs
@@ -9,7 +9,7 @@ pub(crate) fn get_param(v : &RustParam) -> Value{
         RustParam::String(s) => to(s, "Str", |s| Value::String(s.str().to_string())),
         RustParam::Float(n)=> to(n, "Float",
                                  |n| Value::Array(vec![Value::String("Float".to_string()), Value::Number(*n)])),
-        RustParam::Int(n)=> to(n, "Int", |n| Value::Number(*n as f64)),
+        RustParam::Int(n)=> to(n, "Int", |n| Value::Int(*n)),
         _ =>{
             let (array, at) = v.to_rust_array().unwrap();
             rust_array_to_json(&array, &at)
diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs b/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
index 1e94ecc..620838b 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
@@ -20,7 +20,7 @@ pub(crate) fn rust_list_to_json(l : &TmpJsonList, list_type : ListType) -> Value
    if let Some(next_id) = l.next_id {
       result.push(Value::Array(vec![
          val_str("NextID"),
-         Value::Number(next_id as f64)
+         Value::Int(next_id as i64)
       ]));
    }
    //余計な情報は上に持ってきて、defaultとvecの距離を近づけよう
diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs b/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
index 689a94e..7059852 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
@@ -9,7 +9,7 @@ pub(crate) fn tmp_obj_to_json(obj : &TmpJsonObj) -> Value{
     let mut result = value_map_to_json(&obj.default);
     if let Some(id) = &obj.id{
         match id{
-            IdValue::Num(id) =>{ result.insert("ID".to_string(), Value::Number(*id as f64)); },
+            IdValue::Num(id) =>{ result.insert("ID".to_string(), Value::Int(*id as i64)); },
             IdValue::Str(s) =>{ result.insert("ID".to_string(), Value::String(s.to_string())); },
         }
     }
diff --git a/dochy_core/src/imp/structs/my_json.rs b/dochy_core/src/imp/structs/my_json.rs
index 9476a54..3d2d5c3 100644
--- a/dochy_core/src/imp/structs/my_json.rs
+++ b/dochy_core/src/imp/structs/my_json.rs
@@ -5,6 +5,7 @@ pub enum Value{
     Bool(bool),
     String(String),
     Number(f64),
+    Int(i64),
     Array(Vec<Value>),
     ///HashMapだと毎回順序が変わるみたいなので、一応alphabetical orderにしておこう
     Map(BTreeMap<String, Value>),
@@ -26,12 +27,22 @@ fn write(value : &Value, s : &mut String, indent_level : usize){
         Value::String(val) => write_string(val, s),
         Value::Null => s.push_str("null"),
         Value::Undefined => s.push_str("undefined"),
-        Value::Number(f) => s.push_str(&f.to_string()),
+        Value::Number(f) => write_float(*f, s),
+        Value::Int(i) => s.push_str(&i.to_string()),
         Value::Array(v) => write_array(v, s, indent_level + 1),
         Value::Map(obj) => write_map(obj, s, indent_level + 1),
     }
 }
 
+fn write_float(f : f64, s : &mut String){
+    if f.is_infinite(){
+        s.push_str(if f < 0.0{ "-Infinity" } else{ "Infinity" });
+    } else{
+        //整数と区別がつくように、小数点か指数を必ず付ける
+        s.push_str(&format!("{:?}", f));
+    }
+}
+
 fn write_string(val : &str, s : &mut String){
     s.push('"');
     for c in val.chars(){
-- 
2.43.0


From b5d94888f434a1bc58d3b4624b3745656ddb918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:33 +0000
Subject: [PATCH 26/62] fix: keep undefiable lists, inner next IDs and old
 references when a document is converted to JSON

---
 .../src/imp/rust_to_json/list/ref_def_obj_to_json.rs     | 6 ++++++
 dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs    | 2 +-
 .../src/imp/rust_to_json/rust_value_to_json_value.rs     | 9 ++++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs b/dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs
index 50f4fe5..1c586fd 100644
--- a/dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs
@@ -3,6 +3,8 @@ use crate::imp::structs::ref_def_obj::RefDefObj;
 use crate::imp::structs::qv::Qv;
 use crate::imp::structs::var_type::VarType;
 use crate::imp::structs::my_json::Value;
+use crate::imp::rust_to_json::string_set_to_json::string_set_to_json_short;
+use crate::imp::rust_to_json::list::tmp_json_list::btree_set;
 
 pub(crate) fn ref_def_obj_to_json(obj : &RefDefObj) -> BTreeMap<String, Value>{
     let mut result : BTreeMap<String, Value> = BTreeMap::new();
@@ -12,6 +14,10 @@ pub(crate) fn ref_def_obj_to_json(obj : &RefDefObj) -> BTreeMap<String, Value>{
         result.insert(key, value);
     }
 
+    if obj.old().len() != 0 {
+        result.insert("Old".to_string(), string_set_to_json_short(&btree_set(obj.old())));
+    }
+
     return result;
 }
 
diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs b/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
index 2da154f..3c1efcf 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
@@ -106,7 +106,7 @@ impl TmpJsonList{
 
     pub(crate) fn from_inner_mut(l : &MutListVal) -> TmpJsonList{
         TmpJsonList{ vec : l.list().iter().map(|(id, item)| TmpJsonObj::from_mut_list_item(item, *id)).collect(),
-            next_id: None, old : None, default : None }
+            next_id: Some(l.list().next_id()), old : None, default : None }
     }
 }
 
diff --git a/dochy_core/src/imp/rust_to_json/rust_value_to_json_value.rs b/dochy_core/src/imp/rust_to_json/rust_value_to_json_value.rs
index 40f02e3..01a3861 100644
--- a/dochy_core/src/imp/rust_to_json/rust_value_to_json_value.rs
+++ b/dochy_core/src/imp/rust_to_json/rust_value_to_json_value.rs
@@ -16,7 +16,14 @@ pub(crate) fn rust_value_to_json_value(v : &RustValue, name : &str) -> (String,
         },
         RustValue::Table(l) => { rust_list_to_json(&TmpJsonList::from_const_data(l), ListType::Table) },
         RustValue::CList(l) => { rust_list_to_json(&TmpJsonList::from_const_list(l), ListType::CList) },
-        RustValue::MList((d, m)) => { rust_list_to_json(&TmpJsonList::from_mut_list(d, m), ListType::MList) },
+        RustValue::MList((d, m)) => {
+            let val = rust_list_to_json(&TmpJsonList::from_mut_list(d, m), ListType::MList);
+            if d.undefiable(){
+                return (name_with_suffix(name, VarType::Undefiable), val);
+            } else{
+                val
+            }
+        },
         //RustValue::InnerData(l) => { rust_list_to_json(&TmpJsonList::from_inner_data(l), ListType::InnerData) },
         RustValue::Cil(l) => { rust_list_to_json(&TmpJsonList::from_inner_list(l), ListType::Cil) },
         RustValue::Mil(l) => {
-- 
2.43.0


From a93aa5e91db0d8004366e4f075f3547cce557a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:56 +0000
Subject: [PATCH 27/62] fix: adjust inner lists of old data by their own
 definition

---
 .../src/imp/version_adjuster/adjust_mut_list_item_sabun.rs  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 94b8d4e..cdba8f0 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -50,7 +50,11 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
             ListSabValue::Mil(op) =>{
                 match op{
                     Some(im) =>{
-                        let new = adjust_mut_list(def, im, &names.append(def_key))?;
+                        let inner_def = match def_v{
+                            ListDefValue::MilDef(d) => d.default(),
+                            _ =>{ Err(format!("{} {} is not a Mil in the new version", names, def_key))? }
+                        };
+                        let new = adjust_mut_list(inner_def, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
-- 
2.43.0


From d97eebc7e6634dc6599926c4c799ef0af79faa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:08 +0000
Subject: [PATCH 28/62] fix: don't make members of old items undefined that the
 old version already had

---
 .../src/imp/version_adjuster/adjust_mut_list.rs     | 11 ++++++-----
 .../version_adjuster/adjust_mut_list_item_ref.rs    |  4 ++--
 .../version_adjuster/adjust_mut_list_item_sabun.rs  | 13 +++++++++----
 .../src/imp/version_adjuster/version_adjuster.rs    |  6 +++++-
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
index d69776c..b615f68 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
@@ -8,14 +8,14 @@ use crate::imp::structs::linked_m::LinkedMap;
 use std::sync::Arc;
 
 
-pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
+pub(crate) fn adjust_mut(def : &ListDefObj, old_def : Option<&ListDefObj>, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(old_list.len());
     let next_id = old_list.next_id();
     for (id, value) in old_list{
         let (sabun, refs) = value.muts();
 
-        let new_sabun = adjust_mut_list_item_sabun(def, sabun, names)?;
-        let new_refs = adjust_mut_list_item_ref(def.refs(), refs, names)?;
+        let new_sabun = adjust_mut_list_item_sabun(def, old_def, sabun, names)?;
+        let new_refs = adjust_mut_list_item_ref(def.refs(), old_def.map(|d| d.refs()), refs, names)?;
         result.push((*id, MutItem::new(new_sabun, new_refs)));
     }
     return Ok(LinkedMap::construct(result, next_id));
@@ -29,11 +29,12 @@ pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>,
 //     Ok(MutListVal::new(new_list))
 // }
 
-pub(crate) fn adjust_mut_list(def : &ListDefObj, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
+///old_defは旧バージョンのDefaultで、旧バージョンにもともとあったメンバはundefinedにしない
+pub(crate) fn adjust_mut_list(def : &ListDefObj, old_def : Option<&ListDefObj>, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
     let mut old_list = old.deconstruct();
     let old_list = Arc::make_mut(&mut old_list);
 
-    let new_list = adjust_mut(def, old_list, names)?;
+    let new_list = adjust_mut(def, old_def, old_list, names)?;
     //let next_id = new_list.len() as u64;
     Ok(MutListVal::new(new_list))
 }
\ No newline at end of file
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
index 499f6b2..d49f615 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
@@ -6,14 +6,14 @@ use crate::imp::structs::ref_value::RefSabValue;
 use crate::imp::structs::qv::Qv;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 
-pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
+pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_def : Option<&RefDefObj>, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
 
     //事前に大きさが決定できないが、refのusecaseだとundefinedは少なく、default値のままが多いと思うので、sabunのlenを使う
     let mut result : HashM<String, RefSabValue> = HashMt::with_capacity(old_ref.len());
 
     for (def_key,_, def_v) in def.refs(){
         let sabun_v = if let Some(v) = old_ref.remove(def_key){ v } else {
-            if def_v.var_type().undefiable(){
+            if def_v.var_type().undefiable() && old_def.map_or(true, |d| d.refs().contains_key(def_key) == false){
                 RefSabValue::new(Qv::Undefined)
             } else{
                 continue;
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index cdba8f0..dfc6abf 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -7,7 +7,7 @@ use crate::imp::structs::list_def_obj::ListDefObj;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 use crate::imp::structs::list_sab_value::ListSabValue;
 
-pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
+pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_def : Option<&ListDefObj>, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
 
 
     //デフォルトから変化しない場合はsabunには加わらないが、sabun.len()だと、
@@ -21,17 +21,18 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
     let mut result : HashM<String, ListSabValue> = HashMt::with_capacity(old_sabun.len());
 
     for (def_key,_, def_v) in def.default(){
+        let is_new = old_def.map_or(true, |d| d.default().contains_key(def_key) == false);
         let sabun_v = if let Some(v) = old_sabun.remove(def_key){ v } else {
             match def_v{
                 ListDefValue::Param(p, vt) =>{
-                    if vt.undefiable(){
+                    if vt.undefiable() && is_new{
                         ListSabValue::Param(p.to_undefined())
                     } else{
                         continue;
                     }
                 },
                 ListDefValue::MilDef(mut_def) =>{
-                    if mut_def.undefiable(){
+                    if mut_def.undefiable() && is_new{
                         ListSabValue::Mil(None)
                     } else{
                         continue;
@@ -54,7 +55,11 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
                             ListDefValue::MilDef(d) => d.default(),
                             _ =>{ Err(format!("{} {} is not a Mil in the new version", names, def_key))? }
                         };
-                        let new = adjust_mut_list(inner_def, im, &names.append(def_key))?;
+                        let old_inner_def = match old_def.and_then(|d| d.default().get(def_key)){
+                            Some(ListDefValue::MilDef(d)) => Some(d.default()),
+                            _ => None,
+                        };
+                        let new = adjust_mut_list(inner_def, old_inner_def, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
diff --git a/dochy_core/src/imp/version_adjuster/version_adjuster.rs b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
index 799ea62..577f1a2 100644
--- a/dochy_core/src/imp/version_adjuster/version_adjuster.rs
+++ b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
@@ -61,7 +61,11 @@ pub fn adjust_versions(new : RootObject, old : RootObject, validation : bool) ->
                 if undef == false {
                     if let Some(RootSabValue::Mut(m_val)) = old_sabun.remove(def_key) {
                         if let Some(m_val) = m_val {
-                            let new_m = adjust_mut_list(m.default(), m_val, &Names::new(def_key))?;
+                            let old_m = match old_def.get(def_key){
+                                Some(RootValue::MList(old_m)) => Some(old_m.default()),
+                                _ => None,
+                            };
+                            let new_m = adjust_mut_list(m.default(), old_m, m_val, &Names::new(def_key))?;
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(Some(new_m)));
                         } else{
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(None));
-- 
2.43.0


From 472f807108bfd178ef97cbd4e8ce20e22b05e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 29/62] fix: read the tag of a history file up to its end

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index ccab0a8..a8c98ea 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -99,7 +99,7 @@ fn get_tag(s : &str) -> Option<&str>{
     }
     for (i,c) in bytes.iter().skip(1).enumerate(){
         if *c == '#' as u8{
-            return Some(&s[1..i])
+            return Some(&s[1..i+1])
         }
     }
     return None;
-- 
2.43.0


From 1d8868c4d768b962ac14f445f54ae25f4cd13daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 30/62] fix: don't overflow on folder names that are not
 hexadecimal

---
 dochy_fs/src/imp/common/path/hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/hash.rs b/dochy_fs/src/imp/common/path/hash.rs
index f7a44b7..6f5635e 100644
--- a/dochy_fs/src/imp/common/path/hash.rs
+++ b/dochy_fs/src/imp/common/path/hash.rs
@@ -17,11 +17,11 @@ fn hex_to_u64(s : &[u8]) -> Option<u64>{
     loop{
         r <<= 4;
         let b = s[index];
-        let num = b - '0' as u8;
+        let num = b.wrapping_sub('0' as u8);
         if num <= 9 {
             r += num as u64;
         } else{
-            let num = b - 'a' as u8;
+            let num = b.wrapping_sub('a' as u8);
             if num <= 5{
                 r += 10 + num as u64;
             } else{
-- 
2.43.0


From 715ff1e24713423aab313946ee4b4011f6dda78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 31/62] fix: don't overflow when limit_nth is larger than the
 number of phases

---
 dochy_fs/src/imp/history/algo/phase_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/algo/phase_data.rs b/dochy_fs/src/imp/history/algo/phase_data.rs
index cf74d7c..bac2745 100644
--- a/dochy_fs/src/imp/history/algo/phase_data.rs
+++ b/dochy_fs/src/imp/history/algo/phase_data.rs
@@ -77,7 +77,7 @@ impl PhaseData{
 
         sizes.sort_by_key(|a| *a);
 
-        sizes.get(sizes.len() - nth).map(|a| *a)
+        sizes.get(sizes.len().checked_sub(nth)?).map(|a| *a)
     }
 }
 
-- 
2.43.0


From e7e8b9c5491493fab92da256a35062ca1ef191a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 32/62] fix: keep the branch of the parent when a history
 without the cumulative option goes on

---
 dochy_fs/src/imp/history/file_hist/ancestors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/ancestors.rs b/dochy_fs/src/imp/history/file_hist/ancestors.rs
index 6bff18c..6152ad1 100644
--- a/dochy_fs/src/imp/history/file_hist/ancestors.rs
+++ b/dochy_fs/src/imp/history/file_hist/ancestors.rs
@@ -69,7 +69,7 @@ pub(crate) fn create_dependencies<'a,'b>(ancestors : &'b[&'a FileNameProps],
     if order.len() - 1 < max_phase{
         order.push(0);
         prev_ctl = last_prop.control();
-    } else if next_phase == max_phase{
+    } else if next_phase == max_phase && cumulative {
         *order.last_mut().unwrap() += 1;
         prev_ctl = last_prop.control();
     } else {
-- 
2.43.0


From ac743771f2e7b6869aaf22274e56e04753fe6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 33/62] fix: keep the parents of history files one phase above
 the cumulative phase

---
 dochy_fs/src/imp/history/remove/history_remover_item.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover_item.rs b/dochy_fs/src/imp/history/remove/history_remover_item.rs
index 6362c88..f418b32 100644
--- a/dochy_fs/src/imp/history/remove/history_remover_item.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover_item.rs
@@ -81,7 +81,8 @@ impl<'a> HistoryRemoverItem<'a>{
                        cur_phase : usize, max_phase : usize, cumulative_option : bool) -> HistoryRemoverItem<'a>{
 
         let r = composite_remover(src.items(), src.children(), cur_phase, max_phase, cumulative_option);
-        let cumulative = cur_phase == max_phase && cumulative_option;
+        //cur_phase is the phase of the children
+        let cumulative = cur_phase == max_phase + 1 && cumulative_option;
         HistoryRemoverItem::new(cumulative, props,  r)
     }
 }
-- 
2.43.0


From 3fffa9bda4665ce3373a8254c5332edfb37e5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 34/62] fix: start a new history branch when the file to derive
 from has no parent or was removed

---
 .../src/imp/history/pub_fn/save_history_file.rs  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 32dabea..c345ec4 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -95,17 +95,21 @@ fn save_history_file_impl(history_info: &HistoryInfo,
         if root_id.ptr_eq(info.current_root_id()) {
             let history = create_file_history(&history_hash_dir, opt.max_phase(), opt.is_cumulative())?;
             if let Some(newest) = history.get_newest_prop() {
-                let from = if info.current_base_file().phase() == opt.max_phase() && info.current_base_file() != newest {
+                let base = info.current_base_file();
+                let from = if base.phase() == opt.max_phase() && base != newest {
                     //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
-                    history.get_parent(info.current_base_file()).ok_or("no parents found")?
+                    history.get_parent(base)
                 } else {
-                    info.current_base_file()
+                    history.get_props(base.control(), base.order())
                 };
 
-                let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
-                *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
+                //派生元がないか削除されている場合は、新しく始める
+                if let Some(from) = from {
+                    let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
+                    *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
 
-                return Ok(saved);
+                    return Ok(saved);
+                }
             }
         }
     }
-- 
2.43.0


From 968dda9963cb7541f98de28aba5240f4ffa5853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 35/62] fix: report unreadable history files as errors when
 they are loaded with multiple threads

---
 dochy_fs/src/imp/common/apply_items.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/common/apply_items.rs b/dochy_fs/src/imp/common/apply_items.rs
index fa0043b..996dd3d 100644
--- a/dochy_fs/src/imp/common/apply_items.rs
+++ b/dochy_fs/src/imp/common/apply_items.rs
@@ -25,26 +25,31 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
                                                      mut func : F) -> FsResult<RootObject> {
 
 
-    let (sender, receiver): (Sender<(usize,RootDiffR)>, Receiver<(usize,RootDiffR)>) = std::sync::mpsc::channel();
+    let (sender, receiver): (Sender<FsResult<(usize,RootDiffR)>>, Receiver<FsResult<(usize,RootDiffR)>>) = std::sync::mpsc::channel();
     let meta_table_arc = root.meta_table_arc();
     let paths_len = paths.len();
 
     std::thread::spawn(move ||{
         for (i,path) in paths.iter().enumerate() {
-            let mut file = open_diff_file_without_metadata(path).unwrap();
-            let v = DochyDiff::read_value(&mut file).unwrap();
+            let v = match open_diff_file_without_metadata(path).and_then(|mut file| DochyDiff::read_value(&mut file)){
+                Ok(v) => v,
+                Err(e) =>{
+                    sender.send(Err(e)).ok();
+                    return;
+                }
+            };
             let sender = sender.clone();
             let meta_table_arc = meta_table_arc.clone();
             rayon::spawn_fifo(move ||{
-                let va = v.prepare(meta_table_arc.as_ref()).unwrap();
-                sender.send((i, va)).unwrap();
+                //the receiver is gone when another item has failed
+                sender.send(v.prepare(meta_table_arc.as_ref()).map(|va| (i, va))).ok();
             });
         }
     });
     let mut map : HashMap<usize, RootDiffR> = HashMap::new();
     let mut current_index = 0;
     for t_i in 0..paths_len {
-        let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))?;
+        let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))??;
         map.insert(i, va);
         apply_several_items(&mut root, &mut current_index, &mut map, &mut func)?;
     }
-- 
2.43.0


From 6a587f2c0226db57c0e9f89885f0743a55483016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 36/62] fix: refuse to save a file by the name of a system file

---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index 8ebcb68..f570ed0 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -6,6 +6,7 @@ use dochy_core::structs::RootObject;
 use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
+use crate::imp::common::path::reserved_filename::is_reserved_filename;
 
 
 /// saves a Dochy file.
@@ -13,6 +14,9 @@ pub fn save_dochy_file(info : &SaveDirInfo,
                        file_name : &str,
                        root: &RootObject,
                        overwrite : bool) -> FsResult<PathBuf>{
+    if is_reserved_filename(file_name){
+        Err(format!("{} couldn't be saved. {} is a system file.", file_name, file_name))?
+    }
     let mutex = get_mutex(info.save_dir()).unwrap();
     let info = mutex.cache();
     let save_dir = info.save_dir();
-- 
2.43.0


From fe1bb6b7c74cbdbc5426adb9d5f00f988bbd122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 37/62] fix: don't panic on a damaged created time file

---
 dochy_fs/src/imp/common/path/created_time_file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/common/path/created_time_file.rs b/dochy_fs/src/imp/common/path/created_time_file.rs
index 27fe981..dac90b7 100644
--- a/dochy_fs/src/imp/common/path/created_time_file.rs
+++ b/dochy_fs/src/imp/common/path/created_time_file.rs
@@ -19,6 +19,8 @@ pub(crate) fn from_time_dat<R : Read>(read : &mut R) -> FsResult<SystemTime>{
     read.read_exact(&mut nanos)?;
     let secs = u64::from_le_bytes(secs);
     let nanos =  u32::from_le_bytes(nanos);
-    let time = SystemTime::UNIX_EPOCH + Duration::from_secs(secs) + Duration::from_nanos(nanos as u64);
+    let time = SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(secs))
+        .and_then(|t| t.checked_add(Duration::from_nanos(nanos as u64)))
+        .ok_or("created time is out of range")?;
     Ok(time)
 }
\ No newline at end of file
-- 
2.43.0


From 48dd8a0a7c5425f899f24f5799aa719b8cc73141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:37 +0000
Subject: [PATCH 38/62] fix: don't list directories as saved files

---
 dochy_fs/src/imp/common/list/list_files_iterator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dochy_fs/src/imp/common/list/list_files_iterator.rs b/dochy_fs/src/imp/common/list/list_files_iterator.rs
index ed76b25..50ca5ca 100644
--- a/dochy_fs/src/imp/common/list/list_files_iterator.rs
+++ b/dochy_fs/src/imp/common/list/list_files_iterator.rs
@@ -77,10 +77,11 @@ impl InnerIterator {
 
 
 fn find_next_file(file_iter : &mut ReadDir) -> FsResult<Option<DirEntry>>{
-    if let Some(file) = file_iter.next(){
+    while let Some(file) = file_iter.next(){
         let file = file?;
-        return Ok(Some(file));
-    } else{
-        return Ok(None);
+        if file.file_type()?.is_dir() == false{
+            return Ok(Some(file));
+        }
     }
+    return Ok(None);
 }
\ No newline at end of file
-- 
2.43.0


From d44588a05e5de77d33981020133606a5dadb58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:13 +0000
Subject: [PATCH 39/62] fix: read history file names with numbers of any size

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index a8c98ea..30db1cc 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -132,13 +132,11 @@ fn get_num(s : &[u8]) -> Option<(u32, usize)>{
 
         let b = s[i];
         if '0' as u8 <= b && b <= '9' as u8{
-            result *= 10;
-            result += (b - '0' as u8) as u32;
+            result = result.checked_mul(10)?.checked_add((b - '0' as u8) as u32)?;
         } else{
-            return Some((result, i));
+            return if i == 1{ None } else{ Some((result, i)) };
         }
         i += 1;
-        if i == 10{ return None; } //オーバーフローは避ける
     }
 
 
-- 
2.43.0


From 5d14cb1a754b4a726b277925c9bf45a6417cd715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:39 +0000
Subject: [PATCH 40/62] fix: load a history file from the directory of the
 source version it was saved with

---
 dochy_fs/src/imp/history/file_hist/file_history.rs   |  9 +++++++--
 dochy_fs/src/imp/history/pub_fn/load_history_file.rs | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_hist/file_history.rs b/dochy_fs/src/imp/history/file_hist/file_history.rs
index 6249692..cbc204d 100644
--- a/dochy_fs/src/imp/history/file_hist/file_history.rs
+++ b/dochy_fs/src/imp/history/file_hist/file_history.rs
@@ -13,19 +13,24 @@ pub struct FileHistory{
     ctls : BTreeMap<u32, FileHistoryItem>,
     max_phase : usize,
     cumulative : bool,
+    ///hash of the source this history derives from, if it's known
+    hash : Option<u128>,
 }
 
 impl FileHistory{
     pub(crate) fn new(max_phase : usize, cumulative : bool) -> FileHistory{
-        FileHistory{ ctls : BTreeMap::new(), max_phase, cumulative }
+        FileHistory{ ctls : BTreeMap::new(), max_phase, cumulative, hash : None }
     }
 
     pub fn max_phase(&self) -> usize{ self.max_phase }
     pub fn cumulative(&self) -> bool{ self.cumulative }
+    pub(crate) fn hash(&self) -> Option<u128>{ self.hash }
 
     pub fn create<P : AsRef<Path>>(history_dir: P, hash : u128, max_phase : usize, cumulative : bool) -> FsResult<FileHistory>{
         let dir = hash_dir_path(history_dir.as_ref(), hash);
-        create_file_history(&dir, max_phase, cumulative)
+        let mut history = create_file_history(&dir, max_phase, cumulative)?;
+        history.hash = Some(hash);
+        Ok(history)
     }
 
     /// show every file in chronological order
diff --git a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
index 5bbc963..4d2aba6 100644
--- a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
@@ -20,13 +20,19 @@ pub fn load_history_file(history_info : &HistoryInfo,
 
     let mut guard = get_mutex(history_info.history_dir()).unwrap();
     let c = guard.peekable();
-    let hash = c.hash();
+    let current_hash = c.hash();
+    let hash = history.hash().unwrap_or(current_hash);
     let op = c.history_options().clone();
     let (cache,h) = guard.muts();
     match load_impl(history_info.history_dir(), hash,
                     props, history, cache, &op, validation){
         Ok(root) =>{
-            *h = Some(CurrentRootObjInfo::new(root.id(), props.clone()));
+            *h = if hash == current_hash {
+                Some(CurrentRootObjInfo::new(root.id(), props.clone()))
+            } else{
+                //the next file can't derive from a file of another version
+                None
+            };
             Ok(root)
         },
         Err(e) => Err(e),
-- 
2.43.0


From 01ef8fc6a37607ed7e2e1fe836c3f12af361b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:39 +0000
Subject: [PATCH 41/62] fix: find the newest history file when the newest
 source version has no history files

---
 dochy_fs/src/imp/history/file_hist/file_histories.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/file_histories.rs b/dochy_fs/src/imp/history/file_hist/file_histories.rs
index 3982a82..7bd60ec 100644
--- a/dochy_fs/src/imp/history/file_hist/file_histories.rs
+++ b/dochy_fs/src/imp/history/file_hist/file_histories.rs
@@ -26,7 +26,7 @@ impl FileHistories{
 
     /// gets the newest HisotryFileData
     pub fn get_newest_file_data(&self) -> Option<HistoryFileData>{
-        self.vec.last().and_then(|(hash, his)|
+        self.vec.iter().rev().find_map(|(hash, his)|
                                      his.get_newest_prop().map(|prop|
                                      HistoryFileData::new(*hash, his, prop)))
     }
-- 
2.43.0


From cf7fa40a55c69e04e44fc3bfb7607d298caaae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:55 +0000
Subject: [PATCH 42/62] fix: refuse tags of history files that can't be a part
 of a file name

---
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index c345ec4..aeec903 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -79,6 +79,11 @@ fn save_history_file_impl(history_info: &HistoryInfo,
                           tag : Option<String>,
                           root : &RootObject,
                           root_id : Weak<()>) -> FsResult<FileNameProps> {
+    if let Some(tag) = &tag{
+        if tag.contains(|c| matches!(c, '#' | '/' | '\\')){
+            Err(format!("the tag can't be a part of a file name {:?}", tag))?
+        }
+    }
     let history_dir = history_info.history_dir();
     let mut mutex = get_mutex(history_dir).unwrap();
     let p = mutex.peekable();
-- 
2.43.0


From 1f194769ec93ad7e5c707791e67662e2b78b1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:31 +0000
Subject: [PATCH 43/62] fix: don't make the hash of a source depend on the path
 of its directory

---
 .../imp/read_archive_data_from_directory.rs   | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dochy_archiver2/src/imp/read_archive_data_from_directory.rs b/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
index 34de3ba..e27a249 100644
--- a/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
+++ b/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
@@ -1,7 +1,7 @@
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use crate::{ArcResult, ArchiveOptions};
 use crate::imp::structs::archiver::Archiver;
-use std::collections::BTreeSet;
+use std::collections::BTreeMap;
 use crate::imp::structs::archive_data::ArchiveData;
 
 pub fn read_archive_data_from_directory<
@@ -9,18 +9,19 @@ pub fn read_archive_data_from_directory<
     T : Send + 'static>(path : P,
                         opt : &ArchiveOptions,
                         converter : impl Fn(&str, &[u8]) -> T + Send + Sync + 'static) -> ArcResult<ArchiveData<T>>{
-    let mut btree : BTreeSet<String> = BTreeSet::new();
-    get_paths_from_dir(path, opt, &mut btree)?;
+    //the archived paths are relative to the directory, so the hash doesn't depend on where the directory is
+    let mut btree : BTreeMap<String, PathBuf> = BTreeMap::new();
+    get_paths_from_dir(path.as_ref(), path.as_ref(), opt, &mut btree)?;
     let mut archiver = Archiver::new(converter);
-    for path in btree {
-        let data = std::fs::read(&path)?;
+    for (path, full_path) in btree {
+        let data = std::fs::read(&full_path)?;
         archiver.archive(path, data);
     }
     let hoge = archiver.finish();
     return hoge;
 }
 
-fn get_paths_from_dir<P : AsRef<Path>>(current_path : P, opt : &ArchiveOptions, btree : &mut BTreeSet<String>) -> ArcResult<()>{
+fn get_paths_from_dir(base_path : &Path, current_path : &Path, opt : &ArchiveOptions, btree : &mut BTreeMap<String, PathBuf>) -> ArcResult<()>{
     let dirs = std::fs::read_dir(current_path)?;
 
     for dir in dirs {
@@ -31,11 +32,13 @@ fn get_paths_from_dir<P : AsRef<Path>>(current_path : P, opt : &ArchiveOptions,
             let path = de.path();
             let ext = path.extension().map_or("", |e| e.to_str().unwrap_or(""));
             if opt.is_archived(ext){
-                btree.insert(path.to_string_lossy().to_string());
+                let relative = path.strip_prefix(base_path).unwrap_or(&path).to_str()
+                    .ok_or_else(|| format!("The path is not valid unicode {:?}", path))?.to_string();
+                btree.insert(relative, path);
             }
         } else if meta.is_dir(){
             if opt.archive_subfolders(){
-                get_paths_from_dir(de.path(), opt, btree)?;
+                get_paths_from_dir(base_path, &de.path(), opt, btree)?;
             }
         }
     }
-- 
2.43.0


From 7b66c4786870253cc37cfecc0f291ebc27acca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:35 +0000
Subject: [PATCH 44/62] fix: make the hash of a source depend on where its
 paths and contents end

---
 dochy_archiver2/src/imp/structs/hash_thread.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dochy_archiver2/src/imp/structs/hash_thread.rs b/dochy_archiver2/src/imp/structs/hash_thread.rs
index 165a2bc..c25ad64 100644
--- a/dochy_archiver2/src/imp/structs/hash_thread.rs
+++ b/dochy_archiver2/src/imp/structs/hash_thread.rs
@@ -20,7 +20,10 @@ impl HashThread{
                     Ok(Some((path, v))) =>{
                         let path : String = path;
                         let v : Arc<Vec<u8>> = v;
+                        //the lengths tell where the path and the data end
+                        hasher.write_u64(path.len() as u64);
                         hasher.write(path.as_bytes());
+                        hasher.write_u64(v.len() as u64);
                         hasher.write(v.as_ref())
                     },
                     Ok(None) => break,
-- 
2.43.0


From 102bda62d93f8df78a5187ddf60fdc81366a5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:09 +0000
Subject: [PATCH 45/62] fix: save list items of converted documents that lack
 values the new source gives them

---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index 2c97e4c..3634003 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -7,12 +7,14 @@ use crate::imp::prepare::moved_items::moved_items;
 pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b LinkedMap<MutItem>,
                               to_def : &'b ListDefObj, meta : &'b MetaTables) -> Option<ListDiffW<'b>>{
 
-    //the format has no way to move an item or to remove a reference from it,
-    // so such items are deleted and created again
+    //the format has no way to move an item or to remove a reference or a value from it,
+    // so such items are deleted and created again.
+    // A converted document can lack values which the items of the new source have
     let mut recreated = moved_items(from, to);
     for (&id, from_item) in from {
         if let Some(to_item) = to.get_item(id) {
-            if from_item.refs().keys().any(|key| to_item.refs().contains_key(key) == false) {
+            if from_item.refs().keys().any(|key| to_item.refs().contains_key(key) == false)
+                || from_item.values().keys().any(|key| to_item.values().contains_key(key) == false) {
                 recreated.insert(id);
             }
         }
-- 
2.43.0


From 1bd40a5c08343dfb22898a5977469767cbd25332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:48 +0000
Subject: [PATCH 46/62] fix: keep the earlier files of a cumulative history
 without phases

---
 dochy_fs/src/imp/history/remove/history_remover.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover.rs b/dochy_fs/src/imp/history/remove/history_remover.rs
index 919ffe6..8410ea4 100644
--- a/dochy_fs/src/imp/history/remove/history_remover.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover.rs
@@ -70,15 +70,13 @@ impl<'a> HistoryRemoverCtlItem<'a>{
     }
 
     pub(crate) fn get_item_from_cue(&self, cue_order : &[u32], cue_order_last : Option<u32>) -> Option<&'a HistoryRemoverItem>{
-        let mut item = self.items.get(cue_order.get(0)?)?;
+        // cue_order is empty when the earlier files of a cumulative phase 0 are looked for
+        let mut indices = cue_order.iter().chain(cue_order_last.iter());
+        let mut item = self.items.get(indices.next()?)?;
 
-        for ind in &cue_order[1..]{
+        for ind in indices{
             item = item.children().get(ind)?;
         }
-
-        if let Some(ind) = cue_order_last{
-            item = item.children().get(&ind)?;
-        }
         Some(item)
     }
 
-- 
2.43.0


From 31e3331508b44077458af7ea651bd64d47a20e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:18 +0000
Subject: [PATCH 47/62] fix: don't put unchanged NaN into differences

---
 dochy_core/src/imp/structs/rust_array.rs                | 3 ++-
 dochy_core/src/imp/structs/util/identity_equal_trait.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/rust_array.rs b/dochy_core/src/imp/structs/rust_array.rs
index 98e0a76..5fbcbcc 100644
--- a/dochy_core/src/imp/structs/rust_array.rs
+++ b/dochy_core/src/imp/structs/rust_array.rs
@@ -73,7 +73,8 @@ impl RustFloatArray{
 
 impl IdentityEqual for RustFloatArray{
     fn identity_eq(&self, other: &Self) -> bool {
-        self.b == other.b
+        self.b.len() == other.b.len()
+            && self.b.iter().zip(other.b.iter()).all(|(s, o)| s.identity_eq(o))
     }
 }
 
diff --git a/dochy_core/src/imp/structs/util/identity_equal_trait.rs b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
index 15de962..1831582 100644
--- a/dochy_core/src/imp/structs/util/identity_equal_trait.rs
+++ b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
@@ -43,7 +43,8 @@ impl IdentityEqual for i64{
 
 impl IdentityEqual for f64{
     fn identity_eq(&self, other: &Self) -> bool {
-        self == other
+        //NaN is not equal to itself, but it's identical
+        self.to_bits() == other.to_bits()
     }
 }
 
-- 
2.43.0


From 9dae1a2d75ddf9017a8ed15c0a73fcb85dfe3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:02 +0000
Subject: [PATCH 48/62] fix: report broken differences as errors instead of
 panicking

---
 dochy_diff/src/imp/apply/apply_root_diff.rs | 8 ++++----
 dochy_diff/src/imp/read/read_lists.rs       | 2 +-
 dochy_diff/src/imp/read/read_refs.rs        | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dochy_diff/src/imp/apply/apply_root_diff.rs b/dochy_diff/src/imp/apply/apply_root_diff.rs
index fdbe8dc..02f5055 100644
--- a/dochy_diff/src/imp/apply/apply_root_diff.rs
+++ b/dochy_diff/src/imp/apply/apply_root_diff.rs
@@ -11,13 +11,13 @@ pub(crate) fn apply_root_diff(root : &mut RootObject, diff : RootDiffR) -> Resul
     //let (mut default, mut sabun, old, meta) = root.deconstruct();
     for (id, p) in params{
         let (key, _meta_val) = if let Some(v) = meta.get(id){ v } else{
-            unreachable!("meta is not valid apply_root_diff")
+            Err("meta is not valid apply_root_diff")?
         };
         sabun.insert(key.to_string(), RootSabValue::Param(p));
     }
     for (id, list_diff) in lists{
         let (key, meta_val) = if let Some(v) = meta.get(id){ v } else{
-            unreachable!("list meta is not valid apply_root_diff")
+            Err("list meta is not valid apply_root_diff")?
         };
         // let v = if let Some(v) = default.get(key){ v } else{
         //     unreachable!("invalid default apply_root_diff")
@@ -40,11 +40,11 @@ pub(crate) fn apply_root_diff(root : &mut RootObject, diff : RootDiffR) -> Resul
                         }
                     }
                 } else{
-                    unreachable!("invalid RootSabValue apply_root_diff")
+                    Err("invalid RootSabValue apply_root_diff")?
                 }
             },
             _ =>{
-                unreachable!("invalid meta apply_root_diff")
+                Err("invalid meta apply_root_diff")?
             }
         }
     }
diff --git a/dochy_diff/src/imp/read/read_lists.rs b/dochy_diff/src/imp/read/read_lists.rs
index 5f45ed2..1ff81d2 100644
--- a/dochy_diff/src/imp/read/read_lists.rs
+++ b/dochy_diff/src/imp/read/read_lists.rs
@@ -43,6 +43,6 @@ fn read_a_list(r : &mut Reader, index : usize, offset : usize,
             MetaValue::Param(_p) => { Ok(ReadAList::Skip)},
         }
     } else{
-        unreachable!("invalid meta read_a_list")
+        Err("invalid meta read_a_list")?
     }
 }
\ No newline at end of file
diff --git a/dochy_diff/src/imp/read/read_refs.rs b/dochy_diff/src/imp/read/read_refs.rs
index bc63ef0..6beb0c0 100644
--- a/dochy_diff/src/imp/read/read_refs.rs
+++ b/dochy_diff/src/imp/read/read_refs.rs
@@ -24,7 +24,7 @@ pub(crate) fn read_refs(r : &mut Reader, meta : &MetaTable,
         StoredIDs::Numbers(n) => {
             for idx in n {
                 let p = if let Some((_, MetaValue::Param(p))) = meta.get(idx) { p } else {
-                    panic!("invalid meta read_a_ref")
+                    Err("invalid meta read_a_ref")?
                 };
                 if let Some(p) = read_a_ref(r, p)? {
                     ss.push((idx,p));
@@ -42,7 +42,7 @@ pub(crate) fn read_refs_bits(reader : &mut Reader, bits : u64, meta : &MetaTable
     for _ in 0..64 {
         if bits & flag != 0 {
             let p = if let Some((_, MetaValue::Param(p))) = meta.get(index + offset) { p } else {
-                panic!("invalid meta read_a_ref")
+                Err("invalid meta read_a_ref")?
             };
             if let Some(p) = read_a_ref(reader, p)? {
                 r.push((index + offset, p))
-- 
2.43.0


From 802c55b9e86ff1045cc03e7be4d7de0d0c2d8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:02 +0000
Subject: [PATCH 49/62] fix: don't allocate what the header of a broken archive
 claims

---
 dochy_archiver2/src/imp/read_archive.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dochy_archiver2/src/imp/read_archive.rs b/dochy_archiver2/src/imp/read_archive.rs
index 6cd3d69..f4a282f 100644
--- a/dochy_archiver2/src/imp/read_archive.rs
+++ b/dochy_archiver2/src/imp/read_archive.rs
@@ -49,14 +49,18 @@ pub fn read_archive<R : Read, T : Send + 'static>(converter : impl Fn(&str, &[u8
 
         r.read_exact(&mut buf)?;
         rayon::spawn_fifo(move ||{
-            let mut decoder = snap::raw::Decoder::new();
-            match decoder.decompress_vec(&buf) {
-                Ok(v) => raw_sender.send(Ok(v)).ok(),
-                Err(e) => raw_sender.send(Err(e.into())).ok(),
-            };
+            raw_sender.send(decompress(&buf)).ok();
         });
     }
 
 
     archive_receiver.recv()?
-}
\ No newline at end of file
+}
+
+fn decompress(buf : &[u8]) -> ArcResult<Vec<u8>>{
+    //the length may come from a broken file. An element of snappy is 2 bytes or more and makes 64 bytes at most
+    if buf.len() * 32 < snap::raw::decompress_len(buf)?{
+        Err("The length of the compressed data is invalid")?
+    }
+    Ok(snap::raw::Decoder::new().decompress_vec(buf)?)
+}
-- 
2.43.0


From 91b15d5f60f35149376de5add4b19a40b219ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:02 +0000
Subject: [PATCH 50/62] fix: refuse impossible sizes in broken history files

---
 dochy_fs/src/imp/history/algo/phase_data_item.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/algo/phase_data_item.rs b/dochy_fs/src/imp/history/algo/phase_data_item.rs
index 1e67514..317347e 100644
--- a/dochy_fs/src/imp/history/algo/phase_data_item.rs
+++ b/dochy_fs/src/imp/history/algo/phase_data_item.rs
@@ -42,7 +42,10 @@ impl PhaseDataItem{
 fn read_int<'a>(reader : &mut impl Iterator<Item=&'a KVal>) -> FsResult<i64> {
     if let Some(v) = reader.next() {
         if let Some(i) = v.as_i64() {
-            return Ok(i);
+            //no size is this large. The sums of sizes from a broken file must not overflow
+            if 0 <= i && i < 1 << 60 {
+                return Ok(i);
+            }
         }
     }
     Err("PhaseDataItem::decode failed")?
-- 
2.43.0


From 2305c36ef948114eb4b0f9691fd684bf84069770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:29 +0000
Subject: [PATCH 51/62] fix: generate accessors that compile for tables without
 items

---
 dochy_intf/src/imp/structs/table_source.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dochy_intf/src/imp/structs/table_source.rs b/dochy_intf/src/imp/structs/table_source.rs
index fdfe5fa..aed58e9 100644
--- a/dochy_intf/src/imp/structs/table_source.rs
+++ b/dochy_intf/src/imp/structs/table_source.rs
@@ -115,7 +115,9 @@ impl TableSource {
         sb.push(0, "}");
 
 
-        sb.append(&format!("#[repr(u64)] pub enum {}{{ ", &ids_type_name));
+        // an enum without variants can't have a representation, and can't be matched by reference
+        let (repr, this) = if self.keys.len() != 0 { ("#[repr(u64)] ", "self") } else { ("", "*self") };
+        sb.append(&format!("{}pub enum {}{{ ", repr, &ids_type_name));
         for key in &self.keys{
             sb.append(&format!("{}, ", &key.enum_name()))
         }
@@ -140,7 +142,7 @@ impl TableSource {
         sb.push(1, "}");
         sb.push(1, &format!("pub fn len() -> usize{{ {} }}", self.keys.len()));
         sb.push(1, &format!("pub fn to_num(&self) -> usize{{"));
-        sb.push(2, &format!("match self{{"));
+        sb.push(2, &format!("match {}{{", this));
         for (i, key) in self.keys.iter().enumerate() {
             sb.push(3, &format!(r#"{}::{} => {},"#, &ids_type_name, &key.enum_name(), i));
         }
-- 
2.43.0


From 8cc8091990644473ec88cab560fb5a009009cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:50 +0000
Subject: [PATCH 52/62] fix: refuse list item IDs that are not whole numbers
 from zero

---
 dochy_core/src/imp/json_to_rust/get_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/json_to_rust/get_id.rs b/dochy_core/src/imp/json_to_rust/get_id.rs
index e889ed9..ac05cb8 100644
--- a/dochy_core/src/imp/json_to_rust/get_id.rs
+++ b/dochy_core/src/imp/json_to_rust/get_id.rs
@@ -5,7 +5,7 @@ pub(crate) fn get_id(v : &JVal) -> Option<IdValue> {
     match v {
         JVal::String(s, _) => Some(IdValue::Str(s.to_string())),
         JVal::Int(i, _) if 0 <= *i => Some(IdValue::Num(*i as u64)),
-        JVal::Double(d, _) => Some(IdValue::Num(*d as u64)),
+        JVal::Double(d, _) if 0.0 <= *d && d.fract() == 0.0 && *d < i64::MAX as f64 => Some(IdValue::Num(*d as u64)),
         _ => None
     }
 }
\ No newline at end of file
-- 
2.43.0


From 38d2fdf6850238285e2968de6f360016cf53523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:53 +0000
Subject: [PATCH 53/62] fix: refuse items whose alternative is null

---
 dochy_core/src/imp/json_to_rust/validation/validate_refs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs b/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
index 6f23f30..d26ad97 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
@@ -45,6 +45,9 @@ pub(crate) fn validate_refs(def : &RefDefObj, sabun : &HashM<String, RefSabValue
                         validate_ref_target(name, id, root, can_use_old, names)?;
                     },
                     _ =>{
+                        if def.is_enum(){
+                            Err(format!("{} {} one of the Enum's member must be defined", names, name))?
+                        }
                         //nullとかundefinedとかは有効な値である
                     }
                 }
-- 
2.43.0


From f06f7fce6bd06a14e33b239155eed014a34d40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:00 +0000
Subject: [PATCH 54/62] fix: don't leave a broken source archive when a save is
 interrupted

---
 dochy_fs/src/imp/common/list/find_next_dir.rs |  6 ++--
 .../src/imp/common/path/get_hash_times.rs     | 11 +++----
 dochy_fs/src/imp/common/path/mod.rs           |  1 +
 .../src/imp/common/path/prepare_hash_dir.rs   |  4 +--
 .../src/imp/common/path/write_whole_file.rs   | 29 +++++++++++++++++++
 5 files changed, 41 insertions(+), 10 deletions(-)
 create mode 100644 dochy_fs/src/imp/common/path/write_whole_file.rs

diff --git a/dochy_fs/src/imp/common/list/find_next_dir.rs b/dochy_fs/src/imp/common/list/find_next_dir.rs
index e3c4e63..6df6bd1 100644
--- a/dochy_fs/src/imp/common/list/find_next_dir.rs
+++ b/dochy_fs/src/imp/common/list/find_next_dir.rs
@@ -6,9 +6,9 @@ pub(crate) fn find_next_dir(dir_iter : &mut ReadDir) -> FsResult<Option<(ReadDir
     loop {
         if let Some(entry) = dir_iter.next() {
             let entry = entry?;
-            if entry.file_type()?.is_dir(){
-                //名前がhexであるdirectoryだけ探して返す
-                if let Some(hex) = folder_name_to_hash(&entry.file_name()){
+            //名前がhexであるdirectoryだけ探して返す
+            if let Some(hex) = folder_name_to_hash(&entry.file_name()){
+                if entry.file_type()?.is_dir(){
                     let d = read_dir(&entry.path())?;
                     return Ok(Some((d, hex)));
                 }
diff --git a/dochy_fs/src/imp/common/path/get_hash_times.rs b/dochy_fs/src/imp/common/path/get_hash_times.rs
index db50257..d35fe48 100644
--- a/dochy_fs/src/imp/common/path/get_hash_times.rs
+++ b/dochy_fs/src/imp/common/path/get_hash_times.rs
@@ -14,11 +14,12 @@ pub fn get_hash_times<P : AsRef<Path>>(proj_dir : P) -> FsResult<Vec<(u128, Syst
 
     for entry in dir{
         let entry = entry?;
-        let meta = entry.metadata()?;
-        if meta.is_dir(){
-            //0-9A-Fで構成された32文字のフォルダは、ハッシュであると考えられる。
-            //そうじゃない場合困ったことになるので、そういう変なものをproj_dirに作らないように・・・
-            if let Some(hash) = folder_name_to_hash(&entry.file_name()){
+        //0-9A-Fで構成された32文字のフォルダは、ハッシュであると考えられる。
+        //そうじゃない場合困ったことになるので、そういう変なものをproj_dirに作らないように・・・
+        if let Some(hash) = folder_name_to_hash(&entry.file_name()){
+            //temporary files can disappear at any moment, so metadata is read after the name is checked
+            let meta = entry.metadata()?;
+            if meta.is_dir(){
                 let file_path = entry.path().join(CREATED_TIME_FILE_NAME);
                 let time = get_folder_time(file_path, &meta);
                 r.push((hash, time));
diff --git a/dochy_fs/src/imp/common/path/mod.rs b/dochy_fs/src/imp/common/path/mod.rs
index ffd26cb..1274a56 100644
--- a/dochy_fs/src/imp/common/path/mod.rs
+++ b/dochy_fs/src/imp/common/path/mod.rs
@@ -5,4 +5,5 @@ pub mod get_hash_times;
 pub mod reserved_filename;
 pub mod prepare_hash_dir;
 pub mod remove_hash_dir;
+pub(crate) mod write_whole_file;
 
diff --git a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
index 6f94f7e..356cf1d 100644
--- a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
+++ b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
@@ -7,13 +7,13 @@ use crate::imp::common::path::reserved_filename::ARCHIVE_DEFAULT_NAME;
 use crate::common::reserved_filename::CREATED_TIME_FILE_NAME;
 use crate::imp::common::path::created_time_file::create_time_dat;
 use std::time::SystemTime;
+use crate::imp::common::path::write_whole_file::write_whole_file;
 
 pub(crate) fn prepare_hash_dir(proj_dir: &Path, src : &CurrentSrc, hash : u128) -> FsResult<PathBuf>{
     let hash_dir = get_or_make_hash_dir_path(proj_dir, hash)?;
     let archive_path = hash_dir.join(ARCHIVE_DEFAULT_NAME);
     if archive_path.exists() == false{
-        let mut file = File::create(&archive_path)?;
-        src.create_archive(&mut file)?;
+        write_whole_file(&archive_path, |file| src.create_archive(file))?;
     }
     Ok(hash_dir)
 }
diff --git a/dochy_fs/src/imp/common/path/write_whole_file.rs b/dochy_fs/src/imp/common/path/write_whole_file.rs
new file mode 100644
index 0000000..ec55488
--- /dev/null
+++ b/dochy_fs/src/imp/common/path/write_whole_file.rs
@@ -0,0 +1,29 @@
+use std::fs::File;
+use std::path::Path;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use crate::error::FsResult;
+
+static COUNTER : AtomicUsize = AtomicUsize::new(0);
+
+/// Writes a file of a hash dir. The file appears after everything is written,
+/// so an interrupted write leaves neither a broken file nor a broken replacement of the existing file.
+/// The temporary file is placed in proj_dir, because every file in hash dirs is listed
+pub(crate) fn write_whole_file<F : FnOnce(&mut File) -> FsResult<()>>(file_path : &Path, write : F) -> FsResult<()>{
+    let hash_dir = file_path.parent().ok_or_else(|| format!("No parent found {:?}", file_path))?;
+    let temp_name = format!("dochy_{}_{}.tmp", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed));
+    let temp_path = hash_dir.parent().unwrap_or(hash_dir).join(temp_name);
+
+    let result = write_and_rename(&temp_path, file_path, write);
+    if result.is_err(){
+        let _ = std::fs::remove_file(&temp_path);
+    }
+    result
+}
+
+fn write_and_rename<F : FnOnce(&mut File) -> FsResult<()>>(temp_path : &Path, file_path : &Path, write : F) -> FsResult<()>{
+    let mut file = File::create(temp_path)?;
+    write(&mut file)?;
+    drop(file);
+    std::fs::rename(temp_path, file_path)?;
+    Ok(())
+}
-- 
2.43.0


From 94aee4b1a90a62802a830ce609faf0048bdc7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:00 +0000
Subject: [PATCH 55/62] fix: keep the former file when overwriting it is
 interrupted

---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index f570ed0..f3ffd0a 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -1,5 +1,4 @@
 use std::path::{PathBuf};
-use std::fs::File;
 use crate::error::FsResult;
 use std::io::Write;
 use dochy_core::structs::RootObject;
@@ -7,6 +6,7 @@ use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
 use crate::imp::common::path::reserved_filename::is_reserved_filename;
+use crate::imp::common::path::write_whole_file::write_whole_file;
 
 
 /// saves a Dochy file.
@@ -28,8 +28,7 @@ pub fn save_dochy_file(info : &SaveDirInfo,
         Err("file already exists")?
     }
     let diff = dochy_diff::get_diff(&src_root, &root)?;
-    let mut file = File::create(&file_path)?;
-    file.write_all(&diff)?;
+    write_whole_file(&file_path, |file| Ok(file.write_all(&diff)?))?;
     Ok(file_path)
 }
 
-- 
2.43.0


From af5e21de1cc7c7d392ce50ede0da6d0dd43c6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:00 +0000
Subject: [PATCH 56/62] fix: don't leave a broken history file when a save is
 interrupted

---
 dochy_fs/src/imp/history/fs/write_phase_file.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dochy_fs/src/imp/history/fs/write_phase_file.rs b/dochy_fs/src/imp/history/fs/write_phase_file.rs
index 20569bc..0d19317 100644
--- a/dochy_fs/src/imp/history/fs/write_phase_file.rs
+++ b/dochy_fs/src/imp/history/fs/write_phase_file.rs
@@ -2,12 +2,14 @@ use std::path::Path;
 use crate::error::FsResult;
 use crate::imp::history::algo::phase_data::PhaseData;
 use std::io::Write;
+use crate::imp::common::path::write_whole_file::write_whole_file;
 
 pub(crate) fn write_phase_file(data : &PhaseData, file_path : &Path, vec : &[u8]) -> FsResult<()>{
     let data_encoded = data.encode();
-    let mut file = std::fs::File::create(file_path)?;
-    dochy_compaction::enc_dec::encode::encode(&data_encoded, &mut file)?;
-    //let mut vec = vec;
-    file.write_all(vec)?;
-    Ok(())
+    write_whole_file(file_path, |file| {
+        dochy_compaction::enc_dec::encode::encode(&data_encoded, file)?;
+        //let mut vec = vec;
+        file.write_all(vec)?;
+        Ok(())
+    })
 }
\ No newline at end of file
-- 
2.43.0


From b69cdd8a2e48ff2a44e9ba41611c4d9efd309411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 57/62] fix: report errors of reading directories when listing
 histories

---
 dochy_fs/src/imp/history/pub_fn/list_histories.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/list_histories.rs b/dochy_fs/src/imp/history/pub_fn/list_histories.rs
index 93cf9e1..5f2f46f 100644
--- a/dochy_fs/src/imp/history/pub_fn/list_histories.rs
+++ b/dochy_fs/src/imp/history/pub_fn/list_histories.rs
@@ -1,6 +1,6 @@
 
 use crate::history::{FileHistory, HistoryInfo};
-use crate::common::get_hash_times;
+use crate::common::{get_hash_times, hash_dir_path};
 use crate::error::FsResult;
 use crate::imp::history::file_hist::file_histories::FileHistories;
 
@@ -12,8 +12,10 @@ pub fn list_histories(info : &HistoryInfo) -> FsResult<FileHistories>{
 
     let mut vec : Vec<(u128, FileHistory)> = vec![];
     for (hash, _time) in hash_times{
-        if let Ok(history) = FileHistory::create(history_dir, hash, opt.max_phase(), opt.is_cumulative()){
-            vec.push((hash, history));
+        match FileHistory::create(history_dir, hash, opt.max_phase(), opt.is_cumulative()){
+            Ok(history) => vec.push((hash, history)),
+            //the directory may have been removed in the meantime
+            Err(e) => if hash_dir_path(history_dir, hash).exists(){ return Err(e); },
         }
     }
 
-- 
2.43.0


From dda1e7cd6725f159eb27a717b6710c0ad3e11e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 58/62] fix: report errors of reading directories when listing
 files

---
 dochy_fs/src/imp/common/list/find_next_dir.rs       | 7 +++++--
 dochy_fs/src/imp/common/list/list_files.rs          | 9 ++++-----
 dochy_fs/src/imp/common/list/list_files_iterator.rs | 6 +++++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/dochy_fs/src/imp/common/list/find_next_dir.rs b/dochy_fs/src/imp/common/list/find_next_dir.rs
index 6df6bd1..fa6e3e9 100644
--- a/dochy_fs/src/imp/common/list/find_next_dir.rs
+++ b/dochy_fs/src/imp/common/list/find_next_dir.rs
@@ -9,8 +9,11 @@ pub(crate) fn find_next_dir(dir_iter : &mut ReadDir) -> FsResult<Option<(ReadDir
             //名前がhexであるdirectoryだけ探して返す
             if let Some(hex) = folder_name_to_hash(&entry.file_name()){
                 if entry.file_type()?.is_dir(){
-                    let d = read_dir(&entry.path())?;
-                    return Ok(Some((d, hex)));
+                    match read_dir(&entry.path()){
+                        Ok(d) => return Ok(Some((d, hex))),
+                        //the directory may have been removed in the meantime
+                        Err(e) => if entry.path().exists(){ Err(e)? },
+                    }
                 }
             }
         } else{
diff --git a/dochy_fs/src/imp/common/list/list_files.rs b/dochy_fs/src/imp/common/list/list_files.rs
index 055327d..8bad976 100644
--- a/dochy_fs/src/imp/common/list/list_files.rs
+++ b/dochy_fs/src/imp/common/list/list_files.rs
@@ -12,12 +12,11 @@ pub(crate) fn list_files<P : AsRef<Path>>(proj_dir: P) -> FsResult<Vec<FileData>
     let mut vec : Vec<FileData> = vec![];
 
     for item in iter{
-        if let Ok(data) = item {
-            if is_reserved_filename(data.name()){
-                continue;
-            }
-            vec.push(data);
+        let data = item?;
+        if is_reserved_filename(data.name()){
+            continue;
         }
+        vec.push(data);
     }
 
     vec.sort_by_key(|a| a.modified());
diff --git a/dochy_fs/src/imp/common/list/list_files_iterator.rs b/dochy_fs/src/imp/common/list/list_files_iterator.rs
index 50ca5ca..74787f9 100644
--- a/dochy_fs/src/imp/common/list/list_files_iterator.rs
+++ b/dochy_fs/src/imp/common/list/list_files_iterator.rs
@@ -43,7 +43,11 @@ impl InnerIterator {
                 Ok(file_opt) => {
                     if let Some(file) = file_opt {
                         //found
-                        return Some(FileData::from(self.hex, &file));
+                        match FileData::from(self.hex, &file){
+                            //the file has been removed in the meantime
+                            Err(_) if file.path().exists() == false => continue,
+                            result => return Some(result),
+                        }
                     }
                     //Couldn't find a file. Go to the next directory.
                 },
-- 
2.43.0


From f449dad9222561ba69b7b32eb34f96e0c0321089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:34 +0000
Subject: [PATCH 59/62] fix: start a new history when an ancestor of the
 current file is missing

---
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index aeec903..1c0e9cb 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -5,6 +5,7 @@ use crate::imp::history::fs::start_new::start_new as fs_start_new;
 use crate::imp::history::file_name::file_name_props::FileNameProps;
 use crate::imp::history::file_hist::create_file_history::create_file_history;
 use crate::imp::history::fs::derive_impl::derive_impl;
+use crate::imp::history::file_hist::ancestors::create_ancestors;
 use std::sync::Weak;
 use crate::imp::history::history_info::HistoryInfo;
 use crate::imp::history::current_root_obj_info::history_cache_map::get_mutex;
@@ -108,6 +109,9 @@ fn save_history_file_impl(history_info: &HistoryInfo,
                     history.get_props(base.control(), base.order())
                 };
 
+                //派生元の祖先が削除されている場合も派生できない
+                let from = from.filter(|from| create_ancestors(&history, from, opt.max_phase(), opt.is_cumulative()).is_ok());
+
                 //派生元がないか削除されている場合は、新しく始める
                 if let Some(from) = from {
                     let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
-- 
2.43.0


From 4dc4b463403255da42bc5bd4cddf8b34a622d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:50:03 +0000
Subject: [PATCH 60/62] fix: compare the order of list items when comparing
 documents

---
 dochy_core/src/imp/structs/util/identity_equal_trait.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/structs/util/identity_equal_trait.rs b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
index 1831582..e1b3927 100644
--- a/dochy_core/src/imp/structs/util/identity_equal_trait.rs
+++ b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
@@ -60,6 +60,7 @@ impl<T : IdentityEqual> IdentityEqual for LinkedMap<T>{
             return false;
         }
 
-        self.iter().all(move |(key, value)| other.get_item(*key).map_or(false, |v| value.identity_eq(v)))
+        //the order of the items is a part of the contents
+        self.iter().zip(other.iter()).all(|((k1, v1), (k2, v2))| k1 == k2 && v1.identity_eq(v2))
     }
 }
\ No newline at end of file
-- 
2.43.0


From 45c65df4ed32662ac28f46911542098a88ec84c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:42 +0000
Subject: [PATCH 61/62] fix: report a creation time that can't be read instead
 of guessing it

---
 .../src/imp/common/path/get_hash_times.rs     | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/get_hash_times.rs b/dochy_fs/src/imp/common/path/get_hash_times.rs
index d35fe48..b80afa0 100644
--- a/dochy_fs/src/imp/common/path/get_hash_times.rs
+++ b/dochy_fs/src/imp/common/path/get_hash_times.rs
@@ -3,7 +3,8 @@ use std::path::Path;
 use crate::error::FsResult;
 use crate::common::hash::folder_name_to_hash;
 use crate::imp::common::path::created_time_file::{ from_time_dat};
-use std::fs::{File, Metadata};
+use std::fs::Metadata;
+use std::io::ErrorKind;
 use crate::imp::common::path::reserved_filename::CREATED_TIME_FILE_NAME;
 
 ///Sorted by modified time
@@ -21,7 +22,7 @@ pub fn get_hash_times<P : AsRef<Path>>(proj_dir : P) -> FsResult<Vec<(u128, Syst
             let meta = entry.metadata()?;
             if meta.is_dir(){
                 let file_path = entry.path().join(CREATED_TIME_FILE_NAME);
-                let time = get_folder_time(file_path, &meta);
+                let time = get_folder_time(file_path, &meta)?;
                 r.push((hash, time));
             }
         }
@@ -31,17 +32,20 @@ pub fn get_hash_times<P : AsRef<Path>>(proj_dir : P) -> FsResult<Vec<(u128, Syst
     Ok(r)
 }
 
-fn get_folder_time<P : AsRef<Path>>(path : P, hash_dir_meta : &Metadata) -> SystemTime {
-    if let Ok(mut file) = File::open(path) {
-        if let Ok(time) = from_time_dat(&mut file){
-            return time;
-        }
+fn get_folder_time<P : AsRef<Path>>(path : P, hash_dir_meta : &Metadata) -> FsResult<SystemTime> {
+    match std::fs::read(path.as_ref()) {
+        Ok(dat) => if let Ok(time) = from_time_dat(&mut dat.as_slice()){
+            return Ok(time);
+        },
+        Err(e) if e.kind() == ErrorKind::NotFound || path.as_ref().is_dir() => {},
+        //the time is recorded but can't be read
+        Err(e) => Err(e)?,
     }
     if let Ok(time) = hash_dir_meta.created() {
         //metadata の created time は フォルダをコピーしたりなんかすると失われてしまう可能性があるので、
         //信頼性が低い。なのでdatファイルを埋めているが、datが見つからない場合は使う
-        return time;
+        return Ok(time);
     }
     //なにもみつからない・・・？？ そんなことないと思うけど、いちおう
-    SystemTime::UNIX_EPOCH
+    Ok(SystemTime::UNIX_EPOCH)
 }
\ No newline at end of file
-- 
2.43.0


From a38f59954659b78eff05daaba1da3b86fba76b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:34:26 +0000
Subject: [PATCH 62/62] fix: list files although one is removed and saved again
 meanwhile

---
 dochy_fs/src/imp/common/list/find_next_dir.rs       |  6 ++++--
 dochy_fs/src/imp/common/list/list_files_iterator.rs | 13 ++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/dochy_fs/src/imp/common/list/find_next_dir.rs b/dochy_fs/src/imp/common/list/find_next_dir.rs
index fa6e3e9..6f481aa 100644
--- a/dochy_fs/src/imp/common/list/find_next_dir.rs
+++ b/dochy_fs/src/imp/common/list/find_next_dir.rs
@@ -1,4 +1,5 @@
 use std::fs::{ReadDir, read_dir};
+use std::io::ErrorKind;
 use crate::error::FsResult;
 use crate::imp::common::path::hash::folder_name_to_hash;
 
@@ -11,8 +12,9 @@ pub(crate) fn find_next_dir(dir_iter : &mut ReadDir) -> FsResult<Option<(ReadDir
                 if entry.file_type()?.is_dir(){
                     match read_dir(&entry.path()){
                         Ok(d) => return Ok(Some((d, hex))),
-                        //the directory may have been removed in the meantime
-                        Err(e) => if entry.path().exists(){ Err(e)? },
+                        //the directory has been removed in the meantime
+                        Err(e) if e.kind() == ErrorKind::NotFound => {},
+                        Err(e) => Err(e)?,
                     }
                 }
             }
diff --git a/dochy_fs/src/imp/common/list/list_files_iterator.rs b/dochy_fs/src/imp/common/list/list_files_iterator.rs
index 74787f9..f8dc01f 100644
--- a/dochy_fs/src/imp/common/list/list_files_iterator.rs
+++ b/dochy_fs/src/imp/common/list/list_files_iterator.rs
@@ -1,4 +1,5 @@
 use std::fs::{ReadDir, DirEntry};
+use std::io::ErrorKind;
 use crate::error::FsResult;
 use crate::imp::common::list::file_data::FileData;
 use crate::imp::common::list::find_next_dir::find_next_dir;
@@ -44,9 +45,15 @@ impl InnerIterator {
                     if let Some(file) = file_opt {
                         //found
                         match FileData::from(self.hex, &file){
-                            //the file has been removed in the meantime
-                            Err(_) if file.path().exists() == false => continue,
-                            result => return Some(result),
+                            Ok(data) => return Some(Ok(data)),
+                            Err(e) => {
+                                let e : anyhow::Error = e.into();
+                                match e.downcast_ref::<std::io::Error>(){
+                                    //the file has been removed in the meantime
+                                    Some(io) if io.kind() == ErrorKind::NotFound => continue,
+                                    _ => return Some(Err(e.into())),
+                                }
+                            },
                         }
                     }
                     //Couldn't find a file. Go to the next directory.
-- 
2.43.0

