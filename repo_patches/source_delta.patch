From 47b2038812b82dda35891362b76788e50897a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 01/25] fix: report an empty number list format instead of
 panicking

---
 src/one/property_set/number_list_node.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 0649874..3e353e5 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -39,7 +39,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
         .map(parse_list_format)
         .ok_or_else(|| {
             ErrorKind::MalformedOneNoteFileData("number list has no list format".into())
-        })?;
+        })??;
     let bold = simple::parse_bool(PropertyType::Bold, object)?.unwrap_or_default();
     let italic = simple::parse_bool(PropertyType::Italic, object)?.unwrap_or_default();
     let language_code = simple::parse_u32(PropertyType::LanguageId, object)?;
@@ -63,8 +63,14 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     Ok(data)
 }
 
-fn parse_list_format(data: Vec<u16>) -> Vec<char> {
-    decode_utf16(data[1..].iter().copied())
+fn parse_list_format(data: Vec<u16>) -> Result<Vec<char>> {
+    let (_, format) = data.split_first().ok_or_else(|| {
+        ErrorKind::MalformedOneNoteFileData("number list format is empty".into())
+    })?;
+
+    let format = decode_utf16(format.iter().copied())
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
-        .collect()
+        .collect();
+
+    Ok(format)
 }
-- 
2.43.0


From 698eaf6f0b9f9c8942bb17cf8bd8e935085c64b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 02/25] fix: read the vertical ink scale from its own property

---
 src/one/property_set/ink_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/ink_container.rs b/src/one/property_set/ink_container.rs
index ce4e675..11102dd 100644
--- a/src/one/property_set/ink_container.rs
+++ b/src/one/property_set/ink_container.rs
@@ -25,7 +25,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let offset_from_parent_vert = simple::parse_f32(PropertyType::OffsetFromParentVert, object)?;
     let ink_data = ObjectReference::parse(PropertyType::InkData, object)?;
     let ink_scaling_x = simple::parse_f32(PropertyType::InkScalingX, object)?;
-    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingX, object)?;
+    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingY, object)?;
 
     let data = Data {
         offset_from_parent_horiz,
-- 
2.43.0


From edf1c707370b3917074a24eac00ba8287932ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 03/25] fix: read the page size as the four-byte value it is
 stored as

---
 src/one/property/page_size.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/page_size.rs b/src/one/property/page_size.rs
index 2caa930..ad4e0bd 100644
--- a/src/one/property/page_size.rs
+++ b/src/one/property/page_size.rs
@@ -31,8 +31,8 @@ pub(crate) enum PageSize {
 impl PageSize {
     pub(crate) fn parse(prop_type: PropertyType, object: &Object) -> Result<Option<PageSize>> {
         let value = match object.props().get(prop_type) {
-            Some(value) => value.to_u8().ok_or_else(|| {
-                ErrorKind::MalformedOneNoteFileData("page size is not a u8".into())
+            Some(value) => value.to_u32().ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("page size is not a u32".into())
             })?,
             None => return Ok(None),
         };
-- 
2.43.0


From 82d3193ade7a97ed0ffa01f77732b8f1287d0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 04/25] fix: report an empty number list format instead of
 panicking (formatting)

---
 src/one/property_set/number_list_node.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 3e353e5..fc0036f 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -64,9 +64,9 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
 }
 
 fn parse_list_format(data: Vec<u16>) -> Result<Vec<char>> {
-    let (_, format) = data.split_first().ok_or_else(|| {
-        ErrorKind::MalformedOneNoteFileData("number list format is empty".into())
-    })?;
+    let (_, format) = data
+        .split_first()
+        .ok_or_else(|| ErrorKind::MalformedOneNoteFileData("number list format is empty".into()))?;
 
     let format = decode_utf16(format.iter().copied())
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
-- 
2.43.0


From 1b1ea692a90f908d0dd3874894124462944694d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 05/25] fix: report missing embedded ink data instead of
 indexing out of bounds

---
 src/onenote/rich_text.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/onenote/rich_text.rs b/src/onenote/rich_text.rs
index 6f8e008..554c538 100644
--- a/src/onenote/rich_text.rs
+++ b/src/onenote/rich_text.rs
@@ -453,12 +453,18 @@ pub(crate) fn parse_rich_text(content_id: ExGuid, space: &ObjectSpace) -> Result
             }
             None => {
                 if !data.text_run_data_object.is_empty() {
-                    return parse_embedded_ink_data(
-                        data.text_run_data_object[i - objects_without_ref],
-                        space,
-                        embedded_data,
-                    )
-                    .map(|container| Some(EmbeddedObject::Ink(container)));
+                    let object_id = data
+                        .text_run_data_object
+                        .get(i - objects_without_ref)
+                        .copied()
+                        .ok_or_else(|| {
+                            ErrorKind::MalformedOneNoteData(
+                                "embedded object has no data object".into(),
+                            )
+                        })?;
+
+                    return parse_embedded_ink_data(object_id, space, embedded_data)
+                        .map(|container| Some(EmbeddedObject::Ink(container)));
                 }
 
                 Ok(None)
-- 
2.43.0


From 238b9a9fd8ada9b6ebf54b8fd5457362da71b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 06/25] fix: report cyclic base revisions instead of looping
 forever

---
 src/onestore/object_space.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 18104a2..48ae8d4 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
@@ -81,8 +81,17 @@ impl<'a, 'b> ObjectSpace<'a> {
         let mut roots = HashMap::new();
 
         let mut rev_id = Some(revision_manifest_id);
+        let mut visited = HashSet::new();
 
         while let Some(revision_manifest_id) = rev_id {
+            // A revision can't be based on itself
+            if !visited.insert(revision_manifest_id) {
+                return Err(ErrorKind::MalformedOneStoreData(
+                    "revision is its own base revision".into(),
+                )
+                .into());
+            }
+
             let base_rev_id = Revision::parse(
                 revision_manifest_id,
                 context_id,
-- 
2.43.0


From 21fad82bdabe814fcb6d60aeb778f3932792a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 07/25] fix: report cyclic or excessively nested objects
 instead of overflowing the stack

---
 src/onenote/content.rs       |  2 ++
 src/onenote/ink.rs           |  2 ++
 src/onenote/notebook.rs      |  2 ++
 src/onenote/outline.rs       |  4 +++
 src/onenote/page.rs          |  2 ++
 src/onenote/page_content.rs  |  2 ++
 src/onenote/table.rs         |  4 +++
 src/onestore/object_space.rs | 55 ++++++++++++++++++++++++++++++++++++
 8 files changed, 73 insertions(+)

diff --git a/src/onenote/content.rs b/src/onenote/content.rs
index 3e07842..05d63da 100644
--- a/src/onenote/content.rs
+++ b/src/onenote/content.rs
@@ -78,6 +78,8 @@ impl Content {
 }
 
 pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<Content> {
+    let _guard = space.enter()?;
+
     let content_type = space
         .get_object(content_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("page content is missing".into()))?
diff --git a/src/onenote/ink.rs b/src/onenote/ink.rs
index 9d775a7..bd51550 100644
--- a/src/onenote/ink.rs
+++ b/src/onenote/ink.rs
@@ -236,6 +236,8 @@ fn parse_ink_stroke(
     scale_x: Option<f32>,
     scale_y: Option<f32>,
 ) -> Result<InkStroke> {
+    let _guard = space.enter()?;
+
     let object = space
         .get_object(ink_stroke_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("ink stroke node is missing".into()))?;
diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 8f15e33..3c28792 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -48,6 +48,8 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
 }
 
 fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry> {
+    let _guard = space.enter()?;
+
     let content = space.get_object(content_id).ok_or_else(|| {
         ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
     })?;
diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index f7db6a2..741c389 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -257,6 +257,8 @@ impl OutlineElement {
 }
 
 pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<Outline> {
+    let _guard = space.enter()?;
+
     let outline_object = space
         .get_object(outline_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline node is missing".into()))?;
@@ -288,6 +290,8 @@ pub(crate) fn parse_outline(outline_id: ExGuid, space: &ObjectSpace) -> Result<O
 }
 
 fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineItem> {
+    let _guard = space.enter()?;
+
     let content_type = space
         .get_object(item_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline item is missing".into()))?
diff --git a/src/onenote/page.rs b/src/onenote/page.rs
index b4121dd..2b8d66d 100644
--- a/src/onenote/page.rs
+++ b/src/onenote/page.rs
@@ -146,6 +146,8 @@ impl Title {
 }
 
 pub(crate) fn parse_page(page_space: &ObjectSpace) -> Result<Page> {
+    let _guard = page_space.enter()?;
+
     let metadata = parse_metadata(page_space)?;
     let manifest = parse_manifest(page_space)?;
 
diff --git a/src/onenote/page_content.rs b/src/onenote/page_content.rs
index cd38d0c..19b1621 100644
--- a/src/onenote/page_content.rs
+++ b/src/onenote/page_content.rs
@@ -61,6 +61,8 @@ impl PageContent {
 }
 
 pub(crate) fn parse_page_content(content_id: ExGuid, space: &ObjectSpace) -> Result<PageContent> {
+    let _guard = space.enter()?;
+
     let content_type = space
         .get_object(content_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("page content is missing".into()))?
diff --git a/src/onenote/table.rs b/src/onenote/table.rs
index daa81b3..b7f81cc 100644
--- a/src/onenote/table.rs
+++ b/src/onenote/table.rs
@@ -192,6 +192,8 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
 }
 
 fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
+    let _guard = space.enter()?;
+
     let row_object = space
         .get_object(row_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("row object is missing".into()))?;
@@ -209,6 +211,8 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
 }
 
 fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
+    let _guard = space.enter()?;
+
     let cell_object = space
         .get_object(cell_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("cell object is missing".into()))?;
diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 48ae8d4..a29c341 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,10 +7,20 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
+use std::cell::Cell;
 use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
+/// How deeply the contents of an object space may be nested.
+const MAX_DEPTH: usize = 128;
+
+/// How often an object may be read on average.
+///
+/// The contents of an object space form a tree so this is only exceeded if objects are
+/// excessively shared, in which case the tree could be exponentially larger than the file.
+const MAX_READS_PER_OBJECT: usize = 16;
+
 /// A OneNote object space.
 ///
 /// Typically this is a section's metadata or a page and its content.
@@ -25,9 +35,50 @@ pub(crate) struct ObjectSpace<'a> {
     context: ExGuid,
     roots: HashMap<RevisionRole, ExGuid>,
     objects: HashMap<ExGuid, Object<'a>>,
+    depth: Cell<usize>,
+    reads: Cell<usize>,
+}
+
+/// Marks that an object of an object space is being read. See [`ObjectSpace::enter`].
+#[must_use]
+pub(crate) struct ReadGuard<'a> {
+    depth: &'a Cell<usize>,
+}
+
+impl Drop for ReadGuard<'_> {
+    fn drop(&mut self) {
+        self.depth.set(self.depth.get() - 1);
+    }
 }
 
 impl<'a, 'b> ObjectSpace<'a> {
+    /// Start reading an object that can contain other objects.
+    ///
+    /// The returned guard needs to be kept until the object and its contents have been read.
+    /// Returns an error if the contents are cyclic, nested too deeply or shared excessively.
+    pub(crate) fn enter(&self) -> Result<ReadGuard<'_>> {
+        let depth = self.depth.get() + 1;
+        let reads = self.reads.get() + 1;
+
+        if depth > MAX_DEPTH {
+            return Err(ErrorKind::MalformedOneNoteData(
+                "objects are nested too deeply or cyclic".into(),
+            )
+            .into());
+        }
+
+        if reads > self.objects.len().saturating_mul(MAX_READS_PER_OBJECT) {
+            return Err(
+                ErrorKind::MalformedOneNoteData("objects are shared too often".into()).into(),
+            );
+        }
+
+        self.depth.set(depth);
+        self.reads.set(reads);
+
+        Ok(ReadGuard { depth: &self.depth })
+    }
+
     pub(crate) fn get_object(&self, id: ExGuid) -> Option<&Object<'_>> {
         self.objects.get(&id)
     }
@@ -69,6 +120,8 @@ impl<'a, 'b> ObjectSpace<'a> {
                     context: context_id,
                     roots: HashMap::new(),
                     objects: HashMap::new(),
+                    depth: Cell::new(0),
+                    reads: Cell::new(0),
                 },
             ));
         }
@@ -111,6 +164,8 @@ impl<'a, 'b> ObjectSpace<'a> {
             context: context_id,
             roots,
             objects,
+            depth: Cell::new(0),
+            reads: Cell::new(0),
         };
 
         Ok((cell_id, space))
-- 
2.43.0


From 8f46d61bea2b6a623a8083f72a2e44a2ae4fd7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 08/25] fix: report excessively nested property sets instead of
 overflowing the stack

---
 src/onestore/types/prop_set.rs | 24 ++++++++++++++++++++++--
 src/onestore/types/property.rs | 18 ++++++++++++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/onestore/types/prop_set.rs b/src/onestore/types/prop_set.rs
index f40a2de..bb074a1 100644
--- a/src/onestore/types/prop_set.rs
+++ b/src/onestore/types/prop_set.rs
@@ -1,8 +1,11 @@
 use crate::Reader;
-use crate::errors::Result;
+use crate::errors::{ErrorKind, Result};
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 use std::collections::HashMap;
 
+/// How deeply property sets may be nested.
+const MAX_DEPTH: usize = 64;
+
 /// A property set.
 ///
 /// See [\[MS-ONESTORE\] 2.6.7].
@@ -15,6 +18,18 @@ pub(crate) struct PropertySet {
 
 impl PropertySet {
     pub(crate) fn parse(reader: Reader) -> Result<PropertySet> {
+        PropertySet::parse_nested(reader, 0)
+    }
+
+    /// Parse a property set that's nested in `depth` other property sets.
+    pub(crate) fn parse_nested(reader: Reader, depth: usize) -> Result<PropertySet> {
+        if depth > MAX_DEPTH {
+            return Err(ErrorKind::MalformedOneStoreData(
+                "property sets are nested too deeply".into(),
+            )
+            .into());
+        }
+
         let count = reader.get_u16()?;
 
         let property_ids: Vec<_> = (0..count)
@@ -24,7 +39,12 @@ impl PropertySet {
         let values = property_ids
             .into_iter()
             .enumerate()
-            .map(|(idx, id)| Ok((id.id(), (idx, PropertyValue::parse(id, reader)?))))
+            .map(|(idx, id)| {
+                Ok((
+                    id.id(),
+                    (idx, PropertyValue::parse_nested(id, reader, depth)?),
+                ))
+            })
             .collect::<Result<_>>()?;
 
         Ok(PropertySet { values })
diff --git a/src/onestore/types/property.rs b/src/onestore/types/property.rs
index b1eecea..c8e0498 100644
--- a/src/onestore/types/property.rs
+++ b/src/onestore/types/property.rs
@@ -113,7 +113,17 @@ impl PropertyValue {
     //     }
     // }
 
+    #[cfg(test)]
     pub(crate) fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+        PropertyValue::parse_nested(property_id, reader, 0)
+    }
+
+    /// Parse a value of a property set that's nested in `depth` other property sets.
+    pub(crate) fn parse_nested(
+        property_id: PropertyId,
+        reader: Reader,
+        depth: usize,
+    ) -> Result<PropertyValue> {
         let prop_type = property_id.prop_type();
 
         let value = match prop_type {
@@ -134,8 +144,8 @@ impl PropertyValue {
             0xC => PropertyValue::ContextId,
             0xD => PropertyValue::ContextIds(reader.get_u32()?),
 
-            0x10 => PropertyValue::parse_property_values(reader)?,
-            0x11 => PropertyValue::PropertySet(PropertySet::parse(reader)?),
+            0x10 => PropertyValue::parse_property_values(reader, depth)?,
+            0x11 => PropertyValue::PropertySet(PropertySet::parse_nested(reader, depth + 1)?),
 
             v => {
                 return Err(ErrorKind::MalformedOneStoreData(
@@ -155,7 +165,7 @@ impl PropertyValue {
         Ok(PropertyValue::Vec(data))
     }
 
-    fn parse_property_values(reader: Reader) -> Result<PropertyValue> {
+    fn parse_property_values(reader: Reader, depth: usize) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
 
         // Parse property ID
@@ -165,7 +175,7 @@ impl PropertyValue {
         // Parse property values
 
         let values = (0..size)
-            .map(|_| PropertySet::parse(reader))
+            .map(|_| PropertySet::parse_nested(reader, depth + 1))
             .collect::<Result<_>>()?;
 
         Ok(PropertyValue::PropertyValues(id, values))
-- 
2.43.0


From a270406d078b05e9d6c336c7cde5644d021d6f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 09/25] fix: resolve the references of each note tag and text
 run from its own position

---
 src/one/property/mod.rs                    |  2 +-
 src/one/property/object_reference.rs       |  1 +
 src/one/property/object_space_reference.rs |  1 +
 src/one/property/references.rs             | 74 +++++++++++++++++++++
 src/one/property_set/note_tag_container.rs | 70 ++------------------
 src/one/property_set/text_run_data.rs      | 75 ++--------------------
 src/onestore/mapping_table.rs              | 28 ++++++++
 7 files changed, 115 insertions(+), 136 deletions(-)

diff --git a/src/one/property/mod.rs b/src/one/property/mod.rs
index 9b89f91..6a689a8 100644
--- a/src/one/property/mod.rs
+++ b/src/one/property/mod.rs
@@ -19,7 +19,7 @@ pub(crate) mod object_space_reference;
 pub(crate) mod outline_indent_distance;
 pub(crate) mod page_size;
 pub(crate) mod paragraph_alignment;
-mod references;
+pub(crate) mod references;
 pub(crate) mod simple;
 pub(crate) mod time;
 
diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 9d63d7a..3acf2f7 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -80,6 +80,7 @@ impl ObjectReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 0728dea..60a8182 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -61,6 +61,7 @@ impl ObjectSpaceReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
diff --git a/src/one/property/references.rs b/src/one/property/references.rs
index 1df7c36..c3f7450 100644
--- a/src/one/property/references.rs
+++ b/src/one/property/references.rs
@@ -1,6 +1,10 @@
 use crate::errors::{ErrorKind, Result};
 use crate::one::property::PropertyType;
+use crate::one::property::object_reference::ObjectReference;
+use crate::one::property::object_space_reference::ObjectSpaceReference;
 use crate::onestore::object::Object;
+use crate::onestore::types::jcid::JcId;
+use crate::onestore::types::object_prop_set::ObjectPropSet;
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 
 pub(crate) struct References;
@@ -29,4 +33,74 @@ impl References {
 
         Ok(predecessors)
     }
+
+    /// Get the property sets of a property as objects of their own.
+    ///
+    /// The property sets share the references of the containing object: they follow the
+    /// references of the preceding properties, in the order of the property sets.
+    pub(crate) fn get_nested_objects<'a>(
+        prop_type: PropertyType,
+        object: &Object<'a>,
+    ) -> Result<Option<Vec<Object<'a>>>> {
+        let (prop_id, prop_sets) = match object.props().get(prop_type) {
+            Some(value) => value.to_property_values().ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData(
+                    format!("property {:?} is not a property values list", prop_type).into(),
+                )
+            })?,
+            None => return Ok(None),
+        };
+
+        let mut object_offset = ObjectReference::get_offset(prop_type, object)?;
+        let mut space_offset = ObjectSpaceReference::get_offset(prop_type, object)?;
+
+        let mut objects = Vec::with_capacity(prop_sets.len());
+
+        for props in prop_sets {
+            let object_count = ObjectReference::count_references(props.values());
+            let object_ids: Vec<_> = object
+                .props()
+                .object_ids()
+                .iter()
+                .skip(object_offset)
+                .take(object_count)
+                .copied()
+                .collect();
+
+            let space_count = ObjectSpaceReference::count_references(props.values());
+            let object_space_ids: Vec<_> = object
+                .props()
+                .object_space_ids()
+                .iter()
+                .skip(space_offset)
+                .take(space_count)
+                .copied()
+                .collect();
+
+            let mapping = object.mapping().subset(
+                object_offset,
+                &object_ids,
+                space_offset,
+                &object_space_ids,
+            );
+
+            objects.push(Object {
+                context_id: object.context_id(),
+                jc_id: JcId(prop_id.value()),
+                props: ObjectPropSet {
+                    object_ids,
+                    object_space_ids,
+                    context_ids: vec![],
+                    properties: props.clone(),
+                },
+                file_data: None,
+                mapping,
+            });
+
+            object_offset = object_offset.saturating_add(object_count);
+            space_offset = space_offset.saturating_add(space_count);
+        }
+
+        Ok(Some(objects))
+    }
 }
diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 028ac11..cc97b2b 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -3,14 +3,9 @@ use crate::fsshttpb::data::exguid::ExGuid;
 use crate::one::property::PropertyType;
 use crate::one::property::note_tag::ActionItemStatus;
 use crate::one::property::object_reference::ObjectReference;
-use crate::one::property::object_space_reference::ObjectSpaceReference;
+use crate::one::property::references::References;
 use crate::one::property::time::Time;
 use crate::onestore::object::Object;
-use crate::onestore::types::compact_id::CompactId;
-use crate::onestore::types::jcid::JcId;
-use crate::onestore::types::object_prop_set::ObjectPropSet;
-use crate::onestore::types::prop_set::PropertySet;
-use crate::onestore::types::property::PropertyId;
 
 /// A note tag state container.
 ///
@@ -28,23 +23,14 @@ pub(crate) struct Data {
 
 impl Data {
     pub(crate) fn parse(object: &Object) -> Result<Option<Vec<Data>>> {
-        let (prop_id, prop_sets) = match object.props().get(PropertyType::NoteTags) {
-            Some(value) => value.to_property_values().ok_or_else(|| {
-                ErrorKind::MalformedOneNoteFileData(
-                    "note tag state is not a property values list".into(),
-                )
-            })?,
+        let objects = match References::get_nested_objects(PropertyType::NoteTags, object)? {
+            Some(objects) => objects,
             None => return Ok(None),
         };
 
-        let data = prop_sets
-            .iter()
-            .map(|props| {
-                let object = Self::parse_object(object, prop_id, props)?;
-                let data = Self::parse_data(object)?;
-
-                Ok(data)
-            })
+        let data = objects
+            .into_iter()
+            .map(Self::parse_data)
             .collect::<Result<Vec<_>>>()?;
 
         Ok(Some(data))
@@ -70,48 +56,4 @@ impl Data {
             item_status,
         })
     }
-
-    fn parse_object<'a>(
-        object: &'a Object,
-        id: PropertyId,
-        props: &PropertySet,
-    ) -> Result<Object<'a>> {
-        Ok(Object {
-            context_id: object.context_id,
-            jc_id: JcId(id.value()),
-            props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, object)?,
-                object_space_ids: Self::get_object_space_ids(props, object)?,
-                context_ids: vec![],
-                properties: props.clone(),
-            },
-            file_data: None,
-            mapping: object.mapping.clone(),
-        })
-    }
-
-    fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
-            .props
-            .object_ids
-            .iter()
-            .skip(ObjectReference::get_offset(PropertyType::NoteTags, object)?)
-            .take(ObjectReference::count_references(props.values()))
-            .copied()
-            .collect())
-    }
-
-    fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
-            .props
-            .object_ids
-            .iter()
-            .skip(ObjectSpaceReference::get_offset(
-                PropertyType::NoteTags,
-                object,
-            )?)
-            .take(ObjectSpaceReference::count_references(props.values()))
-            .copied()
-            .collect())
-    }
 }
diff --git a/src/one/property_set/text_run_data.rs b/src/one/property_set/text_run_data.rs
index b4188e3..b8ac9b3 100644
--- a/src/one/property_set/text_run_data.rs
+++ b/src/one/property_set/text_run_data.rs
@@ -1,75 +1,8 @@
-use crate::errors::{ErrorKind, Result};
+use crate::errors::Result;
 use crate::one::property::PropertyType;
-use crate::one::property::object_reference::ObjectReference;
-use crate::one::property::object_space_reference::ObjectSpaceReference;
+use crate::one::property::references::References;
 use crate::onestore::object::Object;
-use crate::onestore::types::compact_id::CompactId;
-use crate::onestore::types::jcid::JcId;
-use crate::onestore::types::object_prop_set::ObjectPropSet;
-use crate::onestore::types::prop_set::PropertySet;
-use crate::onestore::types::property::PropertyId;
 
-pub(crate) fn parse<'a>(object: &'a Object) -> Result<Option<Vec<Object<'a>>>> {
-    let (prop_id, prop_sets) = match object.props().get(PropertyType::TextRunData) {
-        Some(value) => value.to_property_values().ok_or_else(|| {
-            ErrorKind::MalformedOneNoteFileData(
-                "text run data is not a property values list".into(),
-            )
-        })?,
-        None => return Ok(None),
-    };
-
-    let data = prop_sets
-        .iter()
-        .map(|props| parse_object(object, prop_id, props))
-        .collect::<Result<Vec<_>>>()?;
-
-    Ok(Some(data))
-}
-
-fn parse_object<'a>(
-    object: &'a Object,
-    prop_id: PropertyId,
-    props: &PropertySet,
-) -> Result<Object<'a>> {
-    Ok(Object {
-        context_id: object.context_id,
-        jc_id: JcId(prop_id.value()),
-        props: ObjectPropSet {
-            object_ids: get_object_ids(props, object)?,
-            object_space_ids: get_object_space_ids(props, object)?,
-            context_ids: vec![],
-            properties: props.clone(),
-        },
-        file_data: None,
-        mapping: object.mapping.clone(),
-    })
-}
-
-fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
-        .props
-        .object_ids
-        .iter()
-        .skip(ObjectReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
-        .take(ObjectReference::count_references(props.values()))
-        .copied()
-        .collect())
-}
-
-fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-    Ok(object
-        .props
-        .object_ids
-        .iter()
-        .skip(ObjectSpaceReference::get_offset(
-            PropertyType::TextRunData,
-            object,
-        )?)
-        .take(ObjectSpaceReference::count_references(props.values()))
-        .copied()
-        .collect())
+pub(crate) fn parse<'a>(object: &Object<'a>) -> Result<Option<Vec<Object<'a>>>> {
+    References::get_nested_objects(PropertyType::TextRunData, object)
 }
diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index de38f73..3ba1339 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -44,6 +44,34 @@ impl MappingTable {
         }
     }
 
+    /// Get the mapping table for a part of the object's references.
+    pub(crate) fn subset(
+        &self,
+        object_offset: usize,
+        object_ids: &[CompactId],
+        object_space_offset: usize,
+        object_space_ids: &[CompactId],
+    ) -> MappingTable {
+        let mut objects: HashMap<CompactId, Vec<(usize, ExGuid)>> = HashMap::new();
+        for (i, cid) in object_ids.iter().enumerate() {
+            if let Some(id) = self.get_object(object_offset + i, *cid) {
+                objects.entry(*cid).or_default().push((i, id));
+            }
+        }
+
+        let mut object_spaces: HashMap<CompactId, Vec<(usize, CellId)>> = HashMap::new();
+        for (i, cid) in object_space_ids.iter().enumerate() {
+            if let Some(id) = self.get_object_space(object_space_offset + i, *cid) {
+                object_spaces.entry(*cid).or_default().push((i, id));
+            }
+        }
+
+        MappingTable {
+            objects,
+            object_spaces,
+        }
+    }
+
     pub(crate) fn get_object(&self, index: usize, cid: CompactId) -> Option<ExGuid> {
         self.get(index, cid, &self.objects)
     }
-- 
2.43.0


From be16627b55c7c60fd58fa890d14abb009982ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 10/25] fix: report notebook entries that can't be accessed
 instead of leaving them out

---
 src/onenote/mod.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index e90d63d..a1668ee 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -6,8 +6,8 @@ use crate::onestore::parse_store;
 use crate::reader::Reader;
 use sanitise_file_name::sanitise;
 use std::ffi::OsStr;
-use std::fs::File;
-use std::io::{BufReader, Read};
+use std::fs::{self, File, Metadata};
+use std::io::{self, BufReader, Read};
 use std::path::{Component, Path, PathBuf};
 
 pub(crate) mod content;
@@ -79,9 +79,12 @@ impl Parser {
             .collect::<Result<Vec<_>>>()?;
         let sections = entries
             .into_iter()
-            .filter(|p| p.exists())
             .filter(|p| !p.ends_with("OneNote_RecycleBin"))
+            .map(|path| Ok(find_entry(&path)?.map(|_| path)))
+            .filter_map(Result::transpose)
             .map(|path| {
+                let path = path?;
+
                 if path.is_file() {
                     self.parse_section(&path).map(SectionEntry::Section)
                 } else {
@@ -237,7 +240,7 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
     }
 
     let candidate = base_dir.join(&sanitized);
-    if candidate.exists() {
+    if find_entry(&candidate)?.is_some() {
         let base_canon = base_dir
             .canonicalize()
             .map_err(|err| ErrorKind::InvalidPath {
@@ -259,6 +262,24 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
     Ok(candidate)
 }
 
+/// Look up a notebook entry that might not exist.
+///
+/// An entry that can't be accessed is not the same as a missing one so this is an error.
+fn find_entry(path: &Path) -> Result<Option<Metadata>> {
+    match fs::metadata(path) {
+        Ok(metadata) => Ok(Some(metadata)),
+        Err(err)
+            if matches!(
+                err.kind(),
+                io::ErrorKind::NotFound | io::ErrorKind::NotADirectory
+            ) =>
+        {
+            Ok(None)
+        }
+        Err(err) => Err(err.into()),
+    }
+}
+
 impl Default for Parser {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 6683c6400b28a3ec7f5cd2510786cce3422a6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 11/25] fix: read notebooks whose path is only a file name

---
 src/onenote/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index a1668ee..ddac04d 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -72,6 +72,11 @@ impl Parser {
         let base_dir = path.parent().ok_or_else(|| ErrorKind::InvalidPath {
             message: "path has no parent directory".into(),
         })?;
+        let base_dir = if base_dir.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_dir
+        };
         let (entries, color) = notebook::parse_toc(store.data_root())?;
         let entries = entries
             .iter()
-- 
2.43.0


From b250c4a572ca6c27466955d706178ce376d3cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 12/25] fix: always pick the same table of contents file of a
 section group

---
 src/onenote/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index ddac04d..f6a5f32 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -166,6 +166,8 @@ impl Parser {
             .to_string_lossy()
             .to_string();
 
+        let mut toc_files = vec![];
+
         for entry in path.read_dir()? {
             let entry = entry?;
             let is_toc = entry
@@ -175,15 +177,18 @@ impl Parser {
                 .unwrap_or_default();
 
             if is_toc {
-                return self
-                    .parse_notebook(&entry.path())
-                    .map(|group| SectionGroup {
-                        display_name,
-                        entries: group.entries,
-                    });
+                toc_files.push(entry.path());
             }
         }
 
+        // The order of directory entries is unspecified so always pick the same file
+        if let Some(toc_file) = toc_files.iter().min() {
+            return self.parse_notebook(toc_file).map(|group| SectionGroup {
+                display_name,
+                entries: group.entries,
+            });
+        }
+
         Err(ErrorKind::TocFileMissing {
             dir: path.as_os_str().to_string_lossy().into_owned(),
         }
-- 
2.43.0


From 3b6e8414e402563019d0f2be45fd960e691db7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 13/25] fix: don't follow links of a section group to a table
 of contents outside of it

---
 src/onenote/mod.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index f6a5f32..6971c5c 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -183,6 +183,8 @@ impl Parser {
 
         // The order of directory entries is unspecified so always pick the same file
         if let Some(toc_file) = toc_files.iter().min() {
+            ensure_contained(path, toc_file)?;
+
             return self.parse_notebook(toc_file).map(|group| SectionGroup {
                 display_name,
                 entries: group.entries,
@@ -251,27 +253,34 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
 
     let candidate = base_dir.join(&sanitized);
     if find_entry(&candidate)?.is_some() {
-        let base_canon = base_dir
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve base directory: {err}").into(),
-            })?;
-        let candidate_canon = candidate
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve entry path: {err}").into(),
-            })?;
-        if !candidate_canon.starts_with(&base_canon) {
-            return Err(ErrorKind::InvalidPath {
-                message: "section entry escapes base directory".into(),
-            }
-            .into());
-        }
+        ensure_contained(base_dir, &candidate)?;
     }
 
     Ok(candidate)
 }
 
+/// Check that an existing file or directory is located in the base directory.
+fn ensure_contained(base_dir: &Path, candidate: &Path) -> Result<()> {
+    let base_canon = base_dir
+        .canonicalize()
+        .map_err(|err| ErrorKind::InvalidPath {
+            message: format!("failed to resolve base directory: {err}").into(),
+        })?;
+    let candidate_canon = candidate
+        .canonicalize()
+        .map_err(|err| ErrorKind::InvalidPath {
+            message: format!("failed to resolve entry path: {err}").into(),
+        })?;
+    if !candidate_canon.starts_with(&base_canon) {
+        return Err(ErrorKind::InvalidPath {
+            message: "section entry escapes base directory".into(),
+        }
+        .into());
+    }
+
+    Ok(())
+}
+
 /// Look up a notebook entry that might not exist.
 ///
 /// An entry that can't be accessed is not the same as a missing one so this is an error.
-- 
2.43.0


From 6a2558cde77c2a7003bc9311355287a232fd6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 14/25] fix: report section groups that contain themselves
 instead of reading them over and over

---
 src/onenote/mod.rs | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 6971c5c..3c126fb 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -5,6 +5,7 @@ use crate::onenote::section::{Section, SectionEntry, SectionGroup};
 use crate::onestore::parse_store;
 use crate::reader::Reader;
 use sanitise_file_name::sanitise;
+use std::collections::HashMap;
 use std::ffi::OsStr;
 use std::fs::{self, File, Metadata};
 use std::io::{self, BufReader, Read};
@@ -27,6 +28,9 @@ pub(crate) mod rich_text;
 pub(crate) mod section;
 pub(crate) mod table;
 
+/// How often the directory of a section group may be read for a single notebook.
+const MAX_VISITS_PER_GROUP: usize = 16;
+
 /// The OneNote file parser.
 ///
 /// Use [`Parser::parse_notebook`] to load a notebook from a `.onetoc2` file or
@@ -57,6 +61,17 @@ impl Parser {
     /// Returns [`ErrorKind::NotATocFile`] if the file is not a notebook table of
     /// contents.
     pub fn parse_notebook(&self, path: &Path) -> Result<Notebook> {
+        self.parse_notebook_with(path, &mut HashMap::new())
+    }
+
+    /// Parse a notebook or the contents of a section group.
+    ///
+    /// `visits` counts how often each section group directory has been read.
+    fn parse_notebook_with(
+        &self,
+        path: &Path,
+        visits: &mut HashMap<PathBuf, usize>,
+    ) -> Result<Notebook> {
         let file = File::open(path)?;
         let data = Parser::read(file)?;
         let packaging = OneStorePackaging::parse(&mut Reader::new(data.as_slice()))?;
@@ -93,7 +108,7 @@ impl Parser {
                 if path.is_file() {
                     self.parse_section(&path).map(SectionEntry::Section)
                 } else {
-                    self.parse_section_group(&path)
+                    self.parse_section_group(&path, visits)
                         .map(SectionEntry::SectionGroup)
                 }
             })
@@ -157,7 +172,22 @@ impl Parser {
         )
     }
 
-    fn parse_section_group(&self, path: &Path) -> Result<SectionGroup> {
+    fn parse_section_group(
+        &self,
+        path: &Path,
+        visits: &mut HashMap<PathBuf, usize>,
+    ) -> Result<SectionGroup> {
+        // Links and alternative spellings of a name can make a section group contain itself or
+        // multiply the number of section groups with every level
+        let count = visits.entry(path.canonicalize()?).or_default();
+        *count += 1;
+        if *count > MAX_VISITS_PER_GROUP {
+            return Err(ErrorKind::InvalidPath {
+                message: "section group is contained in itself or too many section groups".into(),
+            }
+            .into());
+        }
+
         let display_name = path
             .file_name()
             .ok_or_else(|| ErrorKind::InvalidPath {
@@ -185,10 +215,12 @@ impl Parser {
         if let Some(toc_file) = toc_files.iter().min() {
             ensure_contained(path, toc_file)?;
 
-            return self.parse_notebook(toc_file).map(|group| SectionGroup {
-                display_name,
-                entries: group.entries,
-            });
+            return self
+                .parse_notebook_with(toc_file, visits)
+                .map(|group| SectionGroup {
+                    display_name,
+                    entries: group.entries,
+                });
         }
 
         Err(ErrorKind::TocFileMissing {
-- 
2.43.0


From 367d442818d85bea14f84d1ca86aeab3493c4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 15/25] fix: report references that can't be resolved instead
 of leaving them out

---
 src/one/property/object_reference.rs       | 25 +++++++++++++++++-----
 src/one/property/object_space_reference.rs | 11 ++++++++--
 src/onestore/types/compact_id.rs           |  4 ++++
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 3acf2f7..54139b0 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -30,7 +30,7 @@ impl ObjectReference {
                 ErrorKind::MalformedOneNoteFileData("object id index corrupt".into())
             })?;
 
-        Ok(Self::resolve_id(index, id, object))
+        Self::resolve_id(index, id, object)
     }
 
     pub(crate) fn parse_vec(
@@ -52,14 +52,21 @@ impl ObjectReference {
 
         let references = object.props().object_ids();
 
+        if references.len().saturating_sub(offset) < count as usize {
+            return Err(ErrorKind::MalformedOneNoteFileData(
+                "object reference array is longer than the object's references".into(),
+            )
+            .into());
+        }
+
         // Look up the object references by offset/count and resolve them
         let object_ids = references
             .iter()
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
-            .collect();
+            .filter_map(|(index, id)| Self::resolve_id(index + offset, id, object).transpose())
+            .collect::<Result<_>>()?;
 
         Ok(Some(object_ids))
     }
@@ -86,7 +93,15 @@ impl ObjectReference {
             .sum()
     }
 
-    fn resolve_id(index: usize, id: &CompactId, object: &Object) -> Option<ExGuid> {
-        object.mapping().get_object(index, *id)
+    /// Resolve an ID using the mapping table, returns `None` if it's a null reference.
+    fn resolve_id(index: usize, id: &CompactId, object: &Object) -> Result<Option<ExGuid>> {
+        match object.mapping().get_object(index, *id) {
+            Some(object_id) if !object_id.is_nil() => Ok(Some(object_id)),
+            _ if id.is_nil() => Ok(None),
+            _ => Err(ErrorKind::MalformedOneNoteFileData(
+                "object id not defined in mapping".into(),
+            )
+            .into()),
+        }
     }
 }
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 60a8182..06f9b1e 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -33,14 +33,21 @@ impl ObjectSpaceReference {
 
         let references = object.props().object_space_ids();
 
+        if references.len().saturating_sub(offset) < count as usize {
+            return Err(ErrorKind::MalformedOneNoteFileData(
+                "object space reference array is longer than the object's references".into(),
+            )
+            .into());
+        }
+
         // Look up the object space references by offset/count and resolve them
         let object_space_ids = references
             .iter()
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index, id, object))
-            .collect();
+            .map(|(index, id)| Self::resolve_id(index + offset, id, object))
+            .collect::<Result<_>>()?;
 
         Ok(Some(object_space_ids))
     }
diff --git a/src/onestore/types/compact_id.rs b/src/onestore/types/compact_id.rs
index 12e89c9..622144d 100644
--- a/src/onestore/types/compact_id.rs
+++ b/src/onestore/types/compact_id.rs
@@ -13,6 +13,10 @@ pub(crate) struct CompactId {
 }
 
 impl CompactId {
+    pub(crate) fn is_nil(&self) -> bool {
+        self.n == 0 && self.guid_index == 0
+    }
+
     pub(crate) fn parse(reader: Reader) -> Result<CompactId> {
         let data = reader.get_u32()?;
 
-- 
2.43.0


From 01793ab162201ade95a50aa16af1a68162ffad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 16/25] fix: don't count null references when resolving the
 references of an object

---
 src/onestore/object.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/onestore/object.rs b/src/onestore/object.rs
index ad5ab1c..08a6000 100644
--- a/src/onestore/object.rs
+++ b/src/onestore/object.rs
@@ -7,6 +7,7 @@ use crate::onestore::object_space::GroupData;
 use crate::onestore::types::jcid::JcId;
 use crate::onestore::types::object_prop_set::ObjectPropSet;
 use crate::reader::Reader;
+use crate::shared::guid::Guid;
 
 /// A OneNote data object.
 ///
@@ -130,11 +131,17 @@ impl<'a> Object<'a> {
             .into());
         }
 
-        let mapping_objects = props
-            .object_ids()
-            .iter()
-            .copied()
-            .zip(object_refs.iter().copied());
+        // Null references might not have an entry in the list of referenced objects
+        let skip_nil = object_refs.len() < props.object_ids().len();
+        let mut object_refs = object_refs.iter().copied();
+
+        let mapping_objects = props.object_ids().iter().copied().map_while(|id| {
+            if skip_nil && id.is_nil() {
+                Some((id, ExGuid::from_guid(Guid::nil(), 0)))
+            } else {
+                object_refs.next().map(|object_id| (id, object_id))
+            }
+        });
 
         let mapping_contexts = props.context_ids().iter().copied().zip(context_refs);
 
-- 
2.43.0


From 370bc59d0372a3db35ad1a701dd3deef05dece27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 17/25] fix: use the storage index and manifest the file refers
 to instead of an arbitrary one

---
 src/fsshttpb/data_element/mod.rs           | 14 ++++++++++----
 src/fsshttpb/data_element/storage_index.rs |  6 ++++++
 src/onestore/mod.rs                        | 17 ++++++++++-------
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 010553a..9b0c0bb 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -11,6 +11,7 @@ use crate::fsshttpb::data_element::object_group::ObjectGroup;
 use crate::fsshttpb::data_element::revision_manifest::RevisionManifest;
 use crate::fsshttpb::data_element::storage_index::StorageIndex;
 use crate::fsshttpb::data_element::storage_manifest::StorageManifest;
+use itertools::Itertools;
 use std::collections::HashMap;
 use std::fmt::Debug;
 
@@ -111,9 +112,9 @@ impl DataElementPackage {
         self.object_data_blobs.get(&id).map(|blob| blob.value())
     }
 
-    /// Find the first storage index.
+    /// Find the storage index if there's only one.
     pub(crate) fn find_storage_index(&self) -> Option<&StorageIndex> {
-        self.storage_indexes.values().next()
+        self.storage_indexes.values().exactly_one().ok()
     }
 
     /// Look up a storage index by its ID.
@@ -121,9 +122,14 @@ impl DataElementPackage {
         self.storage_indexes.get(&id)
     }
 
-    /// Find the first storage manifest.
+    /// Find the storage manifest if there's only one.
     pub(crate) fn find_storage_manifest(&self) -> Option<&StorageManifest> {
-        self.storage_manifests.values().next()
+        self.storage_manifests.values().exactly_one().ok()
+    }
+
+    /// Look up a storage manifest by its ID.
+    pub(crate) fn find_storage_manifest_by_id(&self, id: ExGuid) -> Option<&StorageManifest> {
+        self.storage_manifests.get(&id)
     }
 
     /// Resolve a revision manifest ID, falling back when revision mappings are missing.
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index be75b5a..43badac 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -22,6 +22,12 @@ pub(crate) struct StorageIndex {
 }
 
 impl StorageIndex {
+    pub(crate) fn find_manifest_mapping_id(&self) -> Option<ExGuid> {
+        self.manifest_mappings
+            .iter()
+            .find_map(|mapping| mapping.mapping_id.as_option())
+    }
+
     pub(crate) fn find_cell_mapping_id(&self, cell_id: CellId) -> Option<ExGuid> {
         self.cell_mappings.get(&cell_id).map(|mapping| mapping.id)
     }
diff --git a/src/onestore/mod.rs b/src/onestore/mod.rs
index a273412..1316db8 100644
--- a/src/onestore/mod.rs
+++ b/src/onestore/mod.rs
@@ -44,14 +44,17 @@ pub(crate) fn parse_store(package: &OneStorePackaging) -> Result<OneStore<'_>> {
     let mut parsed_object_spaces = HashSet::new();
 
     // [ONESTORE] 2.7.1: Parse storage manifest
-    let storage_index = package
-        .data_element_package
-        .find_storage_index_by_id(package.storage_index)
-        .or_else(|| package.data_element_package.find_storage_index())
+    let storage_index = match package.storage_index.as_option() {
+        Some(id) => package.data_element_package.find_storage_index_by_id(id),
+        None => package.data_element_package.find_storage_index(),
+    };
+    let storage_index = storage_index
         .ok_or_else(|| ErrorKind::MalformedOneStoreData("storage index is missing".into()))?;
-    let storage_manifest = package
-        .data_element_package
-        .find_storage_manifest()
+    let storage_manifest = match storage_index.find_manifest_mapping_id() {
+        Some(id) => package.data_element_package.find_storage_manifest_by_id(id),
+        None => package.data_element_package.find_storage_manifest(),
+    };
+    let storage_manifest = storage_manifest
         .ok_or_else(|| ErrorKind::MalformedOneStoreData("storage manifest is missing".into()))?;
 
     let header_cell_id = find_header_cell_id(storage_manifest)?;
-- 
2.43.0


From 929dc9f5ec7b312b5abf9318cb00b38afe9a8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 18/25] fix: don't pick an arbitrary revision if several have
 the serial number of a cell

---
 src/fsshttpb/data_element/mod.rs           | 9 +++++----
 src/fsshttpb/data_element/storage_index.rs | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 9b0c0bb..9c54a52 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -82,10 +82,11 @@ impl DataElementPackage {
                 storage_index
                     .cell_mappings
                     .values()
-                    .find(|mapping| mapping.id == cell)
-                    .and_then(|mapping| {
-                        storage_index.find_revision_mapping_by_serial(&mapping.serial)
-                    })
+                    .filter(|mapping| mapping.id == cell)
+                    .map(|mapping| storage_index.find_revision_mapping_by_serial(&mapping.serial))
+                    .all_equal_value()
+                    .ok()
+                    .flatten()
             })
             .ok_or_else(|| {
                 ErrorKind::MalformedFssHttpBData("revision manifest id not found".into())
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index 43badac..0972b73 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -6,6 +6,7 @@ use crate::fsshttpb::data::object_types::ObjectType;
 use crate::fsshttpb::data::serial_number::SerialNumber;
 use crate::fsshttpb::data::stream_object::ObjectHeader;
 use crate::fsshttpb::data_element::DataElement;
+use itertools::Itertools;
 use std::collections::HashMap;
 
 /// A storage index.
@@ -41,10 +42,12 @@ impl StorageIndex {
     pub(crate) fn find_revision_mapping_by_serial(&self, serial: &SerialNumber) -> Option<ExGuid> {
         self.revision_mappings
             .values()
-            .find(|mapping| {
+            .filter(|mapping| {
                 mapping.serial.guid == serial.guid && mapping.serial.serial == serial.serial
             })
             .map(|mapping| mapping.revision_mapping)
+            .all_equal_value()
+            .ok()
     }
 }
 
-- 
2.43.0


From 53d02a6ae2cb6f43fafc828a5d8edc830917eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 19/25] fix: use the roots of the newest revision

---
 src/onestore/revision.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 80b7b4c..68cf22a 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -58,13 +58,15 @@ impl<'a, 'b> Revision<'a> {
             return Ok(base_rev);
         }
 
-        roots.extend(
-            revision_manifest
-                .root_declare
-                .iter()
-                .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
-                .collect::<Result<Vec<_>>>()?,
-        );
+        let mut revision_roots = revision_manifest
+            .root_declare
+            .iter()
+            .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
+            .collect::<Result<HashMap<_, _>>>()?;
+
+        // The roots of newer revisions, which have already been parsed, take precedence
+        revision_roots.extend(roots.iter());
+        *roots = revision_roots;
 
         for group_id in revision_manifest.group_references.iter() {
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
-- 
2.43.0


From 8ab9964e627a07510a62908df49616d661b52110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 20/25] fix: read the end of the metadata of an object group as
 the 16-bit value it is stored as

---
 src/fsshttpb/data/stream_object.rs        | 12 ++++++++++++
 src/fsshttpb/data_element/object_group.rs |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fsshttpb/data/stream_object.rs b/src/fsshttpb/data/stream_object.rs
index 303b0e2..d0528e3 100644
--- a/src/fsshttpb/data/stream_object.rs
+++ b/src/fsshttpb/data/stream_object.rs
@@ -205,6 +205,18 @@ impl ObjectHeader {
         Ok(data & 0b11 == 0x1 && data >> 2 == expected)
     }
 
+    pub(crate) fn has_end_16(reader: Reader, object_type: ObjectType) -> Result<bool> {
+        let data = match reader.bytes() {
+            [first, second, ..] => u16::from_le_bytes([*first, *second]),
+            _ => return Err(ErrorKind::UnexpectedEof.into()),
+        };
+        let expected = object_type.to_u16().ok_or_else(|| {
+            ErrorKind::MalformedFssHttpBData(format!("invalid object type: {object_type:?}").into())
+        })?;
+
+        Ok(data & 0b11 == 0x3 && data >> 2 == expected)
+    }
+
     fn try_parse_start(
         reader: Reader,
         object_type: ObjectType,
diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index 5623dd6..c267e56 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -275,7 +275,7 @@ impl DataElement {
         let mut declarations = vec![];
 
         loop {
-            if ObjectHeader::has_end_8(reader, ObjectType::ObjectGroupMetadataBlock)? {
+            if ObjectHeader::has_end_16(reader, ObjectType::ObjectGroupMetadataBlock)? {
                 break;
             }
 
@@ -287,7 +287,7 @@ impl DataElement {
             })
         }
 
-        ObjectHeader::try_parse_end_8(reader, ObjectType::ObjectGroupMetadataBlock)?;
+        ObjectHeader::try_parse_end_16(reader, ObjectType::ObjectGroupMetadataBlock)?;
 
         Ok(declarations)
     }
-- 
2.43.0


From 262c0bb38ff985c52ebf797a2f8dd4d47117ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:15 +0000
Subject: [PATCH 21/25] fix: read data element fragments completely

---
 src/fsshttpb/data_element/data_element_fragment.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fsshttpb/data_element/data_element_fragment.rs b/src/fsshttpb/data_element/data_element_fragment.rs
index c2f89d8..eb350f6 100644
--- a/src/fsshttpb/data_element/data_element_fragment.rs
+++ b/src/fsshttpb/data_element/data_element_fragment.rs
@@ -41,7 +41,9 @@ impl DataElement {
         let offset = CompactU64::parse(reader)?.value();
         let length = CompactU64::parse(reader)?.value();
 
-        let data = reader.read(size as usize)?.to_vec();
+        let data = reader.read(length as usize)?.to_vec();
+
+        ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
 
         let chunk_reference = DataElementFragmentChunkReference { offset, length };
         let fragment = DataElementFragment {
-- 
2.43.0


From 7bcbd84a6c3982b6c91b166214ae398137b6f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 22/25] fix: list every entry of a notebook only once

---
 src/onenote/notebook.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 3c28792..d8b84e3 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -40,7 +40,7 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
         .entries
         .into_iter()
         .sorted_by_key(|(ordering_id, _)| *ordering_id)
-        .dedup_by(|(_, a), (_, b)| a == b)
+        .unique_by(|(_, name)| name.clone())
         .map(|(_, name)| name)
         .collect();
 
-- 
2.43.0


From e72e78f59481294a459f269db4cc5fde67c4b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 23/25] fix: accept notebook entries whose names are safe but
 untidy

---
 src/onenote/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 3c126fb..f29d68b 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -4,7 +4,7 @@ use crate::onenote::notebook::Notebook;
 use crate::onenote::section::{Section, SectionEntry, SectionGroup};
 use crate::onestore::parse_store;
 use crate::reader::Reader;
-use sanitise_file_name::sanitise;
+use sanitise_file_name::{Options, sanitise_with_options};
 use std::collections::HashMap;
 use std::ffi::OsStr;
 use std::fs::{self, File, Metadata};
@@ -31,6 +31,17 @@ pub(crate) mod table;
 /// How often the directory of a section group may be read for a single notebook.
 const MAX_VISITS_PER_GROUP: usize = 16;
 
+/// The rules for the names of notebook entries.
+///
+/// Names that are not safe to use as file names are rejected. Names that are merely untidy (e.g.
+/// `_Inbox.one`) are valid names in OneNote.
+const ENTRY_NAME_RULES: Options<Option<char>> = Options {
+    normalise_whitespace: false,
+    trim_spaces_and_full_stops: false,
+    trim_more_punctuation: false,
+    ..Options::DEFAULT
+};
+
 /// The OneNote file parser.
 ///
 /// Use [`Parser::parse_notebook`] to load a notebook from a `.onetoc2` file or
@@ -256,7 +267,7 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
                 let name = name.to_str().ok_or_else(|| ErrorKind::InvalidPath {
                     message: "section entry contains non-utf8 characters".into(),
                 })?;
-                let clean = sanitise(name);
+                let clean = sanitise_with_options(name, &ENTRY_NAME_RULES);
                 if clean != name {
                     return Err(ErrorKind::InvalidPath {
                         message: format!("section entry contains invalid characters: {name}")
-- 
2.43.0


From d0542d1edf2a9c5800bfb522ba326d08cc991f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:27 +0000
Subject: [PATCH 24/25] fix: refuse section groups that are nested too deeply

---
 src/onenote/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index f29d68b..f2799f7 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -31,6 +31,9 @@ pub(crate) mod table;
 /// How often the directory of a section group may be read for a single notebook.
 const MAX_VISITS_PER_GROUP: usize = 16;
 
+/// How deep section groups may be nested.
+const MAX_GROUP_DEPTH: usize = 256;
+
 /// The rules for the names of notebook entries.
 ///
 /// Names that are not safe to use as file names are rejected. Names that are merely untidy (e.g.
@@ -72,16 +75,18 @@ impl Parser {
     /// Returns [`ErrorKind::NotATocFile`] if the file is not a notebook table of
     /// contents.
     pub fn parse_notebook(&self, path: &Path) -> Result<Notebook> {
-        self.parse_notebook_with(path, &mut HashMap::new())
+        self.parse_notebook_with(path, &mut HashMap::new(), 0)
     }
 
     /// Parse a notebook or the contents of a section group.
     ///
-    /// `visits` counts how often each section group directory has been read.
+    /// `visits` counts how often each section group directory has been read, `depth` is the number
+    /// of section groups that contain this one.
     fn parse_notebook_with(
         &self,
         path: &Path,
         visits: &mut HashMap<PathBuf, usize>,
+        depth: usize,
     ) -> Result<Notebook> {
         let file = File::open(path)?;
         let data = Parser::read(file)?;
@@ -119,7 +124,7 @@ impl Parser {
                 if path.is_file() {
                     self.parse_section(&path).map(SectionEntry::Section)
                 } else {
-                    self.parse_section_group(&path, visits)
+                    self.parse_section_group(&path, visits, depth + 1)
                         .map(SectionEntry::SectionGroup)
                 }
             })
@@ -187,7 +192,15 @@ impl Parser {
         &self,
         path: &Path,
         visits: &mut HashMap<PathBuf, usize>,
+        depth: usize,
     ) -> Result<SectionGroup> {
+        if depth > MAX_GROUP_DEPTH {
+            return Err(ErrorKind::InvalidPath {
+                message: "section groups are nested too deeply".into(),
+            }
+            .into());
+        }
+
         // Links and alternative spellings of a name can make a section group contain itself or
         // multiply the number of section groups with every level
         let count = visits.entry(path.canonicalize()?).or_default();
@@ -227,7 +240,7 @@ impl Parser {
             ensure_contained(path, toc_file)?;
 
             return self
-                .parse_notebook_with(toc_file, visits)
+                .parse_notebook_with(toc_file, visits, depth)
                 .map(|group| SectionGroup {
                     display_name,
                     entries: group.entries,
-- 
2.43.0


From 876a6ab799cb9e2783a16f680a31df768e396f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:37 +0000
Subject: [PATCH 25/25] fix: ignore directories that are named like a table of
 contents

---
 src/onenote/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index f2799f7..0d7e4e7 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -230,7 +230,8 @@ impl Parser {
                 .map(|ext| ext == OsStr::new("onetoc2"))
                 .unwrap_or_default();
 
-            if is_toc {
+            // Anything can be called like a table of contents (e.g. another section group)
+            if is_toc && find_entry(&entry.path())?.is_some_and(|metadata| metadata.is_file()) {
                 toc_files.push(entry.path());
             }
         }
-- 
2.43.0

