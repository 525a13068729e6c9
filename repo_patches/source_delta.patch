From 377e451b794fa6860a343d10359f73785c83a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 01/42] fix: keep the offset table of a basket as long as it
 claims to be

An entry larger than the offset table raised nev_size without growing the
table, so a later small entry in the same basket indexed past its end.
---
 oxyroot/src/rtree/branch/wbranch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 2b3204b..bfc7501 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -145,7 +145,9 @@ where
                 let sz_new = basket.wbuf.len();
                 trace!(";WBranch.write.{ident}.sz_new:{:?}", sz_new);
                 let n = (sz_new - sz_old) as i32;
-                if n > basket.basket.nev_size {
+                // nev_size is the capacity of the offset table when there is one, and the size of
+                // an entry otherwise
+                if basket.basket.offsets().is_empty() && n > basket.basket.nev_size {
                     basket.basket.nev_size = n;
                 }
 
-- 
2.43.0


From 3b26217cb7e54c2b4eacda9a310c3ad40fef0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 02/42] fix: flush the file when it is closed

RootFile::close left the last blocks in the write buffer until the handle was
dropped, so the file on disk was incomplete (and write errors were lost).
---
 oxyroot/src/riofs/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9fb9554..9346694 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -129,6 +129,11 @@ impl RootFileWriter {
         self.writer.as_mut().expect("ERROR").write_all(buf)?;
         Ok(())
     }
+
+    pub(crate) fn flush(&mut self) -> Result<()> {
+        self.writer.as_mut().expect("ERROR").flush()?;
+        Ok(())
+    }
 }
 
 // impl Clone for RootFileWriter {
@@ -357,6 +362,7 @@ impl RootFile {
         self.write_streamer_info()?;
         self.write_free_segments()?;
         self.write_header()?;
+        self.writer()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 6f49345c6b55d92a27ca4ff9d1388505490788b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 03/42] fix: return an error when the opened file is not a ROOT
 file

RootFile::open panicked on a file without the ROOT magic number.
---
 oxyroot/src/riofs/error.rs | 2 ++
 oxyroot/src/riofs/file.rs  | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index 821c6c7..bed0e38 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -5,6 +5,8 @@ pub enum Error {
     TryFromSlice,
     Io(std::io::Error),
     FileHasAnIncorrectHeaderLength,
+    /// The file does not start with the magic number of ROOT files, but with these bytes
+    NotARootFile(Vec<u8>),
     CantReadDirectoryInfo {
         n_bytes_name_read: i32,
         n_bytes_name_min_allowed: i32,
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9346694..b3a0b4f 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -402,7 +402,9 @@ impl RootFile {
 
         trace!("magic = {:?}", magic);
 
-        assert_eq!(magic, ROOT_MAGIC.as_bytes());
+        if magic != ROOT_MAGIC.as_bytes() {
+            return Err(Error::NotARootFile(magic.to_vec()));
+        }
 
         let version = r.read_i32()?;
         trace!("version = {}", version);
-- 
2.43.0


From 7d271bcd58924d897d3351b12079207d0dbf2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 04/42] fix: accept the name records ROOT accepts when opening
 a file

A file created under a path of about 480 bytes or more has a name record larger
than 1000 bytes, which was refused on opening; ROOT's own limit is 10000.
---
 oxyroot/src/riofs/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 6e8a0ca..870533e 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -173,11 +173,11 @@ impl TDirectoryFile {
         dir.dir.named.name = r.read_string()?.to_string();
         dir.dir.named.title = r.read_string()?.to_string();
 
-        if dir.n_bytes_name < 10 || dir.n_bytes_name > 1000 {
+        if dir.n_bytes_name < 10 || dir.n_bytes_name > 10000 {
             return Err(crate::riofs::error::Error::CantReadDirectoryInfo {
                 n_bytes_name_read: dir.n_bytes_name,
                 n_bytes_name_min_allowed: 10,
-                n_bytes_name_max_allowed: 1000,
+                n_bytes_name_max_allowed: 10000,
             });
         }
 
-- 
2.43.0


From ae4fcd205b80917991bb8a1ca399420cf0bee849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 05/42] fix: describe the classes of branches and leaves in the
 written file

The streamer info record lacked the classes of the leaves and of the vector
branches stored in a tree, so the file could only be read by a program that
knows these classes beforehand.
---
 oxyroot/src/riofs/file.rs        | 14 ++++++++++++++
 oxyroot/src/rtree/leaf.rs        |  6 ++++++
 oxyroot/src/rtree/tree/writer.rs | 12 +++++++++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index b3a0b4f..a378e09 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -159,6 +159,8 @@ pub struct RootFile {
     header: RootFileHeader,
     spans: FreeList,
     sinfos: RootFileStreamerInfoContext,
+    /// Classes of the objects stored inside trees (branches and leaves), to be described in the file
+    stored_classes: Vec<&'static str>,
     dir: TDirectoryFile,
     id: String,
 }
@@ -355,6 +357,14 @@ impl RootFile {
         );
     }
 
+    /// Remember that an object of this class is stored in the file, the class will be described in the
+    /// streamer info record.
+    pub(crate) fn add_stored_class(&mut self, class: &'static str) {
+        if !self.stored_classes.contains(&class) {
+            self.stored_classes.push(class);
+        }
+    }
+
     pub fn close(&mut self) -> Result<()> {
         let mut dir = self.dir().clone();
         dir.close(self)?;
@@ -629,6 +639,10 @@ impl RootFile {
 
         self.find_deep_streamer()?;
 
+        for class in std::mem::take(&mut self.stored_classes) {
+            self.add_streamer_info(streamer_info(class, -1)?);
+        }
+
         trace!(
             ";RootFile.write_streamer_info.f.sinfos.after_find_deep_streamer.len:{}",
             self.sinfos.list().len()
diff --git a/oxyroot/src/rtree/leaf.rs b/oxyroot/src/rtree/leaf.rs
index 8446c5b..94d99fb 100644
--- a/oxyroot/src/rtree/leaf.rs
+++ b/oxyroot/src/rtree/leaf.rs
@@ -48,6 +48,12 @@ impl Marshaler for Leaf {
 
 impl Object for Leaf {
     fn class(&self) -> &'_ str {
+        self.class_name()
+    }
+}
+
+impl Leaf {
+    pub(crate) fn class_name(&self) -> &'static str {
         match &self {
             Leaf::Base(_) => "TLeaf",
             Leaf::Element(_) => "TLeafElement",
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 1429660..806c9f1 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -5,7 +5,7 @@ use crate::riofs::file::RootFileStreamerInfoContext;
 use crate::rtree::branch::wbranch::WBranch;
 use crate::rtree::tree::base::Tree;
 use crate::rtree::tree::tio_features::TioFeatures;
-use crate::{rbase, rvers, Marshaler, Named, Object, RootFile};
+use crate::{rbase, rvers, Branch, Marshaler, Named, Object, RootFile};
 use log::trace;
 
 /// Write only Rust equivalent of [`TTree`](https://root.cern/doc/master/classTTree.html)
@@ -175,6 +175,16 @@ impl WriterTree {
             file.add_streamer_info(si.clone());
         }
 
+        for branch in self.tree.branches.iter().map(|b| b.branch()) {
+            if let Branch::Element(_) = branch {
+                file.add_stored_class("TBranchElement");
+            }
+            for leaf in branch.tbranch().leaves.iter() {
+                file.add_stored_class("TLeaf");
+                file.add_stored_class(leaf.class_name());
+            }
+        }
+
         // for sis in self.sinfos.take() {}
 
         Ok(())
-- 
2.43.0


From 2b9438e1a463156cbf0ffa2b2e59281128e91d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 06/42] fix: store the element size of string leaves

The leaf of a string column announced the size of the Rust String struct as the
size of its elements, instead of one byte.
---
 oxyroot/src/rtree/leaf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/leaf.rs b/oxyroot/src/rtree/leaf.rs
index 94d99fb..42fddf6 100644
--- a/oxyroot/src/rtree/leaf.rs
+++ b/oxyroot/src/rtree/leaf.rs
@@ -126,7 +126,8 @@ impl Leaf {
                 let tleaf = tleaf.with_etype(0);
                 Leaf::Element(LeafElement::new(tleaf))
             }
-            MarshallerKind::String => make_leaf(tleaf, "String"),
+            // the elements of a string are characters
+            MarshallerKind::String => make_leaf(tleaf.with_etype(1), "String"),
             MarshallerKind::Struct => {
                 unimplemented!("ty = {}", tys)
             }
-- 
2.43.0


From a165df91013f95ffa7020b84745dae962c4f6484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 07/42] fix: return an error when a read needs more bytes than
 the buffer has

---
 oxyroot/src/rbytes/error.rs   |  4 +++
 oxyroot/src/rbytes/rbuffer.rs | 57 +++++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/oxyroot/src/rbytes/error.rs b/oxyroot/src/rbytes/error.rs
index 8826e3b..f55e3ba 100644
--- a/oxyroot/src/rbytes/error.rs
+++ b/oxyroot/src/rbytes/error.rs
@@ -17,6 +17,10 @@ pub enum Error {
     },
 
     Misc(String),
+    NotEnoughBytes {
+        requested: usize,
+        remaining: usize,
+    },
     WrongClass {
         expected: String,
         found: String,
diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 955617e..1dfc1dc 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -1,6 +1,6 @@
 use crate::rbytes::consts::{kByteCountMask, kClassMask, kMapOffset, kNewClassTag, kNullTag};
 use crate::rbytes::rbuffer::RBufferRefsItem::Func;
-use crate::rbytes::Error::Misc;
+use crate::rbytes::Error::{Misc, NotEnoughBytes};
 use crate::rbytes::Result;
 use crate::rbytes::{Header, StreamerInfoContext, Unmarshaler, UnmarshalerInto};
 use crate::rtypes;
@@ -27,35 +27,42 @@ impl<'a> Rbuff<'a> {
     // }
 
     fn extract_const_n<const N: usize>(&mut self) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + N)];
-        self.c += N;
-        Ok(buf)
+        self.extract_n(N)
     }
 
     fn extract_as_array<const N: usize>(&mut self) -> Result<[u8; N]> {
-        let buf: [u8; N] = self.p[self.c..(self.c + N)].as_ref().try_into()?;
-        self.c += N;
+        let buf: [u8; N] = self.extract_n(N)?.try_into()?;
         Ok(buf)
     }
 
-    fn extract_n(&mut self, n: usize) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + n)];
-        self.c += n;
-        Ok(buf)
+    fn extract_n(&mut self, n: usize) -> Result<&'a [u8]> {
+        let end = self.c.checked_add(n);
+        match end.and_then(|end| self.p.get(self.c..end)) {
+            Some(buf) => {
+                self.c += n;
+                Ok(buf)
+            }
+            None => Err(NotEnoughBytes {
+                requested: n,
+                remaining: self.p.len().saturating_sub(self.c),
+            }),
+        }
     }
 
+    /// Bytes up to the first one (among the next `n`) for which `pred` is true, which is consumed too.
     fn extract_until<F>(&mut self, n: usize, pred: F) -> Result<&'a [u8]>
     where
         F: FnMut(&u8) -> bool,
     {
-        let m = min(self.c + n, self.p.len());
-        let buf = &self.p[self.c..m];
-        let mut iter = buf.split(pred);
-        if let Some(buf) = iter.next() {
-            self.c += buf.len() + 1;
-            return Ok(buf);
+        let remaining = self.p.get(self.c..).unwrap_or_default();
+        let m = min(n, remaining.len());
+        match remaining[..m].iter().position(pred) {
+            Some(len) => {
+                self.c += len + 1;
+                Ok(&remaining[..len])
+            }
+            None => self.extract_n(n),
         }
-        Ok(buf)
     }
 
     // pub fn visible_buffer(&self) -> &'_ [u8] {
@@ -69,9 +76,10 @@ impl<'a> Read for Rbuff<'a> {
             return Ok(0);
         }
 
-        buf.copy_from_slice(&self.p[self.c..self.c + buf.len()]);
-        self.c += buf.len();
-        Ok(buf.len())
+        let n = min(buf.len(), self.p.len() - self.c);
+        buf[..n].copy_from_slice(&self.p[self.c..self.c + n]);
+        self.c += n;
+        Ok(n)
 
         // fn copy_slice(dst: &mut [u8], src: &[u8]) -> usize {
         //     let mut c = 0;
@@ -140,13 +148,16 @@ impl<'a> RBuffer<'a> {
     }
 
     pub fn skip(&mut self, s: i64) -> Result<()> {
-        self.set_pos(self.pos() + s);
+        let pos = self.pos() + s;
+        if pos < self.offset as i64 {
+            return Err(Misc(format!("can't move to {pos}, before the beginning")));
+        }
+        self.set_pos(pos);
         Ok(())
     }
 
     pub fn rewind(&mut self, s: i64) -> Result<()> {
-        self.set_pos(self.pos() - s);
-        Ok(())
+        self.skip(-s)
     }
 
     /// read u8 from inner buffer
-- 
2.43.0


From 28fd3c0eb5002598f067d0945604b3782136375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 08/42] fix: refuse containers whose announced size cannot fit
 in the buffer

---
 oxyroot/src/rbytes/mod.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 4eba0b7..70bbf22 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -293,15 +293,28 @@ impl Marshaler for String {
     }
 }
 
+/// Number of elements of a container. Every element takes at least one byte, so that a size which is
+/// negative or larger than the number of bytes left can't be right.
+fn read_container_size(r: &mut RBuffer) -> Result<usize> {
+    let size = r.read_i32()?;
+    let remaining = r.len().max(0) as usize;
+    match usize::try_from(size) {
+        Ok(size) if size <= remaining => Ok(size),
+        _ => Err(Error::Misc(format!(
+            "container of {size} elements in {remaining} bytes"
+        ))),
+    }
+}
+
 impl<T> Unmarshaler for Vec<T>
 where
     T: UnmarshalerInto<Item = T>,
 {
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
-        let size = r.read_i32()?;
+        let size = read_container_size(r)?;
 
-        self.reserve(size as usize);
+        self.reserve(size);
         r.set_skip_header(None);
 
         for _ in 0..size {
@@ -366,8 +379,8 @@ where
 {
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
-        let size = r.read_i32()?;
-        self.reserve(size as usize);
+        let size = read_container_size(r)?;
+        self.reserve(size);
         r.set_skip_header(None);
         for _ in 0..size {
             let a = r.read_object_into::<T>()?;
@@ -395,9 +408,9 @@ where
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
 
-        let size = r.read_i32()?;
-        let mut keys = Vec::with_capacity(size as usize);
-        let mut values = Vec::with_capacity(size as usize);
+        let size = read_container_size(r)?;
+        let mut keys = Vec::with_capacity(size);
+        let mut values = Vec::with_capacity(size);
 
         r.set_skip_header(Some(6));
 
@@ -415,7 +428,7 @@ where
             values.push(v);
         }
 
-        self.reserve(size as usize);
+        self.reserve(size);
 
         keys.into_iter().zip(values).for_each(|(k, v)| {
             self.insert(k, v);
-- 
2.43.0


From 7e17f2353a3f6685a2077ced0c83e1fc13653649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 09/42] fix: return an error for a key that is not a tree's and
 accept a cycle in its name

---
 oxyroot/src/riofs/dir.rs   | 20 ++++++++------------
 oxyroot/src/riofs/file.rs  |  5 ++++-
 oxyroot/src/riofs/utils.rs | 12 ++++++++----
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 870533e..c00cb2a 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -4,7 +4,7 @@ use crate::rbase::named::Named as ObjNamed;
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
 use crate::riofs::key::Key;
-use crate::riofs::utils::{datetime_to_u32, decode_name_cycle};
+use crate::riofs::utils::{datetime_to_u32, decode_name_cycle, ANY_CYCLE};
 use crate::root::traits::Named;
 use crate::root::traits::Object;
 
@@ -299,23 +299,19 @@ impl TDirectoryFile {
     ) -> Result<Box<dyn FactoryItemRead>> {
         trace!("get_object, namecycle = {}", namecycle);
 
-        let (name, cycle) = decode_name_cycle(namecycle)?;
+        // a name may contain the cycle separator
+        let (name, cycle) = if self.keys.iter().any(|k| k.name() == namecycle) {
+            (namecycle, ANY_CYCLE)
+        } else {
+            decode_name_cycle(namecycle)?
+        };
         trace!("get_object, name = {}", name);
         trace!("self.keys.len = {}", self.keys.len());
 
         let mut keys = self
             .keys
             .iter()
-            .filter(|k| {
-                if k.name() == name {
-                    if cycle != 9999 {
-                        todo!();
-                    }
-                    true
-                } else {
-                    false
-                }
-            })
+            .filter(|k| k.name() == name && (cycle == ANY_CYCLE || k.cycle() == cycle as i32))
             .collect::<Vec<_>>();
 
         let key = match keys.len() {
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index a378e09..a6f8468 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -915,7 +915,10 @@ impl RootFile {
 
     pub fn get_tree(&mut self, name: &str) -> Result<ReaderTree> {
         let objet = self.get_object(name)?;
-        let mut objet: ReaderTree = *objet.downcast::<ReaderTree>().expect("");
+        let mut objet: ReaderTree = match objet.downcast::<ReaderTree>() {
+            Ok(objet) => *objet,
+            Err(_) => return Err(Error::ObjectNotInDirectory(name.to_string())),
+        };
 
         objet.set_reader(Some(self.reader()?.clone()));
         objet.set_streamer_info(self.sinfos.clone());
diff --git a/oxyroot/src/riofs/utils.rs b/oxyroot/src/riofs/utils.rs
index 3c8c819..e57b282 100644
--- a/oxyroot/src/riofs/utils.rs
+++ b/oxyroot/src/riofs/utils.rs
@@ -1,14 +1,18 @@
 use crate::riofs::Error;
 use chrono::{DateTime, Datelike, Timelike, Utc};
 
+/// Asks for the highest cycle of a name
+pub(crate) const ANY_CYCLE: u16 = 9999;
+
 pub fn decode_name_cycle(namecycle: &str) -> Result<(&str, u16), Error> {
     let toks: Vec<_> = namecycle.split(';').collect();
 
     match toks.len() {
-        1 => Ok((toks[0], 9999)),
-        2 => {
-            unimplemented!()
-        }
+        1 => Ok((toks[0], ANY_CYCLE)),
+        2 => match toks[1].parse() {
+            Ok(cycle) => Ok((toks[0], cycle)),
+            Err(_) => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
+        },
 
         _ => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
     }
-- 
2.43.0


From 387ad09bdf8a6cac6f7bbd170238dd14853c1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 10/42] fix: refuse unusable files and tree names before
 anything is consumed or written

---
 oxyroot/src/riofs/file.rs        | 15 ++++++++++++---
 oxyroot/src/rtree/tree/writer.rs |  3 +++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index a6f8468..610824c 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -288,14 +288,21 @@ impl RootFile {
         Ok(f)
     }
 
+    /// Error if no object can be written to the file under this name
+    pub(crate) fn ensure_can_put(&mut self, name: &str) -> Result<()> {
+        self.writer()?;
+        if name.contains('/') {
+            return Err(Error::NameContainsSlash(name.to_string()));
+        }
+        Ok(())
+    }
+
     pub(crate) fn put<T>(&mut self, name: &str, obj: &T) -> Result<()>
     where
         T: FactoryItemWrite,
     {
         trace!(";TDirectoryFile.put.name:{:?}", name);
-        if name.contains('/') {
-            return Err(Error::NameContainsSlash(name.to_string()));
-        }
+        self.ensure_can_put(name)?;
 
         let name = if name.is_empty() { obj.name() } else { name };
         let title = obj.title();
@@ -366,6 +373,7 @@ impl RootFile {
     }
 
     pub fn close(&mut self) -> Result<()> {
+        self.writer()?;
         let mut dir = self.dir().clone();
         dir.close(self)?;
         let _ = std::mem::replace(&mut self.dir, dir);
@@ -373,6 +381,7 @@ impl RootFile {
         self.write_free_segments()?;
         self.write_header()?;
         self.writer()?.flush()?;
+        self.inner = RootFileInner::None;
 
         Ok(())
     }
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 806c9f1..49bc127 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -113,6 +113,9 @@ impl WriterTree {
     /// - Before writing branches with the argument [StateCallBack::Before](enum.StateCallBack.html)
     /// - Before writing each branch with the argument [StateCallBack::Branch](enum.StateCallBack.html)
     pub fn write(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
+        // nothing is consumed or written if the tree can't be stored in the end
+        file.ensure_can_put(self.tree.named.name())?;
+
         let mut branchs_done = self
             .tree
             .branches
-- 
2.43.0


From 71b3a0c7d320702734da5ad66657508777c7ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 11/42] fix: return an error for sizes that exceed the file
 instead of allocating them

---
 oxyroot/src/riofs/file.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 610824c..ffef15c 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -85,12 +85,18 @@ impl RootFileReader {
     }
 
     pub(crate) fn read_at(&mut self, start: u64, len: u64) -> Result<Vec<u8>> {
-        self.reader
-            .as_mut()
-            .expect("ERROR")
-            .seek(SeekFrom::Start(start))?;
+        let reader = self.reader.as_mut().expect("ERROR");
+        // sizes come from the file and may be anything, don't make room for more than there is
+        let file_len = reader.get_ref().metadata()?.len();
+        if start.checked_add(len).map_or(true, |end| end > file_len) {
+            return Err(Error::CantReadAmountOfBytesFromFile {
+                requested: len as usize,
+                read: file_len.saturating_sub(start) as usize,
+            });
+        }
+        reader.seek(SeekFrom::Start(start))?;
         let mut buf = vec![0; len as usize];
-        self.reader.as_mut().expect("ERROR").read_exact(&mut buf)?;
+        reader.read_exact(&mut buf)?;
         Ok(buf)
     }
 }
-- 
2.43.0


From d26cdda38a800a927b7031f7b61996d44353c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 12/42] fix: decompress records made of several blocks

---
 oxyroot/src/rcompress.rs | 49 +++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 44a6ab9..137fbe1 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -54,23 +54,27 @@ fn kind_of(buf: &[u8]) -> Kind {
     }
 }
 
+fn invalid_data(msg: &str) -> Error {
+    Error::Io(std::io::Error::new(std::io::ErrorKind::InvalidData, msg))
+}
+
 pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
-    let _beg = 0;
     let mut end = 0;
-    let buflen = dst.len() as i64;
     let mut hdr = [0_u8; HEADER_SIZE];
 
-    // let mut v =
-
-    while end < buflen {
-        // let src = src.as_mut();
+    // records larger than K_MAX_COMPRESSED_BLOCK_SIZE are made of several blocks
+    while end < dst.len() {
         src.read_exact(&mut hdr)?;
-        // let _ = src.read_exact(dst)?;
-        // let _ = src.read_exact(dst)?;
 
-        let _srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
-        let tgtsz = hdr[6] as i64 | (hdr[7] as i64) << 8 | (hdr[8] as i64) << 16;
-        // let tgtsz = hdr[6]) | int64(hdr[7])<<8 | int64(hdr[8])<<16
+        let srcsz = hdr[3] as usize | (hdr[4] as usize) << 8 | (hdr[5] as usize) << 16;
+        let tgtsz = hdr[6] as usize | (hdr[7] as usize) << 8 | (hdr[8] as usize) << 16;
+        if tgtsz == 0 || tgtsz > dst.len() - end || srcsz > src.len() {
+            return Err(invalid_data("sizes of a compressed block do not fit"));
+        }
+
+        let (block, rest) = src.split_at(srcsz);
+        let out = &mut dst[end..end + tgtsz];
+        src = rest;
         end += tgtsz;
 
         match kind_of(hdr.as_ref()) {
@@ -82,28 +86,31 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
             }
 
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
-                return Ok(0);
+                let mut d = ZlibDecoder::new(block);
+                d.read_exact(out)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
+                let mut d = XzDecoder::new(block);
+                d.read_exact(out)?;
             }
             Kind::OldCompression => {
                 unimplemented!()
             }
             Kind::LZ4 => {
-                LZ4_decompress_to_buffer(&src[8..], Some(dst.len() as i32), dst)?;
-                return Ok(0);
-                // let mut d = LZ4Decoder::new(src)?;
-                // d.read_exact(dst.as_mut())?;
+                // the block starts with a checksum
+                let block = block
+                    .get(8..)
+                    .ok_or_else(|| invalid_data("LZ4 block without checksum"))?;
+                let n = LZ4_decompress_to_buffer(block, Some(tgtsz as i32), out)?;
+                if n != tgtsz {
+                    return Err(invalid_data("LZ4 block shorter than announced"));
+                }
             }
             Kind::Zstd => {
                 unimplemented!()
             }
             Kind::UndefinedCompression => {
-                unimplemented!()
+                return Err(invalid_data("unknown compression algorithm"));
             }
         }
     }
-- 
2.43.0


From 141e683dd094141590ff68f6cb4551b80e99600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 13/42] fix: forget a map's headers once the map has been read

---
 oxyroot/src/rbytes/mod.rs | 56 ++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 70bbf22..039b1b4 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -400,39 +400,47 @@ where
     }
 }
 
-impl<K, V> Unmarshaler for HashMap<K, V>
+/// Keys, then values. Only the first of each may have a header.
+fn read_keys_and_values<K, V>(r: &mut RBuffer) -> Result<Vec<(K, V)>>
 where
     V: UnmarshalerInto<Item = V>,
-    K: UnmarshalerInto<Item = K> + Eq + Hash,
+    K: UnmarshalerInto<Item = K>,
 {
-    fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
-        r.do_skip_header()?;
+    let size = read_container_size(r)?;
+    let mut keys = Vec::with_capacity(size);
+    let mut values = Vec::with_capacity(size);
 
-        let size = read_container_size(r)?;
-        let mut keys = Vec::with_capacity(size);
-        let mut values = Vec::with_capacity(size);
+    r.set_skip_header(Some(6));
 
-        r.set_skip_header(Some(6));
+    for _i in 0..size {
+        let k = r.read_object_into::<K>()?;
+        r.set_skip_header(Some(0));
+        keys.push(k);
+    }
 
-        for _i in 0..size {
-            // r.set_skip_header(Some(0));
-            let k = r.read_object_into::<K>()?;
-            r.set_skip_header(Some(0));
-            keys.push(k);
-        }
+    r.set_skip_header(Some(6));
+    for _i in 0..size {
+        let v = r.read_object_into::<V>()?;
+        r.set_skip_header(Some(0));
+        values.push(v);
+    }
 
-        r.set_skip_header(Some(6));
-        for _i in 0..size {
-            let v = r.read_object_into::<V>()?;
-            r.set_skip_header(Some(0));
-            values.push(v);
-        }
+    Ok(keys.into_iter().zip(values).collect())
+}
 
-        self.reserve(size);
+impl<K, V> Unmarshaler for HashMap<K, V>
+where
+    V: UnmarshalerInto<Item = V>,
+    K: UnmarshalerInto<Item = K> + Eq + Hash,
+{
+    fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
+        r.do_skip_header()?;
 
-        keys.into_iter().zip(values).for_each(|(k, v)| {
-            self.insert(k, v);
-        });
+        let items = read_keys_and_values(r);
+        // what follows the map has no header to skip
+        r.set_skip_header(None);
+
+        self.extend(items?);
 
         Ok(())
     }
-- 
2.43.0


From 990a58c80f2ff68de0187e62f9200d0206efff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 14/42] fix: return an error for sizes, keys and objects that
 cannot be right

---
 oxyroot/src/rbytes/rbuffer.rs | 18 +++++-------------
 oxyroot/src/rcompress.rs      |  4 ++--
 oxyroot/src/riofs/dir.rs      |  4 ++++
 oxyroot/src/riofs/file.rs     | 11 +++++++----
 oxyroot/src/riofs/key.rs      | 11 ++++++++++-
 5 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 1dfc1dc..a5e26c2 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -382,9 +382,8 @@ impl<'a> RBuffer<'a> {
                     start + kMapOffset
                 );
                 self.refs.insert(start + kMapOffset, Func(*fct));
-                // todo!()
             } else {
-                todo!()
+                return Err(Misc(format!("object of class {cname} without byte count")));
             }
 
             let mut obj: Box<dyn rtypes::FactoryItemRead> = fct();
@@ -399,14 +398,6 @@ impl<'a> RBuffer<'a> {
             // obj.unmarshal(self);
             self.read_boxed_object(&mut obj)?;
 
-            if vers > 0 {
-
-                // self.refs.insert(beg + kMapOffset, Obj(&obj));
-                // todo!()
-            } else {
-                todo!()
-            }
-
             Ok(Some(obj))
         } else {
             // trace!(";rbuffer.ReadObjectAny.default.{}", tag64);
@@ -419,9 +410,10 @@ impl<'a> RBuffer<'a> {
 
             // trace!(";rbuffer.ReadObjectAny.default.{}.uref: {}", tag64, uref);
 
-            let fct = self.refs.get(&uref);
-            assert!(fct.is_some());
-            let fct = fct.unwrap();
+            let fct = self
+                .refs
+                .get(&uref)
+                .ok_or_else(|| Misc(format!("no class was read at {uref}")))?;
 
             // let fct = if let Func(fct) = fct {
             //     fct
diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 137fbe1..af90099 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -94,7 +94,7 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
                 d.read_exact(out)?;
             }
             Kind::OldCompression => {
-                unimplemented!()
+                return Err(invalid_data("old ROOT compression is not supported"));
             }
             Kind::LZ4 => {
                 // the block starts with a checksum
@@ -107,7 +107,7 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
                 }
             }
             Kind::Zstd => {
-                unimplemented!()
+                return Err(invalid_data("ZSTD compression is not supported"));
             }
             Kind::UndefinedCompression => {
                 return Err(invalid_data("unknown compression algorithm"));
diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index c00cb2a..4aad468 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -103,6 +103,7 @@ impl TDirectoryFile {
 
         trace!("read_keys: hdr = {:?}", hdr);
 
+        hdr.ensure_valid()?;
         let data = file.read_at(
             self.seek_keys as u64 + hdr.key_len() as u64,
             hdr.obj_len() as u64,
@@ -130,6 +131,9 @@ impl TDirectoryFile {
 
     pub fn read_dir_info(file: &mut RootFile) -> Result<TDirectoryFile> {
         let nbytesname = file.n_bytes_name() as i64;
+        if nbytesname < 0 || file.begin() < 0 || file.end() < 0 {
+            return Err(crate::riofs::error::Error::FileHasAnIncorrectHeaderLength);
+        }
         let nbytes = nbytesname as u64 + TDirectoryFile::record_size(file.version()) as u64;
         let begin = file.begin() as u64;
 
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index ffef15c..27ebbdc 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -623,18 +623,21 @@ impl RootFile {
         let si_key = RBuffer::new(&buf, 0).read_object_into::<Key>()?;
         let mut reader = self.reader()?.clone();
 
-        let ogj = si_key.object(&mut reader, None)?.unwrap();
+        let not_a_list = || Error::ObjectNotInDirectory("StreamerInfo".to_string());
+        let ogj = si_key.object(&mut reader, None)?.ok_or_else(not_a_list)?;
 
-        let mut objs: Box<ReaderList> = ogj.downcast::<ReaderList>().unwrap();
+        let mut objs: Box<ReaderList> = ogj.downcast::<ReaderList>().map_err(|_| not_a_list())?;
 
         for i in (0..objs.len()).rev() {
             let obj = objs.remove(i);
 
             if obj.class() == "TStreamerInfo" {
-                let obj: Box<StreamerInfo> = obj.downcast::<StreamerInfo>().unwrap();
+                let obj: Box<StreamerInfo> =
+                    obj.downcast::<StreamerInfo>().map_err(|_| not_a_list())?;
                 self.sinfos.push(*obj);
             } else {
-                let mut list: Box<ReaderList> = obj.downcast::<ReaderList>().unwrap();
+                let mut list: Box<ReaderList> =
+                    obj.downcast::<ReaderList>().map_err(|_| not_a_list())?;
                 for j in (0..list.len()).rev() {
                     let _jobj = list.remove(j);
                     // let obj: Box<StreamerInfo> = jobj.downcast::<StreamerInfo>().unwrap();
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 3e12c81..e9120eb 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -5,7 +5,7 @@ use crate::riofs::consts::kStartBigFile;
 use crate::riofs::dir::TDirectoryFile;
 use crate::riofs::file::{RootFileReader, RootFileWriter};
 use crate::riofs::utils::datetime_to_u32;
-use crate::riofs::{utils, Result};
+use crate::riofs::{utils, Error, Result};
 use crate::root::traits::{datime_sizeof, tstring_sizeof, Named};
 use crate::root::{objects, traits};
 use crate::rtypes::factory::FactoryItemWrite;
@@ -397,7 +397,16 @@ impl Key {
         self.load(file)
     }
 
+    /// Error if the sizes and positions read for this key can't be right
+    pub(crate) fn ensure_valid(&self) -> Result<()> {
+        if self.obj_len < 0 || self.key_len < 0 || self.n_bytes < self.key_len || self.seek_key < 0 {
+            return Err(Error::CantLoadKeyPayload(self.name.clone()));
+        }
+        Ok(())
+    }
+
     fn load(&self, file: &mut RootFileReader) -> Result<Vec<u8>> {
+        self.ensure_valid()?;
         if self.is_compressed() {
             let mut buf = vec![0; self.obj_len as usize];
             let start = self.seek_key as u64 + self.key_len as u64;
-- 
2.43.0


From 9d5d0052d33931435b406a38ef5073c373e9ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 15/42] fix: do not panic on a path that is not UTF-8

---
 oxyroot/src/riofs/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 27ebbdc..5873ea4 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -65,8 +65,7 @@ pub(crate) struct RootFileReader {
 
 impl Display for RootFileReader {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        f.write_str(self.path.to_str().unwrap())?;
-        Ok(())
+        write!(f, "{}", self.path.display())
     }
 }
 
@@ -211,7 +210,7 @@ impl RootFile {
     where
         P: AsRef<Path>,
     {
-        let s = path.as_ref().to_str().unwrap().to_string();
+        let s = path.as_ref().to_string_lossy().to_string();
         let writer = RootFileWriter::new(path)?;
 
         let inner = RootFileInner::Writer(writer);
-- 
2.43.0


From 3529bc28ba5bded3f48c045f789415efcdae8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 16/42] fix: read the basket embedded in a branch after the
 ones on disk, entry by entry

---
 oxyroot/src/rtree/basket.rs                 | 28 ++++++++
 oxyroot/src/rtree/branch/tbranch.rs         | 31 ++-------
 oxyroot/src/rtree/branch/tbranch_element.rs | 73 +++------------------
 3 files changed, 44 insertions(+), 88 deletions(-)

diff --git a/oxyroot/src/rtree/basket.rs b/oxyroot/src/rtree/basket.rs
index 08b49c2..3a649dc 100644
--- a/oxyroot/src/rtree/basket.rs
+++ b/oxyroot/src/rtree/basket.rs
@@ -2,11 +2,13 @@ use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{ensure_maximum_supported_version, Error, Unmarshaler};
 use crate::riofs::file::RootFileReader;
 use crate::root::traits::Named;
+use crate::rtree::branch::BranchChunks;
 use crate::rtree::tree::tio_features::TioFeatures;
 use crate::rtree::tree::WriterTree;
 use crate::rtypes::FactoryItemRead;
 use crate::{factory_fn_register_impl, rvers, Branch, Object, RootFile};
 use log::trace;
+use std::iter::once;
 
 #[derive(Debug)]
 pub struct Basket {
@@ -122,6 +124,32 @@ impl Basket {
         BasketData::TrustNEntries((self.nev_buf, ret))
     }
 
+    /// Bytes of all the entries of an embedded basket, one after the other.
+    pub(crate) fn embedded_entries_contiguous(&self) -> BranchChunks {
+        let key_len = self.key.key_len() as usize;
+        let buf = self.key.buffer().get(key_len..).unwrap_or_default();
+        let chunk_size = buf.len() as i32 / self.nev_buf.max(1);
+        BranchChunks::RegularSized((self.nev_buf, chunk_size, buf.to_vec()))
+    }
+
+    /// Bytes of every entry of an embedded basket.
+    pub(crate) fn embedded_entries(&self, header_bytes: i32) -> BranchChunks {
+        if self.offsets.is_empty() {
+            return self.embedded_entries_contiguous();
+        }
+
+        let buf = self.key.buffer();
+        let n = buf.len() as i32;
+        let ends = self.offsets.iter().skip(1).chain(once(&n));
+        let entries: Vec<_> = self
+            .offsets
+            .iter()
+            .zip(ends)
+            .map(|(start, stop)| buf[*start as usize..*stop as usize].to_vec())
+            .collect();
+        BranchChunks::IrregularSized((self.nev_buf, entries, header_bytes))
+    }
+
     ///         If this ``TBasket`` is embedded within its ``TBranch`` (i.e. must be
     //         deserialized as part of the ``TBranch``), then ``is_embedded`` is True.
     //
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 29f69c5..7f7abe9 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -178,26 +178,12 @@ impl TBranch {
             self.leaves.len()
         );
 
-        let embedded_basket = if !self.baskets.is_empty() {
-            assert_eq!(self.baskets.len(), 1);
-
-            Some(self.baskets.iter().map(|b| {
-                let key_lenght = b.key().key_len() as usize;
-                let buf = b
-                    .key()
-                    .buffer()
-                    .iter()
-                    .skip(key_lenght)
-                    .cloned()
-                    .collect::<Vec<_>>();
-                let n = b.nev_buf();
-                let chunk_size = 1;
-
-                BranchChunks::RegularSized((n, chunk_size, buf))
-            }))
-        } else {
-            None
-        };
+        // the basket kept in the record of the tree holds the last entries
+        let embedded_baskets = self.baskets.iter().map(|b| match self.leaves.first() {
+            // strings carry their own length
+            Some(Leaf::C(_)) | None => b.embedded_entries_contiguous(),
+            Some(_) => b.embedded_entries(0),
+        });
 
         let ret = izip!(&self.basket_seek, &self.basket_bytes, size_leaves, leaves)
             .filter(|(_start, len, _chunk_size, _leave)| **len > 0)
@@ -267,10 +253,7 @@ impl TBranch {
                     },
                 }
             });
-        match embedded_basket {
-            None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
-        }
+        Box::new(ret.chain(embedded_baskets))
     }
 
     pub fn entries(&self) -> i64 {
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index be4fe6f..9df814f 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -15,7 +15,6 @@ use itertools::izip;
 use lazy_static::lazy_static;
 use log::trace;
 use regex::Regex;
-use std::iter::once;
 
 #[derive(Default, Debug)]
 pub struct TBranchElement {
@@ -253,70 +252,19 @@ impl TBranchElement {
             size_leaves
         );
 
-        let embedded_basket = if !self.branch.baskets.is_empty() {
-            assert_eq!(self.branch.baskets.len(), 1);
-
-            let element = self.streamer();
-
+        // the basket kept in the record of the tree holds the last entries
+        let embedded_baskets = self.branch.baskets.iter().map(|b| {
             let header_bytes = streamer_type::header_bytes_from_type(
                 self.streamer_type(),
-                element,
+                self.streamer(),
                 self.class_name(),
             );
+            trace!(
+                ";TBranchElement.get_baskets_buffer.embedded_basket.header_bytes:{header_bytes}"
+            );
 
-            trace!("header_bytes = {}", header_bytes);
-
-            Some(self.branch.baskets.iter().map(move |b| {
-                let key_lenght = b.key().key_len();
-                let buf = b.key().buffer();
-
-                let n = buf.len() as i32;
-
-                let offsets = b.offsets().iter().chain(once(&n));
-                // let offsets = std::iter::once(&key_lenght).chain(offsets);
-
-                // let byte_offsets = offsets.iter().zip(offsets.iter().skip(1));
-                let byte_offsets = offsets.clone().zip(offsets.skip(1));
-                // .collect();
-                // trace!("byte_offsets = {:?}", byte_offsets);
-                // trace!("buf = {:?}", buf);
-
-                trace!(
-                    ";TBranchElement.get_baskets_buffer.embedded_basket.byte_offsets: {:?}",
-                    byte_offsets.clone().collect::<Vec<_>>()
-                );
-
-                let data: Vec<_> = byte_offsets
-                    .map(|(start, stop)| {
-                        let b = &buf[*start as usize..*stop as usize];
-                        b.to_vec()
-                    })
-                    .collect();
-
-                trace!(
-                    ";TBranchElement.get_baskets_buffer.embedded_basket.buf.len: {}",
-                    buf.len()
-                );
-                trace!(
-                    ";TBranchElement.get_baskets_buffer.embedded_basket.data.len: {}",
-                    data.len()
-                );
-
-                trace!(
-                    ";TBranchElement.get_baskets_buffer.embedded_basket.data.value: {:?}",
-                    data
-                );
-
-                trace!(
-                    ";TBranchElement.get_baskets_buffer.embedded_basket.buf.key_lenght: {}",
-                    key_lenght
-                );
-
-                BranchChunks::IrregularSized((0, data, header_bytes))
-            }))
-        } else {
-            None
-        };
+            b.embedded_entries(header_bytes)
+        });
 
         trace!(
             ";TBranchElement.get_baskets_buffer.before_zip.basket_seek:{:?}",
@@ -435,10 +383,7 @@ impl TBranchElement {
                 },
             }
         });
-        match embedded_basket {
-            None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
-        }
+        Box::new(ret.chain(embedded_baskets))
     }
 }
 
-- 
2.43.0


From cffe50c5749266fd3529359a84fe7779fe20b8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 17/42] fix: name the type of Long64_t, ULong64_t and bool
 members

---
 oxyroot/src/rtree/streamer_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 05f793c..6cf0b55 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -179,8 +179,10 @@ pub(crate) fn _from_leaftype_to_str(leaftype: i32) -> Option<&'static str> {
             EReadWrite::Int => Some("int32_t"),
             EReadWrite::UInt | EReadWrite::Bits | EReadWrite::Counter => Some("uint32_t"),
 
-            EReadWrite::Long => Some("int64_t"),
-            EReadWrite::ULong => Some("uint64_t"),
+            EReadWrite::Long | EReadWrite::Long64 => Some("int64_t"),
+            EReadWrite::ULong | EReadWrite::ULong64 => Some("uint64_t"),
+
+            EReadWrite::Bool => Some("bool"),
 
             EReadWrite::Float => Some("float"),
             EReadWrite::Double => Some("double"),
-- 
2.43.0


From 2b41427240a42e203acd15cda4d626eef4385404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 18/42] fix: map char and Long64_t element types to fixed-width
 names

---
 oxyroot/src/rtree/streamer_type.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 6cf0b55..125ab07 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -275,6 +275,18 @@ pub(crate) fn clean_type_name<T: AsRef<str>>(ty: T) -> String {
     let ret = ret.replace("unsigned long", "uint64_t");
     let ret = ret.replace("long", "int64_t");
 
+    // ROOT's own names and the character types used as small integers (but not `char*`)
+    lazy_static! {
+        static ref RE_ULONG64: Regex = Regex::new(r"\bULong64_t\b").unwrap();
+        static ref RE_LONG64: Regex = Regex::new(r"\bLong64_t\b").unwrap();
+        static ref RE_UCHAR: Regex = Regex::new(r"\bunsigned char\b([^*]|$)").unwrap();
+        static ref RE_CHAR: Regex = Regex::new(r"\b(?:signed )?char\b([^*]|$)").unwrap();
+    }
+    let ret = RE_ULONG64.replace_all(&ret, "uint64_t");
+    let ret = RE_LONG64.replace_all(&ret, "int64_t");
+    let ret = RE_UCHAR.replace_all(&ret, "uint8_t${1}");
+    let ret = RE_CHAR.replace_all(&ret, "int8_t${1}");
+
     ret.replace(' ', "")
 }
 
-- 
2.43.0


From fca62b957eeb4ff4d2ad9b02218831202c33ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 19/42] fix: split variable-length arrays by their offsets in
 every buffer

---
 oxyroot/src/rtree/branch/tbranch.rs | 37 ++++++++---------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 7f7abe9..86d6415 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -223,33 +223,16 @@ impl TBranch {
                             panic!("I dont want to be here (Element should be in TBranchElement)");
                         }
                         _ => {
-                            let n_elements_in_buffer = buf.len() / chunk_size as usize;
-                            // trial and error...
-                            if n_elements_in_buffer == self.entries as usize {
-                                // assert_eq!(n, self.entries as usize);
-                                trace!("send ({n},{chunk_size},{:?})", buf);
-                                BranchChunks::RegularSized((
-                                    n_elements_in_buffer as i32,
-                                    chunk_size,
-                                    buf,
-                                ))
-                            } else {
-                                let byte_offsets =
-                                    byte_offsets.iter().zip(byte_offsets.iter().skip(1));
-                                let data: Vec<_> = byte_offsets
-                                    .map(|(start, stop)| {
-                                        let b = &buf[*start as usize..*stop as usize];
-                                        b.to_vec()
-                                    })
-                                    .collect();
-                                BranchChunks::IrregularSized((n, data, 0))
-                            }
-                        } // _ => {
-                          //     trace!("leave = {:?}", leave);
-                          //     let n = buf.len() / chunk_size as usize;
-                          //     trace!("send ({n},{chunk_size},{:?})", buf);
-                          //     BranchChunks::RegularSized((n as i32, chunk_size, buf))
-                          // }
+                            let byte_offsets =
+                                byte_offsets.iter().zip(byte_offsets.iter().skip(1));
+                            let data: Vec<_> = byte_offsets
+                                .map(|(start, stop)| {
+                                    let b = &buf[*start as usize..*stop as usize];
+                                    b.to_vec()
+                                })
+                                .collect();
+                            BranchChunks::IrregularSized((n, data, 0))
+                        }
                     },
                 }
             });
-- 
2.43.0


From dc3dc11e43c149d0949ce9234f3333f0ef8503ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 20/42] fix: take bytes for a header only if the byte count in
 it fits

---
 oxyroot/src/rbytes/rbuffer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index a5e26c2..8a0cb47 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -519,12 +519,14 @@ impl<'a> RBuffer<'a> {
                 return Ok(());
             }
 
-            if self.len() > 1 && s > 1 {
-                let mut hdr = [0; 1];
+            if s > 1 {
+                // the header starts with the number of bytes which follow
+                let mut hdr = [0; 4];
                 self.read_array_u8_into(&mut hdr)?;
-                self.rewind(1)?;
+                self.rewind(4)?;
 
-                if hdr != [64] {
+                let count = i64::from(u32::from_be_bytes(hdr));
+                if hdr[0] != 64 || count - 0x4000_0000 + 4 > self.len() {
                     return Ok(());
                 }
             }
-- 
2.43.0


From 355bab20d496d7f5446c68c237b9b9d15000a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 21/42] fix: check maps against the type of the column, and
 sets under every name of their elements

---
 oxyroot/src/rbytes/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 039b1b4..eceaae1 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -395,7 +395,11 @@ where
     {
         match T::classe_name() {
             None => None,
-            Some(tys) => vec![format!("set<{}>", tys.first().unwrap())].into(),
+            Some(tys) => tys
+                .iter()
+                .map(|t| format!("set<{}>", t))
+                .collect::<Vec<String>>()
+                .into(),
         }
     }
 }
@@ -444,6 +448,19 @@ where
 
         Ok(())
     }
+
+    fn class_name() -> Option<Vec<String>>
+    where
+        Self: Sized,
+    {
+        let keys = K::classe_name()?;
+        let values = V::classe_name()?;
+        let names = keys
+            .iter()
+            .flat_map(|k| values.iter().map(move |v| format!("map<{k},{v}>")))
+            .collect();
+        Some(names)
+    }
 }
 
 impl<T, const N: usize> Unmarshaler for [T; N]
-- 
2.43.0


From e9aa09d35d90fa897d38f347075a12699c60b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 22/42] fix: count every dimension of an array column

---
 oxyroot/src/rtree/branch/tbranch.rs         | 24 ++-------------------
 oxyroot/src/rtree/branch/tbranch_element.rs | 23 ++------------------
 oxyroot/src/rtree/streamer_type.rs          | 18 ++++++++++++++++
 3 files changed, 22 insertions(+), 43 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 86d6415..ab93e3a 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -8,12 +8,11 @@ use crate::rtree::basket::{Basket, BasketData};
 use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::BranchChunks;
 use crate::rtree::leaf::Leaf;
+use crate::rtree::streamer_type::array_len_from_title;
 use crate::rtree::tree::tio_features::TioFeatures;
 use crate::{factory_fn_register_impl, rbase, rvers, Branch, Marshaler, RBuffer, Unmarshaler};
 use itertools::izip;
-use lazy_static::lazy_static;
 use log::trace;
-use regex::Regex;
 
 pub(crate) const DEFAULT_BASKET_SIZE: i32 = 32 * 1024;
 // pub(crate) const DEFAULT_SPLIT_LEVEL: i32 = 99;
@@ -252,26 +251,7 @@ impl TBranch {
             let leave = self.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
 
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dim = array_len_from_title(leave.title());
 
             match leave.type_name() {
                 Some(s) => match dim {
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 9df814f..94227b1 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -9,7 +9,7 @@ use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::{BranchChunks, TBranch};
 use crate::rtree::leaf::Leaf;
 use crate::rtree::streamer_type;
-use crate::rtree::streamer_type::{_from_leaftype_to_str, clean_type_name};
+use crate::rtree::streamer_type::{_from_leaftype_to_str, array_len_from_title, clean_type_name};
 use crate::{factory_fn_register_impl, Marshaler, RBuffer, Unmarshaler};
 use itertools::izip;
 use lazy_static::lazy_static;
@@ -127,26 +127,7 @@ impl TBranchElement {
         } else if self.branch.leaves.len() == 1 {
             let leave = self.branch.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dim = array_len_from_title(leave.title());
 
             return match leave.type_name() {
                 Some(t) => t.into(),
diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 125ab07..4797702 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -140,6 +140,24 @@ pub(crate) fn header_bytes_from_type(
     todo!();
 }
 
+/// Number of elements given by the dimensions in the title of a leaf (`x[2][3]`):
+/// `None` without dimensions, 0 if one of them is the name of a counter.
+pub(crate) fn array_len_from_title(title: &str) -> Option<i32> {
+    lazy_static! {
+        static ref RE_TITLE_HAS_DIMS: Regex =
+            Regex::new(r"^[^\[\]]*((?:\[[^\[\]]+\])+)").unwrap();
+        static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([^\[\]]+)\]").unwrap();
+    }
+
+    let dims = RE_TITLE_HAS_DIMS.captures(title)?.get(1)?.as_str();
+    let len = RE_ITEM_DIM_PATTERN
+        .captures_iter(dims)
+        .map(|dim| dim[1].parse::<i32>().ok().filter(|dim| *dim > 0))
+        .try_fold(1_i32, |len, dim| len.checked_mul(dim?));
+
+    Some(len.unwrap_or(0))
+}
+
 pub(crate) fn _from_leaftype_to_str(leaftype: i32) -> Option<&'static str> {
     // trace!("leaftype = {}", leaftype);
 
-- 
2.43.0


From 8969c2cfc60e1dc2d317f606768efda6592907e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 23/42] fix: recognise the header of an object of 16 MB or more

---
 oxyroot/src/rbytes/rbuffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 8a0cb47..b4cada1 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -525,8 +525,8 @@ impl<'a> RBuffer<'a> {
                 self.read_array_u8_into(&mut hdr)?;
                 self.rewind(4)?;
 
-                let count = i64::from(u32::from_be_bytes(hdr));
-                if hdr[0] != 64 || count - 0x4000_0000 + 4 > self.len() {
+                let count = i64::from(u32::from_be_bytes(hdr)) - 0x4000_0000;
+                if !(0..0x4000_0000).contains(&count) || count + 4 > self.len() {
                     return Ok(());
                 }
             }
-- 
2.43.0


From 4ec160e0375dfc169e399f4ea9570107993c3102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 24/42] fix: write files beyond 2 GB with wide positions
 throughout

---
 oxyroot/src/riofs/blocks.rs         |  4 +++
 oxyroot/src/riofs/dir.rs            |  4 +++
 oxyroot/src/riofs/file.rs           | 40 ++++++++++++++++-------------
 oxyroot/src/riofs/key.rs            | 18 +++++--------
 oxyroot/src/rtree/branch/wbranch.rs |  2 +-
 5 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/oxyroot/src/riofs/blocks.rs b/oxyroot/src/riofs/blocks.rs
index efff86d..1083d52 100644
--- a/oxyroot/src/riofs/blocks.rs
+++ b/oxyroot/src/riofs/blocks.rs
@@ -87,6 +87,10 @@ impl FreeList {
         self.0.push(seg)
     }
 
+    pub(crate) fn size_of(&self) -> i32 {
+        self.0.iter().map(FreeSegments::size_of).sum()
+    }
+
     pub fn len(&self) -> usize {
         self.0.len()
     }
diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 4aad468..66a4559 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -1,3 +1,4 @@
+use crate::riofs::consts::kStartBigFile;
 use crate::riofs::file::{RootFile, RootFileReader};
 
 use crate::rbase::named::Named as ObjNamed;
@@ -258,6 +259,9 @@ impl TDirectoryFile {
         hdr.set_buffer(buf.buffer(), false);
 
         self.seek_keys = hdr.seek_key();
+        if self.seek_keys > kStartBigFile && !self.is_big_file() {
+            self.dir.rvers += 1000;
+        }
         trace!(";TDirectoryFile.save_keys.seek_keys:{:?}", self.seek_keys);
         self.n_bytes_keys = hdr.n_bytes();
         trace!(
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 5873ea4..019c4ee 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -499,10 +499,11 @@ impl RootFile {
             panic!("self.spans.len()")
         }
         let blk = self.spans.vec().last_mut().unwrap();
-        if blk.last != kStartBigFile {
-            panic!("blk.last")
-        }
         blk.first = pos;
+        // room is added beyond the end as the file grows
+        while blk.last < pos {
+            blk.last += 1_000_000_000;
+        }
         Ok(())
     }
 
@@ -736,26 +737,29 @@ impl RootFile {
             unimplemented!("self.header.seek_free != 0")
         }
 
-        let mut nbytes = 0;
-        for span in self.spans.vec() {
-            nbytes += span.size_of();
-        }
+        let beg = self.end();
+        let mut nbytes = self.spans.size_of();
         trace!(";RootFile.write_free_segments.nbytes:{}", nbytes);
 
-        let mut key = Key::new(
-            self.dir.dir().named().name.clone(),
-            self.dir.dir().named().title.clone(),
-            "TFile".to_string(),
-            nbytes,
-            self,
-        )?;
+        let mut key = loop {
+            let key = Key::new(
+                self.dir.dir().named().name.clone(),
+                self.dir.dir().named().title.clone(),
+                "TFile".to_string(),
+                nbytes,
+                self,
+            )?;
+
+            // this record itself may push the end to where the segments are wider
+            if self.spans.size_of() == nbytes {
+                break key;
+            }
+            nbytes = self.spans.size_of();
+            self.set_end(beg)?;
+        };
 
         assert_ne!(key.seek_key(), 0);
 
-        if !self.is_big_file() && self.end() > kStartBigFile {
-            unimplemented!("!self.is_big_file() && self.end() > kStartBigFile")
-        }
-
         let nbytes = key.obj_len();
         let mut buf = WBuffer::new(0);
 
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index e9120eb..9897c6a 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -1,7 +1,6 @@
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::wbuffer::WBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
-use crate::riofs::consts::kStartBigFile;
 use crate::riofs::dir::TDirectoryFile;
 use crate::riofs::file::{RootFileReader, RootFileWriter};
 use crate::riofs::utils::datetime_to_u32;
@@ -151,14 +150,8 @@ impl Marshaler for Key {
             // return Ok(w.pos() - beg);
         }
 
-        let rvers = if self.seek_key > kStartBigFile && self.rvers < 1000 {
-            self.rvers + 1000
-        } else {
-            self.rvers
-        };
-
-        trace!(";KEY.marshal.{beg}.rvers:{:?}", rvers);
-        w.write_i16(rvers)?;
+        trace!(";KEY.marshal.{beg}.rvers:{:?}", self.rvers);
+        w.write_i16(self.rvers)?;
         trace!(";KEY.marshal.{beg}.obj_len:{:?}", self.obj_len);
         w.write_i32(self.obj_len)?;
         w.write_u32(datetime_to_u32(self.datetime))?;
@@ -227,14 +220,15 @@ impl Key {
             ..Default::default()
         };
         key.n_bytes = key.obj_len + key.key_len;
+        // the width of the positions goes with the length above: where the key is, not where it ends
+        if f.is_big_file() {
+            key.rvers += 1000
+        }
         let eof = f.end();
         if obj_len > 0 {
             key.seek_key = eof;
             f.set_end(key.seek_key + key.n_bytes as i64)?;
         }
-        if f.is_big_file() {
-            key.rvers += 1000
-        }
 
         key.seek_pdir = f.dir().seek_dir;
 
diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index bfc7501..01a590e 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -169,7 +169,7 @@ where
             ";WBranch.create_new_basket.b.write_basket:{:?}",
             self.branch.tbranch_mut().write_basket
         );
-        let cycle = self.branch.tbranch_mut().write_basket as i16 + 1;
+        let cycle = (self.branch.tbranch_mut().write_basket + 1) as i16;
         let basket_size = self.branch.tbranch_mut().basket_size;
         let offset_len = self.branch.tbranch_mut().entry_offset_len;
         let basket = Basket::new_from_branch(&self.branch, cycle, basket_size, offset_len, tree, f);
-- 
2.43.0


From 22f2fcf15d2409d262c2a6910aeef84c4c2f0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 25/42] fix: read lists whose objects were added with an option

---
 oxyroot/src/rcont/list.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/oxyroot/src/rcont/list.rs b/oxyroot/src/rcont/list.rs
index 1c26e21..e3df5d4 100644
--- a/oxyroot/src/rcont/list.rs
+++ b/oxyroot/src/rcont/list.rs
@@ -99,13 +99,14 @@ impl Unmarshaler for ReaderList {
             let obj = r.read_object_any_into()?.expect("something is wrong");
             self.objs.push(obj);
 
+            // the option the object was added with
             let n = r.read_u8()?;
-
-            if n > 0 {
-                unimplemented!()
-            }
-
-            // todo!()
+            let n = if hdr.vers > 4 && n == 255 {
+                r.read_u32()? as usize
+            } else {
+                n as usize
+            };
+            r.skip(n as i64)?;
         }
 
         r.check_header(&hdr)?;
-- 
2.43.0


From cb8e506eb6f3ca3546280bad4dcfdf3d34f1e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 26/42] fix: a list read from a file is of class TList whatever
 its name

---
 oxyroot/src/rcont/list.rs | 5 +----
 oxyroot/src/rcont/tmap.rs | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/oxyroot/src/rcont/list.rs b/oxyroot/src/rcont/list.rs
index e3df5d4..24a6749 100644
--- a/oxyroot/src/rcont/list.rs
+++ b/oxyroot/src/rcont/list.rs
@@ -66,10 +66,7 @@ impl ReaderList {
 
 impl traits::Object for ReaderList {
     fn class(&self) -> &'_ str {
-        match &self.name {
-            None => "TList",
-            Some(s) => s,
-        }
+        "TList"
     }
 }
 
diff --git a/oxyroot/src/rcont/tmap.rs b/oxyroot/src/rcont/tmap.rs
index cb812d9..87ed4a7 100644
--- a/oxyroot/src/rcont/tmap.rs
+++ b/oxyroot/src/rcont/tmap.rs
@@ -47,7 +47,7 @@ impl Object for TMap {
 impl traits::Named for TMap {
     fn name(&self) -> &'_ str {
         match &self.name {
-            None => "TList",
+            None => "TMap",
             Some(s) => s,
         }
     }
-- 
2.43.0


From c90149d84b708e69559f104141382837998adf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 27/42] fix: read the rows of an object whatever the buffers of
 its members

---
 oxyroot/src/rtree/branch/mod.rs | 161 ++++++--------------------------
 1 file changed, 31 insertions(+), 130 deletions(-)

diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index fc1e4f4..09ab241 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -302,84 +302,43 @@ impl<'a, T> Iterator for ZiperBranchInnerO<'a, T> {
     }
 }
 
+/// Rows of an object stored in several branches: the bytes of its members one after the other.
 pub struct ZiperBranches<'a, T> {
-    _branches: &'a Vec<Branch>,
     phantom: PhantomData<T>,
-    iterators: Vec<Box<dyn Iterator<Item = BranchChunks> + 'a>>,
-    // output_buffers: Option<ZiperBranchInnerO<'a, T>>,
-    output_buffers: Vec<Option<BranchChunks>>,
-    current_size: Vec<usize>,
-    nb_entries: Vec<i32>,
+    iterators: Vec<Box<dyn Iterator<Item = Vec<u8>> + 'a>>,
 }
 
-impl<'a, T> ZiperBranches<'a, T> {
-    pub fn new(branches: &'a Vec<Branch>, _nb_entries: u32) -> Self {
-        let mut v = Vec::new();
-        // let mut v: Vec<dyn Iterator<Item = (u32, i32, Vec<u8>)>> = Vec::new();
-        for branch in branches {
-            let tbranch: &TBranch = branch.into();
-            let data = tbranch.get_baskets_buffer();
-
-            // let b = data.collect::<Vec<_>>();
-            //
-            // trace!("b = {:?}", b);
-
-            // todo!();
-
-            v.push(data);
-
-            // let d = data as &dyn Iterator<Item = (u32, i32, Vec<u8>)>;
-            // v.push(Box::new(data));
-        }
-
-        // todo!();
-
+impl<'a, T> ZiperBranches<'a, T>
+where
+    T: 'a,
+{
+    pub fn new(branches: &'a [Branch], _nb_entries: u32) -> Self {
         ZiperBranches {
-            _branches: branches,
             phantom: Default::default(),
-            iterators: v,
-            output_buffers: Vec::new(),
-            current_size: Default::default(),
-            nb_entries: Default::default(),
+            iterators: branches.iter().map(Self::entries).collect(),
         }
     }
-}
-
-impl<'a, T> ZiperBranches<'a, T> {
-    fn fill_output(&mut self) {
-        for it_branch in &mut self.iterators {
-            if let Some(chunk) = it_branch.next() {
-                // let (n, chunk_size, buf) = data;
-                // trace!("n = {}", n);
-
-                let n = match chunk {
-                    BranchChunks::RegularSized((n, _, _)) => n,
-                    BranchChunks::IrregularSized((n, _, _)) => n,
-                };
-
-                self.output_buffers.push(Some(chunk));
-                self.nb_entries.push(n);
-                self.current_size.push(0);
-            }
-        }
-    }
-
-    fn fill_output_one_branch(&mut self, num_branch: usize) {
-        trace!("self.fill_output_one_branch, num_branch = {}", num_branch);
 
-        let it_branch = &mut self.iterators[num_branch];
-        if let Some(chunk) = it_branch.next() {
-            let n = match chunk {
-                BranchChunks::RegularSized((n, _, _)) => n,
-                BranchChunks::IrregularSized((n, _, _)) => n,
-            };
+    /// The bytes of each entry of a branch.
+    fn entries(branch: &'a Branch) -> Box<dyn Iterator<Item = Vec<u8>> + 'a> {
+        let children = branch.tbranch().branches();
 
-            trace!("n = {}", n);
-
-            self.output_buffers[num_branch] = Some(chunk);
-            self.nb_entries[num_branch] = n;
-            self.current_size[num_branch] = 0;
+        if !children.is_empty() {
+            return Box::new(ZiperBranches::<T>::new(children, 0).map(|(_, _, buf)| buf));
         }
+
+        Box::new(branch.get_baskets_buffer().flat_map(|chunk| match chunk {
+            BranchChunks::RegularSized((n, chunk_size, buf)) => {
+                let size = chunk_size as usize;
+                (0..n as usize)
+                    .map(|i| buf[i * size..(i + 1) * size].to_vec())
+                    .collect::<Vec<_>>()
+            }
+            BranchChunks::IrregularSized((_n, data, header_bytes)) => data
+                .into_iter()
+                .map(|mut buf| buf.split_off((header_bytes as usize).min(buf.len())))
+                .collect(),
+        }))
     }
 }
 
@@ -387,74 +346,16 @@ impl<'a, T> Iterator for ZiperBranches<'a, T> {
     type Item = (u32, i32, Vec<u8>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // let mut ret = Vec::new();
-
-        if self.output_buffers.is_empty() {
-            trace!("self.output_buffers.is_empty()");
-            self.fill_output();
-        }
-
-        if self.output_buffers.is_empty() {
+        if self.iterators.is_empty() {
             return None;
         }
 
-        for b in &self.output_buffers {
-            if b.is_none() {
-                return None;
-            }
-        }
-
-        let size = self.output_buffers.iter().fold(0_usize, |acc, par| {
-            let s = match par.as_ref().unwrap() {
-                BranchChunks::RegularSized((_, s, _)) => s,
-                BranchChunks::IrregularSized(_) => {
-                    todo!()
-                }
-            };
-            acc + *s as usize
-        });
-        // let mut outbuf = vec![0 as u8; size];
-
-        let mut outbuf: Vec<u8> = Vec::with_capacity(size);
-
-        // for (ib, bbuffer) in enumerate(&self.output_buffers) {
-        for ib in 0..self.current_size.len() {
-            match &self.output_buffers[ib] {
-                None => {
-                    panic!("faut remplit");
-                }
-                Some(chunk) => {
-                    let (chunk_size, buf) = match chunk {
-                        BranchChunks::RegularSized((_, c, b)) => (c, b),
-                        BranchChunks::IrregularSized(_) => {
-                            todo!()
-                        }
-                    };
+        let mut outbuf: Vec<u8> = Vec::new();
 
-                    let csize = *chunk_size as usize;
-                    let begin = self.current_size[ib] * csize;
-                    let end = (self.current_size[ib] + 1) * csize;
-
-                    let mut ibuffer = buf[begin..end].to_vec();
-                    outbuf.append(&mut ibuffer);
-
-                    self.current_size[ib] += 1;
-
-                    // trace!(
-                    //     "self.current_size = {:?}, self.nb_entries = {:?}",
-                    //     self.current_size,
-                    //     self.nb_entries
-                    // );
-
-                    if self.current_size[ib] == self.nb_entries[ib] as usize {
-                        self.output_buffers[ib] = None;
-
-                        self.fill_output_one_branch(ib);
-                    }
-                }
-            }
+        for it in self.iterators.iter_mut() {
+            outbuf.append(&mut it.next()?);
         }
 
-        Some((0, size as i32, outbuf))
+        Some((0, outbuf.len() as i32, outbuf))
     }
 }
-- 
2.43.0


From f010acfd18d7acfd8ea8b0315d755beaeb2988e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 28/42] fix: the type of an object member is its class, not its
 name

---
 oxyroot/src/rtree/branch/tbranch_element.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 94227b1..0776c69 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -118,9 +118,12 @@ impl TBranchElement {
                     None => {
                         todo!()
                     }
-                    Some(streamer) => {
+                    // a base class is described under its own name
+                    Some(streamer @ Streamer::Base(_)) => {
                         return streamer.name().into();
-                        // trace!("current streamer = {:?}", streamer);
+                    }
+                    Some(streamer) => {
+                        return clean_type_name(streamer.item_type_name());
                     }
                 }
             }
-- 
2.43.0


From 214d56dbc922a0157d505a38866837c89567e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 29/42] fix: translate the words of a type name, not parts of
 its words

---
 oxyroot/src/rtree/streamer_type.rs | 148 +++++++++--------------------
 1 file changed, 46 insertions(+), 102 deletions(-)

diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 4797702..6a0acb6 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -216,92 +216,53 @@ pub(crate) fn _from_leaftype_to_str(leaftype: i32) -> Option<&'static str> {
     }
 }
 
+/// Replace `from` where it stands as a whole word (`int` in `vector<int>`, not in `Point` or
+/// `int32_t`).
 pub fn replace_string(s: &str, from: &str, to: &str) -> String {
-    let mut ret = String::new();
-    let indices: Vec<_> = s.match_indices(from).collect();
-    let mut g_indices = Vec::new();
-    let chars = s.chars().collect::<Vec<_>>();
-    for (i, _) in indices.iter() {
-        let start = {
-            if *i == 0 {
-                None
-            } else {
-                chars.get(*i - 1)
-            }
-        };
-
-        let end = chars.get(*i + from.len());
-
-        match (start, end) {
-            (Some(start), Some(end)) => {
-                if start.is_alphabetic() || end.is_alphabetic() {
-                    continue;
-                } else {
-                    g_indices.push(*i);
-                }
-            }
-            (Some(start), None) => {
-                if start.is_alphabetic() {
-                    continue;
-                } else {
-                    g_indices.push(*i);
-                }
-            }
-            (None, Some(end)) => {
-                if end.is_alphabetic() {
-                    continue;
-                } else {
-                    g_indices.push(*i);
-                }
-            }
-            (None, None) => {
-                g_indices.push(*i);
-            }
-        }
-    }
+    let is_word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
 
+    let mut ret = String::new();
     let mut last_end = 0;
 
-    for start in g_indices.iter() {
-        let start = *start;
+    for (start, _) in s.match_indices(from) {
+        let end = start + from.len();
+        if is_word(s[..start].chars().next_back()) || is_word(s[end..].chars().next()) {
+            continue;
+        }
         ret.push_str(&s[last_end..start]);
         ret.push_str(to);
-        last_end = start + from.len();
+        last_end = end;
     }
-    ret.push_str(&s[last_end..s.len()]);
+    ret.push_str(&s[last_end..]);
 
     ret
 }
 
 /// change c++ typename from "int" to int32_t and so on
 pub(crate) fn clean_type_name<T: AsRef<str>>(ty: T) -> String {
-    let ret = ty.as_ref().to_string().replace("unsigned int", "uint32_t");
-    let ret = replace_string(&ret, "int", "int32_t");
-    // undo change (uint32_t -> uint32_t32_t)
-    let ret = ret.replace("uint32_t32_t", "uint32_t");
-    // undo change (int32_t -> int32_t32_t)
-    let ret = ret.replace("int32_t32_t", "int32_t");
-    let ret = ret.replace("uint32_t16_t", "uint16_t");
-    let ret = ret.replace("uint32_t8_t", "uint8_t");
-    let ret = ret.replace("int32_t16_t", "int16_t");
-    let ret = ret.replace("int32_t8_t", "int8_t");
-    let ret = ret.replace("int32_t64_t", "int64_t");
-
-    let ret = ret.replace("unsigned short", "uint16_t");
-    let ret = ret.replace("short", "int16_t");
-
-    let ret = ret.replace("unsigned long", "uint64_t");
-    let ret = ret.replace("long", "int64_t");
-
-    // ROOT's own names and the character types used as small integers (but not `char*`)
+    let replaces = [
+        ("unsigned int", "uint32_t"),
+        ("int", "int32_t"),
+        ("unsigned short", "uint16_t"),
+        ("short", "int16_t"),
+        ("unsigned long", "uint64_t"),
+        ("long", "int64_t"),
+        // ROOT's own names
+        ("ULong64_t", "uint64_t"),
+        ("Long64_t", "int64_t"),
+    ];
+
+    let ret = replaces
+        .iter()
+        .fold(ty.as_ref().to_string(), |ret, (dirty, clean)| {
+            replace_string(&ret, dirty, clean)
+        });
+
+    // the character types used as small integers (but not `char*`)
     lazy_static! {
-        static ref RE_ULONG64: Regex = Regex::new(r"\bULong64_t\b").unwrap();
-        static ref RE_LONG64: Regex = Regex::new(r"\bLong64_t\b").unwrap();
         static ref RE_UCHAR: Regex = Regex::new(r"\bunsigned char\b([^*]|$)").unwrap();
         static ref RE_CHAR: Regex = Regex::new(r"\b(?:signed )?char\b([^*]|$)").unwrap();
     }
-    let ret = RE_ULONG64.replace_all(&ret, "uint64_t");
-    let ret = RE_LONG64.replace_all(&ret, "int64_t");
     let ret = RE_UCHAR.replace_all(&ret, "uint8_t${1}");
     let ret = RE_CHAR.replace_all(&ret, "int8_t${1}");
 
@@ -311,13 +272,13 @@ pub(crate) fn clean_type_name<T: AsRef<str>>(ty: T) -> String {
 /// Convert C++ templated name to a rust one
 /// Example vector<int> -> Vec<i32>
 pub(crate) fn type_name_cpp_to_rust(ty: &str) -> String {
-    let ty = clean_type_name(ty);
-    let ret = ty.replace("string", "String");
-    let ret = ret.replace("vector", "Vec");
-    let ret = ret.replace("map", "HashMap");
-    let mut ret = ret.replace("set", "HashSet");
+    let mut ret = clean_type_name(ty);
 
     let replaces = [
+        ("string", "String"),
+        ("vector", "Vec"),
+        ("map", "HashMap"),
+        ("set", "HashSet"),
         ("uint64_t", "u64"),
         ("int64_t", "i64"),
         ("uint32_t", "u32"),
@@ -328,38 +289,21 @@ pub(crate) fn type_name_cpp_to_rust(ty: &str) -> String {
         ("int8_t", "i8"),
         ("float", "f32"),
         ("double", "f64"),
-        ("bool", "bool"),
     ];
 
     for (cpp, rust) in replaces.iter() {
-        ret = ret.replace(cpp, rust);
-
-        //i32[] -> Slice<i32>
-        let cpp_s = format!("{}[]", rust);
-        let rust_s = format!("Slice<{}>", rust);
-        ret = ret.replace(cpp_s.as_str(), rust_s.as_str());
-
-        let start = &format!("{}[", rust);
-        let end = "]";
-        // trace!("ty = {} -> ret = {}", ty, ret);
-        if let Some(start) = ret.find(start) {
-            let start = start + rust.len() + 1;
-            // trace!("\tstart = {}", start);
-
-            let right = ret.get(start..).unwrap();
-            // trace!("\tright = {}", right);
-            if !right.starts_with(']') {
-                let end = right.find(end).unwrap();
-                // trace!("\t\tend = {}", end);
-                let inner = ret.get(start..(end + start)).unwrap();
-                // trace!("\t\tinner = {}", inner);
-                let rust_s = format!("{}[{}]", rust, inner);
-                let rust_o = format!("[{};{}]", rust, inner);
-                // trace!("\t\trust_s = {}", rust_s);
-                ret = ret.replace(rust_s.as_str(), rust_o.as_str());
-            }
-        }
+        ret = replace_string(&ret, cpp, rust);
+    }
+
+    lazy_static! {
+        static ref RE_SLICE: Regex =
+            Regex::new(r"\b([ui](?:8|16|32|64)|f32|f64|bool)\[\]").unwrap();
+        static ref RE_ARRAY: Regex =
+            Regex::new(r"\b([ui](?:8|16|32|64)|f32|f64|bool)\[([^\]]+)\]").unwrap();
     }
+    //i32[] -> Slice<i32>
+    let ret = RE_SLICE.replace_all(&ret, "Slice<${1}>");
+    let ret = RE_ARRAY.replace_all(&ret, "[${1};${2}]");
 
     ret.replace("char*", "String")
 }
-- 
2.43.0


From 9946ea5cebde014e98a6b515c88a3078236c12ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 30/42] fix: list and dump files which hold more than trees

---
 oxyroot-dump/src/main.rs |  9 ++++++++-
 oxyroot-ls/src/main.rs   | 11 ++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/oxyroot-dump/src/main.rs b/oxyroot-dump/src/main.rs
index bdc43c7..96b2e74 100644
--- a/oxyroot-dump/src/main.rs
+++ b/oxyroot-dump/src/main.rs
@@ -1617,8 +1617,15 @@ fn main() {
         .collect::<Vec<String>>();
 
     for trees in keys {
+        let tree = match f.get_tree(&trees) {
+            Ok(tree) => tree,
+            // not a tree, or one which can not be read
+            Err(e) => {
+                eprintln!("Can not dump the content of {:?}: {}", trees, e);
+                continue;
+            }
+        };
         println!(">>> tree: {:?}", trees);
-        let tree = f.get_tree(&trees).unwrap();
         tree.show();
 
         let mut zip = ZiperDumperBranch::new(&tree);
diff --git a/oxyroot-ls/src/main.rs b/oxyroot-ls/src/main.rs
index 2666227..b551eaf 100644
--- a/oxyroot-ls/src/main.rs
+++ b/oxyroot-ls/src/main.rs
@@ -51,8 +51,13 @@ fn main() {
             k.name(),
             k.title()
         );
-        println!("> Data in {}:", k.name());
-        let tree = f.get_tree(k.name()).unwrap();
-        tree.show();
+        match f.get_tree(k.name()) {
+            Ok(tree) => {
+                println!("> Data in {}:", k.name());
+                tree.show();
+            }
+            // not a tree, or one which can not be read
+            Err(e) => eprintln!("Can not list the content of {:?}: {}", k.name(), e),
+        }
     }
 }
-- 
2.43.0


From 47fd2127454b5c8f54670be5011ffc1ad9b870a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 31/42] fix: dump containers of 64-bit integers

---
 oxyroot-dump/src/main.rs | 58 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/oxyroot-dump/src/main.rs b/oxyroot-dump/src/main.rs
index 96b2e74..11d8e09 100644
--- a/oxyroot-dump/src/main.rs
+++ b/oxyroot-dump/src/main.rs
@@ -106,6 +106,60 @@ where
     bo
 }
 
+/// Containers of 64-bit integers, and maps from or to them
+fn make_box_branch_for_64_bits<'a>(
+    branch: &'a Branch,
+    interpretation: &str,
+) -> Option<Box<dyn Iterator<Item = Box<dyn Dumpable + 'a>> + 'a>> {
+    macro_rules! try_types {
+        ($($t:ty),*) => { $(
+            if interpretation == stringify!($t).replace(' ', "") {
+                return Some(make_box_branch_for_type::<$t>(branch));
+            }
+        )* };
+    }
+
+    macro_rules! try_containers {
+        ($($t:ty),*) => { $(
+            try_types!(Vec<$t>, Vec<Vec<$t>>, Slice<$t>, HashSet<$t>, Vec<HashSet<$t>>);
+        )* };
+    }
+
+    macro_rules! try_maps {
+        ($k:ty => $($v:ty),*) => { $(
+            try_types!(HashMap<$k, $v>, HashMap<$k, Vec<$v>>, HashMap<$k, Vec<Vec<$v>>>);
+        )* };
+    }
+
+    macro_rules! try_maps_of_sets {
+        ($k:ty => $($v:ty),*) => { $(
+            try_types!(HashMap<$k, HashSet<$v>>, HashMap<$k, Vec<HashSet<$v>>>);
+        )* };
+    }
+
+    macro_rules! try_maps_from {
+        ($($k:ty),*) => { $(
+            try_maps!($k => u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, String, TString);
+            try_maps_of_sets!($k => u8, i8, u16, i16, u32, i32, u64, i64, bool, String, TString);
+        )* };
+    }
+
+    macro_rules! try_maps_to {
+        ($($k:ty),*) => { $(
+            try_maps!($k => u64, i64);
+            try_maps_of_sets!($k => u64, i64);
+        )* };
+    }
+
+    type TString = String;
+
+    try_containers!(i64, u64);
+    try_maps_from!(i64, u64);
+    try_maps_to!(u8, i8, u16, i16, u32, i32, bool, String, TString);
+
+    None
+}
+
 struct ZipperDumperItem<'a> {
     branch: &'a Branch,
     iterator: Box<dyn Iterator<Item = Box<dyn Dumpable + 'a>> + 'a>,
@@ -1510,7 +1564,9 @@ impl<'a> ZipperDumperItem<'a> {
             }
             a => {
                 let re = Regex::new(r"\[([A-Za-z0-9]+);([0-9]+)\]").unwrap();
-                if let Some(gs) = re.captures(a) {
+                if let Some(it) = make_box_branch_for_64_bits(branch, a) {
+                    it
+                } else if let Some(gs) = re.captures(a) {
                     let n = &gs[2];
                     let n = n.parse::<usize>().unwrap();
 
-- 
2.43.0


From ccd5c447f8ca593fcf4ea3cbbfacd25f2f1bc4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 32/42] fix: write nested structures of the derive

---
 oxyroot_derive/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 5d125ac..ab8f1ee 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -827,8 +827,9 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
                     }
                 };
 
-                #new_branch
+                // The values are handed out before the callbacks of nested structures take them.
                 tree.add_callback(Box::new(func));
+                #new_branch
 
                 Ok(())
 
@@ -951,8 +952,14 @@ fn write_new_branch_for_write_to_tree(data: &Data) -> TokenStream {
                     let _sender_name = format_ident!("sender_{field_name}");
                     let recv_name = format_ident!("recv_{field_name}");
 
+                    // fields of a nested structure are named as they are read: "parent.field"
                     quote_spanned! {
-                        f.span() => <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, stringify!(#field_name).into())?;
+                        f.span() =>
+                        let name_of_branch = match branch_name {
+                            Some(parent) => format!("{}.{}", parent, stringify!(#field_name)),
+                            None => stringify!(#field_name).to_string(),
+                        };
+                        <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, Some(name_of_branch.as_str()))?;
                     }
                 });
                 quote!(#(#recurse)*)
-- 
2.43.0


From c0048ee41705747c9015e0618d5d9825c3f3da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 33/42] fix: sliced structures with fields named like the
 derive's variables

---
 oxyroot_derive/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index ab8f1ee..5dbbdb0 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -663,28 +663,30 @@ fn write_next_for_readtotree_sliced(name: Ident, data: &Data) -> TokenStream {
             Fields::Named(fields) => {
                 let get_sliced = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
+                    let slice_name = format_ident!("slice_{field_name}");
                     quote_spanned! {
                         f.span() =>
-                            let #field_name = self.#field_name.next()?.unwrap();
-                            let _size_slice = #field_name.inner().len();
+                            let #slice_name = self.#field_name.next()?.unwrap();
+                            let _size_slice = #slice_name.inner().len();
                     }
                 });
                 let get_sliced = quote!(  #(#get_sliced)* );
 
                 let recurse = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let field_namei = format_ident!("{field_name}i");
+                    let slice_name = format_ident!("slice_{field_name}");
+                    let item_name = format_ident!("item_{field_name}");
                     quote_spanned! {
-                        f.span() => let #field_namei = #field_name.inner()[i];
+                        f.span() => let #item_name = #slice_name.inner()[i];
                     }
                 });
                 let get_slice_i = quote!(  #(#recurse)* );
 
                 let recurse = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let field_namei = format_ident!("{field_name}i");
+                    let item_name = format_ident!("item_{field_name}");
                     quote_spanned! {
-                        f.span() => #field_name: #field_namei,
+                        f.span() => #field_name: #item_name,
                     }
                 });
                 let ret = quote!(  #(#recurse)* );
-- 
2.43.0


From 25ff862521e6693d6a673ebf001fa1a5927e9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 34/42] fix: columns of fields with raw identifiers

---
 oxyroot_derive/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 5dbbdb0..5ec0df3 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -6,6 +6,7 @@ use quote::{format_ident, quote, quote_spanned};
 
 // use oxyroot;
 
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::Expr;
 use syn::{parse_macro_input, parse_quote, Fields, GenericParam, Generics};
@@ -213,7 +214,7 @@ pub fn derive_ead_from_tree(input: proc_macro::TokenStream) -> proc_macro::Token
     for f in data.iter() {
         let original_name = f.ident.as_ref().expect("de");
         let final_name = match &f.rename {
-            None => original_name.to_string(),
+            None => original_name.unraw().to_string(),
 
             Some(i) => i.to_string(),
         };
@@ -953,13 +954,14 @@ fn write_new_branch_for_write_to_tree(data: &Data) -> TokenStream {
 
                     let _sender_name = format_ident!("sender_{field_name}");
                     let recv_name = format_ident!("recv_{field_name}");
+                    let column = field_name.unraw().to_string();
 
                     // fields of a nested structure are named as they are read: "parent.field"
                     quote_spanned! {
                         f.span() =>
                         let name_of_branch = match branch_name {
-                            Some(parent) => format!("{}.{}", parent, stringify!(#field_name)),
-                            None => stringify!(#field_name).to_string(),
+                            Some(parent) => format!("{}.{}", parent, #column),
+                            None => #column.to_string(),
                         };
                         <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, Some(name_of_branch.as_str()))?;
                     }
-- 
2.43.0


From 3e950ff3954385ee8ffe2953c461cf1ca2ed23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 35/42] fix: structures named like the derive's own types

---
 oxyroot_derive/src/lib.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 5ec0df3..f94c5a8 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -268,7 +268,6 @@ pub fn derive_ead_from_tree(input: proc_macro::TokenStream) -> proc_macro::Token
 
     let iterator = if slicable {
         quote!(
-                    use oxyroot::Slice;
                     struct #iterator_name_sliced<'a>  {
                        #stru_sliced
                     }
@@ -424,7 +423,7 @@ fn write_struct_for_readtotree_sliced(data: &Data, _opts_by_fiels: &OptionByFiel
 
 
                     quote_spanned! {
-                                f.span() =>  #field_name: Box<dyn Iterator<Item=oxyroot::ReadFromTreeResult<Slice<#field_type>>> + 'a>,
+                                f.span() =>  #field_name: Box<dyn Iterator<Item=oxyroot::ReadFromTreeResult<oxyroot::Slice<#field_type>>> + 'a>,
                             }
 
 
@@ -595,7 +594,7 @@ fn write_func_for_readtotree_sliced(data: &Data, opts_by_fiels: &OptionByField)
 
 
                     quote_spanned! {
-                        f.span() =>  #field_name:Box::new(<Slice<#field_type>>::from_branch_tree(tree, #branch_name_ident.into())?)     ,
+                        f.span() =>  #field_name:Box::new(<oxyroot::Slice<#field_type>>::from_branch_tree(tree, #branch_name_ident.into())?)     ,
                     }
                 });
                 quote!(  #(#branch_names)*   Ok(Self{  #(#recurse)* }))
@@ -702,7 +701,7 @@ fn write_next_for_readtotree_sliced(name: Ident, data: &Data) -> TokenStream {
                         };
                         v.push(p);
                     }
-                    Some(oxyroot::ReadFromTreeResult::Slice(Slice::new(v)))
+                    Some(oxyroot::ReadFromTreeResult::Slice(oxyroot::Slice::new(v)))
                 )
             }
             Fields::Unnamed(_) => {
@@ -765,41 +764,41 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
                 use std::cell::RefCell;
                 use std::rc::Rc;
 
-                struct Channel<T> {
+                struct OxyrootChannel<T> {
                     current: Rc<RefCell<Option<T>>>,
                 }
 
-                struct Sender<T> {
-                    channel: Channel<T>,
+                struct OxyrootSender<T> {
+                    channel: OxyrootChannel<T>,
                 }
 
-                impl<T> Sender<T> {
+                impl<T> OxyrootSender<T> {
                     fn send(&self, value: Option<T>) {
                         let mut current = self.channel.current.borrow_mut();
                         *current = value;
                     }
                 }
 
-                struct Receiver<T> {
-                    channel: Channel<T>,
+                struct OxyrootReceiver<T> {
+                    channel: OxyrootChannel<T>,
                 }
 
-                pub fn make_channel<T>() -> (Sender<T>, Receiver<T>) {
+                pub fn make_channel<T>() -> (OxyrootSender<T>, OxyrootReceiver<T>) {
                     let current = Rc::new(RefCell::new(None));
-                    let channel = Channel {
+                    let channel = OxyrootChannel {
                         current: current.clone(),
                     };
 
-                    let sender = Sender { channel: channel };
-                    let receiver = Receiver {
-                        channel: Channel {
+                    let sender = OxyrootSender { channel: channel };
+                    let receiver = OxyrootReceiver {
+                        channel: OxyrootChannel {
                             current: current.clone(),
                         },
                     };
                     (sender, receiver)
                 }
 
-                impl<T> Iterator for Receiver<T> {
+                impl<T> Iterator for OxyrootReceiver<T> {
                     type Item = T;
 
                     fn next(&mut self) -> Option<Self::Item> {
-- 
2.43.0


From c3b3793dd254f59d44b56aeead50b4fae504de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:40 +0000
Subject: [PATCH 36/42] fix: fields with raw identifiers

---
 oxyroot_derive/src/lib.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index f94c5a8..3cef5f1 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -453,7 +453,7 @@ fn write_func_for_readtotree(data: &Data, opts_by_fiels: &OptionByField) -> Toke
             Fields::Named(fields) => {
                 let branch_names = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let branch_name_ident = format_ident!("bn_{field_name}");
+                    let branch_name_ident = format_ident!("bn_{}", field_name);
                     let branch_name = match opts_by_fiels.renames.get(f.ident.as_ref().unwrap()) {
                         None => field_name.to_string(),
                         Some(s) => s.to_string(),
@@ -499,7 +499,7 @@ fn write_func_for_readtotree(data: &Data, opts_by_fiels: &OptionByField) -> Toke
                         Some(s) => {s.to_string()}
                     };
                     let field_type = &f.ty;
-                    let branch_name_ident = format_ident!("bn_{field_name}");
+                    let branch_name_ident = format_ident!("bn_{}", field_name);
 
 
                     match  opts_by_fiels.slicables.get(f.ident.as_ref().unwrap()) {
@@ -542,7 +542,7 @@ fn write_func_for_readtotree_sliced(data: &Data, opts_by_fiels: &OptionByField)
             Fields::Named(fields) => {
                 let branch_names = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let branch_name_ident = format_ident!("bn_{field_name}");
+                    let branch_name_ident = format_ident!("bn_{}", field_name);
                     let branch_name = match opts_by_fiels.renames.get(f.ident.as_ref().unwrap()) {
                         None => field_name.to_string(),
                         Some(s) => s.to_string(),
@@ -590,7 +590,7 @@ fn write_func_for_readtotree_sliced(data: &Data, opts_by_fiels: &OptionByField)
                     let field_type = &f.ty;
 
 
-                    let branch_name_ident = format_ident!("bn_{field_name}");
+                    let branch_name_ident = format_ident!("bn_{}", field_name);
 
 
                     quote_spanned! {
@@ -663,7 +663,7 @@ fn write_next_for_readtotree_sliced(name: Ident, data: &Data) -> TokenStream {
             Fields::Named(fields) => {
                 let get_sliced = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let slice_name = format_ident!("slice_{field_name}");
+                    let slice_name = format_ident!("slice_{}", field_name);
                     quote_spanned! {
                         f.span() =>
                             let #slice_name = self.#field_name.next()?.unwrap();
@@ -674,8 +674,8 @@ fn write_next_for_readtotree_sliced(name: Ident, data: &Data) -> TokenStream {
 
                 let recurse = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let slice_name = format_ident!("slice_{field_name}");
-                    let item_name = format_ident!("item_{field_name}");
+                    let slice_name = format_ident!("slice_{}", field_name);
+                    let item_name = format_ident!("item_{}", field_name);
                     quote_spanned! {
                         f.span() => let #item_name = #slice_name.inner()[i];
                     }
@@ -684,7 +684,7 @@ fn write_next_for_readtotree_sliced(name: Ident, data: &Data) -> TokenStream {
 
                 let recurse = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let item_name = format_ident!("item_{field_name}");
+                    let item_name = format_ident!("item_{}", field_name);
                     quote_spanned! {
                         f.span() => #field_name: #item_name,
                     }
@@ -852,8 +852,8 @@ fn write_send_recv_for_write_to_tree(data: &Data) -> TokenStream {
                     let field_name = f.ident.as_ref().unwrap();
                     let _field_type = &f.ty;
 
-                    let sender_name = format_ident!("sender_{field_name}");
-                    let recv_name = format_ident!("recv_{field_name}");
+                    let sender_name = format_ident!("sender_{}", field_name);
+                    let recv_name = format_ident!("recv_{}", field_name);
 
                     quote_spanned! {
                         f.span() => let (#sender_name, #recv_name) = make_channel();
@@ -885,8 +885,8 @@ fn write_match_it_some_for_write_to_tree(data: &Data) -> TokenStream {
                     let field_name = f.ident.as_ref().unwrap();
                     let _field_type = &f.ty;
 
-                    let sender_name = format_ident!("sender_{field_name}");
-                    let _recv_name = format_ident!("recv_{field_name}");
+                    let sender_name = format_ident!("sender_{}", field_name);
+                    let _recv_name = format_ident!("recv_{}", field_name);
 
                     quote_spanned! {
                         f.span() => #sender_name.send(Some(struct_instance.#field_name));
@@ -918,8 +918,8 @@ fn write_match_it_none_for_write_to_tree(data: &Data) -> TokenStream {
                     let field_name = f.ident.as_ref().unwrap();
                     let _field_type = &f.ty;
 
-                    let sender_name = format_ident!("sender_{field_name}");
-                    let _recv_name = format_ident!("recv_{field_name}");
+                    let sender_name = format_ident!("sender_{}", field_name);
+                    let _recv_name = format_ident!("recv_{}", field_name);
 
                     quote_spanned! {
                         f.span() => #sender_name.send(None);
@@ -951,8 +951,8 @@ fn write_new_branch_for_write_to_tree(data: &Data) -> TokenStream {
                     let field_name = f.ident.as_ref().unwrap();
                     let field_type = &f.ty;
 
-                    let _sender_name = format_ident!("sender_{field_name}");
-                    let recv_name = format_ident!("recv_{field_name}");
+                    let _sender_name = format_ident!("sender_{}", field_name);
+                    let recv_name = format_ident!("recv_{}", field_name);
                     let column = field_name.unraw().to_string();
 
                     // fields of a nested structure are named as they are read: "parent.field"
-- 
2.43.0


From 09a262e08c7e3144a2122a2058eb130c7e5dc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:52 +0000
Subject: [PATCH 37/42] fix: damage at the end of zlib and LZMA blocks went
 unnoticed

---
 oxyroot/src/rcompress.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index af90099..ea191bd 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -58,6 +58,14 @@ fn invalid_data(msg: &str) -> Error {
     Error::Io(std::io::Error::new(std::io::ErrorKind::InvalidData, msg))
 }
 
+/// The stream has to end here; its checksum is verified when its end is read.
+fn expect_end(d: &mut impl Read) -> Result<()> {
+    match d.read(&mut [0_u8])? {
+        0 => Ok(()),
+        _ => Err(invalid_data("compressed block longer than announced")),
+    }
+}
+
 pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
     let mut end = 0;
     let mut hdr = [0_u8; HEADER_SIZE];
@@ -88,10 +96,12 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
             Kind::Zlib => {
                 let mut d = ZlibDecoder::new(block);
                 d.read_exact(out)?;
+                expect_end(&mut d)?;
             }
             Kind::Lzma => {
                 let mut d = XzDecoder::new(block);
                 d.read_exact(out)?;
+                expect_end(&mut d)?;
             }
             Kind::OldCompression => {
                 return Err(invalid_data("old ROOT compression is not supported"));
-- 
2.43.0


From ff0a8566149972bc3bcc6c2abdc557206b5733e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 38/42] fix: the checksum of LZ4 blocks was not verified

---
 oxyroot/src/rcompress.rs | 71 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 68 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index ea191bd..2c70179 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -58,6 +58,68 @@ fn invalid_data(msg: &str) -> Error {
     Error::Io(std::io::Error::new(std::io::ErrorKind::InvalidData, msg))
 }
 
+/// XXH64 with a zero seed, the checksum of LZ4 blocks.
+fn xxh64(data: &[u8]) -> u64 {
+    const P1: u64 = 0x9E37_79B1_85EB_CA87;
+    const P2: u64 = 0xC2B2_AE3D_27D4_EB4F;
+    const P3: u64 = 0x1656_67B1_9E37_79F9;
+    const P4: u64 = 0x85EB_CA77_C2B2_AE63;
+    const P5: u64 = 0x27D4_EB2F_1656_67C5;
+
+    let lane = |b: &[u8]| b.iter().rev().fold(0, |v, x| v << 8 | *x as u64);
+    let round = |acc: u64, lane: u64| {
+        acc.wrapping_add(lane.wrapping_mul(P2))
+            .rotate_left(31)
+            .wrapping_mul(P1)
+    };
+
+    let stripes = data.chunks_exact(32);
+    let rest = stripes.remainder();
+    let mut hash = P5;
+    if data.len() >= 32 {
+        let mut acc = [P1.wrapping_add(P2), P2, 0, 0_u64.wrapping_sub(P1)];
+        for stripe in stripes {
+            for (a, l) in acc.iter_mut().zip(stripe.chunks_exact(8)) {
+                *a = round(*a, lane(l));
+            }
+        }
+        hash = acc[0]
+            .rotate_left(1)
+            .wrapping_add(acc[1].rotate_left(7))
+            .wrapping_add(acc[2].rotate_left(12))
+            .wrapping_add(acc[3].rotate_left(18));
+        for a in acc {
+            hash = (hash ^ round(0, a)).wrapping_mul(P1).wrapping_add(P4);
+        }
+    }
+    hash = hash.wrapping_add(data.len() as u64);
+
+    let words = rest.chunks_exact(8);
+    let mut rest = words.remainder();
+    for l in words {
+        hash = (hash ^ round(0, lane(l)))
+            .rotate_left(27)
+            .wrapping_mul(P1)
+            .wrapping_add(P4);
+    }
+    if rest.len() >= 4 {
+        hash = (hash ^ lane(&rest[..4]).wrapping_mul(P1))
+            .rotate_left(23)
+            .wrapping_mul(P2)
+            .wrapping_add(P3);
+        rest = &rest[4..];
+    }
+    for b in rest {
+        hash = (hash ^ (*b as u64).wrapping_mul(P5))
+            .rotate_left(11)
+            .wrapping_mul(P1);
+    }
+
+    hash = (hash ^ (hash >> 33)).wrapping_mul(P2);
+    hash = (hash ^ (hash >> 29)).wrapping_mul(P3);
+    hash ^ (hash >> 32)
+}
+
 /// The stream has to end here; its checksum is verified when its end is read.
 fn expect_end(d: &mut impl Read) -> Result<()> {
     match d.read(&mut [0_u8])? {
@@ -107,10 +169,13 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
                 return Err(invalid_data("old ROOT compression is not supported"));
             }
             Kind::LZ4 => {
-                // the block starts with a checksum
-                let block = block
-                    .get(8..)
+                // the block starts with a checksum of the rest
+                let (sum, block) = block
+                    .split_first_chunk::<8>()
                     .ok_or_else(|| invalid_data("LZ4 block without checksum"))?;
+                if xxh64(block) != u64::from_be_bytes(*sum) {
+                    return Err(invalid_data("checksum of a LZ4 block does not match"));
+                }
                 let n = LZ4_decompress_to_buffer(block, Some(tgtsz as i32), out)?;
                 if n != tgtsz {
                     return Err(invalid_data("LZ4 block shorter than announced"));
-- 
2.43.0


From fc832ee458038ff4b8cc195c60874ec7af991ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:01 +0000
Subject: [PATCH 39/42] fix: closing a file again after a failed close panicked

---
 oxyroot/src/riofs/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 019c4ee..0d78ad8 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -379,6 +379,13 @@ impl RootFile {
 
     pub fn close(&mut self) -> Result<()> {
         self.writer()?;
+        let done = self.write_end();
+        // whatever happened, nothing more can be written
+        self.inner = RootFileInner::None;
+        done
+    }
+
+    fn write_end(&mut self) -> Result<()> {
         let mut dir = self.dir().clone();
         dir.close(self)?;
         let _ = std::mem::replace(&mut self.dir, dir);
@@ -386,7 +393,6 @@ impl RootFile {
         self.write_free_segments()?;
         self.write_header()?;
         self.writer()?.flush()?;
-        self.inner = RootFileInner::None;
 
         Ok(())
     }
-- 
2.43.0


From ac9f175b2e52cdead47eda4f158acc33815fbfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:10 +0000
Subject: [PATCH 40/42] fix: reading needed an open file for every column

---
 oxyroot/src/riofs/file.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 0d78ad8..76dc478 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -8,6 +8,7 @@ use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
 use std::path::{Path, PathBuf};
 use std::ptr::addr_of;
 use std::rc::Rc;
+use std::sync::{Arc, Mutex};
 
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::wbuffer::WBuffer;
@@ -57,10 +58,11 @@ impl RootFileHeader {
     }
 }
 
-#[derive(Default, Debug)]
+#[derive(Default, Debug, Clone)]
 pub(crate) struct RootFileReader {
     path: PathBuf,
-    reader: Option<BufReader<File>>,
+    // every branch has its clone: one handle serves them all
+    reader: Option<Arc<Mutex<BufReader<File>>>>,
 }
 
 impl Display for RootFileReader {
@@ -78,13 +80,14 @@ impl RootFileReader {
         let buf_reader = BufReader::new(f);
         let reader = Self {
             path: path.as_ref().to_path_buf(),
-            reader: Some(buf_reader),
+            reader: Some(Arc::new(Mutex::new(buf_reader))),
         };
         Ok(reader)
     }
 
     pub(crate) fn read_at(&mut self, start: u64, len: u64) -> Result<Vec<u8>> {
-        let reader = self.reader.as_mut().expect("ERROR");
+        let reader = self.reader.as_ref().expect("ERROR");
+        let mut reader = reader.lock().expect("ERROR");
         // sizes come from the file and may be anything, don't make room for more than there is
         let file_len = reader.get_ref().metadata()?.len();
         if start.checked_add(len).map_or(true, |end| end > file_len) {
@@ -100,12 +103,6 @@ impl RootFileReader {
     }
 }
 
-impl Clone for RootFileReader {
-    fn clone(&self) -> Self {
-        RootFileReader::new(&self.path).unwrap()
-    }
-}
-
 #[derive(Default, Debug)]
 pub(crate) struct RootFileWriter {
     path: PathBuf,
-- 
2.43.0


From c2fdd740f4cf6386b76e3e398bced80645d012df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:19 +0000
Subject: [PATCH 41/42] fix: writing a tree again panicked or stored it without
 its columns

---
 oxyroot/src/riofs/error.rs       | 2 ++
 oxyroot/src/rtree/tree/writer.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index bed0e38..d55ae5e 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -39,6 +39,8 @@ pub enum Error {
     FileIsNotOpened,
     // Writer Errors
     NameContainsSlash(String),
+    /// A tree can be written once, whether or not that succeeded
+    TreeAlreadyWritten(String),
     KeyClassMismatch {
         key: String,
         key_class: String,
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 49bc127..1c1bfc3 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -29,6 +29,8 @@ file.close().expect("Can not close file");
 pub struct WriterTree {
     tree: Tree<WBranch<Box<dyn Marshaler>>>,
     callbacks: Vec<Box<dyn FnMut(StateCallBack)>>,
+    // the iterators of the columns have been used up
+    written: bool,
 }
 
 /// Argument for callbacks called before and during writing branches. Callbacks are mainly used to
@@ -66,6 +68,7 @@ impl WriterTree {
                 ..Default::default()
             },
             callbacks: Vec::new(),
+            written: false,
         }
     }
 
@@ -115,6 +118,10 @@ impl WriterTree {
     pub fn write(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
         // nothing is consumed or written if the tree can't be stored in the end
         file.ensure_can_put(self.tree.named.name())?;
+        if std::mem::replace(&mut self.written, true) {
+            let name = self.tree.named.name().to_string();
+            return Err(crate::riofs::Error::TreeAlreadyWritten(name));
+        }
 
         let mut branchs_done = self
             .tree
@@ -172,7 +179,7 @@ impl WriterTree {
 
         file.put(self.tree.named.name(), self)?;
 
-        let sis = self.tree.sinfos.take().unwrap();
+        let sis = self.tree.sinfos.as_ref().unwrap();
 
         for si in sis.list().iter() {
             file.add_streamer_info(si.clone());
-- 
2.43.0


From 70258991225dc17f5b248d936802684441622ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:56 +0000
Subject: [PATCH 42/42] fix: a tree with aliases, an index, friends or branch
 references could not be read

---
 oxyroot/src/rbytes/rbuffer.rs    | 23 +++++++++++++++++++++++
 oxyroot/src/rtree/tree/reader.rs | 32 ++++++++------------------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index b4cada1..6102d32 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -429,6 +429,29 @@ impl<'a> RBuffer<'a> {
         }
     }
 
+    /// Moves past an object written through a pointer, whatever its class. The class itself is
+    /// remembered, objects which follow may refer to it.
+    pub(crate) fn skip_object_any(&mut self) -> Result<()> {
+        let bcnt = self.read_u32()? as i64;
+
+        if bcnt & kByteCountMask == 0 || bcnt == kNewClassTag {
+            // null, or a reference to an object which was already read
+            return Ok(());
+        }
+
+        let start = self.pos();
+
+        if self.read_u32()? as i64 == kNewClassTag {
+            let cname = self.read_cstring(80)?;
+            if let Ok(fct) = rtypes::FACTORY.get(cname) {
+                self.refs.insert(start + kMapOffset, Func(*fct));
+            }
+        }
+
+        self.set_pos(start + (bcnt & !kByteCountMask));
+        Ok(())
+    }
+
     pub fn read_string(&mut self) -> Result<&str> {
         let u8 = self.read_u8()?;
         let n = if u8 == 255 {
diff --git a/oxyroot/src/rtree/tree/reader.rs b/oxyroot/src/rtree/tree/reader.rs
index 3ebaac7..b2a0728 100644
--- a/oxyroot/src/rtree/tree/reader.rs
+++ b/oxyroot/src/rtree/tree/reader.rs
@@ -259,40 +259,27 @@ impl Unmarshaler for ReaderTree {
 
         if hdr.vers > 5 {
             // tree.aliases
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            r.skip_object_any()?;
         }
 
         {
             //tree.indexValues
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            let n = r.read_i32()?.max(0);
+            r.skip(n as i64 * 8)?;
         }
 
         {
             //tree.index
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            let n = r.read_i32()?.max(0);
+            r.skip(n as i64 * 4)?;
         }
 
         if hdr.vers > 5 {
             //tree.treeindex
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            r.skip_object_any()?;
 
             //tree.friends
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            r.skip_object_any()?;
 
             trace!(";Tree.unmarshal.{}.pos_before_user_info: {}", _beg, r.pos());
 
@@ -313,10 +300,7 @@ impl Unmarshaler for ReaderTree {
             // todo!();
 
             //tree.branchRef
-            let v = r.read_object_any_into()?;
-            if v.is_some() {
-                todo!()
-            }
+            r.skip_object_any()?;
         }
 
         Ok(())
-- 
2.43.0

