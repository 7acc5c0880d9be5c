From a38e86ad8f690e3b17b2cdef07fb7d57d8cf6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 01/18] fix: BitRange::msb and from_bit_range overflow on
 extreme positions

msb() overflowed for a range that ends at bit 4294967295, and from_bit_range
panicked (or returned a wrapped width) when msb < lsb or the width does not
fit in 32 bits instead of returning None.
---
 svd-rs/src/bitrange.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 5741899..a81cd4d 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -37,7 +37,7 @@ impl BitRange {
     }
     /// Get the position of the most significant bit
     pub fn msb(&self) -> u32 {
-        self.offset + self.width - 1
+        self.offset + (self.width - 1)
     }
     /// Get the bit range in the format `[<msb>:<lsb>]`
     pub fn bit_range(&self) -> String {
@@ -70,7 +70,7 @@ impl BitRange {
         let lsb = parts.next()?.parse::<u32>().ok()?;
         Some(Self {
             offset: lsb,
-            width: msb - lsb + 1,
+            width: msb.checked_sub(lsb)?.checked_add(1)?,
             range_type: BitRangeType::BitRange,
         })
     }
-- 
2.43.0


From c045b728389de92f7ab0159b9468d4eb4589b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 02/18] fix: parser overflow on a bit range that covers all
 32-bit positions

[4294967295:0] passed the start > end check and then overflowed computing the
width; report an invalid size instead.
---
 svd-parser/src/bitrange.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 0fb8ec4..f77464e 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -84,12 +84,13 @@ impl Parse for BitRange {
                 return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
             };
 
-        if start > end {
-            return Err(SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()));
-        }
+        let width = end
+            .checked_sub(start)
+            .and_then(|w| w.checked_add(1))
+            .ok_or_else(|| SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()))?;
         Ok(Self {
             offset: start,
-            width: end - start + 1,
+            width,
             range_type,
         })
     }
-- 
2.43.0


From c30dc9763854fcf7d6e876d7680c3663f0cc5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 03/18] fix: deserializing a field with msb below lsb panicked

Return a deserialization error instead of overflowing in from_msb_lsb.
---
 svd-rs/src/bitrange.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index a81cd4d..dcef82b 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -139,7 +139,12 @@ mod ser_de {
                     bit_offset,
                     bit_width,
                 } => Ok(BitRange::from_offset_width(bit_offset, bit_width)),
-                SerBitRange::MsbLsb { msb, lsb } => Ok(BitRange::from_msb_lsb(msb, lsb)),
+                SerBitRange::MsbLsb { msb, lsb } => {
+                    if msb.checked_sub(lsb).map_or(true, |w| w == u32::MAX) {
+                        return Err(serde::de::Error::custom("Invalid msb/lsb"));
+                    }
+                    Ok(BitRange::from_msb_lsb(msb, lsb))
+                }
             }
         }
     }
-- 
2.43.0


From fee4d53569e9571dc640d26d80dcbd672bb5c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 04/18] fix: indexes_as_range overflow when the indexes span
 all of u32

---
 svd-rs/src/dimelement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index b351f05..3fb86bf 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -178,7 +178,7 @@ impl DimElement {
         }
         let min = *integers.iter().min()?;
         let max = *integers.iter().max()?;
-        if max - min + 1 != self.dim {
+        if max - min != self.dim - 1 {
             return None;
         }
         for (&i, r) in integers.iter().zip(min..=max) {
-- 
2.43.0


From 2dddf1008929a2c848683c388cfafd47cab045e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 05/18] fix: encoder OffsetReversed sorting misordered or
 overflowed on offsets above i32::MAX

---
 svd-encoder/src/device.rs     | 2 +-
 svd-encoder/src/peripheral.rs | 2 +-
 svd-encoder/src/register.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/svd-encoder/src/device.rs b/svd-encoder/src/device.rs
index 378e653..7d73705 100644
--- a/svd-encoder/src/device.rs
+++ b/svd-encoder/src/device.rs
@@ -99,7 +99,7 @@ fn sort_peripherals(refs: &mut [&Peripheral], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|p| p.base_address),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|p| -(p.base_address as i32));
+                refs.sort_by_key(|p| std::cmp::Reverse(p.base_address));
             }
             Sorting::Name => refs.sort_by_key(|p| &p.name),
         }
diff --git a/svd-encoder/src/peripheral.rs b/svd-encoder/src/peripheral.rs
index f464961..156331e 100644
--- a/svd-encoder/src/peripheral.rs
+++ b/svd-encoder/src/peripheral.rs
@@ -144,7 +144,7 @@ fn sort_register_cluster(refs: &mut [&RegisterCluster], sorting: Option<Sorting>
         match sorting {
             Sorting::Offset => refs.sort_by_key(|r| r.address_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|r| -(r.address_offset() as i32));
+                refs.sort_by_key(|r| std::cmp::Reverse(r.address_offset()));
             }
             Sorting::Name => refs.sort_by_key(|r| r.name()),
         }
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index b4b4aa8..2418c97 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -116,7 +116,7 @@ fn sort_fields(refs: &mut [&Field], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|f| f.bit_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|f| -(f.bit_offset() as i32));
+                refs.sort_by_key(|f| std::cmp::Reverse(f.bit_offset()));
             }
             Sorting::Name => refs.sort_by_key(|f| &f.name),
         }
-- 
2.43.0


From b1d26635a02b7441b3511dd3616fcc2edab0f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:10 +0000
Subject: [PATCH 06/18] fix: derivedFrom dropped a cluster's description and a
 register's data type

---
 svd-rs/src/derive_from.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svd-rs/src/derive_from.rs b/svd-rs/src/derive_from.rs
index 9578852..0045103 100644
--- a/svd-rs/src/derive_from.rs
+++ b/svd-rs/src/derive_from.rs
@@ -13,6 +13,7 @@ pub trait DeriveFrom {
 impl DeriveFrom for ClusterInfo {
     fn derive_from(&self, other: &Self) -> Self {
         let mut derived = self.clone();
+        derived.description = derived.description.or_else(|| other.description.clone());
         derived.default_register_properties = derived
             .default_register_properties
             .derive_from(&other.default_register_properties);
@@ -77,6 +78,7 @@ impl DeriveFrom for RegisterInfo {
         derived.modified_write_values = derived
             .modified_write_values
             .or(other.modified_write_values);
+        derived.datatype = derived.datatype.or(other.datatype);
         derived
     }
 }
-- 
2.43.0


From 31de87a8cdf258720f5666bcf29a0bc309ba3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 07/18] fix: FieldInfoBuilder::bit_offset ignored a previously
 set bit_width

---
 svd-rs/src/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 7fe336f..5919969 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -163,7 +163,7 @@ impl FieldInfoBuilder {
     pub fn bit_offset(mut self, value: u32) -> Self {
         if let Some(bit_range) = self.bit_range.as_mut() {
             bit_range.offset = value;
-        } else if let Some(width) = self.bit_offset {
+        } else if let Some(width) = self.bit_width {
             self.bit_range = Some(BitRange::from_offset_width(value, width));
             self.bit_width = None;
         } else {
-- 
2.43.0


From 272cecc5f8973b12d8c55fa67f74fed8f65b24c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 08/18] fix: EnumeratedValues::modify_from dropped the new
 derived_from

---
 svd-rs/src/enumeratedvalues.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/enumeratedvalues.rs b/svd-rs/src/enumeratedvalues.rs
index aff085f..7446546 100644
--- a/svd-rs/src/enumeratedvalues.rs
+++ b/svd-rs/src/enumeratedvalues.rs
@@ -114,6 +114,7 @@ impl EnumeratedValues {
         lvl: ValidateLevel,
     ) -> Result<(), SvdError> {
         if builder.derived_from.is_some() {
+            self.derived_from = builder.derived_from;
             self.name = None;
             self.usage = None;
             self.values = Vec::new();
-- 
2.43.0


From 15fc40fa79e2cf0329e480e29a1793059a957a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 09/18] fix: expand lost the origin of derived contents when
 the source is itself derived

---
 svd-parser/src/expand.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 73f418f..7236c32 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -412,7 +412,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?;
+        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -447,7 +447,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?;
+        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -482,7 +482,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?;
+        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -647,7 +647,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?;
+        path = derive_peripheral(p, dpath, index)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From 798f8bab8b3816290f281ded2d98d3412a9095a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:36 +0000
Subject: [PATCH 10/18] fix: expand panicked on a field derived from
 REGISTER.FIELD

---
 svd-parser/src/expand.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 7236c32..6231037 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -458,16 +458,19 @@ pub fn derive_field(
     rpath: &RegisterPath,
     index: &Index,
 ) -> Result<Option<FieldPath>> {
-    let (dregister, dname) = FieldPath::parse_str(dpath);
-    let rdpath;
-    let field_path;
-    if let Some(dregister) = dregister {
-        field_path = dregister.new_field(dname);
-        rdpath = dregister;
+    let mut v: Vec<&str> = dpath.split('.').collect();
+    let dname = v.pop().unwrap();
+    let rdpath = if v.is_empty() {
+        // Only FIELD: in same register
+        rpath.clone()
     } else {
-        field_path = rpath.new_field(dname);
-        rdpath = rpath.clone();
-    }
+        let (block, rname) = RegisterPath::parse_vec(v);
+        // REG.FIELD: in same block, or FULL.PATH.FIELD
+        block
+            .unwrap_or_else(|| rpath.block.clone())
+            .new_register(rname)
+    };
+    let field_path = rdpath.new_field(dname);
     if &rdpath == rpath && dname == &f.name {
         return Err(anyhow!("Field {field_path} is self-derived"));
     }
-- 
2.43.0


From e7c2e1f9c61e58296b8de207083057265616de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:32 +0000
Subject: [PATCH 11/18] fix: expand recursed without end on a derivation cycle
 and refused same-named sources

---
 svd-parser/src/expand.rs | 95 ++++++++++++++++++++++++++++++++++------
 1 file changed, 81 insertions(+), 14 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 6231037..1310757 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -387,6 +387,18 @@ pub fn derive_cluster(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<BlockPath>> {
+    let own_path = path.new_cluster(&c.name);
+    derive_cluster_chain(c, dpath, path, index, &mut vec![own_path])
+}
+
+/// `seen` holds the paths of the derived cluster and all its sources up to now
+fn derive_cluster_chain(
+    c: &mut Cluster,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    seen: &mut Vec<BlockPath>,
 ) -> Result<Option<BlockPath>> {
     let (dparent, dname) = BlockPath::parse_str(dpath);
     let rdpath;
@@ -398,9 +410,10 @@ pub fn derive_cluster(
         cluster_path = path.new_cluster(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &c.name {
+    if seen.contains(&cluster_path) {
         return Err(anyhow!("Cluster {cluster_path} is self-derived"));
     }
+    seen.push(cluster_path.clone());
     let d = index
         .clusters
         .get(&cluster_path)
@@ -412,7 +425,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
+        cpath = derive_cluster_chain(c, dpath, &rdpath, index, seen)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -422,6 +435,18 @@ pub fn derive_register(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<RegisterPath>> {
+    let own_path = path.new_register(&r.name);
+    derive_register_chain(r, dpath, path, index, &mut vec![own_path])
+}
+
+/// `seen` holds the paths of the derived register and all its sources up to now
+fn derive_register_chain(
+    r: &mut Register,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    seen: &mut Vec<RegisterPath>,
 ) -> Result<Option<RegisterPath>> {
     let (dblock, dname) = RegisterPath::parse_str(dpath);
     let rdpath;
@@ -433,9 +458,10 @@ pub fn derive_register(
         reg_path = path.new_register(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &r.name {
+    if seen.contains(&reg_path) {
         return Err(anyhow!("Register {reg_path} is self-derived"));
     }
+    seen.push(reg_path.clone());
     let d = index
         .registers
         .get(&reg_path)
@@ -447,7 +473,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
+        rpath = derive_register_chain(r, dpath, &rdpath, index, seen)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -457,6 +483,18 @@ pub fn derive_field(
     dpath: &str,
     rpath: &RegisterPath,
     index: &Index,
+) -> Result<Option<FieldPath>> {
+    let own_path = rpath.new_field(&f.name);
+    derive_field_chain(f, dpath, rpath, index, &mut vec![own_path])
+}
+
+/// `seen` holds the paths of the derived field and all its sources up to now
+fn derive_field_chain(
+    f: &mut Field,
+    dpath: &str,
+    rpath: &RegisterPath,
+    index: &Index,
+    seen: &mut Vec<FieldPath>,
 ) -> Result<Option<FieldPath>> {
     let mut v: Vec<&str> = dpath.split('.').collect();
     let dname = v.pop().unwrap();
@@ -471,9 +509,10 @@ pub fn derive_field(
             .new_register(rname)
     };
     let field_path = rdpath.new_field(dname);
-    if &rdpath == rpath && dname == &f.name {
+    if seen.contains(&field_path) {
         return Err(anyhow!("Field {field_path} is self-derived"));
     }
+    seen.push(field_path.clone());
     let d = index
         .fields
         .get(&field_path)
@@ -485,7 +524,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
+        fpath = derive_field_chain(f, dpath, &rdpath, index, seen)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -574,6 +613,21 @@ pub fn derive_enumerated_values(
     if Some(dpath) == ev.name.as_deref() {
         return Err(anyhow!("EnumeratedValues {fpath}.{dpath} is self-derived"));
     }
+    let mut seen = Vec::new();
+    if let Some(name) = ev.name.as_ref() {
+        seen.push(fpath.new_enum(name));
+    }
+    derive_enumerated_values_chain(ev, dpath, fpath, index, &mut seen)
+}
+
+/// `seen` holds the paths of the derived values and all their sources up to now
+fn derive_enumerated_values_chain(
+    ev: &mut EnumeratedValues,
+    dpath: &str,
+    fpath: &FieldPath,
+    index: &Index,
+    seen: &mut Vec<EnumPath>,
+) -> Result<EnumPath> {
     let mut v: Vec<&str> = dpath.split('.').collect();
     let dname = v.pop().unwrap();
     let d = if v.is_empty() {
@@ -608,17 +662,18 @@ pub fn derive_enumerated_values(
             };
             FieldPath::new(rdpath, fdname)
         };
-        if &fdpath == fpath && Some(dname) == ev.name.as_deref() {
-            return Err(anyhow!("EnumeratedValues {fpath}.{dname} is self-derived"));
-        }
         let epath = EnumPath::new(fdpath, dname);
         index.evs.get(&epath).map(|d| (d, epath))
     };
 
     if let Some((d, epath)) = d {
+        if seen.contains(&epath) {
+            return Err(anyhow!("EnumeratedValues {epath} is self-derived"));
+        }
+        seen.push(epath.clone());
         *ev = ev.derive_from(d);
         if let Some(dpath) = d.derived_from.as_ref() {
-            derive_enumerated_values(ev, dpath, &epath.field, index)
+            derive_enumerated_values_chain(ev, dpath, &epath.field, index, seen)
         } else {
             Ok(epath)
         }
@@ -636,11 +691,23 @@ pub fn derive_peripheral(
     dpath: &str,
     index: &Index,
 ) -> Result<Option<BlockPath>> {
-    if dpath == &p.name {
-        return Err(anyhow!("Peripheral {dpath} is self-derived"));
-    }
+    let own_path = BlockPath::new(&p.name);
+    derive_peripheral_chain(p, dpath, index, &mut vec![own_path])
+}
+
+/// `seen` holds the paths of the derived peripheral and all its sources up to now
+fn derive_peripheral_chain(
+    p: &mut Peripheral,
+    dpath: &str,
+    index: &Index,
+    seen: &mut Vec<BlockPath>,
+) -> Result<Option<BlockPath>> {
     let mut path = None;
     let derpath = BlockPath::new(dpath);
+    if seen.contains(&derpath) {
+        return Err(anyhow!("Peripheral {dpath} is self-derived"));
+    }
+    seen.push(derpath.clone());
     let d = index
         .peripherals
         .get(&derpath)
@@ -650,7 +717,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?.or(path);
+        path = derive_peripheral_chain(p, dpath, index, seen)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From 655d943e461bf4e8772069c548088e43d3aaef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:36 +0000
Subject: [PATCH 12/18] fix: expand recursed without end on a cluster derived
 from one that contains it

---
 svd-parser/src/expand.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 1310757..ffa3537 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -346,9 +346,10 @@ fn expand_register_cluster(
     rc: RegisterCluster,
     path: &BlockPath,
     index: &Index,
+    parents: &mut Vec<BlockPath>,
 ) -> Result<()> {
     match rc {
-        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index)?,
+        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index, parents)?,
         RegisterCluster::Register(r) => expand_register_array(regs, r, path, index)?,
     }
     Ok(())
@@ -359,6 +360,7 @@ fn expand_cluster_array(
     mut c: Cluster,
     path: &BlockPath,
     index: &Index,
+    parents: &mut Vec<BlockPath>,
 ) -> Result<()> {
     let mut cpath = None;
     let dpath = c.derived_from.take();
@@ -367,9 +369,15 @@ fn expand_cluster_array(
     }
     let cpath = cpath.unwrap_or_else(|| path.new_cluster(&c.name));
 
+    // A cluster which takes over the children it is one of would have no end
+    if parents.contains(&cpath) {
+        return Err(anyhow!("Cluster {cpath} contains itself"));
+    }
+    parents.push(cpath.clone());
     for rc in take(&mut c.children) {
-        expand_register_cluster(&mut c.children, rc, &cpath, index)?;
+        expand_register_cluster(&mut c.children, rc, &cpath, index, parents)?;
     }
+    parents.pop();
 
     match c {
         Cluster::Single(c) => expand_cluster(regs, c),
@@ -739,7 +747,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
         let path = path.unwrap_or_else(|| BlockPath::new(&p.name));
         if let Some(regs) = p.registers.as_mut() {
             for rc in take(regs) {
-                expand_register_cluster(regs, rc, &path, &index)?;
+                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
             }
         }
         match p {
-- 
2.43.0


From 509836a1869e3bec6ff3f4f5d4bca3a64a6c3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 13/18] fix: expand overflowed on arrays and clusters beyond
 the addressable range

---
 svd-parser/src/expand.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index ffa3537..4ca8ba0 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -6,7 +6,7 @@ use std::fmt;
 use std::mem::take;
 use svd_rs::{
     array::names, cluster, field, peripheral, register, Cluster, ClusterInfo, DeriveFrom, Device,
-    EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
+    DimElement, EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
 };
 
 /// Path to `peripheral` or `cluster` element
@@ -380,10 +380,11 @@ fn expand_cluster_array(
     parents.pop();
 
     match c {
-        Cluster::Single(c) => expand_cluster(regs, c),
+        Cluster::Single(c) => expand_cluster(regs, c)?,
         Cluster::Array(info, dim) => {
+            check_array(&info.name, info.address_offset, &dim)?;
             for c in cluster::expand(&info, &dim) {
-                expand_cluster(regs, c);
+                expand_cluster(regs, c)?;
             }
         }
     }
@@ -537,17 +538,31 @@ fn derive_field_chain(
     Ok(fpath)
 }
 
-fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) {
+/// Check that the position of the last array element is representable
+fn check_array(name: &str, offset: u32, dim: &DimElement) -> Result<()> {
+    dim.dim
+        .saturating_sub(1)
+        .checked_mul(dim.dim_increment)
+        .and_then(|last| last.checked_add(offset))
+        .map(|_| ())
+        .ok_or_else(|| anyhow!("Array {name} exceeds 32-bit offsets"))
+}
+
+fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) -> Result<()> {
     for rc in c.children {
         match rc {
             RegisterCluster::Cluster(_) => unreachable!(),
             RegisterCluster::Register(mut r) => {
                 r.name = format!("{}_{}", c.name, r.name);
-                r.address_offset += c.address_offset;
+                r.address_offset = r
+                    .address_offset
+                    .checked_add(c.address_offset)
+                    .ok_or_else(|| anyhow!("Register {} exceeds 32-bit offsets", r.name))?;
                 regs.push(r.into());
             }
         }
     }
+    Ok(())
 }
 
 fn expand_register_array(
@@ -574,6 +589,7 @@ fn expand_register_array(
             regs.push(r.into());
         }
         Register::Array(info, dim) => {
+            check_array(&info.name, info.address_offset, &dim)?;
             regs.extend(register::expand(&info, &dim).map(|r| r.single().into()));
         }
     }
@@ -605,6 +621,7 @@ fn expand_field(
             fields.push(f);
         }
         Field::Array(info, dim) => {
+            check_array(&info.name, info.bit_offset(), &dim)?;
             fields.extend(field::expand(&info, &dim).map(Field::Single));
         }
     }
@@ -755,6 +772,9 @@ pub fn expand(indevice: &Device) -> Result<Device> {
                 device.peripherals.push(p);
             }
             Peripheral::Array(info, dim) => {
+                (dim.dim.saturating_sub(1) as u64 * dim.dim_increment as u64)
+                    .checked_add(info.base_address)
+                    .ok_or_else(|| anyhow!("Array {} exceeds 64-bit addresses", info.name))?;
                 device
                     .peripherals
                     .extend(peripheral::expand(&info, &dim).map(Peripheral::Single));
-- 
2.43.0


From b0142393c44d540d9c94b4faef099cae12b2e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:09 +0000
Subject: [PATCH 14/18] fix: name case options split every capitalised word
 after its first letter

---
 svd-encoder/src/config.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/svd-encoder/src/config.rs b/svd-encoder/src/config.rs
index a78dbbb..6ca2984 100644
--- a/svd-encoder/src/config.rs
+++ b/svd-encoder/src/config.rs
@@ -47,7 +47,6 @@ pub fn change_case(s: &str, case: Option<IdentifierFormat>) -> String {
                 Boundary::Hyphen,
                 Boundary::Space,
                 Boundary::LowerUpper,
-                Boundary::UpperLower,
                 Boundary::Acronym,
             ];
 
-- 
2.43.0


From bdad7e85055dc7b88b2a57352417f99d57878212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:07 +0000
Subject: [PATCH 15/18] fix: name case options broke dotted derivedFrom paths

---
 svd-encoder/src/cluster.rs          |  4 ++--
 svd-encoder/src/config.rs           | 23 +++++++++++++++++++++++
 svd-encoder/src/enumeratedvalues.rs | 15 +++++++++++++--
 svd-encoder/src/field.rs            |  4 ++--
 svd-encoder/src/register.rs         |  4 ++--
 5 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/svd-encoder/src/cluster.rs b/svd-encoder/src/cluster.rs
index 34d4806..2d8ecbd 100644
--- a/svd-encoder/src/cluster.rs
+++ b/svd-encoder/src/cluster.rs
@@ -3,7 +3,7 @@ use super::{
 };
 
 use crate::{
-    config::{change_case, format_number},
+    config::{change_case, change_path_case, format_number},
     svd::{Cluster, ClusterInfo},
 };
 
@@ -67,7 +67,7 @@ impl Encode for ClusterInfo {
         if let Some(v) = &self.derived_from {
             e.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.cluster_name),
+                change_path_case(v, &[config.cluster_name], config),
             );
         }
 
diff --git a/svd-encoder/src/config.rs b/svd-encoder/src/config.rs
index 6ca2984..d889f33 100644
--- a/svd-encoder/src/config.rs
+++ b/svd-encoder/src/config.rs
@@ -62,6 +62,29 @@ pub fn change_case(s: &str, case: Option<IdentifierFormat>) -> String {
     }
 }
 
+/// Change case of a reference, which can be a dotted path, so that each part of it
+/// is changed like the name of the item it refers to.
+///
+/// `cases` are the cases of the referred item and of the items around it, innermost first.
+/// The rest of the path is a peripheral followed by clusters
+pub fn change_path_case(path: &str, cases: &[Option<IdentifierFormat>], config: &Config) -> String {
+    let parts = path.split('.').collect::<Vec<_>>();
+    let last = parts.len() - 1;
+    parts
+        .iter()
+        .enumerate()
+        .map(|(i, part)| {
+            let case = match cases.get(last - i) {
+                Some(case) => *case,
+                None if i == 0 => config.peripheral_name,
+                None => config.cluster_name,
+            };
+            change_case(part, case)
+        })
+        .collect::<Vec<_>>()
+        .join(".")
+}
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum NumberFormat {
     /// `UpperHex` format
diff --git a/svd-encoder/src/enumeratedvalues.rs b/svd-encoder/src/enumeratedvalues.rs
index 2a23795..8a619a8 100644
--- a/svd-encoder/src/enumeratedvalues.rs
+++ b/svd-encoder/src/enumeratedvalues.rs
@@ -1,6 +1,9 @@
 use super::{new_node, Config, Element, Encode, EncodeError};
 
-use crate::{config::change_case, svd::EnumeratedValues};
+use crate::{
+    config::{change_case, change_path_case},
+    svd::EnumeratedValues,
+};
 
 impl Encode for EnumeratedValues {
     type Error = EncodeError;
@@ -22,7 +25,15 @@ impl Encode for EnumeratedValues {
         if let Some(v) = &self.derived_from {
             base.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.enumerated_values_name),
+                change_path_case(
+                    v,
+                    &[
+                        config.enumerated_values_name,
+                        config.field_name,
+                        config.register_name,
+                    ],
+                    config,
+                ),
             );
         }
 
diff --git a/svd-encoder/src/field.rs b/svd-encoder/src/field.rs
index 1d080af..e5c1402 100644
--- a/svd-encoder/src/field.rs
+++ b/svd-encoder/src/field.rs
@@ -1,7 +1,7 @@
 use super::{new_node, Config, Element, ElementMerge, Encode, EncodeError, XMLNode};
 use crate::bitrange::encode_bitrange;
 
-use crate::config::change_case;
+use crate::config::{change_case, change_path_case};
 use crate::svd::{Field, FieldInfo};
 
 impl Encode for Field {
@@ -63,7 +63,7 @@ impl Encode for FieldInfo {
         if let Some(v) = &self.derived_from {
             elem.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.field_name),
+                change_path_case(v, &[config.field_name, config.register_name], config),
             );
         }
 
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index 2418c97..8bd0e49 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -5,7 +5,7 @@ use super::{
 };
 
 use crate::{
-    config::{change_case, format_number, DerivableSorting, Sorting},
+    config::{change_case, change_path_case, format_number, DerivableSorting, Sorting},
     svd::{Register, RegisterInfo},
 };
 
@@ -103,7 +103,7 @@ impl Encode for RegisterInfo {
         if let Some(v) = &self.derived_from {
             elem.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.register_name),
+                change_path_case(v, &[config.register_name], config),
             );
         }
 
-- 
2.43.0


From 317b5c3a35f13ea5261083723e3a4a038461e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 16/18] fix: deserializing an array without dimIndex gave a
 single item

---
 svd-rs/src/dimelement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 3fb86bf..3bc7b4e 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -22,6 +22,7 @@ pub struct DimElement {
     #[cfg_attr(
         feature = "serde",
         serde(
+            default,
             deserialize_with = "ser_de::deserialize_dim_index",
             serialize_with = "ser_de::serialize_dim_index",
             skip_serializing_if = "Option::is_none"
-- 
2.43.0


From 466ca03006241cc8ff9ffed27e06ff1f7c31500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:56 +0000
Subject: [PATCH 17/18] fix: deserializing an array with incomplete or invalid
 dim data gave a single item

---
 svd-rs/src/array.rs      |  6 +++---
 svd-rs/src/dimelement.rs | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/svd-rs/src/array.rs b/svd-rs/src/array.rs
index d302b4b..9c2be46 100644
--- a/svd-rs/src/array.rs
+++ b/svd-rs/src/array.rs
@@ -109,8 +109,8 @@ mod ser_de {
 
     #[derive(serde::Deserialize)]
     struct DeserArray<T> {
-        #[serde(flatten, default)]
-        dim: Option<DimElement>,
+        #[serde(flatten)]
+        dim: crate::dimelement::ser_de::OptionalDim,
         #[serde(flatten)]
         info: T,
     }
@@ -139,7 +139,7 @@ mod ser_de {
             D: Deserializer<'de>,
         {
             let DeserArray { dim, info } = DeserArray::<T>::deserialize(deserializer)?;
-            if let Some(dim) = dim {
+            if let Some(dim) = dim.into_dim()? {
                 Ok(Self::Array(info, dim))
             } else {
                 Ok(Self::Single(info))
diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 3bc7b4e..29869a1 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -255,9 +255,43 @@ impl<'a> Iterator for Indexes<'a> {
 }
 
 #[cfg(feature = "serde")]
-mod ser_de {
+pub(crate) mod ser_de {
     use super::*;
     use serde::{de, Deserialize, Deserializer, Serializer};
+
+    /// Array part of an item that may be single
+    #[derive(serde::Deserialize)]
+    #[serde(rename_all = "camelCase")]
+    pub struct OptionalDim {
+        #[serde(default)]
+        dim: Option<u32>,
+        #[serde(default)]
+        dim_increment: Option<u32>,
+        #[serde(default, deserialize_with = "deserialize_dim_index")]
+        dim_index: Option<Vec<String>>,
+        #[serde(default)]
+        dim_name: Option<String>,
+        #[serde(default)]
+        dim_array_index: Option<DimArrayIndex>,
+    }
+
+    impl OptionalDim {
+        pub fn into_dim<E: de::Error>(self) -> Result<Option<DimElement>, E> {
+            match (self.dim, self.dim_increment) {
+                (Some(dim), Some(dim_increment)) => Ok(Some(DimElement {
+                    dim,
+                    dim_increment,
+                    dim_index: self.dim_index,
+                    dim_name: self.dim_name,
+                    dim_array_index: self.dim_array_index,
+                })),
+                (Some(_), None) => Err(de::Error::missing_field("dimIncrement")),
+                (None, Some(_)) => Err(de::Error::missing_field("dim")),
+                (None, None) => Ok(None),
+            }
+        }
+    }
+
     #[derive(serde::Serialize, serde::Deserialize)]
     #[serde(untagged)]
     enum DimIndex {
-- 
2.43.0


From 29368153046c72081c08c3de64b0942b53ca5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 18/18] fix: parser panicked on an empty writeConstraint

---
 svd-parser/src/writeconstraint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/writeconstraint.rs b/svd-parser/src/writeconstraint.rs
index 38f46ac..6b18dfa 100644
--- a/svd-parser/src/writeconstraint.rs
+++ b/svd-parser/src/writeconstraint.rs
@@ -7,7 +7,9 @@ impl Parse for WriteConstraint {
     type Config = Config;
 
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
-        let child = tree.first_element_child().unwrap();
+        let child = tree
+            .first_element_child()
+            .ok_or_else(|| SVDError::EmptyTag("writeConstraint".to_string()).at(tree.id()))?;
         if child.next_sibling_element().is_some() {
             return Err(SVDError::MoreThanOneWriteConstraint.at(tree.id()));
         }
-- 
2.43.0

