From 7ea2a580fb66e0b2c7bb533826fef4fc0fa1f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 01/64] fix: apply optional rules to existing clusters

A "?~" rule whose name matches a cluster but no register was silently
skipped instead of being applied.
---
 src/patch/peripheral.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cd690b3..5af659a 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -403,9 +403,9 @@ pub(crate) trait RegisterBlockExt: Name {
     fn modify_child(&mut self, rcspec: &str, rcmod: &Hash, bpath: &BlockPath) -> PatchResult {
         let (rcspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rcspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rcspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rcspec}. Present registers: {present}.`"
@@ -453,9 +453,9 @@ pub(crate) trait RegisterBlockExt: Name {
     ) -> PatchResult {
         let (rspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rspec}. Present registers: {present}.`"
-- 
2.43.0


From 596ccc16418e6ce232be354a91b081bb29021672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 02/64] fix: refuse to derive an element from itself

`_derive` of a peripheral or register from itself, or from something derived
from it, and `_rebase` on a peripheral the source already derives from,
left a self-referencing element and lost its contents.
---
 src/patch/device.rs     | 29 +++++++++++++++++++++++++++++
 src/patch/peripheral.rs | 12 ++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index e7a3cb1..205370e 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -36,6 +36,9 @@ pub trait DeviceExt {
     /// Returns string of present peripherals
     fn present_peripherals(&self) -> String;
 
+    /// Check if pname is base or is derived (at any level) from it
+    fn is_based_on(&self, pname: &str, base: &str) -> bool;
+
     /// Work through a device, handling all peripherals
     fn process(&mut self, device: &Hash, config: &Config) -> PatchResult;
 
@@ -79,6 +82,24 @@ impl DeviceExt for Device {
         self.peripherals.iter_mut().matched(spec)
     }
 
+    fn is_based_on(&self, pname: &str, base: &str) -> bool {
+        let mut name = Some(pname);
+        for _ in 0..=self.peripherals.len() {
+            match name {
+                Some(n) if n == base => return true,
+                Some(n) => {
+                    name = self
+                        .peripherals
+                        .iter()
+                        .find(|p| p.name == n)
+                        .and_then(|p| p.derived_from.as_deref())
+                }
+                None => break,
+            }
+        }
+        false
+    }
+
     fn present_peripherals(&self) -> String {
         self.peripherals.iter().map(|p| p.name.as_str()).join(", ")
     }
@@ -345,6 +366,11 @@ impl DeviceExt for Device {
                     "peripheral {pderive} not found. Present peripherals: {present}."
                 ));
             };
+            if self.is_based_on(pderive, pname) {
+                return Err(anyhow!(
+                    "peripheral {pname} can't be derived from itself through {pderive}"
+                ));
+            }
             Some(i)
         } else {
             None
@@ -385,6 +411,9 @@ impl DeviceExt for Device {
     }
 
     fn rebase_peripheral(&mut self, pnew: &str, pold: &str) -> PatchResult {
+        if pnew != pold && self.is_based_on(pold, pnew) {
+            return Err(anyhow!("peripheral {pold} is already based on {pnew}"));
+        }
         let (mut min_pos, old) = self
             .peripherals
             .iter_mut()
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 5af659a..feb8d78 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -328,6 +328,18 @@ pub(crate) trait RegisterBlockExt: Name {
             })?;
         }
 
+        // The source and registers it is derived from can't be derived from it
+        let mut base = Some(rderive);
+        for _ in 0..=self.regs().count() {
+            let Some(name) = base else { break };
+            if matchname(name, rspec) && self.get_reg(name).is_some() {
+                return Err(anyhow!(
+                    "register {name} can't be derived from itself through {rderive}"
+                ));
+            }
+            base = self.get_reg(name).and_then(|r| r.derived_from.as_deref());
+        }
+
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
         let mut found = Vec::new();
         if !rtags.is_empty() {
-- 
2.43.0


From e99869562f663dea951b1d178f4b26d5c01ffca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 03/64] fix: strip the matched part of a name, not as many
 bytes as the pattern has

With wildcards (README: `_strip: ["PREFIX_*_"]`) the matched text and the
pattern have different lengths, so names were cut in the wrong place or
the process panicked.
---
 src/patch/mod.rs        | 21 +++++++++++++
 src/patch/peripheral.rs | 65 ++++++++++-------------------------------
 src/patch/register.rs   | 17 ++++-------
 3 files changed, 42 insertions(+), 61 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f7e5fe4..d734be4 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -283,6 +283,27 @@ fn newglob(spec: &str) -> globset::GlobMatcher {
         .compile_matcher()
 }
 
+/// Delete the shortest beginning of name that matches
+fn strip_matched_start(name: &mut String, glob: &globset::GlobMatcher) {
+    if let Some(pos) = (0..=name.len())
+        .filter(|&i| name.is_char_boundary(i))
+        .find(|&i| glob.is_match(&name[..i]))
+    {
+        name.drain(..pos);
+    }
+}
+
+/// Delete the shortest ending of name that matches
+fn strip_matched_end(name: &mut String, glob: &globset::GlobMatcher) {
+    if let Some(pos) = (0..=name.len())
+        .rev()
+        .filter(|&i| name.is_char_boundary(i))
+        .find(|&i| glob.is_match(&name[i..]))
+    {
+        name.truncate(pos);
+    }
+}
+
 /// If a name matches a specification, return the first sub-specification that it matches
 fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
     if spec.contains('{') {
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index feb8d78..d94b318 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -13,7 +13,8 @@ use super::register::{RegisterExt, RegisterInfoExt};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     adding_pos, check_offsets, common_description, make_dim_element, matchname, matchsubspec,
-    modify_dim_element, spec_ind, Config, PatchResult, Spec, VAL_LVL,
+    modify_dim_element, spec_ind, strip_matched_end, strip_matched_start, Config, PatchResult,
+    Spec, VAL_LVL,
 };
 use super::{make_cluster, make_interrupt, make_register};
 
@@ -536,36 +537,23 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the beginning of register names inside ptag
     fn strip_start(&mut self, prefix: &str) -> PatchResult {
-        let len = prefix.len();
-        let glob = globset::Glob::new(&(prefix.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(prefix)?.compile_matcher();
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                rtag.name.drain(..len);
-            }
+            strip_matched_start(&mut rtag.name, &glob);
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    dname.drain(..len);
-                }
+                strip_matched_start(dname, &glob);
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    name.drain(..len);
-                }
+                strip_matched_start(name, &glob);
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                ctag.name.drain(..len);
-            }
+            strip_matched_start(&mut ctag.name, &glob);
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    dname.drain(..len);
-                }
+                strip_matched_start(dname, &glob);
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    name.drain(..len);
-                }
+                strip_matched_start(name, &glob);
             }
         }
         Ok(())
@@ -573,44 +561,23 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the ending of register names inside ptag
     fn strip_end(&mut self, suffix: &str) -> PatchResult {
-        let len = suffix.len();
-        let glob = globset::Glob::new(&("*".to_string() + suffix))
-            .unwrap()
-            .compile_matcher();
+        let glob = globset::Glob::new(suffix)?.compile_matcher();
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                let nlen = rtag.name.len();
-                rtag.name.truncate(nlen - len);
-            }
+            strip_matched_end(&mut rtag.name, &glob);
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
-                }
+                strip_matched_end(dname, &glob);
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
-                }
+                strip_matched_end(name, &glob);
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                let nlen = ctag.name.len();
-                ctag.name.truncate(nlen - len);
-            }
+            strip_matched_end(&mut ctag.name, &glob);
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
-                }
+                strip_matched_end(dname, &glob);
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
-                }
+                strip_matched_end(name, &glob);
             }
         }
         Ok(())
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 170aa86..d33886d 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -15,7 +15,7 @@ use super::iterators::{MatchIter, Matched};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     check_offsets, common_description, make_dim_element, matchname, modify_dim_element, spec_ind,
-    Config, PatchResult, Spec, VAL_LVL,
+    strip_matched_end, strip_matched_start, Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{make_derived_enumerated_values, make_ev_array, make_ev_name, make_field};
 
@@ -283,24 +283,17 @@ impl RegisterExt for Register {
     }
 
     fn strip_start(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&(substr.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                ftag.name.drain(..len);
-            }
+            strip_matched_start(&mut ftag.name, &glob);
         }
         Ok(())
     }
 
     fn strip_end(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&("*".to_string() + substr))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                let nlen = ftag.name.len();
-                ftag.name.truncate(nlen - len);
-            }
+            strip_matched_end(&mut ftag.name, &glob);
         }
         Ok(())
     }
-- 
2.43.0


From 651ceff706f83ed847e71c127cb9d873e528c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 04/64] fix: check address increments of every register group
 of a cluster

Only the offsets of the first group were checked, for every group: a second
group with other increments was collected and its addresses changed.
---
 src/patch/peripheral.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index d94b318..9e30c7b 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1721,7 +1721,6 @@ fn collect_in_cluster(
     let mut dim = 0;
     let mut dim_index = Vec::new();
     let mut dim_increment = cmod.get_u32("dimIncrement")?.unwrap_or(0);
-    let mut offsets = Vec::new();
     let mut place = usize::MAX;
     let mut rspecs = Vec::new();
     let single = !cname.contains("%s");
@@ -1797,6 +1796,10 @@ fn collect_in_cluster(
                 })
                 .collect::<Result<Vec<_>, _>>();
             let new_dim_index = new_dim_index?;
+            let offsets = registers
+                .iter()
+                .map(|r| r.address_offset)
+                .collect::<Vec<_>>();
             if let Some(rspec1) = first.as_ref() {
                 let len = registers.len();
                 if dim != len {
@@ -1812,10 +1815,6 @@ fn collect_in_cluster(
             } else {
                 dim = registers.len();
                 dim_index = new_dim_index;
-                offsets = registers
-                    .iter()
-                    .map(|r| r.address_offset)
-                    .collect::<Vec<_>>();
                 if dim > 1 {
                     dim_increment = offsets[1] - offsets[0];
                 }
-- 
2.43.0


From 02225d8f8fde7ed60c520ccf2f07cbda00f26e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 05/64] fix: `_expand_cluster` must not delete clusters it did
 not expand

After the expansion every cluster matching the spec was deleted, including
non-array clusters and nested clusters that had just been lifted, with all
their registers.
---
 src/patch/peripheral.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 9e30c7b..79278b4 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -664,6 +664,7 @@ pub(crate) trait RegisterBlockExt: Name {
     ) -> PatchResult {
         let mut clusters_to_expand_with_info = Vec::new();
         let mut clusters_to_delete = Vec::new();
+        let mut expanded = Vec::new();
 
         let (_, ignore) = cspec.spec();
 
@@ -727,7 +728,7 @@ pub(crate) trait RegisterBlockExt: Name {
                             reg.address_offset(),
                             reg.name(),
                         );
-                        regs.push(reg.clone())
+                        expanded.push(reg.clone())
                     }
                 }
                 if !found {
@@ -736,13 +737,15 @@ pub(crate) trait RegisterBlockExt: Name {
                     clusters_to_delete.push(ctag.name);
                 }
             }
+            // Only what was expanded goes away, not everything that matches
+            regs.retain(|rc| {
+                !matches!(rc, RegisterCluster::Cluster(Cluster::Array(c, _)) if clusters_to_delete.contains(&c.name))
+            });
+            regs.extend(expanded);
         } else {
             return Err(anyhow!("No registers or clusters"));
         };
 
-        self.delete_cluster(cspec)
-            .with_context(|| format!("Deleting clusters matched to `{cspec}`"))?;
-
         Ok(())
     }
 
-- 
2.43.0


From fb31f1a028fc739c61ba706dc218674b6c616de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 06/64] fix: replace %s when a cluster without dimIndex is
 expanded

`%s` was looked for as `[%s]`, so `NAME%s` clusters without dimIndex, or with
one element, kept a literal `%s` in the names of their registers.
---
 src/patch/peripheral.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 79278b4..02acc36 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -765,7 +765,7 @@ pub(crate) trait RegisterBlockExt: Name {
         let post_index_delim = post_index_delim.unwrap_or("_").to_string();
 
         let has_bracket_delim = ctag.name.find(r#"[%s]"#);
-        let has_nobracket_delim = ctag.name.find(r#"[%s]"#);
+        let has_nobracket_delim = ctag.name.find(r#"%s"#);
         let prefix = if dim.dim > 1 || matches!(zeroindex, Some(true)) {
             if let Some(true) = noprefix {
                 return Err(anyhow!(
@@ -828,7 +828,17 @@ pub(crate) trait RegisterBlockExt: Name {
                         post_index_delim
                     )
                 }
-                (None, None, _) => {
+                (None, None, Some(_)) => {
+                    format!(
+                        "{}{}",
+                        &ctag.name.replace(
+                            r#"%s"#,
+                            &format!("{}{}", pre_index_delim, &n_dim.to_string())
+                        ),
+                        post_index_delim
+                    )
+                }
+                (None, None, None) => {
                     format!(
                         "{}{}{}{}",
                         ctag.name, pre_index_delim, n_dim, post_index_delim
-- 
2.43.0


From 87c54994c15cabe35c450e334993cd9f8e7d55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 07/64] fix: report missing fields of `_derivedFrom`
 enumeratedValues

A rule `FIELD: {_derivedFrom: ENUM}` naming no existing field was ignored, and
with "?~" it was ignored even if the field existed.
---
 src/patch/register.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index d33886d..d3a65ca 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -848,6 +848,16 @@ impl RegisterExt for Register {
 
         let reg_access = self.properties.access;
         if let Some(d) = fmod.get_str("_derivedFrom")? {
+            let (fspec, ignore) = fspec.spec();
+            if !self.fields().any(|f| matchname(&f.name, fspec)) {
+                if ignore {
+                    return Ok(());
+                }
+                let present = self.present_fields();
+                return Err(anyhow!(
+                    "Could not find field {rpath}:{fspec}. Present fields: {present}."
+                ));
+            }
             // This is a derived enumeratedValues => Try to find the
             // original definition to extract its <usage>
             let mut derived_enums = self
-- 
2.43.0


From 31b1d177481693db3d28a14aba8d08a70e416fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 08/64] fix: keep the shared access of merged fields

README: fields are merged into one "with the combined bitwidth and lowest bit
offset, and the shared description and access"; the access was dropped, so
merged read-only fields became read-write.
---
 src/patch/register.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index d3a65ca..a7d504b 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -497,11 +497,15 @@ impl RegisterExt for Register {
             let mut pos = usize::MAX;
             let mut first = true;
             let mut desc = None;
+            let mut access = None;
             for (i, f) in fields.iter_mut().enumerate() {
                 if names.contains(&f.name) {
                     if first {
                         desc.clone_from(&f.description);
+                        access = f.access;
                         first = false;
+                    } else if f.access != access {
+                        access = None;
                     }
                     bitwidth += f.bit_range.width;
                     bitoffset = bitoffset.min(f.bit_range.offset);
@@ -514,6 +518,7 @@ impl RegisterExt for Register {
                 FieldInfo::builder()
                     .name(name)
                     .description(desc)
+                    .access(access)
                     .bit_range(BitRange::from_offset_width(bitoffset, bitwidth))
                     .build(VAL_LVL)?
                     .single(),
-- 
2.43.0


From 8c091506454c352b139b3763fd5b50ab3d0a13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 09/64] fix: copy what a derived peripheral inherits

---
 src/patch/device.rs | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 205370e..3947f9e 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -1,6 +1,6 @@
 use anyhow::{anyhow, Context};
 use itertools::Itertools;
-use svd_parser::svd::{Device, Peripheral, PeripheralInfo};
+use svd_parser::svd::{DeriveFrom, Device, Peripheral, PeripheralInfo};
 use yaml_rust::{yaml::Hash, Yaml};
 
 use std::collections::HashSet;
@@ -36,6 +36,9 @@ pub trait DeviceExt {
     /// Returns string of present peripherals
     fn present_peripherals(&self) -> String;
 
+    /// Copy of a peripheral, including what it takes from the ones it is derived from
+    fn underived_peripheral(&self, pname: &str) -> Option<Peripheral>;
+
     /// Check if pname is base or is derived (at any level) from it
     fn is_based_on(&self, pname: &str, base: &str) -> bool;
 
@@ -100,6 +103,21 @@ impl DeviceExt for Device {
         false
     }
 
+    fn underived_peripheral(&self, pname: &str) -> Option<Peripheral> {
+        let mut p = self.get_peripheral(pname)?.clone();
+        let mut base = p.derived_from.take();
+        for _ in &self.peripherals {
+            let Some(b) = base.and_then(|b| self.get_peripheral(&b)) else {
+                break;
+            };
+            let interrupt = std::mem::take(&mut p.interrupt);
+            p = p.derive_from(b);
+            p.interrupt = interrupt;
+            base = b.derived_from.clone();
+        }
+        Some(p)
+    }
+
     fn present_peripherals(&self) -> String {
         self.peripherals.iter().map(|p| p.name.as_str()).join(", ")
     }
@@ -221,22 +239,16 @@ impl DeviceExt for Device {
                 (&f).read_to_string(&mut contents).unwrap();
                 let filedev = svd_parser::parse(&contents)
                     .with_context(|| format!("Parsing file {contents}"))?;
-                filedev
-                    .get_peripheral(pcopyname)
-                    .ok_or_else(|| {
-                        let present = self.present_peripherals();
-                        anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
-                    })?
-                    .clone()
+                filedev.underived_peripheral(pcopyname).ok_or_else(|| {
+                    let present = self.present_peripherals();
+                    anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
+                })?
             }
             [pcopyname] => {
-                let mut new = self
-                    .get_peripheral(pcopyname)
-                    .ok_or_else(|| {
-                        let present = self.present_peripherals();
-                        anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
-                    })?
-                    .clone();
+                let mut new = self.underived_peripheral(pcopyname).ok_or_else(|| {
+                    let present = self.present_peripherals();
+                    anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
+                })?;
                 // When copying from a peripheral in the same file, remove any interrupts.
                 new.interrupt = Vec::new();
                 new
@@ -244,7 +256,6 @@ impl DeviceExt for Device {
             _ => return Err(anyhow!("Incorrect `from` tag")),
         };
         new.name = pname.into();
-        new.derived_from = None;
         if let Some(ptag) = self.get_mut_peripheral(pname) {
             new.base_address = ptag.base_address;
             new.interrupt = std::mem::take(&mut ptag.interrupt);
-- 
2.43.0


From 63a1007bb6f83aa656e904f4e83d939f6fd1ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 10/64] fix: refuse circular includes instead of overflowing
 the stack

---
 src/patch/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index d734be4..f7bc5bc 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -166,6 +166,13 @@ fn abspath(frompath: &Path, relpath: &Path) -> Result<PathBuf, std::io::Error> {
 
 /// Recursively loads any included YAML files.
 pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
+    let root_path = PathBuf::from(parent.get(&"_path".to_yaml()).unwrap().str()?);
+    let root_path = root_path.canonicalize().unwrap_or(root_path);
+    yaml_includes_from(parent, &mut vec![root_path])
+}
+
+/// `loading` is the chain of files being included, to refuse circular includes
+fn yaml_includes_from(parent: &mut Hash, loading: &mut Vec<PathBuf>) -> Result<Vec<PathBuf>> {
     let y_path = "_path".to_yaml();
     let mut included = vec![];
     let self_path = PathBuf::from(parent.get(&y_path).unwrap().str()?);
@@ -177,7 +184,7 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
                 Yaml::Hash(val) if val.contains_key(&"_include".to_yaml()) => {
                     let ypath = self_path.to_str().unwrap().to_yaml();
                     val.insert(y_path.clone(), ypath.clone());
-                    included.extend(yaml_includes(val)?);
+                    included.extend(yaml_includes_from(val, loading)?);
                 }
                 _ => {}
             }
@@ -195,6 +202,11 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         if included.contains(&path) {
             continue;
         }
+        if loading.contains(&path) {
+            return Err(anyhow!(
+                "Circular include of \"{relpath}\" in file {self_path:?}"
+            ));
+        }
         let f = File::open(&path)?;
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
@@ -208,7 +220,9 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         included.push(path.clone());
 
         // Process any top-level includes in child
-        included.extend(yaml_includes(child)?);
+        loading.push(path);
+        included.extend(yaml_includes_from(child, loading)?);
+        loading.pop();
         update_dict(parent, child)?;
     }
     parent.remove(&"_include".to_yaml());
-- 
2.43.0


From 48a50b2cee5fa06fd9482e577eeb31aff7eaef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 11/64] fix: mmap lists own registers and follows chains of
 derived peripherals

---
 src/mmap/mmap_cli.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/mmap/mmap_cli.rs b/src/mmap/mmap_cli.rs
index 0a0eddd..0b0bedc 100644
--- a/src/mmap/mmap_cli.rs
+++ b/src/mmap/mmap_cli.rs
@@ -52,23 +52,28 @@ fn to_text(peripherals: &[Peripheral]) -> String {
     mmap.join("\n")
 }
 
+/// Registers of the peripheral itself or, if it declares none, of the closest ancestor
+/// it is derived from that does.
 fn get_periph_registers<'a>(
     peripheral: &'a PeripheralInfo,
     peripheral_list: &'a [Peripheral],
 ) -> &'a Option<Vec<RegisterCluster>> {
-    match &peripheral.derived_from {
-        None => &peripheral.registers,
-        Some(father) => {
-            let mut registers = &None;
-            for p in peripheral_list {
-                if &p.name == father {
-                    registers = &p.registers;
-                    break;
-                }
-            }
-            registers
+    let mut current = peripheral;
+    // a chain of derivations can't be longer than the list of peripherals
+    for _ in 0..=peripheral_list.len() {
+        if current.registers.is_some() {
+            return &current.registers;
+        }
+        let father = current
+            .derived_from
+            .as_ref()
+            .and_then(|father| peripheral_list.iter().find(|p| &p.name == father));
+        match father {
+            Some(p) => current = p,
+            None => break,
         }
     }
+    &None
 }
 
 fn get_peripheral(peripheral: &PeripheralInfo, mmap: &mut Vec<String>) {
-- 
2.43.0


From 7bd392b6938336bda8fc2820895b1a20f37c5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 12/64] fix: htmlcompare must not mix up files with the same
 stem

---
 src/html/htmlcompare_cli.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/html/htmlcompare_cli.rs b/src/html/htmlcompare_cli.rs
index 1979d7f..1940ddc 100644
--- a/src/html/htmlcompare_cli.rs
+++ b/src/html/htmlcompare_cli.rs
@@ -19,16 +19,8 @@ fn parse(in_path: &Path) -> Result<Part> {
 
     let device =
         svd_parser::parse_with_config(&input, &Config::default().expand(true).ignore_enums(true))?;
-    let name = in_path
-        .file_stem()
-        .unwrap()
-        .to_str()
-        .unwrap()
-        .split('.')
-        .next()
-        .unwrap()
-        .to_string();
-    //dbg!(&name);
+    // identifies the part, so it must differ for different files
+    let name = in_path.display().to_string();
     Ok(Part { name, device })
 }
 
-- 
2.43.0


From 5862774691e4dae1cc08763b04138184ea702387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 13/64] fix: html covers registers of nested clusters

---
 src/html/html_cli.rs | 50 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 970bd79..aaf60cc 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -23,7 +23,7 @@ use svd_parser::expand::{
 };
 use svd_parser::{
     expand::{derive_peripheral, Index},
-    svd::{Access, Cluster, Register, RegisterInfo, WriteConstraint},
+    svd::{Access, Cluster, ClusterInfo, Register, RegisterInfo, WriteConstraint},
 };
 use svd_rs::{EnumeratedValue, EnumeratedValues, ModifiedWriteValues, ReadAction};
 
@@ -142,8 +142,10 @@ impl GetI64 for Object {
 /// with their names updated to include the cluster index and their address
 /// offsets updated to include the cluster address offset.
 /// The returned register nodes are as though they were never in a cluster.
+/// `idxs` are the indexes of the clusters this one is nested in.
 fn parse_cluster(
     ctag: &Cluster,
+    idxs: &str,
     registers: &mut Vec<Object>,
     cpath: &BlockPath,
     index: &Index,
@@ -160,31 +162,45 @@ fn parse_cluster(
     };
     match ctag.as_ref() {
         Cluster::Single(c) => {
-            let mut regs: Vec<Register> = c.registers().cloned().collect();
-            let cluster_addr = c.address_offset;
-            for r in &mut regs {
-                let rpath = cpath.new_register(&r.name);
-                r.name = format!("{} [0]", r.name);
-                r.address_offset += cluster_addr;
-                parse_register_array(r, registers, &rpath, index)?;
-            }
+            let idxs = format!("{idxs} [0]");
+            parse_cluster_children(c, c.address_offset, &idxs, registers, &cpath, index)?;
         }
         Cluster::Array(c, d) => {
             for (i, cluster_idx) in d.indexes().enumerate() {
-                let mut regs: Vec<Register> = c.registers().cloned().collect();
                 let cluster_addr = c.address_offset + (i as u32) * d.dim_increment;
-                for r in &mut regs {
-                    let rpath = cpath.new_register(&r.name);
-                    r.name = format!("{} [{cluster_idx}]", r.name);
-                    r.address_offset += cluster_addr;
-                    parse_register_array(r, registers, &rpath, index)?;
-                }
+                let idxs = format!("{idxs} [{cluster_idx}]");
+                parse_cluster_children(c, cluster_addr, &idxs, registers, &cpath, index)?;
             }
         }
     }
     Ok(())
 }
 
+fn parse_cluster_children(
+    c: &ClusterInfo,
+    cluster_addr: u32,
+    idxs: &str,
+    registers: &mut Vec<Object>,
+    cpath: &BlockPath,
+    index: &Index,
+) -> anyhow::Result<()> {
+    for r in c.registers() {
+        let rpath = cpath.new_register(&r.name);
+        let mut r = r.clone();
+        r.name = format!("{}{idxs}", r.name);
+        r.address_offset += cluster_addr;
+        parse_register_array(&r, registers, &rpath, index)?;
+    }
+    for c in c.clusters() {
+        let cpath = cpath.new_cluster(&c.name);
+        let mut c = c.clone();
+        c.address_offset += cluster_addr;
+        parse_cluster(&c, idxs, registers, &cpath, index)
+            .with_context(|| format!("In cluster {}", c.name))?;
+    }
+    Ok(())
+}
+
 fn parse_register_array(
     rtag: &Register,
     registers: &mut Vec<Object>,
@@ -460,7 +476,7 @@ fn parse_device(svdfile: impl AsRef<Path>) -> anyhow::Result<Object> {
         };
         for ctag in ptag.clusters() {
             let cpath = ppath.new_cluster(&ctag.name);
-            parse_cluster(ctag, &mut registers, &cpath, &index)
+            parse_cluster(ctag, "", &mut registers, &cpath, &index)
                 .with_context(|| format!("In cluster {}", ctag.name))
                 .with_context(|| format!("In peripheral {}", ptag.name))?;
         }
-- 
2.43.0


From 199f3933b649506e660b6b3d7544d3f8eb45ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 14/64] fix: list empty included files as dependencies

---
 src/patch/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f7bc5bc..dc51c82 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -208,6 +208,7 @@ fn yaml_includes_from(parent: &mut Hash, loading: &mut Vec<PathBuf>) -> Result<V
             ));
         }
         let f = File::open(&path)?;
+        included.push(path.clone());
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
         let mut docs = YamlLoader::load_from_str(&contents)?;
@@ -217,7 +218,6 @@ fn yaml_includes_from(parent: &mut Hash, loading: &mut Vec<PathBuf>) -> Result<V
         let child = docs[0].hash_mut()?;
         let ypath = path.to_str().unwrap().to_yaml();
         child.insert(y_path.clone(), ypath.clone());
-        included.push(path.clone());
 
         // Process any top-level includes in child
         loading.push(path);
-- 
2.43.0


From 55bc41d654e6f9e2e2556db99e734eb511a405e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 15/64] fix: merge an included list that repeats the including
 file's rule

---
 src/patch/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index dc51c82..bb64ff4 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -259,13 +259,13 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                         }
                         s if matches!(s, Yaml::String(_)) => match val {
                             Yaml::Array(a) => {
+                                let mut a = a.clone();
                                 if !a.contains(s) {
-                                    let mut a = a.clone();
                                     a.insert(0, s.clone());
-                                    e.insert(Yaml::Array(a));
                                 } else {
                                     println!("In {key:?}: dublicate rule {s:?}, ignored");
                                 }
+                                e.insert(Yaml::Array(a));
                             }
                             s2 if matches!(s2, Yaml::String(_)) => {
                                 println!("In {key:?}: conflicting rules {s:?} and {s2:?}, ignored");
-- 
2.43.0


From ff836929f61926ab9ece9cffd25a044a9dc3b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 16/64] fix: keep messages about merged includes out of the
 expand-patch output

---
 src/patch/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index bb64ff4..3b14341 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -239,7 +239,7 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                 if let Entry::Occupied(mut e) = parent.entry(key.clone()) {
                     match e.get_mut() {
                         el if el == val => {
-                            println!("In {key:?}: dublicate rule {val:?}, ignored");
+                            eprintln!("In {key:?}: dublicate rule {val:?}, ignored");
                         }
                         Yaml::Array(a) => match val {
                             Yaml::Array(val) => {
@@ -249,7 +249,7 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                 if !a.contains(val) {
                                     a.push(val.clone());
                                 } else {
-                                    println!("In {key:?}: dublicate rule {val:?}, ignored");
+                                    eprintln!("In {key:?}: dublicate rule {val:?}, ignored");
                                 }
                             }
                             _ => {}
@@ -263,12 +263,14 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                 if !a.contains(s) {
                                     a.insert(0, s.clone());
                                 } else {
-                                    println!("In {key:?}: dublicate rule {s:?}, ignored");
+                                    eprintln!("In {key:?}: dublicate rule {s:?}, ignored");
                                 }
                                 e.insert(Yaml::Array(a));
                             }
                             s2 if matches!(s2, Yaml::String(_)) => {
-                                println!("In {key:?}: conflicting rules {s:?} and {s2:?}, ignored");
+                                eprintln!(
+                                    "In {key:?}: conflicting rules {s:?} and {s2:?}, ignored"
+                                );
                             }
                             _ => {}
                         },
-- 
2.43.0


From ec35b2a601b79aa4d27fe72c884a31d244c2e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 17/64] fix: keep a device description that lies in the HTML
 directory

---
 src/html/html_cli.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index aaf60cc..2aaae24 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -557,7 +557,11 @@ fn generate_if_newer(
         let svdfile_name = svdfile.file_name().unwrap();
         let mut file = std::fs::File::create(filename)?;
         generate_device_page(template, device, &mut file)?;
-        std::fs::copy(svdfile, htmldir.join(svdfile_name))?;
+        let svdcopy = htmldir.join(svdfile_name);
+        // copying a file onto itself would truncate it
+        if svdcopy.canonicalize().ok() != Some(svdfile.canonicalize()?) {
+            std::fs::copy(svdfile, svdcopy)?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 9a6072b96e4dccbb1555aa6b04a41dc25c1a2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 18/64] fix: find free values of 64 bit wide fields

---
 src/html/html_cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 2aaae24..8cae940 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -610,5 +610,5 @@ fn enums_to_map(evs: &EnumeratedValues) -> BTreeMap<u64, &EnumeratedValue> {
 }
 
 fn minimal_hole(map: &BTreeMap<u64, &EnumeratedValue>, width: u32) -> Option<u64> {
-    (0..(1u64 << width)).find(|&v| !map.contains_key(&v))
+    (0..=u64::MAX >> (u64::BITS - width)).find(|&v| !map.contains_key(&v))
 }
-- 
2.43.0


From 65473f40296f4d0ee540d8a84ae3b0435e394263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 19/64] fix: refuse numbers that do not fit a 32 bit attribute

They were truncated, so that an offset of 0x1_0000_0000 became 0.
---
 src/patch/device.rs   |  4 ++--
 src/patch/mod.rs      | 30 +++++++++++++++---------------
 src/patch/yaml_ext.rs | 14 +++++++++++++-
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 3947f9e..fc5124a 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -167,8 +167,8 @@ impl DeviceExt for Device {
                 "headerDefinitionsPrefix" => {
                     self.header_definitions_prefix = Some(val.str()?.into())
                 }
-                "addressUnitBits" => self.address_unit_bits = val.i64()? as u32,
-                "width" => self.width = val.i64()? as u32,
+                "addressUnitBits" => self.address_unit_bits = val.u32()?,
+                "width" => self.width = val.u32()?,
                 "size" | "access" | "protection" | "resetValue" | "resetMask" => {
                     modify_register_properties(&mut self.default_register_properties, key, val)?;
                 }
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 3b14341..03111c0 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -340,7 +340,7 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
 
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
-        "size" => p.size = Some(val.i64()? as u32),
+        "size" => p.size = Some(val.u32()?),
         "access" => p.access = Access::parse_str(val.str()?),
         "resetValue" => p.reset_value = Some(val.i64()? as u64),
         "resetMask" => p.reset_mask = Some(val.i64()? as u64),
@@ -540,16 +540,16 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
         fnew = fnew.name(name.into());
     }
     // NOTE: support only both `msb` and `lsb` passed together
-    if let (Some(msb), Some(lsb)) = (fadd.get_i64("msb")?, fadd.get_i64("lsb")?) {
-        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb as _, lsb as _));
+    if let (Some(msb), Some(lsb)) = (fadd.get_u32("msb")?, fadd.get_u32("lsb")?) {
+        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb, lsb));
     } else if let Some(bit_range) = fadd.get_str("bitRange")?.and_then(BitRange::from_bit_range) {
         fnew = fnew.bit_range(bit_range);
     } else {
-        if let Some(offset) = fadd.get_i64("bitOffset")? {
-            fnew = fnew.bit_offset(offset as u32)
+        if let Some(offset) = fadd.get_u32("bitOffset")? {
+            fnew = fnew.bit_offset(offset)
         }
-        if let Some(width) = fadd.get_i64("bitWidth")? {
-            fnew = fnew.bit_width(width as u32)
+        if let Some(width) = fadd.get_u32("bitWidth")? {
+            fnew = fnew.bit_width(width)
         }
     }
 
@@ -589,8 +589,8 @@ fn make_register(radd: &Hash, path: Option<&BlockPath>) -> Result<RegisterInfoBu
     if let Some(name) = radd.get_str("name")? {
         rnew = rnew.name(name.into());
     }
-    if let Some(address_offset) = radd.get_i64("addressOffset")? {
-        rnew = rnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = radd.get_u32("addressOffset")? {
+        rnew = rnew.address_offset(address_offset);
     }
 
     Ok(rnew)
@@ -651,8 +651,8 @@ fn make_cluster(cadd: &Hash, path: Option<&BlockPath>) -> Result<ClusterInfoBuil
     if let Some(name) = cadd.get_str("name")? {
         cnew = cnew.name(name.into());
     }
-    if let Some(address_offset) = cadd.get_i64("addressOffset")? {
-        cnew = cnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = cadd.get_u32("addressOffset")? {
+        cnew = cnew.address_offset(address_offset);
     }
     Ok(cnew)
 }
@@ -662,8 +662,8 @@ fn make_interrupt(iadd: &Hash) -> Result<InterruptBuilder> {
     if let Some(name) = iadd.get_string("name")? {
         int = int.name(name)
     }
-    if let Some(value) = iadd.get_i64("value")? {
-        int = int.value(value as u32)
+    if let Some(value) = iadd.get_u32("value")? {
+        int = int.value(value)
     }
     Ok(int)
 }
@@ -765,8 +765,8 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     if let Some(fpu_present) = cmod.get_bool("fpuPresent")? {
         cpu = cpu.fpu_present(fpu_present);
     }
-    if let Some(nvic_priority_bits) = cmod.get_i64("nvicPrioBits")? {
-        cpu = cpu.nvic_priority_bits(nvic_priority_bits as u32);
+    if let Some(nvic_priority_bits) = cmod.get_u32("nvicPrioBits")? {
+        cpu = cpu.nvic_priority_bits(nvic_priority_bits);
     }
     if let Some(has_vendor_systick) = cmod.get_bool("vendorSystickConfig")? {
         cpu = cpu.has_vendor_systick(has_vendor_systick);
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index db193e5..cad7a85 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -14,6 +14,8 @@ pub enum YamlError {
     NotStr(Yaml),
     #[error("Value is not integer: {0:?}")]
     NotInt(Yaml),
+    #[error("Value does not fit in 32 bits: {0:?}")]
+    NotU32(Yaml),
     #[error("Value is not boolean: {0:?}")]
     NotBool(Yaml),
 }
@@ -24,6 +26,7 @@ pub trait AsType {
     fn vec(&self) -> Result<&Vec<Yaml>, YamlError>;
     fn str(&self) -> Result<&str, YamlError>;
     fn i64(&self) -> Result<i64, YamlError>;
+    fn u32(&self) -> Result<u32, YamlError>;
     fn bool(&self) -> Result<bool, YamlError>;
 }
 
@@ -47,6 +50,9 @@ impl AsType for Yaml {
     fn i64(&self) -> Result<i64, YamlError> {
         parse_i64(self).ok_or_else(|| YamlError::NotInt(self.clone()))
     }
+    fn u32(&self) -> Result<u32, YamlError> {
+        u32::try_from(self.i64()?).map_err(|_| YamlError::NotU32(self.clone()))
+    }
     fn bool(&self) -> Result<bool, YamlError> {
         parse_bool(self).ok_or_else(|| YamlError::NotBool(self.clone()))
     }
@@ -175,7 +181,13 @@ where
         self.get_i64(k).map(|v| v.map(|v| v as u64))
     }
     fn get_u32(&self, k: &K) -> Result<Option<u32>> {
-        self.get_i64(k).map(|v| v.map(|v| v as u32))
+        match self.get_yaml(k) {
+            None => Ok(None),
+            Some(v) => v
+                .u32()
+                .with_context(|| format!("Under key `{k:?}`"))
+                .map(Some),
+        }
     }
     fn get_str(&self, k: &K) -> Result<Option<&str>> {
         match self.get_yaml(k) {
-- 
2.43.0


From 4c059d31f98e49d827c51f8985822852b6124e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 20/64] fix: python: width of fields given by lsb and msb

---
 svdtools/mmap.py  | 2 +-
 svdtools/patch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/svdtools/mmap.py b/svdtools/mmap.py
index 1754165..72d1bc6 100644
--- a/svdtools/mmap.py
+++ b/svdtools/mmap.py
@@ -26,7 +26,7 @@ def get_field_offset_width(ftag):
         lsb = int(ftag.findtext("lsb"), 0)
         msb = int(ftag.findtext("msb"), 0)
         offset = lsb
-        fwidth = msb - lsb + 1
+        width = msb - lsb + 1
     return offset, width
 
 
diff --git a/svdtools/patch.py b/svdtools/patch.py
index d961c85..5625cfa 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -253,7 +253,7 @@ def get_field_offset_width(ftag):
         lsb = int(ftag.findtext("lsb"), 0)
         msb = int(ftag.findtext("msb"), 0)
         offset = lsb
-        fwidth = msb - lsb + 1
+        width = msb - lsb + 1
     return offset, width
 
 
-- 
2.43.0


From b6419d49603b8d4f72223170b925235267f96af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 21/64] fix: python: write booleans of the cpu as SVD has them

---
 svdtools/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 5625cfa..3effb4b 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -459,6 +459,8 @@ class Device:
             cpu = ET.SubElement(self.device.getroot(), "cpu")
             cpu.tail = "\n  "
         for key, val in mod.items():
+            if isinstance(val, bool):
+                val = str(val).lower()
             field = cpu.find(key)
             if field is not None:
                 field.text = str(val)
-- 
2.43.0


From d955d32e22951092f44bff514d850db412fc345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 22/64] fix: python: derive a peripheral or register that does
 not exist yet

---
 svdtools/patch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 3effb4b..16936b3 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -566,9 +566,11 @@ class Device:
         if (not ("." in pderive)) and (derived is None):
             raise SvdPatchError(f"peripheral {pderive} not found")
         if ptag is None:
-            ptag = ET.SubElement(parent, "register")
+            ptag = ET.SubElement(parent, "peripheral")
             ET.SubElement(ptag, "name").text = pname
-            ET.SubElement(ptag, "addressOffset").text = hex(base_address)
+            if description:
+                ET.SubElement(ptag, "description").text = description
+            ET.SubElement(ptag, "baseAddress").text = hex(base_address)
         else:
             for value in list(ptag):
                 if value.tag in ("name", "baseAddress", "interrupt", "description"):
@@ -924,6 +926,8 @@ class Peripheral:
         if rtag is None:
             rtag = ET.SubElement(parent, "register")
             ET.SubElement(rtag, "name").text = rname
+            if description:
+                ET.SubElement(rtag, "description").text = description
             ET.SubElement(rtag, "addressOffset").text = hex(address_offset)
         else:
             for value in list(rtag):
-- 
2.43.0


From 127c96372f5ab5623e6b9c2e83077d216c5fe95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 23/64] fix: python: rebase must not leave two descriptions

---
 svdtools/patch.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 16936b3..449bb22 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -641,9 +641,15 @@ class Device:
         for value in new:
             last = value
         last.tail = "\n      "
-        for value in list(old):
-            if value.tag in ("name", "baseAddress", "interrupt"):
-                continue
+        moved = [
+            value
+            for value in old
+            if value.tag not in ("name", "baseAddress", "interrupt")
+        ]
+        for value in list(new):
+            if any(value.tag == other.tag for other in moved):
+                new.remove(value)
+        for value in moved:
             old.remove(value)
             new.append(value)
         for value in old:
-- 
2.43.0


From 32d5955d5ef3dff7e259b935e346ad28f6ac2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 24/64] fix: python: optional rules and several fields with
 read and write actions

---
 svdtools/patch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 449bb22..4d8f217 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1699,6 +1699,7 @@ class Register:
             self.process_field_range(pname, fspec, fmod)
 
     def set_field_read_action(self, fspec, action):
+        fspec, _ = get_spec(fspec)
         for ftag in self.iter_fields(fspec):
             tag = ftag.find("readAction")
             if tag is None:
@@ -1706,13 +1707,14 @@ class Register:
             tag.text = action
 
     def set_field_modified_write_values(self, fspec, mwv):
+        fspec, _ = get_spec(fspec)
         for ftag in self.iter_fields(fspec):
             tag = ftag.find("modifiedWriteValues")
             if tag is None:
                 tag = ET.SubElement(ftag, "modifiedWriteValues")
             elif mwv == "modify":
                 ftag.remove(tag)
-                return
+                continue
             tag.text = mwv
 
     def process_field_enum(self, pname, fspec, field, usage="read-write"):
-- 
2.43.0


From a7cc336369b613a820eb8612c6b6974fcb05ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 25/64] fix: python: replace the enumerated values that overlap

---
 svdtools/patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 4d8f217..50089e7 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1743,7 +1743,7 @@ class Register:
                     enum_name = enum.find("name").text
                     enum_usage = enum.find("usage").text
 
-                for ev in ftag.iter("enumeratedValues"):
+                for ev in list(ftag.iter("enumeratedValues")):
                     if len(ev) > 0:
                         ev_usage_tag = ev.find("usage")
                         ev_usage = (
@@ -1770,7 +1770,7 @@ class Register:
 
                         ev_usage = derived_enums[0].find("usage").text
 
-                    if ev_usage == enum_usage or ev_usage == "read-write":
+                    if ev_usage == enum_usage or "read-write" in (ev_usage, enum_usage):
                         if replace_if_exists:
                             ftag.remove(ev)
                         else:
-- 
2.43.0


From 1648f66352f019c970647d00bc55ac629b0fb401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 26/64] fix: python: replace the write constraint of a field

---
 svdtools/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 50089e7..889b556 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1790,6 +1790,8 @@ class Register:
         fspec, ignore = get_spec(fspec)
         set_any = False
         for ftag in self.iter_fields(fspec):
+            for tag in ftag.findall("writeConstraint"):
+                ftag.remove(tag)
             ftag.append(make_write_constraint(field))
             set_any = True
         if not ignore and not set_any:
-- 
2.43.0


From cae41068658a850508c67d371dc55d24f5bd0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 27/64] fix: python: interrupts with an empty description

---
 svdtools/interrupts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svdtools/interrupts.py b/svdtools/interrupts.py
index 7cfebd1..4a87fd9 100644
--- a/svdtools/interrupts.py
+++ b/svdtools/interrupts.py
@@ -17,7 +17,8 @@ def parse_device(svd_file):
             name = itag.find("name").text
             value = itag.find("value").text
             maybe_desc = itag.find("description")
-            desc = maybe_desc.text.replace("\n", " ") if maybe_desc is not None else ""
+            desc = (maybe_desc.text or "") if maybe_desc is not None else ""
+            desc = desc.replace("\n", " ")
             interrupts[int(value)] = {"name": name, "desc": desc, "pname": pname}
     return dname, interrupts
 
-- 
2.43.0


From 6148469f4503a8c3c1390384d2ecb1b0df10494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 28/64] fix: python: derive an element at address 0

---
 svdtools/patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 889b556..9044213 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -576,7 +576,7 @@ class Device:
                 if value.tag in ("name", "baseAddress", "interrupt", "description"):
                     continue
                 ptag.remove(value)
-            if base_address:
+            if base_address is not None:
                 ptag.find("baseAddress").text = hex(base_address)
             if description:
                 ptag.find("description").text = description
@@ -940,7 +940,7 @@ class Peripheral:
                 if value.tag in ("name", "addressOffset", "description"):
                     continue
                 rtag.remove(value)
-            if address_offset:
+            if address_offset is not None:
                 rtag.find("addressOffset").text = hex(address_offset)
             if description:
                 rtag.find("description").text = description
-- 
2.43.0


From 9f759fe5f66ed525640e4aabf1e3b5525478975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 29/64] fix: python: add address blocks to the new peripheral

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 9044213..f03410a 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -533,7 +533,7 @@ class Device:
                     ET.SubElement(ab, ab_key).text = str(ab_value)
             elif key == "addressBlocks":
                 for ab in value:
-                    ab_el = ET.SubElement(ptag, "addressBlock")
+                    ab_el = ET.SubElement(pnew, "addressBlock")
                     for ab_key, ab_value in ab.items():
                         ET.SubElement(ab_el, ab_key).text = str(ab_value)
             elif key != "derivedFrom":
-- 
2.43.0


From 76dd4f016a395de887e3005d0427b497925cbb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 30/64] fix: python: describe registers that are collected into
 a cluster

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index f03410a..a2783e2 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1202,7 +1202,7 @@ class Peripheral:
                 name = rspec[:li] + rspec[len(rspec) - ri :]
             new_rtag.find("name").text = name
             if "description" in rmod:
-                rtag.find("description").text = rmod["description"]
+                new_rtag.find("description").text = rmod["description"]
             offset = new_rtag.find("addressOffset")
             offset.text = hex(int(offset.text, 0) - addressOffset)
             ctag.append(new_rtag)
-- 
2.43.0


From 4165d4722a1192138aff59bb5000d377116ad91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 31/64] fix: python: give a copied register attributes its
 source does not have

---
 svdtools/patch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index a2783e2..0169692 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -987,7 +987,10 @@ class Peripheral:
                     "Modifying fields in derived register not implemented"
                 )
             else:
-                rcopy.find(key).text = str(value)
+                tag = rcopy.find(key)
+                if tag is None:
+                    tag = ET.SubElement(rcopy, key)
+                tag.text = str(value)
         parent.append(rcopy)
 
     def delete_register(self, rspec):
-- 
2.43.0


From 15517d4c005215b6acdad4b81b96b15eedb64ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 32/64] fix: python: add a register to a peripheral that has
 none

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 0169692..6be380c 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -890,7 +890,7 @@ class Peripheral:
         """Add rname given by radd to ptag."""
         parent = self.ptag.find("registers")
         if parent is None:
-            parent = ET.SubElement(self.rtag, "registers")
+            parent = ET.SubElement(self.ptag, "registers")
         for rtag in self.iter_registers("*"):
             if rtag.find("name").text == rname:
                 raise SvdPatchError(
-- 
2.43.0


From 80dbebfd7e5c98cebf70d1864356d94b32c837ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 33/64] fix: replace enumerated values of further fields only
 on request

---
 src/patch/register.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index a7d504b..133e0b4 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -937,7 +937,9 @@ impl RegisterExt for Register {
                     }
                     let evs = evs.build(VAL_LVL)?;
                     set_enum(ftag, evs, checked_usage, replace_if_exists, access)?;
-                } else if config.enum_derive == EnumAutoDerive::Field {
+                } else if config.enum_derive == EnumAutoDerive::Field
+                    && ftag.enumerated_values.is_empty()
+                {
                     ftag.modify_from(
                         FieldInfo::builder().derived_from(Some(fname.into())),
                         VAL_LVL,
@@ -947,7 +949,7 @@ impl RegisterExt for Register {
                         ftag,
                         make_derived_enumerated_values(&name)?,
                         checked_usage,
-                        true,
+                        replace_if_exists,
                         access,
                     )?;
                 }
-- 
2.43.0


From 818a9068c2486f1149f787b078f1f14e1e5e2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 34/64] fix: respect the usage of derived enumerated values

---
 src/patch/register.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 133e0b4..0ad7903 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 use anyhow::{anyhow, Context};
 use itertools::Itertools;
@@ -784,7 +784,14 @@ impl RegisterExt for Register {
             usage: Usage,
             replace: bool,
             access: Access,
+            usages: &HashMap<String, Usage>,
         ) -> PatchResult {
+            // derived enumeratedValues have the usage of the original ones
+            for v in f.enumerated_values.iter_mut() {
+                if let (None, Some(d)) = (v.usage, v.derived_from.as_ref()) {
+                    v.usage = usages.get(d).copied();
+                }
+            }
             let occupied_error = || {
                 Err(anyhow!(
                     "field {} already has {usage:?} enumeratedValues",
@@ -852,6 +859,11 @@ impl RegisterExt for Register {
         }
 
         let reg_access = self.properties.access;
+        let usages = self
+            .fields()
+            .flat_map(|f| f.enumerated_values.iter())
+            .filter_map(|e| Some((e.name.clone()?, e.usage?)))
+            .collect();
         if let Some(d) = fmod.get_str("_derivedFrom")? {
             let (fspec, ignore) = fspec.spec();
             if !self.fields().any(|f| matchname(&f.name, fspec)) {
@@ -893,7 +905,7 @@ impl RegisterExt for Register {
                 if ftag.name == d {
                     return Err(anyhow!("EnumeratedValues can't be derived from itself"));
                 }
-                set_enum(ftag, evs.clone(), orig_usage, true, access)?;
+                set_enum(ftag, evs.clone(), orig_usage, true, access, &usages)?;
             }
         } else {
             let (fspec, ignore) = fspec.spec();
@@ -936,7 +948,7 @@ impl RegisterExt for Register {
                         evs = evs.name(Some(name.clone()));
                     }
                     let evs = evs.build(VAL_LVL)?;
-                    set_enum(ftag, evs, checked_usage, replace_if_exists, access)?;
+                    set_enum(ftag, evs, checked_usage, replace_if_exists, access, &usages)?;
                 } else if config.enum_derive == EnumAutoDerive::Field
                     && ftag.enumerated_values.is_empty()
                 {
@@ -951,6 +963,7 @@ impl RegisterExt for Register {
                         checked_usage,
                         replace_if_exists,
                         access,
+                        &usages,
                     )?;
                 }
             }
-- 
2.43.0


From 9186a7437a38a642f9d1eacddc5ee51969ea817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 35/64] fix: python: give the device attributes it does not
 have yet

---
 svdtools/patch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 6be380c..6113e00 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -449,8 +449,10 @@ class Device:
 
     def modify_child(self, key, val):
         """Modify key inside device and set it to val."""
-        for child in self.device.findall(key):
-            child.text = str(val)
+        child = self.device.find(key)
+        if child is None:
+            child = ET.SubElement(self.device.getroot(), key)
+        child.text = str(val)
 
     def modify_cpu(self, mod):
         """Modify the `cpu` node inside `device` according to `mod`."""
-- 
2.43.0


From 5f137bf20b3e5daab4cb675737d5fbe71fd2fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 36/64] fix: python: move fields given by lsb and msb or a bit
 range

---
 svdtools/patch.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 6113e00..0bd3701 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1453,6 +1453,17 @@ class Register:
     def modify_field(self, fspec, fmod):
         """Modify fspec inside rtag according to fmod."""
         for ftag in self.iter_fields(fspec):
+            if "bitOffset" in fmod or "bitWidth" in fmod:
+                # Both are to replace any other notation of the position
+                position = dict(
+                    zip(("bitOffset", "bitWidth"), get_field_offset_width(ftag))
+                )
+                for key in ("bitRange", "lsb", "msb"):
+                    for tag in ftag.findall(key):
+                        ftag.remove(tag)
+                for key, value in position.items():
+                    if ftag.find(key) is None:
+                        ET.SubElement(ftag, key).text = str(value)
             for key, value in fmod.items():
                 if key == "_write_constraint":
                     key = "writeConstraint"
-- 
2.43.0


From f38e7aab20bff806c829817d2ecff486b68b06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 37/64] fix: python: refuse enumerated values without values

---
 svdtools/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 0bd3701..1bbf8ea 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -194,6 +194,8 @@ def make_enumerated_values(name, values, usage="read-write"):
             ET.SubElement(el, "isDefault").text = "true"
         else:
             ET.SubElement(el, "value").text = str(value)
+    if ev.find("enumeratedValue") is None:
+        raise ValueError(f"enumeratedValue {name}: no values")
     ev.tail = "\n            "
     return ev
 
-- 
2.43.0


From e9a3c083fae5ea92eb04dc8ba6e7864a135eca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 38/64] fix: python: check the enumerated values of all fields
 of a rule

---
 svdtools/patch.py | 90 ++++++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 44 deletions(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 1bbf8ea..2d1aac2 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1735,6 +1735,27 @@ class Register:
                 continue
             tag.text = mwv
 
+    def get_enum_usage(self, pname, ftag, ev):
+        """Return the usage of enumeratedValues, for derived ones of their original."""
+        if len(ev) == 0:
+            # This is a derived enumeratedValues => Try to find the
+            # original definition to extract its <usage>
+            fname = ftag.find("name").text
+            derived_name = ev.attrib["derivedFrom"]
+            derived_enums = self.rtag.findall(
+                f"./fields/field/enumeratedValues/[name='{derived_name}']"
+            )
+            if derived_enums == []:
+                raise SvdPatchError(
+                    f"{pname}: field {fname} derives enumeratedValues {derived_name} which could not be found"
+                )
+            elif len(derived_enums) != 1:
+                raise SvdPatchError(
+                    f"{pname}: field {fname} derives enumeratedValues {derived_name} which was found multiple times"
+                )
+            ev = derived_enums[0]
+        return ev.findtext("usage", "read-write")
+
     def process_field_enum(self, pname, fspec, field, usage="read-write"):
         """Add an enumeratedValues given by field to all fspec in rtag."""
         replace_if_exists = False
@@ -1744,57 +1765,38 @@ class Register:
 
         fspec, ignore = get_spec(fspec)
 
-        derived, enum, enum_name, enum_usage = None, None, None, None
-        for ftag in sorted_fields(list(self.iter_fields(fspec))):
+        # Usages are needed before the enumeratedValues they come from are replaced
+        fields = [
+            (ftag, [(ev, self.get_enum_usage(pname, ftag, ev)) for ev in evs])
+            for ftag, evs in (
+                (ftag, ftag.findall("enumeratedValues"))
+                for ftag in sorted_fields(list(self.iter_fields(fspec)))
+            )
+        ]
+        derived, enum, enum_name = None, None, None
+        for ftag, evs in fields:
+            fname = ftag.find("name").text
             if "_derivedFrom" in field:
                 derived = field["_derivedFrom"]
-            elif "_name" in field:
-                name = field["_name"]
-            else:
-                name = ftag.find("name").text
+                replace_if_exists = True
 
             if derived is None:
-                if enum is None:
-                    enum = make_enumerated_values(
-                        name.replace("%s", ""), field, usage=usage
-                    )
-                    enum_name = enum.find("name").text
-                    enum_usage = enum.find("usage").text
-
-                for ev in list(ftag.iter("enumeratedValues")):
-                    if len(ev) > 0:
-                        ev_usage_tag = ev.find("usage")
-                        ev_usage = (
-                            ev_usage_tag.text
-                            if ev_usage_tag is not None
-                            else "read-write"
-                        )
+                name = field.get("_name", fname)
+                enum = make_enumerated_values(
+                    name.replace("%s", ""), field, usage=usage
+                )
+                enum_name = enum.find("name").text
+
+            for ev, ev_usage in evs:
+                if ev_usage == usage or "read-write" in (ev_usage, usage):
+                    if replace_if_exists:
+                        ftag.remove(ev)
                     else:
-                        # This is a derived enumeratedValues => Try to find the
-                        # original definition to extract its <usage>
-                        derived_name = ev.attrib["derivedFrom"]
-                        derived_enums = self.rtag.findall(
-                            f"./fields/field/enumeratedValues/[name='{derived_name}']"
+                        raise SvdPatchError(
+                            f"{pname}: field {fname} already has enumeratedValues for {ev_usage}"
                         )
 
-                        if derived_enums == []:
-                            raise SvdPatchError(
-                                f"{pname}: field {name} derives enumeratedValues {derived_name} which could not be found"
-                            )
-                        elif len(derived_enums) != 1:
-                            raise SvdPatchError(
-                                f"{pname}: field {name} derives enumeratedValues {derived_name} which was found multiple times"
-                            )
-
-                        ev_usage = derived_enums[0].find("usage").text
-
-                    if ev_usage == enum_usage or "read-write" in (ev_usage, enum_usage):
-                        if replace_if_exists:
-                            ftag.remove(ev)
-                        else:
-                            raise SvdPatchError(
-                                f"{pname}: field {name} already has enumeratedValues for {ev_usage}"
-                            )
+            if derived is None:
                 ftag.append(enum)
                 derived = enum_name
             else:
-- 
2.43.0


From 5c0abc307a7009728bb9355c3786062406ea8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 39/64] fix: python: list field arrays given by lsb and msb or
 a bit range

---
 svdtools/mmap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svdtools/mmap.py b/svdtools/mmap.py
index 72d1bc6..f3f1b74 100644
--- a/svdtools/mmap.py
+++ b/svdtools/mmap.py
@@ -133,8 +133,12 @@ def expand_dim(node, field=False):
         dim_node.find("name").text = name
         dim_node.find("description").text = description
         if field:
-            offset = get_int(dim_node, "bitOffset") + cnt * inc
-            dim_node.find("bitOffset").text = f"{offset}"
+            offset, width = get_field_offset_width(node)
+            for tag in ("bitOffset", "bitWidth"):
+                if dim_node.find(tag) is None:
+                    ET.SubElement(dim_node, tag)
+            dim_node.find("bitOffset").text = f"{offset + cnt * inc}"
+            dim_node.find("bitWidth").text = f"{width}"
         else:
             addr = get_int(dim_node, "addressOffset") + cnt * inc
             dim_node.find("addressOffset").text = f"0x{addr:08x}"
-- 
2.43.0


From a45bbd6296384b8afd7b33bb4fd703487b007a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 40/64] fix: python: list arrays indexed by a range of letters

---
 svdtools/mmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svdtools/mmap.py b/svdtools/mmap.py
index f3f1b74..fb9aa16 100644
--- a/svdtools/mmap.py
+++ b/svdtools/mmap.py
@@ -122,7 +122,10 @@ def expand_dim(node, field=False):
             idxs = idxs.split(",")
         elif "-" in idxs:
             li, ri = idxs.split("-")
-            idxs = list(range(int(li), int(ri) + 1))
+            if li.isalpha():
+                idxs = [chr(c) for c in range(ord(li), ord(ri) + 1)]
+            else:
+                idxs = list(range(int(li), int(ri) + 1))
         else:
             raise ValueError(f"Unknown dimIndex: '{idxs}'")
     nodes = []
-- 
2.43.0


From 693f715c5e9dbd4d0f1a9eea9afff2c632af73ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 41/64] fix: write the patched device beside the original under
 its whole name

---
 src/patch/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 03111c0..87511a3 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -107,9 +107,9 @@ pub fn process_file(
     let svdpath_out = if let Some(out_path) = out_path {
         out_path.to_owned()
     } else {
-        let mut pth = svdpath.clone();
-        pth.set_extension("svd.patched");
-        pth
+        let mut pth = svdpath.clone().into_os_string();
+        pth.push(".patched");
+        pth.into()
     };
 
     let encoder_config = get_encoder_config(format_config)?;
-- 
2.43.0


From a88dae981c65636743bf1003ece94f1d89143809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 42/64] fix: describe registers collected into a cluster
 without index

---
 src/patch/peripheral.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 02acc36..5285d95 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1878,6 +1878,9 @@ fn collect_in_cluster(
             if let Some(name) = rmod.get_str("name")? {
                 reg.name = name.into();
             }
+            if let Some(desc) = rmod.get_str("description")? {
+                reg.description = Some(desc.into());
+            }
             reg.address_offset -= address_offset;
             children.push(RegisterCluster::Register(reg));
         }
-- 
2.43.0


From 1cbc3712397565b571bb4b4d7e54745056a4e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 43/64] fix: deriving a peripheral from a missing one whose
 name has a dot was accepted

---
 src/patch/device.rs | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index fc5124a..c4776f2 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -365,27 +365,17 @@ impl DeviceExt for Device {
             return Err(anyhow!("derive: incorrect syntax for {pname}"));
         };
 
-        let derived_pos = if !pderive.contains('.') {
-            let Some((i, _)) = self
-                .peripherals
-                .iter()
-                .enumerate()
-                .find(|(_, f)| f.name == pderive)
-            else {
-                let present = self.present_peripherals();
-                return Err(anyhow!(
-                    "peripheral {pderive} not found. Present peripherals: {present}."
-                ));
-            };
-            if self.is_based_on(pderive, pname) {
-                return Err(anyhow!(
-                    "peripheral {pname} can't be derived from itself through {pderive}"
-                ));
-            }
-            Some(i)
-        } else {
-            None
+        let Some(derived_pos) = self.peripherals.iter().position(|f| f.name == pderive) else {
+            let present = self.present_peripherals();
+            return Err(anyhow!(
+                "peripheral {pderive} not found. Present peripherals: {present}."
+            ));
         };
+        if self.is_based_on(pderive, pname) {
+            return Err(anyhow!(
+                "peripheral {pname} can't be derived from itself through {pderive}"
+            ));
+        }
 
         let mut min_pos = self.peripherals.len();
         match self
@@ -412,11 +402,9 @@ impl DeviceExt for Device {
                 p.derived_from = Some(pderive.into());
             }
         }
-        if let Some(derived_pos) = derived_pos {
-            if derived_pos > min_pos {
-                let p = self.peripherals.remove(derived_pos);
-                self.peripherals.insert(min_pos, p);
-            }
+        if derived_pos > min_pos {
+            let p = self.peripherals.remove(derived_pos);
+            self.peripherals.insert(min_pos, p);
         }
         Ok(())
     }
-- 
2.43.0


From 8c18bbc309b8a0906fd3014fd497cc198c169dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 44/64] fix: deriving a field from a missing field or from
 itself was accepted

---
 src/patch/register.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 0ad7903..df1cdb6 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -4,8 +4,9 @@ use anyhow::{anyhow, Context};
 use itertools::Itertools;
 use svd_parser::expand::{BlockPath, RegisterPath};
 use svd_parser::svd::{
-    Access, BitRange, DimElement, EnumeratedValues, Field, FieldInfo, ModifiedWriteValues,
-    ReadAction, Register, RegisterInfo, Usage, WriteConstraint, WriteConstraintRange,
+    array::names, Access, BitRange, DimElement, EnumeratedValues, Field, FieldInfo,
+    ModifiedWriteValues, ReadAction, Register, RegisterInfo, Usage, WriteConstraint,
+    WriteConstraintRange,
 };
 use yaml_rust::{yaml::Hash, Yaml};
 
@@ -406,8 +407,9 @@ impl RegisterExt for Register {
             }
         }
         let (fspec, ignore) = fspec.spec();
-        let (dim, info) = if let Some(dpath) = fderive.as_str() {
+        let (dpath, dim, info) = if let Some(dpath) = fderive.as_str() {
             (
+                dpath,
                 None,
                 FieldInfo::builder().derived_from(Some(make_path(dpath, rpath))),
             )
@@ -416,12 +418,42 @@ impl RegisterExt for Register {
                 anyhow!("derive: source field not given, please add a _from field to {fspec}")
             })?;
             (
+                dpath,
                 make_dim_element(hash)?,
                 make_field(hash, Some(rpath))?.derived_from(Some(make_path(dpath, rpath))),
             )
         } else {
             return Err(anyhow!("derive: incorrect syntax for {fspec}"));
         };
+
+        // Fields of other registers (`.` in path) can't be verified here
+        if !dpath.contains('.') {
+            let find = |name: &str| {
+                self.fields().find(|f| match f {
+                    Field::Single(f) => f.name == name,
+                    Field::Array(f, d) => f.name == name || names(f, d).any(|n| n == name),
+                })
+            };
+            if find(dpath).is_none() {
+                let present = self.present_fields();
+                return Err(anyhow!(
+                    "Could not find `{rpath}:{dpath}. Present fields: {present}.`"
+                ));
+            }
+
+            // The source and fields it is derived from can't be derived from it
+            let mut base = find(dpath);
+            for _ in 0..=self.fields().count() {
+                let Some(f) = base else { break };
+                if matchname(&f.name, fspec) {
+                    return Err(anyhow!(
+                        "field {} can't be derived from itself through {dpath}",
+                        f.name
+                    ));
+                }
+                base = f.derived_from.as_deref().and_then(find);
+            }
+        }
         let ftags = self.iter_fields(fspec).collect::<Vec<_>>();
         if !ftags.is_empty() {
             for ftag in ftags {
-- 
2.43.0


From d58c7a78d69cadd614f59d38c6ec09a7283a9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 45/64] fix: registers derived from a newly derived one in a
 cluster got a path that leads nowhere

---
 src/patch/peripheral.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 5285d95..c7ebef4 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -365,7 +365,7 @@ pub(crate) trait RegisterBlockExt: Name {
                 .regs_mut()
                 .filter(|r| r.derived_from.as_deref() == Some(&rname))
             {
-                r.derived_from = Some(rderive.into());
+                r.derived_from = Some(make_path(rderive, bpath));
             }
         }
         Ok(())
-- 
2.43.0


From 6dbf9c548f7d7e2472d975ee4a63cb7bf596bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 46/64] fix: collecting into an array lost names that differ
 outside of the index

The name of the array was made from the start of the first specification of
a list and the end of the last one, so 'A?,B?' renamed registers or fields
that it did not describe.
---
 src/patch/mod.rs        | 27 +++++++++++++++++++++++++++
 src/patch/peripheral.rs | 25 ++++++++++++-------------
 src/patch/register.rs   | 20 ++++++++------------
 3 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 87511a3..ca7b0e4 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -807,6 +807,33 @@ fn spec_ind(spec: &str) -> Option<(usize, usize)> {
     Some((li, ri))
 }
 
+/// Name of the array collected from elements with `names` and indexes of the elements in it,
+/// where `li` and `ri` are token indices in the specification which matched the elements.
+/// Returns `None` if elements have no common name and `name` is not given
+fn array_name(
+    names: &[&str],
+    (li, ri): (usize, usize),
+    name: Option<&str>,
+) -> Option<(String, Vec<String>)> {
+    let parts = names
+        .iter()
+        .map(|n| {
+            let right = n.len().checked_sub(ri)?;
+            Some((n.get(..li)?, n.get(li..right)?, n.get(right..)?))
+        })
+        .collect::<Option<Vec<_>>>()?;
+    let (prefix, _, suffix) = parts.first()?;
+    let array_name = if let Some(name) = name {
+        name.into()
+    } else if parts.iter().all(|(p, _, s)| p == prefix && s == suffix) {
+        format!("{prefix}%s{suffix}")
+    } else {
+        return None;
+    };
+    let indexes = parts.iter().map(|(_, index, _)| index.to_string());
+    Some((array_name, indexes.collect()))
+}
+
 fn check_offsets(offsets: &[u32], dim_increment: u32) -> bool {
     let mut it = offsets.windows(2);
     while let Some(&[o1, o2]) = it.next() {
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index c7ebef4..9e399af 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -12,9 +12,9 @@ use super::iterators::{MatchIter, Matched};
 use super::register::{RegisterExt, RegisterInfoExt};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
-    adding_pos, check_offsets, common_description, make_dim_element, matchname, matchsubspec,
-    modify_dim_element, spec_ind, strip_matched_end, strip_matched_start, Config, PatchResult,
-    Spec, VAL_LVL,
+    adding_pos, array_name, check_offsets, common_description, make_dim_element, matchname,
+    matchsubspec, modify_dim_element, spec_ind, strip_matched_end, strip_matched_start, Config,
+    PatchResult, Spec, VAL_LVL,
 };
 use super::{make_cluster, make_interrupt, make_register};
 
@@ -1636,19 +1636,22 @@ fn collect_in_array(
         ));
     }
     registers.sort_by_key(|r| r.address_offset);
-    let Some((li, ri)) = spec_ind(rspec) else {
+    let Some(indices) = spec_ind(rspec) else {
         return Err(anyhow!(
             "`{rspec}` contains no tokens or contains more than one token"
         ));
     };
     let dim = registers.len();
+    let names = registers
+        .iter()
+        .map(|r| r.name.as_str())
+        .collect::<Vec<_>>();
+    let (array_name, indexes) = array_name(&names, indices, rmod.get_str("name")?)
+        .ok_or_else(|| anyhow!("{path}: registers cannot be collected into {rspec} array. Different names. Please, specify name"))?;
     let dim_index = if rmod.contains_key(&"_start_from_zero".to_yaml()) {
         (0..dim).map(|v| v.to_string()).collect::<Vec<_>>()
     } else {
-        registers
-            .iter()
-            .map(|r| r.name[li..r.name.len() - ri].to_string())
-            .collect::<Vec<_>>()
+        indexes
     };
     let offsets = registers
         .iter()
@@ -1677,11 +1680,7 @@ fn collect_in_array(
         ));
     }
 
-    registers[0].name = if let Some(name) = rmod.get_str("name")? {
-        name.into()
-    } else {
-        format!("{}%s{}", &rspec[..li], &rspec[rspec.len() - ri..])
-    };
+    registers[0].name = array_name;
 
     if let Some(desc) = rmod.get_str("description")? {
         if desc != "_original" {
diff --git a/src/patch/register.rs b/src/patch/register.rs
index df1cdb6..94f0ff1 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -15,8 +15,8 @@ use crate::patch::EnumAutoDerive;
 use super::iterators::{MatchIter, Matched};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
-    check_offsets, common_description, make_dim_element, matchname, modify_dim_element, spec_ind,
-    strip_matched_end, strip_matched_start, Config, PatchResult, Spec, VAL_LVL,
+    array_name, check_offsets, common_description, make_dim_element, matchname, modify_dim_element,
+    spec_ind, strip_matched_end, strip_matched_start, Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{make_derived_enumerated_values, make_ev_array, make_ev_name, make_field};
 
@@ -591,19 +591,19 @@ impl RegisterExt for Register {
                 ));
             }
             fields.sort_by_key(|f| f.bit_range.offset);
-            let Some((li, ri)) = spec_ind(fspec) else {
+            let Some(indices) = spec_ind(fspec) else {
                 return Err(anyhow!(
                     "`{fspec}` contains no tokens or contains more than one token"
                 ));
             };
             let dim = fields.len();
+            let names = fields.iter().map(|f| f.name.as_str()).collect::<Vec<_>>();
+            let (array_name, indexes) = array_name(&names, indices, fmod.get_str("name")?)
+                .ok_or_else(|| anyhow!("{rpath}: fields cannot be collected into {fspec} array. Different names. Please, specify name"))?;
             let dim_index = if fmod.contains_key(&"_start_from_zero".to_yaml()) {
                 (0..dim).map(|v| v.to_string()).collect::<Vec<_>>()
             } else {
-                fields
-                    .iter()
-                    .map(|f| f.name[li..f.name.len() - ri].to_string())
-                    .collect::<Vec<_>>()
+                indexes
             };
             let offsets = fields
                 .iter()
@@ -615,11 +615,7 @@ impl RegisterExt for Register {
                     "{rpath}: fields cannot be collected into {fspec} array. Different bitOffset increments"
                 ));
             }
-            fields[0].name = if let Some(name) = fmod.get_str("name")? {
-                name.into()
-            } else {
-                format!("{}%s{}", &fspec[..li], &fspec[fspec.len() - ri..])
-            };
+            fields[0].name = array_name;
             if let Some(desc) = fmod.get_str("description")? {
                 if desc != "_original" {
                     fields[0].description = Some(desc.into());
-- 
2.43.0


From cd1a6d7f1137bba848b2acc22cd628c159ad7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 47/64] fix: default name of a register in a cluster mixed
 parts of a list of specifications

---
 src/patch/peripheral.rs | 3 ++-
 svdtools/patch.py       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 9e399af..625fbe8 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1894,7 +1894,8 @@ fn collect_in_cluster(
             reg.name = if let Some(name) = rmod.get_str("name")? {
                 name.into()
             } else {
-                let Some((li, ri)) = spec_ind(&rspec) else {
+                let rspec = rspec.split(',').next().unwrap_or(&rspec);
+                let Some((li, ri)) = spec_ind(rspec) else {
                     return Err(anyhow!(
                         "`{rspec}` contains no tokens or contains more than one token"
                     ));
diff --git a/svdtools/patch.py b/svdtools/patch.py
index 2d1aac2..5ba6cfc 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1205,6 +1205,7 @@ class Peripheral:
             if "name" in rmod:
                 name = rmod["name"]
             else:
+                rspec = rspec.split(",")[0]
                 li, ri = spec_ind(rspec)
                 name = rspec[:li] + rspec[len(rspec) - ri :]
             new_rtag.find("name").text = name
-- 
2.43.0


From 3f80c016e46db117788654eebcb44edd4e30fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 48/64] fix: copying a register ignored the display name, array
 attributes and offset given for the copy

---
 src/patch/peripheral.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 625fbe8..884f328 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -394,13 +394,15 @@ pub(crate) trait RegisterBlockExt: Name {
                 )
             })?
             .clone();
-        let fixes = make_register(rcopy, Some(bpath))?
-            .name(rname.into())
-            .display_name(Some("".into()));
+        source.display_name = None;
+        let fixes = make_register(rcopy, Some(bpath))?.name(rname.into());
+        modify_dim_element(&mut source, &make_dim_element(rcopy)?)?;
         // Modifying fields in derived register not implemented
         source.modify_from(fixes, VAL_LVL)?;
         if let Some(ptag) = self.regs_mut().find(|r| r.name == rname) {
-            source.address_offset = ptag.address_offset;
+            if !rcopy.contains_key(&"addressOffset".to_yaml()) {
+                source.address_offset = ptag.address_offset;
+            }
             *ptag = source;
         } else {
             self.add_child(RegisterCluster::Register(source))
-- 
2.43.0


From d5f677e8a39dc07b7e2d209ce5a91541bbd39ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 49/64] fix: expanding a cluster lost the register properties
 its children inherit

References between the registers of the cluster also led nowhere (or to
another register) as they did not follow the new names.
---
 src/patch/peripheral.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 884f328..7e5c5fa 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -3,8 +3,8 @@ use itertools::Itertools;
 use svd::Name;
 use svd_parser::expand::BlockPath;
 use svd_parser::svd::{
-    self, Cluster, ClusterInfo, DimElement, Interrupt, Peripheral, Register, RegisterCluster,
-    RegisterInfo,
+    self, Cluster, ClusterInfo, DeriveFrom, DimElement, Interrupt, Peripheral, Register,
+    RegisterCluster, RegisterInfo,
 };
 use yaml_rust::{yaml::Hash, Yaml};
 
@@ -691,6 +691,12 @@ pub(crate) trait RegisterBlockExt: Name {
             for (ctag, dim, cluster_registers) in clusters_to_expand_with_info.clone() {
                 let mut found = false;
                 let cluster_offset = ctag.address_offset;
+                // Children keep what they inherit from the cluster and refer to each other
+                let properties = &ctag.default_register_properties;
+                let names = cluster_registers
+                    .iter()
+                    .map(|rc| rc.name().to_string())
+                    .collect::<Vec<_>>();
                 log::info!(
                     "Expanding {} element cluster {} for peripheral {}",
                     dim.dim,
@@ -715,12 +721,33 @@ pub(crate) trait RegisterBlockExt: Name {
                                 register.address_offset += cluster_offset;
                                 register.address_offset += n_dim * dim.dim_increment;
                                 register.name = format!("{}{}", prefix, register.name);
+                                match register.derived_from.as_mut() {
+                                    Some(source) if names.contains(source) => {
+                                        source.insert_str(0, &prefix)
+                                    }
+                                    Some(_) => {}
+                                    None => {
+                                        register.properties =
+                                            register.properties.derive_from(properties)
+                                    }
+                                }
                                 RegisterCluster::Register(register)
                             }
                             RegisterCluster::Cluster(mut cluster) => {
                                 cluster.address_offset += cluster_offset;
                                 cluster.address_offset += n_dim * dim.dim_increment;
                                 cluster.name = format!("{}{}", prefix, cluster.name);
+                                match cluster.derived_from.as_mut() {
+                                    Some(source) if names.contains(source) => {
+                                        source.insert_str(0, &prefix)
+                                    }
+                                    Some(_) => {}
+                                    None => {
+                                        cluster.default_register_properties = cluster
+                                            .default_register_properties
+                                            .derive_from(properties)
+                                    }
+                                }
                                 RegisterCluster::Cluster(cluster)
                             }
                         };
-- 
2.43.0


From 457d949a8f6673c87a9faef52b2a61e08c0d9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 50/64] fix: removing the write constraint of a register had no
 effect

---
 src/patch/peripheral.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 7e5c5fa..ddddcce 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -957,6 +957,12 @@ fn modify_register(rtags: Vec<&mut Register>, rmod: &Hash, bpath: &BlockPath) ->
         if let Some("") = rmod.get_str("access")? {
             rtag.properties.access = None;
         }
+        let write_constraint = rmod
+            .get_yaml("_write_constraint")
+            .or_else(|| rmod.get_yaml("writeConstraint"));
+        if let Some("none") = write_constraint.and_then(Yaml::as_str) {
+            rtag.write_constraint = None;
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 6d64b21b47338bd4d29396f50e8ccaa4628d096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 51/64] fix: a read action next to _read was ignored

`{_read: {...}, _RC: {}}` applied only one of the two, unlike for writing.
---
 src/patch/register.rs | 1 -
 svdtools/patch.py     | 2 --
 2 files changed, 3 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 94f0ff1..44f8761 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -746,7 +746,6 @@ impl RegisterExt for Register {
                                 if let Some(action) = action {
                                     self.set_field_read_action(fspec, *action);
                                 }
-                                break;
                             }
                         }
                     }
diff --git a/svdtools/patch.py b/svdtools/patch.py
index 5ba6cfc..67331be 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1701,7 +1701,6 @@ class Register:
                                 self.process_field_enum(pname, fspec, mod, usage="read")
                             if action:
                                 self.set_field_read_action(fspec, action)
-                            break
                 if is_write:
                     for key, mwv in zip(write_keys, write_vals):
                         if key in fmod:
@@ -1712,7 +1711,6 @@ class Register:
                                 )
                             if mwv:
                                 self.set_field_modified_write_values(fspec, mwv)
-                            break
 
         elif isinstance(fmod, list) and len(fmod) == 2:
             self.process_field_range(pname, fspec, fmod)
-- 
2.43.0


From 50cb824e5d330cf9393b88c2f3aec1fe2a0d0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 52/64] fix: a rule with only read or write actions for a field
 that is missing was silently lost

---
 src/patch/register.rs | 10 ++++++++++
 svdtools/patch.py     |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 44f8761..632090f 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -730,6 +730,16 @@ impl RegisterExt for Register {
                     self.process_field_enum(fspec, fmod, rpath, None, config)
                         .context("Adding read-write enumeratedValues")?;
                 } else {
+                    let (spec, ignore) = fspec.spec();
+                    if self.iter_fields(spec).next().is_none() {
+                        if ignore {
+                            return Ok(());
+                        }
+                        let present = self.present_fields();
+                        return Err(anyhow!(
+                            "Could not find field {rpath}:{spec}. Present fields: {present}."
+                        ));
+                    }
                     if is_read {
                         for (&key, action) in &READ {
                             if let Some(fmod) = fmod.get_hash(key)? {
diff --git a/svdtools/patch.py b/svdtools/patch.py
index 67331be..704682a 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1693,6 +1693,12 @@ class Register:
             if not is_read and not is_write:
                 self.process_field_enum(pname, fspec, fmod)
             else:
+                spec, ignore = get_spec(fspec)
+                if not list(self.iter_fields(spec)):
+                    if ignore:
+                        return
+                    rname = self.rtag.find("name").text
+                    raise MissingFieldError(f"Could not find {pname}:{rname}.{spec}")
                 if is_read:
                     for key, action in zip(read_keys, read_vals):
                         if key in fmod:
-- 
2.43.0


From 1213847db8cdc842595e549599d84df39764659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 53/64] fix: a range of a field given in an included file and
 in the including one was ignored

---
 src/patch/register.rs | 3 ++-
 svdtools/patch.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 632090f..729233c 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -780,7 +780,8 @@ impl RegisterExt for Register {
                     }
                 }
             }
-            Yaml::Array(fmod) if fmod.len() == 2 => {
+            // A range from an included file may follow the one of the including file
+            Yaml::Array(fmod) if fmod.len() >= 2 => {
                 self.process_field_range(fspec, fmod, rpath)
                     .context("Adding writeConstraint range")?;
             }
diff --git a/svdtools/patch.py b/svdtools/patch.py
index 704682a..8b67728 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1718,7 +1718,8 @@ class Register:
                             if mwv:
                                 self.set_field_modified_write_values(fspec, mwv)
 
-        elif isinstance(fmod, list) and len(fmod) == 2:
+        # A range from an included file may follow the one of the including file
+        elif isinstance(fmod, list) and len(fmod) >= 2:
             self.process_field_range(pname, fspec, fmod)
 
     def set_field_read_action(self, fspec, action):
-- 
2.43.0


From 3727c4c1a20e7070395370fd84723eaf2bad75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 54/64] fix: fields of different width were collected into an
 array of equal ones

---
 src/patch/register.rs | 8 ++++++++
 svdtools/patch.py     | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 729233c..4b47213 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -615,6 +615,14 @@ impl RegisterExt for Register {
                     "{rpath}: fields cannot be collected into {fspec} array. Different bitOffset increments"
                 ));
             }
+            if fields
+                .iter()
+                .any(|f| f.bit_range.width != fields[0].bit_range.width)
+            {
+                return Err(anyhow!(
+                    "{rpath}: fields cannot be collected into {fspec} array. Different bitWidth"
+                ));
+            }
             fields[0].name = array_name;
             if let Some(desc) = fmod.get_str("description")? {
                 if desc != "_original" {
diff --git a/svdtools/patch.py b/svdtools/patch.py
index 8b67728..5ac29bf 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1603,6 +1603,12 @@ class Register:
                     self.rtag.findtext("name"), fspec
                 )
             )
+        if len({get_field_offset_width(f[0])[1] for f in fields}) > 1:
+            raise SvdPatchError(
+                "{}: fields cannot be collected into {} array. Different widths".format(
+                    self.rtag.findtext("name"), fspec
+                )
+            )
         for ftag, _, _ in fields[1:]:
             self.rtag.find("fields").remove(ftag)
         ftag = fields[0][0]
-- 
2.43.0


From e73adccf2969a66bb7beee1ad8359e53434d0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 55/64] fix: python refused a value given in an included file
 and in the including one

---
 svdtools/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 5ac29bf..97c4765 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -182,7 +182,8 @@ def make_enumerated_values(name, values, usage="read-write"):
             raise ValueError(
                 f"enumeratedValue {name}.{vname}: can't start with a number"
             )
-        value, description = values[vname]
+        # those of an included file may follow the ones of the including file
+        value, description = values[vname][:2]
         if not description:
             raise ValueError(
                 f"enumeratedValue {name}: can't have empty description for value {value}"
-- 
2.43.0


From d16818f103f05d74756a06a71cfe2510be49773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 56/64] fix: merging fields without a common prefix made a
 nameless field, on which enumerated values panicked

---
 src/patch/mod.rs      | 10 ++++++++--
 src/patch/register.rs |  5 +++++
 svdtools/patch.py     |  7 ++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index ca7b0e4..6657897 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -359,7 +359,10 @@ fn get_register_properties(h: &Hash) -> Result<RegisterProperties> {
 }
 
 fn make_ev_name(name: &str, usage: Option<Usage>) -> Result<String> {
-    if name.as_bytes()[0].is_ascii_digit() {
+    if name.is_empty() {
+        return Err(anyhow!("enumeratedValues can't have empty name"));
+    }
+    if name.starts_with(|c: char| c.is_ascii_digit()) {
         return Err(anyhow!(
             "enumeratedValue {}: can't start with a number",
             name
@@ -378,7 +381,10 @@ fn make_ev_array(values: &Hash) -> Result<EnumeratedValuesBuilder> {
     for (n, vd) in values {
         let vname = n.str()?;
         if !vname.starts_with('_') {
-            if vname.as_bytes()[0].is_ascii_digit() {
+            if vname.is_empty() {
+                return Err(anyhow!("enumeratedValue can't have empty name"));
+            }
+            if vname.starts_with(|c: char| c.is_ascii_digit()) {
                 return Err(anyhow!(
                     "enumeratedValue {} can't start with a number",
                     vname
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 4b47213..a8807ea 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -523,6 +523,11 @@ impl RegisterExt for Register {
                 "Could not find any fields to merge {rpath}:{key}. Present fields: {present}.`"
             ));
         }
+        if name.is_empty() {
+            return Err(anyhow!(
+                "Fields merged by {rpath}:{key} have no common prefix to name them"
+            ));
+        }
         if let Some(fields) = self.fields.as_mut() {
             let mut bitwidth = 0;
             let mut bitoffset = u32::MAX;
diff --git a/svdtools/patch.py b/svdtools/patch.py
index 97c4765..fc6ab2b 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1554,7 +1554,12 @@ class Register:
         if len(fields) == 0:
             rname = self.rtag.find("name").text
             raise RegisterMergeError(
-                f"Could not find any fields to merge {rname}.{fspec}"
+                f"Could not find any fields to merge {rname}.{key}"
+            )
+        if not name:
+            rname = self.rtag.find("name").text
+            raise RegisterMergeError(
+                f"Fields merged by {rname}.{key} have no common prefix to name them"
             )
         parent = self.rtag.find("fields")
         desc = fields[0].find("description").text
-- 
2.43.0


From 5a6545bcf947b134902835dc14e82496e2a4204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 57/64] fix: attributes given by a rule were ignored

protection (devices, peripherals, clusters, registers, address blocks), dataType,
modifiedWriteValues and readAction of registers, alternateCluster and headerStructName of
clusters, alternatePeripheral, prependToName, appendToName and headerStructName of
peripherals were silently dropped by _modify and _add, which the Python
implementation applies.
---
 src/patch/mod.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 6657897..5132707 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -9,11 +9,11 @@ use std::path::{Path, PathBuf};
 use svd_parser::expand::{BlockPath, FieldPath, RegisterPath};
 use svd_parser::svd::{
     addressblock::AddressBlockBuilder, interrupt::InterruptBuilder, Access, AddressBlock,
-    AddressBlockUsage, ClusterInfo, ClusterInfoBuilder, Cpu, CpuBuilder, Endian, EnumeratedValue,
-    EnumeratedValues, EnumeratedValuesBuilder, FieldInfo, FieldInfoBuilder, Interrupt,
-    ModifiedWriteValues, PeripheralInfo, PeripheralInfoBuilder, ReadAction, RegisterCluster,
-    RegisterInfo, RegisterInfoBuilder, RegisterProperties, Usage, ValidateLevel, WriteConstraint,
-    WriteConstraintRange,
+    AddressBlockUsage, ClusterInfo, ClusterInfoBuilder, Cpu, CpuBuilder, DataType, Endian,
+    EnumeratedValue, EnumeratedValues, EnumeratedValuesBuilder, FieldInfo, FieldInfoBuilder,
+    Interrupt, ModifiedWriteValues, PeripheralInfo, PeripheralInfoBuilder, Protection, ReadAction,
+    RegisterCluster, RegisterInfo, RegisterInfoBuilder, RegisterProperties, Usage, ValidateLevel,
+    WriteConstraint, WriteConstraintRange,
 };
 use svd_parser::SVDError::DimIndexParse;
 use svd_rs::{BitRange, DimArrayIndex, DimElement, DimElementBuilder, MaybeArray};
@@ -344,7 +344,7 @@ fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -
         "access" => p.access = Access::parse_str(val.str()?),
         "resetValue" => p.reset_value = Some(val.i64()? as u64),
         "resetMask" => p.reset_mask = Some(val.i64()? as u64),
-        "protection" => {}
+        "protection" => p.protection = Protection::parse_str(val.str()?),
         _ => {}
     }
     Ok(())
@@ -354,6 +354,7 @@ fn get_register_properties(h: &Hash) -> Result<RegisterProperties> {
     Ok(RegisterProperties::new()
         .size(h.get_u32("size")?)
         .access(h.get_str("access")?.and_then(Access::parse_str))
+        .protection(h.get_str("protection")?.and_then(Protection::parse_str))
         .reset_value(h.get_u64("resetValue")?)
         .reset_mask(h.get_u64("resetMask")?))
 }
@@ -438,7 +439,8 @@ fn make_address_blocks(value: &[Yaml]) -> Result<Vec<AddressBlock>> {
     Ok(blocks)
 }
 fn make_address_block(h: &Hash) -> Result<AddressBlockBuilder> {
-    let mut ab = AddressBlock::builder();
+    let mut ab = AddressBlock::builder()
+        .protection(h.get_str("protection")?.and_then(Protection::parse_str));
     if let Some(offset) = h.get_u32("offset")? {
         ab = ab.offset(offset)
     }
@@ -570,6 +572,12 @@ fn make_register(radd: &Hash, path: Option<&BlockPath>) -> Result<RegisterInfoBu
         .alternate_group(radd.get_string("alternateGroup")?)
         .alternate_register(radd.get_string("alternateRegister")?)
         .properties(get_register_properties(radd)?)
+        .datatype(radd.get_str("dataType")?.and_then(DataType::parse_str))
+        .modified_write_values(
+            radd.get_str("modifiedWriteValues")?
+                .and_then(ModifiedWriteValues::parse_str),
+        )
+        .read_action(radd.get_str("readAction")?.and_then(ReadAction::parse_str))
         .write_constraint(get_write_constraint(radd)?)
         .fields(match radd.get_hash("fields")? {
             Some(h) => {
@@ -634,6 +642,8 @@ fn make_cluster(cadd: &Hash, path: Option<&BlockPath>) -> Result<ClusterInfoBuil
     let mut cnew = ClusterInfo::builder()
         .description(opt_interpolate(&path, cadd.get_str("description")?))
         .derived_from(opt_interpolate(&path, cadd.get_str("derivedFrom")?))
+        .alternate_cluster(cadd.get_string("alternateCluster")?)
+        .header_struct_name(cadd.get_string("headerStructName")?)
         .default_register_properties(get_register_properties(cadd)?);
 
     if let Some(h) = cadd.get_hash("registers")? {
@@ -680,7 +690,11 @@ fn make_peripheral(padd: &Hash, modify: bool) -> Result<PeripheralInfoBuilder> {
         .version(padd.get_string("version")?)
         .description(padd.get_string("description")?)
         .derived_from(padd.get_string("derivedFrom")?)
+        .alternate_peripheral(padd.get_string("alternatePeripheral")?)
         .group_name(padd.get_string("groupName")?)
+        .prepend_to_name(padd.get_string("prependToName")?)
+        .append_to_name(padd.get_string("appendToName")?)
+        .header_struct_name(padd.get_string("headerStructName")?)
         .interrupt(if !modify {
             match padd.get_hash("interrupts")? {
                 Some(h) => {
-- 
2.43.0


From 973bc0c4577e5a3e3a4fba37454b5ed525b5b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 58/64] fix: an added peripheral with derivedFrom lost its
 other attributes

_add of a derived peripheral dropped the given register properties, address blocks and
registers.
---
 src/patch/mod.rs | 64 +++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 34 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 5132707..37d1a4d 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -720,43 +720,39 @@ fn make_peripheral(padd: &Hash, modify: bool) -> Result<PeripheralInfoBuilder> {
         pnew = pnew.base_address(base_address as u64);
     }
 
-    if let Some(derived) = padd.get_str("derivedFrom")? {
-        Ok(pnew.derived_from(Some(derived.into())))
-    } else {
-        Ok(pnew
-            .default_register_properties(get_register_properties(padd)?)
-            .address_block(if !modify {
-                if let Some(h) = padd.get_hash("addressBlock").ok().flatten() {
-                    Some(vec![make_address_block(h)?.build(VAL_LVL)?])
-                } else if let Some(h) = padd.get_vec("addressBlocks").ok().flatten() {
-                    Some(make_address_blocks(h)?)
-                } else {
-                    None
-                }
+    Ok(pnew
+        .default_register_properties(get_register_properties(padd)?)
+        .address_block(if !modify {
+            if let Some(h) = padd.get_hash("addressBlock").ok().flatten() {
+                Some(vec![make_address_block(h)?.build(VAL_LVL)?])
+            } else if let Some(h) = padd.get_vec("addressBlocks").ok().flatten() {
+                Some(make_address_blocks(h)?)
             } else {
                 None
-            })
-            .registers(match padd.get_hash("registers")? {
-                Some(h) => {
-                    let mut regs = Vec::new();
-                    for (rname, val) in h.iter() {
-                        regs.push(RegisterCluster::Register({
-                            let radd = val.hash()?;
-                            let reg = make_register(radd, None)?
-                                .name(rname.str()?.into())
-                                .build(VAL_LVL)?;
-                            if let Some(dim) = make_dim_element(radd)? {
-                                reg.array(dim.build(VAL_LVL)?)
-                            } else {
-                                reg.single()
-                            }
-                        }));
-                    }
-                    Some(regs)
+            }
+        } else {
+            None
+        })
+        .registers(match padd.get_hash("registers")? {
+            Some(h) => {
+                let mut regs = Vec::new();
+                for (rname, val) in h.iter() {
+                    regs.push(RegisterCluster::Register({
+                        let radd = val.hash()?;
+                        let reg = make_register(radd, None)?
+                            .name(rname.str()?.into())
+                            .build(VAL_LVL)?;
+                        if let Some(dim) = make_dim_element(radd)? {
+                            reg.array(dim.build(VAL_LVL)?)
+                        } else {
+                            reg.single()
+                        }
+                    }));
                 }
-                _ => None,
-            }))
-    }
+                Some(regs)
+            }
+            _ => None,
+        }))
 }
 
 fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
-- 
2.43.0


From c045152a1111af946c2039fb26ce98b417edd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 59/64] fix: an empty alternative in braces matched nothing

A{,B} selected AB but not A, unlike with braceexpand in the Python implementation.
---
 src/patch/mod.rs        | 9 +++++++++
 src/patch/peripheral.rs | 8 ++++----
 src/patch/register.rs   | 7 ++++---
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 37d1a4d..c1839eb 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -294,11 +294,20 @@ fn matchname(name: &str, spec: &str) -> bool {
 fn newglob(spec: &str) -> globset::GlobMatcher {
     globset::GlobBuilder::new(spec)
         .backslash_escape(true)
+        .empty_alternates(true)
         .build()
         .unwrap()
         .compile_matcher()
 }
 
+/// Like `newglob` for a beginning or an ending to strip
+fn strip_glob(spec: &str) -> Result<globset::GlobMatcher, globset::Error> {
+    Ok(globset::GlobBuilder::new(spec)
+        .empty_alternates(true)
+        .build()?
+        .compile_matcher())
+}
+
 /// Delete the shortest beginning of name that matches
 fn strip_matched_start(name: &mut String, glob: &globset::GlobMatcher) {
     if let Some(pos) = (0..=name.len())
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index ddddcce..61a3f54 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -13,8 +13,8 @@ use super::register::{RegisterExt, RegisterInfoExt};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     adding_pos, array_name, check_offsets, common_description, make_dim_element, matchname,
-    matchsubspec, modify_dim_element, spec_ind, strip_matched_end, strip_matched_start, Config,
-    PatchResult, Spec, VAL_LVL,
+    matchsubspec, modify_dim_element, spec_ind, strip_glob, strip_matched_end, strip_matched_start,
+    Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{make_cluster, make_interrupt, make_register};
 
@@ -539,7 +539,7 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the beginning of register names inside ptag
     fn strip_start(&mut self, prefix: &str) -> PatchResult {
-        let glob = globset::Glob::new(prefix)?.compile_matcher();
+        let glob = strip_glob(prefix)?;
         for rtag in self.regs_mut() {
             strip_matched_start(&mut rtag.name, &glob);
             if let Some(dname) = rtag.display_name.as_mut() {
@@ -563,7 +563,7 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the ending of register names inside ptag
     fn strip_end(&mut self, suffix: &str) -> PatchResult {
-        let glob = globset::Glob::new(suffix)?.compile_matcher();
+        let glob = strip_glob(suffix)?;
         for rtag in self.regs_mut() {
             strip_matched_end(&mut rtag.name, &glob);
             if let Some(dname) = rtag.display_name.as_mut() {
diff --git a/src/patch/register.rs b/src/patch/register.rs
index a8807ea..305def4 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -16,7 +16,8 @@ use super::iterators::{MatchIter, Matched};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     array_name, check_offsets, common_description, make_dim_element, matchname, modify_dim_element,
-    spec_ind, strip_matched_end, strip_matched_start, Config, PatchResult, Spec, VAL_LVL,
+    spec_ind, strip_glob, strip_matched_end, strip_matched_start, Config, PatchResult, Spec,
+    VAL_LVL,
 };
 use super::{make_derived_enumerated_values, make_ev_array, make_ev_name, make_field};
 
@@ -284,7 +285,7 @@ impl RegisterExt for Register {
     }
 
     fn strip_start(&mut self, substr: &str) -> PatchResult {
-        let glob = globset::Glob::new(substr)?.compile_matcher();
+        let glob = strip_glob(substr)?;
         for ftag in self.fields_mut() {
             strip_matched_start(&mut ftag.name, &glob);
         }
@@ -292,7 +293,7 @@ impl RegisterExt for Register {
     }
 
     fn strip_end(&mut self, substr: &str) -> PatchResult {
-        let glob = globset::Glob::new(substr)?.compile_matcher();
+        let glob = strip_glob(substr)?;
         for ftag in self.fields_mut() {
             strip_matched_end(&mut ftag.name, &glob);
         }
-- 
2.43.0


From 3386a0d76a442fd3125b47a925e256d762231005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 60/64] fix: _derive dropped attributes given for an existing
 element

Becoming derived resets what is inherited; the attributes the rule gives
(size, access, reset value, fields, constraints, ...) were reset with it,
while a new element kept them.
---
 src/patch/device.rs     | 4 +++-
 src/patch/peripheral.rs | 2 ++
 src/patch/register.rs   | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index c4776f2..f76aae5 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -386,7 +386,9 @@ impl DeviceExt for Device {
         {
             Some((i, peripheral)) => {
                 min_pos = i;
-                peripheral.modify_from(info, VAL_LVL)?;
+                // becoming derived drops what is inherited, but not what the rule gives
+                peripheral.modify_from(info.clone(), VAL_LVL)?;
+                peripheral.modify_from(info.derived_from(None), VAL_LVL)?;
             }
             None => {
                 let peripheral = info.name(pname.into()).build(VAL_LVL)?.single();
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 61a3f54..ec6925e 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -348,6 +348,8 @@ pub(crate) trait RegisterBlockExt: Name {
                 found.push(rtag.name.to_string());
                 modify_dim_element(rtag, &dim)?;
                 rtag.modify_from(info.clone(), VAL_LVL)?;
+                // becoming derived drops what is inherited, but not what the rule gives
+                rtag.modify_from(info.clone().derived_from(None), VAL_LVL)?;
             }
         } else if !ignore {
             super::check_dimable_name(rspec)?;
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 305def4..06b5b80 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -460,6 +460,8 @@ impl RegisterExt for Register {
             for ftag in ftags {
                 modify_dim_element(ftag, &dim)?;
                 ftag.modify_from(info.clone(), VAL_LVL)?;
+                // becoming derived drops what is inherited, but not what the rule gives
+                ftag.modify_from(info.clone().derived_from(None), VAL_LVL)?;
             }
         } else if !ignore {
             super::check_dimable_name(fspec)?;
-- 
2.43.0


From fd6140e9a4470b79e6f75aa6d155ea199121afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 61/64] fix: attributes given along with derivedFrom were
 dropped

by _modify of any element and by _copy of a register
---
 src/patch/device.rs     | 2 ++
 src/patch/peripheral.rs | 8 +++++++-
 src/patch/register.rs   | 4 +++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index f76aae5..3e3dee0 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -287,6 +287,8 @@ impl DeviceExt for Device {
 
                 modify_dim_element(ptag, &dim)?;
                 ptag.modify_from(peripheral_builder.clone(), VAL_LVL)?;
+                // becoming derived drops what is inherited, but not what the rule gives
+                ptag.modify_from(peripheral_builder.clone().derived_from(None), VAL_LVL)?;
                 if let Some(ints) = pmod.get_hash("interrupts")? {
                     for (iname, val) in ints {
                         let iname = iname.str()?;
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index ec6925e..a9e7682 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -400,7 +400,9 @@ pub(crate) trait RegisterBlockExt: Name {
         let fixes = make_register(rcopy, Some(bpath))?.name(rname.into());
         modify_dim_element(&mut source, &make_dim_element(rcopy)?)?;
         // Modifying fields in derived register not implemented
-        source.modify_from(fixes, VAL_LVL)?;
+        source.modify_from(fixes.clone(), VAL_LVL)?;
+        // becoming derived drops what is inherited, but not what the rule gives
+        source.modify_from(fixes.derived_from(None), VAL_LVL)?;
         if let Some(ptag) = self.regs_mut().find(|r| r.name == rname) {
             if !rcopy.contains_key(&"addressOffset".to_yaml()) {
                 source.address_offset = ptag.address_offset;
@@ -956,6 +958,8 @@ fn modify_register(rtags: Vec<&mut Register>, rmod: &Hash, bpath: &BlockPath) ->
     for rtag in rtags {
         modify_dim_element(rtag, &dim)?;
         rtag.modify_from(register_builder.clone(), VAL_LVL)?;
+        // becoming derived drops what is inherited, but not what the rule gives
+        rtag.modify_from(register_builder.clone().derived_from(None), VAL_LVL)?;
         if let Some("") = rmod.get_str("access")? {
             rtag.properties.access = None;
         }
@@ -975,6 +979,8 @@ fn modify_cluster(ctags: Vec<&mut Cluster>, cmod: &Hash, bpath: &BlockPath) -> P
     for ctag in ctags {
         modify_dim_element(ctag, &dim)?;
         ctag.modify_from(cluster_builder.clone(), VAL_LVL)?;
+        // becoming derived drops what is inherited, but not what the rule gives
+        ctag.modify_from(cluster_builder.clone().derived_from(None), VAL_LVL)?;
     }
     Ok(())
 }
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 06b5b80..9ab5203 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -329,6 +329,8 @@ impl RegisterExt for Register {
         } else {
             for ftag in ftags {
                 modify_dim_element(ftag, &dim)?;
+                // becoming derived drops what is inherited, but not what the rule gives
+                ftag.modify_from(field_builder.clone(), VAL_LVL)?;
                 if let Some(value) = fmod
                     .get_yaml("_write_constraint")
                     .or_else(|| fmod.get_yaml("writeConstraint"))
@@ -354,7 +356,7 @@ impl RegisterExt for Register {
                     ftag.write_constraint = wc;
                 }
                 // For all other tags, just set the value
-                ftag.modify_from(field_builder.clone(), VAL_LVL)?;
+                ftag.modify_from(field_builder.clone().derived_from(None), VAL_LVL)?;
                 if let Some("") = fmod.get_str("access")? {
                     ftag.access = None;
                 }
-- 
2.43.0


From dde10a30aa3a20d7f3214bdf024d46879f04ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:43 +0000
Subject: [PATCH 62/64] fix: check the offsets of every group of registers
 collected in a cluster (Python)

---
 svdtools/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index fc6ab2b..32706e3 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1152,10 +1152,10 @@ class Peripheral:
             registers = sorted(registers, key=lambda r: r[2])
             rdict[rspec] = (rmod, registers)
             bitmasks = [Register(r[0]).get_bitmask() for r in registers]
+            offsets = [r[2] for r in registers]
             if first:
                 dim = len(registers)
                 dimIndex = ",".join([r[1] for r in registers])
-                offsets = [r[2] for r in registers]
                 dimIncrement = 0
                 if dim > 1:
                     dimIncrement = offsets[1] - offsets[0]
-- 
2.43.0


From 80b3079d52935697b265ade4015576f4bd87bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 63/64] fix: refuse to derive a peripheral or register from
 itself (Python)

---
 svdtools/patch.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/svdtools/patch.py b/svdtools/patch.py
index 32706e3..7f4e938 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -260,6 +260,18 @@ def get_field_offset_width(ftag):
     return offset, width
 
 
+def is_based_on(parent, tag, name, base):
+    """Check if element name is base or derived from it, directly or not."""
+    seen = set()
+    while name is not None and name not in seen:
+        if name == base:
+            return True
+        seen.add(name)
+        element = parent.find(f"./{tag}[name='{name}']")
+        name = None if element is None else element.get("derivedFrom")
+    return False
+
+
 def sort_element(tag):
     """
     The SVD schema requires that all child elements appear in a defined order
@@ -570,6 +582,8 @@ class Device:
         derived = parent.find(f"./peripheral[name='{pderive}']")
         if (not ("." in pderive)) and (derived is None):
             raise SvdPatchError(f"peripheral {pderive} not found")
+        if is_based_on(parent, "peripheral", pderive, pname):
+            raise SvdPatchError(f"peripheral {pname} can't be derived from itself")
         if ptag is None:
             ptag = ET.SubElement(parent, "peripheral")
             ET.SubElement(ptag, "name").text = pname
@@ -934,6 +948,8 @@ class Peripheral:
         derived = parent.find(f"./register[name='{rderive}']")
         if derived is None:
             raise SvdPatchError(f"register {rderive} not found")
+        if is_based_on(parent, "register", rderive, rname):
+            raise SvdPatchError(f"register {rname} can't be derived from itself")
         if rtag is None:
             rtag = ET.SubElement(parent, "register")
             ET.SubElement(rtag, "name").text = rname
-- 
2.43.0


From 17bc12dcbac2d1036c178b0786d8f9d43580de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 64/64] fix: refuse enumerated values derived from those they
 replace

---
 src/patch/register.rs | 6 +++++-
 svdtools/patch.py     | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 9ab5203..c9c1036 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -958,7 +958,11 @@ impl RegisterExt for Register {
                         "enumeratedValues with different usage was found: {usage:?} != {orig_usage:?}"
                     ));
                 }
-                if ftag.name == d {
+                if ftag
+                    .enumerated_values
+                    .iter()
+                    .any(|e| e.name.as_deref() == Some(d))
+                {
                     return Err(anyhow!("EnumeratedValues can't be derived from itself"));
                 }
                 set_enum(ftag, evs.clone(), orig_usage, true, access, &usages)?;
diff --git a/svdtools/patch.py b/svdtools/patch.py
index 7f4e938..4d5e66d 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1813,6 +1813,10 @@ class Register:
             if "_derivedFrom" in field:
                 derived = field["_derivedFrom"]
                 replace_if_exists = True
+                if any(ev.findtext("name") == derived for ev, _ in evs):
+                    raise SvdPatchError(
+                        f"{pname}: enumeratedValues of field {fname} can't be derived from themselves"
+                    )
 
             if derived is None:
                 name = field.get("_name", fname)
-- 
2.43.0

