From 58324638eb839da13207ea434f1bf69b4c7f2aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 01/17] fix: Image::from_parts() recorded the tag or digest
 start after pushing it

tag(), digest(), name(), and later edits used a position past the end of the image.
---
 src/service/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 25588b4..27790b4 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -142,8 +142,9 @@ impl Image {
         inner.push_str(name);
 
         let tag_or_digest_start = tag_or_digest.map(|tag_or_digest| {
+            let start = tag_or_digest.as_start(inner.len());
             tag_or_digest.push_to_string(&mut inner);
-            tag_or_digest.as_start(inner.len())
+            start
         });
 
         Self {
-- 
2.43.0


From 0da4d81f2591f3c8521b33cc41db05562fc73a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 02/17] fix: Image::set_registry(None) removed past the end of
 a registry only name

It panicked or left an image starting with its tag.
---
 src/service/image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service/image.rs b/src/service/image.rs
index 27790b4..318146e 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -189,6 +189,8 @@ impl Image {
 
     /// Set the registry portion of the image name, use [`None`] to remove it.
     ///
+    /// Names cannot be empty, an image name made up of only a registry is not changed by [`None`].
+    ///
     /// # Examples
     ///
     /// ```
@@ -225,6 +227,8 @@ impl Image {
                 self.registry_end = Some(registry.len());
                 self.update_tag_or_digest_start(0, registry.len() + 1);
             }
+            // Nothing would be left of the name
+            (None, Some(end)) if end == self.name_end() => {}
             // Remove registry
             (None, Some(mut end)) => {
                 // Add one to end for '/' separator.
-- 
2.43.0


From 9dd554841b318ff0e8011d859cada720b99b371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 03/17] fix: image registry ports could start with a plus sign

"quay.io:+443/hello" was accepted as an image name.
---
 src/service/image/name.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service/image/name.rs b/src/service/image/name.rs
index d8ee86c..7fa4280 100644
--- a/src/service/image/name.rs
+++ b/src/service/image/name.rs
@@ -86,6 +86,10 @@ impl<'a> Name<'a> {
                 // First part is a registry, check port.
                 registry_end = Some(first.len());
                 if let Some((host, port)) = first.split_once(':') {
+                    // `u16::from_str()` allows a leading plus sign.
+                    if port.starts_with('+') {
+                        return Err(InvalidNamePartError::Character('+'));
+                    }
                     port.parse::<u16>()
                         .map_err(|source| InvalidNamePartError::RegistryPort {
                             source,
-- 
2.43.0


From 4ed5623425f7770d58094bce26ce98272ef27b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 04/17] fix: port ranges parsed from strings were not validated

"90-80" was accepted, although the start of a range must not be greater than its end, and "80-80"
was not equal to "80".
---
 src/service/ports.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 4afe19f..d37e4f7 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -780,10 +780,10 @@ impl FromStr for Range {
             .split_once('-')
             .map_or((s, None), |(start, end)| (start, Some(end)));
 
-        Ok(Self {
-            start: parse_range_int(start)?,
-            end: end.map(parse_range_int).transpose()?,
-        })
+        let start = parse_range_int(start)?;
+        let end = end.map(parse_range_int).transpose()?;
+
+        Ok(Self::new(start, end)?)
     }
 }
 
-- 
2.43.0


From 1b344d92b19a63c7d4f04b20de003e5b68e20400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 05/17] fix: Range::size() overflowed for the range of all
 ports

Parsing "0-65535:0-65535" as a short port panicked, or compared wrapped sizes.
---
 src/service/ports.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index d37e4f7..176a89c 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -474,12 +474,10 @@ impl ShortRanges {
 /// Returns an error if the range sizes are not equal.
 fn range_size_eq(host: Option<Range>, container: Range) -> Result<(), ShortRangesError> {
     if let Some(host) = host {
-        let host_size = host.size();
-        let container_size = container.size();
-        if host_size != container_size {
+        if host.span() != container.span() {
             return Err(ShortRangesError {
-                host_size,
-                container_size,
+                host_size: host.size(),
+                container_size: container.size(),
             });
         }
     }
@@ -661,6 +659,8 @@ impl Range {
 
     /// Size of the port range.
     ///
+    /// The range of all ports, 0-65535, has one more port than fits, [`u16::MAX`] is returned for it.
+    ///
     /// # Examples
     ///
     /// ```
@@ -678,7 +678,12 @@ impl Range {
     /// ```
     #[must_use]
     pub fn size(&self) -> u16 {
-        self.end.map_or(1, |end| end - self.start + 1)
+        self.span().saturating_add(1)
+    }
+
+    /// Difference between the end and the start of the port range.
+    fn span(&self) -> u16 {
+        self.end.map_or(0, |end| end - self.start)
     }
 }
 
-- 
2.43.0


From 76c5673010333740e9b44229e0e1b62c46261653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 06/17] fix: parsing a duration with a value larger than u64
 panicked

---
 src/duration.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 72c2a8c..e72d1ac 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -98,7 +98,6 @@ fn push_value(string: &mut String, value: u64, unit: &str) {
 /// Returns an error if the input is an empty string, does not contain ASCII digits (0-9), contains
 /// an invalid unit (valid units: "h", "m", "s", "ms", "us"), or the value is too large for a
 /// [`Duration`].
-#[allow(clippy::missing_panics_doc)]
 pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
     if s.is_empty() {
         return Err(ParseDurationError::Empty);
@@ -114,7 +113,10 @@ pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
         if value.is_empty() {
             return Err(ParseDurationError::NoDigits(s.to_owned()));
         }
-        let value: u64 = value.parse().expect("value is ASCII digits only");
+        // value is ASCII digits only, parsing can only fail if it is too large
+        let Ok(value) = value.parse::<u64>() else {
+            return Err(ParseDurationError::Overflow);
+        };
 
         let (unit, rest) = rest
             .find(|char: char| char.is_ascii_digit())
-- 
2.43.0


From 6dff8a6d24149f77b7148c3424911bb1a947b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 07/17] fix: Cpus could not be deserialized from integers

---
 src/service/deploy/resources.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/service/deploy/resources.rs b/src/service/deploy/resources.rs
index 8af32bd..bfad346 100644
--- a/src/service/deploy/resources.rs
+++ b/src/service/deploy/resources.rs
@@ -315,6 +315,11 @@ impl<'de> Visitor<'de> for CpusVisitor {
         Ok(v.into())
     }
 
+    forward_visitor! {
+        visit_u32,
+        visit_u64: u64,
+    }
+
     forward_visitor! {
         visit_f64,
         visit_i8: i8,
@@ -322,6 +327,11 @@ impl<'de> Visitor<'de> for CpusVisitor {
         visit_i32: i32,
     }
 
+    forward_visitor! {
+        visit_i32,
+        visit_i64: i64,
+    }
+
     fn visit_f64<E: de::Error>(self, v: f64) -> Result<Self::Value, E> {
         v.try_into().map_err(E::custom)
     }
-- 
2.43.0


From 103a2bfd7731611960d3e7758ed19743977c82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 08/17] fix: optional durations could not be deserialized from
 null

---
 src/serde/duration_option.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serde/duration_option.rs b/src/serde/duration_option.rs
index 338b7bf..875c37b 100644
--- a/src/serde/duration_option.rs
+++ b/src/serde/duration_option.rs
@@ -62,6 +62,10 @@ impl<'de> de::Visitor<'de> for Visitor {
         Ok(None)
     }
 
+    fn visit_unit<E: de::Error>(self) -> Result<Self::Value, E> {
+        Ok(None)
+    }
+
     fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
         crate::duration::parse(v).map(Some).map_err(E::custom)
     }
-- 
2.43.0


From ee5b928b3510222b8f24933804bdb2bdfabb3cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 09/17] fix: read-only anonymous volumes lost read_only in
 short syntax

---
 src/service/volumes/mount.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index d289dd1..50626c3 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -283,7 +283,11 @@ impl Volume {
                         consistency: None,
                         extensions,
                     },
-            } if volume.as_ref().map_or(true, VolumeOptions::is_empty) && extensions.is_empty() => {
+            } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
+                // an anonymous volume cannot be read-only in the short syntax
+                && (source.is_some() || !read_only)
+                && extensions.is_empty() =>
+            {
                 Ok(ShortVolume {
                     container_path,
                     options: source.map(|source| ShortOptions {
-- 
2.43.0


From 80805e07f691fada18257194226c64b303510373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 10/17] fix: a named volume mounted twice by one service was
 reported as shared

---
 src/lib.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba62b45..19430be 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,7 +108,7 @@ pub mod service;
 mod volume;
 
 use std::{
-    collections::{hash_map::Entry, HashMap},
+    collections::HashMap,
     error::Error,
     fmt::{self, Display, Formatter},
     path::PathBuf,
@@ -299,26 +299,17 @@ impl Compose {
     ///
     /// Only the first undefined named volume is listed in the error's [`Display`] output.
     pub fn validate_volumes(&self) -> Result<(), ValidationError> {
-        let volumes = self
-            .services
-            .values()
-            .flat_map(|service| service::volumes::named_volumes_iter(&service.volumes));
-
         let mut seen_volumes = HashMap::new();
-        for volume in volumes {
-            match seen_volumes.entry(volume) {
-                Entry::Occupied(mut entry) => {
-                    if !entry.get() && !self.volumes.contains_key(volume) {
-                        return Err(ValidationError {
-                            service: None,
-                            resource: volume.clone(),
-                            kind: ResourceKind::Volume,
-                        });
-                    }
-                    *entry.get_mut() = true;
-                }
-                Entry::Vacant(entry) => {
-                    entry.insert(false);
+        for (index, service) in self.services.values().enumerate() {
+            for volume in service::volumes::named_volumes_iter(&service.volumes) {
+                // A volume may be mounted more than once in the same service.
+                let first_used_by = *seen_volumes.entry(volume).or_insert(index);
+                if first_used_by != index && !self.volumes.contains_key(volume) {
+                    return Err(ValidationError {
+                        service: None,
+                        resource: volume.clone(),
+                        kind: ResourceKind::Volume,
+                    });
                 }
             }
         }
-- 
2.43.0


From 083166bb6fe3045a1eb03392b03eadc5d4ebb36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 11/17] fix: MacAddress printed its first byte without a
 leading zero

---
 src/service/network_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/network_config.rs b/src/service/network_config.rs
index 4e93f24..3c47d0f 100644
--- a/src/service/network_config.rs
+++ b/src/service/network_config.rs
@@ -3,7 +3,7 @@
 
 use std::{
     borrow::Cow,
-    fmt::{self, Display, Formatter, LowerHex},
+    fmt::{self, Display, Formatter},
     net::{IpAddr, Ipv4Addr, Ipv6Addr},
     num::ParseIntError,
     str::{FromStr, Split},
@@ -559,7 +559,7 @@ impl Display for MacAddress {
         let mut iter = self.0.iter();
 
         if let Some(byte) = iter.next() {
-            LowerHex::fmt(byte, f)?;
+            write!(f, "{byte:02x}")?;
         }
 
         for byte in iter {
-- 
2.43.0


From d33853772c589a889a3b83690bb13139b8627229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 12/17] fix: a cache type without options could not be parsed

---
 src/service/build/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service/build/cache.rs b/src/service/build/cache.rs
index b42afb9..5b028a6 100644
--- a/src/service/build/cache.rs
+++ b/src/service/build/cache.rs
@@ -44,7 +44,7 @@ impl Cache {
     where
         T: AsRef<str> + Into<String>,
     {
-        if cache.as_ref().contains(',') {
+        if cache.as_ref().contains(',') || cache.as_ref().starts_with("type=") {
             Self::parse_str(cache.as_ref())
         } else {
             Image::parse(cache)
-- 
2.43.0


From e9e49b89ff74d5044009d6bcc723adf8bf9fd925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 13/17] fix: volumes from a container named ro or rw printed as
 a service

---
 src/service.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 363a613..1d55522 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -1441,6 +1441,9 @@ impl VolumesFrom {
     /// Suffix which marks the source volumes as read-only.
     const READ_ONLY_SUFFIX: &'static str = ":ro";
 
+    /// Suffix used when the volumes are explicitly mounted as read-write.
+    const READ_WRITE_SUFFIX: &'static str = ":rw";
+
     /// Parse a [`VolumesFrom`] from a string in the format `[container:]{identifier}[:ro|rw]`.
     ///
     /// # Errors
@@ -1464,7 +1467,7 @@ impl VolumesFrom {
             .unwrap_or_else(|| {
                 volumes_from
                     .as_ref()
-                    .strip_suffix(":rw")
+                    .strip_suffix(Self::READ_WRITE_SUFFIX)
                     .map(str::parse)
                     .unwrap_or_else(|| VolumesFromSource::parse(volumes_from))
                     .map(Into::into)
@@ -1482,6 +1485,11 @@ impl Display for VolumesFrom {
 
         if *read_only {
             f.write_str(Self::READ_ONLY_SUFFIX)?;
+        } else if let VolumesFromSource::Container(container) = source {
+            // "container:ro" would be a read-only service named "container".
+            if container == "ro" || container == "rw" {
+                f.write_str(Self::READ_WRITE_SUFFIX)?;
+            }
         }
 
         Ok(())
@@ -1499,10 +1507,12 @@ impl From<VolumesFromSource> for VolumesFrom {
 
 impl From<VolumesFrom> for String {
     fn from(value: VolumesFrom) -> Self {
-        if value.read_only {
-            value.to_string()
-        } else {
-            value.source.into()
+        match value {
+            VolumesFrom {
+                source: VolumesFromSource::Service(service),
+                read_only: false,
+            } => service.into(),
+            _ => value.to_string(),
         }
     }
 }
-- 
2.43.0


From bbc4c4069f8d7651bd1aae32c623b356b123e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 14/17] fix: additional build contexts given as a list read as
 numbers

---
 src/service/build.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/service/build.rs b/src/service/build.rs
index d42e1bb..e20a716 100644
--- a/src/service/build.rs
+++ b/src/service/build.rs
@@ -257,15 +257,29 @@ fn additional_contexts<'de, D>(deserializer: D) -> Result<IndexMap<MapKey, Conte
 where
     D: Deserializer<'de>,
 {
-    Ok(ListOrMap::deserialize(deserializer)?
-        .into_map()
-        .map_err(de::Error::custom)?
-        .into_iter()
-        .map(|(key, value)| {
-            let value = value
-                .map(String::from)
-                .map_or_else(Context::default, Context::from);
-            (key, value)
-        })
-        .collect())
+    // List items are used as is, a path like `1.10` must not be read as a number.
+    match ListOrMap::deserialize(deserializer)? {
+        ListOrMap::List(list) => list
+            .into_iter()
+            .map(|item| {
+                let (key, value) = item.split_once('=').unwrap_or((&item, ""));
+                let key = key.parse().map_err(de::Error::custom)?;
+                let value = if value.is_empty() {
+                    Context::default()
+                } else {
+                    Context::from(value.to_owned())
+                };
+                Ok((key, value))
+            })
+            .collect(),
+        ListOrMap::Map(map) => Ok(map
+            .into_iter()
+            .map(|(key, value)| {
+                let value = value
+                    .map(String::from)
+                    .map_or_else(Context::default, Context::from);
+                (key, value)
+            })
+            .collect()),
+    }
 }
-- 
2.43.0


From e18536d0551b602e2e8f9b5bc1be1a682cb7c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 15/17] fix: disable a healthcheck the same way whichever of
 disable: false and test: [NONE] comes first

---
 src/service/healthcheck.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/service/healthcheck.rs b/src/service/healthcheck.rs
index 630ef11..b00941b 100644
--- a/src/service/healthcheck.rs
+++ b/src/service/healthcheck.rs
@@ -69,6 +69,7 @@ impl<'de> de::Visitor<'de> for Visitor {
 
     fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
         let mut disable = None;
+        let mut test_none = false;
         let mut test = None;
         let mut interval = None;
         let mut timeout = None;
@@ -85,8 +86,8 @@ impl<'de> de::Visitor<'de> for Visitor {
                 }
                 Field::Test => {
                     check_duplicate(&test, "test")?;
-                    map.next_value_seed(DisableOrTest {
-                        disable: &mut disable,
+                    map.next_value_seed(NoneOrTest {
+                        none: &mut test_none,
                         test: &mut test,
                     })?;
                 }
@@ -118,7 +119,13 @@ impl<'de> de::Visitor<'de> for Visitor {
             }
         }
 
-        if disable.unwrap_or_default() {
+        let disable = disable.unwrap_or_default();
+
+        if disable && test_none {
+            Err(de::Error::custom(
+                "cannot set `disable` to `true` and `test` to `NONE`",
+            ))
+        } else if disable || test_none {
             if test.is_none()
                 && interval.is_none()
                 && timeout.is_none()
@@ -188,15 +195,15 @@ enum Field {
 /// Helper for deserializing the `test` field of [`Healthcheck`] / [`Command`].
 ///
 /// If `test` is set to `NONE`, then [`Healthcheck::Disable`] is deserialized.
-struct DisableOrTest<'a> {
-    /// `disable` field.
-    disable: &'a mut Option<bool>,
+struct NoneOrTest<'a> {
+    /// Whether `test` is set to `NONE`.
+    none: &'a mut bool,
 
     /// `test` field.
     test: &'a mut Option<Test>,
 }
 
-impl<'a, 'de> DeserializeSeed<'de> for DisableOrTest<'a> {
+impl<'a, 'de> DeserializeSeed<'de> for NoneOrTest<'a> {
     type Value = ();
 
     fn deserialize<D: Deserializer<'de>>(self, deserializer: D) -> Result<Self::Value, D::Error> {
@@ -204,7 +211,7 @@ impl<'a, 'de> DeserializeSeed<'de> for DisableOrTest<'a> {
     }
 }
 
-impl<'a, 'de> de::Visitor<'de> for DisableOrTest<'a> {
+impl<'a, 'de> de::Visitor<'de> for NoneOrTest<'a> {
     type Value = ();
 
     fn expecting(&self, formatter: &mut Formatter) -> fmt::Result {
@@ -248,13 +255,10 @@ impl<'a, 'de> de::Visitor<'de> for DisableOrTest<'a> {
                 }
             }
             TestKind::None => {
-                if self.disable.unwrap_or_default() {
-                    Err(de::Error::custom(
-                        "cannot set `disable` to `true` and `test` to `NONE` \
-                            or set `test` to `NONE` multiple times",
-                    ))
+                if *self.none {
+                    Err(de::Error::duplicate_field("test"))
                 } else {
-                    *self.disable = Some(true);
+                    *self.none = true;
 
                     if seq.next_element::<String>()?.is_none() {
                         Ok(())
-- 
2.43.0


From 0c196592d1fe84bb64edb673b95a6eef38f71ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 16/17] fix: Image::set_registry() recorded a registry that the
 name does not have

---
 src/service/image.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 318146e..0080585 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -214,17 +214,18 @@ impl Image {
         match (registry, self.registry_end) {
             // Replace registry
             (Some(registry), Some(end)) => {
+                // Not all of `registry` may be a registry.
+                self.registry_end = registry.registry_end();
                 let registry = registry.into_inner();
                 self.inner.replace_range(..end, registry);
-                let new_len = registry.len();
-                self.registry_end = Some(new_len);
-                self.update_tag_or_digest_start(end, new_len);
+                self.update_tag_or_digest_start(end, registry.len());
             }
             // Add registry
             (Some(registry), None) => {
+                // Not all of `registry` may be a registry.
+                self.registry_end = registry.registry_end();
                 let registry = registry.into_inner();
                 self.inner = format!("{registry}/{}", &self.inner);
-                self.registry_end = Some(registry.len());
                 self.update_tag_or_digest_start(0, registry.len() + 1);
             }
             // Nothing would be left of the name
@@ -234,8 +235,11 @@ impl Image {
                 // Add one to end for '/' separator.
                 end += 1;
                 self.inner.replace_range(..end, "");
-                self.registry_end = None;
                 self.update_tag_or_digest_start(end, 0);
+                // The next part of the name may look like a registry.
+                self.registry_end = Name::new(self.name())
+                    .ok()
+                    .and_then(|name| name.registry_end());
             }
             // Status quo
             (None, None) => {}
-- 
2.43.0


From c63b88374daf63822f227ad1da9bcef1b537cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 17/17] fix: merge the merge keys of mappings that are merged
 themselves

---
 src/options.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/options.rs b/src/options.rs
index 4844aea..50b273d 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -101,8 +101,33 @@ impl Options {
     /// Returns an error if deserialization fails.
     pub fn from_yaml_value(&self, mut value: YamlValue) -> serde_yaml::Result<Compose> {
         if self.apply_merge {
-            value.apply_merge()?;
+            apply_merge(&mut value)?;
         }
         serde_yaml::from_value(value)
     }
 }
+
+/// Merge `<<` keys from the innermost outwards.
+///
+/// [`YamlValue::apply_merge()`] alone leaves, or drops, the `<<` keys of mappings which are merged
+/// themselves.
+fn apply_merge(value: &mut YamlValue) -> serde_yaml::Result<()> {
+    match value {
+        YamlValue::Mapping(mapping) => {
+            for value in mapping.values_mut() {
+                apply_merge(value)?;
+            }
+            if mapping.contains_key("<<") {
+                value.apply_merge()?;
+            }
+        }
+        YamlValue::Sequence(sequence) => {
+            for value in sequence {
+                apply_merge(value)?;
+            }
+        }
+        YamlValue::Tagged(tagged) => apply_merge(&mut tagged.value)?,
+        _ => {}
+    }
+    Ok(())
+}
-- 
2.43.0

