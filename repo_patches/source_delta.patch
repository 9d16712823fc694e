From 5ae39c6c5cce61711c28f79335b07408d54b32f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 1/7] fix: Json::remove reports an index out of range instead
 of panicking

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d379543..da7318f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,6 +218,10 @@ impl Json {
     pub fn remove(&mut self, i: usize) -> Result<(), Error> {
         match self {
             Json::Array(vec) => {
+                if i >= vec.len() {
+                    return Err(Error::new(IndexOutOfRange,
+                                          format!("index {} out of range.", i)));
+                }
                 vec.remove(i);
                 Ok(())
             }
-- 
2.43.0


From e0715489b36cda505335caa79fa2aa2039f63f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 2/7] fix: convert the value before a path update touches the
 document

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index da7318f..521e27b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1067,7 +1067,7 @@ impl Path {
         }
     }
 
-    fn update<'a, V: ToJson>(&self, json: &'a mut Json, v: V) -> Result<&'a mut Json, Error> {
+    fn update<'a>(&self, json: &'a mut Json, v: Json) -> Result<&'a mut Json, Error> {
         match &self.next {
             Some(path) => {
                 if self.finder.find(json).is_ok() {
@@ -1078,7 +1078,7 @@ impl Path {
                     path.update(inner, v)
                 }
             }
-            None => self.finder.update(json, v.to_json()),
+            None => self.finder.update(json, v),
         }
     }
 }
@@ -1097,7 +1097,7 @@ impl Json {
     }
 
     pub fn update<I: Into<Path>, V: ToJson>(&mut self, path: I, v: V) -> Result<&mut Json, Error> {
-        path.into().update(self, v)
+        path.into().update(self, v.to_json())
     }
 
     pub fn get(&self, s: &str) -> Result<&Json, Error> {
@@ -1118,7 +1118,7 @@ impl Json {
         if s.is_empty() {
             return Err(Error::new(PathSyntaxError, "invalid syntax: empty path.".to_string()));
         }
-        parse_path(s)?.update(self, v)
+        parse_path(s)?.update(self, v.to_json())
     }
 }
 
-- 
2.43.0


From ed0d9b5cbbbb31b3a9cdebb75c730f3ae70fe719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 3/7] fix: brackets inside strings do not count as nesting

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 521e27b..07735f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -437,19 +437,19 @@ impl Json {
                     }
                     inner.push('\"');
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     inner.push('[');
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     inner.push(']');
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     inner.push('{');
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     inner.push('}');
                 }
@@ -531,7 +531,7 @@ impl Json {
                         v.push('\"');
                     }
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('[');
@@ -539,7 +539,7 @@ impl Json {
                         v.push('[');
                     }
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push(']');
@@ -547,7 +547,7 @@ impl Json {
                         v.push(']');
                     }
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('{');
@@ -555,7 +555,7 @@ impl Json {
                         v.push('{');
                     }
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push('}');
-- 
2.43.0


From 061f9267194517aca3d024e43e66edaf361278dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 4/7] fix: reject trailing characters after an empty array or
 object

---
 src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 07735f3..90a7e50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -399,7 +399,11 @@ impl Json {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
         if let Some(']') = iter.peek() {
-            return Ok(Json::Array(array));
+            return match iter.skip(1).find(|ch| !is_whitespace(*ch)) {
+                Some(ch) => Err(Error::new(ParseArrayError,
+                                           format!("invalid trailing character: {}.", ch))),
+                None => Ok(Json::Array(array))
+            };
         }
 
         let mut i = 0;
@@ -474,7 +478,11 @@ impl Json {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
         if let Some('}') = iter.peek() {
-            return Ok(Json::Object(object));
+            return match iter.skip(1).find(|ch| !is_whitespace(*ch)) {
+                Some(ch) => Err(Error::new(ParseObjectError,
+                                           format!("invalid trailing character: {}.", ch))),
+                None => Ok(Json::Object(object))
+            };
         }
 
         let mut i = 0;
-- 
2.43.0


From 17e08da28c4d60f8e11a13ff913e08c8cf19e639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 5/7] fix: decode the members of an object in key order, not in
 hash order

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 90a7e50..617a3ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -915,6 +915,8 @@ impl<K: FromStr, V: FromJson> FromJson for Vec<(K, V)> {
         match json {
             Json::Object(obj) => {
                 let mut vec = Vec::with_capacity(obj.len());
+                let mut obj = obj.iter().collect::<Vec<_>>();
+                obj.sort_by(|(k1, _), (k2, _)| k1.cmp(k2));
                 for (mk, (mj, mv)) in obj {
                     for mj in mv.iter().rev() {
                         let k = match K::from_str(mk) {
@@ -966,6 +968,8 @@ impl<K: Hash + Eq + FromStr, V: FromJson> FromJson for HashMap<K, V> {
         match json {
             Json::Object(obj) => {
                 let mut map = HashMap::with_capacity(obj.len());
+                let mut obj = obj.iter().collect::<Vec<_>>();
+                obj.sort_by(|(k1, _), (k2, _)| k1.cmp(k2));
                 for (mk, (mj, _)) in obj {
                     let k = match K::from_str(mk) {
                         Ok(k) => k,
-- 
2.43.0


From b4751206059bf9446115e6d022374e66aadec04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 6/7] fix: an index of usize::MAX no longer wraps and truncates
 the array

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 617a3ec..ff6526c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1319,15 +1319,16 @@ impl Finder {
                 Ok(json.index_mut(k.as_str()))
             }
             Finder::Index(i) => {
+                let len = i.checked_add(1).expect("capacity overflow");
                 match json {
                     Json::Array(vec) => {
                         if *i >= vec.len() {
-                            vec.resize(*i + 1, Json::Null);
+                            vec.resize(len, Json::Null);
                         }
                     }
                     _ => {
-                        let mut vec = Vec::with_capacity(*i + 1);
-                        vec.resize(*i + 1, Json::Null);
+                        let mut vec = Vec::with_capacity(len);
+                        vec.resize(len, Json::Null);
                         *json = Json::Array(vec);
                     }
                 }
-- 
2.43.0


From fd4a29ce29df72838b03594e5623d31772e67c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:33 +0000
Subject: [PATCH 7/7] fix: appending to a key keeps its current value when
 memory runs out

object_insert put the new value in place first and then added the current one
to the older values; when that allocation failed the current value was lost.
---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ff6526c..aa7d6ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,11 +603,15 @@ impl Json {
     }
 }
 
-fn object_insert(object: &mut HashMap<String, (Json, LinkedList<Json>)>, key: String, mut json: Json) {
+fn object_insert(object: &mut HashMap<String, (Json, LinkedList<Json>)>, key: String, json: Json) {
     match object.get_mut(&key) {
         Some((js, list)) => {
-            mem::swap(js, &mut json);
+            // take the new value in before the current one moves: should
+            // memory run out here, the key keeps the values it has.
             list.push_front(json);
+            if let Some(first) = list.front_mut() {
+                mem::swap(js, first);
+            }
         }
         None => { object.insert(key, (json, LinkedList::new())); }
     }
-- 
2.43.0

