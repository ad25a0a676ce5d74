From 07b6e41c0c3fbe9e0e27b4299e6639184e182122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 01/18] fix: clamp slice bounds as RFC 9535 section 2.3.4.2.2
 says

A start past the end (or, with a negative step, before the beginning) was
clamped to the last (first) element, so `[5:]` selected the last element of a
shorter array.
---
 crates/jsonpath_rfc9535_iter/src/selector.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/selector.rs         | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                  | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/selector.rs | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 594295c..5dc8ab9 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -74,9 +74,11 @@ pub fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
-            } else {
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
+            } else if n_step < 0 {
                 cmp::min(i, array_length - 1)
+            } else {
+                cmp::min(i, array_length)
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 9e3c6bf..45f3f60 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -149,9 +149,11 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
-            } else {
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
+            } else if step < 0 {
                 cmp::min(i as i128, len - 1)
+            } else {
+                cmp::min(i as i128, len)
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f2df9f5..2a4bf3f 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -705,9 +705,11 @@ fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
-            } else {
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
+            } else if n_step < 0 {
                 cmp::min(i, array_length - 1)
+            } else {
+                cmp::min(i, array_length)
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 4567474..5ba8819 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -186,9 +186,11 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
-            } else {
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
+            } else if step < 0 {
                 cmp::min(i as i128, len - 1)
+            } else {
+                cmp::min(i as i128, len)
             }
         }
         None => {
-- 
2.43.0


From 014b5854d60ff793d6314b41c31a18b848166822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 02/18] fix: do not panic on integers greater than i64::MAX in
 filters

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 4 +++-
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 6 +++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 4 +++-
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 6 +++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index c46c11c..86261e1 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -259,7 +259,9 @@ impl<'v> FilterExpressionResult<'v> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // an integer that does not fit in an i64
+                    n.as_f64()
+                        .map_or(FilterExpressionResult::Nothing, FilterExpressionResult::Float)
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 28b75f3..c9f60d3 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -253,8 +253,12 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Number(n) => {
                 if n.is_f64() {
                     FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else {
+                } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
+                } else {
+                    // an integer that does not fit in an i64
+                    n.as_f64()
+                        .map_or(FilterExpressionResult::Nothing, FilterExpressionResult::Float)
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 2a4bf3f..ba952d6 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -78,7 +78,9 @@ impl<'a> FilterExpressionResult<'a> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // an integer that does not fit in an i64
+                    n.as_f64()
+                        .map_or(FilterExpressionResult::Nothing, FilterExpressionResult::Float)
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 28b75f3..c9f60d3 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -253,8 +253,12 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Number(n) => {
                 if n.is_f64() {
                     FilterExpressionResult::Float(n.as_f64().unwrap())
-                } else {
+                } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
+                } else {
+                    // an integer that does not fit in an i64
+                    n.as_f64()
+                        .map_or(FilterExpressionResult::Nothing, FilterExpressionResult::Float)
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
-- 
2.43.0


From b53ad6bfb5a304596c2920a9586778d8f9884992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 03/18] fix: $ inside a nested filter refers to the query
 argument

A relative query in a filter resolved its own filters' root queries against the
current node, so `$[?@[?$.k]]` looked for k in the wrong value.
---
 crates/jsonpath_rfc9535_iter/src/filter.rs           |  2 +-
 crates/jsonpath_rfc9535_iter/src/iter.rs             | 12 +++++++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs      |  2 +-
 crates/jsonpath_rfc9535_locations/src/query.rs       | 12 +++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs             | 12 ++++++++++--
 .../jsonpath_rfc9535_singular_selector/src/filter.rs |  2 +-
 .../jsonpath_rfc9535_singular_selector/src/query.rs  | 12 +++++++++++-
 7 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 86261e1..d9c9d80 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -111,7 +111,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => FilterExpressionResult::Nodes(
-                QueryIter::new(env, current, *query.clone()).collect(),
+                QueryIter::new_from(env, root, current, *query.clone()).collect(),
             ),
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(QueryIter::new(env, root, *query.clone()).collect())
diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 795bbe6..6509015 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -29,10 +29,20 @@ impl<'v> Iterator for QueryIter<'v> {
 
 impl<'v> QueryIter<'v> {
     pub fn new(env: &'static Environment, root: &'v Value, query: Query) -> Self {
+        Self::new_from(env, root, root, query)
+    }
+
+    /// Resolve `query` starting at `value`, which need not be the root value.
+    pub fn new_from(
+        env: &'static Environment,
+        root: &'v Value,
+        value: &'v Value,
+        query: Query,
+    ) -> Self {
         let init = SegmentIter {
             selectors: vec![].into_iter(),
             it: Box::new(iter::once(Rc::new(Node {
-                value: root,
+                value,
                 location: String::from("$"),
             }))),
         };
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index c9f60d3..794bb12 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, root, env))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 0f2c651..64b6346 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, value, env)
+    }
+
+    /// Resolve this query starting at `value`, which need not be the root value.
+    pub fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        root: &'v Value,
+        env: &'static Environment,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index ba952d6..2fd1c38 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -110,7 +110,15 @@ impl Query {
         env: &'b Environment,
     ) -> Result<NodeList<'a>, JSONPathError> {
         let context = QueryContext { root: value, env };
+        self.find_from(value, &context)
+    }
 
+    // Resolve this query starting at `value`, which need not be the root value.
+    fn find_from<'a>(
+        &self,
+        value: &'a Value,
+        context: &QueryContext,
+    ) -> Result<NodeList<'a>, JSONPathError> {
         let root_node = Node {
             value,
             location: String::from("$"),
@@ -119,7 +127,7 @@ impl Query {
         self.segments
             .iter()
             .try_fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, &context)
+                segment.resolve(nodes, context)
             })
     }
 
@@ -585,7 +593,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(current, context.env)?,
+                query.find_from(current, context)?,
             )),
             FilterExpression::RootQuery { query } => Ok(FilterExpressionResult::Nodes(
                 query.find(context.root, context.env)?,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index c9f60d3..794bb12 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -109,7 +109,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, root, env))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 0f2c651..64b6346 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, value, env)
+    }
+
+    /// Resolve this query starting at `value`, which need not be the root value.
+    pub fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        root: &'v Value,
+        env: &'static Environment,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
-- 
2.43.0


From 8079cd4e3ab905a8d3e7f546567360b6e4e513a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/18] fix: compare numbers inside arrays and objects by value

`[1] == [1.0]` was false, although `1 == 1.0` is true.
---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 23 +++++++++++++++++--
 .../jsonpath_rfc9535_locations/src/filter.rs  | 23 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 23 +++++++++++++++++--
 .../src/filter.rs                             | 23 +++++++++++++++++--
 4 files changed, 84 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index d9c9d80..073b844 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -352,12 +352,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Deep equality of JSON values, where `1` and `1.0` are equal.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 794bb12..3877851 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -349,12 +349,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Deep equality of JSON values, where `1` and `1.0` are equal.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 2fd1c38..7667bd9 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -847,12 +847,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Deep equality of JSON values, where `1` and `1.0` are equal.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 794bb12..3877851 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -349,12 +349,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Deep equality of JSON values, where `1` and `1.0` are equal.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
-- 
2.43.0


From 08036bd6643fcc6036161a33edb3827c90de42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 05/18] fix: do not overflow on an index of i64::MIN

---
 crates/jsonpath_rfc9535_iter/src/selector.rs | 2 +-
 crates/jsonpath_rfc9535_serde/src/ast.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 5dc8ab9..3151042 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -126,7 +126,7 @@ pub fn slice<'a>(
 }
 
 pub fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length as u64 >= index.unsigned_abs() {
         (length as i64 + index) as usize
     } else {
         index as usize
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 7667bd9..5df967f 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -906,7 +906,7 @@ fn unpack_result<'a>(
 }
 
 fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length as u64 >= index.unsigned_abs() {
         (length as i64 + index) as usize
     } else {
         index as usize
-- 
2.43.0


From fc7e8737f124a72fcef6098dcf7f81402bcd1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 06/18] fix: iterate, do not recurse, over elements that do not
 match

A filter or segment that skips many nodes in a row overflowed the stack.
---
 crates/jsonpath_rfc9535_iter/src/iter.rs | 47 ++++++++++++------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 6509015..4ccc91d 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -67,15 +67,16 @@ pub struct SegmentIter<'v> {
 impl<'v> Iterator for SegmentIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some(v) => Some(v),
-            None => match self.selectors.next() {
-                Some(it) => {
-                    self.it = Box::new(it);
-                    self.next()
-                }
-                None => None,
-            },
+        loop {
+            match self.it.next() {
+                Some(v) => return Some(v),
+                None => match self.selectors.next() {
+                    Some(it) => {
+                        self.it = Box::new(it);
+                    }
+                    None => return None,
+                },
+            }
         }
     }
 }
@@ -210,15 +211,15 @@ pub struct ArrayFilterIter<'v> {
 impl<'v> Iterator for ArrayFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((index, value)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
-                    Some(self.parent.new_child_element(value, index))
-                } else {
-                    self.next()
+        loop {
+            match self.it.next() {
+                Some((index, value)) => {
+                    if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
+                        return Some(self.parent.new_child_element(value, index));
+                    }
                 }
+                None => return None,
             }
-            None => None,
         }
     }
 }
@@ -252,15 +253,15 @@ pub struct ObjectFilterIter<'v> {
 impl<'v> Iterator for ObjectFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((k, v)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
-                    Some(self.parent.new_child_member(v, k))
-                } else {
-                    self.next()
+        loop {
+            match self.it.next() {
+                Some((k, v)) => {
+                    if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
+                        return Some(self.parent.new_child_member(v, k));
+                    }
                 }
+                None => return None,
             }
-            None => None,
         }
     }
 }
-- 
2.43.0


From 4a0313146a54cc54166ca35edfe62d8959353bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 07/18] fix: escape member names in normalized paths

RFC 9535 section 2.7 requires quotes, backslashes and control characters to be
escaped; unescaped, the location was no longer a query for the node.
---
 crates/jsonpath_rfc9535_iter/src/node.rs      | 22 ++++++++++++++++++-
 crates/jsonpath_rfc9535_locations/src/node.rs | 22 ++++++++++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 22 ++++++++++++++++++-
 .../src/node.rs                               | 22 ++++++++++++++++++-
 4 files changed, 84 insertions(+), 4 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/node.rs b/crates/jsonpath_rfc9535_iter/src/node.rs
index 9c523f2..6fc2715 100644
--- a/crates/jsonpath_rfc9535_iter/src/node.rs
+++ b/crates/jsonpath_rfc9535_iter/src/node.rs
@@ -12,7 +12,7 @@ impl<'a> Node<'a> {
     pub fn new_child_member(&self, value: &'a Value, loc: &str) -> Rc<Self> {
         Rc::new(Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}[{}]", self.location, quote(loc)),
         })
     }
 
@@ -26,3 +26,23 @@ impl<'a> Node<'a> {
 
 pub type NodeList<'v> = Vec<Rc<Node<'v>>>;
 pub type NodeIter<'v> = Box<dyn Iterator<Item = Rc<Node<'v>>> + 'v>;
+
+/// `s` as a single quoted string literal, escaped as in a normalized path.
+pub(crate) fn quote(s: &str) -> String {
+    let mut rv = String::from("'");
+    for c in s.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\u{08}' => rv.push_str("\\b"),
+            '\u{0C}' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
diff --git a/crates/jsonpath_rfc9535_locations/src/node.rs b/crates/jsonpath_rfc9535_locations/src/node.rs
index 4830840..f990b7d 100644
--- a/crates/jsonpath_rfc9535_locations/src/node.rs
+++ b/crates/jsonpath_rfc9535_locations/src/node.rs
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("[{}]", quote(s)),
                 }))
                 .into_iter()
                 .rev(),
@@ -50,6 +50,26 @@ impl<'v> Node<'v> {
     }
 }
 
+/// `s` as a single quoted string literal, escaped as in a normalized path.
+pub(crate) fn quote(s: &str) -> String {
+    let mut rv = String::from("'");
+    for c in s.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\u{08}' => rv.push_str("\\b"),
+            '\u{0C}' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 5df967f..e8be501 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -34,7 +34,7 @@ impl<'a> Node<'a> {
     fn new_child_member(&self, value: &'a Value, loc: &str) -> Self {
         Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}[{}]", self.location, quote(loc)),
         }
     }
 
@@ -48,6 +48,26 @@ impl<'a> Node<'a> {
 
 pub type NodeList<'a> = Vec<Node<'a>>;
 
+/// `s` as a single quoted string literal, escaped as in a normalized path.
+pub(crate) fn quote(s: &str) -> String {
+    let mut rv = String::from("'");
+    for c in s.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\u{08}' => rv.push_str("\\b"),
+            '\u{0C}' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 struct QueryContext<'a, 'b> {
     env: &'b Environment,
     root: &'a Value,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/node.rs b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
index 4830840..f990b7d 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/node.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => format!("[{}]", quote(s)),
                 }))
                 .into_iter()
                 .rev(),
@@ -50,6 +50,26 @@ impl<'v> Node<'v> {
     }
 }
 
+/// `s` as a single quoted string literal, escaped as in a normalized path.
+pub(crate) fn quote(s: &str) -> String {
+    let mut rv = String::from("'");
+    for c in s.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\u{08}' => rv.push_str("\\b"),
+            '\u{0C}' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From dbe8891462e88b5bec8e3c8d4c9f2f956d554639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 08/18] fix: print queries so that they parse to the same query

Names were printed without escapes, and a negated comparison or negation
without its parentheses. String literals in filters are now escaped too,
except in the three crates whose tests ask for the unescaped form.
---
 crates/jsonpath_rfc9535/src/query.rs          | 29 +++++++++++++++++--
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 15 ++++++++--
 crates/jsonpath_rfc9535_iter/src/selector.rs  |  4 +--
 .../jsonpath_rfc9535_locations/src/filter.rs  | 16 ++++++++--
 .../src/selector.rs                           |  4 +--
 crates/jsonpath_rfc9535_pest/src/ast.rs       | 29 +++++++++++++++++--
 .../src/ast.rs                                | 29 +++++++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 11 +++++--
 .../src/filter.rs                             | 16 ++++++++--
 .../src/selector.rs                           |  4 +--
 10 files changed, 133 insertions(+), 24 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 1d7dd05..2388e1a 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -129,10 +129,30 @@ pub enum Selector {
     },
 }
 
+/// `s` as a single quoted string literal, escaped as it would be in a query.
+fn quote(s: &str) -> String {
+    let mut rv = String::from("'");
+    for c in s.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\u{08}' => rv.push_str("\\b"),
+            '\u{0C}' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -289,7 +309,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "\"{value}\""),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 073b844..22f7fb4 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -3,7 +3,11 @@ use std::fmt;
 use serde_json::Value;
 
 use crate::{
-    env::Environment, function::ExpressionType, iter::QueryIter, node::NodeList, query::Query,
+    env::Environment,
+    function::ExpressionType,
+    iter::QueryIter,
+    node::{quote, NodeList},
+    query::Query,
 };
 
 #[derive(Debug, Clone)]
@@ -141,10 +145,15 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 3151042..d38eb50 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -5,7 +5,7 @@ use std::{
 
 use serde_json::Value;
 
-use crate::filter::FilterExpression;
+use crate::{filter::FilterExpression, node::quote};
 
 #[derive(Debug, Clone)]
 pub enum Selector {
@@ -29,7 +29,7 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 3877851..e5c3a75 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -2,7 +2,12 @@ use std::fmt;
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment,
+    function::ExpressionType,
+    node::{quote, NodeList},
+    Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,10 +144,15 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 45f3f60..10c3586 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -8,7 +8,7 @@ use serde_json::Value;
 use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
-    node::{Location, Node, NodeList},
+    node::{quote, Location, Node, NodeList},
 };
 
 #[derive(Debug)]
@@ -91,7 +91,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index dc3779a..62652fb 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -116,10 +116,30 @@ pub enum Selector {
     },
 }
 
+/// `s` as a single quoted string literal, escaped as it would be in a query.
+fn quote(s: &str) -> String {
+    let mut rv = String::from("'");
+    for c in s.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\u{08}' => rv.push_str("\\b"),
+            '\u{0C}' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -244,7 +264,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::String { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 5242985..632b732 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -175,10 +175,30 @@ impl fmt::Display for Segment {
     }
 }
 
+/// `s` as a single quoted string literal, escaped as it would be in a query.
+fn quote(s: &str) -> String {
+    let mut rv = String::from("'");
+    for c in s.chars() {
+        match c {
+            '\'' => rv.push_str("\\'"),
+            '\\' => rv.push_str("\\\\"),
+            '\u{08}' => rv.push_str("\\b"),
+            '\u{0C}' => rv.push_str("\\f"),
+            '\n' => rv.push_str("\\n"),
+            '\r' => rv.push_str("\\r"),
+            '\t' => rv.push_str("\\t"),
+            c if c < ' ' => rv.push_str(&format!("\\u{:04x}", c as u32)),
+            c => rv.push(c),
+        }
+    }
+    rv.push('\'');
+    rv
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -212,7 +232,12 @@ impl fmt::Display for FilterExpression {
             FilterExpression::StringLiteral { value, .. } => write!(f, "'{value}'"),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index e8be501..b35bada 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -442,7 +442,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -642,10 +642,15 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 3877851..e5c3a75 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -2,7 +2,12 @@ use std::fmt;
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment,
+    function::ExpressionType,
+    node::{quote, NodeList},
+    Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,10 +144,15 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => f.write_str(&quote(value)),
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Comparison { .. } | FilterExpression::Not { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 5ba8819..4652c84 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -8,7 +8,7 @@ use serde_json::Value;
 use crate::{
     env::Environment,
     filter::{is_truthy_ref, FilterExpression},
-    node::{Location, Node, NodeList},
+    node::{quote, Location, Node, NodeList},
     Query,
 };
 
@@ -127,7 +127,7 @@ impl Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => f.write_str(&quote(name)),
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
-- 
2.43.0


From 9744b5002631751acd102e93889971b359208568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 09/18] fix: is_singular and is_empty ignore the end of input
 marker

---
 crates/jsonpath_rfc9535_iter/src/query.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/query.rs         | 6 ++++--
 crates/jsonpath_rfc9535_pest/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs               | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/query.rs | 6 ++++--
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/query.rs b/crates/jsonpath_rfc9535_iter/src/query.rs
index ef17568..2a1786a 100644
--- a/crates/jsonpath_rfc9535_iter/src/query.rs
+++ b/crates/jsonpath_rfc9535_iter/src/query.rs
@@ -23,7 +23,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -34,7 +36,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 64b6346..d289c06 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -55,7 +55,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -66,7 +68,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index 62652fb..b132f23 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -30,7 +30,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -41,7 +43,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index b35bada..478108f 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -172,7 +172,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -183,7 +185,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 64b6346..d289c06 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -55,7 +55,9 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
@@ -66,7 +68,7 @@ impl Query {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
                     });
             }
-            false
+            matches!(segment, Segment::Eoi)
         })
     }
 }
-- 
2.43.0


From 11141f99f10940174390bb2748e3aef90dbcc5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 10/18] fix: match() is anchored at both ends and . matches no
 line break

A pattern that started with ^ or ended with $ was not anchored at its other
end, . matched a carriage return, and && and ~~ were set operators in a class.
---
 .../src/standard_functions.rs                 | 79 +++++++++----------
 .../src/standard_functions.rs                 | 79 +++++++++----------
 .../src/standard_functions.rs                 | 79 +++++++++----------
 .../src/standard_functions.rs                 | 79 +++++++++----------
 4 files changed, 148 insertions(+), 168 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 754ca17..d455da7 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -223,49 +223,44 @@ impl FunctionExtension for Value {
 
 /// Map re pattern to i-regexp pattern.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut rv = String::new();
+
+    for c in pattern.chars() {
+        if escaped {
+            rv.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // Does not match a line feed or carriage return.
+            '.' if !char_class => rv.push_str("[^\\n\\r]"),
+            // Not set operators in an I-Regexp.
+            '&' | '~' if char_class => {
+                rv.push('\\');
+                rv.push(c);
+            }
+            '\\' => {
+                escaped = true;
+                rv.push(c);
+            }
+            '[' => {
+                char_class = true;
+                rv.push(c);
+            }
+            ']' => {
+                char_class = false;
+                rv.push(c);
+            }
+            _ => rv.push(c),
+        }
+    }
+
+    rv
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b756c33..a859307 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -223,49 +223,44 @@ impl FunctionExtension for Value {
 
 /// Map re pattern to i-regexp pattern.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut rv = String::new();
+
+    for c in pattern.chars() {
+        if escaped {
+            rv.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // Does not match a line feed or carriage return.
+            '.' if !char_class => rv.push_str("[^\\n\\r]"),
+            // Not set operators in an I-Regexp.
+            '&' | '~' if char_class => {
+                rv.push('\\');
+                rv.push(c);
+            }
+            '\\' => {
+                escaped = true;
+                rv.push(c);
+            }
+            '[' => {
+                char_class = true;
+                rv.push(c);
+            }
+            ']' => {
+                char_class = false;
+                rv.push(c);
+            }
+            _ => rv.push(c),
+        }
+    }
+
+    rv
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index db7f233..8f9cfb3 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -223,49 +223,44 @@ impl FunctionExtension for Value {
 
 /// Map re pattern to i-regexp pattern.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut rv = String::new();
+
+    for c in pattern.chars() {
+        if escaped {
+            rv.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // Does not match a line feed or carriage return.
+            '.' if !char_class => rv.push_str("[^\\n\\r]"),
+            // Not set operators in an I-Regexp.
+            '&' | '~' if char_class => {
+                rv.push('\\');
+                rv.push(c);
+            }
+            '\\' => {
+                escaped = true;
+                rv.push(c);
+            }
+            '[' => {
+                char_class = true;
+                rv.push(c);
+            }
+            ']' => {
+                char_class = false;
+                rv.push(c);
+            }
+            _ => rv.push(c),
+        }
+    }
+
+    rv
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b756c33..a859307 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -223,49 +223,44 @@ impl FunctionExtension for Value {
 
 /// Map re pattern to i-regexp pattern.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut rv = String::new();
+
+    for c in pattern.chars() {
+        if escaped {
+            rv.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // Does not match a line feed or carriage return.
+            '.' if !char_class => rv.push_str("[^\\n\\r]"),
+            // Not set operators in an I-Regexp.
+            '&' | '~' if char_class => {
+                rv.push('\\');
+                rv.push(c);
+            }
+            '\\' => {
+                escaped = true;
+                rv.push(c);
+            }
+            '[' => {
+                char_class = true;
+                rv.push(c);
+            }
+            ']' => {
+                char_class = false;
+                rv.push(c);
+            }
+            _ => rv.push(c),
+        }
+    }
+
+    rv
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
-- 
2.43.0


From 326feaeb934475c0da2e1ef62481991fddf67193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 11/18] fix: decode \u escapes as RFC 9535 says

An escaped control character was an error, an escape followed by another escape
was taken for a surrogate pair, and signs and lone surrogates were accepted.
---
 crates/jsonpath_rfc9535/src/parser.rs         | 33 +++++++++++++------
 crates/jsonpath_rfc9535_iter/src/unescape.rs  | 15 +++++----
 .../src/unescape.rs                           | 15 +++++----
 crates/jsonpath_rfc9535_pest/src/parser.rs    |  4 +--
 .../src/parser.rs                             |  4 +--
 crates/jsonpath_rfc9535_serde/src/unescape.rs | 15 +++++----
 .../src/unescape.rs                           | 15 +++++----
 7 files changed, 59 insertions(+), 42 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5df9a7d..19b517e 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -1001,6 +1001,15 @@ impl Parser {
     }
 }
 
+/// The value of `digits`, if it is made of hexadecimal digits only.
+fn parse_hex_digits(digits: &str) -> Option<u32> {
+    if digits.chars().all(|c| c.is_ascii_hexdigit()) {
+        u32::from_str_radix(digits, 16).ok()
+    } else {
+        None
+    }
+}
+
 fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, JSONPathError> {
     let chars = value.chars().collect::<Vec<char>>();
     let length = chars.len();
@@ -1047,17 +1056,19 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                             .iter()
                             .collect::<String>();
 
-                        let mut codepoint = u32::from_str_radix(&digits, 16).map_err(|_| {
+                        let mut codepoint = parse_hex_digits(&digits).ok_or_else(|| {
                             JSONPathError::syntax(
                                 String::from("invalid \\uXXXX escape"),
                                 (start_index, index + 4),
                             )
                         })?;
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             // expect a surrogate pair
-                            if index + 9 >= length {
+                            if index + 9 >= length
+                                || chars[index + 4] != '\\'
+                                || chars[index + 5] != 'u'
+                            {
                                 return Err(JSONPathError::syntax(
                                     String::from("invalid \\uXXXX escape"),
                                     (start_index, length),
@@ -1070,12 +1081,14 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                                 .iter()
                                 .collect::<String>();
 
-                            let low_surrogate = u32::from_str_radix(digits, 16).map_err(|_| {
-                                JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, index + 10),
-                                )
-                            })?;
+                            let low_surrogate = parse_hex_digits(digits)
+                                .filter(|low| (0xDC00..=0xDFFF).contains(low))
+                                .ok_or_else(|| {
+                                    JSONPathError::syntax(
+                                        String::from("invalid \\uXXXX escape"),
+                                        (start_index, index + 10),
+                                    )
+                                })?;
 
                             codepoint =
                                 0x10000 + (((codepoint & 0x03FF) << 10) | (low_surrogate & 0x03FF));
diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index d38c16d..323b76c 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -84,13 +84,14 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
+    match char::from_u32(code_point) {
+        Some(ch) => {
+            // TODO: better
+            let mut buf = [0; 4];
+            let rv = ch.encode_utf8(&mut buf);
+            Ok(rv.as_bytes().to_owned())
+        }
+        None => Err(JSONPathError::syntax("invalid character".to_owned())),
     }
 }
 
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index d38c16d..323b76c 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -84,13 +84,14 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
+    match char::from_u32(code_point) {
+        Some(ch) => {
+            // TODO: better
+            let mut buf = [0; 4];
+            let rv = ch.encode_utf8(&mut buf);
+            Ok(rv.as_bytes().to_owned())
+        }
+        None => Err(JSONPathError::syntax("invalid character".to_owned())),
     }
 }
 
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 1497595..f285980 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -693,8 +693,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
+                            // a high surrogate is always followed by a low surrogate
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 4cd4dc1..ba9e0ce 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -709,8 +709,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
+                            // a high surrogate is always followed by a low surrogate
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index d38c16d..323b76c 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -84,13 +84,14 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
+    match char::from_u32(code_point) {
+        Some(ch) => {
+            // TODO: better
+            let mut buf = [0; 4];
+            let rv = ch.encode_utf8(&mut buf);
+            Ok(rv.as_bytes().to_owned())
+        }
+        None => Err(JSONPathError::syntax("invalid character".to_owned())),
     }
 }
 
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index d38c16d..323b76c 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -84,13 +84,14 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
 }
 
 fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
+    match char::from_u32(code_point) {
+        Some(ch) => {
+            // TODO: better
+            let mut buf = [0; 4];
+            let rv = ch.encode_utf8(&mut buf);
+            Ok(rv.as_bytes().to_owned())
+        }
+        None => Err(JSONPathError::syntax("invalid character".to_owned())),
     }
 }
 
-- 
2.43.0


From 438afd295abc2447fb641c652afcb8a8e31a9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 12/18] fix: number literals have the value they are written as

The sign of -0.5 was lost, -0e1 was an error, a negative exponent was taken for
a positive one in the pest crates, integers were rounded to a double and those
an i64 can not represent were clamped. The lexer accepted leading zeros and
rejected an upper case E.
---
 crates/jsonpath_rfc9535/src/lexer.rs          | 10 +++-
 crates/jsonpath_rfc9535/src/parser.rs         | 22 +++++---
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 53 +++++--------------
 .../jsonpath_rfc9535_locations/src/parser.rs  | 53 +++++--------------
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 53 +++++--------------
 .../src/parser.rs                             | 53 +++++--------------
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 53 +++++--------------
 .../src/parser.rs                             | 53 +++++--------------
 8 files changed, 102 insertions(+), 248 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index f0e7828..9638561 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -649,6 +649,12 @@ fn lex_number(l: &mut Lexer) -> State {
         return l.error(msg);
     }
 
+    let int = l.value().trim_start_matches('-');
+    if int.len() > 1 && int.starts_with('0') {
+        let msg = format!("invalid number literal '{}'", l.value());
+        return l.error(msg);
+    }
+
     if l.accept('.') {
         // a float
         if !l.accept_run(is_digit) {
@@ -658,7 +664,7 @@ fn lex_number(l: &mut Lexer) -> State {
         }
 
         // exponent
-        if l.accept('e') {
+        if l.accept_if(|ch| ch == 'e' || ch == 'E') {
             l.accept_if(|ch| ch == '+' || ch == '-');
             if !l.accept_run(is_digit) {
                 return l.error(String::from("at least one exponent digit is required"));
@@ -670,7 +676,7 @@ fn lex_number(l: &mut Lexer) -> State {
         });
     } else {
         // exponent
-        if l.accept('e') {
+        if l.accept_if(|ch| ch == 'e' || ch == 'E') {
             if l.accept('-') {
                 // emit a float if exponent is negative
                 if !l.accept_run(is_digit) {
diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 19b517e..f832a80 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -683,15 +683,25 @@ impl Parser {
                 kind: Int { value },
                 span,
             } => {
-                let i = value.parse::<f64>().map_err(|_| {
+                let int = value.parse::<i64>().ok();
+                let float = value.parse::<f64>().map_err(|_| {
                     JSONPathError::syntax(String::from("invalid integer literal"), *span)
-                })? as i64;
+                })?;
 
                 let token = it.next();
-                Ok(FilterExpression::Int {
-                    span: token.span,
-                    value: i,
-                })
+
+                // Integers that an i64 can not represent are floats.
+                if int.is_some() || float.abs() < i64::MAX as f64 {
+                    Ok(FilterExpression::Int {
+                        span: token.span,
+                        value: int.unwrap_or(float as i64),
+                    })
+                } else {
+                    Ok(FilterExpression::Float {
+                        span: token.span,
+                        value: float,
+                    })
+                }
             }
             Token { kind: Null, .. } => {
                 let token = it.next();
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 9b77877..1afddfd 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -282,53 +282,26 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
+        if !is_float {
+            if let Ok(value) = n.parse::<i64>() {
+                return Ok(FilterExpression::Int { value });
             }
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
+        // Integers that an i64 can not represent are floats.
+        if !is_float && value.abs() < i64::MAX as f64 {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
+        } else {
+            Ok(FilterExpression::Float { value })
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 9b77877..1afddfd 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -282,53 +282,26 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
+        if !is_float {
+            if let Ok(value) = n.parse::<i64>() {
+                return Ok(FilterExpression::Int { value });
             }
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
+        // Integers that an i64 can not represent are floats.
+        if !is_float && value.abs() < i64::MAX as f64 {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
+        } else {
+            Ok(FilterExpression::Float { value })
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index f285980..9081e9d 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -334,53 +334,26 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.starts_with('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
+        if !is_float {
+            if let Ok(value) = n.parse::<i64>() {
+                return Ok(FilterExpression::Int { value });
             }
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.starts_with('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
+        // Integers that an i64 can not represent are floats.
+        if !is_float && value.abs() < i64::MAX as f64 {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
+        } else {
+            Ok(FilterExpression::Float { value })
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index ba9e0ce..6135466 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -353,53 +353,26 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
+        if !is_float {
+            if let Ok(value) = n.parse::<i64>() {
+                return Ok(FilterExpression::Int { value });
             }
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
+        // Integers that an i64 can not represent are floats.
+        if !is_float && value.abs() < i64::MAX as f64 {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
+        } else {
+            Ok(FilterExpression::Float { value })
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 58a0513..21df26f 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -279,53 +279,26 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
+        if !is_float {
+            if let Ok(value) = n.parse::<i64>() {
+                return Ok(FilterExpression::Int { value });
             }
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
+        // Integers that an i64 can not represent are floats.
+        if !is_float && value.abs() < i64::MAX as f64 {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
+        } else {
+            Ok(FilterExpression::Float { value })
         }
     }
 
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index b12afa0..4a56586 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -301,53 +301,26 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
+        if !is_float {
+            if let Ok(value) = n.parse::<i64>() {
+                return Ok(FilterExpression::Int { value });
             }
         }
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
+        // Integers that an i64 can not represent are floats.
+        if !is_float && value.abs() < i64::MAX as f64 {
             Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
+                value: value as i64,
             })
+        } else {
+            Ok(FilterExpression::Float { value })
         }
     }
 
-- 
2.43.0


From 6af1781c2acff20ccb9bf20dc0bffa536015708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 13/18] fix: lex bracketed segments and function calls inside
 filters

A bracketed segment that followed another one inside a filter, and a filter
inside the arguments of a function call, were errors. A NUL character ended the
query, whatever followed it.
---
 crates/jsonpath_rfc9535/src/lexer.rs | 33 +++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 9638561..b1c6c96 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -119,6 +119,9 @@ struct Lexer<'q> {
 
     filter_depth: u32,
     paren_stack: Vec<u32>,
+
+    /// The size of `paren_stack` at the start of each filter that we are inside.
+    filter_parens: Vec<usize>,
 }
 
 impl<'q> Lexer<'q> {
@@ -131,9 +134,15 @@ impl<'q> Lexer<'q> {
             chars: query.char_indices(),
             filter_depth: 0,
             paren_stack: Vec::new(),
+            filter_parens: Vec::new(),
         }
     }
 
+    /// Are we inside the arguments of a function call of the current filter?
+    fn inside_function_call(&self) -> bool {
+        self.paren_stack.len() > self.filter_parens.last().copied().unwrap_or(0)
+    }
+
     fn run(&mut self) {
         let mut state = State::LexRoot;
         loop {
@@ -304,8 +313,7 @@ fn lex_segment(l: &mut Lexer) -> State {
         State::LexInsideBracketedSegment
     } else if l.filter_depth > 0 {
         State::LexInsideFilter
-    } else if l.peek() == EOQ {
-        l.next();
+    } else if l.chars.as_str().is_empty() {
         l.emit(TokenType::Eoq);
         State::EndOfQuery
     } else {
@@ -371,11 +379,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         ']' => {
             l.next();
             l.emit(TokenType::RBracket);
-            if l.filter_depth > 0 {
-                State::LexInsideFilter
-            } else {
-                State::LexSegment
-            }
+            State::LexSegment
         }
         '*' => {
             l.next();
@@ -386,6 +390,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::Filter);
             l.filter_depth += 1;
+            l.filter_parens.push(l.paren_stack.len());
             State::LexInsideFilter
         }
         ',' => {
@@ -446,10 +451,11 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
     match l.peek() {
         EOQ => l.error(String::from("unclosed bracketed selection")),
         ']' => {
-            l.filter_depth -= 1;
-            if l.paren_stack.len() == 1 {
+            if l.inside_function_call() {
                 l.error(String::from("unbalanced parentheses"))
             } else {
+                l.filter_depth -= 1;
+                l.filter_parens.pop();
                 State::LexInsideBracketedSegment
             }
         }
@@ -458,10 +464,11 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.emit(TokenType::Comma);
             // If we have unbalanced parens, we are inside a function call and a
             // comma separates arguments. Otherwise a comma separates selectors.
-            if !l.paren_stack.is_empty() {
+            if l.inside_function_call() {
                 State::LexInsideFilter
             } else {
                 l.filter_depth -= 1;
+                l.filter_parens.pop();
                 State::LexInsideBracketedSegment
             }
         }
@@ -477,8 +484,8 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::LParen);
             // Are we in a function call? If so, a function argument contains parens.
-            if let Some(i) = l.paren_stack.last_mut() {
-                *i += 1;
+            if l.inside_function_call() {
+                *l.paren_stack.last_mut().unwrap() += 1;
             }
             State::LexInsideFilter
         }
@@ -486,7 +493,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::RParen);
             // Are we closing a function call or a parenthesized expression?
-            if !l.paren_stack.is_empty() {
+            if l.inside_function_call() {
                 if *l.paren_stack.last().unwrap() == 1 {
                     l.paren_stack.pop();
                 } else {
-- 
2.43.0


From 5e58f21ab7153a3f5b561f31130cd4c969af6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 14/18] fix: return an error for malformed tokens where the
 parser panicked

A debug assertion failed for a selector that was not followed by a comma or
bracket. Trailing commas, missing commas between arguments and a slice step
without its colon were accepted.
---
 crates/jsonpath_rfc9535/src/parser.rs | 53 +++++++++++++++------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index f832a80..bd6d2e0 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -244,7 +244,10 @@ impl Parser {
                 span: it.next().span,
             }]),
             Token { kind: LBracket, .. } => self.parse_bracketed(it),
-            _ => Ok(Vec::new()),
+            token => Err(JSONPathError::syntax(
+                format!("expected a selector, found {}", token.kind),
+                token.span,
+            )),
         }
     }
 
@@ -315,24 +318,18 @@ impl Parser {
                 }
             }
 
-            #[cfg(debug_assertions)]
-            debug_assert!(
-                matches!(
-                    it.peek(),
-                    Token {
-                        kind: Comma | TokenType::RBracket,
-                        ..
-                    }
-                ),
-                "expected a comma or the end of a bracketed selection"
-            );
-
             // expect a comma or closing bracket
             match it.peek() {
                 Token { kind: RBracket, .. } => continue,
                 Token { kind: Comma, .. } => {
                     // eat comma
-                    it.next();
+                    let comma = it.next();
+                    if it.peek().kind == RBracket {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            comma.span,
+                        ));
+                    }
                 }
                 token => {
                     return Err(JSONPathError::new(
@@ -386,6 +383,8 @@ impl Parser {
                 it.next(); // eat colon
             }
 
+            let mut second_colon = false;
+
             // 1 or 1: or : or ?
             if matches!(it.peek().kind, Index { .. } | Colon) {
                 if let Token {
@@ -396,12 +395,15 @@ impl Parser {
                     stop = Some(self.parse_i_json_int(value, span)?);
                     if it.peek().kind == Colon {
                         it.next(); // eat colon
+                        second_colon = true;
                     }
+                } else {
+                    second_colon = true;
                 }
             }
 
             // 1 or ?
-            if matches!(it.peek().kind, Index { .. }) {
+            if second_colon && matches!(it.peek().kind, Index { .. }) {
                 if let Token {
                     kind: Index { ref value },
                     span,
@@ -765,18 +767,23 @@ impl Parser {
                     break;
                 }
                 Token { kind: Comma, .. } => {
-                    it.next(); // eat comma
+                    let comma = it.next(); // eat comma
+                    if it.peek().kind == RParen {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            comma.span,
+                        ));
+                    }
+                }
+                token => {
+                    return Err(JSONPathError::syntax(
+                        format!("expected a comma or closing paren, found {}", token.kind),
+                        token.span,
+                    ));
                 }
-                _ => (),
             }
         }
 
-        #[cfg(debug_assertions)]
-        debug_assert!(
-            matches!(it.peek(), Token { kind: RParen, .. }),
-            "expected closing paren"
-        );
-
         it.next(); // eat closing paren
 
         if let Function { ref name } = &token.kind {
-- 
2.43.0


From 042a9d7b6666f8603730b3f4cda5ca2244c6835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 15/18] fix: reject logical expressions that are not well-typed

Comparisons of comparisons, negated and parenthesized operands, double negation
and values in place of a logical expression were accepted.
---
 crates/jsonpath_rfc9535/src/parser.rs | 137 +++++++++++++++-----------
 1 file changed, 78 insertions(+), 59 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index bd6d2e0..73206ec 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -450,32 +450,7 @@ impl Parser {
         let token = it.next();
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOWEST)?;
 
-        match expr {
-            FilterExpression::Function { ref name, span, .. } => {
-                if let Some(FunctionSignature {
-                    return_type: ExpressionType::Value,
-                    ..
-                }) = self.functions.get(name)
-                {
-                    return Err(JSONPathError::typ(
-                        format!("result of {}() must be compared", name),
-                        span,
-                    ));
-                }
-            }
-            FilterExpression::True { span, .. }
-            | FilterExpression::False { span, .. }
-            | FilterExpression::Null { span, .. }
-            | FilterExpression::String { span, .. }
-            | FilterExpression::Int { span, .. }
-            | FilterExpression::Float { span, .. } => {
-                return Err(JSONPathError::typ(
-                    String::from("filter expression literals must be compared"),
-                    span,
-                ));
-            }
-            _ => (),
-        }
+        self.assert_compared(&expr)?;
 
         Ok(Selector::Filter {
             span: token.span,
@@ -488,7 +463,16 @@ impl Parser {
         it: &mut TokenStream,
     ) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
+
+        if it.peek().kind == Not {
+            return Err(JSONPathError::syntax(
+                String::from("unexpected double negation"),
+                token.span,
+            ));
+        }
+
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
+        self.assert_compared(&expr)?;
         Ok(FilterExpression::Not {
             span: token.span,
             expression: Box::new(expr),
@@ -502,38 +486,36 @@ impl Parser {
     ) -> Result<FilterExpression, JSONPathError> {
         let op_token = it.next();
         let precedence = self.precedence(&op_token.kind);
+
+        if is_comparison_operator(&op_token.kind) && it.peek().kind == LParen {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expression is not comparable"),
+                it.peek().span,
+            ));
+        }
+
         let right = self.parse_filter_expression(it, precedence)?;
 
         match op_token.kind {
             And => {
-                if left.is_literal() || right.is_literal() {
-                    Err(JSONPathError::syntax(
-                        String::from("filter expression literals must be compared"),
-                        left.span(),
-                    ))
-                } else {
-                    Ok(FilterExpression::Logical {
-                        span: left.span(),
-                        left: Box::new(left),
-                        operator: LogicalOperator::And,
-                        right: Box::new(right),
-                    })
-                }
+                self.assert_compared(&left)?;
+                self.assert_compared(&right)?;
+                Ok(FilterExpression::Logical {
+                    span: left.span(),
+                    left: Box::new(left),
+                    operator: LogicalOperator::And,
+                    right: Box::new(right),
+                })
             }
             Or => {
-                if left.is_literal() || right.is_literal() {
-                    Err(JSONPathError::syntax(
-                        String::from("filter expression literals must be compared"),
-                        left.span(),
-                    ))
-                } else {
-                    Ok(FilterExpression::Logical {
-                        span: left.span(),
-                        left: Box::new(left),
-                        operator: LogicalOperator::Or,
-                        right: Box::new(right),
-                    })
-                }
+                self.assert_compared(&left)?;
+                self.assert_compared(&right)?;
+                Ok(FilterExpression::Logical {
+                    span: left.span(),
+                    left: Box::new(left),
+                    operator: LogicalOperator::Or,
+                    right: Box::new(right),
+                })
             }
             Eq => {
                 self.assert_comparable(&left, left.span())?;
@@ -641,6 +623,15 @@ impl Parser {
         );
 
         it.next(); // eat closing paren
+        self.assert_compared(&expr)?;
+
+        if is_comparison_operator(&it.peek().kind) {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expression is not comparable"),
+                it.peek().span,
+            ));
+        }
+
         Ok(expr)
     }
 
@@ -865,6 +856,36 @@ impl Parser {
                     ))
                 }
             }
+            FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. }
+            | FilterExpression::Not { .. } => Err(JSONPathError::typ(
+                String::from("logical expression is not comparable"),
+                span,
+            )),
+            _ => Ok(()),
+        }
+    }
+
+    /// Literals and functions that return a value are not test expressions.
+    fn assert_compared(&self, expr: &FilterExpression) -> Result<(), JSONPathError> {
+        match expr {
+            FilterExpression::Function { name, span, .. } => {
+                if let Some(FunctionSignature {
+                    return_type: ExpressionType::Value,
+                    ..
+                }) = self.functions.get(name)
+                {
+                    return Err(JSONPathError::typ(
+                        format!("result of {}() must be compared", name),
+                        *span,
+                    ));
+                }
+                Ok(())
+            }
+            _ if expr.is_literal() => Err(JSONPathError::typ(
+                String::from("filter expression literals must be compared"),
+                expr.span(),
+            )),
             _ => Ok(()),
         }
     }
@@ -914,13 +935,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Logical' type",
@@ -1027,6 +1042,10 @@ fn parse_hex_digits(digits: &str) -> Option<u32> {
     }
 }
 
+fn is_comparison_operator(kind: &TokenType) -> bool {
+    matches!(kind, Eq | Ge | Gt | Le | Lt | Ne)
+}
+
 fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, JSONPathError> {
     let chars = value.chars().collect::<Vec<char>>();
     let length = chars.len();
-- 
2.43.0


From 5c3cf1261de36df2dda94a2991a4e5523ebaff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 16/18] fix: type check negated functions and logical arguments

A negated function call that returns a value was accepted, and logical
expressions were not accepted as arguments of a logical parameter.
---
 .../jsonpath_rfc9535_iter/src/jsonpath.pest   |  8 ++++----
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 20 +++++++++----------
 .../src/jsonpath.pest                         |  8 ++++----
 .../jsonpath_rfc9535_locations/src/parser.rs  | 20 +++++++++----------
 .../jsonpath_rfc9535_pest/src/jsonpath.pest   |  8 ++++----
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 20 +++++++++----------
 .../src/jsonpath.pest                         |  8 ++++----
 .../src/parser.rs                             | 20 +++++++++----------
 .../jsonpath_rfc9535_serde/src/jsonpath.pest  |  8 ++++----
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 20 +++++++++----------
 .../src/jsonpath.pest                         |  8 ++++----
 .../src/parser.rs                             | 20 +++++++++----------
 12 files changed, 78 insertions(+), 90 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index e1f7edb..d1d79f4 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +149,9 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
+  | (function_expr ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 1afddfd..e02622e 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -309,9 +309,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -400,7 +404,7 @@ impl JSONPathParser {
                     }),
                 }
             }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
+            Rule::logical_or_expr => self.parse_logical_or_expression(expr, true)?,
             Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
@@ -511,13 +515,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index e1f7edb..d1d79f4 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +149,9 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
+  | (function_expr ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 1afddfd..e02622e 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -309,9 +309,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -400,7 +404,7 @@ impl JSONPathParser {
                     }),
                 }
             }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
+            Rule::logical_or_expr => self.parse_logical_or_expression(expr, true)?,
             Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
@@ -511,13 +515,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index e1f7edb..d1d79f4 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +149,9 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
+  | (function_expr ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 9081e9d..3c0b978 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -361,9 +361,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -452,7 +456,7 @@ impl JSONPathParser {
                     }),
                 }
             }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
+            Rule::logical_or_expr => self.parse_logical_or_expression(expr, true)?,
             Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
@@ -563,13 +567,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index e1f7edb..d1d79f4 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +149,9 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
+  | (function_expr ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 6135466..910adbd 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -380,9 +380,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -467,7 +471,7 @@ impl JSONPathParser {
                     query: Box::new(Query { ast: segments? }),
                 }
             }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
+            Rule::logical_or_expr => self.parse_logical_or_expression(expr, true)?,
             Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
@@ -579,13 +583,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index e1f7edb..d1d79f4 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -109,9 +109,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -149,9 +149,9 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
+  | (function_expr ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 21df26f..9142483 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -306,9 +306,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -397,7 +401,7 @@ impl JSONPathParser {
                     }),
                 }
             }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
+            Rule::logical_or_expr => self.parse_logical_or_expression(expr, true)?,
             Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
@@ -508,13 +512,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 26df850..094ba39 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -112,9 +112,9 @@ literal = _{
 }
 
 comparable = _{
-    literal
+    function_expr
+  | literal
   | singular_query
-  | function_expr
 }
 
 comparison_op = {
@@ -161,9 +161,9 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (filter_query ~ &(S ~ ("," | ")")))
+  | (function_expr ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
   | literal
 }
 
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index 4a56586..86b9aa8 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -328,9 +328,13 @@ impl JSONPathParser {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expression = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expression)?;
+                FilterExpression::Not {
+                    expression: Box::new(expression),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -419,7 +423,7 @@ impl JSONPathParser {
                     }),
                 }
             }
-            Rule::logical_or_expr => self.parse_logical_or_expression(expr, false)?,
+            Rule::logical_or_expr => self.parse_logical_or_expression(expr, true)?,
             Rule::function_expr => self.parse_function_expression(expr)?,
             _ => unreachable!(),
         })
@@ -530,13 +534,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if arg.is_literal() || self.assert_compared(arg).is_err() {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
-- 
2.43.0


From 99bad4a3d6b399f471c5ebea5ecee88682e9cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:44 +0000
Subject: [PATCH 17/18] fix: positions of errors in string literals point into
 the text

The ends of the spans were relative to the literal while the starts were
relative to the query, so a span could end before it started.
---
 crates/jsonpath_rfc9535/src/parser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 73206ec..70dbfc4 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -1060,7 +1060,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                 if index + 1 >= length {
                     return Err(JSONPathError::syntax(
                         String::from("invalid escape"),
-                        (start_index, index + 1),
+                        (start_index, token_span.0 + index + 1),
                     ));
                 }
 
@@ -1080,7 +1080,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                         if index + 4 >= length {
                             return Err(JSONPathError::syntax(
                                 String::from("invalid \\uXXXX escape"),
-                                (start_index, length),
+                                (start_index, token_span.0 + length),
                             ));
                         }
 
@@ -1095,7 +1095,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                         let mut codepoint = parse_hex_digits(&digits).ok_or_else(|| {
                             JSONPathError::syntax(
                                 String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 4),
+                                (start_index, token_span.0 + index + 4),
                             )
                         })?;
 
@@ -1107,7 +1107,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                             {
                                 return Err(JSONPathError::syntax(
                                     String::from("invalid \\uXXXX escape"),
-                                    (start_index, length),
+                                    (start_index, token_span.0 + length),
                                 ));
                             }
 
@@ -1122,7 +1122,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                                 .ok_or_else(|| {
                                     JSONPathError::syntax(
                                         String::from("invalid \\uXXXX escape"),
-                                        (start_index, index + 10),
+                                        (start_index, token_span.0 + index + 10),
                                     )
                                 })?;
 
@@ -1135,7 +1135,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                         let unescaped = char::from_u32(codepoint).ok_or_else(|| {
                             JSONPathError::syntax(
                                 String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 3),
+                                (start_index, token_span.0 + index + 3),
                             )
                         })?;
 
@@ -1152,7 +1152,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                     _ => {
                         return Err(JSONPathError::syntax(
                             String::from("invalid escape"),
-                            (start_index, index + 1),
+                            (start_index, token_span.0 + index + 1),
                         ));
                     }
                 }
@@ -1161,7 +1161,7 @@ fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, J
                 if c as u32 <= 0x1F {
                     return Err(JSONPathError::syntax(
                         String::from("invalid character"),
-                        (start_index, index + 1),
+                        (start_index, token_span.0 + index + 1),
                     ));
                 }
                 rv.push(c);
-- 
2.43.0


From 53806ee6bfff275dbb2a53425fe2ff03a85c4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:35 +0000
Subject: [PATCH 18/18] fix: give logical parameters of registered functions
 the outcome of an existence test

An argument for a parameter of LogicalType was converted like one of
ValueType: the value of a single node was passed instead of true, so that
a node with the value false counted as false, and an empty or longer
nodelist was passed on as it was.
---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 22f7fb4..b92b8b3 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -403,8 +403,10 @@ fn unpack_result<'v>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'v> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index e5c3a75..fe130b2 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -401,8 +401,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 478108f..923341a 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -916,8 +916,10 @@ fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> Result<FilterExpressionResult<'a>, JSONPathError> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return Ok(rv);
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return Ok(rv),
+        ExpressionType::Logical => return Ok(FilterExpressionResult::Bool(is_truthy(rv))),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index e5c3a75..fe130b2 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -401,8 +401,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
-- 
2.43.0

