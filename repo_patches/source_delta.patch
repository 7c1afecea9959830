From ce5fe2b0778f92df0a8a3c2f23808dd74b94424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 01/60] fix: non-ASCII characters in a query string are decoded
 as they are

---
 rust/pact_models/src/query_strings.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7df3f94..7f4d79c 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -8,6 +8,10 @@ use tracing::{error, trace, warn};
 
 use crate::PactSpecification;
 
+fn push_char(buffer: &mut Vec<u8>, ch: char) {
+  buffer.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
+}
+
 /// Decodes a query string using a percent-encoding scheme
 pub fn decode_query(query: &str) -> Result<String, String> {
   let mut chars = query.chars();
@@ -34,21 +38,21 @@ pub fn decode_query(query: &str) -> Result<String, String> {
             Err(err) => {
               error!("Failed to decode '%{}{}' to as HEX - {}", v1, v2, err);
               buffer.push('%' as u8);
-              buffer.push(v1 as u8);
-              buffer.push(v2 as u8);
+              push_char(&mut buffer, v1);
+              push_char(&mut buffer, v2);
             }
           }
         },
         (Some(v1), None) => {
           buffer.push('%' as u8);
-          buffer.push(v1 as u8);
+          push_char(&mut buffer, v1);
         },
         _ => buffer.push('%' as u8)
       }
     } else if c == '+' {
       buffer.push(' ' as u8);
     } else {
-      buffer.push(c as u8);
+      push_char(&mut buffer, c);
     }
 
     ch = chars.next();
-- 
2.43.0


From 63f2b478c2e0b58b12bf7d1691e794362e2e571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 02/60] fix: encoding a query string panicked on characters
 with an odd number of hex digits

---
 rust/pact_models/src/query_strings.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 7f4d79c..42d9f64 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -76,16 +76,13 @@ pub fn encode_query(query: &str) -> String {
       'a'..='z' => ch.to_string(),
       'A'..='Z' => ch.to_string(),
       '0'..='9' => ch.to_string(),
-      _ => ch.escape_unicode()
-        .filter(|u| u.is_digit(16))
-        .batching(|it| {
-          match it.next() {
-            None => None,
-            Some(x) => Some((x, it.next().unwrap()))
-          }
-        })
-        .map(|u| format!("%{}{}", u.0, u.1))
-        .collect()
+      _ => {
+        let hex = format!("{:x}", ch as u32);
+        let hex = if hex.len() % 2 == 0 { hex } else { format!("0{}", hex) };
+        hex.as_bytes().chunks(2)
+          .map(|digits| format!("%{}", digits.iter().map(|d| *d as char).join("")))
+          .collect()
+      }
     }
   }).collect()
 }
-- 
2.43.0


From 09b4bd1ef3677d08bcc997f5d0c954a29b0928da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 03/60] fix: query parameter names are encoded in query strings

---
 rust/pact_models/src/query_strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 42d9f64..6ba9a21 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -127,8 +127,8 @@ pub fn build_query_string(query: HashMap<String, Vec<Option<String>>>) -> String
     .flat_map(|kv| {
       kv.1.iter()
         .map(|v| match v {
-          None => kv.0.clone(),
-          Some(s) => format!("{}={}", kv.0, encode_query(s))
+          None => encode_query(&kv.0),
+          Some(s) => format!("{}={}", encode_query(&kv.0), encode_query(s))
         })
         .collect_vec()
     })
-- 
2.43.0


From c7cdab311b25bb6539c38cf53b3cc0927fa9e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 04/60] fix: a non-string query value in a list stands for
 itself, not for the whole list

---
 rust/pact_models/src/query_strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/query_strings.rs b/rust/pact_models/src/query_strings.rs
index 6ba9a21..abaef32 100644
--- a/rust/pact_models/src/query_strings.rs
+++ b/rust/pact_models/src/query_strings.rs
@@ -160,7 +160,7 @@ pub fn v3_query_from_json(
         Value::Array(array) => array.iter().map(|item| match item {
           Value::String(s) => Some(s.clone()),
           Value::Null => None,
-          _ => Some(v.to_string())
+          _ => Some(item.to_string())
         }).collect(),
         _ => {
           warn!("Query parameter value '{}' is not valid, ignoring", v);
-- 
2.43.0


From fa94f837dc41b8853b8a8b7f468f27669711864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 05/60] fix: a request written as V4 is read with its query

---
 rust/pact_models/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 4a12198..03d95b5 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -158,7 +158,7 @@ impl Request {
     };
     let query_val = match request_json.get("query") {
       Some(v) => match spec_version {
-        &PactSpecification::V3 => v3_query_from_json(v, spec_version),
+        &PactSpecification::V3 | &PactSpecification::V4 => v3_query_from_json(v, spec_version),
         _ => query_from_json(v, spec_version)
       },
       None => None
-- 
2.43.0


From fb906709d1d952a88907ea4f0b40c8f594ee9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 06/60] fix: a path expression with an index that is not a
 usize is an error, not a panic

---
 rust/pact_models/src/path_exp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index a6e3e88..0bf7b4e 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -648,8 +648,13 @@ fn index_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &st
     }
   }
 
-  tokens.push(PathToken::Index(id.parse().unwrap()));
-  Ok(())
+  match id.parse() {
+    Ok(index) => {
+      tokens.push(PathToken::Index(index));
+      Ok(())
+    }
+    Err(err) => Err(format!("\"{}\" is not a valid index in path expression \"{}\" - {}", id, path, err))
+  }
 }
 
 // bracket_path -> (string_path | index | *) ]
-- 
2.43.0


From cfc56ed9a9f6fd37f6fcde24358af4275891c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 07/60] fix: quotes and backslashes escaped in a path
 expression are unescaped when it is parsed

---
 rust/pact_models/src/path_exp.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/pact_models/src/path_exp.rs b/rust/pact_models/src/path_exp.rs
index 0bf7b4e..ec4d6dd 100644
--- a/rust/pact_models/src/path_exp.rs
+++ b/rust/pact_models/src/path_exp.rs
@@ -603,6 +603,15 @@ fn string_path<I>(chars: &mut Peekable<I>, tokens: &mut Vec<PathToken>, path: &s
     let mut ch = next_char.unwrap();
     next_char = peek(chars);
     while ch.1 != '\'' && next_char.is_some() {
+      if ch.1 == '\\' && matches!(next_char, Some((_, '\'')) | Some((_, '\\'))) {
+        // escaped quote or backslash, as written when a path is built from its fields
+        ch = next_char.unwrap();
+        chars.next();
+        next_char = peek(chars);
+        if next_char.is_none() {
+          return Err(format!("Unterminated string in path expression \"{}\" at index {}", path, ch.0));
+        }
+      }
       id.push(ch.1);
       chars.next();
       ch = next_char.unwrap();
-- 
2.43.0


From 732a428fb842cd21b82b6f363eca2ce155196469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 08/60] fix: the matcher selected for a path does not depend on
 the iteration order of the rules

---
 rust/pact_models/src/matchingrules/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index cc358e7..80ae1ef 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -992,11 +992,20 @@ impl MatchingRuleCategory {
   }
 
   fn max_by_path(&self, path: &[&str]) -> RuleList {
+    self.best_by_path(path)
+      .map(|(v, t)| v.as_cascaded(t != path.len()))
+      .unwrap_or_default()
+  }
+
+  // Rules with the greatest weight for the path. Paths with the same weight are ordered by their
+  // expression, so that the result does not depend on the iteration order of the map.
+  fn best_by_path(&self, path: &[&str]) -> Option<(&RuleList, usize)> {
     self.rules.iter().map(|(k, v)| (k, v, k.path_weight(path)))
       .filter(|&(_, _, (w, _))| w > 0)
-      .max_by_key(|&(_, _, (w, t))| w * t)
-      .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))
-      .unwrap_or_default()
+      .max_by(|&(k1, _, (w1, t1)), &(k2, _, (w2, t2))| {
+        (w1 * t1).cmp(&(w2 * t2)).then_with(|| k1.cmp(k2))
+      })
+      .map(|(_, v, (_, t))| (v, t))
   }
 
   /// Returns a JSON Value representation in V3 format
@@ -1074,6 +1083,9 @@ impl MatchingRuleCategory {
   pub fn select_best_matcher(&self, path: &[&str]) -> RuleList {
     match self.name {
       Category::BODY | Category::METADATA => self.max_by_path(path),
+      Category::HEADER | Category::QUERY | Category::CONTENTS => self.best_by_path(path)
+        .map(|(rules, _)| rules.clone())
+        .unwrap_or_default(),
       _ => self.resolve_matchers_for_path(path).as_rule_list()
     }
   }
-- 
2.43.0


From d71f8a1ccef23f1284dd94ed62129a3125173af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 09/60] fix: matching rules written in V2 form keep their
 location

Rules for the metadata, method and status categories were written with a path that
can not be loaded, a '$' in a field name of a body path was replaced as well, and
names of headers and query parameters that are not plain path expressions were
parsed as expressions when loaded.
---
 rust/pact_models/src/matchingrules/mod.rs | 24 ++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 80ae1ef..e8c3781 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -57,6 +57,19 @@ fn rules_from_json(attributes: &Map<String, Value>) -> anyhow::Result<Vec<Either
   }
 }
 
+/// Path to the single field with the given name. Names which are a path expression for something
+/// else, or are not a valid path expression, are pushed as a field onto the root.
+fn path_for_name(name: String) -> DocPath {
+  match DocPath::new(name.as_str()) {
+    Ok(path) if path.tokens() == &vec![PathToken::Root, PathToken::Field(name.clone())] => path,
+    _ => {
+      let mut path = DocPath::root();
+      path.push_field(name);
+      path
+    }
+  }
+}
+
 /// Set of all matching rules
 #[derive(Debug, Clone, Eq)]
 pub enum MatchingRule {
@@ -1034,17 +1047,14 @@ impl MatchingRuleCategory {
         map.insert("$.path".to_string(), v.to_v2_json());
       }
       Category::BODY => for (k, v) in self.rules.clone() {
-        map.insert(String::from(k).replace("$", "$.body"), v.to_v2_json());
+        map.insert(String::from(k).replacen("$", "$.body", 1), v.to_v2_json());
       }
-      Category::HEADER | Category::QUERY => for (k, v) in &self.rules {
+      _ => for (k, v) in &self.rules {
         let mut path = DocPath::root();
         path.push_field(self.name.v2_form());
         path.push_path(k);
         map.insert(path.to_string(), v.to_v2_json());
       }
-      _ => for (k, v) in &self.rules {
-        map.insert(format!("$.{}.{}", self.name.v2_form(), k), v.to_v2_json());
-      }
     };
 
     map
@@ -1366,7 +1376,7 @@ impl MatchingRules {
           _ => None
         }).skip(1).next();
         let header = header_name.ok_or_else(|| anyhow!("'{}' is not a valid path value for a matching rule", key))?;
-        self.add_v2_rule("header", DocPath::new(header)?, v)?;
+        self.add_v2_rule("header", path_for_name(header), v)?;
       } else {
         let path = DocPath::new(key)?;
         let mut names = path.tokens().iter().filter_map(|t| match t {
@@ -1377,7 +1387,7 @@ impl MatchingRules {
         let name = names.next();
         self.add_v2_rule(
           category,
-          if let Some(name) = name { DocPath::new(name)? } else { DocPath::empty() },
+          if let Some(name) = name { path_for_name(name) } else { DocPath::empty() },
           v,
         )?;
       }
-- 
2.43.0


From a7ab20594c349d8f40f1e0c3f12a7727456b8fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 10/60] fix: rules for a header or query parameter named
 'matchers' are loaded

---
 rust/pact_models/src/matchingrules/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index e8c3781..f26e96a 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1154,7 +1154,7 @@ impl MatchingRuleCategory {
         }
       }
     } else if let Value::Object(m) = rules {
-      if m.contains_key("matchers") {
+      if m.get("matchers").map_or(false, |matchers| matchers.is_array()) {
         self.add_rule_list(DocPath::empty(), rules)?;
       } else if self.name == Category::QUERY || self.name == Category::HEADER {
         for (k, v) in m {
-- 
2.43.0


From e464726b74e732a03140362333d4e754a4c371ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 11/60] fix: quoted strings in matching rule definitions end at
 the closing quote and are unescaped

A string that ends with an escaped backslash ran into the next string, escaped quotes
at the end of a string were stripped, and escapes in the example values of equalTo,
type and notEmpty were not processed.
---
 rust/pact_models/src/matchingrules/expressions.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index f6de6eb..caa81fc 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -283,7 +283,7 @@ enum MatcherDefinitionToken {
   #[token(",")]
   Comma,
 
-  #[regex(r"'(?:[^']|\\')*'")]
+  #[regex(r"'(?:[^'\\]|\\(?s:.))*'")]
   String,
 
   #[regex("[a-zA-Z]+")]
@@ -797,7 +797,10 @@ fn parse_primitive_value(
 ) -> anyhow::Result<(String, ValueType, Option<Generator>)> {
   let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a primitive value"))?;
   match next {
-    Ok(MatcherDefinitionToken::String) => Ok((lex.slice().trim_matches('\'').to_string(), ValueType::String, None)),
+    Ok(MatcherDefinitionToken::String) => {
+      let value = process_raw_string(unquote(lex.slice()), lex.span(), v)?;
+      Ok((value, ValueType::String, None))
+    },
     Ok(MatcherDefinitionToken::Null) => Ok((String::new(), ValueType::String, None)),
     Ok(MatcherDefinitionToken::Int(_)) => {
       // Logos is returning an INT token when a Decimal should match. We need to now parse the
@@ -921,8 +924,7 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   let next = lex.next().ok_or_else(|| end_of_expression(v, "a string"))?;
   if let Ok(MatcherDefinitionToken::String) = next {
     let span = lex.span();
-    let raw_str = lex.slice().trim_matches('\'');
-    process_raw_string(raw_str, span, v)
+    process_raw_string(unquote(lex.slice()), span, v)
   } else {
     let mut buffer = BytesMut::new().writer();
     let span = lex.span();
@@ -938,6 +940,11 @@ fn parse_string(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
   }
 }
 
+/// Removes the quotes that enclose a string token
+fn unquote(token: &str) -> &str {
+  &token[1..token.len() - 1]
+}
+
 fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<String> {
   let mut buffer = String::with_capacity(raw_str.len());
   let mut chars = raw_str.chars();
-- 
2.43.0


From a03bcbba70c8873b928d2b12c091df1c34e7d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 12/60] fix: text that is not a token is an error wherever it
 is in a matching rule definition

---
 .../src/matchingrules/expressions.rs          | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index caa81fc..57bfd86 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -353,8 +353,8 @@ pub fn is_matcher_def(v: &str) -> bool {
 //     ;
 fn matching_definition(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<MatchingRuleDefinition> {
   let mut value = matching_definition_exp(lex, v)?;
-  while let Some(Ok(next)) = lex.next() {
-    if next == MatcherDefinitionToken::Comma {
+  while let Some(next) = lex.next() {
+    if let Ok(MatcherDefinitionToken::Comma) = next {
       value = value.merge(&matching_definition_exp(lex, v)?);
     } else {
       return Err(anyhow!("expected comma, got '{}'", lex.slice()));
@@ -807,7 +807,7 @@ fn parse_primitive_value(
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
         let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+        parse_decimal_part(lex, v)?;
         Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
@@ -818,7 +818,7 @@ fn parse_primitive_value(
       // remaining pattern if it is a decimal
       if lex.remainder().starts_with('.') {
         let int_part = lex.slice();
-        let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+        parse_decimal_part(lex, v)?;
         Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, None))
       } else {
         Ok((lex.slice().to_string(), ValueType::Integer, None))
@@ -833,6 +833,16 @@ fn parse_primitive_value(
   }
 }
 
+// Consumes the decimal part (DOT DIGIT+) of a number
+fn parse_decimal_part(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<()> {
+  let next = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+  if let Ok(MatcherDefinitionToken::DecimalPart) = next {
+    Ok(())
+  } else {
+    Err(anyhow!(error_message(lex, v, "Expected a number", "Expected a number here")?))
+  }
+}
+
 // COMMA val=( DECIMAL_LITERAL | INTEGER_LITERAL | 'fromProviderState' fromProviderState)
 #[allow(clippy::if_same_then_else)]
 fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Result<(String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>)> {
@@ -845,7 +855,7 @@ fn parse_number(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Res
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
       let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+      parse_decimal_part(lex, v)?;
       Ok((format!("{}{}", int_part, lex.slice()), ValueType::Number, Some(MatchingRule::Number), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Number, Some(MatchingRule::Number), None, None))
@@ -890,7 +900,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
     // remaining pattern if it is a decimal
     if lex.remainder().starts_with('.') {
       let int_part = lex.slice();
-      let _ = lex.next().ok_or_else(|| end_of_expression(v, "expected a number"))?;
+      parse_decimal_part(lex, v)?;
       Ok((format!("{}{}", int_part, lex.slice()), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
     } else {
       Ok((lex.slice().to_string(), ValueType::Decimal, Some(MatchingRule::Decimal), None, None))
-- 
2.43.0


From d419b6037ae8b688143ac7ead405924f870cc415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 13/60] fix: a decimal definition from a provider state is a
 decimal rule

---
 rust/pact_models/src/matchingrules/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 57bfd86..dcb906a 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -910,7 +910,7 @@ fn parse_decimal(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Re
   } else if let Ok(MatcherDefinitionToken::Id) = next {
     if lex.slice() == "fromProviderState" {
       let (value, value_type, generator) = from_provider_state(lex, v)?;
-      Ok((value, value_type, Some(MatchingRule::Number), generator, None))
+      Ok((value, value_type, Some(MatchingRule::Decimal), generator, None))
     } else {
       Err(anyhow!(error_message(lex, v, "Expected a decimal number", "Expected a decimal number here")?))
     }
-- 
2.43.0


From 764ca6ef4720214290a81c14a5b29dedbe55171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 14/60] fix: only fromProviderState is taken for it in date and
 time definitions

---
 rust/pact_models/src/matchingrules/expressions.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index dcb906a..606bf7f 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -720,6 +720,9 @@ fn parse_datetime(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::R
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
     lex.next();
+    if lex.slice() != "fromProviderState" {
+      return Err(anyhow!(error_message(lex, v, "Expected a string value", "Expected this to be a string")?));
+    }
     from_provider_state(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::DateTime(Some(format.clone()), None)))
@@ -737,6 +740,9 @@ fn parse_date(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
     lex.next();
+    if lex.slice() != "fromProviderState" {
+      return Err(anyhow!(error_message(lex, v, "Expected a string value", "Expected this to be a string")?));
+    }
     from_provider_state(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::Date(Some(format.clone()), None)))
@@ -754,6 +760,9 @@ fn parse_time(lex: &mut Lexer<MatcherDefinitionToken>, v: &str) -> anyhow::Resul
   let remainder = lex.remainder().trim_start();
   let (value, value_type, generator) = if remainder.starts_with("fromProviderState") {
     lex.next();
+    if lex.slice() != "fromProviderState" {
+      return Err(anyhow!(error_message(lex, v, "Expected a string value", "Expected this to be a string")?));
+    }
     from_provider_state(lex, v)?
   } else {
     (parse_string(lex, v)?, ValueType::String, Some(Generator::Time(Some(format.clone()), None)))
-- 
2.43.0


From 77e13d929d666f3efd226c89180251871d423132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 15/60] fix: a sign is not a hex digit of a unicode escape in a
 matching rule definition

---
 rust/pact_models/src/matchingrules/expressions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/matchingrules/expressions.rs b/rust/pact_models/src/matchingrules/expressions.rs
index 606bf7f..a64738f 100644
--- a/rust/pact_models/src/matchingrules/expressions.rs
+++ b/rust/pact_models/src/matchingrules/expressions.rs
@@ -1000,6 +1000,10 @@ fn process_raw_string(raw_str: &str, span: Span, v: &str) -> anyhow::Result<Stri
                 let code4 = char_or_error(chars.next(), &span, v)?;
                 b.push(code4);
               }
+              if b.starts_with('+') {
+                // not a digit, but accepted by from_str_radix
+                char_or_error(None, &span, v)?;
+              }
               let code = match u32::from_str_radix(b.as_str(), 16) {
                 Ok(c) => c,
                 Err(err) => return string_error(&err, &span, v)
-- 
2.43.0


From 7aa729dc9d22efc9385a454249a5b77d8a09d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 16/60] fix: the closing brace of an expression is looked for
 after its start

---
 rust/pact_models/src/expression_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 617fada..296bfb2 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -382,7 +382,8 @@ fn replace_expressions(value: &str, value_resolver: &dyn ValueResolver<Value>) -
     if index > 0 {
       result.push(json!(&buffer[0..index]));
     }
-    let end_position = buffer.find('}')
+    let end_position = buffer[index..].find('}')
+      .map(|pos| pos + index)
       .ok_or_else(|| anyhow!("Missing closing brace in expression string '{}'", value))?;
     if end_position - index > 2 {
       let lookup_key = &buffer[(index + 2)..end_position];
-- 
2.43.0


From 8de6f0e83ce407e1d844d5dfdb69669fbd051f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 17/60] fix: a value outside the range of the integer type
 asked for is an error

---
 rust/pact_models/src/expression_parser.rs | 38 ++++++++++++++---------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 296bfb2..15c423d 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -102,7 +102,7 @@ impl DataValue {
         } else if let Some(n) = n.as_i64() {
           Ok(json!(n))
         } else if let Some(n) = n.as_f64() {
-          Ok(json!(n as i64))
+          float_to_int::<i64>(n).map(|n| json!(n))
         } else {
           Err(anyhow!("Internal Error: Number is neither u64, i64, or f64"))
         }
@@ -151,6 +151,16 @@ impl DataValue {
   }
 }
 
+// Integer part of a floating point number, or an error if it is outside the range of the integer type
+fn float_to_int<T: TryFrom<i128>>(n: f64) -> anyhow::Result<T> {
+  // values outside the range of an i128 (or NaN) can not be in the range of any of the smaller types
+  if n.is_nan() {
+    Err(anyhow!("'{}' is not a number", n))
+  } else {
+    T::try_from(n as i128).map_err(|_| anyhow!("'{}' is outside the range of {}", n, std::any::type_name::<T>()))
+  }
+}
+
 impl TryFrom<DataValue> for u16 {
   type Error = anyhow::Error;
 
@@ -163,11 +173,11 @@ impl TryFrom<DataValue> for u16 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", value.wrapped, err))
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u16)
+        u16::try_from(n).map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", value.wrapped, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u16)
+        float_to_int(n)
       } else {
         Ok(0)
       }
@@ -175,8 +185,8 @@ impl TryFrom<DataValue> for u16 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u16>()
           .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u16)
-          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u16 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int),
         _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u16 can not be generated from {}", value.wrapped))
@@ -198,9 +208,9 @@ impl TryFrom<DataValue> for u64 {
       Value::Number(n) => if let Some(n) = n.as_u64() {
         Ok(n)
       } else if let Some(n) = n.as_i64() {
-        Ok(n as u64)
+        u64::try_from(n).map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", value.wrapped, err))
       } else if let Some(n) = n.as_f64() {
-        Ok(n as u64)
+        float_to_int(n)
       } else {
         Ok(0)
       }
@@ -208,8 +218,8 @@ impl TryFrom<DataValue> for u64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<u64>()
           .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as u64)
-          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("u64 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int),
         _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("u64 can not be generated from {}", value.wrapped))
@@ -229,11 +239,11 @@ impl TryFrom<DataValue> for i64 {
         Ok(0)
       }
       Value::Number(n) => if let Some(n) = n.as_u64() {
-        Ok(n as i64)
+        i64::try_from(n).map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", value.wrapped, err))
       } else if let Some(n) = n.as_i64() {
         Ok(n)
       } else if let Some(n) = n.as_f64() {
-        Ok(n as i64)
+        float_to_int(n)
       } else {
         Ok(0)
       }
@@ -241,8 +251,8 @@ impl TryFrom<DataValue> for i64 {
         DataType::INTEGER | DataType::RAW | DataType::STRING => s.parse::<i64>()
           .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
         DataType::DECIMAL | DataType::FLOAT => s.parse::<f64>()
-          .map(|val| val as i64)
-          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err)),
+          .map_err(|err| anyhow!("i64 can not be generated from '{}' - {}", s, err))
+          .and_then(float_to_int),
         _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
       },
       _ => Err(anyhow!("i64 can not be generated from {}", value.wrapped))
-- 
2.43.0


From ed7c50846403a4875df12a6190df2e703b9f3cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 18/60] fix: a response status that is not one is an error

---
 rust/pact_models/src/response.rs      | 4 +++-
 rust/pact_models/src/v4/http_parts.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index 7fb6f3f..c3a9c0d 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -3,6 +3,7 @@ use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::from_utf8;
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use itertools::Itertools;
@@ -39,7 +40,8 @@ impl Response {
   pub fn from_json(response: &Value, _: &PactSpecification
   ) -> anyhow::Result<Response> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("'{}' is not a valid value for the response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 0630fcd..6536542 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -6,6 +6,7 @@ use std::convert::TryFrom;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
 
+use anyhow::anyhow;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use bytes::BytesMut;
@@ -500,7 +501,8 @@ impl HttpResponse {
   /// Build an `HttpResponse` from a JSON `Value` struct.
   pub fn from_json(response: &Value) -> anyhow::Result<Self> {
     let status_val = match response.get("status") {
-      Some(v) => v.as_u64().unwrap() as u16,
+      Some(v) => v.as_u64().and_then(|status| u16::try_from(status).ok())
+        .ok_or_else(|| anyhow!("'{}' is not a valid value for the response status", v))?,
       None => 200
     };
     let headers = headers_from_json(response);
-- 
2.43.0


From 04ec3fc69f43fa84a2a357aee5bb5e7703846f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 19/60] fix: a status code outside the range of one in a status
 rule is an error

---
 rust/pact_models/src/lib.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e4efabe..e2269fd 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -377,12 +377,9 @@ impl HttpStatus {
       },
       Value::Array(a) => {
         let status_codes = a.iter().map(|status| match status {
-          Value::Number(n) => if n.is_u64() {
-            Ok(n.as_u64().unwrap() as u16)
-          } else if n.is_i64() {
-            Ok(n.as_i64().unwrap() as u16)
-          } else {
-            Ok(n.as_f64().unwrap() as u16)
+          Value::Number(n) => {
+            let code = n.as_i64().or_else(|| n.as_f64().map(|n| n as i64)).unwrap_or(-1);
+            u16::try_from(code).map_err(|err| anyhow!(err))
           },
           Value::String(s) => s.parse::<u16>().map_err(|err| anyhow!(err)),
           _ => Err(anyhow!("'{}' is not a valid JSON value for an HTTP Status", status))
-- 
2.43.0


From 4a2c3c348dda15da8467ddf297a958022c741e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 20/60] fix: a number outside the range of the type asked for
 is not taken for another one

---
 rust/pact_models/src/json_utils.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 53f2d12..fa99bad 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -28,7 +28,7 @@ impl JsonToNum<i32> for i32 {
     match map.get(field) {
       Some(Value::Number(num)) => {
          match num.as_i64() {
-          Some(num) => num as i32,
+          Some(num) => i32::try_from(num).unwrap_or(default),
           None => default
         }
       },
@@ -42,7 +42,7 @@ impl JsonToNum<u16> for u16 {
     match map.get(field) {
       Some(Value::Number(num)) => {
         match num.as_u64() {
-          Some(num) => num as u16,
+          Some(num) => u16::try_from(num).unwrap_or(default),
           None => default
         }
       },
@@ -64,10 +64,11 @@ pub fn json_to_string(value: &Value) -> String {
 pub fn json_to_num(value: Option<Value>) -> Option<usize> {
   if let Some(value) = value {
     match value {
-      Value::Number(n) => if n.is_i64() && n.as_i64().unwrap() > 0 { Some(n.as_i64().unwrap() as usize) }
-        else if n.is_f64() { Some(n.as_f64().unwrap() as usize) }
-        else if n.is_u64() { Some(n.as_u64().unwrap() as usize) }
-        else { None },
+      Value::Number(n) => if let Some(n) = n.as_u64() {
+          usize::try_from(n).ok()
+        } else {
+          n.as_f64().filter(|n| *n >= 0.0 && *n < usize::MAX as f64).map(|n| n as usize)
+        },
       Value::String(ref s) => usize::from_str(&s.clone()).ok(),
       _ => None
     }
-- 
2.43.0


From 8a9054cae2d61392b83a541c4adde01abf055240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 21/60] fix: a generated value that can not be converted to
 text is an error

---
 rust/pact_models/src/expression_parser.rs | 40 ++++++++++-------------
 rust/pact_models/src/generators/mod.rs    |  2 +-
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/rust/pact_models/src/expression_parser.rs b/rust/pact_models/src/expression_parser.rs
index 15c423d..cb76f36 100644
--- a/rust/pact_models/src/expression_parser.rs
+++ b/rust/pact_models/src/expression_parser.rs
@@ -316,30 +316,26 @@ impl TryFrom<DataValue> for bool {
   }
 }
 
+impl TryFrom<DataValue> for String {
+  type Error = anyhow::Error;
+
+  fn try_from(value: DataValue) -> Result<Self, Self::Error> {
+    match value.data_type {
+      DataType::STRING | DataType::RAW => Ok(json_to_string(&value.wrapped)),
+      DataType::INTEGER => i64::try_from(value).map(|v| v.to_string()),
+      DataType::FLOAT | DataType::DECIMAL => f64::try_from(value).map(|v| v.to_string()),
+      DataType::BOOLEAN => bool::try_from(value).map(|v| v.to_string())
+    }
+  }
+}
+
 impl Display for DataValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-    match self.data_type {
-      DataType::STRING | DataType::RAW => write!(f, "{}", json_to_string(&self.wrapped)),
-      DataType::INTEGER => match i64::try_from(self.clone()) {
-        Ok(v) => write!(f, "{}", v),
-        Err(err) => {
-          error!("Failed to convert value = {}", err);
-          Err(std::fmt::Error)
-        }
-      }
-      DataType::FLOAT | DataType::DECIMAL => match f64::try_from(self.clone()) {
-        Ok(v) => write!(f, "{}", v),
-        Err(err) => {
-          error!("Failed to convert value = {}", err);
-          Err(std::fmt::Error)
-        }
-      }
-      DataType::BOOLEAN => match bool::try_from(self.clone()) {
-        Ok(v) => write!(f, "{}", v),
-        Err(err) => {
-          error!("Failed to convert value = {}", err);
-          Err(std::fmt::Error)
-        }
+    match String::try_from(self.clone()) {
+      Ok(v) => write!(f, "{}", v),
+      Err(err) => {
+        error!("Failed to convert value = {}", err);
+        Err(std::fmt::Error)
       }
     }
   }
diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 7abba1e..907fda2 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -996,7 +996,7 @@ impl GenerateValue<String> for Generator {
         } else {
           context.clone()
         };
-        generate_value_from_context(exp, &provider_state_config, dt).map(|val| val.to_string())
+        generate_value_from_context(exp, &provider_state_config, dt).and_then(String::try_from)
       }
       Generator::MockServerURL(example, regex) => if let Some(mock_server_details) = context.get("mockServer") {
         debug!("Generating URL from Mock Server details");
-- 
2.43.0


From 78684a799dc6ba5397b5ac7a98133671939b6e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 22/60] fix: a provider states attribute that is no list no
 longer hides the single provider state

---
 rust/pact_models/src/provider_states.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index e218bac..f8f8cac 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -63,11 +63,8 @@ impl ProviderState {
   /// Constructs a list of provider states from the `Json` struct
   pub fn from_json(pact_json: &Value) -> Vec<ProviderState> {
     match pact_json.get("providerStates") {
-      Some(v) => match *v {
-        Value::Array(ref a) => a.iter().map(|i| ProviderState::from_json_v3(i)).collect(),
-        _ => vec![]
-      },
-      None => match pact_json.get("providerState").or_else(|| pact_json.get("provider_state")) {
+      Some(Value::Array(a)) => a.iter().map(|i| ProviderState::from_json_v3(i)).collect(),
+      _ => match pact_json.get("providerState").or_else(|| pact_json.get("provider_state")) {
         Some(v) => match *v {
           Value::String(ref s) => if s.is_empty() {
             vec![]
-- 
2.43.0


From 8f431dd5775e93d6765be272cd741a0f74010078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 23/60] fix: an empty list of Content-Type header values does
 not panic

---
 rust/pact_models/src/json_utils.rs    | 7 +------
 rust/pact_models/src/v4/http_parts.rs | 8 ++++----
 rust/pact_models/src/v4/mod.rs        | 2 +-
 3 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index fa99bad..2b1686b 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -152,12 +152,7 @@ enum JsonParsable {
 pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
   let content_type = match headers {
     Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-      Some(kv) => {
-        match ContentType::parse(kv.1[0].as_str()) {
-          Ok(v) => Some(v),
-          Err(_) => None
-        }
-      },
+      Some(kv) => kv.1.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
       None => None
     },
     None => None
diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index 6536542..acbb3fa 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -398,15 +398,15 @@ fn content_type_from_json(headers: &Option<HashMap<String, Vec<String>>>, body_a
       debug!("Body has no content type set, will default to any headers or metadata");
       match headers {
         Some(h) => match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-          Some((_, v)) => {
-            match ContentType::parse(v[0].as_str()) {
+          Some((_, v)) => v.first().and_then(|v| {
+            match ContentType::parse(v.as_str()) {
               Ok(v) => Some(v),
               Err(err) => {
-                warn!("Failed to parse body content type '{}' - {}", v[0], err);
+                warn!("Failed to parse body content type '{}' - {}", v, err);
                 None
               }
             }
-          },
+          }),
           None => None
         },
         None => None
diff --git a/rust/pact_models/src/v4/mod.rs b/rust/pact_models/src/v4/mod.rs
index 2ecd476..4ad33ab 100644
--- a/rust/pact_models/src/v4/mod.rs
+++ b/rust/pact_models/src/v4/mod.rs
@@ -65,7 +65,7 @@ pub fn calc_content_type(body: &OptionalBody, headers: &Option<HashMap<String, V
   body.content_type()
     .or_else(|| headers.as_ref().map(|h| {
       match h.iter().find(|kv| kv.0.to_lowercase() == "content-type") {
-        Some((_, v)) => ContentType::parse(v[0].as_str()).ok(),
+        Some((_, v)) => v.first().and_then(|v| ContentType::parse(v.as_str()).ok()),
         None => None
       }
     }).flatten())
-- 
2.43.0


From a40eae005b7919f30a28529d5c75b0cfb6657f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 24/60] fix: the content type in the metadata of a message is
 looked up as its text

---
 rust/pact_models/src/message.rs          | 2 +-
 rust/pact_models/src/v4/message_parts.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 77daa56..61cd822 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -350,7 +350,7 @@ impl HttpPart for Message {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| json_to_string(v))
   }
 
   fn add_header(&mut self, key: &str, val: Vec<&str>) {
diff --git a/rust/pact_models/src/v4/message_parts.rs b/rust/pact_models/src/v4/message_parts.rs
index 8e9ef9b..3ee03a0 100644
--- a/rust/pact_models/src/v4/message_parts.rs
+++ b/rust/pact_models/src/v4/message_parts.rs
@@ -170,7 +170,7 @@ impl HttpPart for MessageContents {
     self.metadata.iter().find(|(k, _)| {
       let key = k.to_ascii_lowercase();
       key == "contenttype" || key == "content-type"
-    }).map(|(_, v)| json_to_string(&v[0]))
+    }).map(|(_, v)| json_to_string(v))
   }
 }
 
-- 
2.43.0


From 203b367c523b29d82175779b0708d953ea4e032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 25/60] fix: the suffix of a content type decides whether it is
 JSON or XML

---
 rust/pact_models/src/content_types.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 38442d3..5ac389b 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -91,15 +91,20 @@ impl ContentType {
 
   /// If it is a JSON type
   pub fn is_json(&self) -> bool {
-    self.main_type == "application" && (self.sub_type.starts_with("json") ||
-      self.suffix.as_ref().unwrap_or(&String::default()) == "json" ||
-      self.sub_type == "graphql")
+    self.main_type == "application" && match self.suffix.as_deref() {
+      Some("json") => true,
+      Some("xml") => false,
+      _ => self.sub_type.starts_with("json") || self.sub_type == "graphql"
+    }
   }
 
   /// If it is a XML type
   pub fn is_xml(&self) -> bool {
-    (self.main_type == "application" || self.main_type == "text") && (self.sub_type == "xml" ||
-      self.suffix.as_ref().unwrap_or(&String::default()) == "xml")
+    (self.main_type == "application" || self.main_type == "text") && match self.suffix.as_deref() {
+      Some("xml") => true,
+      Some("json") => false,
+      _ => self.sub_type == "xml"
+    }
   }
 
   /// If it is a XML type (not including ones with suffixes like atom+xml)
-- 
2.43.0


From a4be2657f45601572ce762f6d007bf5e57b05fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 26/60] fix: attribute values of a content type are quoted when
 they need it

---
 rust/pact_models/src/content_types.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/content_types.rs b/rust/pact_models/src/content_types.rs
index 5ac389b..037bc3a 100644
--- a/rust/pact_models/src/content_types.rs
+++ b/rust/pact_models/src/content_types.rs
@@ -182,6 +182,11 @@ impl Default for ContentType {
   }
 }
 
+/// If the attribute value can be written without quotes
+fn is_token(value: &str) -> bool {
+  value.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
+}
+
 impl Display for ContentType {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
     let base = if let Some(suffix) = &self.suffix {
@@ -192,8 +197,14 @@ impl Display for ContentType {
     if self.attributes.is_empty() {
       write!(f, "{}", base)
     } else {
+      // a value that is no token needs quotes, and only the last value may be empty
       write!(f, "{};{}", base, self.attributes.iter()
-        .map(|(key, value)| format!("{}={}", key, value)).join(";"))
+        .sorted_by_key(|(_, value)| value.is_empty())
+        .map(|(key, value)| if is_token(value) {
+          format!("{}={}", key, value)
+        } else {
+          format!("{}=\"{}\"", key, value)
+        }).join(";"))
     }
   }
 }
-- 
2.43.0


From 882c3ec871e2e5f1d82d8b4f5b3902078f899f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 27/60] fix: a string read as the JSON text of a body is
 escaped

---
 rust/pact_models/src/json_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 2b1686b..277b4cd 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -170,7 +170,7 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
           if content_type.is_json() {
             match serde_json::from_str::<JsonParsable>(s) {
               Ok(_) => OptionalBody::Present(s.clone().into(), Some(content_type), None),
-              Err(_) => OptionalBody::Present(format!("\"{}\"", s).into(), Some(content_type), None)
+              Err(_) => OptionalBody::Present(v.to_string().into(), Some(content_type), None)
             }
           } else if content_type.is_text() {
             OptionalBody::Present(s.clone().into(), Some(content_type), None)
-- 
2.43.0


From c423ebd0bb7086eab3ac29f8eca8a198147f5294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 28/60] fix: a body with an empty JSON string is not written as
 an empty body

---
 rust/pact_models/src/bodies.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/pact_models/src/bodies.rs b/rust/pact_models/src/bodies.rs
index 60e0628..74d0c4e 100644
--- a/rust/pact_models/src/bodies.rs
+++ b/rust/pact_models/src/bodies.rs
@@ -144,6 +144,8 @@ impl OptionalBody {
         let content_type_override = ct_override.unwrap_or_default();
         let (contents, encoded) = if content_type.is_json() {
           match serde_json::from_slice(bytes) {
+            // An empty string would be read as an empty body, so it has to be written as JSON text
+            Ok(Value::String(s)) if s.is_empty() => (Value::String("\"\"".to_string()), Value::String("json".to_string())),
             Ok(json_body) => (json_body, Value::Bool(false)),
             Err(err) => {
               warn!("Failed to parse json body: {}", err);
-- 
2.43.0


From c3361bc7a7189dfcd64618cec94a48ef1f6d5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 29/60] fix: bodies written in V1 to V3 form are read as the
 same bytes

---
 rust/pact_models/src/json_utils.rs | 34 ++++++++++++++++++++++++++++--
 rust/pact_models/src/message.rs    | 22 +++++--------------
 rust/pact_models/src/request.rs    | 23 +++++---------------
 rust/pact_models/src/response.rs   | 23 ++++----------------
 4 files changed, 46 insertions(+), 56 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 277b4cd..51a4920 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -3,7 +3,7 @@
 use std::collections::{BTreeMap, HashMap};
 use std::hash::{Hash, Hasher};
 use std::ops::Index;
-use std::str::FromStr;
+use std::str::{from_utf8, FromStr};
 
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
@@ -11,9 +11,10 @@ use indextree::{Arena, NodeId};
 use itertools::Itertools;
 use serde::Deserialize;
 use serde_json::{self, json, Map, Value};
+use tracing::warn;
 
 use crate::bodies::OptionalBody;
-use crate::content_types::{ContentType, detect_content_type_from_string};
+use crate::content_types::{ContentType, detect_content_type_from_string, TEXT};
 use crate::headers::parse_header;
 use crate::path_exp::{DocPath, PathToken};
 
@@ -148,6 +149,33 @@ enum JsonParsable {
   KeyValue(HashMap<String, Value>)
 }
 
+/// Converts a body to the JSON value for a V1 to V3 Pact file. `declared` is the content type the
+/// file gives the body, if any: without one, the body is read as what its text looks like.
+pub(crate) fn body_to_json(body: &[u8], content_type: &ContentType, declared: &Option<ContentType>) -> Value {
+  if content_type.is_json() {
+    match serde_json::from_slice(body) {
+      // The text of this string would not be read as a JSON string, so the JSON text is needed
+      Ok(Value::String(s)) if declared.is_none() || s.is_empty() || serde_json::from_str::<JsonParsable>(&s).is_ok() =>
+        Value::String(String::from_utf8_lossy(body).to_string()),
+      Ok(json_body) => json_body,
+      Err(err) => {
+        warn!("Failed to parse json body: {}", err);
+        match from_utf8(body) {
+          Ok(s) if declared.is_none() => Value::String(s.to_string()),
+          _ => Value::String(BASE64.encode(body))
+        }
+      }
+    }
+  } else {
+    // Text that is valid base64 would be decoded if the content type is not a text one
+    let decoded = declared.as_ref().map(|ct| !ct.is_text()).unwrap_or(false);
+    match from_utf8(body) {
+      Ok(s) if !decoded || BASE64.decode(s).is_err() => Value::String(s.to_string()),
+      _ => Value::String(BASE64.encode(body))
+    }
+  }
+}
+
 /// Returns the body from the JSON struct with the provided field name
 pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap<String, Vec<String>>>) -> OptionalBody {
   let content_type = match headers {
@@ -164,12 +192,14 @@ pub fn body_from_json(request: &Value, fieldname: &str, headers: &Option<HashMap
         if s.is_empty() {
           OptionalBody::Empty
         } else {
+          let declared = content_type.is_some();
           let content_type = content_type.unwrap_or_else(|| {
             detect_content_type_from_string(s).unwrap_or_default()
           });
           if content_type.is_json() {
             match serde_json::from_str::<JsonParsable>(s) {
               Ok(_) => OptionalBody::Present(s.clone().into(), Some(content_type), None),
+              Err(_) if !declared => OptionalBody::Present(s.clone().into(), Some(TEXT.clone()), None),
               Err(_) => OptionalBody::Present(v.to_string().into(), Some(content_type), None)
             }
           } else if content_type.is_text() {
diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 61cd822..9b9be43 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -3,7 +3,6 @@
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::panic::RefUnwindSafe;
-use std::str::from_utf8;
 use std::sync::{Arc, Mutex};
 
 use anyhow::anyhow;
@@ -11,14 +10,13 @@ use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
 use maplit::hashmap;
 use serde_json::{json, Value};
-use tracing::warn;
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
 use crate::generators::{Generators, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
-use crate::json_utils::{body_from_json, json_to_string};
+use crate::json_utils::{body_from_json, body_to_json, json_to_string};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::PactSpecification;
 use crate::provider_states::ProviderState;
@@ -256,21 +254,11 @@ impl Message {
         match self.contents {
           OptionalBody::Present(ref body, _, _) => {
             let content_type = self.message_content_type().unwrap_or_default();
-            if content_type.is_json() {
-            match serde_json::from_slice(body) {
-                Ok(json_body) => { map.insert("contents".to_string(), json_body); },
-              Err(err) => {
-                warn!("Failed to parse json body: {}", err);
-                map.insert("contents".to_string(), Value::String(BASE64.encode(body)));
-              }
-            }
-            } else if content_type.is_binary() {
+            if content_type.is_binary() {
               map.insert("contents".to_string(), Value::String(BASE64.encode(body)));
-          } else {
-              match from_utf8(body) {
-                Ok(s) => map.insert("contents".to_string(), Value::String(s.to_string())),
-                Err(_) => map.insert("contents".to_string(), Value::String(BASE64.encode(body)))
-            };
+            } else {
+              let declared = self.lookup_content_type().and_then(|ct| ContentType::parse(ct.as_str()).ok());
+              map.insert("contents".to_string(), body_to_json(body, &content_type, &declared));
             }
           },
           OptionalBody::Empty => { map.insert("contents".to_string(), Value::String("".to_string())); },
diff --git a/rust/pact_models/src/request.rs b/rust/pact_models/src/request.rs
index 03d95b5..3aabcfa 100644
--- a/rust/pact_models/src/request.rs
+++ b/rust/pact_models/src/request.rs
@@ -3,20 +3,17 @@
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
-use std::str::from_utf8;
 
-use base64::Engine;
-use base64::engine::general_purpose::STANDARD as BASE64;
 use itertools::Itertools;
 use maplit::hashmap;
 use serde_json::{json, Value};
-use tracing::warn;
 
 use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
+use crate::content_types::ContentType;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
-use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
+use crate::json_utils::{body_from_json, body_to_json, headers_from_json, headers_to_json};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::query_strings::{query_from_json, query_to_json, v3_query_from_json};
 use crate::v4::http_parts::HttpRequest;
@@ -193,19 +190,9 @@ impl Request {
       }
 
       match self.body {
-        OptionalBody::Present(ref body, _, _) => if self.content_type().unwrap_or_default().is_json() {
-          match serde_json::from_slice(body) {
-            Ok(json_body) => { map.insert("body".to_string(), json_body); },
-            Err(err) => {
-              warn!("Failed to parse json body: {}", err);
-              map.insert("body".to_string(), Value::String(BASE64.encode(body)));
-            }
-          }
-        } else {
-          match from_utf8(body) {
-            Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-            Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
-          };
+        OptionalBody::Present(ref body, _, _) => {
+          let declared = self.lookup_content_type().and_then(|ct| ContentType::parse(ct.as_str()).ok());
+          map.insert("body".to_string(), body_to_json(body, &self.content_type().unwrap_or_default(), &declared));
         },
         OptionalBody::Empty => { map.insert("body".to_string(), Value::String(String::default())); },
         OptionalBody::Missing => (),
diff --git a/rust/pact_models/src/response.rs b/rust/pact_models/src/response.rs
index c3a9c0d..3e33b44 100644
--- a/rust/pact_models/src/response.rs
+++ b/rust/pact_models/src/response.rs
@@ -1,21 +1,18 @@
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::hash::{Hash, Hasher};
-use std::str::from_utf8;
 
 use anyhow::anyhow;
-use base64::Engine;
-use base64::engine::general_purpose::STANDARD as BASE64;
 use itertools::Itertools;
 use maplit::hashmap;
 use serde_json::{json, Value};
-use tracing::warn;
 
 use crate::{DifferenceType, PactSpecification};
 use crate::bodies::OptionalBody;
+use crate::content_types::ContentType;
 use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
-use crate::json_utils::{body_from_json, headers_from_json, headers_to_json};
+use crate::json_utils::{body_from_json, body_to_json, headers_from_json, headers_to_json};
 use crate::matchingrules::{matchers_from_json, matchers_to_json, MatchingRules};
 use crate::v4::http_parts::HttpResponse;
 
@@ -73,20 +70,8 @@ impl Response {
       }
       match self.body {
         OptionalBody::Present(ref body, _, _) => {
-          if self.content_type().unwrap_or_default().is_json() {
-            match serde_json::from_slice(body) {
-              Ok(json_body) => { map.insert("body".to_string(), json_body); },
-              Err(err) => {
-                warn!("Failed to parse json body: {}", err);
-                map.insert("body".to_string(), Value::String(BASE64.encode(body)));
-              }
-            }
-          } else {
-            match from_utf8(body) {
-              Ok(s) => map.insert("body".to_string(), Value::String(s.to_string())),
-              Err(_) => map.insert("body".to_string(), Value::String(BASE64.encode(body)))
-            };
-          }
+          let declared = self.lookup_content_type().and_then(|ct| ContentType::parse(ct.as_str()).ok());
+          map.insert("body".to_string(), body_to_json(body, &self.content_type().unwrap_or_default(), &declared));
         },
         OptionalBody::Empty => { map.insert("body".to_string(), Value::String("".to_string())); },
         OptionalBody::Missing => (),
-- 
2.43.0


From 493c750a7a2113b6ed32e13e2fb8024ef18067fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 30/60] fix: the body of a V4 response is written with the
 content type of its headers

---
 rust/pact_models/src/v4/http_parts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/v4/http_parts.rs b/rust/pact_models/src/v4/http_parts.rs
index acbb3fa..9ccbb22 100644
--- a/rust/pact_models/src/v4/http_parts.rs
+++ b/rust/pact_models/src/v4/http_parts.rs
@@ -532,7 +532,8 @@ impl HttpResponse {
         ));
       }
 
-      if let Value::Object(body) = self.body.to_v4_json() {
+      let body = self.body.with_content_type_if_not_set(self.content_type());
+      if let Value::Object(body) = body.to_v4_json() {
         map.insert("body".to_string(), Value::Object(body));
       }
 
-- 
2.43.0


From 9ff261b2a78bc9c9c3e9612d635abbd7fb752559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 31/60] fix: a V3 message is read with its generators

---
 rust/pact_models/src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/message.rs b/rust/pact_models/src/message.rs
index 9b9be43..df324a5 100644
--- a/rust/pact_models/src/message.rs
+++ b/rust/pact_models/src/message.rs
@@ -13,7 +13,7 @@ use serde_json::{json, Value};
 
 use crate::bodies::OptionalBody;
 use crate::content_types::ContentType;
-use crate::generators::{Generators, generators_to_json};
+use crate::generators::{Generators, generators_from_json, generators_to_json};
 use crate::http_parts::HttpPart;
 use crate::interaction::Interaction;
 use crate::json_utils::{body_from_json, body_to_json, json_to_string};
@@ -224,7 +224,7 @@ impl Message {
                   contents: body,
                   matching_rules: matchers_from_json(json, &None)?,
                   metadata,
-                  generators: Generators::default(),
+                  generators: generators_from_json(json)?,
                 })
             },
             _ => Err(anyhow!("Messages require Pact Specification version 3"))
-- 
2.43.0


From cb44618cc40bdb02cc4f0e3175d1545000111ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 32/60] fix: status code rules with another status are not
 equal

---
 rust/pact_models/src/matchingrules/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index f26e96a..e425615 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -637,6 +637,7 @@ impl PartialEq for MatchingRule {
       (MatchingRule::Include(str1), MatchingRule::Include(str2)) => str1 == str2,
       (MatchingRule::ContentType(str1), MatchingRule::ContentType(str2)) => str1 == str2,
       (MatchingRule::ArrayContains(variants1), MatchingRule::ArrayContains(variants2)) => variants1 == variants2,
+      (MatchingRule::StatusCode(status1), MatchingRule::StatusCode(status2)) => status1 == status2,
       (MatchingRule::EachKey(definition1), MatchingRule::EachKey(definition2)) => definition1 == definition2,
       (MatchingRule::EachValue(definition1), MatchingRule::EachValue(definition2)) => definition1 == definition2,
       _ => mem::discriminant(self) == mem::discriminant(other)
-- 
2.43.0


From 213732b843e12047d3621f673d32151a87bab064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 33/60] fix: hashes of models do not depend on the order in
 which a map was filled

---
 rust/pact_models/src/generators/mod.rs    | 3 ++-
 rust/pact_models/src/matchingrules/mod.rs | 6 ++++--
 rust/pact_models/src/provider_states.rs   | 4 +++-
 rust/pact_models/src/v4/async_message.rs  | 4 +++-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 907fda2..4e9588f 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -361,7 +361,8 @@ impl Hash for Generator {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index e425615..807949a 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -613,7 +613,8 @@ impl Hash for MatchingRule {
         for (index, rules, generators) in variants {
           index.hash(state);
           rules.hash(state);
-          for (s, g) in generators {
+          for (s, g) in generators.iter()
+            .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
             s.hash(state);
             g.hash(state);
           }
@@ -1479,7 +1480,8 @@ impl MatchingRules {
 impl Hash for MatchingRules {
   fn hash<H: Hasher>(&self, state: &mut H) {
     for (k, v) in self.rules.iter()
-      .filter(|(_, cat)| cat.is_not_empty()) {
+      .filter(|(_, cat)| cat.is_not_empty())
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       v.hash(state);
     }
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index f8f8cac..1012fe4 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -5,6 +5,7 @@ use std::cmp::Eq;
 use std::collections::HashMap;
 use std::hash::{Hash, Hasher};
 
+use itertools::Itertools;
 use maplit::*;
 use serde::{Deserialize, Serialize};
 use serde_json::*;
@@ -97,7 +98,8 @@ impl ProviderState {
 impl Hash for ProviderState {
   fn hash<H: Hasher>(&self, state: &mut H) {
     self.name.hash(state);
-    for (k, v) in self.params.clone() {
+    for (k, v) in self.params.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       match v {
         Value::Number(n) => if n.is_u64() {
diff --git a/rust/pact_models/src/v4/async_message.rs b/rust/pact_models/src/v4/async_message.rs
index 7cc8495..588d41c 100644
--- a/rust/pact_models/src/v4/async_message.rs
+++ b/rust/pact_models/src/v4/async_message.rs
@@ -9,6 +9,7 @@ use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
 
 use anyhow::anyhow;
+use itertools::Itertools;
 use maplit::hashmap;
 use serde_json::{json, Map, Value};
 use tracing::warn;
@@ -447,7 +448,8 @@ impl Hash for AsynchronousMessage {
     self.description.hash(state);
     self.provider_states.hash(state);
     self.contents.contents.hash(state);
-    for (k, v) in &self.contents.metadata {
+    for (k, v) in self.contents.metadata.iter()
+      .sorted_by(|(a, _), (b, _)| Ord::cmp(a, b)) {
       k.hash(state);
       hash_json(v, state);
     }
-- 
2.43.0


From 7d64086ff088875f858e03ca1443e8b3c811585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 34/60] fix: values with -0.0 and 0.0 are equal and have the
 same hash

---
 rust/pact_models/src/json_utils.rs      | 2 +-
 rust/pact_models/src/provider_states.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 51a4920..31ab123 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -87,7 +87,7 @@ pub fn hash_json<H: Hasher>(v: &Value, state: &mut H) {
         num.hash(state);
       }
       if let Some(num) = n.as_f64() {
-        num.to_string().hash(state);
+        (num + 0.0).to_string().hash(state); // -0.0 and 0.0 are equal
       }
       if let Some(num) = n.as_i64() {
         num.hash(state);
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 1012fe4..705d97a 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -107,7 +107,7 @@ impl Hash for ProviderState {
         } else if n.is_i64() {
           n.as_i64().unwrap().hash(state)
         } else if n.is_f64() {
-          n.as_f64().unwrap().to_string().hash(state)
+          (n.as_f64().unwrap() + 0.0).to_string().hash(state) // -0.0 and 0.0 are equal
         },
         Value::String(s) => s.hash(state),
         Value::Bool(b) => b.hash(state),
-- 
2.43.0


From 7a09c07f84b2c3a76365c24e51f208e3b27d2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:42 +0000
Subject: [PATCH 35/60] fix: merging pacts lost interactions without provider
 states and repeated ones of pacts that are not sorted

---
 rust/pact_models/src/interaction.rs  | 10 +++++
 rust/pact_models/src/message_pact.rs | 17 +++------
 rust/pact_models/src/sync_pact.rs    | 17 +++------
 rust/pact_models/src/v4/pact.rs      | 56 ++++++++++------------------
 4 files changed, 42 insertions(+), 58 deletions(-)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index b8944d0..ea69b3c 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -1,5 +1,6 @@
 //! Models for Pact interactions
 
+use std::cmp::Ordering;
 use std::fmt::{self, Debug, Display, Formatter};
 use std::panic::RefUnwindSafe;
 use std::sync::{Arc, Mutex};
@@ -27,6 +28,15 @@ pub struct PactConflict {
   pub description: String
 }
 
+/// Order of the interactions in a pact: by the description and then the names of the provider states
+pub(crate) fn cmp_interactions(a: &dyn Interaction, b: &dyn Interaction) -> Ordering {
+  let state_names = |i: &dyn Interaction| i.provider_states().iter()
+    .map(|state| state.name.clone())
+    .collect::<Vec<String>>();
+  Ord::cmp(&a.description(), &b.description())
+    .then_with(|| Ord::cmp(&state_names(a), &state_names(b)))
+}
+
 /// Interaction Trait
 pub trait Interaction: Debug {
   /// The type of the interaction
diff --git a/rust/pact_models/src/message_pact.rs b/rust/pact_models/src/message_pact.rs
index a7e75bc..7df9ed9 100644
--- a/rust/pact_models/src/message_pact.rs
+++ b/rust/pact_models/src/message_pact.rs
@@ -1,7 +1,6 @@
 //! The `message_pact` module defines a Pact
 //! that contains Messages instead of Interactions.
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::fs;
 use std::fs::File;
@@ -20,7 +19,7 @@ use tracing::debug;
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
-use crate::interaction::Interaction;
+use crate::interaction::{cmp_interactions, Interaction};
 use crate::message::Message;
 use crate::pact::{determine_spec_version, Pact, parse_meta_data, ReadWritePact};
 use crate::PACT_RUST_VERSION;
@@ -306,15 +305,11 @@ impl ReadWritePact for MessagePact {
   fn merge(&self, pact: &dyn Pact) -> anyhow::Result<Box<dyn Pact + Send + Sync + RefUnwindSafe>> {
     if self.consumer.name == pact.consumer().name && self.provider.name == pact.provider().name {
       let messages: Vec<Result<Message, String>> = self.messages.iter()
-        .merge_join_by(pact.interactions().iter(), |a, b| {
-          let cmp = Ord::cmp(&a.description, &b.description());
-          if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-            Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                     &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-          } else {
-            cmp
-          }
-        })
+        .sorted_by(|a, b| cmp_interactions(*a, *b))
+        .merge_join_by(
+          pact.interactions().iter().sorted_by(|a, b| cmp_interactions(a.as_ref(), b.as_ref())),
+          |a, b| cmp_interactions(*a, b.as_ref())
+        )
         .map(|either| match either {
           Left(i) => Ok(i.clone()),
           Right(i) => i.as_message()
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index a4fd8b4..1bc24df 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -1,6 +1,5 @@
 //! Synchronous HTTP Request/Response Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
@@ -16,7 +15,7 @@ use tracing::warn;
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
 #[cfg(not(target_family = "wasm"))] use crate::http_utils::{self, HttpAuth};
-use crate::interaction::{Interaction, PactConflict, parse_interactions};
+use crate::interaction::{cmp_interactions, Interaction, PactConflict, parse_interactions};
 use crate::iterator_utils::CartesianProductIterator;
 use crate::message_pact::MessagePact;
 use crate::pact::{determine_spec_version, metadata_schema, Pact, parse_meta_data, ReadWritePact, verify_metadata};
@@ -300,15 +299,11 @@ impl ReadWritePact for RequestResponsePact {
                     num_conflicts))
       } else {
         let interactions: Vec<Result<RequestResponseInteraction, String>> = self.interactions.iter()
-          .merge_join_by(pact.interactions().iter(), |a, b| {
-            let cmp = Ord::cmp(&a.description, &b.description());
-            if cmp == Ordering::Equal && ! &a.provider_states().is_empty(){
-              Ord::cmp(&a.provider_states.iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                       &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>())
-            } else {
-              cmp
-            }
-          })
+          .sorted_by(|a, b| cmp_interactions(*a, *b))
+          .merge_join_by(
+            pact.interactions().iter().sorted_by(|a, b| cmp_interactions(a.as_ref(), b.as_ref())),
+            |a, b| cmp_interactions(*a, b.as_ref())
+          )
           .map(|either| match either {
             Left(i) => Ok(i.clone()),
             Right(i) => i.as_request_response()
diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 92548af..4c7430f 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -1,13 +1,11 @@
 //! V4 specification Pact
 
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::panic::RefUnwindSafe;
 use std::path::Path;
 use std::sync::{Arc, Mutex};
 
 use anyhow::{anyhow, Context};
-use itertools::EitherOrBoth::{Both, Left, Right};
 use itertools::Itertools;
 use maplit::btreemap;
 use serde_json::{json, Map, Value};
@@ -15,7 +13,7 @@ use tracing::{trace, warn};
 
 use crate::{Consumer, PactSpecification, Provider};
 #[cfg(not(target_family = "wasm"))] use crate::file_utils::with_read_lock;
-use crate::interaction::Interaction;
+use crate::interaction::{cmp_interactions, Interaction};
 use crate::json_utils::json_to_string;
 use crate::message_pact::MessagePact;
 use crate::pact::{Pact, ReadWritePact};
@@ -41,6 +39,19 @@ pub struct V4Pact {
   pub plugin_data: Vec<PluginData>
 }
 
+/// If two interactions are the same one: they have the same key or, if one has no key, the same
+/// description, provider states and type
+fn is_same_interaction(
+  a: &Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>,
+  b: &Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>
+) -> bool {
+  match (a.key(), b.key()) {
+    (Some(key_a), Some(key_b)) => key_a == key_b,
+    (_, _) => a.type_of() == b.type_of() &&
+      cmp_interactions(a.boxed().as_ref(), b.boxed().as_ref()).is_eq()
+  }
+}
+
 impl V4Pact {
   fn metadata_to_json(&self) -> Value {
     let mut md_map: serde_json::Map<String, Value> = self.metadata.iter()
@@ -361,39 +372,12 @@ impl ReadWritePact for V4Pact {
         consumer: self.consumer.clone(),
         provider: self.provider.clone(),
         interactions: self.interactions.iter()
-          .merge_join_by(other.interactions().iter().map(|i| i.as_v4().unwrap()), |a, b| {
-            match (a.key(), b.key()) {
-              (Some(key_a), Some(key_b)) => Ord::cmp(&key_a, &key_b),
-              (_, _) => {
-                let type_a = a.type_of();
-                let type_b = b.type_of();
-                let cmp = Ord::cmp(&a.description(), &b.description());
-                if cmp == Ordering::Equal && !a.provider_states().is_empty() {
-                  let cmp = Ord::cmp(&a.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>(),
-                  &b.provider_states().iter().map(|p| p.name.clone()).collect::<Vec<String>>());
-                  if cmp == Ordering::Equal {
-                       Ord::cmp(&type_a, &type_b)
-                  } else
-                  {
-                    cmp
-                  }
-                }
-                else if cmp == Ordering::Equal && a.provider_states().is_empty() {
-                  Ord::cmp(&type_a, &type_b)
-                } 
-                 else {
-                  cmp
-                }
-              }
-            }
-          })
-          .map(|either| {
-            match either {
-              Left(i) => i.clone(),
-              Right(i) => i.boxed_v4(),
-              Both(i, _) => i.clone()
-            }
-          })
+          .map(|i| i.clone())
+          .chain(other.interactions().iter()
+            .map(|i| i.as_v4().unwrap())
+            .filter(|i| !self.interactions.iter().any(|existing| is_same_interaction(existing, i))))
+          .sorted_by(|a, b| cmp_interactions(a.boxed().as_ref(), b.boxed().as_ref())
+            .then_with(|| Ord::cmp(&a.type_of(), &b.type_of())))
           .collect(),
         metadata: self.metadata.clone(),
         plugin_data: self.plugin_data.clone()
-- 
2.43.0


From 697168284a7be81d3a97baebd299fb20859f9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 36/60] fix: escape the field names in the JSON pointers of
 resolved paths

---
 rust/pact_models/src/json_utils.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/json_utils.rs b/rust/pact_models/src/json_utils.rs
index 31ab123..0f2e9b4 100644
--- a/rust/pact_models/src/json_utils.rs
+++ b/rust/pact_models/src/json_utils.rs
@@ -265,7 +265,7 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   query_object_graph(expression.tokens(), &mut tree, root, value.clone());
   let expanded_paths = root.descendants(&tree).fold(Vec::<String>::new(), |mut acc, node_id| {
     let node = tree.index(node_id);
-    if !node.get().is_empty() && node.first_child().is_none() {
+    if node_id != root && node.first_child().is_none() {
       let path: Vec<String> = node_id.ancestors(&tree).map(|n| format!("{}", tree.index(n).get())).collect();
       if path.len() == expression.len() {
         acc.push(path.iter().rev().join("/"));
@@ -276,6 +276,11 @@ pub fn resolve_path(value: &Value, expression: &DocPath) -> Vec<String> {
   expanded_paths
 }
 
+/// Escapes a field name for use in a JSON pointer (RFC 6901)
+fn escape_pointer(name: &str) -> String {
+  name.replace('~', "~0").replace('/', "~1")
+}
+
 fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root: NodeId, body: Value) {
   let mut body_cursor = body;
   let mut it = path_exp.iter();
@@ -288,7 +293,7 @@ fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root:
             match body_cursor.as_object() {
               Some(map) => match map.get(name) {
                 Some(val) => {
-                  node_cursor = node_cursor.append_value(name.clone(), tree);
+                  node_cursor = node_cursor.append_value(escape_pointer(name), tree);
                   body_cursor = val.clone();
                 },
                 None => return
@@ -310,7 +315,7 @@ fn query_object_graph(path_exp: &Vec<PathToken>, tree: &mut Arena<String>, root:
               Some(map) => {
                 let remaining = it.by_ref().cloned().collect();
                 for (key, val) in map {
-                  let node = node_cursor.append_value(key.clone(), tree);
+                  let node = node_cursor.append_value(escape_pointer(key), tree);
                   body_cursor = val.clone();
                   query_object_graph(&remaining, tree, node, val.clone());
                 }
-- 
2.43.0


From a919f8944c144a613f51b150e6c9d965981dbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 37/60] fix: apply a generator to every form parameter its path
 addresses

---
 rust/pact_models/src/generators/form_urlencoded.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/form_urlencoded.rs b/rust/pact_models/src/generators/form_urlencoded.rs
index 09ae0f2..7e54d5f 100644
--- a/rust/pact_models/src/generators/form_urlencoded.rs
+++ b/rust/pact_models/src/generators/form_urlencoded.rs
@@ -6,7 +6,7 @@ use tracing::debug;
 use anyhow::{anyhow, Result};
 
 use crate::generators::{ContentTypeHandler, Generator, GeneratorTestMode, VariantMatcher, GenerateValue};
-use crate::path_exp::DocPath;
+use crate::path_exp::{DocPath, PathToken};
 use crate::bodies::OptionalBody;
 
 pub type QueryParams = Vec<(String, String)>;
@@ -48,8 +48,13 @@ impl ContentTypeHandler<String> for FormUrlEncodedHandler {
     let mut map: HashMap<String, usize> = HashMap::new();
     for (param_key, param_value) in self.params.iter_mut() {
       let index = map.entry(param_key.clone()).or_insert(0);
-      if key.eq(&DocPath::root().join(param_key.clone())) || key.eq(&DocPath::root().join(param_key.clone()).join_index(*index)) {
-        return match generator.generate_value(&param_value, context, matcher) {
+      let addressed = match key.tokens().as_slice() {
+        [PathToken::Root, PathToken::Field(name)] => name == param_key,
+        [PathToken::Root, PathToken::Field(name), PathToken::Index(i)] => name == param_key && i == index,
+        _ => false
+      };
+      if addressed {
+        match generator.generate_value(&param_value, context, matcher) {
           Ok(new_value) => *param_value = new_value,
           Err(_) => ()
         }
-- 
2.43.0


From 31749a5bcf79d3257fafa79bbe9f68eb82ba5a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 38/60] fix: generate random integers from the whole range, and
 none from an empty one

---
 rust/pact_models/src/generators/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 4e9588f..53650ea 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -783,6 +783,15 @@ pub fn generate_value_from_context(expression: &str, context: &HashMap<&str, Val
   data_type.clone().unwrap_or(DataType::RAW).wrap(result)
 }
 
+/// Generates a random integer between the min and max values (both inclusive)
+fn generate_int(min: i32, max: i32) -> anyhow::Result<i32> {
+  if min <= max {
+    Ok(rand::thread_rng().gen_range(min..=max))
+  } else {
+    Err(anyhow!("Could not generate a random integer, there is none between {} and {}", min, max))
+  }
+}
+
 const DIGIT_CHARSET: &str = "0123456789";
 pub fn generate_decimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
@@ -828,7 +837,8 @@ impl GenerateValue<u16> for Generator {
     _matcher: &Box<dyn VariantMatcher + Send + Sync>
   ) -> anyhow::Result<u16> {
     match self {
-      &Generator::RandomInt(min, max) => Ok(rand::thread_rng().gen_range(min as u16..(max as u16).saturating_add(1))),
+      // only the part of the range that fits
+      &Generator::RandomInt(min, max) => generate_int(min.max(0), max.min(u16::MAX as i32)).map(|i| i as u16),
       &Generator::ProviderStateGenerator(ref exp, ref dt) => {
         // Provider state values may come under a "providerState" key
         let provider_state_config = if let Some(Object(psc)) = context.get("providerState") {
@@ -883,7 +893,7 @@ impl GenerateValue<String> for Generator {
   ) -> anyhow::Result<String> {
     let mut rnd = rand::thread_rng();
     let result = match self {
-      Generator::RandomInt(min, max) => Ok(format!("{}", rnd.gen_range(*min..max.saturating_add(1)))),
+      Generator::RandomInt(min, max) => generate_int(*min, *max).map(|i| i.to_string()),
       Generator::Uuid(format) => match format.unwrap_or_default() {
         UuidFormat::Simple => Ok(Uuid::new_v4().as_simple().to_string()),
         UuidFormat::LowerCaseHyphenated => Ok(Uuid::new_v4().as_hyphenated().to_string()),
@@ -1044,7 +1054,7 @@ impl GenerateValue<Value> for Generator {
     debug!(context = ?context, "Generating value from {:?}", self);
     let result = match self {
       Generator::RandomInt(min, max) => {
-        let rand_int = rand::thread_rng().gen_range(*min..max.saturating_add(1));
+        let rand_int = generate_int(*min, *max)?;
         match value {
           Value::String(_) => Ok(json!(format!("{}", rand_int))),
           Value::Number(_) => Ok(json!(rand_int)),
-- 
2.43.0


From 17617cd69f03a9e2b1b23bb6db1c8be86e0b62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 39/60] fix: random hexadecimal values have the requested
 number of digits

---
 rust/pact_models/src/generators/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 53650ea..14417e6 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -826,7 +826,7 @@ pub fn generate_decimal(digits: usize) -> String {
 const HEX_CHARSET: &str = "0123456789ABCDEF";
 pub fn generate_hexadecimal(digits: usize) -> String {
   let mut rnd = rand::thread_rng();
-  HEX_CHARSET.chars().choose_multiple(&mut rnd, digits).iter().join("")
+  (0..digits).filter_map(|_| HEX_CHARSET.chars().choose(&mut rnd)).collect()
 }
 
 impl GenerateValue<u16> for Generator {
-- 
2.43.0


From ea1817f0fc9464362878e6a27a6e7074c05bc0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 40/60] fix: a mock server URL regex without a group does not
 panic

---
 rust/pact_models/src/generators/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 14417e6..2f98268 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -872,15 +872,14 @@ fn strip_anchors(regex: &str) -> &str {
 #[cfg(not(target_family = "wasm"))]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    format!("{}{}", url, caps.at(1).unwrap())
+    format!("{}{}", url, caps.at(1).unwrap_or_default())
   }).to_string()
 }
 
 #[cfg(target_family = "wasm")]
 fn replace_with_regex(example: &String, url: String, re: Regex) -> String {
   re.replace(example, |caps: &Captures| {
-    let m = caps.get(1).unwrap();
-    format!("{}{}", url, m.as_str())
+    format!("{}{}", url, caps.get(1).map(|m| m.as_str()).unwrap_or_default())
   }).to_string()
 }
 
-- 
2.43.0


From 15a39bd4fd48001fe3ceadd091cc581d8b9acb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 41/60] fix: a date or time expression with something after its
 end is refused

---
 .../src/generators/date_expression_parser.rs  | 42 +++++++++----------
 .../src/generators/time_expression_parser.rs  | 36 ++++++++--------
 2 files changed, 38 insertions(+), 40 deletions(-)

diff --git a/rust/pact_models/src/generators/date_expression_parser.rs b/rust/pact_models/src/generators/date_expression_parser.rs
index 044942c..b2b2447 100644
--- a/rust/pact_models/src/generators/date_expression_parser.rs
+++ b/rust/pact_models/src/generators/date_expression_parser.rs
@@ -170,12 +170,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
   if let Some(Ok(token)) = lex.next() {
     if token.is_base() {
       date_base = base(lex, exp, &token)?;
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token.is_op() {
       adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
@@ -186,12 +185,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token == DateExpressionToken::Last {
       let (t, v) = offset(lex, exp)?;
@@ -200,12 +198,11 @@ pub(crate) fn expression<'a>(lex: &mut Lexer<DateExpressionToken>, exp: &str) ->
         value: v,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
-          adj.extend_from_slice(&*adjustments(lex, exp, &token)?);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
-        }
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => adj.extend_from_slice(&*adjustments(lex, exp, &token)?),
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else {
       return Err(error(exp, "one of now, today, yesterday, tomorrow, +, -, next or last", Some(lex.span().clone())));
@@ -230,11 +227,10 @@ fn adjustments(lex: &mut Lexer<DateExpressionToken>, exp: &str, token: &DateExpr
   let mut results = vec![];
 
   results.push(adjustment(lex, exp, token)?);
-  while let Some(Ok(token)) = lex.next() {
-    if token.is_op() {
-      results.push(adjustment(lex, exp, &token)?);
-    } else {
-      break
+  while let Some(token) = lex.next() {
+    match token {
+      Ok(token) if token.is_op() => results.push(adjustment(lex, exp, &token)?),
+      _ => return Err(error(exp, "no more tokens", Some(lex.span().clone())))
     }
   }
 
diff --git a/rust/pact_models/src/generators/time_expression_parser.rs b/rust/pact_models/src/generators/time_expression_parser.rs
index c6d4ecd..923b9ac 100644
--- a/rust/pact_models/src/generators/time_expression_parser.rs
+++ b/rust/pact_models/src/generators/time_expression_parser.rs
@@ -103,13 +103,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
     if token.is_base() {
       let (tb, next) = base(lex, exp, token)?;
       time_base = tb;
-      if let Some(Ok(token)) = next.map(|next| Ok(next)).or_else(|| lex.next()) {
-        if token.is_op() {
+      match next.map(|next| Ok(next)).or_else(|| lex.next()) {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token.is_op() {
       let a = adjustments(lex, exp, token)?;
@@ -121,13 +122,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::PLUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else if token == TimeExpressionToken::Last {
       let t = offset(lex, exp)?;
@@ -136,13 +138,14 @@ pub(crate) fn expression(lex: &mut Lexer<TimeExpressionToken>, exp: &str) -> any
         value: 1,
         operation: Operation::MINUS
       });
-      if let Some(Ok(token)) = lex.next() {
-        if token.is_op() {
+      match lex.next() {
+        Some(Ok(token)) if token.is_op() => {
           let a = adjustments(lex, exp, token)?;
           adj.extend_from_slice(&*a);
-        } else {
-          return Err(error(exp, "+ or -", Some(lex.span().clone())));
         }
+        Some(Ok(_)) => return Err(error(exp, "+ or -", Some(lex.span().clone()))),
+        Some(Err(_)) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+        None => {}
       }
     } else {
       return Err(error(exp, "one of now, midnight, noon, 1-12 o'clock, +, -, next or last", Some(lex.span().clone())));
@@ -236,11 +239,10 @@ fn adjustments(
       break
     }
 
-    if let Some(Ok(t)) = lex.next() {
-      // loop
-      token = t.clone();
-    } else {
-      break
+    match lex.next() {
+      Some(Ok(t)) if t.is_op() => token = t, // loop
+      Some(_) => return Err(error(exp, "no more tokens", Some(lex.span().clone()))),
+      None => break
     }
   }
 
-- 
2.43.0


From 3b4db38e4223daa1fb5336fce76df803223bb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 42/60] fix: 12 o'clock and 12 o'clock pm are noon, and not the
 time of the base

---
 rust/pact_models/src/generators/datetime_expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d22c6aa..96e9925 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -184,9 +184,9 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
       TimeBase::Midnight => time.with_hour(0).unwrap_or(dt.clone()),
       TimeBase::Noon => time.with_hour(12).unwrap_or(dt.clone()),
       TimeBase::Am { hour } => time.with_hour(hour as u32).unwrap_or(dt.clone()),
-      TimeBase::Pm { hour } => time.with_hour((12 + hour) as u32).unwrap_or(dt.clone()),
+      TimeBase::Pm { hour } => time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone()),
       TimeBase::Next { hour } => if dt.hour() < 12 {
-        time.with_hour((12 + hour) as u32).unwrap_or(dt.clone())
+        time.with_hour((12 + hour % 12) as u32).unwrap_or(dt.clone())
       } else {
         time.with_hour(hour as u32).unwrap_or(dt.clone())
       }
-- 
2.43.0


From 860410f9d82d1db9d4baeae9dd449d2a6f5c748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 43/60] fix: adjustments of an expression that lead out of the
 calendar are errors

---
 .../src/generators/datetime_expressions.rs    | 61 ++++++++++---------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index 96e9925..a12c1a7 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -194,28 +194,16 @@ pub fn execute_time_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
 
     let mut date_time = base_time.clone();
     for adjustment in &result.adjustments {
-      date_time = match adjustment.operation {
-        Operation::PLUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.add(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.add(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.add(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.add(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        },
-        Operation::MINUS => match adjustment.adjustment_type {
-          TimeOffsetType::HOUR => date_time.sub(Duration::try_hours(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MINUTE => date_time.sub(Duration::try_minutes(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::SECOND => date_time.sub(Duration::try_seconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-          TimeOffsetType::MILLISECOND => date_time.sub(Duration::try_milliseconds(adjustment.value as i64)
-            .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?)
-        }
-      }
+      let duration = match adjustment.adjustment_type {
+        TimeOffsetType::HOUR => amount(adjustment).and_then(Duration::try_hours),
+        TimeOffsetType::MINUTE => amount(adjustment).and_then(Duration::try_minutes),
+        TimeOffsetType::SECOND => amount(adjustment).and_then(Duration::try_seconds),
+        TimeOffsetType::MILLISECOND => amount(adjustment).and_then(Duration::try_milliseconds)
+      };
+      date_time = duration.and_then(|duration| match adjustment.operation {
+        Operation::PLUS => date_time.checked_add_signed(duration),
+        Operation::MINUS => date_time.checked_sub_signed(duration)
+      }).ok_or_else(|| overflow(adjustment))?;
     }
 
     Ok(date_time)
@@ -245,12 +233,23 @@ pub fn execute_datetime_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression:
   }
 }
 
+/// The amount of the adjustment as a signed number, if it is in the range of one
+fn amount<T>(adjustment: &Adjustment<T>) -> Option<i64> {
+  i64::try_from(adjustment.value).ok()
+}
+
+fn overflow<T>(adjustment: &Adjustment<T>) -> anyhow::Error {
+  anyhow!("Adjustment value {} overflows the bounds", adjustment.value)
+}
+
 fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().add(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().add(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
+    DateOffsetType::DAY => amount(adjustment).and_then(Duration::try_days)
+      .and_then(|duration| date.clone().checked_add_signed(duration))
+      .ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::WEEK => amount(adjustment).and_then(Duration::try_weeks)
+      .and_then(|duration| date.clone().checked_add_signed(duration))
+      .ok_or_else(|| overflow(adjustment))?,
     DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
     DateOffsetType::YEAR => {
       let date = date.clone();
@@ -351,10 +350,12 @@ fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
 
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
-    DateOffsetType::DAY => date.clone().sub(Duration::try_days(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
-    DateOffsetType::WEEK => date.clone().sub(Duration::try_weeks(adjustment.value as i64)
-      .ok_or_else(|| anyhow!("Adjustment value {} overflows the bounds", adjustment.value))?),
+    DateOffsetType::DAY => amount(adjustment).and_then(Duration::try_days)
+      .and_then(|duration| date.clone().checked_sub_signed(duration))
+      .ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::WEEK => amount(adjustment).and_then(Duration::try_weeks)
+      .and_then(|duration| date.clone().checked_sub_signed(duration))
+      .ok_or_else(|| overflow(adjustment))?,
     DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
     DateOffsetType::YEAR => {
       let date = date.clone();
-- 
2.43.0


From f4816a316d2b7738313b150849ee3ded00514457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 44/60] fix: adding months or years to a date keeps to the
 month arrived at

---
 .../src/generators/datetime_expressions.rs    | 68 ++++++++-----------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index a12c1a7..d80a767 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -62,7 +62,7 @@ use std::str::from_utf8;
 use anyhow::anyhow;
 use ariadne::{Config, Label, Report, ReportKind, Source};
 use bytes::{BytesMut, BufMut};
-use chrono::Duration;
+use chrono::{Duration, Months};
 use chrono::prelude::*;
 use logos::{Logos, Span};
 
@@ -250,12 +250,13 @@ fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
     DateOffsetType::WEEK => amount(adjustment).and_then(Duration::try_weeks)
       .and_then(|duration| date.clone().checked_add_signed(duration))
       .ok_or_else(|| overflow(adjustment))?,
-    DateOffsetType::MONTH => roll_month(date, adjustment.value as i64),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year + adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::MONTH => amount(adjustment)
+      .and_then(|months| add_months(date, months))
+      .ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::YEAR => amount(adjustment)
+      .and_then(|years| years.checked_mul(12))
+      .and_then(|months| add_months(date, months))
+      .ok_or_else(|| overflow(adjustment))?,
     DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
@@ -316,38 +317,22 @@ fn adjust_date_down_to<Tz: TimeZone>(
   date
 }
 
-/// Rolls the month by the adjustment one day at a time
-fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
-  let mut date = date.clone();
-  let day = date.day();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
-  let mut month_count = 0;
-
-  if months > 0 {
-    let mut month = date.month();
-    while month_count < months {
-      date = date.add(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count += 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
-  } else if months < 0 {
-    let mut month = date.month();
-    while month_count > months {
-      date = date.sub(one_day_duration);
-      if date.month() != month {
-        month = date.month();
-        month_count -= 1;
-      }
-    }
-    date.with_day(day).unwrap_or(date)
+/// Moves the date by the number of months. If the month arrived at has no such day, this will be its
+/// last day.
+fn add_months<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> Option<DateTime<Tz>> {
+  let count = Months::new(u32::try_from(months.unsigned_abs()).ok()?);
+  if months < 0 {
+    date.clone().checked_sub_months(count)
   } else {
-    date
+    date.clone().checked_add_months(count)
   }
 }
 
+#[cfg(test)]
+fn roll_month<Tz: TimeZone>(date: &DateTime<Tz>, months: i64) -> DateTime<Tz> {
+  add_months(date, months).unwrap()
+}
+
 fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   Ok(match adjustment.adjustment_type {
     DateOffsetType::DAY => amount(adjustment).and_then(Duration::try_days)
@@ -356,12 +341,13 @@ fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
     DateOffsetType::WEEK => amount(adjustment).and_then(Duration::try_weeks)
       .and_then(|duration| date.clone().checked_sub_signed(duration))
       .ok_or_else(|| overflow(adjustment))?,
-    DateOffsetType::MONTH => roll_month(date, -(adjustment.value as i64)),
-    DateOffsetType::YEAR => {
-      let date = date.clone();
-      let year = date.year();
-      date.with_year(year - adjustment.value as i32).unwrap_or(date)
-    },
+    DateOffsetType::MONTH => amount(adjustment)
+      .and_then(|months| add_months(date, -months))
+      .ok_or_else(|| overflow(adjustment))?,
+    DateOffsetType::YEAR => amount(adjustment)
+      .and_then(|years| years.checked_mul(12))
+      .and_then(|months| add_months(date, -months))
+      .ok_or_else(|| overflow(adjustment))?,
     DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
     DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
     DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
-- 
2.43.0


From 25f73879bb48df6db1dd2ecfa98d398461e426ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:53 +0000
Subject: [PATCH 45/60] fix: validating a date with a year of more than four
 digits does not panic

---
 rust/pact_models/src/time_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index e5578e9..9a4b621 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -846,7 +846,8 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     // should be safe to unwrap here, as the value should have already been validated
     let day = day.parse::<u8>().unwrap();
     if let Some((_, year)) = year {
-      let year = year.parse::<i16>().unwrap();
+      // the calendar repeats every 400 years, so the last four digits are enough
+      let year = year[year.len().saturating_sub(4)..].parse::<i16>().unwrap();
       if let Some((_, month_str)) = month {
         // should be safe to unwrap here, as the value should have already been validated
         let month = month_value(month_str).unwrap().with_year(year);
-- 
2.43.0


From eac30b084095d98afa498836c6737c3626c34645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:53 +0000
Subject: [PATCH 46/60] fix: the day of the month is checked for patterns with
 'L' too

---
 rust/pact_models/src/time_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 9a4b621..727b628 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -834,7 +834,7 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
     });
   let month = matched_values.iter()
     .find(|(token, _)| match token {
-      DateTimePatternToken::Month(_) => true,
+      DateTimePatternToken::Month(_) | DateTimePatternToken::MonthNum(_) => true,
       _ => false
     });
   let year = matched_values.iter()
-- 
2.43.0


From 4c019041b8f28239835968af21fc6ed464c04e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:53 +0000
Subject: [PATCH 47/60] fix: fractions of a second of any number of digits do
 not panic

---
 rust/pact_models/src/time_utils.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 727b628..08dcb61 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -574,12 +574,9 @@ fn second(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
-  take_while_m_n(1, count, is_digit)(s).and_then(|(remaining, result)|{
-    match validate_number(result, "fraction of a second".into(), 0, usize::pow(10, count as u32) - 1) {
-      Ok(_) => Ok((remaining, result.into())),
-      Err(_err) => Err(Error(DateTimeError::InvalidSecondFraction(result.to_string())))
-    }
-  })
+  // any number of up to count digits is in the range of the field
+  take_while_m_n(1, count, is_digit)(s)
+    .map(|(remaining, result)| (remaining, result.into()))
 }
 
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
@@ -909,12 +906,12 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::Hour12ZeroBased => buffer.push_str("%I"),
       DateTimePatternToken::Minute => buffer.push_str("%M"),
       DateTimePatternToken::Second => buffer.push_str("%S"),
-      DateTimePatternToken::Millisecond(d) => if *d < 3 {
-        // something in chrono panics
-        buffer.push_str("%3f")
-      } else {
-        buffer.push_str(&format!("%{}f", *d))
-      },
+      // chrono only supports these numbers of digits and panics with any other
+      DateTimePatternToken::Millisecond(d) => buffer.push_str(match *d {
+        0..=5 => "%3f",
+        6..=8 => "%6f",
+        _ => "%9f"
+      }),
       DateTimePatternToken::Nanosecond(_d) => buffer.push_str("%f"),
       DateTimePatternToken::TimezoneName(_d) => buffer.push_str("%Z"),
       DateTimePatternToken::TimezoneId(_d) => buffer.push_str("%Z"),
-- 
2.43.0


From b6389d624904b718711e264b8a6b46dd02167e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 48/60] fix: a date generator whose format has time fields does
 not panic

---
 rust/pact_models/src/generators/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 2f98268..74f252b 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -931,8 +931,7 @@ impl GenerateValue<String> for Generator {
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
               Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(date.date().format(&to_chrono_pattern(&tokens)).to_string())
+                Ok(date.format(&to_chrono_pattern(&tokens)).to_string())
               },
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
@@ -1108,8 +1107,7 @@ impl GenerateValue<Value> for Generator {
           match _format {
             Some(pattern) => match parse_pattern(pattern) {
               Ok(tokens) => {
-                #[allow(deprecated)]
-                Ok(json!(date.date().format(&to_chrono_pattern(&tokens)).to_string()))
+                Ok(json!(date.format(&to_chrono_pattern(&tokens)).to_string()))
               },
               Err(err) => {
                 warn!("Date format {} is not valid - {}", pattern, err);
-- 
2.43.0


From e38484ad13dfaec444fe11b9c849603d7f639591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 49/60] fix: each pair of quotes in the quoted text of a
 pattern is one quote

---
 rust/pact_models/src/time_utils.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 08dcb61..f12e296 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -40,7 +40,6 @@ use std::fmt::{Display, Formatter};
 use anyhow::anyhow;
 use chrono::Local;
 use gregorian::Month;
-use itertools::Itertools;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
 use nom::character::complete::{alphanumeric1, char, digit1};
@@ -292,12 +291,8 @@ fn quarter_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatte
 }
 
 fn quoted_text_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatternError<&str>> {
-  delimited(char('\''), many1(alt((tag("''"), is_not("'")))), char('\''))(s)
-    .map(|(remaining, result)| {
-      (remaining, DateTimePatternToken::Text(result.join("").chars().coalesce(|x, y| {
-        if x == '\'' && y == '\'' { Ok('\'') } else { Err((x, y)) }
-      }).collect()))
-    })
+  delimited(char('\''), many1(alt((value("'", tag("''")), is_not("'")))), char('\''))(s)
+    .map(|(remaining, result)| (remaining, DateTimePatternToken::Text(result.concat())))
 }
 
 fn quote_pattern(s: &str) -> IResult<&str, DateTimePatternToken, DateTimePatternError<&str>> {
-- 
2.43.0


From c2021815fe1a09778c84ccf3ac25892816c6af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 50/60] fix: time zone offsets of twelve hours and more are
 valid, and ones with two signs are not

---
 rust/pact_models/src/time_utils.rs | 31 +++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index f12e296..7023f74 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -574,8 +574,21 @@ fn second_fraction(s: &str, count: usize) -> IResult<&str, String, DateTimeError
     .map(|(remaining, result)| (remaining, result.into()))
 }
 
+fn sign(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
+  alt((tag("+"), tag("-")))(s)
+}
+
+fn offset_hour(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
+  take_while_m_n(1, 2, is_digit)(s).and_then(|(remaining, result)|{
+    match validate_number(result, "hour of timezone offset".into(), 0, 18) {
+      Ok(_) => Ok((remaining, result.into())),
+      Err(_err) => Err(Error(DateTimeError::InvalidHour(result.to_string())))
+    }
+  })
+}
+
 fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
-  tuple((is_a("+-"), hour_12_0, tag(":"), minute))(s)
+  tuple((sign, offset_hour, tag(":"), minute))(s)
     .map(|(remaining, _result)| {
       (remaining, "")
     })
@@ -583,23 +596,23 @@ fn timezone_hour_min(s: &str) -> IResult<&str, &str, DateTimeError<&str>> {
 
 fn timezone_long_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1 => preceded(is_a("+-"), tuple((hour_12_0, opt(minute))))(s)
+    1 => preceded(sign, tuple((offset_hour, opt(minute))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1.unwrap_or_else(|| "".to_string()))
         }),
-    2 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    2 => preceded(sign, tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
-    3 => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute)))(s)
+    3 => preceded(sign, tuple((offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + result.1 + &result.2)
         }),
-    4 => preceded(is_a("+-"), tuple((hour_12_0, minute, opt(second))))(s)
+    4 => preceded(sign, tuple((offset_hour, minute, opt(second))))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string()))
         }),
-    _ => preceded(is_a("+-"), tuple((hour_12_0, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
+    _ => preceded(sign, tuple((offset_hour, tag(":"), minute, opt(tuple((tag(":"), second))))))(s)
         .map(|(remaining, result)| {
           let seconds = match &result.3 {
             Some((c, s)) => c.to_string() + s,
@@ -644,7 +657,7 @@ fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(is_a("+-"), tuple((hour_12_0, minute)))(s)
+    1..=3 => preceded(sign, tuple((offset_hour, minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.0 + &result.1)
         }),
@@ -665,7 +678,7 @@ fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&st
 
 fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
   match d {
-    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, opt(preceded(tag(":"), minute)))))(s)
+    1..=3 => preceded(alt((tag("GMT"), tag("UTC"))), tuple((sign, offset_hour, opt(preceded(tag(":"), minute)))))(s)
         .map(|(remaining, result)| {
           let minute = match result.2 {
             Some(result) => result,
@@ -673,7 +686,7 @@ fn timezone_offset_gmt(s: &str, d: usize) -> IResult<&str, String, DateTimeError
           };
           (remaining, result.1 + &minute)
         }),
-    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((is_a("+-"), hour_12_0, tag(":"), minute)))(s)
+    _ => preceded(alt((tag("GMT"), tag("UTC"))), tuple((sign, offset_hour, tag(":"), minute)))(s)
         .map(|(remaining, result)| {
           (remaining, result.1 + result.2 + &result.3)
         })
-- 
2.43.0


From a516b68943af68f4b9f5059249e8595f948616ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 51/60] fix: all time zone ids are valid, and Z and offsets as
 documented

---
 rust/pact_models/src/time_utils.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 7023f74..a73850a 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -42,13 +42,13 @@ use chrono::Local;
 use gregorian::Month;
 use nom::branch::alt;
 use nom::bytes::complete::{is_a, is_not, tag, tag_no_case, take_while_m_n};
-use nom::character::complete::{alphanumeric1, char, digit1};
+use nom::character::complete::{char, digit1};
 use nom::combinator::{opt, value};
 use nom::Err::{Error, Failure};
 use nom::error::{ErrorKind, ParseError};
 use nom::IResult;
 use nom::multi::many1;
-use nom::sequence::{delimited, preceded, separated_pair, terminated, tuple};
+use nom::sequence::{delimited, preceded, terminated, tuple};
 use tracing::{debug, error, trace, warn};
 
 use crate::timezone_db::*;
@@ -645,14 +645,13 @@ fn timezone(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn timezone_id(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
-  separated_pair(alphanumeric1, char('/'), alphanumeric1)(s).and_then(|(remaining, result)| {
-    let tz = format!("{}/{}", result.0, result.1);
-    if ZONES.contains(tz.as_str()) {
-      Ok((remaining, tz))
-    } else {
-      Err(Error(DateTimeError::InvalidTimezone(tz)))
-    }
-  })
+  let length = s.find(|ch: char| !ch.is_ascii_alphanumeric() && !"/_+-".contains(ch)).unwrap_or(s.len());
+  match (1..=length).rev().find(|end| ZONES.contains(&s[..*end])) {
+    Some(end) => Ok((&s[end..], s[..end].to_string())),
+    None => alt((tag("Z"), timezone_hour_min))(s)
+      .map(|(remaining, result)| (remaining, result.into()))
+      .map_err(|_: nom::Err<DateTimeError<&str>>| Error(DateTimeError::InvalidTimezone(s[..length].to_string())))
+  }
 }
 
 fn timezone_offset(s: &str, d: usize) -> IResult<&str, String, DateTimeError<&str>> {
-- 
2.43.0


From a6d13cc8c741e19225f6b98b823ac48469de7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 52/60] fix: generated years, days of the week and time zone
 offsets have the form of their pattern

---
 rust/pact_models/src/time_utils.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index a73850a..789f832 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -415,6 +415,8 @@ fn ampm(s: &str) -> IResult<&str, String, DateTimeError<&str>> {
 }
 
 fn year(s: &str, count: usize) -> IResult<&str, String, DateTimeError<&str>> {
+  // only the two digit form is a shortened year
+  let count = if count == 2 { count } else { count.max(4) };
   take_while_m_n(1, count, is_digit)(s)
     .map(|(remaining, result)| (remaining, result.into()))
 }
@@ -906,7 +908,7 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::MonthNum(_d) => buffer.push_str("%m"),
       DateTimePatternToken::Text(t) => buffer.push_str(&str::replace(t, "%", "%%")),
       DateTimePatternToken::DayName(d) => buffer.push_str(if *d > 3 { "%A" } else { "%a" }),
-      DateTimePatternToken::DayOfWeek(_d) => buffer.push_str("%u"),
+      DateTimePatternToken::DayOfWeek(d) => buffer.push_str(match *d { 1 | 2 => "%u", 3 => "%a", _ => "%A" }),
       DateTimePatternToken::Hour24 => buffer.push_str("%H"),
       DateTimePatternToken::Hour24ZeroBased => buffer.push_str("%H"),
       DateTimePatternToken::Hour12 => buffer.push_str("%I"),
@@ -922,9 +924,10 @@ pub fn to_chrono_pattern(tokens: &[DateTimePatternToken]) -> String {
       DateTimePatternToken::Nanosecond(_d) => buffer.push_str("%f"),
       DateTimePatternToken::TimezoneName(_d) => buffer.push_str("%Z"),
       DateTimePatternToken::TimezoneId(_d) => buffer.push_str("%Z"),
-      DateTimePatternToken::TimezoneOffset(_d) => buffer.push_str("%z"),
-      DateTimePatternToken::TimezoneOffsetX(_d) => buffer.push_str("%:z"),
-      DateTimePatternToken::TimezoneOffsetXZZero(_d) => buffer.push_str("%:z"),
+      DateTimePatternToken::TimezoneOffset(d) => buffer.push_str(match *d { 1..=3 => "%z", 4 => "GMT%:z", _ => "%:z" }),
+      DateTimePatternToken::TimezoneOffsetX(d) | DateTimePatternToken::TimezoneOffsetXZZero(d) =>
+        buffer.push_str(match *d { 1 | 2 | 4 => "%z", _ => "%:z" }),
+      DateTimePatternToken::TimezoneOffsetGmt(_d) => buffer.push_str("GMT%:z"),
       DateTimePatternToken::AmPm => buffer.push_str("%p"),
       _ => warn!("Chono does not support {:?}", token)
     };
-- 
2.43.0


From 6246e1461b1eadbe7d58f6b6ecde0443478ac5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 53/60] fix: the pact file verifier reports the type of the
 element that is wrong

---
 rust/pact_models/src/lib.rs              | 4 ++--
 rust/pact_models/src/provider_states.rs  | 4 ++--
 rust/pact_models/src/sync_interaction.rs | 2 +-
 rust/pact_models/src/sync_pact.rs        | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/pact_models/src/lib.rs b/rust/pact_models/src/lib.rs
index e2269fd..d2297fe 100644
--- a/rust/pact_models/src/lib.rs
+++ b/rust/pact_models/src/lib.rs
@@ -228,7 +228,7 @@ impl PactJsonVerifier for Consumer {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-              format!("Must be a String, got {}", json_type_of(pact_json))))
+              format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
@@ -298,7 +298,7 @@ impl PactJsonVerifier for Provider {
         if let Some(name) = values.get("name") {
           if !name.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/name", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(name))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path.to_owned() + "/name",
diff --git a/rust/pact_models/src/provider_states.rs b/rust/pact_models/src/provider_states.rs
index 705d97a..f9e4bd8 100644
--- a/rust/pact_models/src/provider_states.rs
+++ b/rust/pact_models/src/provider_states.rs
@@ -135,14 +135,14 @@ impl PactJsonVerifier for ProviderState {
             "Provider state 'name' is required")),
           Some(name) => if !name.is_string() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'name' must be a String, got {}", json_type_of(pact_json))))
+              format!("Provider state 'name' must be a String, got {}", json_type_of(name))))
           }
         }
 
         if let Some(params) = values.get("params") {
           if !params.is_object() {
             results.push(PactFileVerificationResult::new(path, ResultLevel::ERROR,
-              format!("Provider state 'params' must be an Object, got {}", json_type_of(pact_json))))
+              format!("Provider state 'params' must be an Object, got {}", json_type_of(params))))
           }
         }
 
diff --git a/rust/pact_models/src/sync_interaction.rs b/rust/pact_models/src/sync_interaction.rs
index e865e0a..6707f3c 100644
--- a/rust/pact_models/src/sync_interaction.rs
+++ b/rust/pact_models/src/sync_interaction.rs
@@ -273,7 +273,7 @@ impl PactJsonVerifier for RequestResponseInteraction {
         if let Some(description) = values.get("description") {
           if !description.is_string() {
             results.push(PactFileVerificationResult::new(path.to_owned() + "/description", ResultLevel::ERROR,
-                                                         format!("Must be a String, got {}", json_type_of(pact_json))))
+                                                         format!("Must be a String, got {}", json_type_of(description))))
           }
         } else {
           results.push(PactFileVerificationResult::new(path,
diff --git a/rust/pact_models/src/sync_pact.rs b/rust/pact_models/src/sync_pact.rs
index 1bc24df..6b77917 100644
--- a/rust/pact_models/src/sync_pact.rs
+++ b/rust/pact_models/src/sync_pact.rs
@@ -374,7 +374,7 @@ impl PactJsonVerifier for RequestResponsePact {
                 }))
             }
             _ => results.push(PactFileVerificationResult::new("/interactions", ResultLevel::ERROR,
-                                                              &format!("Must be an Object, got {}", json_type_of(pact_json))))
+                                                              &format!("Must be an Array, got {}", json_type_of(interactions))))
           }
         } else {
           results.push(PactFileVerificationResult::new("/interactions", ResultLevel::WARNING, "Missing interactions"))
-- 
2.43.0


From 177266038ce10f02741955b29b87e422d7c30033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:37 +0000
Subject: [PATCH 54/60] fix: V4 synchronous messages can be cloned and
 displayed as interactions

---
 rust/pact_models/src/interaction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/pact_models/src/interaction.rs b/rust/pact_models/src/interaction.rs
index ea69b3c..d6d0a5b 100644
--- a/rust/pact_models/src/interaction.rs
+++ b/rust/pact_models/src/interaction.rs
@@ -163,6 +163,8 @@ impl Display for dyn Interaction {
       std::fmt::Display::fmt(&mp, f)
     } else if let Some(mp) = self.as_v4_async_message() {
       std::fmt::Display::fmt(&mp, f)
+    } else if let Some(mp) = self.as_v4_sync_message() {
+      std::fmt::Display::fmt(&mp, f)
     } else {
       Err(fmt::Error)
     }
@@ -176,6 +178,8 @@ impl Clone for Box<dyn Interaction> {
         Box::new(http)
       } else if let Some(message) = self.as_v4_async_message() {
         Box::new(message)
+      } else if let Some(message) = self.as_v4_sync_message() {
+        Box::new(message)
       } else {
         panic!("Internal Error - Tried to clone an interaction that was not valid")
       }
-- 
2.43.0


From 73f73ae817e98e1099640c6691e3a00a92b0a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 55/60] fix: the metadata of a V4 pact as a message pact says
 version 3

---
 rust/pact_models/src/v4/pact.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/pact_models/src/v4/pact.rs b/rust/pact_models/src/v4/pact.rs
index 4c7430f..98ab1bc 100644
--- a/rust/pact_models/src/v4/pact.rs
+++ b/rust/pact_models/src/v4/pact.rs
@@ -259,10 +259,14 @@ impl Pact for V4Pact {
       .flatten()
       .collect();
     let metadata = self.metadata.iter().map(|(k, v)| {
-      match v {
-        Value::Object(map) => Some((k.clone(), map.iter()
-          .map(|(k, v)| (k.clone(), json_to_string(v))).collect())),
-        _ => None
+      if k == "pactSpecification" {
+        Some((k.clone(), btreemap!{"version".to_string() => PactSpecification::V3.version_str()}))
+      } else {
+        match v {
+          Value::Object(map) => Some((k.clone(), map.iter()
+            .map(|(k, v)| (k.clone(), json_to_string(v))).collect())),
+          _ => None
+        }
       }
     }).flatten()
       .collect();
-- 
2.43.0


From 0e8183e25d692a9fdd2d2cd3ef306910f56dc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 56/60] fix: the values of a generator have the names it is
 created from

---
 rust/pact_models/src/generators/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/pact_models/src/generators/mod.rs b/rust/pact_models/src/generators/mod.rs
index 74f252b..447d890 100644
--- a/rust/pact_models/src/generators/mod.rs
+++ b/rust/pact_models/src/generators/mod.rs
@@ -270,7 +270,7 @@ impl Generator {
       }
       Generator::RandomDecimal(digits) => hashmap!{ "digits" => json!(digits) },
       Generator::RandomHexadecimal(digits) => hashmap!{ "digits" => json!(digits) },
-      Generator::RandomString(digits) => hashmap!{ "digits" => json!(digits) },
+      Generator::RandomString(size) => hashmap!{ "size" => json!(size) },
       Generator::Regex(r) => hashmap!{ "regex" => json!(r) },
       Generator::Date(format, exp) => {
         match (format, exp) {
@@ -298,7 +298,7 @@ impl Generator {
       }
       Generator::RandomBoolean => empty,
       Generator::ProviderStateGenerator(exp, data_type) => if let Some(data_type) = data_type {
-        hashmap!{ "expression" => Value::String(exp.clone()), "data_type" => data_type.into() }
+        hashmap!{ "expression" => Value::String(exp.clone()), "dataType" => data_type.into() }
       } else {
         hashmap!{ "expression" => Value::String(exp.clone()) }
       }
-- 
2.43.0


From bb054f69ae850219d79848f2393f0cda2272f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 57/60] fix: min-max-type and array-contains rules can be
 created from their name and values

---
 rust/pact_models/src/matchingrules/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 807949a..0e4bb5c 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -313,11 +313,13 @@ impl MatchingRule {
       MatchingRule::Null => empty,
       MatchingRule::ContentType(ct) => hashmap!{ "value" => Value::String(ct.clone()) },
       MatchingRule::ArrayContains(variants) => hashmap! { "variants" =>
-        variants.iter().map(|(variant, rules, gens)| {
-          Value::Array(vec![json!(variant), rules.to_v3_json(), Value::Object(gens.iter().map(|(key, g)| {
-            (key.to_string(), g.to_json().unwrap())
-          }).collect())])
-        }).collect()
+        variants.iter().map(|(variant, rules, gens)| json!({
+          "index": variant,
+          "rules": rules.to_v3_json(),
+          "generators": Value::Object(gens.iter()
+            .filter_map(|(key, g)| g.to_json().map(|json| (String::from(key), json)))
+            .collect())
+        })).collect()
       },
       MatchingRule::Values => empty,
       MatchingRule::Boolean => empty,
@@ -392,6 +394,10 @@ impl MatchingRule {
         Some(max) => Ok(MatchingRule::MaxType(max)),
         None => Err(anyhow!("Max matcher missing 'max' field")),
       },
+      "min-max-type" => match (json_to_num(attributes.get("min").cloned()), json_to_num(attributes.get("max").cloned())) {
+        (Some(min), Some(max)) => Ok(MatchingRule::MinMaxType(min, max)),
+        _ => Err(anyhow!("MinMax matcher missing 'min' or 'max' field")),
+      },
       "timestamp" | "datetime" => match attributes.get("format").or_else(|| attributes.get(rule_type)) {
         Some(s) => Ok(MatchingRule::Timestamp(json_to_string(s))),
         None => Ok(MatchingRule::Timestamp(String::default())),
-- 
2.43.0


From 01399a8269595e152d26feb599b5289b5fb3abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 58/60] fix: renaming a category of matching rules keeps the
 rules of both

---
 rust/pact_models/src/matchingrules/mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rust/pact_models/src/matchingrules/mod.rs b/rust/pact_models/src/matchingrules/mod.rs
index 0e4bb5c..6a3dee9 100644
--- a/rust/pact_models/src/matchingrules/mod.rs
+++ b/rust/pact_models/src/matchingrules/mod.rs
@@ -1456,15 +1456,11 @@ impl MatchingRules {
     where S: Into<Category> {
     let old = old_name.into();
     let new = new_name.into();
-    MatchingRules {
-      rules: self.rules.iter().map(|(key, value)| {
-        if key == &old {
-          (new.clone(), value.rename(new.clone()))
-        } else {
-          (key.clone(), value.clone())
-        }
-      }).collect()
+    let mut rules = self.clone();
+    if let Some(category) = rules.rules.remove(&old) {
+      rules.add_rules(new, category);
     }
+    rules
   }
 
   /// Add the rules to the category
-- 
2.43.0


From d2258bd2f50f4f6ce9952cb947862f3f339f13de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:36 +0000
Subject: [PATCH 59/60] fix: a date expression that leads over an end of the
 calendar is an error

The next or last weekday or month, and yesterday and tomorrow, panicked when
there is no such date.
---
 .../src/generators/datetime_expressions.rs    | 117 +++++++++---------
 1 file changed, 61 insertions(+), 56 deletions(-)

diff --git a/rust/pact_models/src/generators/datetime_expressions.rs b/rust/pact_models/src/generators/datetime_expressions.rs
index d80a767..cdc77fc 100644
--- a/rust/pact_models/src/generators/datetime_expressions.rs
+++ b/rust/pact_models/src/generators/datetime_expressions.rs
@@ -56,7 +56,6 @@
 //! | 'next week @ next hour'                            | '2000-01-08T11:00Z' |
 //! | 'last month @ last hour'                           | '1999-12-01T09:00Z' |
 
-use std::ops::{Add, Sub};
 use std::str::from_utf8;
 
 use anyhow::anyhow;
@@ -156,7 +155,7 @@ pub fn execute_date_expression<Tz: TimeZone>(dt: &DateTime<Tz>, expression: &str
     Ok(dt.clone())
   } else {
     let result =  parse_date_expression(expression)?;
-    let mut date = base_date(&result, dt);
+    let mut date = checked_base_date(&result, dt)?;
     for adjustment in &result.adjustments {
       date = match adjustment.operation {
         Operation::PLUS => forward_date_by(adjustment, &date)?,
@@ -257,25 +256,25 @@ fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
       .and_then(|years| years.checked_mul(12))
       .and_then(|months| add_months(date, months))
       .ok_or_else(|| overflow(adjustment))?,
-    DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon),
-    DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue),
-    DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed),
-    DateOffsetType::THURSDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Thu),
-    DateOffsetType::FRIDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Fri),
-    DateOffsetType::SATURDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Sat),
-    DateOffsetType::SUNDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Sun),
-    DateOffsetType::JAN => adjust_date_up_to(date, |d| d.month() == 1),
-    DateOffsetType::FEB => adjust_date_up_to(date, |d| d.month() == 2),
-    DateOffsetType::MAR => adjust_date_up_to(date, |d| d.month() == 3),
-    DateOffsetType::APR => adjust_date_up_to(date, |d| d.month() == 4),
-    DateOffsetType::MAY => adjust_date_up_to(date, |d| d.month() == 5),
-    DateOffsetType::JUNE => adjust_date_up_to(date, |d| d.month() == 6),
-    DateOffsetType::JULY => adjust_date_up_to(date, |d| d.month() == 7),
-    DateOffsetType::AUG => adjust_date_up_to(date, |d| d.month() == 8),
-    DateOffsetType::SEP => adjust_date_up_to(date, |d| d.month() == 9),
-    DateOffsetType::OCT => adjust_date_up_to(date, |d| d.month() == 10),
-    DateOffsetType::NOV => adjust_date_up_to(date, |d| d.month() == 11),
-    DateOffsetType::DEC => adjust_date_up_to(date, |d| d.month() == 12)
+    DateOffsetType::MONDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Mon)?,
+    DateOffsetType::TUESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Tue)?,
+    DateOffsetType::WEDNESDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Wed)?,
+    DateOffsetType::THURSDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Thu)?,
+    DateOffsetType::FRIDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Fri)?,
+    DateOffsetType::SATURDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Sat)?,
+    DateOffsetType::SUNDAY => adjust_date_up_to(date, |d| d.weekday() == Weekday::Sun)?,
+    DateOffsetType::JAN => adjust_date_up_to(date, |d| d.month() == 1)?,
+    DateOffsetType::FEB => adjust_date_up_to(date, |d| d.month() == 2)?,
+    DateOffsetType::MAR => adjust_date_up_to(date, |d| d.month() == 3)?,
+    DateOffsetType::APR => adjust_date_up_to(date, |d| d.month() == 4)?,
+    DateOffsetType::MAY => adjust_date_up_to(date, |d| d.month() == 5)?,
+    DateOffsetType::JUNE => adjust_date_up_to(date, |d| d.month() == 6)?,
+    DateOffsetType::JULY => adjust_date_up_to(date, |d| d.month() == 7)?,
+    DateOffsetType::AUG => adjust_date_up_to(date, |d| d.month() == 8)?,
+    DateOffsetType::SEP => adjust_date_up_to(date, |d| d.month() == 9)?,
+    DateOffsetType::OCT => adjust_date_up_to(date, |d| d.month() == 10)?,
+    DateOffsetType::NOV => adjust_date_up_to(date, |d| d.month() == 11)?,
+    DateOffsetType::DEC => adjust_date_up_to(date, |d| d.month() == 12)?
   })
 }
 
@@ -283,38 +282,40 @@ fn forward_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
 fn adjust_date_up_to<Tz: TimeZone>(
   date: &DateTime<Tz>,
   predicate: fn(&DateTime<Tz>) -> bool
-) -> DateTime<Tz> {
+) -> anyhow::Result<DateTime<Tz>> {
   let mut date = date.clone();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow
+  let next = |date: DateTime<Tz>| date.checked_add_signed(Duration::days(1))
+    .ok_or_else(|| anyhow!("The date is out of the calendar"));
 
   while predicate(&date) {
-    date = date.add(one_day_duration);
+    date = next(date)?;
   }
 
   while !predicate(&date) {
-    date = date.add(one_day_duration);
+    date = next(date)?;
   }
 
-  date
+  Ok(date)
 }
 
 /// Rolls the date backwards one day at a time until the predicate is true
 fn adjust_date_down_to<Tz: TimeZone>(
   date: &DateTime<Tz>,
   predicate: fn(&DateTime<Tz>) -> bool
-) -> DateTime<Tz> {
+) -> anyhow::Result<DateTime<Tz>> {
   let mut date = date.clone();
-  let one_day_duration = Duration::try_days(1).unwrap(); // OK to unwrap, 1 will never overflow;
+  let next = |date: DateTime<Tz>| date.checked_sub_signed(Duration::days(1))
+    .ok_or_else(|| anyhow!("The date is out of the calendar"));
 
   while predicate(&date) {
-    date = date.sub(one_day_duration);
+    date = next(date)?;
   }
 
   while !predicate(&date) {
-    date = date.sub(one_day_duration);
+    date = next(date)?;
   }
 
-  date
+  Ok(date)
 }
 
 /// Moves the date by the number of months. If the month arrived at has no such day, this will be its
@@ -348,35 +349,39 @@ fn reverse_date_by<Tz: TimeZone>(adjustment: &Adjustment<DateOffsetType>, date:
       .and_then(|years| years.checked_mul(12))
       .and_then(|months| add_months(date, -months))
       .ok_or_else(|| overflow(adjustment))?,
-    DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon),
-    DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue),
-    DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed),
-    DateOffsetType::THURSDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Thu),
-    DateOffsetType::FRIDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Fri),
-    DateOffsetType::SATURDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Sat),
-    DateOffsetType::SUNDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Sun),
-    DateOffsetType::JAN => adjust_date_down_to(date, |d| d.month() == 1).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::FEB => adjust_date_down_to(date, |d| d.month() == 2).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::MAR => adjust_date_down_to(date, |d| d.month() == 3).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::APR => adjust_date_down_to(date, |d| d.month() == 4).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::MAY => adjust_date_down_to(date, |d| d.month() == 5).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::JUNE => adjust_date_down_to(date, |d| d.month() == 6).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::JULY => adjust_date_down_to(date, |d| d.month() == 7).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::AUG => adjust_date_down_to(date, |d| d.month() == 8).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::SEP => adjust_date_down_to(date, |d| d.month() == 9).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::OCT => adjust_date_down_to(date, |d| d.month() == 10).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::NOV => adjust_date_down_to(date, |d| d.month() == 11).with_day(1).unwrap_or_else(|| date.clone()),
-    DateOffsetType::DEC => adjust_date_down_to(date, |d| d.month() == 12).with_day(1).unwrap_or_else(|| date.clone())
+    DateOffsetType::MONDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Mon)?,
+    DateOffsetType::TUESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Tue)?,
+    DateOffsetType::WEDNESDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Wed)?,
+    DateOffsetType::THURSDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Thu)?,
+    DateOffsetType::FRIDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Fri)?,
+    DateOffsetType::SATURDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Sat)?,
+    DateOffsetType::SUNDAY => adjust_date_down_to(date, |d| d.weekday() == Weekday::Sun)?,
+    DateOffsetType::JAN => adjust_date_down_to(date, |d| d.month() == 1)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::FEB => adjust_date_down_to(date, |d| d.month() == 2)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::MAR => adjust_date_down_to(date, |d| d.month() == 3)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::APR => adjust_date_down_to(date, |d| d.month() == 4)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::MAY => adjust_date_down_to(date, |d| d.month() == 5)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::JUNE => adjust_date_down_to(date, |d| d.month() == 6)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::JULY => adjust_date_down_to(date, |d| d.month() == 7)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::AUG => adjust_date_down_to(date, |d| d.month() == 8)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::SEP => adjust_date_down_to(date, |d| d.month() == 9)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::OCT => adjust_date_down_to(date, |d| d.month() == 10)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::NOV => adjust_date_down_to(date, |d| d.month() == 11)?.with_day(1).unwrap_or_else(|| date.clone()),
+    DateOffsetType::DEC => adjust_date_down_to(date, |d| d.month() == 12)?.with_day(1).unwrap_or_else(|| date.clone())
   })
 }
 
-fn base_date<Tz: TimeZone>(result: &ParsedDateExpression, base: &DateTime<Tz>) -> DateTime<Tz> {
+fn checked_base_date<Tz: TimeZone>(result: &ParsedDateExpression, base: &DateTime<Tz>) -> anyhow::Result<DateTime<Tz>> {
   match result.base {
-    DateBase::NOW | DateBase::TODAY => base.clone(),
-    // Ok to unwrap, 1 will never overflow bounds
-    DateBase::YESTERDAY => base.clone().sub(Duration::try_days(1).unwrap()),
-    DateBase::TOMORROW => base.clone().add(Duration::try_days(1).unwrap())
-  }
+    DateBase::NOW | DateBase::TODAY => Some(base.clone()),
+    DateBase::YESTERDAY => base.clone().checked_sub_signed(Duration::days(1)),
+    DateBase::TOMORROW => base.clone().checked_add_signed(Duration::days(1))
+  }.ok_or_else(|| anyhow!("The date is out of the calendar"))
+}
+
+#[cfg(test)]
+fn base_date<Tz: TimeZone>(result: &ParsedDateExpression, base: &DateTime<Tz>) -> DateTime<Tz> {
+  checked_base_date(result, base).unwrap()
 }
 
 pub(crate) fn error(exp: &str, expected: &str, span: Option<Span>) -> anyhow::Error {
-- 
2.43.0


From 639151fdbe1f0a7f87c59d83e5e97f73134c872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:31 +0000
Subject: [PATCH 60/60] fix: 29 February is a valid date for a pattern without
 a year

---
 rust/pact_models/src/time_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/pact_models/src/time_utils.rs b/rust/pact_models/src/time_utils.rs
index 789f832..99a85ce 100644
--- a/rust/pact_models/src/time_utils.rs
+++ b/rust/pact_models/src/time_utils.rs
@@ -868,7 +868,8 @@ fn validate_matched_values(matched_values: &Vec<(DateTimePatternToken, String)>)
       }
     } else if let Some((_, month_str)) = month {
       // should be safe to unwrap here, as the value should have already been validated
-      let month = month_value(month_str).unwrap().with_year(2001);
+      // without a year, it has to be a day of the month in some year
+      let month = month_value(month_str).unwrap().with_year(2000);
       if day > month.total_days() {
         Err(format!("'{}' is not a valid day for month '{}'", day, month_str))
       } else {
-- 
2.43.0

