From 8a9920433c62201438778f3cb14c39a4477e2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:23 +0000
Subject: [PATCH 01/33] fix: do not panic on < as the first token, see through
 comments before <

---
 src/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d8f6cd6..b6ec50c 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,9 +153,9 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if self.tokens.last().unwrap().literal.to_uppercase() == "ARRAY"
-                        || self.tokens.last().unwrap().literal.to_uppercase() == "STRUCT"
-                    {
+                    // comments may be placed between ARRAY (STRUCT) and <
+                    let prev = self.tokens.iter().rev().find(|t| !t.is_comment());
+                    if prev.map_or(false, |t| t.in_(&vec!["ARRAY", "STRUCT"])) {
                         self.type_declaration_depth += 1;
                     }
                     self.next_char()?;
-- 
2.43.0


From 09d92e06fbd17eb081ec67c8fcc6d7d1c2b963a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:23 +0000
Subject: [PATCH 02/33] fix: /*/ does not terminate the comment it opens

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index b6ec50c..b3fcea3 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -312,6 +312,8 @@ impl Lexer {
     }
     fn read_multiline_comment(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        self.next_char()?; // / -> *
+        self.next_char()?; // * ->
         while !(self.get_char(0) == Some('*') && self.get_char(1) == Some('/')) {
             self.next_char()?;
         }
-- 
2.43.0


From e5242d273e5358556157ea9f540b640e7c3ceed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:23 +0000
Subject: [PATCH 03/33] fix: an empty template is terminated

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index b3fcea3..8085e7c 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -224,9 +224,9 @@ impl Lexer {
                 } else {
                     let mut end = false;
                     'outer: while !end {
-                        self.next_char()?;
                         for i in 0..count {
                             if self.get_char(i) != Some('}') {
+                                self.next_char()?;
                                 continue 'outer;
                             };
                         }
-- 
2.43.0


From e64ad74c49bfc1121a4fe7c8f0c3cb66ffb603ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:23 +0000
Subject: [PATCH 04/33] fix: an unclosed type bracket does not affect the next
 statement

---
 src/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 8085e7c..11811be 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -241,6 +241,12 @@ impl Lexer {
                     self.construct_token(line, column, res)
                 }
             }
+            // end of statement
+            ';' => {
+                self.type_declaration_depth = 0;
+                self.next_char()?;
+                self.construct_token(line, column, ch.to_string())
+            }
             // int64 or float64 literal
             '0'..='9' => {
                 let literal = self.read_number()?;
-- 
2.43.0


From 438bd383ea5e141ed2848c9a6b57b53f0eedb94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:23 +0000
Subject: [PATCH 05/33] fix: numbers ending with a dot are numeric literals

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 55df731..b2574ef 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,7 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re = Regex::new(r"^([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From 3028018f1c1f458087cab2a1d554bd33c70f5c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:18 +0000
Subject: [PATCH 06/33] fix: do not panic when an identifier is missing at the
 end of the input

---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index de801ff..07cab6a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -942,8 +942,15 @@ impl Parser {
             let mut trailing_idents = vec![];
             loop {
                 let curr_token = parser.get_token(0)?;
-                if curr_token.literal.chars().next().unwrap() == '`' {
-                    break;
+                match curr_token.literal.chars().next() {
+                    Some('`') => break,
+                    Some(_) => (),
+                    None => {
+                        return Err(BQ2CSTError::from_token(
+                            curr_token,
+                            "Expected identifier but got EOF".to_string(),
+                        ))
+                    }
                 }
                 let next_token = match parser.get_token(1) {
                     Ok(n) => n,
-- 
2.43.0


From dce3ed3f9959e9c989484e71750e8379a668e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:18 +0000
Subject: [PATCH 07/33] fix: do not drop a semicolon in the middle of a MERGE
 statement

---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 07cab6a..406d845 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2654,10 +2654,6 @@ impl Parser {
             self.parse_expr(usize::MAX, true, false, false, true)?,
         );
         merge.push_node("using", using);
-        if self.get_token(1)?.is(";") {
-            self.next_token()?; // -> ;
-            merge.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
-        }
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // ON -> expr
-- 
2.43.0


From 7e9dd0c71362cd5b4579a99c3488f658ffe19225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:18 +0000
Subject: [PATCH 08/33] fix: field access binds tighter than a unary operator

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 406d845..e208037 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -459,7 +459,8 @@ impl Parser {
                 "-" | "+" | "~" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // - -> expr
-                    let right = self.parse_expr(102, false, false, false, true)?;
+                    // NOTE 103 is a little greater than `.` (field access)
+                    let right = self.parse_expr(103, false, false, false, true)?;
                     left.push_node("right", right);
                 }
                 "DATE" | "TIME" | "DATETIME" | "TIMESTAMP" | "NUMERIC" | "BIGNUMERIC"
-- 
2.43.0


From a542a1e69f859bf70a3fe1fda6792154865661b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:19 +0000
Subject: [PATCH 09/33] fix: TABLE and MODEL are identifiers unless a name
 follows

---
 src/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e208037..27bd6b0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -490,10 +490,18 @@ impl Parser {
                     left.push_node("expr", right);
                 }
                 "TABLE" | "MODEL" => {
-                    left.node_type = NodeType::UnaryOperator;
-                    self.next_token()?; // TABLE -> ident
-                    let right = self.parse_expr(002, false, true, false, true)?;
-                    left.push_node("right", right);
+                    // they are not reserved, so they may also be names of columns
+                    let next = self.get_token(1)?;
+                    let is_prefix = !next.is_reserved_keyword()
+                        && next
+                            .literal
+                            .starts_with(|c: char| c.is_alphabetic() || "_`{@".contains(c));
+                    if is_prefix {
+                        left.node_type = NodeType::UnaryOperator;
+                        self.next_token()?; // TABLE -> ident
+                        let right = self.parse_expr(002, false, true, false, true)?;
+                        left.push_node("right", right);
+                    }
                 }
                 "B" | "R" | "BR" | "RB" => {
                     if self.get_token(1)?.is_string() {
-- 
2.43.0


From d251c13cbddcea87822a15b767f0ed4a255dc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:48 +0000
Subject: [PATCH 10/33] fix: declare row_value_alias of an unpivoted column

---
 src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 89f22f7..95f2769 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -223,6 +223,8 @@ export type IdentifierGeneral = FromItemExpr & {
     // TABLESAMPLE SYSTEM can only be applied directly to base tables
     tablesample?: NodeChild;
     for_system_time_as_of?: NodeChild;
+    // only in UNPIVOT operator
+    row_value_alias?: NodeChild;
   };
 };
 
-- 
2.43.0


From 71a2316195ec8dae3370f81a2dd3c69f03a85c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:52 +0000
Subject: [PATCH 11/33] fix: keep both ENFORCED clauses of a column

---
 src/parser.rs | 6 +++++-
 src/types.rs  | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 27bd6b0..ec688e5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1532,7 +1532,11 @@ impl Parser {
             res.push_node("references", references);
             if self.get_token(1)?.in_(&vec!["NOT", "ENFORCED"]) {
                 self.next_token()?; // -> NOT | ENFORCED
-                res.push_node("enforced", self.parse_enforced()?);
+                let key = match res.children.contains_key("enforced") {
+                    true => "references_enforced", // PRIMARY KEY is also (NOT) ENFORCED
+                    false => "enforced",
+                };
+                res.push_node(key, self.parse_enforced()?);
             }
         }
         if schema {
diff --git a/src/types.rs b/src/types.rs
index 95f2769..1c5b207 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1536,6 +1536,7 @@ export type Type = BaseNode & {
     primarykey?: NodeChild;
     references?: NodeChild;
     enforced?: NodeChild;
+    references_enforced?: NodeChild;
     default?: NodeChild;
     options?: NodeChild;
     collate?: NodeChild
-- 
2.43.0


From 1ea0051ff69d5084ee726444e8f9a3b797328d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:57 +0000
Subject: [PATCH 12/33] fix: OPTIONS is not the alias of a cloned table

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ec688e5..c59dc52 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1302,10 +1302,10 @@ impl Parser {
             left.node_type = NodeType::CallingTableFunction; // EXTERNAL_QUERY() is included
         }
         // alias
-        // NOTE PIVOT, UNPIVOT and MATCH_RECOGNIZE are not reserved keywords
+        // NOTE PIVOT, UNPIVOT, MATCH_RECOGNIZE and OPTIONS are not reserved keywords
         if !(self
             .get_token(1)?
-            .in_(&vec!["PIVOT", "UNPIVOT", "MATCH_RECOGNIZE"])
+            .in_(&vec!["PIVOT", "UNPIVOT", "MATCH_RECOGNIZE", "OPTIONS"])
             && self.get_token(2)?.in_(&vec!["(", "INCLUDE", "EXCLUDE"]))
         {
             left = self.push_trailing_alias(left)?;
-- 
2.43.0


From fc6bac2b658e217603d472c30e91a0850aeeb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:37 +0000
Subject: [PATCH 13/33] fix: declare all children of PipeStatement and
 SetOperator

---
 src/types.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 1c5b207..3a1f68a 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1317,6 +1317,7 @@ export type PatternQuantifier = BaseNode & {
 export type PipeStatement = XXXStatement & {
   node_type: "PipeStatement";
   children: {
+    with?: { Node: WithClause };
     left: NodeChild;
     right: NodeChild;
   };
@@ -1437,6 +1438,8 @@ export type SetOperator = XXXStatement & {
     distinct_or_all: NodeChild;
     left: { Node: SetOperator | SelectStatement | GroupedStatement };
     right: { Node: SetOperator | SelectStatement | GroupedStatement };
+    orderby?: NodeChild;
+    limit?: NodeChild;
   };
 };
 
-- 
2.43.0


From f5a02249c72536ee2704287628ffca57517fdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:43 +0000
Subject: [PATCH 14/33] fix: DEFAULT used as a value is a keyword

---
 src/parser.rs | 2 ++
 src/types.rs  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index c59dc52..3fe0d6c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -567,6 +567,8 @@ impl Parser {
                     left.push_node_vec("arms", arms);
                     left.push_node("end", self.construct_node(NodeType::Keyword)?);
                 }
+                // VALUES (DEFAULT, 1) | SET x = DEFAULT
+                "DEFAULT" => left.node_type = NodeType::Keyword,
                 _ => (),
             };
         }
diff --git a/src/types.rs b/src/types.rs
index 3a1f68a..3e221cc 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1104,6 +1104,10 @@ export type JoinPipeOperator = PipeOperator & {
 export type Keyword = BaseNode & {
   token: Token;
   node_type: "Keyword";
+  children: {
+    // only when used as an expression, like VALUES (DEFAULT, 1)
+    comma?: NodeChild;
+  };
 };
 
 export type KeywordSequence = BaseNode & {
-- 
2.43.0


From 3e81faf436f45a7862d3bbc038169b5e55e43636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:37 +0000
Subject: [PATCH 15/33] fix: a FROM query is a FromStatement wherever a query
 may stand

---
 src/parser.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3fe0d6c..b46925d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2030,14 +2030,13 @@ impl Parser {
     }
     // ----- SELECT statement -----
     fn parse_select_statement(&mut self, semicolon: bool, root: bool) -> BQ2CSTResult<Node> {
+        if self.get_token(0)?.is("FROM") {
+            return self.parse_from_statement(); // pipe syntax
+        }
         if self.get_token(0)?.literal.to_uppercase() == "(" {
             let mut node = self.construct_node(NodeType::GroupedStatement)?;
             self.next_token()?; // ( -> SELECT
-            if self.get_token(0)?.is("FROM") {
-                node.push_node("stmt", self.parse_from_statement()?);
-            } else {
-                node.push_node("stmt", self.parse_select_statement(false, true)?);
-            }
+            node.push_node("stmt", self.parse_select_statement(false, true)?);
             self.next_token()?; // stmt -> )
             if !self.get_token(0)?.is(")") {
                 return Err(BQ2CSTError::from_token(
@@ -2097,11 +2096,7 @@ impl Parser {
         if self.get_token(0)?.literal.to_uppercase() == "WITH" {
             let with = self.parse_with_clause()?;
             self.next_token()?; // -> SELECT | '(' | FROM
-            let mut node = if self.get_token(0)?.is("FROM") {
-                self.parse_from_statement()?
-            } else {
-                self.parse_select_statement(semicolon, true)?
-            };
+            let mut node = self.parse_select_statement(semicolon, true)?;
             node.push_node("with", with);
             return Ok(node);
         }
-- 
2.43.0


From 98eaeecbc8c6cf9181945b13f5a22d62d1f883f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:37 +0000
Subject: [PATCH 16/33] fix: the last labeled, BREAK or CONTINUE statement
 needs no semicolon

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b46925d..25ab717 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4128,7 +4128,7 @@ impl Parser {
         };
         stmt.push_node("leading_label", label);
         stmt.push_node("colon", colon);
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> trailing_label
             stmt.push_node("trailing_label", self.construct_node(NodeType::Identifier)?);
         }
@@ -4140,7 +4140,7 @@ impl Parser {
     }
     fn parse_break_continue_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut node = self.construct_node(NodeType::BreakContinueStatement)?;
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> label
             node.push_node("label", self.construct_node(NodeType::Identifier)?);
         }
-- 
2.43.0


From e164e7fec2f96d3f1a529699a6bf78f1eaef5786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:37 +0000
Subject: [PATCH 17/33] fix: accept an anonymous struct field of parameterized
 type

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 25ab717..b163724 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1456,7 +1456,7 @@ impl Parser {
                     let mut type_declarations = Vec::new();
                     while !self.get_token(0)?.is(">") {
                         let mut type_declaration;
-                        if !self.get_token(1)?.in_(&vec![",", ">", "TYPE", "<"]) {
+                        if !self.get_token(1)?.in_(&vec![",", ">", "TYPE", "<", "("]) {
                             // `is_identifier` is not availabe here,
                             // because `int64` is valid identifier
                             type_declaration = self.construct_node(NodeType::TypeDeclaration)?;
-- 
2.43.0


From 5508ac9ca278321a7e18712032b2462528fff6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:37 +0000
Subject: [PATCH 18/33] fix: the source of MERGE is a table

---
 src/parser.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b163724..01cb30b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2659,10 +2659,7 @@ impl Parser {
         self.next_token()?; // -> USING
         let mut using = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // USING -> expr
-        using.push_node(
-            "expr",
-            self.parse_expr(usize::MAX, true, false, false, true)?,
-        );
+        using.push_node("expr", self.parse_table(true)?);
         merge.push_node("using", using);
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
-- 
2.43.0


From 7d1d71e36c2dff0112a0dd3a1d021525ff094360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:25 +0000
Subject: [PATCH 19/33] fix: LEFT, INNER and FULL before UNION belong to the
 set operator, otherwise to JOIN

---
 src/parser.rs | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 01cb30b..8992a5b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1068,6 +1068,18 @@ impl Parser {
         }
         Ok(nodes)
     }
+    fn is_set_operator(&self, mut offset: usize) -> BQ2CSTResult<bool> {
+        // NOTE LEFT, INNER and so on may also belong to JOIN
+        if self.get_token(offset)?.in_(&vec!["INNER", "FULL", "LEFT"]) {
+            offset += 1;
+        }
+        if self.get_token(offset)?.is("OUTER") {
+            offset += 1;
+        }
+        Ok(self
+            .get_token(offset)?
+            .in_(&vec!["UNION", "INTERSECT", "EXCEPT"]))
+    }
     fn parse_set_operator(&mut self, left: Node) -> BQ2CSTResult<Node> {
         let mut operator: Node;
 
@@ -1385,7 +1397,8 @@ impl Parser {
         // JOIN
         while self.get_token(1)?.in_(&vec![
             "left", "right", "cross", "inner", "full", "join", ",",
-        ]) && root
+        ]) && !self.is_set_operator(1)?
+            && root
         {
             self.next_token()?; // table -> LEFT, RIGHT, INNER, CROSS, FULL, JOIN, ","
             let mut join = if self.get_token(0)?.in_(&vec!["join", ","]) {
@@ -2045,16 +2058,7 @@ impl Parser {
                 ));
             }
             node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
-            while self.get_token(1)?.in_(&vec![
-                "UNION",
-                "INTERSECT",
-                "EXCEPT",
-                "INNER",
-                "FULL",
-                "LEFT",
-                "OUTER",
-            ]) && root
-            {
+            while self.is_set_operator(1)? && root {
                 self.next_token()?;
                 node = self.parse_set_operator(node)?;
             }
@@ -2239,16 +2243,7 @@ impl Parser {
             node.push_node("limit", limit);
         }
         // UNION
-        while self.get_token(1)?.in_(&vec![
-            "UNION",
-            "INTERSECT",
-            "EXCEPT",
-            "INNER",
-            "FULL",
-            "LEFT",
-            "OUTER",
-        ]) && root
-        {
+        while self.is_set_operator(1)? && root {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
         }
-- 
2.43.0


From 3b0b0a88fdf5267e745bde8f37b1e2640f05adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:25 +0000
Subject: [PATCH 20/33] fix: accept ORDER BY and LIMIT after a set operation
 that ends with a grouped query

---
 src/parser.rs | 60 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8992a5b..13c91a6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2042,6 +2042,35 @@ impl Parser {
         Ok(node)
     }
     // ----- SELECT statement -----
+    fn push_orderby_and_limit(&mut self, mut node: Node) -> BQ2CSTResult<Node> {
+        // ORDER BY
+        if self.get_token(1)?.is("ORDER") {
+            self.next_token()?; // -> ORDER
+            node.push_node("orderby", self.parse_xxxby_exprs()?);
+        }
+        // LIMIT
+        if self.get_token(1)?.is("LIMIT") {
+            self.next_token()?; // -> LIMIT
+            let mut limit = self.construct_node(NodeType::LimitClause)?;
+            self.next_token()?; // -> expr
+            limit.push_node(
+                "expr",
+                self.parse_expr(usize::MAX, false, false, false, true)?,
+            );
+            if self.get_token(1)?.literal.to_uppercase() == "OFFSET" {
+                self.next_token()?; // expr -> OFFSET
+                let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
+                self.next_token()?; // OFFSET -> expr
+                offset.push_node(
+                    "expr",
+                    self.parse_expr(usize::MAX, false, false, false, true)?,
+                );
+                limit.push_node("offset", offset);
+            }
+            node.push_node("limit", limit);
+        }
+        Ok(node)
+    }
     fn parse_select_statement(&mut self, semicolon: bool, root: bool) -> BQ2CSTResult<Node> {
         if self.get_token(0)?.is("FROM") {
             return self.parse_from_statement(); // pipe syntax
@@ -2062,31 +2091,8 @@ impl Parser {
                 self.next_token()?;
                 node = self.parse_set_operator(node)?;
             }
-            // ORDER BY
-            if self.get_token(1)?.is("ORDER") && root {
-                self.next_token()?; // -> ORDER
-                node.push_node("orderby", self.parse_xxxby_exprs()?);
-            }
-            // LIMIT
-            if self.get_token(1)?.is("LIMIT") && root {
-                self.next_token()?; // -> LIMIT
-                let mut limit = self.construct_node(NodeType::LimitClause)?;
-                self.next_token()?; // -> expr
-                limit.push_node(
-                    "expr",
-                    self.parse_expr(usize::MAX, false, false, false, true)?,
-                );
-                if self.get_token(1)?.literal.to_uppercase() == "OFFSET" {
-                    self.next_token()?; // expr -> OFFSET
-                    let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
-                    self.next_token()?; // OFFSET -> expr
-                    offset.push_node(
-                        "expr",
-                        self.parse_expr(usize::MAX, false, false, false, true)?,
-                    );
-                    limit.push_node("offset", offset);
-                }
-                node.push_node("limit", limit);
+            if root {
+                node = self.push_orderby_and_limit(node)?;
             }
             if self.get_token(1)?.is(";") && semicolon && root {
                 self.next_token()?; // expr -> ;
@@ -2247,6 +2253,10 @@ impl Parser {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
         }
+        if node.node_type == NodeType::SetOperator {
+            // e.g. SELECT 1 UNION ALL (SELECT 2) ORDER BY 1
+            node = self.push_orderby_and_limit(node)?;
+        }
         // ;
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // expr -> ;
-- 
2.43.0


From 2195c1ee2bad44cc318b206f840a2c86676e7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 21/33] fix: recognize every query after an opening parenthesis
 in an expression

---
 src/parser.rs | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 13c91a6..b278a0a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -378,7 +378,7 @@ impl Parser {
                 "(" => {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
-                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT"]) {
+                    if self.is_query(0)? {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_select_statement(false, true)?);
                         self.next_token()?; // expr -> )
@@ -636,6 +636,10 @@ impl Parser {
                                 }
                                 node.push_node_vec("args", vec![from]);
                             }
+                            "ARRAY" | "EXISTS" if self.is_query(0)? => {
+                                let stmt = self.parse_select_statement(false, true)?;
+                                node.push_node_vec("args", vec![stmt]);
+                            }
                             _ => {
                                 node.push_node_vec(
                                     "args",
@@ -1011,7 +1015,7 @@ impl Parser {
             node.push_node("right", unnest);
         } else {
             self.next_token()?; // IN -> (
-            if self.get_token(1)?.in_(&vec!["SELECT", "WITH"]) {
+            if self.is_query(1)? {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
                 self.next_token()?; // -> SELECT | WITH
                 lparen.push_node("stmt", self.parse_select_statement(false, true)?);
@@ -2042,6 +2046,41 @@ impl Parser {
         Ok(node)
     }
     // ----- SELECT statement -----
+    fn is_query(&self, offset: usize) -> BQ2CSTResult<bool> {
+        // NOTE call this method only when the previous token is `(`
+        fn starts_with_keyword(parser: &Parser, offset: usize) -> BQ2CSTResult<bool> {
+            let token = parser.get_token(offset)?;
+            Ok(token.in_(&vec!["SELECT", "FROM"])
+                || (token.is("WITH") && !parser.get_token(offset + 1)?.is("(")))
+        }
+        if starts_with_keyword(self, offset)? {
+            return Ok(true);
+        }
+        // e.g. ((SELECT 1) UNION ALL (SELECT 2))
+        let mut first = offset;
+        while self.get_token(first)?.is("(") {
+            first += 1;
+        }
+        if first == offset || !starts_with_keyword(self, first)? {
+            return Ok(false);
+        }
+        let mut next = offset;
+        let mut depth = 0;
+        for token in &self.tokens[self.get_offset_index(offset)?..] {
+            if token.is_comment() {
+                continue;
+            } else if token.is("(") {
+                depth += 1;
+            } else if token.is(")") {
+                depth -= 1;
+            }
+            next += 1;
+            if depth == 0 {
+                break;
+            }
+        }
+        Ok(self.is_set_operator(next)? || self.get_token(next)?.in_(&vec!["ORDER", "LIMIT", "|>"]))
+    }
     fn push_orderby_and_limit(&mut self, mut node: Node) -> BQ2CSTResult<Node> {
         // ORDER BY
         if self.get_token(1)?.is("ORDER") {
-- 
2.43.0


From 737e3b0706e57005209cba86459a0616385b98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:29 +0000
Subject: [PATCH 22/33] fix: a pipe after a subquery in FROM belongs to the
 whole query

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b278a0a..7c3f242 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2136,7 +2136,7 @@ impl Parser {
             if self.get_token(1)?.is(";") && semicolon && root {
                 self.next_token()?; // expr -> ;
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
-            } else if self.get_token(1)?.is("|>") {
+            } else if self.get_token(1)?.is("|>") && root {
                 self.next_token()?; // -> |>
                 return self.parse_pipe_statement(node);
             }
-- 
2.43.0


From 02ad417a2a8af8ebbc96ecc793e81058aaa7d96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:50 +0000
Subject: [PATCH 23/33] fix: the semicolon after a piped query belongs to the
 enclosing statement

---
 src/parser.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7c3f242..a7ad39a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -302,11 +302,7 @@ impl Parser {
 
         let mut grouped = self.construct_node(NodeType::GroupedStatement)?;
         self.next_token()?; // ( -> SELECT | FROM
-        if self.get_token(0)?.is("FROM") {
-            grouped.push_node("stmt", self.parse_from_statement()?);
-        } else {
-            grouped.push_node("stmt", self.parse_select_statement(false, true)?);
-        }
+        grouped.push_node("stmt", self.parse_select_statement(false, true)?);
         self.next_token()?; // stmt -> )
         if !self.get_token(0)?.is(")") {
             return Err(BQ2CSTError::from_token(
@@ -1131,7 +1127,7 @@ impl Parser {
                 // actually, it may be pipe syntax
                 self.parse_select_statement(semicolon, true)?
             }
-            "FROM" => self.parse_from_statement()?, // pipe syntax
+            "FROM" => self.parse_from_statement(semicolon)?, // pipe syntax
             // DML
             "INSERT" => self.parse_insert_statement(semicolon)?,
             "DELETE" => self.parse_delete_statement(semicolon)?,
@@ -2112,7 +2108,7 @@ impl Parser {
     }
     fn parse_select_statement(&mut self, semicolon: bool, root: bool) -> BQ2CSTResult<Node> {
         if self.get_token(0)?.is("FROM") {
-            return self.parse_from_statement(); // pipe syntax
+            return self.parse_from_statement(semicolon); // pipe syntax
         }
         if self.get_token(0)?.literal.to_uppercase() == "(" {
             let mut node = self.construct_node(NodeType::GroupedStatement)?;
@@ -2138,7 +2134,7 @@ impl Parser {
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
             } else if self.get_token(1)?.is("|>") && root {
                 self.next_token()?; // -> |>
-                return self.parse_pipe_statement(node);
+                return self.parse_pipe_statement(node, semicolon);
             }
             return Ok(node);
         }
@@ -2302,27 +2298,27 @@ impl Parser {
             node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         } else if self.get_token(1)?.is("|>") && root {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(node);
+            return self.parse_pipe_statement(node, semicolon);
         }
         Ok(node)
     }
-    fn parse_from_statement(&mut self) -> BQ2CSTResult<Node> {
+    fn parse_from_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut from = self.construct_node(NodeType::FromStatement)?;
         self.next_token()?; // -> ident
         from.push_node("expr", self.parse_table(true)?);
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(from);
+            return self.parse_pipe_statement(from, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             from.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
         Ok(from)
     }
-    fn parse_pipe_statement(&mut self, left: Node) -> BQ2CSTResult<Node> {
+    fn parse_pipe_statement(&mut self, left: Node, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut pipe = self.construct_node(NodeType::PipeStatement)?;
         pipe.push_node("left", left);
         self.next_token()?; // -> SELECT | LIMIT | ...
@@ -2362,10 +2358,10 @@ impl Parser {
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(pipe);
+            return self.parse_pipe_statement(pipe, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             pipe.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
-- 
2.43.0


From cceb93b878e02b80ba923e537f6f55175e0a4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:42 +0000
Subject: [PATCH 24/33] fix: accept CALL of a procedure in a project with a
 dash

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a7ad39a..372cf5d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4352,7 +4352,7 @@ impl Parser {
     fn parse_call_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut call = self.construct_node(NodeType::CallStatement)?;
         self.next_token()?; // -> procedure_name
-        let procedure = self.parse_expr(usize::MAX, false, false, false, true)?;
+        let procedure = self.parse_expr(usize::MAX, false, true, false, true)?;
         call.push_node("procedure", procedure);
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
-- 
2.43.0


From 993b84ecb0755c8e8d07a59f2f0ddc0bf918f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:48 +0000
Subject: [PATCH 25/33] fix: a grouped query is the input of INSERT, not its
 columns

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 372cf5d..8769f00 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2579,7 +2579,11 @@ impl Parser {
             self.next_token()?; // INSERT -> identifier
             insert.push_node("target_name", self.parse_identifier()?);
         }
-        if self.get_token(1)?.is("(") {
+        let mut offset = 1;
+        while self.get_token(offset)?.is("(") {
+            offset += 1;
+        }
+        if offset > 1 && !self.get_token(offset)?.in_(&vec!["WITH", "SELECT", "FROM"]) {
             self.next_token()?; // identifier -> (
             insert.push_node("columns", self.parse_grouped_exprs(false)?);
         }
-- 
2.43.0


From 3a13bce5d9db650af69346cef30d8969c70e6ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:08 +0000
Subject: [PATCH 26/33] fix: accept a trailing comma before a closing
 parenthesis or the next pipe

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8769f00..1d550bb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2201,6 +2201,7 @@ impl Parser {
                     "EXCEPT",
                     ";",
                     ")",
+                    "|>",
                 ],
                 true,
                 true,
@@ -2392,7 +2393,7 @@ impl Parser {
             operator.push_node("keywords", temp)
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "WINDOW"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", ")", "|>", "WINDOW"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         if self.get_token(1)?.is("WINDOW") {
             self.next_token()?; // -> WINDOW
@@ -2422,7 +2423,7 @@ impl Parser {
     fn parse_aggregate_pipe_operator(&mut self) -> BQ2CSTResult<Node> {
         let mut operator = self.construct_node(NodeType::AggregatePipeOperator)?;
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "GROUP"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", ")", "|>", "GROUP"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         if self.get_token(1)?.is("GROUP") {
             self.next_token()?; // expr -> GROUP
@@ -2467,7 +2468,7 @@ impl Parser {
             operator.push_node("corresponding", self.parse_corresponding_clause()?);
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", ")", "|>"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         Ok(operator)
     }
@@ -2563,7 +2564,7 @@ impl Parser {
             operator.push_node("keywords", self.construct_node(NodeType::Keyword)?);
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", ")", "|>"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         Ok(operator)
     }
-- 
2.43.0


From d199be4257ce6c64a8a5a3b4f834ba322d7fd31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:06 +0000
Subject: [PATCH 27/33] fix: accept REPLACE after EXCEPT in a SELECT list

---
 src/parser.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1d550bb..c43817b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -350,24 +350,19 @@ impl Parser {
             match self.get_token(0)?.literal.to_uppercase().as_str() {
                 "*" => {
                     left.node_type = NodeType::Asterisk;
-                    match self.get_token(1)?.literal.to_uppercase().as_str() {
-                        "REPLACE" => {
-                            self.next_token()?; // * -> REPLACE
-                            let mut replace =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // REPLACE -> (
-                            replace.push_node("group", self.parse_grouped_exprs(true)?);
-                            left.push_node("replace", replace);
-                        }
-                        "EXCEPT" => {
-                            self.next_token()?; // * -> except
-                            let mut except =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // except -> (
-                            except.push_node("group", self.parse_grouped_exprs(false)?);
-                            left.push_node("except", except);
-                        }
-                        _ => (),
+                    if self.get_token(1)?.is("EXCEPT") {
+                        self.next_token()?; // * -> except
+                        let mut except = self.construct_node(NodeType::KeywordWithGroupedXXX)?;
+                        self.next_token()?; // except -> (
+                        except.push_node("group", self.parse_grouped_exprs(false)?);
+                        left.push_node("except", except);
+                    }
+                    if self.get_token(1)?.is("REPLACE") {
+                        self.next_token()?; // -> REPLACE
+                        let mut replace = self.construct_node(NodeType::KeywordWithGroupedXXX)?;
+                        self.next_token()?; // REPLACE -> (
+                        replace.push_node("group", self.parse_grouped_exprs(true)?);
+                        left.push_node("replace", replace);
                     }
                 }
                 // STRUCT
-- 
2.43.0


From 862c13e8f7d169cb2940fcf029af5e2a35ca75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:08 +0000
Subject: [PATCH 28/33] fix: accept NOT NULL after DEFAULT in a column
 definition

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c43817b..56af65e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -128,7 +128,7 @@ impl Parser {
             "=" | "<" | ">" | "<=" | ">=" | "!=" | "<>" | "LIKE" | "BETWEEN" | "IN" | "IS" => 109,
             "NOT" => match self.get_token(offset + 1)?.literal.to_uppercase().as_str() {
                 "IN" | "LIKE" | "BETWEEN" => 109,
-                "ENFORCED" => usize::MAX,
+                "ENFORCED" | "NULL" => usize::MAX, // constraint of a column
                 _ => {
                     return Err(BQ2CSTError::from_token(
                         self.get_token(offset + 1)?,
-- 
2.43.0


From 7e6bcf1caa934f5278b6fc24010512d4efbe2007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:25 +0000
Subject: [PATCH 29/33] fix: HAVING MAX or MIN comes before ORDER BY and LIMIT
 in a function call

---
 src/parser.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 56af65e..456dc48 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -647,6 +647,19 @@ impl Parser {
                                 vec![ignore_or_respect, self.construct_node(NodeType::Keyword)?],
                             );
                         }
+                        if self.get_token(1)?.is("HAVING") {
+                            self.next_token()?; // expr -> HAVING
+                            let mut having = self.construct_node(NodeType::KeywordSequence)?;
+                            self.next_token()?; // -> MAX | MIN
+                            let mut max = self.construct_node(NodeType::KeywordWithExpr)?;
+                            self.next_token()?; // -> expr
+                            max.push_node(
+                                "expr",
+                                self.parse_expr(usize::MAX, false, false, false, true)?,
+                            );
+                            having.push_node("next_keyword", max);
+                            node.push_node("having", having);
+                        }
                         if self.get_token(1)?.is("ORDER") {
                             self.next_token()?; // expr -> ORDER
                             let mut orderby = self.construct_node(NodeType::XXXByExprs)?;
@@ -666,22 +679,6 @@ impl Parser {
                             );
                             node.push_node("limit", limit);
                         }
-                        if self.get_token(1)?.is("HAVING") {
-                            // TODO
-                            // check if parse order is collect
-                            // this block shold be placed before RESPECT/IGNORE?
-                            self.next_token()?; // expr -> HAVING
-                            let mut having = self.construct_node(NodeType::KeywordSequence)?;
-                            self.next_token()?; // -> MAX | MIN
-                            let mut max = self.construct_node(NodeType::KeywordWithExpr)?;
-                            self.next_token()?; // -> expr
-                            max.push_node(
-                                "expr",
-                                self.parse_expr(usize::MAX, false, false, false, true)?,
-                            );
-                            having.push_node("next_keyword", max);
-                            node.push_node("having", having);
-                        }
                         self.next_token()?; // expr -> )
                     }
                     node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
-- 
2.43.0


From 3be9e85fba8f46db31bf6b18e11f609ebd64a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:09 +0000
Subject: [PATCH 30/33] fix: ASC, DESC and NULLS FIRST or LAST belong to the
 whole sort key

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 456dc48..80b0ced 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -823,7 +823,7 @@ impl Parser {
                 left.push_node("alias", self.construct_node(NodeType::Identifier)?);
             }
         }
-        if order {
+        if order && precedence == usize::MAX {
             if self.get_token(1)?.in_(&vec!["ASC", "DESC"]) {
                 self.next_token()?; // expr -> ASC, DESC
                 let order = self.construct_node(NodeType::Keyword)?;
-- 
2.43.0


From 1c4eb41b27b177c1eb8c814cc4a9d41db1ccbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 31/33] fix: an element access after a chained function call
 applies to its result

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 80b0ced..eff9ede 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -117,7 +117,8 @@ impl Parser {
         // 200... => (ST_GEOGFROMGEOJSON)
         let precedence = match self.get_token(offset)?.literal.to_uppercase().as_str() {
             // return precedence of BINARY operator
-            "(" | "[" => 101,
+            "(" => 101,
+            "[" => 102, // NOTE greater than `(` because `(a).f()[0]` means `((a).f())[0]`
             "." => 102, // when used with chained function call (otherwise 101)
             "*" | "/" | "||" => 103,
             "+" | "-" => 104,
-- 
2.43.0


From 6235b6525c13e852c84bde02e98d7e5163316bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:59 +0000
Subject: [PATCH 32/33] fix: hexadecimal integers are one number

---
 src/lexer.rs | 18 ++++++++++++++++++
 src/token.rs |  5 ++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 11811be..d0c84ac 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -363,6 +363,17 @@ impl Lexer {
     }
     fn read_number(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        if self.get_char(0) == Some('0')
+            && matches!(self.get_char(1), Some('x') | Some('X'))
+            && is_hex_digit(&self.get_char(2))
+        {
+            self.next_char()?; // 0 -> x
+            self.next_char()?; // x -> F
+            while is_hex_digit(&self.get_char(0)) {
+                self.next_char()?;
+            }
+            return Ok(self.input[first_position..self.position].iter().collect());
+        }
         while is_digit(&self.get_char(0)) {
             self.next_char()?;
         } // 9 -> .
@@ -432,6 +443,13 @@ fn is_digit(ch: &Option<char>) -> bool {
     }
 }
 
+fn is_hex_digit(ch: &Option<char>) -> bool {
+    match ch {
+        Some(ch) => ch.is_digit(16),
+        None => false,
+    }
+}
+
 fn is_end_of_line(ch: &Option<char>) -> bool {
     match ch {
         Some(ch) => ch == &'\n',
diff --git a/src/token.rs b/src/token.rs
index b2574ef..c7f772d 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,10 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re = Regex::new(
+            r"^(0[xX][0-9a-fA-F]+|([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?)$",
+        )
+        .unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From 95005a2da9dec91e6d8e527d9036c76a53a33fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:59 +0000
Subject: [PATCH 33/33] fix: the type of an interval allows ASC, DESC and NULLS
 FIRST or LAST

---
 src/types.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 3e221cc..cbe8242 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1061,8 +1061,6 @@ export type IntervalLiteral = Expr & {
     date_part: NodeChild;
     to?: NodeChild;
     to_date_part?: NodeChild;
-    order: undefined;
-    null_order: undefined;
   };
 };
 
-- 
2.43.0

