From 25f8afbdf3cf024c346f4ec99bb502f955d59902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:25 +0000
Subject: [PATCH 01/14] fix: suffix helper caches must not confuse a token with
 a rule of the same number

---
 src/tool/visitor/grammar_visitor.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 6836e31..227661b 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -114,9 +114,10 @@ pub struct ProductionVisitor<'a> {
   block_cache: HashMap<Vec<Vec<ProductionItem>>, usize>,
 
 
-  star_cache: HashMap<usize, usize>,
-  plus_cache: HashMap<usize, usize>,
-  question_cache: HashMap<usize, usize>,
+  // 以 item 为键，终结符和非终结符的 id 可能相同，不能只用 id 作为键
+  star_cache: HashMap<ProductionItem, usize>,
+  plus_cache: HashMap<ProductionItem, usize>,
+  question_cache: HashMap<ProductionItem, usize>,
 }
 
 impl<'a> ProductionVisitor<'a> {
@@ -171,21 +172,21 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
   // 返回产生式的元素
   fn visit_element(&mut self, ctx: &dyn ElementContext) -> Box<dyn std::any::Any> {
     // 首先解析出一个 item
-    let item: ProductionItem; let id: usize;
+    let item: ProductionItem;
     if let Some(token) = ctx.token_ref() {
-      id = self.grammar.vocabulary.get_terminal_id_by_name(&token.symbol.text).unwrap();
+      let id = self.grammar.vocabulary.get_terminal_id_by_name(&token.symbol.text).unwrap();
       item = ProductionItem::Terminal(id);
     }
     else if let Some(literal) = ctx.string_literal() {
-      id = self.grammar.vocabulary.get_terminal_id_by_name(&literal.symbol.text).unwrap();
+      let id = self.grammar.vocabulary.get_terminal_id_by_name(&literal.symbol.text).unwrap();
       item = ProductionItem::Terminal(id);
     }
     else if let Some(rule) = ctx.rule_ref() {
-      id = self.grammar.vocabulary.get_nonterminal_id_by_name(&rule.symbol.text).unwrap();
+      let id = self.grammar.vocabulary.get_nonterminal_id_by_name(&rule.symbol.text).unwrap();
       item = ProductionItem::NonTerminal(id);
     }
     else if let Some(block) = ctx.block() {
-      id = *block.accept(self).downcast::<usize>().unwrap();
+      let id = *block.accept(self).downcast::<usize>().unwrap();
       item = ProductionItem::NonTerminal(id);
     }
     else {
@@ -199,7 +200,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         // item * => item2 -> item item2 | epsilon
 
         // 查看是否已存在 item_id 即为 新产生式的 id。
-        if let Some(item_id) = self.star_cache.get(&id) {
+        if let Some(item_id) = self.star_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -214,14 +215,14 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.star_cache.insert(id, self.next_rule_id);
+        self.star_cache.insert(item, self.next_rule_id);
 
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else if let Some(_) = suffix.plus() {
         // item * => item2 -> item item2 | item
-        if let Some(item_id) = self.plus_cache.get(&id) {
+        if let Some(item_id) = self.plus_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -235,13 +236,13 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.plus_cache.insert(id, self.next_rule_id);
+        self.plus_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else {
         // item * => item2 -> item | epsilon
-        if let Some(item_id) = self.question_cache.get(&id) {
+        if let Some(item_id) = self.question_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -254,7 +255,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         let p2 = Production::new(self.next_rule_id, &vec![item]);
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
-        self.question_cache.insert(id, self.next_rule_id);
+        self.question_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
-- 
2.43.0


From f8e45d1f402936c6df9d84605f43dfb6635e1fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:25 +0000
Subject: [PATCH 02/14] fix: report a repeated rule definition and keep its
 number

---
 src/tool/visitor/grammar_visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 227661b..911074c 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -93,7 +93,7 @@ impl SyntaxisVisitor for SymbolVisitor<'_> {
 
   fn visit_parser_rule(&mut self, ctx: &dyn ParserRuleContext) -> Box<dyn std::any::Any> {
     let name = &ctx.rule_ref().unwrap().symbol.text;
-    if self.grammar.vocabulary.is_terminal_name_defined(name) {
+    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {
       println!("重复定义 rule: {}", name);
       return self.default_result();
     }
-- 
2.43.0


From aeb994a1b36c58716d7a3dacbfde9b0fed2aafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 03/14] fix: locate the end marker at the end of the input

---
 src/tool/templates/target/rust/lexer.tera | 4 ++--
 src/tool/v1/syntaxis_lexer.rs             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 2def620..3d923a5 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -67,8 +67,8 @@ impl Lexer for {{name}}Lexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
diff --git a/src/tool/v1/syntaxis_lexer.rs b/src/tool/v1/syntaxis_lexer.rs
index cdeb40c..26f1ce1 100644
--- a/src/tool/v1/syntaxis_lexer.rs
+++ b/src/tool/v1/syntaxis_lexer.rs
@@ -90,8 +90,8 @@ impl Lexer for SyntaxisLexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
-- 
2.43.0


From 3261b65666589f015ba5535d35f7a41a7da8c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 04/14] fix: spell the QUESTION token's name as declared

---
 src/tool/syntaxis/syntaxis_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/syntaxis/syntaxis_lexer.rs b/src/tool/syntaxis/syntaxis_lexer.rs
index 00f6db8..de1d428 100644
--- a/src/tool/syntaxis/syntaxis_lexer.rs
+++ b/src/tool/syntaxis/syntaxis_lexer.rs
@@ -72,7 +72,7 @@ impl SyntaxisLexer {
 
     let token_names = vec![
       "_START", "_STOP", "LINE_COMMENT", "BLOCK_COMMENT", "WS", "FRAGMENT", "TOKEN_REF",
-      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUEStION", "DOT",
+      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUESTION", "DOT",
       "NOT", "LPAREN", "RPAREN", "POUND", "STRING_LITERAL", "RANGE", "REGULAR_LITERAL", "EPSILON"
     ];
 
-- 
2.43.0


From ecd5b960d9caef399bb81e8bfd429bd6178cca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 05/14] fix: skip empty sub-rules when looking for a node's
 first and last token

---
 src/runtime/ast/rule_context.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/runtime/ast/rule_context.rs b/src/runtime/ast/rule_context.rs
index 9be510c..c96bfb7 100644
--- a/src/runtime/ast/rule_context.rs
+++ b/src/runtime/ast/rule_context.rs
@@ -34,42 +34,37 @@ impl RuleContext {
 
   pub fn get_rule_index(&self) -> usize { self.rule_index }
 
+  // 匹配为空的子规则没有叶子节点，需要跳过
   pub fn get_first_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
+    self.children.iter().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx),
       ASTContext::Rule(ctx) => ctx.get_first_terminal(),
       ASTContext::Error(_) => None,
-    }
-
+    })
   }
 
   pub fn get_last_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children.last().unwrap() {
+    self.children.iter().rev().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx),
       ASTContext::Rule(ctx) => ctx.get_last_terminal(),
       ASTContext::Error(_) => None,
-    }
+    })
   }
 
   pub fn get_start_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
+    self.children.iter().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
       ASTContext::Rule(ctx) => ctx.get_start_token(),
       ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
-    }
-
+    })
   }
 
   pub fn get_stop_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match self.children.last().unwrap() {
+    self.children.iter().rev().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
       ASTContext::Rule(ctx) => ctx.get_stop_token(),
       ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
-    }
+    })
   }
 
   pub fn get_terminal(&self, token_type: usize, i: usize) -> Option<&TerminalContext> {
-- 
2.43.0


From 4aebd50672e5ea6655bcf0276a0586aa22fe7cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 06/14] fix: separate nonterminals by a blank when printing a
 grammar

---
 src/tool/grammar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index cc4aa36..4c14692 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -235,7 +235,7 @@ impl Display for Grammar {
       for item in production.right.iter() {
         match item {
           ProductionItem::NonTerminal(id) => {
-            write!(f, "{}", self.vocabulary.get_nonterminal_name_with_default(*id))?
+            write!(f, " {}", self.vocabulary.get_nonterminal_name_with_default(*id))?
           },
           ProductionItem::Terminal(id) => {
             let name = self.vocabulary.get_terminal_name(*id);
-- 
2.43.0


From d317f4ce7d1b4e2843086f4b7a4f5d0b834a6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 07/14] fix: bootstrapped parser returns its own front end's
 typed nodes

---
 src/tool/v1/syntaxis_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/v1/syntaxis_parser.rs b/src/tool/v1/syntaxis_parser.rs
index f8d4991..3431729 100644
--- a/src/tool/v1/syntaxis_parser.rs
+++ b/src/tool/v1/syntaxis_parser.rs
@@ -1,6 +1,8 @@
 use std::{collections::HashMap, rc::Rc};
 
-use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::{grammar::{Production, ProductionItem}, syntaxis::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext}}};
+use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::grammar::{Production, ProductionItem}};
+
+use super::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext};
 
 
 
-- 
2.43.0


From e8fb96cae7c8b96a29ad3b6854040281d08d735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 08/14] fix: hand the result so far, not its box, to
 should_visit_next_child

---
 src/tool/syntaxis/syntaxis_visitor.rs | 2 +-
 src/tool/v1/syntaxis_visitor.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/syntaxis/syntaxis_visitor.rs b/src/tool/syntaxis/syntaxis_visitor.rs
index e241f28..024f8db 100644
--- a/src/tool/syntaxis/syntaxis_visitor.rs
+++ b/src/tool/syntaxis/syntaxis_visitor.rs
@@ -71,7 +71,7 @@ pub trait SyntaxisVisitor {
   fn visit_children(&mut self, ctx: &RuleContext) -> Box<dyn Any> {
     let mut result = self.default_result();
     for child in ctx.children.iter() {
-      if ! self.should_visit_next_child(ctx, &result) { break; }
+      if ! self.should_visit_next_child(ctx, result.as_ref()) { break; }
 
       let child_result = match child {
         ASTContext::Terminal(ctx) => self.visit_terminal(ctx),
diff --git a/src/tool/v1/syntaxis_visitor.rs b/src/tool/v1/syntaxis_visitor.rs
index e241f28..024f8db 100644
--- a/src/tool/v1/syntaxis_visitor.rs
+++ b/src/tool/v1/syntaxis_visitor.rs
@@ -71,7 +71,7 @@ pub trait SyntaxisVisitor {
   fn visit_children(&mut self, ctx: &RuleContext) -> Box<dyn Any> {
     let mut result = self.default_result();
     for child in ctx.children.iter() {
-      if ! self.should_visit_next_child(ctx, &result) { break; }
+      if ! self.should_visit_next_child(ctx, result.as_ref()) { break; }
 
       let child_result = match child {
         ASTContext::Terminal(ctx) => self.visit_terminal(ctx),
-- 
2.43.0


From 56df5de9e1449a50970ab20b46b30862c86e509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 09/14] fix: write the whole page

---
 src/tool/gui/ast_drawer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index ec55cc6..594b2a6 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -56,7 +56,7 @@ impl ASTDrawer {
     
 
     let mut file = std::fs::File::create(filename).unwrap();
-    file.write(result.as_bytes()).unwrap();
+    file.write_all(result.as_bytes()).unwrap();
   }
 }
 
-- 
2.43.0


From da60bcd9a222f98054417292fc4e798c816556a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:40 +0000
Subject: [PATCH 10/14] fix: escape everything that is special inside the
 page's template strings

---
 src/tool/gui/ast_drawer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index 594b2a6..85c7d3f 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -25,7 +25,8 @@ impl ASTDrawer {
   }
 
   fn escape(s: &str) -> String {
-    s.replace("\\", "\\\\").replace("`", "\\`")
+    // 内容位于 <script> 内的模板字符串中：$ 会引入 ${}，< 可能组成 </script>，\r 会被规范化为 \n
+    s.replace("\\", "\\\\").replace("`", "\\`").replace("$", "\\$").replace("<", "\\x3c").replace("\r", "\\r")
   }
 
   fn dump(ast: &RuleContext) -> String {
-- 
2.43.0


From b0b55b26096ed3d5c046927952a226657f746505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:37 +0000
Subject: [PATCH 11/14] fix: a string literal's pattern matches exactly the
 text it denotes

---
 src/tool/visitor/lexer_rule_visitor.rs | 27 ++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 67d695d..2567e6c 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -64,6 +64,24 @@ impl LexerRuleVisitor {
 }
 
 
+// 将带引号的字符串字面量转换为恰好识别其内容的正则表达式
+pub(super) fn literal_regex(literal: &str) -> String {
+  let mut text = String::new();
+  let mut chars = literal[1..literal.len()-1].chars();
+  while let Some(ch) = chars.next() {
+    if ch != '\\' { text.push(ch); continue; }
+    match chars.next() {
+      Some('n') => text.push('\n'),
+      Some('t') => text.push('\t'),
+      Some('r') => text.push('\r'),
+      Some(ch) if ch == '\\' || ch == '\'' => text.push(ch),
+      other => { text.push('\\'); text.extend(other); },
+    }
+  }
+  // 回车不能直接出现在生成代码的原始字符串中
+  format!("^({})", regex::escape(&text).replace("\r", "\\r"))
+}
+
 pub struct StringLiteralVisitor {
   pub data: Vec<LexerRuleData>,
   pub next_token_type: usize, // 注意初始化为 2
@@ -81,14 +99,7 @@ impl SyntaxisVisitor for StringLiteralVisitor {
       self.cache.insert(name.to_string());
 
 
-      // abc  ab\n
-      let literal = &name[1..name.len()-1]
-        .replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")
-        .replace("\\r", "\r").replace("\\'", "\'").replace("+", "\\+")
-        .replace("*", "\\*")
-      ;
-
-      self.data.push( LexerRuleData {token_type: self.next_token_type, token_name: format!("T_{}", self.next_token_type), regex: format!("^({})", literal) });
+      self.data.push( LexerRuleData {token_type: self.next_token_type, token_name: format!("T_{}", self.next_token_type), regex: literal_regex(name) });
       self.next_token_type += 1;
     }
     self.default_result()
-- 
2.43.0


From 345fed09463047c2bba4190108cc07f1308a8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:49 +0000
Subject: [PATCH 12/14] fix: turn string literals into tokens instead of
 panicking

---
 src/tool/visitor/grammar_visitor.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 911074c..e89cb3e 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::tool::{grammar::{Grammar, ProductionItem, Production}, syntaxis::{syntaxis_visitor::SyntaxisVisitor, syntaxis_context::{ElementContext, LexerRuleContext, ParserRuleContext}}};
 
-use super::lexer_rule_visitor::LexerRuleData;
+use super::lexer_rule_visitor::{LexerRuleData, literal_regex};
 
 /**
  * 第一遍 将所有的语法规则中的字符串字面量转换为 token
@@ -20,12 +20,6 @@ pub struct StringLiteralToTokenVisitor<'a> {
 }
 
 impl<'a> StringLiteralToTokenVisitor<'a> {
-  // 将字符串字面量转义为对应的实际字符串
-  fn escape(_input: &str) -> String { todo!() }
-  
-  // 将字符串字面量转义为识别它的正则表达式
-  fn regular_escape(_input: &str) -> String { todo!() }
-
   pub fn new(grammar: &'a mut Grammar, first_token_id: usize) -> Self {
     Self { grammar, next_token_id: first_token_id, data: Vec::new(), }
   }
@@ -34,21 +28,21 @@ impl<'a> StringLiteralToTokenVisitor<'a> {
 impl SyntaxisVisitor for StringLiteralToTokenVisitor<'_> {
   fn visit_element(&mut self, ctx: &dyn ElementContext) -> Box<dyn std::any::Any> {
     if let Some(value) = ctx.string_literal() {
-      // 需要进行相关转义处理
-      let text = StringLiteralToTokenVisitor::escape(&value.symbol.text);// 为了防止字符串的内容和某个 token 同名, 因此不删除引号
+      let text = &value.symbol.text; // 为了防止字符串的内容和某个 token 同名, 因此不删除引号；第三遍也用原文查找
 
       // 检查该字符串是否已经定义
-      if self.grammar.vocabulary.is_terminal_name_defined(&text) { return self.default_result(); } 
+      if self.grammar.vocabulary.is_terminal_name_defined(text) { return self.default_result(); } 
       
       // 定义之
-      self.grammar.vocabulary.add_terminal(self.next_token_id, &text);
+      self.grammar.vocabulary.add_terminal(self.next_token_id, text);
       
       // 将字符串对应的正则表达式放入 data 中，首先需要进行正则表达式的转义
-      let regular_string = StringLiteralToTokenVisitor::regular_escape(&value.symbol.text);
+      let regular_string = literal_regex(text);
       self.data.push(LexerRuleData { token_type: self.next_token_id, token_name: format!("_T_{}", self.next_token_id), regex: regular_string, });
       self.next_token_id += 1;
     }
-    self.default_result()
+    // 括号中的字符串字面量
+    self.visit_children(ctx.as_rule())
   }
 }
 
-- 
2.43.0


From 55274e5320de4a8867eb9e21ed1f8f1c14eca3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:07 +0000
Subject: [PATCH 13/14] fix: resolve every escape of string literals

---
 src/tool/visitor/lexer_rule_visitor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 2567e6c..dd89689 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -74,6 +74,18 @@ pub(super) fn literal_regex(literal: &str) -> String {
       Some('n') => text.push('\n'),
       Some('t') => text.push('\t'),
       Some('r') => text.push('\r'),
+      Some('a') => text.push('\x07'),
+      Some('f') => text.push('\x0c'),
+      Some('v') => text.push('\x0b'),
+      Some('u') => {
+        // \u{41}、\u{041} 或 \u{0x41}
+        let raw: String = chars.by_ref().take_while(|ch| *ch != '}').collect();
+        let hex = raw.trim_start_matches('{');
+        match u32::from_str_radix(hex.strip_prefix("0x").unwrap_or(hex), 16).ok().and_then(char::from_u32) {
+          Some(ch) => text.push(ch),
+          None => text.extend(["\\u", &raw, "}"]),
+        }
+      },
       Some(ch) if ch == '\\' || ch == '\'' => text.push(ch),
       other => { text.push('\\'); text.extend(other); },
     }
-- 
2.43.0


From 4cf9f9892a1b9adb965e3875b47f2d27df0fbd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:55 +0000
Subject: [PATCH 14/14] fix: a drawn page's title keeps the given name,
 whatever it contains

---
 src/tool/gui/ast_drawer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index 85c7d3f..b77d3f2 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -50,7 +50,8 @@ impl ASTDrawer {
   pub fn draw(&self, ast: &RuleContext, name: &str, filename: &str) {
     let mut context = Context::new();
     context.insert("ast", &format!("const ast = {};", ASTDrawer::dump(ast)));
-    context.insert("name", name);
+    // <title> 中的 & 会引入字符引用，< 可能组成 </title>
+    context.insert("name", &name.replace("&", "&amp;").replace("<", "&lt;"));
 
 
     let result = self.tera.render("gui/ast.html", &context).unwrap();
-- 
2.43.0

