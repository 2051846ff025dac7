//! A generated lexer together with the parser built from the same grammar tree.
use crate::grammar::{build, source_tree, voc_json};
use crate::util::*;
use serde_json::{json, Value};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::runtime::token::Token;
use syntaxis::tool::parser::ll1_parser::LL1Parser;

fn located(r: &RuleContext, input: &str) -> Value {
  json!({"k": "R", "ix": r.rule_index, "nm": r.rule_name, "src": cps(r.get_text(input)),
    "ch": r.children.iter().map(|x| match x {
      ASTContext::Rule(r) => located(r, input),
      ASTContext::Terminal(t) => json!({"k": "T", "t": crate::lex::tok(&t.symbol)}),
      ASTContext::Error(t) => json!({"k": "E", "t": crate::lex::tok(&t.symbol)}),
    }).collect::<Vec<_>>()})
}

/// scan: the tokens of the default channel
pub fn front(c: &Value, scan: impl FnOnce(&str) -> Vec<Token>) -> Value {
  let input = from_cps(&c["text"]);
  let b = match build(&source_tree(&c["rules"])) { Ok(b) => b, Err((p, _)) => return json!({"res": "panic", "at": format!("pass {}", p)}) };
  let g = b.g;
  let (ts, _) = voc_json(&g.vocabulary);
  let (tab, o0) = capture(|| {
    let (first, pf) = g.first_set();
    let follow = g.follow_set(&first);
    g.ll1_table(&pf, &follow)
  });
  let trep = !o0.trim().is_empty();
  let tab = match tab { Some(t) => t, None => return json!({"res": "panic", "at": "table"}) };
  let (toks, o1) = capture(|| scan(&input));
  let toks = match toks { Some(t) => t, None => return json!({"res": "panic", "at": "lex", "ts": ts, "trep": trep, "rep": true, "tree": []}) };
  let p = LL1Parser::new(toks, tab, g);
  let (r, o2) = capture(|| p.parse());
  let rep = !o1.is_empty() || !o2.trim().is_empty();
  match r {
    None => json!({"res": "panic", "at": "parse", "ts": ts, "trep": trep, "rep": rep, "tree": []}),
    Some(t) => match quiet(|| located(&t, &input)) {
      Some(x) => json!({"res": "ok", "at": "", "ts": ts, "trep": trep, "rep": rep, "tree": [x]}),
      None => json!({"res": "panic", "at": "source text", "ts": ts, "trep": trep, "rep": rep, "tree": []}),
    },
  }
}
