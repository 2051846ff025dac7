//! Syntax trees: listener walk, visitors, child queries, spans, printing.
use crate::util::*;
use serde_json::{json, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use syntaxis::runtime::ast::{
  ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext,
  terminal_context::TerminalContext, to_rule::ToRule,
};

/// Node identity: preorder number, root = 1.
pub struct Ids { r: HashMap<usize, i64>, t: HashMap<usize, i64>, e: HashMap<usize, i64> }
impl Ids {
  pub fn new(root: &RuleContext) -> Self {
    let mut s = Ids { r: HashMap::new(), t: HashMap::new(), e: HashMap::new() };
    let mut n = 0;
    s.add(root, &mut n);
    s
  }
  fn add(&mut self, r: &RuleContext, n: &mut i64) {
    *n += 1;
    self.r.insert(r as *const _ as usize, *n);
    for c in r.children.iter() {
      match c {
        ASTContext::Rule(x) => self.add(x, n),
        ASTContext::Terminal(x) => { *n += 1; self.t.insert(x as *const _ as usize, *n); }
        ASTContext::Error(x) => { *n += 1; self.e.insert(x as *const _ as usize, *n); }
      }
    }
  }
  pub fn rule(&self, r: &RuleContext) -> i64 { *self.r.get(&(r as *const _ as usize)).unwrap_or(&-1) }
  pub fn term(&self, r: &TerminalContext) -> i64 { *self.t.get(&(r as *const _ as usize)).unwrap_or(&-1) }
  pub fn err(&self, r: &ErrorContext) -> i64 { *self.e.get(&(r as *const _ as usize)).unwrap_or(&-1) }
}

// ---- listener walk ---------------------------------------------------------------------
mod listening {
  use super::*;
  use syntaxis::tool::syntaxis::syntaxis_context::*;
  use syntaxis::tool::syntaxis::syntaxis_listener::SyntaxisListener;
  use syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker;

  pub struct Rec<'a> { ids: &'a Ids, ev: Vec<Value> }
  macro_rules! rec {
    ($($en:ident $ex:ident $tr:ident $nm:literal),*) => {
      impl SyntaxisListener for Rec<'_> {
        $( fn $en(&mut self, c: &dyn $tr) { let i = self.ids.rule(c.as_rule()); self.ev.push(json!([concat!("enter_", $nm), i])); }
           fn $ex(&mut self, c: &dyn $tr) { let i = self.ids.rule(c.as_rule()); self.ev.push(json!([concat!("exit_", $nm), i])); } )*
        fn enter_every_rule(&mut self, c: &RuleContext) { let i = self.ids.rule(c); self.ev.push(json!(["enter_every", i])); }
        fn exit_every_rule(&mut self, c: &RuleContext) { let i = self.ids.rule(c); self.ev.push(json!(["exit_every", i])); }
        fn enter_terminal(&mut self, c: &TerminalContext) { let i = self.ids.term(c); self.ev.push(json!(["enter_terminal", i])); }
        fn exit_terminal(&mut self, c: &TerminalContext) { let i = self.ids.term(c); self.ev.push(json!(["exit_terminal", i])); }
        fn enter_errornode(&mut self, c: &ErrorContext) { let i = self.ids.err(c); self.ev.push(json!(["enter_errornode", i])); }
        fn exit_errornode(&mut self, c: &ErrorContext) { let i = self.ids.err(c); self.ev.push(json!(["exit_errornode", i])); }
      }
    }
  }
  rec!(enter_rule_list exit_rule_list RuleListContext "rule_list", enter_parser_rule exit_parser_rule ParserRuleContext "parser_rule",
    enter_block exit_block BlockContext "block", enter_alternative exit_alternative AlternativeContext "alternative",
    enter_epsilon exit_epsilon EpsilonContext "epsilon", enter_element exit_element ElementContext "element",
    enter_ebnf_suffix exit_ebnf_suffix EbnfSuffixContext "ebnf_suffix", enter_lexer_rule exit_lexer_rule LexerRuleContext "lexer_rule",
    enter_regular exit_regular RegularContext "regular");
  struct W;
  impl SyntaxisWalker for W {}
  /// a listener that overrides nothing must be accepted as well
  struct Silent;
  impl SyntaxisListener for Silent {}

  pub fn run(root: &RuleContext) -> Value {
    let ids = Ids::new(root);
    let walk = quiet(|| { let mut l = Rec { ids: &ids, ev: vec![] }; W.walk(&mut l, root); l.ev });
    let silent = quiet(|| W.walk(&mut Silent, root)).is_some();
    let mut typed = Vec::new();
    macro_rules! ty { ($($tr:ident $nm:literal),*) => { $(
      typed.push(json!([$nm, quiet(|| { let mut l = Rec { ids: &ids, ev: vec![] };
        $tr::enter(root, &mut l); $tr::exit(root, &mut l); l.ev }).unwrap_or_default()])); )* } }
    ty!(RuleListContext "rule_list", ParserRuleContext "parser_rule", BlockContext "block", AlternativeContext "alternative",
      EpsilonContext "epsilon", ElementContext "element", EbnfSuffixContext "ebnf_suffix", LexerRuleContext "lexer_rule",
      RegularContext "regular");
    json!({"walk": walk.map(|e| json!({"r": "ok", "ev": e})).unwrap_or(json!({"r": "panic", "ev": []})),
      "silent": silent, "typed": typed})
  }
}
pub fn walk(c: &Value) -> Value { listening::run(&rule(&c["tree"])) }

// ---- visitors --------------------------------------------------------------------------
pub struct Cfg { prune: Vec<usize>, stop: Vec<i64>, stopn: Vec<i64> }

mod fam_old { use syntaxis::tool::syntaxis as fam; include!("visit_body.rs"); }
mod fam_v1 { use syntaxis::tool::v1 as fam; include!("visit_body.rs"); }

pub fn visit(c: &Value) -> Value {
  let root = rule(&c["tree"]);
  let cfg = Cfg {
    prune: arr(&c["prune"]).iter().map(us).collect(),
    stop: arr(&c["stop"]).iter().map(|x| x.as_i64().unwrap()).collect(),
    stopn: arr(&c["stopn"]).iter().map(|x| x.as_i64().unwrap()).collect(),
  };
  json!({"old": fam_old::run(&root, &cfg), "v1": fam_v1::run(&root, &cfg)})
}

// ---- child queries ---------------------------------------------------------------------
// indices far beyond any child
const FAR: [usize; 7] = [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, 1 << 32, 1 << 16, 1 << 31, 1 << 63];
pub fn query(c: &Value) -> Value {
  let root = rule(&c["tree"]);
  let ids = Ids::new(&root);
  let q = |ty: usize| -> Value {
    let n = root.children.len() + 2;
    json!({"ty": ty.to_string(),
      "ts": root.get_terminals(ty).iter().map(|x| ids.term(x)).collect::<Vec<_>>(),
      "es": root.get_errornodes(ty).iter().map(|x| ids.err(x)).collect::<Vec<_>>(),
      "rs": root.get_rule_contexts(ty).iter().map(|x| ids.rule(x)).collect::<Vec<_>>(),
      "t": (0..n).chain(FAR).map(|i| root.get_terminal(ty, i).map(|x| json!([ids.term(x)])).unwrap_or(json!([]))).collect::<Vec<_>>(),
      "e": (0..n).chain(FAR).map(|i| root.get_errornode(ty, i).map(|x| json!([ids.err(x)])).unwrap_or(json!([]))).collect::<Vec<_>>(),
      "r": (0..n).chain(FAR).map(|i| root.get_rule_context(ty, i).map(|x| json!([ids.rule(x)])).unwrap_or(json!([]))).collect::<Vec<_>>(),
    })
  };
  json!({
    "q": arr(&c["tys"]).iter().map(|t| q(us(t))).collect::<Vec<_>>(),
    "count": root.get_child_count(), "clen": root.get_children().len(), "ix": root.get_rule_index(),
    "old": fam_old::typed(&root, &ids), "v1": fam_v1::typed(&root, &ids),
  })
}

// ---- spans -----------------------------------------------------------------------------
pub fn span(c: &Value) -> Value {
  let root = rule(&c["tree"]);
  let input = from_cps(&c["input"]);
  let ids = Ids::new(&root);
  let mut out = Vec::new();
  fn go(r: &RuleContext, ids: &Ids, input: &str, out: &mut Vec<Value>) {
    let tk = |t: Option<syntaxis::runtime::token::Token>| t.map(|t| json!([token_json(&t)])).unwrap_or(json!([]));
    let o = |f: &dyn Fn() -> Value| quiet(|| f()).unwrap_or(json!([[], []]));
    out.push(json!({"id": ids.rule(r),
      "start": o(&|| tk(r.get_start_token())), "stop": o(&|| tk(r.get_stop_token())),
      "ft": o(&|| r.get_first_terminal().map(|t| json!([ids.term(t)])).unwrap_or(json!([]))),
      "lt": o(&|| r.get_last_terminal().map(|t| json!([ids.term(t)])).unwrap_or(json!([]))),
      "text": o(&|| json!([cps(r.get_text(input))])),
    }));
    for c in r.children.iter() { if let ASTContext::Rule(x) = c { go(x, ids, input, out); } }
  }
  go(&root, &ids, &input, &mut out);
  json!({"nodes": out})
}

// ---- printing --------------------------------------------------------------------------
pub fn show(c: &Value) -> Value {
  let root = rule(&c["tree"]);
  let mut toks = Vec::new();
  fn go(r: &RuleContext, out: &mut Vec<Value>) {
    for c in r.children.iter() {
      match c {
        ASTContext::Rule(x) => go(x, out),
        ASTContext::Terminal(t) => out.push(json!({"t": token_json(&t.symbol), "s": format!("{}", t.symbol), "p": format!("{}", t.symbol.start), "leaf": format!("{}", t), "text": t.get_text()})),
        ASTContext::Error(t) => out.push(json!({"t": token_json(&t.symbol), "s": format!("{}", t.symbol), "p": format!("{}", t.symbol.start), "leaf": format!("{}", t), "text": t.get_text()})),
      }
    }
  }
  go(&root, &mut toks);
  json!({"s": format!("{}", root), "sa": format!("{}", ASTContext::Rule(root.clone())), "toks": toks})
}

/// Typed views of the tree the v1 parser itself hands out, per entry point.
pub fn typed_views_v1(p: &syntaxis::tool::v1::syntaxis_parser::SyntaxisParser, e: usize) -> Value {
  let tx = |t: Option<&TerminalContext>| t.map(|t| json!([t.symbol.token_name, t.symbol.text])).unwrap_or(json!([]));
  match e {
    0 => {
      let x = p.rule_list();
      json!({"parser_rules": x.parser_rule_list().iter().map(|r| json!([tx(r.rule_ref()), tx(r.colon()), tx(r.semi()),
          r.block().map(|b| b.alternative_list().len()).unwrap_or(0)])).collect::<Vec<_>>(),
        "lexer_rules": x.lexer_rule_list().iter().map(|r| json!([tx(r.token_ref()), tx(r.colon()), tx(r.semi()),
          r.regular().map(|b| tx(b.regular_literal())).unwrap_or(json!([]))])).collect::<Vec<_>>()})
    }
    1 => { let x = p.parser_rule(); json!({"rule_ref": tx(x.rule_ref()), "colon": tx(x.colon()), "semi": tx(x.semi()), "nalt": x.block().map(|b| b.alternative_list().len()).unwrap_or(0)}) }
    2 => { let x = p.block(); json!({"nalt": x.alternative_list().len(), "nor": x.or_list().len()}) }
    3 => { let x = p.alternative(); json!({"nel": x.element_list().len(), "eps": x.epsilon().is_some()}) }
    4 => { let x = p.epsilon(); json!({"eps": tx(x.epsilon())}) }
    5 => { let x = p.element(); json!({"token_ref": tx(x.token_ref()), "rule_ref": tx(x.rule_ref()), "string_literal": tx(x.string_literal()),
        "lparen": tx(x.lparen()), "rparen": tx(x.rparen()), "block": x.block().is_some(), "suffix": x.ebnf_suffix().is_some()}) }
    6 => { let x = p.ebnf_suffix(); json!({"star": tx(x.star()), "plus": tx(x.plus()), "nq": x.question_list().len()}) }
    7 => { let x = p.lexer_rule(); json!({"token_ref": tx(x.token_ref()), "colon": tx(x.colon()), "semi": tx(x.semi()), "regular": x.regular().map(|b| tx(b.regular_literal())).unwrap_or(json!([]))}) }
    _ => { let x = p.regular(); json!({"regular_literal": tx(x.regular_literal())}) }
  }
}
