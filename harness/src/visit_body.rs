
// Included once per front end family with `fam` bound to it.
use super::*;
use std::collections::HashSet;
use self::fam::syntaxis_context::*;
use self::fam::syntaxis_visitor::SyntaxisVisitor;
type B = Box<dyn Any>;
type Log = RefCell<Vec<Value>>;

fn val(b: &dyn Any) -> Value {
  if let Some(v) = b.downcast_ref::<Vec<i64>>() { json!(v) }
  else if b.downcast_ref::<()>().is_some() { json!([0]) }
  else { json!([-9]) }
}

// 1. only leaves overridden
struct Leaf<'a> { ids: &'a Ids, log: &'a Log }
// 2. every handler overridden, default folding
struct Rec<'a> { ids: &'a Ids, log: &'a Log, cfg: &'a Cfg }
// 3. every handler overridden, custom folding and stop test
struct Full<'a> { ids: &'a Ids, log: &'a Log, cfg: &'a Cfg, no: HashSet<i64> }
// 4. default handlers, custom folding and stop test
struct Fold<'a> { ids: &'a Ids, log: &'a Log, cfg: &'a Cfg, no: HashSet<i64> }
// 5. nothing overridden at all
struct Bare;
impl SyntaxisVisitor for Bare {}

macro_rules! leaves { () => {
  fn visit_terminal(&mut self, t: &TerminalContext) -> B { let i = self.ids.term(t); self.log.borrow_mut().push(json!(["terminal", i])); Box::new(vec![i]) }
  fn visit_errornode(&mut self, t: &ErrorContext) -> B { let i = self.ids.err(t); self.log.borrow_mut().push(json!(["error", i])); Box::new(vec![i]) }
} }
macro_rules! handler { ($($h:ident $tr:ident $nm:literal),*) => { $(
  fn $h(&mut self, c: &dyn $tr) -> B {
    let r = c.as_rule();
    let i = self.ids.rule(r);
    self.log.borrow_mut().push(json!([$nm, i]));
    if self.cfg.prune.contains(&r.rule_index) { return Box::new(vec![i]); }
    self.visit_children(r)
  } )* } }
macro_rules! handlers { () => {
  handler!(visit_rule_list RuleListContext "rule_list", visit_parser_rule ParserRuleContext "parser_rule",
    visit_block BlockContext "block", visit_alternative AlternativeContext "alternative", visit_epsilon EpsilonContext "epsilon",
    visit_element ElementContext "element", visit_ebnf_suffix EbnfSuffixContext "ebnf_suffix",
    visit_lexer_rule LexerRuleContext "lexer_rule", visit_regular RegularContext "regular");
} }
// Custom fold: concatenation, default [0]; stop when the result so far ends in a node of
// `stop`, when the asked node is in `stopn` and already has a result beyond the default, or
// (its negative is in `stopn`) before its first child.
macro_rules! folding { () => {
  fn default_result(&mut self) -> B { Box::new(vec![0i64]) }
  fn aggregate_result(&mut self, a: B, n: B) -> B {
    let mut a = a.downcast::<Vec<i64>>().map(|x| *x).unwrap_or(vec![-9]);
    a.extend(n.downcast::<Vec<i64>>().map(|x| *x).unwrap_or(vec![-9]));
    Box::new(a)
  }
  fn should_visit_next_child(&mut self, c: &RuleContext, cur: &dyn Any) -> bool {
    let i = self.ids.rule(c);
    match cur.downcast_ref::<Vec<i64>>() {
      None => { self.log.borrow_mut().push(json!(["lost", i])); false }
      Some(v) => {
        self.log.borrow_mut().push(json!(["ask", i]));
        // a refusal is final: whoever asks again about the same node is told to go on
        if self.no.contains(&i) { return true; }
        let no = v.last().map(|x| self.cfg.stop.contains(x)).unwrap_or(false) || (self.cfg.stopn.contains(&i) && v.len() > 1) || self.cfg.stopn.contains(&-i);
        if no { self.no.insert(i); }
        !no
      }
    }
  }
} }
impl SyntaxisVisitor for Leaf<'_> { leaves!(); }
impl SyntaxisVisitor for Rec<'_> { leaves!(); handlers!(); }
impl SyntaxisVisitor for Full<'_> { leaves!(); handlers!(); folding!(); }
impl SyntaxisVisitor for Fold<'_> { leaves!(); folding!(); }

fn one(f: impl FnOnce(&Log) -> B) -> Value {
  let log: Log = RefCell::new(vec![]);
  match quiet(|| f(&log)) {
    Some(b) => json!({"r": "ok", "ev": log.borrow().clone(), "res": val(b.as_ref())}),
    None => json!({"r": "panic", "ev": log.borrow().clone(), "res": []}),
  }
}

pub fn run(root: &RuleContext, cfg: &Cfg) -> Value {
  let ids = &Ids::new(root);
  let mut typed = Vec::new();
  macro_rules! ty { ($($tr:ident $nm:literal),*) => { $(
    typed.push(json!({"nm": $nm, "o": one(|log| $tr::accept(root, &mut Full { ids, log, cfg, no: HashSet::new() }))})); )* } }
  ty!(RuleListContext "rule_list", ParserRuleContext "parser_rule", BlockContext "block", AlternativeContext "alternative",
    EpsilonContext "epsilon", ElementContext "element", EbnfSuffixContext "ebnf_suffix", LexerRuleContext "lexer_rule",
    RegularContext "regular");
  json!({
    "leaf": one(|log| Leaf { ids, log }.visit(root)),
    "rec": one(|log| Rec { ids, log, cfg }.visit(root)),
    "full": one(|log| Full { ids, log, cfg, no: HashSet::new() }.visit(root)),
    "fold": one(|log| Fold { ids, log, cfg, no: HashSet::new() }.visit(root)),
    "bare": one(|_| Bare.visit(root)),
    "typed": typed,
  })
}

/// All typed accessors on a node: [type, accessor, selected node ids]
pub fn typed(r: &RuleContext, ids: &Ids) -> Value {
  let ot = |x: Option<&TerminalContext>| x.map(|t| vec![ids.term(t)]).unwrap_or_default();
  let lt = |x: Vec<&TerminalContext>| x.iter().map(|t| ids.term(t)).collect::<Vec<_>>();
  macro_rules! orl { ($x:expr) => { $x.map(|t| vec![ids.rule(t.as_rule())]).unwrap_or_default() } }
  macro_rules! lr { ($x:expr) => { $x.iter().map(|t| ids.rule(t.as_rule())).collect::<Vec<_>>() } }
  json!([
    ["rule_list", "parser_rule_list", lr!(RuleListContext::parser_rule_list(r))],
    ["rule_list", "lexer_rule_list", lr!(RuleListContext::lexer_rule_list(r))],
    ["parser_rule", "rule_ref", ot(ParserRuleContext::rule_ref(r))],
    ["parser_rule", "colon", ot(ParserRuleContext::colon(r))],
    ["parser_rule", "block", orl!(ParserRuleContext::block(r))],
    ["parser_rule", "semi", ot(ParserRuleContext::semi(r))],
    ["block", "alternative_list", lr!(BlockContext::alternative_list(r))],
    ["block", "or_list", lt(BlockContext::or_list(r))],
    ["alternative", "element_list", lr!(AlternativeContext::element_list(r))],
    ["alternative", "epsilon", orl!(AlternativeContext::epsilon(r))],
    ["epsilon", "epsilon", ot(EpsilonContext::epsilon(r))],
    ["element", "token_ref", ot(ElementContext::token_ref(r))],
    ["element", "string_literal", ot(ElementContext::string_literal(r))],
    ["element", "rule_ref", ot(ElementContext::rule_ref(r))],
    ["element", "lparen", ot(ElementContext::lparen(r))],
    ["element", "rparen", ot(ElementContext::rparen(r))],
    ["element", "block", orl!(ElementContext::block(r))],
    ["element", "ebnf_suffix", orl!(ElementContext::ebnf_suffix(r))],
    ["ebnf_suffix", "star", ot(EbnfSuffixContext::star(r))],
    ["ebnf_suffix", "plus", ot(EbnfSuffixContext::plus(r))],
    ["ebnf_suffix", "question_list", lt(EbnfSuffixContext::question_list(r))],
    ["lexer_rule", "token_ref", ot(LexerRuleContext::token_ref(r))],
    ["lexer_rule", "colon", ot(LexerRuleContext::colon(r))],
    ["lexer_rule", "semi", ot(LexerRuleContext::semi(r))],
    ["lexer_rule", "regular", orl!(LexerRuleContext::regular(r))],
    ["regular", "regular_literal", ot(RegularContext::regular_literal(r))],
  ])
}
