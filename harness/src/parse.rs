//! The two table-driven parsers and the bootstrapped front end.
use crate::grammar::*;
use crate::util::*;
use serde_json::{json, Value};
use syntaxis::runtime::ast::{rule_context::RuleContext, to_rule::ToRule};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer as L1;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser as P1;

pub fn entry(p: &P1, e: usize) -> RuleContext {
  match e {
    0 => ToRule::as_rule(&*p.rule_list()).clone(),
    1 => ToRule::as_rule(&*p.parser_rule()).clone(),
    2 => ToRule::as_rule(&*p.block()).clone(),
    3 => ToRule::as_rule(&*p.alternative()).clone(),
    4 => ToRule::as_rule(&*p.epsilon()).clone(),
    5 => ToRule::as_rule(&*p.element()).clone(),
    6 => ToRule::as_rule(&*p.ebnf_suffix()).clone(),
    7 => ToRule::as_rule(&*p.lexer_rule()).clone(),
    8 => ToRule::as_rule(&*p.regular()).clone(),
    _ => p.parse(),
  }
}

/// {"nts","ts","prods","table":[{"a","t","p"}],"inputs":[{"toks":[..], "who":"ll1"|"v1", "entry":n}]}
pub fn parse(c: &Value) -> Value {
  let outs: Vec<Value> = arr(&c["inputs"]).iter().map(|inp| {
    macro_rules! table { () => { arr(&c["table"]).iter().map(|e| ((us(&e["a"]), us(&e["t"])), prod(&e["p"]).into())).collect() } }
    let toks: Vec<_> = arr(&inp["toks"]).iter().map(token).collect();
    let g = mk_grammar(c);
    // another parser, on part of the input, is at work at the same time
    let part: Vec<_> = toks[toks.len() / 3..].to_vec();
    // the same parser is asked twice, in between for another rule
    let (x, y) = if inp["who"] == "ll1" {
      let p = LL1Parser::new(toks, table!(), g);
      let q = LL1Parser::new(part, table!(), mk_grammar(c));
      capture(|| q.parse());
      (capture(|| p.parse()), capture(|| p.parse()))
    } else {
      let p = P1::new(toks, table!(), g.vocabulary);
      let q = P1::new(part, table!(), mk_grammar(c).vocabulary);
      capture(|| q.parse());
      let e = us(&inp["entry"]);
      let m = inp["m"] == true; // use parse() instead of the named entry point
      let x = capture(|| if m { p.parse() } else { entry(&p, e) });
      capture(|| entry(&p, if e == 0 { 2 } else { 0 }));
      (x, capture(|| if m { p.parse() } else { entry(&p, e) }))
    };
    let fin = |(r, out): (Option<RuleContext>, String)| {
      let rep = !out.trim().is_empty();
      match r {
        None => json!({"res": "panic", "rep": rep, "tree": []}),
        Some(t) => json!({"res": "ok", "rep": rep, "tree": [rule_json(&t)]}),
      }
    };
    let (mut x, y) = (fin(x), fin(y));
    let again = x == y;
    x["again"] = json!(again);
    x
  }).collect();
  json!({"outs": outs})
}

/// Grammar text through the v1 lexer and the v1 parser with the table of the shipped grammar.
pub fn boottext(c: &Value) -> Value {
  let input = from_cps(&c["text"]);
  let (b, _) = shipped(&st(&c["file"]));
  let g = b.g;
  let (first, pf) = g.first_set();
  let follow = g.follow_set(&first);
  let table = g.ll1_table(&pf, &follow);
  let (toks, o1) = capture(|| { let mut l = L1::new(&input); l.scan_all_on_channel_tokens(0) });
  let toks = match toks { Some(t) => t, None => return json!({"res": "panic", "at": "lex"}) };
  let n = toks.len();
  let p = P1::new(toks, table, g.vocabulary);
  let e = us(&c["entry"]);
  let (r, o2) = capture(|| entry(&p, e));
  let rep = !o1.trim().is_empty() || !o2.trim().is_empty();
  match r {
    None => json!({"res": "panic", "at": "parse", "rep": rep}),
    Some(t) => json!({"res": "ok", "at": "", "rep": rep, "ntok": n, "tree": slim(&t),
      "text": t.get_text(&input), "typed": crate::trees::typed_views_v1(&p, e)}),
  }
}

/// Names and texts only.
pub fn slim(r: &RuleContext) -> Value {
  use syntaxis::runtime::ast::ast_context::ASTContext as A;
  json!({"k": "R", "ix": r.rule_index, "nm": r.rule_name, "ch": r.children.iter().map(|x| match x {
    A::Rule(r) => slim(r),
    A::Terminal(t) => json!({"k": "T", "ty": t.symbol.token_type, "nm": t.symbol.token_name, "tx": t.symbol.text}),
    A::Error(t) => json!({"k": "E", "ty": t.symbol.token_type, "nm": t.symbol.token_name, "tx": t.symbol.text}),
  }).collect::<Vec<_>>()})
}
