//! Grammar side: symbol table, EBNF rewriting, FIRST/FOLLOW/table, printing, pipeline.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::Token;
use syntaxis::runtime::vocabulary::Vocabulary;
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::syntaxis::syntaxis_visitor::SyntaxisVisitor;
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, StringLiteralToTokenVisitor, SymbolVisitor};
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor, StringLiteralVisitor};

pub fn item(v: &Value) -> ProductionItem {
  let id = us(&v[1]);
  if v[0] == "N" { ProductionItem::NonTerminal(id) } else { ProductionItem::Terminal(id) }
}
pub fn item_json(i: &ProductionItem) -> Value {
  match i { ProductionItem::NonTerminal(x) => json!(["N", x]), ProductionItem::Terminal(x) => json!(["T", x]) }
}
pub fn prod(v: &Value) -> Production {
  Production::new(us(&v["l"]), &arr(&v["r"]).iter().map(item).collect())
}
pub fn prod_json(p: &Production) -> Value {
  json!({"l": p.left, "r": p.right.iter().map(item_json).collect::<Vec<_>>()})
}
fn sorted(it: impl Iterator<Item = usize>) -> Vec<usize> { it.collect::<BTreeSet<_>>().into_iter().collect() }
fn sort_json(mut v: Vec<Value>) -> Vec<Value> { v.sort_by_key(|x| x.to_string()); v }

/// {"nts":[{"id","nm"|null}], "ts":[{"id","nm"}], "prods":[..]}
pub fn mk_grammar(c: &Value) -> Grammar {
  let mut g = Grammar::new("g");
  for n in arr(&c["nts"]) {
    if n["nm"].is_null() || n["nm"] == "" { g.vocabulary.add_unnamed_nonterminal(us(&n["id"])); }
    else { g.vocabulary.add_named_nonterminal(us(&n["id"]), &st(&n["nm"])); }
  }
  for t in arr(&c["ts"]) { g.vocabulary.add_terminal(us(&t["id"]), &st(&t["nm"])); }
  for p in arr(&c["prods"]) { g.productions.insert(prod(p).into()); }
  g
}

// whatever maps the code uses
macro_rules! table_json { ($t:expr) => { sort_json($t.iter().map(|((a, t), p)| json!({"a": a, "t": t, "p": prod_json(p)})).collect()) } }

/// other: a grammar worked on at the same time
fn analyse_once(g: &Grammar, other: Option<&Grammar>) -> Value {
  let meanwhile = || if let Some(o) = other { analyse_once(o, None); };
  let (f, p1) = capture(|| g.first_set());
  meanwhile();
  let (out, p2) = match f {
    None => (None, String::new()),
    Some((first, pf)) => capture(|| { let follow = g.follow_set(&first); (first, pf, follow) }),
  };
  meanwhile();
  let printed = p1 + &p2;
  let (first, pf, follow) = match out { Some(x) => x, None => return json!({"res": "panic"}) };
  let (table, rep) = capture(|| g.ll1_table(&pf, &follow));
  let table = match table { Some(x) => x, None => return json!({"res": "panic"}) };
  json!({
    "res": "ok",
    "first": sort_json(first.iter().map(|(a, k)| json!({"a": a, "e": k.allow_epsilon, "s": sorted(k.set.iter().cloned())})).collect()),
    "pfirst": sort_json(pf.iter().map(|(p, k)| json!({"p": prod_json(p), "e": k.allow_epsilon, "s": sorted(k.set.iter().cloned())})).collect()),
    "follow": sort_json(follow.iter().map(|(a, s)| json!({"a": a, "s": sorted(s.iter().cloned())})).collect()),
    "table": table_json!(table),
    "printed": !printed.trim().is_empty(),
    "rep": !rep.trim().is_empty(),
  })
}

pub fn analyse(c: &Value) -> Value {
  let reps = if c["reps"].is_null() { 1 } else { us(&c["reps"]) };
  let mut seen = BTreeSet::new();
  let mut outs = Vec::new();
  for k in 0..reps {
    // a fresh grammar has freshly seeded hash sets: another iteration order
    let mut g = mk_grammar(c);
    // a grammar analysed, then extended or changed, is analysed as if it had always been so
    let all: Vec<Production> = arr(&c["prods"]).iter().map(prod).collect();
    if k % 3 == 1 {
      g.productions.clear();
      for p in &all[..all.len() / 2] { g.productions.insert(p.clone().into()); }
      analyse_once(&g, None);
      for p in &all[all.len() / 2..] { g.productions.insert(p.clone().into()); }
    }
    if k % 3 == 2 && !all.is_empty() { // as many productions, one of them another
      let last = &all[all.len() - 1];
      let mut other = last.clone();
      if other.right.pop().is_none() { other.right.push(ProductionItem::NonTerminal(last.left)); }
      if !all.contains(&other) {
        g.productions.remove(last);
        g.productions.insert(other.clone().into());
        analyse_once(&g, None);
        g.productions.remove(&other);
        g.productions.insert(last.clone().into());
      }
    }
    let mut other = mk_grammar(c);
    other.productions.clear();
    for p in all.iter().skip(1).step_by(2) { other.productions.insert(p.clone().into()); }
    for j in 0..2 {
      let v = analyse_once(&g, if j == 0 && k % 3 == 0 { Some(&other) } else { None });
      if seen.insert(v.to_string()) { outs.push(v); }
    }
  }
  json!({"runs": outs})
}

/// History of vocabulary operations; after each one a full snapshot of all lookups.
pub fn vocab(c: &Value) -> Value {
  let mut v = Vocabulary::new();
  let ids: Vec<String> = arr(&c["ids"]).iter().map(st).collect();
  let names: Vec<String> = arr(&c["names"]).iter().map(st).collect();
  let snap = |v: &Vocabulary| -> Value {
    let o = |x: Option<String>| x.map(|s| json!([s])).unwrap_or(json!([]));
    let oi = |x: Option<usize>| x.map(|s| json!([s.to_string()])).unwrap_or(json!([]));
    json!({
      "tid": ids.iter().map(|i| { let n = i.parse::<usize>().unwrap(); json!({
          "id": i, "has": v.is_terminal_id(n), "nm": o(v.get_terminal_name_by_id(n)),
          "nmx": quiet(|| v.get_terminal_name(n)).map(|s| json!([s])).unwrap_or(json!([]))}) }).collect::<Vec<_>>(),
      "nid": ids.iter().map(|i| { let n = i.parse::<usize>().unwrap(); json!({
          "id": i, "has": v.is_nonterminal_id(n), "nm": o(v.get_nonterminal_name_by_id(n)),
          "def": v.get_nonterminal_name_with_default(n)}) }).collect::<Vec<_>>(),
      "nm": names.iter().map(|n| json!({"nm": n,
          "t": oi(v.get_terminal_id_by_name(n)), "td": v.is_terminal_name_defined(n),
          "n": oi(v.get_nonterminal_id_by_name(n)), "nd": v.is_nonterminal_name_defined(n)})).collect::<Vec<_>>(),
      "allt": sorted(v.get_all_terminals().iter().cloned()).iter().map(|x| x.to_string()).collect::<Vec<_>>(),
      "alln": sorted(v.get_all_nonterminals().iter().cloned()).iter().map(|x| x.to_string()).collect::<Vec<_>>(),
    })
  };
  let mut out = vec![json!({"ret": true, "snap": snap(&v)})];
  // another table, given the same registrations in the opposite order, a step ahead
  let mut other = Vocabulary::new();
  let mut back = arr(&c["ops"]).iter().rev();
  for op in arr(&c["ops"]) {
    if let Some(op) = back.next() {
      quiet(|| { let (id, nm) = (us(&op["id"]), st(&op["nm"]));
        match op["op"].as_str().unwrap() { "t" => other.add_terminal(id, &nm), "n" => other.add_named_nonterminal(id, &nm), _ => other.add_unnamed_nonterminal(id) } });
    }
    let id = us(&op["id"]);
    let r = match op["op"].as_str().unwrap() {
      "t" => v.add_terminal(id, &st(&op["nm"])),
      "n" => v.add_named_nonterminal(id, &st(&op["nm"])),
      _ => v.add_unnamed_nonterminal(id),
    };
    out.push(json!({"ret": r, "snap": snap(&v)}));
  }
  json!({"steps": out})
}

// ---- grammar source (EBNF case) -> syntax tree of the grammar language --------------------
// published numbering of the hand-written front end (the one used by the shipped JSON files)
fn t(ty: usize, nm: &str, tx: &str) -> ASTContext {
  ASTContext::Terminal(TerminalContext { symbol: Token::new(ty, nm, tx) })
}
fn r(ix: usize, nm: &str, children: Vec<ASTContext>) -> RuleContext {
  RuleContext { rule_index: ix, rule_name: nm.to_owned(), children }
}
fn block_tree(alts: &Value) -> ASTContext {
  let mut ch = Vec::new();
  for (i, a) in arr(alts).iter().enumerate() {
    if i > 0 { ch.push(t(9, "OR", "|")); }
    let els = arr(a);
    let mut ac = Vec::new();
    if els.is_empty() {
      ac.push(ASTContext::Rule(r(4, "epsilon", vec![t(22, "EPSILON", "ε")])));
    }
    for e in els {
      let mut ec = Vec::new();
      match e["k"].as_str().unwrap() {
        "T" => ec.push(t(6, "TOKEN_REF", &st(&e["n"]))),
        "N" => ec.push(t(7, "RULE_REF", &st(&e["n"]))),
        "S" => ec.push(t(19, "STRING_LITERAL", &st(&e["n"]))),
        _ => { ec.push(t(16, "LPAREN", "(")); ec.push(block_tree(&e["alts"])); ec.push(t(17, "RPAREN", ")")); }
      }
      let s = e["s"].as_str().unwrap();
      if s != "" {
        let mut sc = vec![match s {
          "*" => t(11, "STAR", "*"), "+" => t(12, "PLUS", "+"), _ => t(13, "QUESTION", "?") }];
        if e["z"] == true { sc.push(t(13, "QUESTION", "?")); }
        ec.push(ASTContext::Rule(r(6, "ebnf_suffix", sc)));
      }
      ac.push(ASTContext::Rule(r(5, "element", ec)));
    }
    ch.push(ASTContext::Rule(r(3, "alternative", ac)));
  }
  ASTContext::Rule(r(2, "block", ch))
}
pub fn source_tree(rules: &Value) -> RuleContext {
  let mut ch = Vec::new();
  for x in arr(rules) {
    if x["k"] == "P" {
      ch.push(ASTContext::Rule(r(1, "parser_rule", vec![
        t(7, "RULE_REF", &st(&x["n"])), t(8, "COLON", ":"), block_tree(&x["alts"]), t(10, "SEMI", ";")])));
    } else {
      ch.push(ASTContext::Rule(r(7, "lexer_rule", vec![
        t(6, "TOKEN_REF", &st(&x["n"])), t(8, "COLON", ":"),
        ASTContext::Rule(r(8, "regular", vec![t(21, "REGULAR_LITERAL", &st(&x["re"]))])),
        t(10, "SEMI", ";")])));
    }
  }
  r(0, "rule_list", ch)
}

fn data_json(d: &Vec<LexerRuleData>) -> Value {
  json!(d.iter().map(|x| json!({"ty": x.token_type, "nm": x.token_name, "re": x.regex})).collect::<Vec<_>>())
}

pub struct Built { pub g: Grammar, pub data: Vec<LexerRuleData>, pub tcnt: usize, pub rcnt: usize, pub end: usize,
  pub out: [String; 3] }

/// The three passes, exactly as the tool's driver runs them.
pub fn build(ast: &RuleContext) -> Result<Built, (usize, String)> { build_from(ast, 2, 0) }

/// Token numbers from ft on, rule numbers from fr on.
pub fn build_from(ast: &RuleContext, ft: usize, fr: usize) -> Result<Built, (usize, String)> {
  let mut g = Grammar::new("g");
  let (a, o1) = capture(|| { let mut v = StringLiteralToTokenVisitor::new(&mut g, ft); RuleListContext::accept(ast, &mut v); (v.next_token_id, v.data) });
  let (tc, data) = match a { Some(x) => x, None => return Err((1, o1)) };
  let (a, o2) = capture(|| { let mut v = SymbolVisitor::new(&mut g, tc, fr, data); RuleListContext::accept(ast, &mut v); (v.next_token_id, v.next_rule_id, v.data) });
  let (tcnt, rcnt, data) = match a { Some(x) => x, None => return Err((2, o2)) };
  let (a, o3) = capture(|| { let mut v = ProductionVisitor::new(&mut g, rcnt); RuleListContext::accept(ast, &mut v); v.next_rule_id });
  let end = match a { Some(x) => x, None => return Err((3, o3)) };
  Ok(Built { g, data, tcnt, rcnt, end, out: [o1, o2, o3] })
}

pub fn voc_json(v: &Vocabulary) -> (Value, Value) {
  let ts = sorted(v.get_all_terminals().iter().cloned());
  let ns = sorted(v.get_all_nonterminals().iter().cloned());
  (json!(ts.iter().map(|i| json!({"id": i, "nm": v.get_terminal_name_by_id(*i).unwrap_or_default()})).collect::<Vec<_>>()),
   json!(ns.iter().map(|i| json!({"id": i, "nm": v.get_nonterminal_name_by_id(*i).unwrap_or_default(),
       "by": v.get_nonterminal_name_by_id(*i).and_then(|n| v.get_nonterminal_id_by_name(&n)).map(|x| json!([x])).unwrap_or(json!([]))})).collect::<Vec<_>>()))
}

pub fn build_mode(c: &Value) -> Value {
  let ast = source_tree(&c["rules"]);
  let num = |k: &str, d: usize| if c[k].is_null() { d } else { us(&c[k]) };
  let (ft, fr) = (num("ft", 2), num("fr", 0));
  // the stand-alone lexical rule collector on the same tree
  let (lr, lrout) = capture(|| {
    let pre = c["pre"].as_array().map(|a| a.iter().map(|x| LexerRuleData { token_type: us(&x["ty"]), token_name: st(&x["nm"]), regex: st(&x["re"]) }).collect()).unwrap_or_default();
    let mut v = LexerRuleVisitor::new(pre, ft);
    RuleListContext::accept(&ast, &mut v);
    (v.data, v.next_token_type)
  });
  let lr = match lr {
    Some((d, n)) => json!({"res": "ok", "data": data_json(&d), "next": n, "rep": !lrout.trim().is_empty()}),
    None => json!({"res": "panic"}),
  };
  match build_from(&ast, ft, fr) {
    Err((pass, _)) => json!({"res": "panic", "pass": pass, "lr": lr}),
    Ok(b) => {
      let (ts, ns) = voc_json(&b.g.vocabulary);
      json!({"res": "ok", "pass": 0, "ts": ts, "nts": ns,
        "prods": sort_json(b.g.productions.iter().map(prod_json).collect()),
        "data": data_json(&b.data), "tcnt": b.tcnt, "rcnt": b.rcnt, "end": b.end,
        "rep2": !b.out[1].trim().is_empty(), "rep3": !b.out[2].trim().is_empty(), "lr": lr})
    }
  }
}

pub fn display(c: &Value) -> Value {
  let g = mk_grammar(c);
  json!({"text": format!("{}", g)})
}

/// Whole tool chain on an EBNF grammar, then parse token-name sequences.
pub fn pipeline(c: &Value) -> Value {
  let ast = source_tree(&c["rules"]);
  let mut outs = Vec::new();
  for w in arr(&c["inputs"]) {
    let b = match build(&ast) { Ok(b) => b, Err((p, _)) => return json!({"res": "panic", "pass": p}) };
    let g = b.g;
    let (tab, rep) = capture(|| {
      let (first, pf) = g.first_set();
      let follow = g.follow_set(&first);
      g.ll1_table(&pf, &follow)
    });
    let tab = match tab { Some(t) => t, None => return json!({"res": "panic", "pass": 4}) };
    let mut toks: Vec<Token> = Vec::new();
    for (i, n) in arr(w).iter().enumerate() {
      let n = st(n);
      let id = match g.vocabulary.get_terminal_id_by_name(&n) { Some(i) => i, None => return json!({"res": "panic", "pass": 5}) };
      let mut k = Token::new(id, &n, &format!("t{}", i));
      k.token_index = i;
      toks.push(k);
    }
    let mut k = Token::new(1, "_STOP", "_STOP");
    k.token_index = toks.len();
    toks.push(k);
    // a grammar with a reported conflict gets no parser (it may be left-recursive)
    if !rep.trim().is_empty() {
      outs.push(json!({"res": "none", "rep": false, "trep": true, "tree": []}));
      continue;
    }
    let p = LL1Parser::new(toks, tab, g);
    let (r, out) = capture(|| p.parse());
    outs.push(match r {
      None => json!({"res": "panic", "rep": !out.trim().is_empty(), "trep": !rep.trim().is_empty(), "tree": []}),
      Some(t) => json!({"res": "ok", "rep": !out.trim().is_empty(), "trep": !rep.trim().is_empty(), "tree": [rule_json(&t)]}),
    });
  }
  json!({"res": "ok", "outs": outs})
}

/// What each record's pattern matches on the probe texts: [start byte, end in characters] or nothing.
pub fn probe_json(d: &Vec<LexerRuleData>, probes: &Value) -> Value {
  json!(d.iter().map(|x| {
    let re = regex::Regex::new(&x.regex);
    json!({"ty": x.token_type, "nm": x.token_name, "valid": re.is_ok(), "re": x.regex,
      "m": arr(probes).iter().map(|p| {
        let s = from_cps(p);
        match &re {
          Ok(re) => match re.find(&s) {
            Some(m) => json!([m.start(), s[..m.end()].chars().count()]),
            None => json!([]) },
          Err(_) => json!([]) }
      }).collect::<Vec<_>>()})
  }).collect::<Vec<_>>())
}

/// String literals: the stand-alone collector, then what the patterns match on probe texts.
pub fn strlit(c: &Value) -> Value {
  let ast = source_tree(&c["rules"]);
  let probe = |d: &Vec<LexerRuleData>| probe_json(d, &c["probes"]);
  let (a, _) = capture(|| { let mut v = StringLiteralVisitor::new(); SyntaxisVisitor::visit(&mut v, &ast); (v.data, v.next_token_type) });
  let coll = match a { Some((d, n)) => json!({"res": "ok", "next": n, "recs": probe(&d)}), None => json!({"res": "panic"}) };
  let mut g = Grammar::new("g");
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let mut v = StringLiteralToTokenVisitor::new(&mut g, 2);
    RuleListContext::accept(&ast, &mut v);
    (v.next_token_id, v.data)
  }));
  let pass = match r {
    Ok((n, d)) => {
      let (ts, _) = voc_json(&g.vocabulary);
      json!({"res": "ok", "next": n, "recs": probe(&d), "ts": ts, "msg": ""})
    }
    Err(e) => {
      let msg = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
      json!({"res": "panic", "msg": msg})
    }
  };
  let full = match build(&ast) {
    Err((p, _)) => json!({"res": "panic", "pass": p}),
    Ok(b) => json!({"res": "ok", "pass": 0, "prods": sort_json(b.g.productions.iter().map(prod_json).collect())}),
  };
  json!({"coll": coll, "pass": pass, "full": full})
}

/// The shipped grammar description through the tool chain, and the constants of the v1 front end.
pub fn frontend(c: &Value) -> Value {
  use syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer as L1;
  use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser as P1;
  let (b, rep) = shipped(&st(&c["file"]));
  let (ts, ns) = voc_json(&b.g.vocabulary);
  let (first, pf) = b.g.first_set();
  let follow = b.g.follow_set(&first);
  let (tab, trep) = capture(|| b.g.ll1_table(&pf, &follow));
  json!({
    "ts": ts, "nts": ns, "prods": sort_json(b.g.productions.iter().map(prod_json).collect()),
    "data": probe_json(&b.data, &c["probes"]), "rep": rep, "trep": !trep.trim().is_empty(),
    "table": table_json!(tab.unwrap()),
    "tconst": [["_START", L1::_START], ["_STOP", L1::_STOP], ["RULE_REF", L1::RULE_REF], ["TOKEN_REF", L1::TOKEN_REF],
      ["COLON", L1::COLON], ["SEMI", L1::SEMI], ["OR", L1::OR], ["EPSILON", L1::EPSILON], ["STAR", L1::STAR],
      ["PLUS", L1::PLUS], ["QUESTION", L1::QUESTION], ["LPAREN", L1::LPAREN], ["RPAREN", L1::RPAREN],
      ["STRING_LITERAL", L1::STRING_LITERAL], ["REGULAR_LITERAL", L1::REGULAR_LITERAL], ["WHITE_SPACE", L1::WHITE_SPACE]],
    "nconst": [["rule_list", P1::RULE_LIST], ["parser_rule", P1::PARSER_RULE], ["block", P1::BLOCK],
      ["alternative", P1::ALTERNATIVE], ["epsilon", P1::EPSILON], ["element", P1::ELEMENT],
      ["ebnf_suffix", P1::EBNF_SUFFIX], ["lexer_rule", P1::LEXER_RULE], ["regular", P1::REGULAR]],
  })
}

pub fn shipped(file: &str) -> (Built, bool) {
  let f = std::fs::File::open(file).unwrap();
  let ast = syntaxis::tool::serde_ast::from_reader(f).unwrap();
  let b = match build(&ast) { Ok(b) => b, Err((p, _)) => panic!("pass {} failed on the shipped grammar", p) };
  let rep = b.out.iter().any(|o| !o.trim().is_empty());
  (b, rep)
}

/// Renders the lexer template for the lexical rules of a grammar (both collectors).
pub fn render(c: &Value) -> Value {
  let ast = source_tree(&c["rules"]);
  let data: Vec<LexerRuleData> = if c["via"] == "lr" {
    let mut v = LexerRuleVisitor::new(Vec::new(), 2);
    RuleListContext::accept(&ast, &mut v);
    v.data
  } else {
    match build(&ast) { Ok(b) => b.data, Err((p, _)) => panic!("pass {}", p) }
  };
  let mut tera = tera::Tera::new("src/tool/templates/target/rust/*.tera").unwrap();
  tera.autoescape_on(vec![]);
  let mut ctx = tera::Context::new();
  ctx.insert("tokens", &data);
  ctx.insert("name", &st(&c["name"]));
  json!({"src": tera.render("lexer.tera", &ctx).unwrap(), "data": data_json(&data)})
}
