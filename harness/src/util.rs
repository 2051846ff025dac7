//! Shared helpers: JSON access, stdout capture, tree (de)serialisation.
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use syntaxis::runtime::ast::{
  ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext,
  terminal_context::TerminalContext,
};
use syntaxis::runtime::token::{Position, Token};

extern "C" {
  fn dup(fd: i32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn close(fd: i32) -> i32;
  fn lseek(fd: i32, off: i64, whence: i32) -> i64;
  fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
  fn memfd_create(name: *const u8, flags: u32) -> i32;
}

/// Runs `f` with standard output redirected; returns its outcome (None = panic)
/// and everything it printed.
pub fn capture<R>(f: impl FnOnce() -> R) -> (Option<R>, String) {
  unsafe {
    std::io::stdout().flush().ok();
    let saved = dup(1);
    let fd = memfd_create(b"cap\0".as_ptr(), 0);
    dup2(fd, 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    std::io::stdout().flush().ok();
    dup2(saved, 1);
    close(saved);
    lseek(fd, 0, 0);
    let mut out = Vec::new();
    let mut buf = [0u8; 4096];
    loop {
      let n = read(fd, buf.as_mut_ptr(), buf.len());
      if n <= 0 { break; }
      out.extend_from_slice(&buf[..n as usize]);
    }
    close(fd);
    (r.ok(), String::from_utf8_lossy(&out).into_owned())
  }
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> { catch_unwind(AssertUnwindSafe(f)).ok() }

pub fn us(v: &Value) -> usize {
  match v {
    Value::Number(n) => n.as_u64().expect("usize") as usize,
    Value::String(s) => s.parse::<u64>().expect("usize string") as usize,
    _ => panic!("expected a number, got {}", v),
  }
}
pub fn st(v: &Value) -> String { v.as_str().expect("string").to_owned() }
pub fn arr(v: &Value) -> &Vec<Value> { v.as_array().expect("array") }

pub fn cps(s: &str) -> Value { Value::Array(s.chars().map(|c| json!(c as u32)).collect()) }
pub fn from_cps(v: &Value) -> String {
  arr(v).iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}

pub fn token(v: &Value) -> Token {
  Token {
    token_type: us(&v["ty"]),
    token_name: st(&v["nm"]),
    text: st(&v["tx"]),
    start: Position { line: us(&v["sl"]), char_position: us(&v["sc"]) },
    stop: Position { line: us(&v["el"]), char_position: us(&v["ec"]) },
    channel: us(&v["chn"]),
    token_index: us(&v["ti"]),
    char_start_index: us(&v["cs"]),
    char_stop_index: us(&v["ce"]),
  }
}
pub fn token_json(t: &Token) -> Value {
  json!({"ty": t.token_type, "nm": t.token_name, "tx": t.text,
    "sl": t.start.line, "sc": t.start.char_position, "el": t.stop.line, "ec": t.stop.char_position,
    "chn": t.channel, "ti": t.token_index, "cs": t.char_start_index, "ce": t.char_stop_index})
}

/// A token given with some fields only (defaults for the rest).
pub fn token_lax(v: &Value) -> Token {
  let g = |k: &str| -> usize { if v[k].is_null() { 0 } else { us(&v[k]) } };
  Token {
    token_type: us(&v["ty"]), token_name: st(&v["nm"]), text: st(&v["tx"]),
    start: Position { line: g("sl"), char_position: g("sc") },
    stop: Position { line: g("el"), char_position: g("ec") },
    channel: g("chn"), token_index: g("ti"), char_start_index: g("cs"), char_stop_index: g("ce"),
  }
}

/// Tree from JSON: {"k":"R","ix","nm","ch"} | {"k":"T"|"E", "t": token}
pub fn tree(v: &Value) -> ASTContext {
  match v["k"].as_str().unwrap() {
    "R" => ASTContext::Rule(rule(v)),
    "T" => ASTContext::Terminal(TerminalContext { symbol: token_lax(&v["t"]) }),
    _ => ASTContext::Error(ErrorContext { symbol: token_lax(&v["t"]) }),
  }
}
pub fn rule(v: &Value) -> RuleContext {
  RuleContext {
    rule_index: us(&v["ix"]),
    rule_name: st(&v["nm"]),
    children: arr(&v["ch"]).iter().map(tree).collect(),
  }
}
pub fn tree_json(t: &ASTContext) -> Value {
  match t {
    ASTContext::Rule(r) => rule_json(r),
    ASTContext::Terminal(t) => json!({"k": "T", "t": token_json(&t.symbol)}),
    ASTContext::Error(t) => json!({"k": "E", "t": token_json(&t.symbol)}),
  }
}
pub fn rule_json(r: &RuleContext) -> Value {
  json!({"k": "R", "ix": r.rule_index, "nm": r.rule_name,
    "ch": r.children.iter().map(tree_json).collect::<Vec<_>>()})
}
