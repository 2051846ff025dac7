//! genlex MODE CASES.ndjson OUT.ndjson START TIMEOUT_S  (same protocol as synconf)
#![allow(dead_code, unused)]
#[path = "../../src/util.rs"]
mod util;
#[path = "../../src/lex.rs"]
mod lex;
#[path = "../../src/grammar.rs"]
mod grammar;
#[path = "../../src/front.rs"]
mod front;
mod gen;
use serde_json::Value;

fn run(mode: &str, c: &Value) -> Value {
  if mode == "front" {
    let k = c["lexer"].as_u64().unwrap() as usize;
    return front::front(c, |input| gen::tokens(k, input));
  }
  let input = util::from_cps(&c["input"]);
  gen::run(c["lexer"].as_u64().unwrap() as usize, &input)
}
include!("../../src/driver.rs");
