//! synconf MODE CASES.ndjson OUT.ndjson START TIMEOUT_S
//! Each case runs in its own thread; the result line is {"i","ok"} or {"i","panic"} or {"i","hang"}.
mod util;
mod grammar;
mod lex;
mod parse;
mod trees;
mod misc;

use serde_json::Value;

fn run(mode: &str, c: &Value) -> Value {
  match mode {
    "analyse" => grammar::analyse(c),
    "vocab" => grammar::vocab(c),
    "build" => grammar::build_mode(c),
    "display" => grammar::display(c),
    "pipeline" => grammar::pipeline(c),
    "strlit" => grammar::strlit(c),
    "frontend" => grammar::frontend(c),
    "render" => grammar::render(c),
    "parse" => parse::parse(c),
    "boottext" => parse::boottext(c),
    "lex" => lex::lex(c),
    "walk" => trees::walk(c),
    "visit" => trees::visit(c),
    "query" => trees::query(c),
    "span" => trees::span(c),
    "show" => trees::show(c),
    "serde" => misc::serde(c),
    "draw" => misc::draw(c),
    "drawfault" => misc::drawfault(c),
    _ => panic!("unknown mode {}", mode),
  }
}

include!("driver.rs");
