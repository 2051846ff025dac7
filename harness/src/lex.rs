//! The two built-in lexers of the grammar language.
use crate::util::*;
use serde_json::{json, Value};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;

pub fn tok(t: &Token) -> Value {
  json!({"ty": t.token_type, "nm": t.token_name, "tx": cps(&t.text),
    "sl": t.start.line, "sc": t.start.char_position, "el": t.stop.line, "ec": t.stop.char_position,
    "chn": t.channel, "ti": t.token_index, "cs": t.char_start_index, "ce": t.char_stop_index})
}

pub fn drive<L: Lexer>(mk: impl Fn() -> L, max: usize) -> Value {
  let mut l = mk();
  let mut other = mk(); // another lexer at work at the same time, elsewhere in the text
  let mut scans = Vec::new();
  let mut errs = 0;
  // scan until three failures in a row (failures must be stable), bounded by max
  while errs < 3 && scans.len() < max {
    if scans.len() % 2 == 0 { quiet(|| { other.scan().ok(); other.scan().ok(); }); }
    match quiet(|| l.scan()) {
      None => { scans.push(json!({"r": "panic"})); break; }
      Some(Ok(t)) => { errs = 0; scans.push(json!({"r": "ok", "t": tok(&t)})); }
      Some(Err(_)) => { errs += 1; scans.push(json!({"r": "err"})); }
    }
  }
  let all = |ch: usize| -> Value {
    let (r, out) = capture(|| { let mut l = mk(); l.scan_all_on_channel_tokens(ch) });
    match r {
      None => json!({"r": "panic"}),
      Some(v) => json!({"r": "ok", "toks": v.iter().map(tok).collect::<Vec<_>>(), "rep": cps(&out)}),
    }
  };
  // the rest of a text after some scans, and a scan after that
  let half = scans.iter().take_while(|s| s["r"] == "ok").count() / 2;
  let (mid, _) = capture(|| {
    let mut l = mk();
    for _ in 0..half { l.scan().ok(); }
    let v = l.scan_all_on_channel_tokens(0);
    (v, l.scan().is_ok())
  });
  let mid = match mid {
    None => json!({"r": "panic", "from": half, "toks": [], "more": false}),
    Some((v, more)) => json!({"r": "ok", "from": half, "toks": v.iter().map(tok).collect::<Vec<_>>(), "more": more}),
  };
  // a channel no token is on
  let far = [1, 2, 256, 1 << 16, 1 << 32, usize::MAX][scans.len() % 6];
  json!({"scans": scans, "all0": all(0), "all1": all(far), "mid": mid})
}

pub fn lex(c: &Value) -> Value {
  let input = from_cps(&c["input"]);
  let max = input.chars().count() + 8;
  if c["who"] == "v1" {
    drive(|| syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer::new(&input), max)
  } else {
    drive(|| syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer::new(&input), max)
  }
}
