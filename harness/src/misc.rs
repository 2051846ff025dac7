//! JSON loading and drawing.
use crate::util::*;
use serde_json::{json, Value};
use std::io::Read;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::gui::ast_drawer::ASTDrawer;
use syntaxis::tool::serde_ast;

/// Numbers as strings: TLC integers are 32 bit.
fn slim(r: &RuleContext) -> Value {
  json!({"k": "R", "ix": r.rule_index.to_string(), "nm": r.rule_name, "ch": r.children.iter().map(|x| match x {
    ASTContext::Rule(r) => slim(r),
    ASTContext::Terminal(t) => json!({"k": "T", "ty": t.symbol.token_type.to_string(), "nm": t.symbol.token_name, "tx": t.symbol.text}),
    ASTContext::Error(t) => json!({"k": "E", "ty": t.symbol.token_type.to_string(), "nm": t.symbol.token_name, "tx": t.symbol.text}),
  }).collect::<Vec<_>>()})
}

struct Chunked { data: Vec<u8>, pos: usize, step: usize, fail_at: Option<usize>, interrupt: bool }
impl Read for Chunked {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    if self.interrupt { self.interrupt = false; return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again")); }
    if let Some(f) = self.fail_at { if self.pos >= f { return Err(std::io::Error::new(std::io::ErrorKind::Other, "io")); } }
    let mut n = self.step.min(buf.len()).min(self.data.len() - self.pos);
    if let Some(f) = self.fail_at { n = n.min(f - self.pos); }
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

/// {"bytes":[..], "step": n, "fail": n | -1}
pub fn serde(c: &Value) -> Value {
  let bytes: Vec<u8> = arr(&c["bytes"]).iter().map(|b| b.as_u64().unwrap() as u8).collect();
  let fin = |r: Option<Result<RuleContext, serde_ast::Error>>| match r {
    None => json!({"r": "panic", "tree": []}),
    Some(Err(_)) => json!({"r": "err", "tree": []}),
    Some(Ok(t)) => json!({"r": "ok", "tree": [slim(&t)]}),
  };
  let s = match std::str::from_utf8(&bytes) {
    Ok(s) => fin(quiet(|| serde_ast::from_str(s))),
    Err(_) => json!({"r": "notext", "tree": []}),
  };
  let step = us(&c["step"]);
  let fail = c["fail"].as_i64().unwrap();
  let rd = fin(quiet(|| serde_ast::from_reader(Chunked { data: bytes.clone(), pos: 0, step, fail_at: None, interrupt: step % 2 == 1 })));
  let rf = if fail >= 0 {
    fin(quiet(|| serde_ast::from_reader(Chunked { data: bytes.clone(), pos: 0, step, fail_at: Some(fail as usize), interrupt: false })))
  } else { json!({"r": "none", "tree": []}) };
  json!({"str": s, "rd": rd, "rf": rf})
}

/// Draws c.tree to c.path (a scratch file); the page is evaluated by the driver.
pub fn draw(c: &Value) -> Value {
  let root = rule(&c["tree"]);
  let p = st(&c["path"]);
  // the drawer has drawn another tree of the same name into the same file before
  let mut other = root.clone();
  other.rule_name += "x";
  other.rule_index = other.rule_index.wrapping_add(1);
  other.children.reverse();
  other.children.truncate(3);
  let ok = quiet(|| {
    let d = ASTDrawer::new();
    let t = st(&c["title"]);
    quiet(|| d.draw(&other, &t, &p));
    d.draw(&root, &t, &p)
  }).is_some();
  json!({"ok": ok})
}


// ---- fault injection: this executable's own write(2), scripted per thread while armed --------
use std::cell::RefCell;
thread_local!(static SCRIPT: RefCell<Option<(std::collections::VecDeque<i64>, Vec<i64>)>> = RefCell::new(None));
extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
const EINTR: i64 = 4; const EIO: i64 = 5; const ENOSPC: i64 = 28;

/// Script entries: n >= 0 accept at most n bytes of this call; -errno fail this call. When the
/// script is used up everything is accepted.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, len: usize) -> isize {
  let step = if fd > 2 { SCRIPT.try_with(|s| match s.try_borrow_mut() {
    Ok(mut g) => match &mut *g { Some((q, _)) => q.pop_front(), None => None },
    Err(_) => None,
  }).unwrap_or(None) } else { None };
  let n = match step {
    Some(e) if e < 0 => { log_write(e); *__errno_location() = (-e) as i32; return -1; }
    Some(n) => len.min(n as usize),
    None => len,
  };
  let r = syscall(1, fd as i64, buf, n);
  if fd > 2 { log_write(r); }
  r as isize
}
fn log_write(n: i64) {
  let _ = SCRIPT.try_with(|s| if let Ok(mut g) = s.try_borrow_mut() { if let Some((_, l)) = &mut *g { if l.len() < 64 { l.push(n) } } });
}

/// {"tree","path","title","pre": length already in the file | -1, "kind", "script": [..], "full": path}
pub fn drawfault(c: &Value) -> Value {
  let root = rule(&c["tree"]);
  let p = st(&c["path"]);
  let title = st(&c["title"]);
  let full = st(&c["full"]);
  match st(&c["kind"]).as_str() {
    "file" => {
      let pre = c["pre"].as_i64().unwrap();
      if pre >= 0 { std::fs::write(&p, vec![b'#'; pre as usize]).unwrap(); }
      if pre < -1 { // what was there has something in common with the page
        quiet(|| ASTDrawer::new().draw(&root, &title, &full));
        let mut old = std::fs::read(&full).unwrap_or_default();
        let _ = std::fs::remove_file(&full);
        let n = old.len();
        match pre {
          -2 => old = vec![b'#'; n],                              // its length
          -3 => old.extend_from_slice(b"<!-- rest -->"),          // its beginning
          -4 => old.truncate(n.saturating_sub(9)),                // all but its end
          -5 => if n > 0 { old[n / 2] ^= 1 },                     // all but one byte
          -6 => if n > 0 { old[n - 1] ^= 1 },                     // all but its last byte
          -7 => old = [b"\n".to_vec(), old].concat(),             // its end
          _ => (),                                                // everything
        }
        std::fs::write(&p, old).unwrap();
      }
    }
    "link" | "dangling" => { // the named file is somewhere else
      let t = format!("{}.t", p);
      if st(&c["kind"]) == "link" { std::fs::write(&t, vec![b'#'; 100000]).unwrap(); }
      std::os::unix::fs::symlink(&t, &p).unwrap()
    }
    "dir" => std::fs::create_dir(&p).unwrap(),
    "full" => std::os::unix::fs::symlink("/dev/full", &p).unwrap(),
    _ => (), // the parent directory does not exist
  }
  let script = arr(&c["script"]).iter().map(|x| match x {
    Value::String(s) => -(match s.as_str() { "intr" => EINTR, "io" => EIO, _ => ENOSPC }),
    v => v.as_i64().unwrap() }).collect();
  SCRIPT.with(|s| *s.borrow_mut() = Some((script, Vec::new())));
  let drawer = quiet(|| ASTDrawer::new());
  let ok = match &drawer { None => false, Some(d) => quiet(|| d.draw(&root, &title, &p)).is_some() };
  let log = SCRIPT.with(|s| s.borrow_mut().take()).unwrap().1;
  let a = std::fs::metadata(&p).ok().filter(|m| m.is_file()).and_then(|_| std::fs::read(&p).ok());
  // reference pages of the same tree: the same drawer again and a fresh one, no faults
  let r1 = match &drawer { None => false, Some(d) => {
    let mut other = root.clone();
    other.rule_name += "x";
    other.children.reverse();
    quiet(|| d.draw(&other, &title, &full));
    quiet(|| d.draw(&root, &title, &full)).is_some()
  } };
  let b1 = std::fs::read(&full).ok();
  let r2 = quiet(|| ASTDrawer::new().draw(&root, &title, &full)).is_some();
  let b2 = std::fs::read(&full).ok();
  json!({"ok": ok, "refok": r1 && r2, "again": b1.is_some() && b1 == b2, "len": a.as_ref().map(|x| x.len() as i64).unwrap_or(-1),
    "full": b2.as_ref().map(|x| x.len() as i64).unwrap_or(-1), "same": a == b2 && a.is_some(), "writes": log})
}
