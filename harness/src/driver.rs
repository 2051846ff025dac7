// Included by the two mains: runs the cases, each in its own thread.
use serde_json::json;
use std::io::{BufRead, Write};
use std::sync::mpsc;
use std::time::Duration;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let mode = a[1].clone();
  let start: usize = a[4].parse().unwrap();
  let timeout: u64 = a[5].parse().unwrap();
  std::panic::set_hook(Box::new(|_| {}));
  let cases: Vec<String> = std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap())
    .lines().map(|l| l.unwrap()).collect();
  let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[3]).unwrap();
  // one thread runs case after case, so what one case leaves behind is there for the next
  let (go, jobs) = mpsc::channel::<(usize, String)>();
  let (tx, rx) = mpsc::channel();
  let m = mode.clone();
  std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
    while let Ok((i, line)) = jobs.recv() {
      let mut de = serde_json::Deserializer::from_str(&line);
      de.disable_recursion_limit();
      let c: Value = match serde::Deserialize::deserialize(&mut de) { Ok(c) => c, Err(_) => std::process::exit(9) };
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&m, &c)));
      let v = match r {
        Ok(v) => json!({"i": i, "ok": v}),
        Err(e) => {
          let msg = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
          json!({"i": i, "panic": msg})
        }
      };
      if tx.send(v.to_string()).is_err() { break; }
    }
  }).unwrap();
  for i in start..cases.len() {
    go.send((i, cases[i].clone())).ok();
    match rx.recv_timeout(Duration::from_secs(timeout)) {
      Ok(s) => { out.write_all(s.as_bytes()).unwrap(); out.write_all(b"\n").unwrap(); }
      Err(mpsc::RecvTimeoutError::Timeout) => {
        out.write_all(format!("{{\"i\":{},\"hang\":true}}\n", i).as_bytes()).unwrap();
        std::process::exit(3);
      }
      Err(_) => {
        out.write_all(format!("{{\"i\":{},\"panic\":\"thread died\"}}\n", i).as_bytes()).unwrap();
        std::process::exit(4);
      }
    }
  }
}
