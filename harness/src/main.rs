//! Executor: reads cases (one JSON object per line) on stdin, runs each on the
//! real library and prints the observations, one JSON object per line.
//! It judges nothing: the specification in /verif/spec does.
mod asyncx;
mod header;
mod hook;
mod obs;
mod readers;
mod sync;

use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Obs = Vec<J>;

fn run_case(c: &J, obs: &mut Obs) {
    match c["dom"].as_str().unwrap_or("") {
        "sync" => sync::run(c, obs),
        "async" => asyncx::run(c, obs),
        "hook" => hook::run(c, obs),
        "cli" => hook::run_cli(c, obs),
        d => panic!("harness: unknown domain {d}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        obs::set_panic(format!("{loc}"));
    }));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let c: J = serde_json::from_str(&line).expect("case json");
        let mut o: Obs = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| run_case(&c, &mut o)));
        if r.is_err() {
            o.push(json!({"t": "panic", "at": obs::take_panic()}));
        }
        let mut out = out.lock();
        let rec = json!({"id": c["id"], "obs": o});
        writeln!(out, "{rec}").expect("stdout");
        out.flush().expect("stdout");
    }
}
