//! Answers questions about the libraries in the configuration they were built with. Reads lists of
//! requests, one JSON array a line, and writes a JSON array of answers for each of the lines. The
//! answers must not depend on the configuration.
#![allow(dead_code, unused_imports)]

#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;
#[cfg(not(feature = "derive"))]
#[macro_use]
extern crate commit_encoding_derive;

#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/types.rs"]
mod types;

mod mpc;
mod other;
mod seals;
#[cfg(feature = "csv")]
mod status;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::Value;

pub type Out = Vec<String>;

pub fn num(v: &Value) -> u64 { v.as_u64().expect("number") }
pub fn arr(v: &Value) -> &Vec<Value> { v.as_array().expect("array") }
pub fn text(v: &Value) -> &str { v.as_str().expect("string") }
pub fn bytes(v: &Value) -> Vec<u8> { model::unhex(text(v)).expect("hex") }
pub fn b32(v: &Value) -> model::H { bytes(v).try_into().expect("32 bytes") }
pub fn hex(b: &[u8]) -> String { model::hex(b) }

/// The answer to one request: a list of observations, the last of which may be a panic.
fn answer(req: &Value) -> Value {
    let mut out = Out::new();
    let res = catch_unwind(AssertUnwindSafe(|| {
        let r = arr(req);
        match text(&r[0]) {
            "source" => mpc::source(&r[1..], &mut out),
            "tree" => mpc::tree(&r[1..], &mut out),
            "value" => mpc::value(&r[1..], &mut out),
            "block" => mpc::block(&r[1..], &mut out),
            "convolve" => mpc::convolve(&r[1..], &mut out),
            "merklize" => other::merklize(&r[1..], &mut out),
            "node" => other::node(&r[1..], &mut out),
            "engine" => other::engine(&r[1..], &mut out),
            "layouts" => other::layouts(&mut out),
            "text" => other::parse(&r[1..], &mut out),
            "digest" => other::digest(&r[1..], &mut out),
            "buoy" => other::buoy(&r[1..], &mut out),
            "reserved" => other::reserved(&r[1..], &mut out),
            "embed" => other::embed(&r[1..], &mut out),
            "commit" => other::commit(&r[1..], &mut out),
            "seal" => seals::seal(&r[1..], &mut out),
            "bare" => seals::bare(&r[1..], &mut out),
            #[cfg(feature = "csv")]
            "status" => status::status(&r[1..], &mut out),
            #[cfg(feature = "csv")]
            "validate" => status::validate(&r[1..], &mut out),
            #[cfg(not(feature = "csv"))]
            "status" | "validate" => out.push("UNSUPPORTED".into()),
            x => panic!("unknown request {x}"),
        }
    }));
    if res.is_err() {
        out.push("PANIC".into());
    }
    Value::from(out)
}

fn main() {
    if std::env::var_os("CSV_PROBE_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.expect("input");
        let reqs: Value = serde_json::from_str(&line).expect("JSON");
        let res: Vec<Value> = arr(&reqs).iter().map(answer).collect();
        writeln!(stdout, "{}", Value::from(res)).expect("output");
        stdout.flush().expect("output");
    }
}
