//! Executes programs of operations (ndjson) against the real library, the command-line
//! tools and the Python module, and records what they did.
//!
//!   harness run    OPS OUT ROOT   write every operation with its result r (a trace)
//!   harness replay OPS OUT ROOT   compare results with the expected ones in "want";
//!                                 write one line per difference and a summary
//!
//! Only the public API of the library is used.  ROOT is a scratch directory this
//! program owns: every file it touches lies below it.

mod consts;
mod exec;

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // format the message, as a real logger would
        let s = format!("{}", r.args());
        std::hint::black_box(s.len());
    }
    fn flush(&self) {}
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (mode, ops, out, root) = (&args[1], &args[2], &args[3], &args[4]);
    log::set_boxed_logger(Box::new(Sink)).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    std::panic::set_hook(Box::new(|_| {}));
    let input = BufReader::new(File::open(ops).expect("ops"));
    let mut output = BufWriter::new(File::create(out).expect("out"));
    let progress = format!("{}.at", out);
    let mut x = exec::Exec::new(root);
    let (mut n, mut bad, mut wanted) = (0u64, 0u64, 0u64);
    for (k, line) in input.lines().enumerate() {
        let line = line.expect("line");
        let mut op: Value = serde_json::from_str(&line).expect("json");
        if k % 64 == 0 || x.slow(&op) {
            let _ = std::fs::write(&progress, k.to_string());
        }
        // what is flushed ends where an operation that never returns begins
        if x.slow(&op) {
            output.flush().unwrap();
        }
        let r = x.run(&op);
        n += 1;
        if r["p"] == json!(1) && !x.slow(&op) {
            eprintln!("driver: could not do {}", op);
            x.finish();
            std::process::exit(101);
        }
        if mode == "run" {
            let o = op.as_object_mut().unwrap();
            if o["op"] == json!("file") {
                o.remove("b"); // the bytes: the trace has the meaning
            }
            o.insert("r".into(), r);
            serde_json::to_writer(&mut output, &op).unwrap();
            output.write_all(b"\n").unwrap();
        } else if let Some(want) = op.get("want") {
            wanted += 1;
            let mut diff: Vec<&str> = Vec::new();
            if r["p"] == json!(1) {
                diff.push("panic");
            } else {
                for (key, v) in want.as_object().unwrap() {
                    if r.get(key) != Some(v) {
                        diff.push(key);
                    }
                }
            }
            if !diff.is_empty() {
                bad += 1;
                let d = json!({"line": k, "diff": diff, "op": op, "r": r});
                serde_json::to_writer(&mut output, &d).unwrap();
                output.write_all(b"\n").unwrap();
            }
        }
    }
    if mode == "replay" {
        let s = json!({"summary": {"ops": n, "checked": wanted, "bad": bad}});
        serde_json::to_writer(&mut output, &s).unwrap();
        output.write_all(b"\n").unwrap();
    }
    output.flush().unwrap();
    x.finish();
    let _ = std::fs::remove_file(progress);
}
