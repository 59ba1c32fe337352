//! Generic executor: reads one JSON command per line from the file given as first
//! argument, runs it against the real code, and appends one JSON result per line to the
//! file given as second argument. Panics of the code under test are recorded as data.
//!
//! It takes no decisions about what is right or wrong; that is done by TLC on the
//! specifications in /verif/spec.

use std::{
    fs::{File, OpenOptions},
    io::{BufRead, BufReader, Write},
    panic::{self, AssertUnwindSafe},
};

use serde_json::{json, Value};

mod accept;
mod control;
mod failing;
mod files;
mod logging;
mod manual;
mod runs;
mod sweep;
mod together;
mod timer;
mod util;

fn dispatch(cmd: &Value) -> Value {
    match cmd["op"].as_str().unwrap() {
        "run" => runs::run(cmd),
        "chance" => runs::chance(cmd),
        "sweep" => sweep::sweep(cmd),
        "manual" => manual::manual(cmd),
        "graph" => manual::graph(cmd),
        "build" => manual::build(cmd),
        "timer" => timer::timer(cmd),
        "clock" => timer::clock(cmd),
        "accept" => accept::accept(cmd),
        "failing" => failing::failing(cmd),
        "together" => together::together(cmd),
        "logging" => logging::logging(cmd),
        "file" => files::file(cmd),
        "convert" => files::convert(cmd),
        other => panic!("harness: unknown op {other}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 2 && args[1] == "--info" {
        println!(
            "{}",
            json!({"hooks": cfg!(mbqc_verif), "debug": cfg!(debug_assertions)})
        );
        return;
    }
    // a panic of the harness itself says nothing about the code under test
    panic::set_hook(Box::new(|info| {
        if let Some(l) = info.location() {
            if l.file().starts_with("src/") {
                eprintln!("harness: {info}");
                std::process::exit(3);
            }
        }
    }));
    let input = BufReader::new(File::open(&args[1]).unwrap());
    let mut output = OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    for line in input.lines() {
        let cmd: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let id = cmd["id"].clone();
        let out = match panic::catch_unwind(AssertUnwindSafe(|| dispatch(&cmd))) {
            Ok(v) => v,
            Err(e) => {
                control::reset();
                let msg = util::panic_message(&e);
                if msg.starts_with("harness:") {
                    eprintln!("{msg}");
                    std::process::exit(3);
                }
                json!({ "panic": msg })
            },
        };
        let mut out = out;
        out["id"] = id;
        writeln!(output, "{out}").unwrap();
        output.flush().unwrap();
    }
}
