//! octane-drive SCENARIOS.ndjson TRACES.ndjson
//! Runs each scenario against a real Octane server in this process and writes the recorded trace.
mod app;
mod cfgdrive;
mod client;
mod interpose;
mod trace;

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("DRIVE_PANICS").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
    let inp = BufReader::new(std::fs::File::open(&args[1]).expect("scenarios"));
    let mut out = BufWriter::new(std::fs::File::create(&args[2]).expect("traces"));
    let max_tmo: u32 = std::env::var("DRIVE_MAXTMO").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    let base: u16 = std::env::var("DRIVE_PORT").ok().and_then(|s| s.parse().ok()).unwrap_or(12000);
    client::PORT.store(base as u32, std::sync::atomic::Ordering::SeqCst);
    client::PORT_BASE.store(base as u32, std::sync::atomic::Ordering::SeqCst);
    for line in inp.lines() {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).expect("scenario json");
        if client::TIMEOUTS.load(std::sync::atomic::Ordering::SeqCst) >= max_tmo {
            // the server keeps clients waiting: the rest is left to another run
            let t = json!({"id": sc["id"], "skipped": true});
            serde_json::to_writer(&mut out, &t).unwrap();
            out.write_all(b"\n").unwrap();
            continue;
        }
        let mut t = if sc["kind"] == "config" { cfgdrive::run(&sc) } else { client::run(&sc) };
        t["id"] = sc["id"].clone();
        serde_json::to_writer(&mut out, &t).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
