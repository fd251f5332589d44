//! Conformance driver: executes a script of public calls on cesride, one per line, and records
//! each call with its outcome.  Usage: driver SCRIPT.ndjson TRACE.ndjson [first-line]
mod codec;
mod sign;
mod reader;
mod stream;
mod threshold;
mod typed;
mod sad;
mod docs;
mod event;
mod salter;
mod fresh;
mod back;
mod cred;
mod kel;
mod any;
mod wasm;
mod util;

use serde_json::{json, Value as J};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

fn exec(e: &J) -> J {
    let op = e["op"].as_str().expect("script: op");
    let r = codec::run(op, e)
        .or_else(|| typed::run(op, e))
        .or_else(|| stream::run(op, e))
        .or_else(|| reader::run(op, e))
        .or_else(|| sign::run(op, e))
        .or_else(|| threshold::run(op, e))
        .or_else(|| sad::run(op, e))
        .or_else(|| docs::run(op, e))
        .or_else(|| event::run(op, e))
        .or_else(|| salter::run(op, e))
        .or_else(|| fresh::run(op, e))
        .or_else(|| kel::run(op, e))
        .or_else(|| back::run(op, e))
        .or_else(|| cred::run(op, e))
        .or_else(|| any::run(op, e))
        .or_else(|| wasm::run(op, e))
        .unwrap_or_else(|| panic!("script: unknown op {op}"));
    // a panic in an accessor of the value is a panic of the call
    if util::take_panicked() && r["k"] != "panic" {
        return json!({"k": "panic", "v": r});
    }
    r
}
thread_local! { static MALFORMED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// whatever happens outside the guards is an outcome too
fn outcome(e: &J) -> J {
    let r = std::panic::catch_unwind(|| exec(e)).unwrap_or_else(|_| {
        util::take_panicked();
        json!({"k": "panic"})
    });
    if MALFORMED.with(|m| m.replace(false)) {
        return json!({"k": "skip"});
    }
    r
}

/// Every round of n calls is made n times by n threads at once, each time with the calls dealt
/// round by one: every call is made by every thread, and alongside every other call of its round,
/// over and over for a short while. Each different outcome a thread sees is recorded once.
fn alongside(lines: &[String], n: usize, mut write: impl FnMut(String)) {
    assert!(lines.len() % n == 0, "script: rounds of {n}");
    let calls: Vec<J> = lines.iter().map(|l| serde_json::from_str(l).expect("script: JSON")).collect();
    let start = std::sync::Barrier::new(n);
    // how many threads have made enough calls of this deal; who has goes on until all have, so that
    // they overlap on a busy machine too
    let enough: Vec<_> = (0..lines.len()).map(|_| std::sync::atomic::AtomicUsize::new(0)).collect();
    let (send, receive) = std::sync::mpsc::channel();
    std::thread::scope(|s| {
        for k in 0..n {
            let (calls, start, enough, send) = (&calls, &start, &enough, send.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    for (i, round) in calls.chunks(n).enumerate() {
                        for deal in 0..n {
                            let e = &round[(k + deal) % n];
                            start.wait();
                            let begun = std::time::Instant::now();
                            let mut seen = vec![outcome(e)];
                            let mut made = 1;
                            let there = &enough[i * n + deal];
                            loop {
                                if made == ENOUGH {
                                    there.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                }
                                let all = there.load(std::sync::atomic::Ordering::Relaxed) == n;
                                if (all && (made >= REPEATS || begun.elapsed() > WHILE)) || begun.elapsed() > AT_MOST {
                                    break;
                                }
                                let r = outcome(e);
                                made += 1;
                                if seen.len() < 3 && !seen.contains(&r) {
                                    seen.push(r);
                                }
                            }
                            for r in seen {
                                let mut e = e.clone();
                                let o = e.as_object_mut().expect("script: object");
                                o.insert("r".to_string(), r);
                                o.insert("round".to_string(), json!(i));
                                send.send(json!(e).to_string()).expect("send");
                            }
                        }
                    }
                })
                .expect("thread");
        }
        drop(send);
        for line in receive {
            write(line);
        }
    });
}
const REPEATS: usize = 100;
const ENOUGH: usize = 20;
const WHILE: std::time::Duration = std::time::Duration::from_millis(2);
const AT_MOST: std::time::Duration = std::time::Duration::from_millis(12);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--fresh" {
        match fresh::here(&serde_json::from_str(&args[2]).expect("script: JSON")) {
            Ok(v) => println!("{v}"),
            Err(_) => std::process::exit(4),
        }
        return;
    }
    let script = BufReader::new(File::open(&args[1]).expect("script"));
    let mut out = BufWriter::new(File::create(&args[2]).expect("trace"));
    // TOTAL: only the kind of the outcome is recorded, and calls that cannot be made (text that is
    // not UTF-8, documents that are not JSON) are skipped
    let total = std::env::var("TOTAL").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        // panics of the library are data; panics of this driver are marked and fatal
        let text = info.to_string(); if std::env::var("SHOW").is_ok() { eprintln!("{text}"); if std::env::var("RUST_BACKTRACE").is_ok() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); } }
        // mutated calls may be beyond what this driver can make of its arguments
        let own = total && info.location().is_some_and(|l| l.file().starts_with("src/"));
        if own || text.contains("script:") {
            if total {
                MALFORMED.with(|m| m.set(true));
                return;
            }
            eprintln!("DRIVER {text}");
            std::process::exit(3);
        }
    }));
    if let Ok(n) = std::env::var("THREADS") {
        let lines: Vec<String> = script.lines().map(|l| l.expect("line")).filter(|l| !l.is_empty()).collect();
        alongside(&lines, n.parse().expect("script: threads"), |line| writeln!(out, "{line}").expect("write"));
        return;
    }
    for line in script.lines() {
        let line = line.expect("line");
        if line.is_empty() {
            continue;
        }
        let mut e: J = serde_json::from_str(&line).expect("script: JSON");
        let mut r = outcome(&e);
        if total {
            r.as_object_mut().unwrap().remove("v");
        }
        e.as_object_mut().expect("script: object").insert("r".to_string(), r);
        writeln!(out, "{}", json!(e)).expect("write");
        out.flush().expect("flush");
    }
}
