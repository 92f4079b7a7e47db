//! A dumb executor: runs cases against the real icalendar crate and records arguments and results.
//! It judges nothing; every result, including a panic, is data for the TLA+ specification.
mod clock;
mod dump;
mod noise;
mod prog;
mod single;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guard<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!({"st": "panic"}),
    }
}

fn run_case(kind: &str, case: &Value) -> Value {
    match kind {
        "prop" => single::prop(case),
        "line" => single::line(case),
        "param" => single::param(case),
        "read" => single::read(case),
        "unfold" => single::unfold_case(case),
        "dt" => single::dt(case),
        "dtraw" => single::dtraw(case),
        "zone" => single::zone(case),
        "trig" => single::trig(case),
        "trigraw" => single::trigraw(case),
        "vt" => single::vt(case),
        "prog" => prog::prog(case),
        "tree" => single::tree(case),
        "text" => single::text(case),
        "print" => single::print(case),
        "deep" => single::deep(case),
        "uids" => single::uids(case),
        other => panic!("unknown case kind {other}"),
    }
}

/// the stack of the main thread, whatever the limits of the shell are
const STACK: usize = 8 << 20;

fn main() {
    clock::init();
    std::thread::Builder::new().stack_size(STACK).spawn(work).expect("thread").join().expect("harness");
}

fn work() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        // harness run IN OUT: one recorded line per case, flushed one by one
        Some("run") => {
            std::panic::set_hook(Box::new(|_| {}));
            noise::start();
            let inp = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("input"));
            let mut out = std::io::BufWriter::new(
                std::fs::OpenOptions::new().create(true).append(true).open(&args[3]).expect("output"),
            );
            for line in inp.lines() {
                let line = line.expect("line");
                if line.is_empty() {
                    continue;
                }
                let case: Value = serde_json::from_str(&line).expect("case");
                let obs = run_case(case["k"].as_str().unwrap_or(""), &case["c"]);
                let rec = json!({"id": case["id"], "k": case["k"], "c": case["c"], "o": obs});
                serde_json::to_writer(&mut out, &rec).expect("write");
                out.write_all(b"\n").expect("write");
                out.flush().expect("flush");
            }
        }
        // harness print KIND: stdout of the print functions for the text on stdin; 9 if it is not read
        Some("print") => {
            let mut text = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).expect("input");
            let cal = || text.parse::<icalendar::Calendar>().unwrap_or_else(|_| std::process::exit(9));
            match args[2].as_str() {
                "calendar" => cal().print().expect("print"),
                "parsed" => {
                    let unf = icalendar::parser::unfold(&text);
                    match icalendar::parser::read_calendar(&unf) {
                        Ok(c) => c.print().expect("print"),
                        Err(_) => std::process::exit(9),
                    }
                }
                "components" => {
                    use icalendar::{CalendarComponent, Component};
                    for c in cal().iter() {
                        match c {
                            CalendarComponent::Event(c) => c.print().expect("print"),
                            CalendarComponent::Todo(c) => c.print().expect("print"),
                            CalendarComponent::Venue(c) => c.print().expect("print"),
                            CalendarComponent::Other(c) => c.print().expect("print"),
                            _ => panic!("component"),
                        }
                    }
                }
                _ => std::process::exit(3),
            }
        }
        // harness plain KINDS: such a calendar on stdout
        Some("plain") => print!("{}", single::write_plain(&args[2])),
        _ => {
            eprintln!("usage: harness run IN OUT | harness print KIND | harness plain KINDS");
            std::process::exit(3);
        }
    }
}
