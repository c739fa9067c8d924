//! Executes cases against the real async-tiff code and reports what it did.
//!
//! `vharness CMD IN OUT`: reads one JSON case per line of IN and writes one JSON observation per
//! line of OUT, in order. Nothing is judged here: the TLA+ specification decides whether an
//! observation is allowed. A panic is an observation; an abort ends the process, and the driver
//! reports it for the case that was running.

#![allow(dead_code)]

mod ahead;
mod alloc;
mod codes;
mod compress;
mod conc;
mod conv;
mod decode;
mod fail;
mod file;
mod http;
mod j;
mod layout;
mod meta;
mod ranges;
mod sched;
mod session;
mod source;
mod typed;

use std::io::{BufRead, Write};

use serde_json::Value;

#[global_allocator]
static ALLOC: alloc::Capped = alloc::Capped;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (cmd, input, output) = (&args[1], &args[2], &args[3]);
    std::panic::set_hook(Box::new(|p| j::panicked(p.location())));
    let run: fn(&Value) -> Value = match cmd.as_str() {
        "ahead" => ahead::run,
        "file" => file::run,
        "ranges" => ranges::run,
        "layout" => layout::run,
        "meta" => meta::run,
        "session" => session::run,
        "conc" => conc::run,
        "codes" => codes::run,
        "typed" => typed::run,
        "conv" => conv::run,
        "compress" => compress::run,
        "decode" => decode::run,
        _ => panic!("unknown command {cmd}"),
    };
    let skip: usize = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    let input = std::io::BufReader::new(std::fs::File::open(input).unwrap());
    let mut output = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(output)
        .unwrap();
    for line in input.lines().skip(skip) {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut obs = serde_json::to_vec(&run(&case)).unwrap();
        obs.push(b'\n');
        output.write_all(&obs).unwrap();
    }
}
