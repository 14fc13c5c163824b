//! Conformance harness: executes abstract requests against the real library and reports the
//! projected outcome, one JSON line per request.  A panic is data.
mod blocks;
mod calls;
mod conv;
mod cause;
mod deser;
mod json;
mod num;
mod pairs;
mod proj;
mod same;
mod source;
mod sub;
mod till;
mod vtree;

use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::{parse_str, value, AsOwned, MergeBehaviour};
use json::J;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

fn merge_arg(j: Option<&J>) -> Option<MergeBehaviour> {
    match j {
        Some(J::Bool(true)) => Some(MergeBehaviour::Error),
        _ => None,
    }
}

fn run(j: &J) -> J {
    match j.get("op").expect("harness: op").str() {
        "parse" => {
            let t = j.get("t").unwrap().text();
            proj::res(parse_str(&t).map(|c| proj::config(&c)))
        }
        "expr" => {
            let t = j.get("t").unwrap().text();
            proj::res(Expression::parse(&t).map(|c| proj::expr(&c)))
        }
        "value" => {
            let t = j.get("t").unwrap().text();
            proj::res(value::from_str(&t, merge_arg(j.get("m"))).map(|c| proj::map(&c)))
        }
        "num" => num::num(&j.get("t").unwrap().text()),
        "numval" => num::val(&j.get("t").unwrap().text()),
        "numeq" => num::eq(&j.get("a").unwrap().text(), &j.get("b").unwrap().text()),
        "numfrom" => num::from(j),
        "numfromf" => num::from_float(j),
        "source" => source::run(j),
        "vq" => vtree::vq(j),
        "pairs" => pairs::run(j),
        "deser" => deser::run(j),
        "survive" => survive(&j.get("t").unwrap().text()),
        "blocks" => blocks::run(j),
        "calls" => calls::run(j),
        "errconv" => conv::run(j),
        "cause" => cause::text(j),
        "bcause" => cause::bytes(j),
        "till" => till::run(j),
        "same" => same::same(j),
        "name" => same::name(j),
        "sub" => sub::run(j.get("p").unwrap().str(), &j.get("t").unwrap().text()),
        o => panic!("harness: unknown op {}", o),
    }
}

/// Every call that takes a text
fn survive(t: &str) -> J {
    let _ = parse_str(t).map(|b| (b.as_owned(), format!("{:?}", b).len())).map_err(|e| format!("{} {:?}", e, e));
    let _ = ferrous_chloride::parse_slice(t.as_bytes()).map_err(|e| e.to_string());
    let _ = ferrous_chloride::parse_reader(t.as_bytes()).map_err(|e| e.to_string());
    for m in &[None, Some(MergeBehaviour::Error)] {
        let _ = value::from_str(t, *m).map(|v| (v.as_owned(), format!("{:?}", v).len())).map_err(|e| format!("{} {:?}", e, e));
        let _ = value::from_slice(t.as_bytes(), *m).map_err(|e| e.to_string());
        let _ = value::from_reader(t.as_bytes(), *m).map_err(|e| e.to_string());
    }
    let _ = Expression::parse(t).map(|b| b.as_owned()).map_err(|e| format!("{} {:?}", e, e));
    for p in sub::ALL {
        let _ = sub::run(p, t);
    }
    deser::everything(t);
    J::Obj(vec![("r".into(), J::s("ok"))])
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::File::open(&args[1]).expect("harness: input");
    let limit: u64 = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(20);
    let out = std::fs::File::create(&args[2]).expect("harness: output");
    std::panic::set_hook(Box::new(|_| {}));
    let tick = Arc::new(AtomicU64::new(0));
    let t2 = tick.clone();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut out = std::io::LineWriter::new(out);
            for line in std::io::BufReader::new(input).lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                t2.fetch_add(1, Ordering::SeqCst);
                let j = json::parse(&line);
                let r = match catch_unwind(AssertUnwindSafe(|| run(&j))) {
                    Ok(v) => v,
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_else(|| "?".to_string());
                        if m.starts_with("harness:") {
                            eprintln!("{} on {}", m, line);
                            std::process::exit(3);
                        }
                        J::Obj(vec![("r".into(), J::s("panic")), ("m".into(), J::s(m))])
                    }
                };
                writeln!(out, "{}", r).unwrap();
            }
            out.flush().unwrap();
        })
        .unwrap();
    // watchdog: no single request may take longer than `limit` seconds
    let mut last = (0, std::time::Instant::now());
    loop {
        if h.is_finished() {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
        let t = tick.load(Ordering::SeqCst);
        if t != last.0 {
            last = (t, std::time::Instant::now());
        } else if last.1.elapsed().as_secs() >= limit {
            eprintln!("HANG at request {}", t);
            std::process::exit(4);
        }
    }
    if h.join().is_err() {
        std::process::exit(3);
    }
}
