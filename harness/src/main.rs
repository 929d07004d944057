//! Batch replay harness: JSON lines on stdin -> JSON lines on stdout (same order).
//! Every request runs the real crate; panics and hangs are recorded as data.
mod opts;
mod proj;

use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn fmt(src: &str, o: &hongdown::Options, once: bool) -> Value {
    let a = if once { Ok(String::new()) } else { hongdown::format(src, o) };
    let b = hongdown::format_with_warnings(src, o);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let w: Vec<Value> = b.warnings.iter().map(|w| json!([w.line, w.message])).collect();
            if once { return json!({"out": b.output, "outw": Value::Null, "warn": w}); }
            json!({"out": a, "outw": if a == b.output { Value::Null } else { json!(b.output) }, "warn": w})
        }
        (a, b) => json!({"err": format!("{:?} / {:?}", a.err(), b.err())}),
    }
}

fn handle(req: &Value) -> Value {
    let src = req["src"].as_str().unwrap_or("");
    let want = |k: &str| req["want"].as_array().map(|a| a.iter().any(|x| x == k)).unwrap_or(false);
    match req["op"].as_str().unwrap_or("fmt") {
        "fmt" => {
            let o = match opts::parse(&req["opts"]) {
                Ok(o) => o,
                Err(e) => return json!({"badopts": e}),
            };
            let t0 = Instant::now();
            let mut r = fmt(src, &o, want("once"));
            if want("ms") { r["ms"] = json!(t0.elapsed().as_millis() as u64); }
            let out = r["out"].as_str().map(|s| s.to_string());
            if let Some(out) = out {
                if want("again") {
                    // a cycle of re-formatting: the k-th output for k = 2, 3
                    let b = hongdown::format(&out, &o).unwrap_or_default();
                    if b != out { r["again"] = json!(b); } else { r["again"] = Value::Null; }
                }
                if want("tok") {
                    r["tok_in"] = proj::tokens(src);
                    r["tok_out"] = proj::tokens(&out);
                }
                if want("tokout") {
                    r["tok_out"] = proj::tokens(&out);
                }
                if want("width") {
                    r["width"] = json!(out.split('\n').map(unicode_width::UnicodeWidthStr::width).collect::<Vec<_>>());
                }
            }
            r
        }
        "hist" => {
            // a history of calls in one process: steps one after the other, the calls of a step side by side
            let mut steps = Vec::new();
            for step in req["steps"].as_array().unwrap_or(&Vec::new()) {
                let calls: Vec<Value> = step.as_array().cloned().unwrap_or_default();
                let outs: Vec<Value> = std::thread::scope(|sc| {
                    let hs: Vec<_> = calls
                        .iter()
                        .map(|c| {
                            std::thread::Builder::new()
                                .stack_size(64 << 20)
                                .spawn_scoped(sc, move || {
                                    let o = match opts::parse(&c["opts"]) { Ok(o) => o, Err(e) => return json!({"badopts": e}) };
                                    let src = c["src"].as_str().unwrap_or("");
                                    if c["entry"] == "format" {
                                        match hongdown::format(src, &o) { Ok(x) => json!({"out": x}), Err(e) => json!({"err": e.to_string()}) }
                                    } else {
                                        match hongdown::format_with_warnings(src, &o) {
                                            Ok(x) => json!({"out": x.output, "warn": x.warnings.iter().map(|w| json!([w.line, w.message])).collect::<Vec<_>>()}),
                                            Err(e) => json!({"err": e.to_string()}),
                                        }
                                    }
                                })
                                .unwrap()
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| json!({"panic": true}))).collect()
                });
                steps.push(Value::Array(outs));
            }
            json!({"steps": steps})
        }
        "js" => {
            // options as the WebAssembly API takes them
            let v: Value = match serde_json::from_str(req["js"].as_str().unwrap_or("")) { Ok(v) => v, Err(e) => return json!({"badopts": e.to_string()}) };
            match hongdown::verif_options(v) {
                Ok(o) => {
                    let mut r = fmt(src, &o, false);
                    r["opts"] = opts::dump(&o);
                    r["plain"] = json!(o.code_formatters.is_empty());
                    r
                }
                Err(e) => json!({"badopts": e.to_string()}),
            }
        }
        "tok" => json!({"tok": proj::tokens(src)}),
        "html" => json!({"html": proj::html(src)}),
        "width" => json!({"width": src.split('\n').map(unicode_width::UnicodeWidthStr::width).collect::<Vec<_>>()}),
        x => json!({"badop": x}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit = std::env::var("HD_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30u64);
    let reqs: Arc<Vec<Value>> = Arc::new(
        std::io::stdin().lock().lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect(),
    );
    let n = reqs.len();
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let res: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
    let threads = std::env::var("HD_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let busy: Arc<Mutex<Vec<Option<(usize, Instant)>>>> = Arc::new(Mutex::new(vec![None; threads]));
    let spawn = |t: usize| {
        let (reqs, next, done, res, busy) = (reqs.clone(), next.clone(), done.clone(), res.clone(), busy.clone());
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= reqs.len() { break; }
            busy.lock().unwrap()[t] = Some((i, Instant::now()));
            let v = catch_unwind(AssertUnwindSafe(|| handle(&reqs[i]))).unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({"panic": m})
            });
            let mut r = res.lock().unwrap();
            if r[i].is_none() { r[i] = Some(v.to_string()); done.fetch_add(1, Ordering::SeqCst); }
            drop(r);
            busy.lock().unwrap()[t] = None;
        }).unwrap();
    };
    for t in 0..threads { spawn(t); }
    while done.load(Ordering::SeqCst) < n {
        std::thread::sleep(Duration::from_millis(2));
        let mut respawn = vec![];
        {
            let mut b = busy.lock().unwrap();
            for t in 0..threads {
                if let Some((i, at)) = b[t] {
                    if at.elapsed() > Duration::from_secs(limit) {
                        let mut r = res.lock().unwrap();
                        if r[i].is_none() { r[i] = Some(json!({"hang": limit}).to_string()); done.fetch_add(1, Ordering::SeqCst); }
                        b[t] = None;
                        respawn.push(t);
                    }
                }
            }
        }
        for t in respawn { spawn(t); }
    }
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for r in res.lock().unwrap().iter() {
        writeln!(out, "{}", r.as_deref().unwrap_or("{}")).unwrap();
    }
    out.flush().unwrap();
    drop(out);
    std::process::exit(0);
}
