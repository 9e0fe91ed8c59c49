//! The command line of a worker.
use crate::explore::{self, Job, Op, Outcome, Violation};
use std::time::Duration;

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn spec_of(v: &Violation) -> String {
    match v.point {
        Some(p) => format!("point:{p}"),
        None => format!(
            "ops:{}",
            v.ops.iter().map(|o| format!("{}.{}.{}.{}.{}", o.k, o.s, o.c, o.a, o.b)).collect::<Vec<_>>().join(",")
        ),
    }
}

fn parse_spec(s: &str) -> Violation {
    if let Some(p) = s.strip_prefix("point:") {
        return Violation { ops: vec![], point: Some(p.parse().unwrap()), what: String::new() };
    }
    let ops = s.strip_prefix("ops:").unwrap();
    let ops = ops
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let f: Vec<u32> = x.split('.').map(|f| f.parse().unwrap()).collect();
            Op { k: f[0] as u8, s: f[1] as u8, c: f[2] as u16, a: f[3], b: f[4] }
        })
        .collect();
    Violation { ops, point: None, what: String::new() }
}

fn outcome_json(job: &str, method: &str, o: &Outcome, history: Option<String>) -> String {
    let samples: Vec<String> = o.samples.iter().map(|s| quote(s)).collect();
    let v = match &o.violation {
        None => "null".to_string(),
        Some(v) => format!(
            "{{\"spec\":{},\"what\":{},\"history\":{}}}",
            quote(&spec_of(v)),
            quote(&v.what),
            quote(&history.unwrap_or_default())
        ),
    };
    format!(
        "{{\"job\":{},\"method\":{},\"states\":{},\"transitions\":{},\"histories\":{},\"depth\":{},\"complete\":{},\"wall\":{:.2},\"samples\":[{}],\"violation\":{}}}",
        quote(job), quote(method), o.states, o.transitions, o.histories, o.depth, o.complete, o.wall, samples.join(","), v
    )
}

pub fn run(all: fn(&str, bool) -> Vec<Box<dyn Job>>) {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    explore::install_panic_hook();
    match arg(1) {
        // worker <property> <tier> <flight file> <budget seconds>
        "worker" => {
            let budget: f64 = arg(5).parse().unwrap();
            explore::install_supervision(arg(4), Duration::from_secs(120));
            let t0 = std::time::Instant::now();
            let jobs = all(arg(2), arg(3) == "thorough");
            let n = jobs.len();
            for (i, j) in jobs.iter().enumerate() {
                if let Some(s) = explore::shared() {
                    s.scene.store(i as u32, std::sync::atomic::Ordering::SeqCst);
                }
                // later jobs may use what earlier ones left over
                let left = (budget - t0.elapsed().as_secs_f64()).max(0.5);
                let share = (left / (n - i) as f64 * 3.0).max(left / 3.0);
                let mut o = j.explore(Duration::from_secs_f64(share.min(left)));
                let mut history = None;
                if let Some(v) = &mut o.violation {
                    j.shrink(v);
                    history = Some(j.describe(v));
                }
                let bad = o.violation.is_some();
                println!("{}", outcome_json(&j.name(), j.method(), &o, history));
                if bad {
                    break;
                }
            }
        }
        // decode <property> <tier> <flight file>: what was running when the worker died
        "decode" => {
            let bytes = std::fs::read(arg(4)).unwrap();
            assert!(bytes.len() >= std::mem::size_of::<explore::Shared>());
            let s = unsafe { &*(bytes.as_ptr() as *const explore::Shared) };
            use std::sync::atomic::Ordering::SeqCst;
            let scene = s.scene.load(SeqCst) as usize;
            let slot = s.crash_slot.load(SeqCst);
            let jobs = all(arg(2), arg(3) == "thorough");
            let j = &jobs[scene];
            for (i, f) in s.flights.iter().enumerate() {
                if f.busy.load(SeqCst) == 0 || (slot >= 0 && slot as usize != i) {
                    continue;
                }
                let n = f.n.load(SeqCst);
                let v = if n == u32::MAX {
                    Violation { ops: vec![], point: Some(f.point.load(SeqCst)), what: String::new() }
                } else {
                    let ops = (0..(n as usize).min(80)).map(|i| unsafe { *f.ops[i].get() }).collect();
                    Violation { ops, point: None, what: String::new() }
                };
                println!(
                    "{{\"job\":{},\"signal\":{},\"spec\":{},\"history\":{}}}",
                    quote(&j.name()),
                    s.signal.load(SeqCst),
                    quote(&spec_of(&v)),
                    quote(&j.describe(&v))
                );
            }
        }
        // replay <property> <tier> <job> <spec>
        "replay" => {
            let jobs = all(arg(2), arg(3) == "thorough");
            let Some(j) = jobs.iter().find(|j| j.name() == arg(4)) else {
                println!("no such job: {}", arg(4));
                std::process::exit(2);
            };
            let v = parse_spec(arg(5));
            println!("{}", j.describe(&v));
            explore::enter_thread(0);
            match j.judge(&v) {
                Ok(()) => {
                    println!("HELD");
                    std::process::exit(0)
                }
                Err(e) => {
                    println!("VIOLATED {e}");
                    std::process::exit(1)
                }
            }
        }
        "list" => {
            for j in all(arg(2), arg(3) == "thorough") {
                println!("{} [{}]", j.name(), j.method());
            }
        }
        _ => {
            eprintln!("usage: ecsmc worker|decode|replay|list ...");
            std::process::exit(2)
        }
    }
}
