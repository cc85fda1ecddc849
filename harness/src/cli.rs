//! Command line shared by all property binaries.
//!   cXX --tier quick|thorough --out DIR        explore; exit 0 clean, 1 violation, others error
//!   cXX --replay FILE                          run one recorded case; exit 1 if it fails
use crate::engine::*;
use crate::slots::Slots;
use std::sync::atomic::Ordering::*;

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC_LOC.with(|l| *l.borrow_mut() = loc);
        if !i.payload().is::<Injected>() && std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("{i}");
        }
    }));
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub thorough: bool,
}

/// A property's plan: given the context, run its suites. The same function serves replay: suites
/// are looked up by name through `find`.
pub trait Plan: Sync {
    fn explore(&self, cx: &Ctx, a: &Args);
    fn find(&self, name: &str) -> Option<Box<dyn Suite>>;
}

pub fn main(plan: &'static dyn Plan) {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if let Some(f) = get("--replay") {
        let txt = std::fs::read_to_string(&f).expect("replay file");
        let mut suite = String::new();
        let mut ops: Vec<Op> = vec![];
        for l in txt.lines() {
            if let Some(s) = l.strip_prefix("suite ") {
                suite = s.trim().into();
            }
            if let Some(s) = l.strip_prefix("ops") {
                ops = s.split_whitespace().map(|x| x.parse().unwrap()).collect();
            }
        }
        let s = plan.find(&suite).unwrap_or_else(|| {
            eprintln!("unknown suite {suite}");
            std::process::exit(3)
        });
        println!("case: {}", s.show_case(&ops));
        // large stack: some machines recurse
        let r = std::thread::scope(|sc| {
            let all = || {
                // as words and cases run it, as a new state of a search, and as one already known
                s.run(&ops, None)?;
                s.run(&ops, Some(&|_| true))?;
                s.run(&ops, Some(&|_| false))
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, all).unwrap().join()
        });
        match r {
            Ok(Ok(())) => {
                println!("PASS");
                std::process::exit(0)
            }
            Ok(Err(e)) => {
                println!("FAIL {e}");
                std::process::exit(1)
            }
            Err(_) => {
                println!("FAIL thread panicked");
                std::process::exit(1)
            }
        }
    }
    let out = get("--out").expect("--out DIR");
    let thorough = get("--tier").as_deref() == Some("thorough");
    let budget: f64 = get("--budget").and_then(|b| b.parse().ok()).unwrap_or(if thorough { 3600.0 } else { 300.0 });
    let slots = Slots::file(&format!("{out}/slots"));
    let cx: &'static Ctx = Box::leak(Box::new(Ctx::new(slots, get("--only"), budget)));
    // watchdog: no case may take longer than 60 s
    std::thread::spawn(move || {
        let mut last = vec![(0u64, 0u64); 64];
        let mut since = vec![std::time::Instant::now(); 64];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for w in 0..64 {
                let p = cx.peek(w);
                if p.0 == 0 || p != last[w] {
                    last[w] = p;
                    since[w] = std::time::Instant::now();
                } else if since[w].elapsed().as_secs_f64() > 60.0 {
                    eprintln!("HANG worker {w}");
                    std::process::exit(43);
                }
            }
        }
    });
    plan.explore(cx, &Args { thorough });
    let stats = cx.stats.lock().unwrap();
    let mut j = String::from("{\"suites\":[");
    for (i, s) in stats.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        j.push_str(&format!(
            "{{\"suite\":{},\"kind\":{},\"states\":{},\"transitions\":{},\"executions\":{},\"depth\":{},\"complete\":{},\"bound\":{},\"wall_s\":{:.3},\"samples\":[{}]}}",
            esc(&s.suite),
            esc(&s.kind),
            s.states,
            s.transitions,
            s.executions,
            s.depth,
            s.complete,
            esc(&s.bound),
            s.wall,
            s.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        ));
    }
    j.push_str(&format!("],\"inner\":{}", EXTRA.load(Relaxed)));
    let f = cx.fail.lock().unwrap();
    if let Some(f) = &*f {
        j.push_str(&format!(
            ",\"fail\":{{\"suite\":{},\"msg\":{},\"shown\":{},\"ops\":[{}]}}",
            esc(&f.suite),
            esc(&f.msg),
            esc(&f.shown),
            f.case.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        ));
    }
    j.push('}');
    std::fs::write(format!("{out}/result.json"), j).unwrap();
    std::process::exit(if f.is_some() { 1 } else { 0 });
}
