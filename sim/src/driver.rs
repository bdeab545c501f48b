//! Command line of a corpus program: batches of seeded runs, and replays.

use crate::ctx::{Stats, Violation, KINDS};
use crate::exec::{self, descs, Cfg};
use crate::plan::{generate, Plan};
use crate::rng::{mix, Rng};
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn names() -> Vec<String> {
    descs().iter().map(|d| d.name.clone()).collect()
}

fn viol_json(v: &Violation) -> Value {
    json!({"props": v.props, "rule": v.rule, "detail": v.detail, "client": v.client, "op": v.op, "operation": v.op_text})
}

fn add(a: &mut Stats, b: &Stats) {
    a.ops += b.ops;
    a.builds_ok += b.builds_ok;
    a.builds_err += b.builds_err;
    a.yields += b.yields;
    a.switches += b.switches;
    a.inv_checks += b.inv_checks;
    a.f_stall += b.f_stall;
    a.nested += b.nested;
    a.contended += b.contended;
    for i in 0..9 {
        a.cbs[i] += b.cbs[i];
        a.f_panic[i] += b.f_panic[i];
        a.f_err[i] += b.f_err[i];
    }
}
fn per_kind(x: &[u64; crate::ctx::NK]) -> Value {
    Value::Object(KINDS.iter().filter(|k| x[k.0 as usize] > 0).map(|k| (k.1.to_string(), json!(x[k.0 as usize]))).collect())
}

fn out(v: &Value) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{v}");
    let _ = o.flush();
}

fn on_fatal() {
    let (v, p) = exec::current();
    out(&json!({"fatal": true, "violations": v.iter().map(viol_json).collect::<Vec<_>>(), "plan": p.json(&names())}));
    exit_now(79);
}
fn exit_now(code: i32) -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(code) }
}

fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != last {
                last = now;
                still = 0;
            } else {
                still += 1;
                if still > secs * 2 {
                    let (_, p) = exec::current();
                    out(&json!({"fatal": true, "violations": [{"props": ["C14"], "rule": "spins", "detail":
                        "generated code went on without end inside one operation", "client": 0, "op": 0, "operation": "?"}],
                        "plan": p.json(&names())}));
                    exit_now(78);
                }
            }
        }
    });
}

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

fn batch(a: &[String]) {
    let cfg: usize = opt(a, "--cfg").unwrap().parse().unwrap();
    let seed: u64 = opt(a, "--seed").unwrap().parse().unwrap();
    let n: u64 = opt(a, "--n").unwrap().parse().unwrap();
    let from: u64 = opt(a, "--from").map_or(0, |s| s.parse().unwrap());
    let focus = opt(a, "--focus").unwrap_or("").to_string();
    let sample = a.iter().any(|x| x == "--sample");
    let names = names();
    let mut st = Stats::default();
    let mut digests = std::collections::HashSet::new();
    let mut fold = crate::rng::Digest::new();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut viol = vec![];
    let mut seen: Vec<(String, Vec<&str>)> = vec![];
    let mut multi = 0;
    let mut insts = 0;
    let mut samples = vec![];
    let mut history = vec![];
    let verbose = a.iter().any(|x| x == "--verbose");
    for k in from..from + n {
        if verbose {
            eprintln!("run {k}");
        }
        let p = plan_of(cfg, seed, k, &focus);
        if p.clients.len() > 1 {
            multi += 1;
        }
        let r = exec::run(p, (k - from + 1) as u32, true, false);
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        add(&mut st, &r.stats);
        insts += r.insts as u64;
        runs += 1;
        fold.add(r.digest);
        let faults: u64 = r.stats.f_err.iter().sum::<u64>() + r.stats.f_panic.iter().sum::<u64>() + r.stats.f_stall;
        if faults > 0 || r.stats.switches > 0 {
            nontrivial += 1;
            digests.insert(r.digest);
        }
        if sample && samples.len() < 2 && faults > 0 && (r.stats.switches > 2 || samples.is_empty()) && r.plan.clients.iter().map(|c| c.len()).sum::<usize>() < 14 {
            samples.push(r.plan.json(&names));
        }
        let mut keep = false;
        for v in &r.viol {
            let key = (v.rule.clone(), v.props.clone());
            if !seen.contains(&key) && viol.len() < 24 {
                seen.push(key);
                viol.push(json!({"run": k, "violation": viol_json(v), "plan": r.plan.json(&names)}));
                keep = true;
            }
        }
        if keep && history.len() < 4 {
            history.push(k);
        }
        if viol.len() >= 24 {
            break;
        }
    }
    out(&json!({
        "runs": runs, "distinct": digests.len(), "fold": format!("{:016x}", fold.0), "multi": multi, "nontrivial": nontrivial, "values": insts,
        "ops": st.ops, "builds_ok": st.builds_ok, "builds_failed": st.builds_err, "steps": st.yields,
        "switches": st.switches, "invariant_checks": st.inv_checks, "lock_waits": st.contended, "stalls": st.f_stall, "nested": st.nested,
        "callbacks": per_kind(&st.cbs), "panics": per_kind(&st.f_panic), "errors": per_kind(&st.f_err),
        "entropy_reads": crate::interpose::ENTROPY_READS.load(Ordering::Relaxed),
        "clock_reads": crate::interpose::CLOCK_READS.load(Ordering::Relaxed),
        "samples": samples,
        "violations": viol,
    }));
}

fn plan_of(cfg: usize, seed: u64, k: u64, focus: &str) -> Plan {
    let s = mix(mix(seed, cfg as u64 + 1), k);
    let mut r = Rng::new(mix(s, 0xc0ffee));
    let n = descs().len();
    let mut cf = vec![cfg];
    if n > 1 && r.pct(if focus == "C15" { 50 } else { 15 }) {
        let mut o = r.below(n);
        if o == cfg {
            o = (o + 1) % n;
        }
        cf.push(o);
    }
    let ds = cf.iter().map(|c| &descs()[*c]).collect();
    let mut p = generate(s, cf, ds, focus);
    p.seed = s;
    p
}

fn replay(a: &[String]) {
    let text = if a[0] == "-" {
        let mut s = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
        s
    } else {
        std::fs::read_to_string(&a[0]).expect("replay file")
    };
    let log = a.iter().any(|x| x == "--log");
    let v: Value = serde_json::from_str(&text).expect("replay file");
    let names = names();
    let mut res = vec![];
    let runs = v["runs"].as_array().expect("runs");
    for (i, r) in runs.iter().enumerate() {
        let (p, seeded) = Plan::parse(r, &names);
        let o = exec::run(p, i as u32 + 1, seeded, log);
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if log {
            for l in &o.log {
                eprintln!("{l}");
            }
        }
        res.push(json!({"violations": o.viol.iter().map(viol_json).collect::<Vec<_>>(),
            "digest": format!("{:x}", o.digest), "steps": o.steps, "plan": o.plan.json(&names)}));
    }
    out(&json!({"results": res}));
}

pub fn main(cfgs: &[&'static Cfg]) {
    unsafe { exec::CFGS = cfgs.to_vec() };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let _ = descs();
    unsafe {
        exec::ON_FATAL = on_fatal;
        crate::interpose::ON_SLEEP = crate::sched::yield_point;
    }
    exec::setup();
    match a.first().map(|s| s.as_str()) {
        Some("list") => out(&json!(names())),
        Some("batch") => {
            watchdog(10);
            batch(&a)
        }
        Some("plans") => {
            // The plans of a range of runs, without running them.
            let cfg: usize = opt(&a, "--cfg").unwrap().parse().unwrap();
            let seed: u64 = opt(&a, "--seed").unwrap().parse().unwrap();
            let n: u64 = opt(&a, "--n").unwrap().parse().unwrap();
            let focus = opt(&a, "--focus").unwrap_or("");
            let from: u64 = opt(&a, "--from").map_or(0, |s| s.parse().unwrap());
            out(&json!((from..from + n).map(|k| plan_of(cfg, seed, k, focus).json(&names())).collect::<Vec<_>>()));
        }
        Some("replay") => {
            watchdog(10);
            replay(&a[1..])
        }
        _ => {
            eprintln!("usage: list | batch --cfg I --seed S --n N --focus Cxx | replay FILE [--log]");
            std::process::exit(2);
        }
    }
}
