//! Exploration over many seeds in child processes, shrinking, replay, evidence.
use crate::props::*;
use serde_json::{json, Value};
use simrt::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(90);
/// exit code of harness trouble: neither "held" nor "broken"
const TROUBLE: i32 = 3;

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    mix(mix(base ^ fnv(id)) ^ mix(i.wrapping_mul(0x9e3779b97f4a7c15)))
}

pub fn run(a: &[String]) -> i32 {
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match s.first().copied() {
        Some("check") => check_cmd(&s[1..]),
        Some("worker") => worker(&s[1..]),
        Some("shrink") => shrink_cmd(&s[1..]),
        Some("replay") => replay_cmd(s[1]),
        Some("digests") => {
            let p = find(s[1]).expect("property");
            let n: u64 = s[2].parse().unwrap();
            for i in 0..n {
                let o = start(Plan::Seed(run_seed(1, p.id, i)), false, p.f).wait(HANG).expect("hang");
                println!("{i} {:016x} {} {}", o.digest, o.events, o.draws.len());
            }
            0
        }
        Some("seed") => {
            // patsim seed ID I [BASE]: one run with its trace
            let p = find(s[1]).expect("property");
            let base = s.get(3).map_or(1, |x| x.parse().unwrap());
            let o = start(Plan::Seed(run_seed(base, p.id, s[2].parse().unwrap())), true, p.f).wait(HANG).expect("hang");
            println!("{}", o.trace.join("\n"));
            println!("{:?}", o.counters);
            o.violation.is_some() as i32
        }
        _ => {
            eprintln!("usage: patsim check ID | replay FILE");
            2
        }
    }
}

// ------------------------------------------------------------------- worker

/// Lines out: `R i` before run i; `V i oracle msg` and `H i` end the worker;
/// then `C key n`, `G digest` for what was covered, `E` at a regular end.
fn worker(s: &[&str]) -> i32 {
    let p = find(s[0]).expect("property");
    let n = |i: usize| s[i].parse::<u64>().unwrap();
    let (base, first, stride, count, cap) = (n(1), n(2), n(3), n(4), n(5));
    let out = std::io::stdout();
    let say = |x: String| {
        let mut o = out.lock();
        let _ = writeln!(o, "{x}");
        let _ = o.flush();
    };
    let t0 = Instant::now();
    let mut cn: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut digests: HashSet<u64> = HashSet::new();
    let mut i = first;
    let mut hit = false;
    while i < count {
        if t0.elapsed().as_secs() >= cap {
            say("T".into());
            break;
        }
        say(format!("R {i}"));
        match start(Plan::Seed(run_seed(base, p.id, i)), false, p.f).wait(HANG) {
            None => {
                say(format!("H {i}"));
                // the stuck thread cannot be ended from inside
                std::process::exit(0);
            }
            Some(o) => {
                *cn.entry("runs").or_insert(0) += 1;
                *cn.entry("steps").or_insert(0) += o.events;
                *cn.entry("choices").or_insert(0) += o.draws.len() as u64;
                *cn.entry("sched.steps").or_insert(0) += o.sched_steps;
                *cn.entry("sched.switches").or_insert(0) += o.switches;
                if o.counters.iter().any(|(k, _)| k.starts_with("fault.")) {
                    *cn.entry("runs.with_fault").or_insert(0) += 1;
                }
                for (k, v) in &o.counters {
                    *cn.entry(k).or_insert(0) += v;
                }
                // trivial: hardly anything happened
                if o.events >= 5 {
                    digests.insert(o.digest);
                }
                if let Some(v) = o.violation {
                    say(format!("V {i} {} {}", v.oracle, v.msg.replace('\n', " ")));
                    hit = true;
                    break;
                }
            }
        }
        i += stride;
    }
    let mut o = out.lock();
    for (k, v) in cn {
        let _ = writeln!(o, "C {k} {v}");
    }
    for d in digests {
        let _ = writeln!(o, "G {d:x}");
    }
    let _ = writeln!(o, "E");
    let _ = o.flush();
    hit as i32
}

// ------------------------------------------------------------------- shrink

fn try_draws(p: &Prop, d: &[u64]) -> Option<Outcome> {
    start(Plan::Replay(d.to_vec()), false, p.f).wait(HANG)
}

fn shrink(p: &Prop, seed: u64, budget: Duration) -> Option<(Vec<u64>, String)> {
    let t0 = Instant::now();
    let o = start(Plan::Seed(seed), false, p.f).wait(HANG)?;
    let oracle = o.violation?.oracle;
    let mut best = o.draws;
    let fails = |d: &[u64]| -> Option<Vec<u64>> {
        let o = try_draws(p, d)?;
        (o.violation.map(|v| v.oracle) == Some(oracle.clone())).then_some(o.draws)
    };
    let smaller = |a: &[u64], b: &[u64]| (a.len(), a.iter().map(|x| *x as u128).sum::<u128>()) < (b.len(), b.iter().map(|x| *x as u128).sum::<u128>());
    best = fails(&best)?;
    loop {
        let before = best.clone();
        // drop pieces, biggest first
        let mut n = best.len() / 2;
        while n >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return Some((best, oracle));
                }
                let mut c = best.clone();
                c.drain(i..(i + n).min(c.len()));
                match fails(&c) {
                    Some(d) if smaller(&d, &best) => best = d,
                    _ => i += n,
                }
            }
            n /= 2;
        }
        // then make what is left plainer
        let mut n = best.len().min(32);
        while n >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return Some((best, oracle));
                }
                let e = (i + n).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    match fails(&c) {
                        Some(d) if smaller(&d, &best) => best = d,
                        _ if n == 1 && best[i] > 1 => {
                            for y in [best[i] / 2, best[i] - 1] {
                                let mut c = best.clone();
                                c[i] = y;
                                if let Some(d) = fails(&c) {
                                    if smaller(&d, &best) {
                                        best = d;
                                        break;
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                i += n;
            }
            n /= 2;
        }
        if best == before {
            return Some((best, oracle));
        }
    }
}

fn shrink_cmd(s: &[&str]) -> i32 {
    let p = find(s[0]).expect("property");
    let seed: u64 = s[1].parse().unwrap();
    let secs: u64 = s[3].parse().unwrap();
    let Some((d, _)) = shrink(p, seed, Duration::from_secs(secs)) else { return TROUBLE };
    let run = || start(Plan::Replay(d.clone()), true, p.f).wait(HANG);
    let (Some(a), Some(b)) = (run(), run()) else { return TROUBLE };
    let (Some(va), Some(vb)) = (&a.violation, &b.violation) else { return TROUBLE };
    if a.digest != b.digest || va.msg != vb.msg {
        return TROUBLE;
    }
    let j = json!({
        "property": p.id, "seed": seed, "oracle": va.oracle, "message": va.msg,
        "choices": a.draws, "digest": format!("{:016x}", a.digest), "trace": a.trace,
    });
    std::fs::write(s[2], serde_json::to_string_pretty(&j).unwrap()).map_or(TROUBLE, |_| 0)
}

fn replay_cmd(f: &str) -> i32 {
    let j: Value = match std::fs::read_to_string(f).ok().and_then(|x| serde_json::from_str(&x).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {f}");
            return TROUBLE;
        }
    };
    let Some(p) = j["property"].as_str().and_then(find) else { return TROUBLE };
    if let Some(k) = j["known"].as_str() {
        let Some(k) = KNOWN.iter().find(|x| x.id == k) else { return TROUBLE };
        let o = start(Plan::Replay(vec![]), true, k.f).wait(HANG).expect("hang");
        println!("{}", o.trace.join("\n"));
        return o.violation.is_some() as i32;
    }
    // executions in the same process that have to come first
    for x in j["before"].as_array().unwrap_or(&vec![]) {
        if start(Plan::Seed(x.as_u64().unwrap_or(0)), false, p.f).wait(HANG).is_none() {
            return TROUBLE;
        }
    }
    let plan = match j["choices"].as_array() {
        Some(a) => Plan::Replay(a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
        None => Plan::Seed(j["seed"].as_u64().unwrap_or(0)),
    };
    let o = match start(plan, true, p.f).wait(HANG) {
        Some(o) => o,
        None => {
            println!("the run does not end");
            println!("VIOLATION property={} replay={f}", p.id);
            std::process::exit(1);
        }
    };
    println!("{}", o.trace.join("\n"));
    match &o.violation {
        Some(v) if std::env::var_os("PATSIM_RECORD").is_some() => {
            let mut j = j.clone();
            j["oracle"] = json!(v.oracle);
            j["message"] = json!(v.msg);
            j["digest"] = json!(format!("{:016x}", o.digest));
            j["trace"] = json!(o.trace);
            std::fs::write(f, serde_json::to_string_pretty(&j).unwrap()).map_or(TROUBLE, |_| 1)
        }
        Some(v) => {
            let same = j["digest"].as_str() == Some(&format!("{:016x}", o.digest)) && j["message"].as_str() == Some(&v.msg);
            println!("{}", if same { "exactly the recorded execution" } else { "fails, but not exactly as recorded (the code differs)" });
            println!("VIOLATION property={} replay={f}", p.id);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

// -------------------------------------------------------------------- check

#[derive(Default)]
struct Shared {
    /// lowest failing run so far: (index, oracle, message, seed-only)
    worst: Option<(u64, String, String, bool)>,
    counters: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    pos: Vec<u64>,
    capped: bool,
    trouble: Option<String>,
}

fn check_cmd(s: &[&str]) -> i32 {
    let Some(p) = find(s[0]) else {
        eprintln!("unknown property {}", s[0]);
        return TROUBLE;
    };
    let opt = |k: &str| s.iter().position(|x| *x == k).and_then(|i| s.get(i + 1)).map(|x| x.to_string());
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let runs = opt("--runs").and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { p.quick } else { p.thorough });
    let workers = opt("--workers").and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get() as u64)).clamp(1, 16);
    let cap: u64 = if tier == "quick" { 200 } else { 3000 };
    println!("property {} tier {tier} seed {base} runs {runs} workers {workers}", p.id);
    let t0 = Instant::now();
    let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
    let mut violations = 0;
    let mut known_lines = vec![];
    let file = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();

    if let Err(e) = selftest() {
        println!("ERROR the simulator's seams are not in place: {e}");
        return TROUBLE;
    }
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    for k in KNOWN.iter().filter(|k| k.property == p.id) {
        let listed = file.lines().any(|l| l.starts_with(&format!("known: property={} id={} ", k.property, k.id)));
        let o = match start(Plan::Replay(vec![]), true, k.f).wait(HANG) {
            Some(o) => o,
            None => return TROUBLE,
        };
        if let Some(v) = o.violation {
            if listed && v.oracle == k.oracle {
                let l = format!("KNOWN-FINDING: property={} {}: {}", p.id, k.id, v.msg);
                println!("{l}");
                known_lines.push(l);
            } else {
                let f = format!("{root}/replays/{}-{}.json", p.id, k.id);
                let j = json!({"property": p.id, "known": k.id, "oracle": v.oracle, "message": v.msg, "trace": o.trace});
                let _ = std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap());
                println!("{}: {}", v.oracle, v.msg);
                println!("VIOLATION property={} replay={f}", p.id);
                violations += 1;
            }
        }
    }

    let sh = Arc::new(Mutex::new(Shared { pos: vec![0; workers as usize], ..Default::default() }));
    let exe = std::env::current_exe().expect("exe");
    let kids: Arc<Mutex<Vec<std::process::Child>>> = Arc::default();
    let mut readers = vec![];
    for w in 0..workers {
        let mut c = match Command::new(&exe)
            .args(["worker", p.id, &base.to_string(), &w.to_string(), &workers.to_string(), &runs.to_string(), &cap.to_string()])
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => {
                println!("ERROR cannot start a worker: {e}");
                return TROUBLE;
            }
        };
        let out = c.stdout.take().unwrap();
        kids.lock().unwrap().push(c);
        let sh = sh.clone();
        readers.push(std::thread::spawn(move || {
            let mut cur: Option<u64> = None;
            let mut ended = false;
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                let mut s = sh.lock().unwrap();
                let f: Vec<&str> = l.splitn(4, ' ').collect();
                let idx = || f[1].parse::<u64>().unwrap();
                match f[0] {
                    "R" => {
                        cur = Some(idx());
                        s.pos[w as usize] = idx();
                    }
                    "V" => note(&mut s, idx(), f[2], f.get(3).unwrap_or(&""), false),
                    "H" => {
                        note(&mut s, idx(), "hang", &format!("the run does not end within {} s", HANG.as_secs()), true);
                        ended = true;
                    }
                    "C" => *s.counters.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                    "G" => {
                        s.digests.insert(u64::from_str_radix(f[1], 16).unwrap());
                    }
                    "T" => s.capped = true,
                    "E" => ended = true,
                    _ => {}
                }
            }
            let mut s = sh.lock().unwrap();
            s.pos[w as usize] = u64::MAX;
            if !ended {
                // ended by us (after a violation elsewhere) or by what it ran
                match cur {
                    Some(i) if s.worst.as_ref().map_or(true, |x| i < x.0) => note(&mut s, i, "died", "the process running the system died (abort, stack overflow or out of memory)", true),
                    None => s.trouble = Some("a worker ended before its first run".into()),
                    _ => {}
                }
            }
        }));
    }
    // once something failed, nobody needs to look beyond it
    let killer = {
        let (sh, kids) = (sh.clone(), kids.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(20));
            let s = sh.lock().unwrap();
            let pos = s.pos.clone();
            let worst = s.worst.as_ref().map(|x| x.0);
            drop(s);
            if pos.iter().all(|x| *x == u64::MAX) {
                return;
            }
            if let Some(i) = worst {
                for (w, k) in kids.lock().unwrap().iter_mut().enumerate() {
                    if pos[w] > i && pos[w] != u64::MAX {
                        let _ = k.kill();
                    }
                }
            }
        })
    };
    for r in readers {
        let _ = r.join();
    }
    let _ = killer.join();
    for k in kids.lock().unwrap().iter_mut() {
        let _ = k.wait();
    }
    let s = sh.lock().unwrap();
    let explore = t0.elapsed().as_secs_f64();

    if let Some(t) = &s.trouble {
        println!("ERROR {t}");
        return TROUBLE;
    }
    if let Some((i, oracle, msg, seed_only)) = &s.worst {
        if oracle == "harness" {
            println!("ERROR harness: run {i}: {msg}");
            return TROUBLE;
        }
        violations += 1;
        let seed = run_seed(base, p.id, *i);
        let f = format!("{root}/replays/{}-{seed:016x}.json", p.id);
        let _ = std::fs::remove_file(&f);
        println!("run {i} (seed {seed}): {oracle}: {msg}");
        let mut done = false;
        if !seed_only {
            let secs = if tier == "quick" { 40 } else { 120 };
            let c = Command::new(&exe).args(["shrink", p.id, &seed.to_string(), &f, &secs.to_string()]).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
            if let Ok(mut c) = c {
                let t = Instant::now();
                loop {
                    match c.try_wait() {
                        Ok(Some(st)) => {
                            done = st.code() == Some(0) && std::path::Path::new(&f).exists();
                            break;
                        }
                        Ok(None) if t.elapsed().as_secs() < secs + 200 => std::thread::sleep(Duration::from_millis(20)),
                        _ => {
                            let _ = c.kill();
                            let _ = c.wait();
                            break;
                        }
                    }
                }
            }
        }
        // A fresh process has to show it again. If it does not, something outlives the
        // runs of one process: find the earlier runs it takes.
        let again = |f: &str, rec: bool| {
            let mut c = Command::new(&exe);
            if rec {
                c.env("PATSIM_RECORD", "1");
            }
            let mut c = match c.args(["replay", f]).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
                Ok(c) => c,
                Err(_) => return false,
            };
            let t = Instant::now();
            loop {
                match c.try_wait() {
                    Ok(Some(st)) => return st.code() == Some(1),
                    Ok(None) if t.elapsed().as_secs() < 120 => std::thread::sleep(Duration::from_millis(5)),
                    _ => {
                        let _ = c.kill();
                        let _ = c.wait();
                        return false;
                    }
                }
            }
        };
        if done && !again(&f, false) {
            done = false;
        }
        if !done && !seed_only {
            done = trail(p, base, *i, workers, &f, oracle, msg, &again, Duration::from_secs(if tier == "quick" { 60 } else { 300 }));
        }
        if done {
            if let Ok(j) = std::fs::read_to_string(&f).map(|x| serde_json::from_str::<Value>(&x).unwrap_or_default()) {
                match j["before"].as_array() {
                    Some(b) => println!("needs {} earlier runs in the same process: {}", b.len(), j["message"].as_str().unwrap_or("")),
                    None => println!("minimised to {} choices: {}", j["choices"].as_array().map_or(0, |x| x.len()), j["message"].as_str().unwrap_or("")),
                }
                for l in j["trace"].as_array().unwrap_or(&vec![]).iter().take(60) {
                    println!("    {}", l.as_str().unwrap_or(""));
                }
            }
        } else {
            let j = json!({"property": p.id, "seed": seed, "oracle": oracle, "message": msg, "choices": Value::Null, "trace": []});
            let _ = std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap());
        }
        println!("VIOLATION property={} replay={f}", p.id);
    }

    // evidence
    let n = s.counters.get("runs").copied().unwrap_or(0);
    let pre = |x: &str| -> BTreeMap<String, u64> { s.counters.iter().filter(|(k, _)| k.starts_with(x)).map(|(k, v)| (k[x.len()..].to_string(), *v)).collect() };
    let mut sample = vec![];
    for i in 0..2u64.min(runs) {
        if let Some(o) = (s.worst.is_none()).then(|| start(Plan::Seed(run_seed(base, p.id, i)), true, p.f).wait(HANG)).flatten() {
            sample.push(json!({"run": i, "seed": run_seed(base, p.id, i), "digest": format!("{:016x}", o.digest), "events": o.events, "trace": o.trace.iter().take(40).collect::<Vec<_>>()}));
        }
    }
    if let Some((i, o, m, _)) = &s.worst {
        sample.push(json!({"run": i, "violated": o, "message": m}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": s.digests.len(),
            "rule": format!("{}; drawn by a generator seeded from (VERIF_SEED, property, run index). Distinct = distinct 64-bit digest of the run's event log (operations, faults, thread switches); non-trivial = at least 5 events", p.rule),
            "samples": sample,
            "runs_per_hour": (n as f64 / explore.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (n as f64 / explore.max(0.001) * 3600.0) as u64,
            "simulated_events": s.counters.get("steps").copied().unwrap_or(0),
            "choices_drawn": s.counters.get("choices").copied().unwrap_or(0),
            "simulated_network_time": s.counters.get("sim.time").copied().unwrap_or(0),
            "scheduling_points": s.counters.get("sched.steps").copied().unwrap_or(0),
            "thread_switches": s.counters.get("sched.switches").copied().unwrap_or(0),
            "runs_with_a_fault": s.counters.get("runs.with_fault").copied().unwrap_or(0),
            "faults_fired": pre("fault."),
            "checks_and_probes": s.counters.iter().filter(|(k, _)| ["check.", "op.", "net.", "probe.", "run."].iter().any(|x| k.starts_with(x))).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>(),
            "stopped_by_wall_clock": s.capped,
            "worker_processes": workers,
            "real_components": p.real,
            "simulated_components": p.stub,
            "known_findings_hit": known_lines,
        },
        "assumptions": [
            "the reference models in /verif/sim/src are right",
            "a record write or read is atomic; batches are not",
            "sampling: a clean batch is evidence, not proof",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("ERROR cannot write evidence: {e}");
        return TROUBLE;
    }
    println!("{n} runs, {} distinct, {} events, {:.1} s; faults {:?}", s.digests.len(), s.counters.get("steps").copied().unwrap_or(0), wall, pre("fault."));
    if violations > 0 {
        1
    } else {
        0
    }
}

/// Look for a short list of this worker's earlier runs after which run `i` fails in
/// a process of its own, and write it down.
fn trail(p: &Prop, base: u64, i: u64, stride: u64, f: &str, oracle: &str, msg: &str, again: &dyn Fn(&str, bool) -> bool, budget: Duration) -> bool {
    let t0 = Instant::now();
    let all: Vec<u64> = (0..i / stride).map(|n| run_seed(base, p.id, i % stride + n * stride)).collect();
    let write = |before: &[u64]| {
        let j = json!({"property": p.id, "seed": run_seed(base, p.id, i), "oracle": oracle, "message": msg, "choices": Value::Null, "before": before, "trace": []});
        std::fs::write(f, serde_json::to_string_pretty(&j).unwrap()).is_ok()
    };
    let fails = |before: &[u64]| write(before) && again(f, false);
    let mut n = 0;
    let mut best = loop {
        let b = all[all.len() - n.min(all.len())..].to_vec();
        if fails(&b) {
            break b;
        }
        if n >= all.len() {
            return false;
        }
        n = (n * 4).max(1);
    };
    let mut n = best.len().div_ceil(2);
    while n >= 1 && !best.is_empty() {
        let mut k = 0;
        while k < best.len() && t0.elapsed() < budget {
            let mut c = best.clone();
            c.drain(k..(k + n).min(c.len()));
            if fails(&c) {
                best = c;
            } else {
                k += n;
            }
        }
        n /= 2;
    }
    write(&best) && again(f, true) && again(f, false)
}

fn note(s: &mut Shared, i: u64, oracle: &str, msg: &str, seed_only: bool) {
    if s.worst.as_ref().map_or(true, |x| i < x.0) {
        s.worst = Some((i, oracle.into(), msg.into(), seed_only));
    }
}

/// The simulated locks and hash seeds really are the ones in use.
fn selftest() -> Result<(), String> {
    let got = Arc::new(Mutex::new((0u64, vec![])));
    let g = got.clone();
    let o = start(Plan::Seed(7), false, move || {
        let l = Arc::new(parking_lot::RwLock::new(0));
        let m = Arc::new(stdseam::sync::Mutex::new(0));
        let a = Arc::new(stdseam::sync::atomic::AtomicU64::new(0));
        let s0 = sched_steps();
        let fns: Vec<Box<dyn FnOnce() -> R + Send>> = (0..2)
            .map(|_| {
                let l = l.clone();
                let (m, a) = (m.clone(), a.clone());
                Box::new(move || {
                    for _ in 0..10 {
                        *l.write() += 1;
                        *m.lock().unwrap() += 1;
                        a.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    }
                    Ok(())
                }) as Box<dyn FnOnce() -> R + Send>
            })
            .collect();
        run_threads(fns)?;
        g.lock().unwrap().0 = sched_steps() - s0;
        Ok(())
    })
    .wait(HANG)
    .ok_or("self-test hangs")?;
    if o.violation.is_some() {
        return Err(format!("{:?}", o.violation));
    }
    if got.lock().unwrap().0 < 60 {
        return Err("lock operations do not reach the scheduler".into());
    }
    for seed in [1u64, 2, 1] {
        let g = got.clone();
        start(Plan::Seed(seed), false, move || {
            let mut h = hashbrown::HashMap::new();
            let mut s = std::collections::HashMap::new();
            for i in 0..40u64 {
                h.insert(i, ());
                s.insert(i, ());
            }
            g.lock().unwrap().1.push((h.keys().copied().collect::<Vec<_>>(), s.keys().copied().collect::<Vec<_>>()));
            Ok(())
        })
        .wait(HANG)
        .ok_or("self-test hangs")?;
    }
    let v = &got.lock().unwrap().1;
    if v[0] != v[2] || v[0].0 == v[1].0 || v[0].1 == v[1].1 {
        return Err("hash-table order is not decided by the seed".into());
    }
    Ok(())
}
