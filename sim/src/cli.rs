//! Command line: check, replay, selftest.
use crate::props;
use crate::runner::*;
use crate::scen::*;
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| { let e = std::env::current_exe().unwrap(); let mut p = e.as_path(); while let Some(q) = p.parent() { if q.join("properties.jsonl").exists() { return q.to_string_lossy().into_owned(); } p = q } "/verif".into() }) }

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = root();
    std::env::set_var("TERMINFO", format!("{}/sim/terminfo", root));
    std::env::remove_var("TERMINFO_DIRS");
    setup_shm();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => check(&root, arg(2), arg(3)),
        "replay" => replay(arg(2)),
        "one" => { let sc = props::gen(arg(2), arg(3).parse().unwrap()); println!("{}", serde_json::to_string(&sc).unwrap()); let o = run(&sc, true); for l in &o.trace { println!("{}", l) } println!("{:?} hash {:016x} steps {}", o.verdict, o.hash, o.steps); 0 }
        "run" => { let sc: Scen = serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap(); let o = run(&sc, true); for l in &o.trace { println!("{}", l) } println!("{:?} hash {:016x} steps {}", o.verdict, o.hash, o.steps); 0 }
        "gen" => { for i in 0..arg(3).parse::<u64>().unwrap_or(100) { println!("{}", serde_json::to_string(&props::gen(arg(2), seed_for(1, i))).unwrap()) } 0 }
        "hashes" => hashes(arg(2), arg(3).parse().unwrap_or(100)),
        "bench" => {
            let t = Instant::now();
            let n: u64 = arg(3).parse().unwrap_or(1000);
            let mut cls: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            let key = |c: &str, m: &str| { let d: String = m.chars().filter(|c| !c.is_ascii_digit()).collect(); format!("{} {}", c, d.chars().take(48).collect::<String>()) };
            let hs: Vec<_> = (0..8u64).map(|j| { let (exe, id) = (std::env::current_exe().unwrap(), arg(2).to_string()); std::process::Command::new(exe).args(["bench1", &id, &n.to_string(), &j.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap() }).collect();
            for h in hs { let o = h.wait_with_output().unwrap(); for l in String::from_utf8_lossy(&o.stdout).lines() { let v: Vec<&str> = l.splitn(3, '\t').collect(); if v.len() == 3 { let e = cls.entry(key(v[0], v[2])).or_insert((0, v[1].parse().unwrap(), v[2].to_string())); e.0 += 1 } } }
            println!("{} runs in {:?}", n, t.elapsed()); for (c, (k, s, m)) in cls { println!("  {} x{} e.g. seed {}: {}", c.split(' ').next().unwrap(), k, s, m) } 0 }
        "bench1" => { let (n, j): (u64, u64) = (arg(3).parse().unwrap(), arg(4).parse().unwrap());
            for i in (0..n).filter(|i| i % 8 == j) { let sc = props::gen(arg(2), seed_for(1, i)); let t0 = Instant::now(); let o = run(&sc, false); if std::env::var("SIM_SLOW").is_ok() && t0.elapsed() > Duration::from_millis(300) { eprintln!("slow seed {} {:?} steps {}", sc.seed, t0.elapsed(), o.steps) } if let Some((c, m)) = o.verdict { println!("{}\t{}\t{}", c, sc.seed, m.replace('\n', " ")) } } 0 }
        "hunt" => { let (a0, b0): (u64, u64) = (arg(3).parse().unwrap(), arg(4).parse().unwrap()); let mut r = 0; for i in a0..b0 { let sc = props::gen(arg(2), seed_for(1, i)); let o = run(&sc, false); if let Some((c, m)) = o.verdict { println!("KILL {} {} run {} seed {}: {}", arg(2), c, i, sc.seed, m.replace('\n', " ")); r = 1; break; } } r }
        "min" => { let sc = props::gen(arg(2), arg(3).parse().unwrap()); let o = run(&sc, false); if let Some((c, _)) = &o.verdict { let (sc, n) = shrink(&sc, c, Duration::from_secs(20)); println!("{} runs\n{}", n, serde_json::to_string(&sc).unwrap()); let o = run(&sc, true); let mut prev = String::new(); for l in &o.trace { let k = l.splitn(2, ": iflag").nth(1).unwrap_or("").to_string(); if l.contains("   state at") { if k == prev { continue; } prev = k } else if l.contains("Skip") || l.contains(" Sw {") { continue; } println!("{}", l) } println!("{:?}", o.verdict) } 0 }
        _ => { eprintln!("usage: mortalsim check ID quick|thorough | replay FILE | one ID SEED | hashes ID N | bench ID N"); 2 }
    };
    std::process::exit(code);
}

fn hashes(prop: &str, n: u64) -> i32 {
    for i in 0..n { let sc = props::gen(prop, seed_for(1, i)); let a = run(&sc, false); let b = run(&sc, true); println!("{:016x} {:016x} {}", a.hash, b.hash, a.steps); if a.hash != b.hash || a.steps != b.steps || a.verdict != b.verdict { println!("NOT REPEATABLE seed {}", sc.seed); return 1; } }
    0
}

fn replay(f: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay file");
    let sc: Scen = serde_json::from_value(v["scenario"].clone()).expect("scenario");
    let o = run(&sc, true);
    for l in &o.trace { println!("{}", l) }
    let want = v["class"].as_str().unwrap_or("");
    match &o.verdict {
        None => { println!("the run shows no violation"); 0 }
        Some((c, m)) => {
            println!("violation ({}): {}", c, m);
            println!("execution hash {:016x}, recorded {}; class recorded {}", o.hash, v["hash"].as_str().unwrap_or("?"), want);
            println!("VIOLATION property={} replay={}", sc.prop, f);
            1
        }
    }
}

struct Finding { prop: String, file: String, text: String }
fn findings(root: &str) -> Vec<Finding> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    s.lines().filter_map(|l| {
        let l = l.strip_prefix("finding:")?.trim();
        let mut it = l.splitn(3, ' ');
        let prop = it.next()?.strip_prefix("property=")?.to_string();
        let file = it.next()?.strip_prefix("scenario=")?.to_string();
        Some(Finding { prop, file, text: it.next().unwrap_or("").to_string() })
    }).collect()
}

fn check(root: &str, prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 20 });
    let maxruns: u64 = if thorough { u64::MAX } else { 400_000 };
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let known = findings(root);
    let mut bad = false;
    // findings on record
    for f in known.iter().filter(|f| f.prop == prop) {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(format!("{}/{}", root, f.file)).expect("finding file")).expect("finding file");
        let sc: Scen = serde_json::from_value(v["scenario"].clone()).expect("finding scenario");
        let o = run(&sc, false);
        match o.verdict {
            Some((c, _)) if Some(c.as_str()) == v["class"].as_str() => println!("KNOWN-FINDING: property={} {}", prop, f.text),
            Some((c, m)) => { println!("finding scenario {} now fails differently ({}): {}", f.file, c, m); let (n, _) = write_replay(&format!("{}/replays", root), &sc, &c); println!("VIOLATION property={} replay={}", prop, n); bad = true }
            None => println!("note: recorded finding no longer fails: {}", f.text),
        }
    }
    // directed scenarios: regressions kept from earlier failures
    let mut reg = 0;
    if let Ok(d) = std::fs::read_dir(format!("{}/sim/regress/{}", root, prop)) {
        let mut fs: Vec<_> = d.flatten().map(|e| e.path()).collect();
        fs.sort();
        for p in fs {
            let v: serde_json::Value = match std::fs::read_to_string(&p).ok().and_then(|s| serde_json::from_str(&s).ok()) { Some(v) => v, None => continue };
            let sc: Scen = match serde_json::from_value(v["scenario"].clone()) { Ok(s) => s, Err(_) => continue };
            reg += 1;
            let o = run(&sc, false);
            if let Some((c, m)) = o.verdict { let (n, _) = write_replay(&format!("{}/replays", root), &sc, &c); println!("{}: {}", c, m); println!("VIOLATION property={} replay={}", prop, n); bad = true; break; }
        }
    }
    let cov = unsafe { cov_map() };
    let dl = t0 + Duration::from_secs(secs);
    let stop = unsafe { shared_flag() };
    let aggs = spawn_workers(nw, |k, a| {
        let mut i = k as u64;
        a.first = i;
        while Instant::now() < dl && i < maxruns && unsafe { std::ptr::read_volatile(stop) } == 0 {
            let sc = props::gen(prop, seed_for(base, i));
            let o = run(&sc, false);
            a.add_run(&sc, &o);
            if let Some((c, m)) = o.verdict {
                a.fails.push((sc.seed, c, m));
                if a.fails.len() >= 3 || !thorough { unsafe { std::ptr::write_volatile(stop, 1) } break; }
            }
            a.last = i;
            i += nw as u64;
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut t = Agg::default();
    for a in &aggs {
        t.runs += a.runs; t.nontrivial += a.nontrivial; t.sim_ns += a.sim_ns; t.steps += a.steps; t.switches += a.switches; t.ops += a.ops; t.writes += a.writes; t.events += a.events; t.injected += a.injected; t.multi += a.multi;
        for (k, v) in &a.faults { *t.faults.entry(k.clone()).or_insert(0) += v }
        for (k, v) in &a.terms { *t.terms.entry(k.clone()).or_insert(0) += v }
        hs.extend(&a.hashes);
        t.fails.extend(a.fails.iter().cloned());
        if t.samples.len() < 3 { t.samples.extend(a.samples.iter().take(1).cloned()) }
    }
    let mut violations = bad as u64;
    let mut seen: HashSet<String> = HashSet::new();
    t.fails.sort();
    for (seed, c, m) in &t.fails {
        if c == "internal" { println!("internal error: {}", m); return 3; }
        if !seen.insert(c.clone()) { continue; }
        violations += 1;
        println!("property {} violated ({}), seed {}: {}", prop, c, seed, m);
        let sc = props::gen(prop, *seed);
        let (small, tried) = shrink(&sc, c, Duration::from_secs(if thorough { 120 } else { 40 }));
        let (name, o) = write_replay(&format!("{}/replays", root), &small, c);
        println!("minimised over {} runs: {}", tried, o.verdict.map_or("?".into(), |v| v.1));
        println!("VIOLATION property={} replay={}", prop, name);
        bad = true;
    }
    let edges = unsafe { let n = crate::sys::NGUARD as usize; (n, (1..=n).filter(|i| *cov.add(*i) != 0).count()) };
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<serde_json::Value> = t.samples.iter().map(|s| serde_json::from_str(s).unwrap_or(serde_json::Value::Null)).collect();
    let ev = serde_json::json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": hs.len(),
            "rule": "one evaluation is one simulated run, generated from one seed; non-trivial: at least two operations and at least one injected fault, event or preemption, or more than two thread switches; distinct: by a hash over the sequence of operation begins and ends, thread switches, triggers, signal deliveries, device reads and writes with their sizes",
            "samples": samples,
            "runs_per_hour": (t.runs as f64 / search_s * 3600.0) as u64,
            "seeds": t.runs,
            "regression_scenarios_rerun": reg,
            "simulated_seconds": (t.sim_ns / 1_000_000_000) as u64,
            "operations": t.ops, "device_writes": t.writes, "thread_switches": t.switches, "instrumented_edges_executed": t.steps,
            "multi_threaded_runs": t.multi,
            "fault_and_event_kinds_fired": t.faults,
            "runs_per_terminal_type": t.terms,
            "edges_of_mortal_reached": edges.1, "edges_of_mortal_instrumented": edges.0,
            "real_code": ["mortal (all of src for unix, unmodified, instrumented by the compiler)", "terminfo database parser and expansion", "nix wrappers", "std Mutex, thread-locals, panic and unwinding", "unicode tables"],
            "stubbed": ["system calls on terminals, descriptors, signals, futexes and clocks (simulated kernel)", "thread scheduler (baton, seeded)", "terminal device (emulator)"],
        },
        "assumptions": ["the simulated kernel implements the POSIX/Linux behaviour of the calls mortal makes", "preemption and signals happen at control-flow edges, accesses to static memory and system calls of mortal, not inside its dependencies", "memory is sequentially consistent (x86-like); weaker orderings of atomics are not simulated"],
        "wall_s": wall, "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} runs, {} distinct non-trivial, {} of {} edges, {:.1} s", prop, tier, t.runs, hs.len(), edges.1, edges.0, wall);
    if t.runs == 0 && !bad { println!("no runs were made"); return 3; }
    if bad { 1 } else { 0 }
}
