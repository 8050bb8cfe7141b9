//! The search over seeds: worker processes, watchdog, minimisation, evidence.

use crate::check::*;
use crate::env;
use crate::gen;
use crate::judge::{judge, PROPERTIES};
use crate::minimise::minimise;
use crate::ops::*;
use crate::replay::*;
use crate::rng::mix;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(60);

fn number(property: &str) -> u64 { PROPERTIES.iter().position(|p| *p == property).unwrap_or(99) as u64 }
pub fn case_seed(property: &str, base: u64, index: u64) -> u64 { mix(&[base, number(property), index]) }

fn root() -> PathBuf {
    match std::env::var("SIM_ROOT") { Ok(r) => PathBuf::from(r), Err(_) => PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf() }
}

// ---------------------------------------------------------------------------------------------
// Child processes. They talk to their parent through what standard error was before it (like standard output) got simulated.

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

extern "C" { fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32; }

fn prepare_child() {
    env::simulate_console();
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<&str>().is_none() && info.payload().downcast_ref::<String>().is_none() { return; }
        if let (Ok(mut s), Some(l)) = (LAST_PANIC.lock(), info.location()) { *s = format!("{}:{}", l.file(), l.line()); }
    }));
    // Runaway allocations end this process and not others.
    unsafe { setrlimit(9, &[6 << 30, 6 << 30]); }
}

fn say(line: &str) {
    env::report(format!("@@{}\n", one_line(line)).as_bytes());
}

fn guarded(property: &str, seed: u64, evs: &[Ev], stats: &mut Stats) -> Result<(), Violation> {
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(property, seed, evs, stats))) {
        Ok(r) => r,
        Err(p) => {
            let text = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
            bad("panic", format!("the execution panicked: {}", text))
        }
    };
    match r {
        Err(mut v) if v.class == "panic" => { v.text = format!("{} (at {})", v.text, LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()); Err(v) }
        r => r,
    }
}

fn history_digest(evs: &[Ev]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for e in evs { for b in e.op.text().bytes() { h ^= b as u64; h = h.wrapping_mul(0x100_0000_01b3); } }
    h
}

/// worker <property> <base seed> <first> <stride> <count> <seconds>
pub fn worker(args: &[String]) {
    prepare_child();
    let property = args[0].as_str();
    let n: Vec<u64> = args[1..].iter().map(|x| x.parse().expect("number")).collect();
    let (base, first, stride, count, seconds) = (n[0], n[1], n[2], n[3], n[4]);
    let end = Instant::now() + Duration::from_secs(seconds);
    let mut stats = Stats::default();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut cases = 0;
    let mut index = first;
    let mut slowest = (0.0f64, 0u64);
    while index < count && Instant::now() < end {
        say(&format!("S {}", index));
        let began = Instant::now();
        let seed = case_seed(property, base, index);
        let evs = gen::make(property, seed);
        let before = stats.evals;
        let result = guarded(property, seed, &evs, &mut stats);
        cases += 1;
        if stats.evals > before { nontrivial.insert(history_digest(&evs)); }
        let t = began.elapsed().as_secs_f64();
        if t > slowest.0 { slowest = (t, index); }
        if let Err(v) = result {
            say(&format!("V {} {} {}", index, v.class, v.text));
            if std::env::var("SIM_ALL").is_err() { break; }
        }
        index += stride;
    }
    for (k, v) in &stats.counts { say(&format!("C {} {}", v, k)); }
    let mut line = String::new();
    for (k, set) in [("H", &stats.shapes), ("N", &nontrivial)] {
        for (i, h) in set.iter().enumerate() {
            line += &format!(" {:x}", h);
            if i % 500 == 499 { say(&format!("{}{}", k, line)); line.clear(); }
        }
        if !line.is_empty() { say(&format!("{}{}", k, line)); line.clear(); }
    }
    say(&format!("E {} {} {} {} {} {} {} {}", cases, stats.executions, stats.events, stats.frames, stats.sim_time, stats.evals, slowest.0, slowest.1));
}

/// judge1 <file>: runs one replay file.
pub fn judge1(args: &[String]) {
    prepare_child();
    let r = Replay::parse(&std::fs::read_to_string(&args[0]).expect("replay file")).expect("replay file");
    match guarded(&r.property, r.seed, &r.evs, &mut Stats::default()) {
        Ok(()) => say("OK"),
        Err(v) => say(&format!("V 0 {} {}", v.class, v.text)),
    }
}

/// shrink <file in> <file out> <seconds>
pub fn shrink(args: &[String]) {
    prepare_child();
    let mut r = Replay::parse(&std::fs::read_to_string(&args[0]).expect("replay file")).expect("replay file");
    let seconds = args[2].parse().expect("number");
    let (property, seed, class) = (r.property.clone(), r.seed, r.class.clone());
    let mut fails = |evs: &[Ev]| -> bool { matches!(guarded(&property, seed, evs, &mut Stats::default()), Err(v) if v.class == class) };
    r.evs = minimise(r.evs, Duration::from_secs(seconds), &mut fails);
    if let Err(v) = guarded(&property, seed, &r.evs, &mut Stats::default()) { r.text = v.text; }
    std::fs::write(&args[1], r.text()).expect("replay file");
    say("OK");
}

// ---------------------------------------------------------------------------------------------

fn child(args: &[&str]) -> Child {
    Command::new(std::env::current_exe().expect("own path")).args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("child process")
}

/// Runs a file in a process of its own.
fn run_file(path: &Path, limit: Duration) -> Option<Violation> {
    let mut c = child(&["judge1", path.to_str().unwrap()]);
    let err = c.stderr.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || { for line in BufReader::new(err).lines().map_while(Result::ok) { if tx.send(line).is_err() { break; } } });
    let end = Instant::now() + limit;
    loop {
        let left = end.saturating_duration_since(Instant::now());
        if left.is_zero() {
            let _ = c.kill();
            let _ = c.wait();
            return Some(Violation { class: "hang".into(), text: format!("the execution doesn't end (not within {} seconds)", HANG.as_secs()) });
        }
        match rx.recv_timeout(left) {
            Ok(line) => {
                if line == "@@OK" { let _ = c.wait(); return None; }
                if let Some(rest) = line.strip_prefix("@@V ") {
                    let mut it = rest.splitn(3, ' ');
                    it.next();
                    let v = Violation { class: it.next().unwrap_or("").into(), text: it.next().unwrap_or("").into() };
                    let _ = c.wait();
                    return Some(v);
                }
            }
            Err(RecvTimeoutError::Timeout) => {}
            Err(RecvTimeoutError::Disconnected) => {
                let _ = c.wait();
                return Some(Violation { class: "abort".into(), text: "the execution ended the whole process".into() });
            }
        }
    }
}

struct Found { index: u64, v: Violation }

#[derive(Default)]
struct Total {
    stats: Stats,
    cases: u64,
    nontrivial: HashSet<u64>,
    slowest: (f64, u64),
    finished: usize,
}

/// check <property> <tier>
pub fn check(property: &str, tier: &str) -> i32 {
    let began = Instant::now();
    if !PROPERTIES.contains(&property) { eprintln!("unknown property {}", property); return 2; }
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let (mut count, mut seconds) = budget(property, thorough);
    if let Some(n) = std::env::var("SIM_COUNT").ok().and_then(|s| s.parse().ok()) { count = n; }
    if let Some(n) = std::env::var("SIM_SECONDS").ok().and_then(|s| s.parse().ok()) { seconds = n; }
    let all = std::env::var("SIM_ALL").is_ok();
    let mut listed: BTreeMap<String, u64> = BTreeMap::new();
    let workers = std::env::var("SIM_PROCS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)).clamp(1, 16) as u64;
    let (tx, rx) = channel::<(usize, Option<String>)>();
    let mut children = Vec::new();
    for w in 0..workers {
        let numbers: Vec<String> = [base, w, workers, count, seconds].iter().map(|x| x.to_string()).collect();
        let mut args = vec!["worker", property];
        args.extend(numbers.iter().map(|s| s.as_str()));
        let mut c = child(&args);
        let err = c.stderr.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for line in BufReader::new(err).lines() {
                match line { Ok(l) => if tx.send((w as usize, Some(l))).is_err() { return; }, Err(_) => break }
            }
            let _ = tx.send((w as usize, None));
        });
        children.push(c);
    }
    drop(tx);
    let n = workers as usize;
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
    let mut done = vec![false; n];
    let mut ended = vec![false; n];
    let mut total = Total::default();
    let mut found: Option<Found> = None;
    let mut report = |f: Found, found: &mut Option<Found>| {
        if all { let n = listed.entry(f.v.class.clone()).or_insert(0); *n += 1; if *n < 4 { println!("case {} (seed {}): {}: {}", f.index, case_seed(property, base, f.index), f.v.class, f.v.text.chars().take(600).collect::<String>()); } }
        if found.as_ref().map(|x| f.index < x.index).unwrap_or(true) { *found = Some(f); }
    };
    while !done.iter().all(|x| *x) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((w, None)) => {
                if !done[w] {
                    done[w] = true;
                    let status = children[w].wait();
                    if !ended[w] {
                        let how = status.map(|s| format!("{}", s)).unwrap_or_default();
                        report(Found { index: last[w].0, v: Violation { class: "abort".into(), text: format!("the execution ended the whole process ({})", how) } }, &mut found);
                    }
                }
            }
            Ok((w, Some(line))) => {
                let line = match line.strip_prefix("@@") { Some(l) => l, None => { if std::env::var("SIM_DEBUG").is_ok() { eprintln!("{}", line) } continue } };
                let (kind, rest) = line.split_once(' ').unwrap_or((line, ""));
                match kind {
                    "S" => {
                        last[w] = (rest.parse().unwrap_or(0), Instant::now());
                        // Whoever is past the earliest violation can stop.
                        if !all && found.as_ref().map(|f| last[w].0 > f.index).unwrap_or(false) && !done[w] {
                            let _ = children[w].kill();
                            let _ = children[w].wait();
                            done[w] = true;
                        }
                    }
                    "V" => {
                        let mut it = rest.splitn(3, ' ');
                        let index = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                        let v = Violation { class: it.next().unwrap_or("").into(), text: it.next().unwrap_or("").into() };
                        report(Found { index, v }, &mut found);
                    }
                    "C" => if let Some((v, k)) = rest.split_once(' ') { total.stats.count(k, v.parse().unwrap_or(0)) },
                    "H" | "N" => {
                        let set = if kind == "H" { &mut total.stats.shapes } else { &mut total.nontrivial };
                        for h in rest.split(' ') { if let Ok(x) = u64::from_str_radix(h, 16) { set.insert(x); } }
                        last[w].1 = Instant::now();
                    }
                    "E" => {
                        let x: Vec<f64> = rest.split(' ').map(|s| s.parse().unwrap_or(0.0)).collect();
                        if x.len() == 8 {
                            total.cases += x[0] as u64;
                            total.stats.executions += x[1] as u64;
                            total.stats.events += x[2] as u64;
                            total.stats.frames += x[3] as u64;
                            total.stats.sim_time += x[4];
                            total.stats.evals += x[5] as u64;
                            if x[6] > total.slowest.0 { total.slowest = (x[6], x[7] as u64); }
                        }
                        total.finished += 1;
                        ended[w] = true;
                    }
                    _ => {}
                }
            }
            Err(RecvTimeoutError::Timeout) => {}
            Err(RecvTimeoutError::Disconnected) => break,
        }
        for w in 0..n {
            if !done[w] && last[w].1.elapsed() > HANG {
                let _ = children[w].kill();
                let _ = children[w].wait();
                done[w] = true;
                if !ended[w] { report(Found { index: last[w].0, v: Violation { class: "hang".into(), text: format!("the execution doesn't end (not within {} seconds)", HANG.as_secs()) } }, &mut found); }
            }
        }
    }
    let search = began.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut replay_path = None;
    if let (Some(f), false) = (&found, all) {
        violations = 1;
        replay_path = Some(record(property, base, f, thorough));
    }
    let wall = began.elapsed().as_secs_f64();
    write_evidence(property, tier, base, &total, search, wall, violations, workers, count, replay_path.as_ref());
    println!("{}: {} cases, {} executions, {} events, {} frames, {:.0} simulated seconds, {} judgements, {} distinct shapes, {:.1} s (slowest case {:.2} s: {})", property, total.cases, total.stats.executions, total.stats.events, total.stats.frames, total.stats.sim_time, total.stats.evals, total.stats.shapes.len(), wall, total.slowest.0, total.slowest.1);
    if all {
        println!("    {:?}", listed);
        for (k, v) in &total.stats.counts { println!("    {} {}", v, k); }
        return found.is_some() as i32;
    }
    match (replay_path, found) {
        (Some((path, text)), Some(f)) => {
            println!("{}: case {} (seed {}) violates it: {}", property, f.index, case_seed(property, base, f.index), text);
            println!("VIOLATION property={} replay={}", property, path.display());
            1
        }
        _ => 0,
    }
}

/// Minimises a violation and writes its replay file.
fn record(property: &str, base: u64, f: &Found, thorough: bool) -> (PathBuf, String) {
    let seed = case_seed(property, base, f.index);
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let full = dir.join(format!("{}-{:016x}-full.replay", property, seed));
    let path = dir.join(format!("{}-{:016x}.replay", property, seed));
    let evs = gen::make(property, seed);
    let r = Replay { property: property.into(), seed, class: f.v.class.clone(), text: f.v.text.clone(), evs };
    std::fs::write(&full, r.text()).expect("replay file");
    let seconds = if thorough { 120 } else { 30 };
    let _ = std::fs::remove_file(&path);
    if f.v.class == "hang" || f.v.class == "abort" {
        let trial = dir.join(format!("{}-{:016x}-trial.replay", property, seed));
        let limit = if f.v.class == "hang" { Duration::from_secs(5) } else { HANG };
        let class = f.v.class.clone();
        let mut fails = |evs: &[Ev]| -> bool {
            let t = Replay { property: property.into(), seed, class: class.clone(), text: String::new(), evs: evs.to_vec() };
            if std::fs::write(&trial, t.text()).is_err() { return false; }
            matches!(run_file(&trial, limit), Some(v) if v.class == class)
        };
        let small = minimise(r.evs.clone(), Duration::from_secs(2 * seconds), &mut fails);
        let _ = std::fs::remove_file(&trial);
        let t = Replay { evs: small, ..r };
        let _ = std::fs::write(&path, t.text());
    } else {
        let s = seconds.to_string();
        let mut c = child(&["shrink", full.to_str().unwrap(), path.to_str().unwrap(), &s]);
        let err = c.stderr.take().unwrap();
        std::thread::spawn(move || { let mut sink = std::io::sink(); let _ = std::io::copy(&mut BufReader::new(err), &mut sink); });
        let end = Instant::now() + Duration::from_secs(seconds * 2 + 60);
        loop {
            match c.try_wait() {
                Ok(Some(_)) => break,
                _ if Instant::now() > end => { let _ = c.kill(); let _ = c.wait(); break }
                _ => std::thread::sleep(Duration::from_millis(20)),
            }
        }
    }
    // The small one has to fail again, in a process of its own, exactly as it says.
    if let Ok(text) = std::fs::read_to_string(&path) {
        if let Ok(small) = Replay::parse(&text) {
            if let Some(v) = run_file(&path, HANG) {
                if v.class == small.class && (v.class == "hang" || v.class == "abort" || one_line(&v.text) == small.text) {
                    let _ = std::fs::remove_file(&full);
                    return (path, format!("{}: {}", v.class, v.text));
                }
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    (full, format!("{}: {}", f.v.class, f.v.text))
}

/// replay <file>
pub fn replay(path: &str) -> i32 {
    let r = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| Replay::parse(&t)) { Ok(r) => r, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    match run_file(Path::new(path), HANG) {
        None => { println!("the property {} holds on this execution ({} events)", r.property, r.evs.len()); 0 }
        Some(v) => {
            println!("{}: {}", v.class, v.text);
            println!("{}", if v.class == r.class && one_line(&v.text) == r.text { "exactly as recorded" } else { "but recorded was:" });
            if !(v.class == r.class && one_line(&v.text) == r.text) { println!("{}: {}", r.class, r.text); }
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
    }
}

/// How many cases, and the most seconds to spend on them.
fn budget(property: &str, thorough: bool) -> (u64, u64) {
    let quick = match property {
        "C14" => 30_000,
        "C10" | "C12" | "C13" | "C18" | "C19" => 40_000,
        _ => 60_000,
    };
    if thorough { (quick * 20, 800) } else { (quick, 150) }
}

// ---------------------------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(property: &str, tier: &str, base: u64, t: &Total, search: f64, wall: f64, violations: u64, workers: u64, count: u64, replay: Option<&(PathBuf, String)>) {
    let s = &t.stats;
    let group = |prefix: &str| -> String {
        let items: Vec<String> = s.counts.iter().filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| format!("{}: {}", js(k.trim()), v))).collect();
        format!("{{{}}}", items.join(", "))
    };
    let hours = (search / 3600.0).max(1e-9);
    let mut samples = Vec::new();
    for index in [0u64, 1, 2] {
        let seed = case_seed(property, base, index);
        let evs = gen::make(property, seed);
        let shown: Vec<String> = evs.iter().take(14).map(|e| js(&e.text())).collect();
        samples.push(format!("{{\"case\": {}, \"seed\": {}, \"events\": {}, \"first_events\": [{}]}}", index, js(&seed.to_string()), evs.len(), shown.join(", ")));
    }
    let mut c: Vec<(String, String)> = Vec::new();
    c.push(("evaluations".into(), t.cases.to_string()));
    c.push(("distinct_nontrivial".into(), t.nontrivial.len().to_string()));
    c.push(("rule".into(), js("Each case is a history made by a seeded discrete-event simulation of clients, their links, the frame clock and faults; it counts as non-trivial if the property's oracle had something to judge in it, and as distinct by the digest of its events.")));
    c.push(("samples".into(), format!("[{}]", samples.join(", "))));
    c.push(("seeds_per_hour".into(), format!("{:.0}", t.cases as f64 / hours)));
    c.push(("executions".into(), s.executions.to_string()));
    c.push(("executions_per_hour".into(), format!("{:.0}", s.executions as f64 / hours)));
    c.push(("judgements".into(), s.evals.to_string()));
    c.push(("events_delivered".into(), s.events.to_string()));
    c.push(("frames".into(), s.frames.to_string()));
    c.push(("simulated_seconds".into(), format!("{:.3}", s.sim_time)));
    c.push(("distinct_world_shapes".into(), s.shapes.len().to_string()));
    c.push(("shape_measure".into(), js("digest of (which objects exist, links, sleep flags, which pairs are in the contact log), i.e. the discrete part of a world's state")));
    c.push(("events_by_kind".into(), group("event ")));
    c.push(("faults_injected".into(), group("fault ")));
    c.push(("probes".into(), group("probe ")));
    c.push(("real_components".into(), js("the whole fluffy_tribble crate, compiled unmodified from /repo: PhysicsSystem, Entity, all colliders, collision detection, Orientation, Range, GravityGenerator, and the generational-arena and nalgebra crates")));
    c.push(("stubs".into(), js("force callbacks other than GravityGenerator (simulated user code), getrandom (hash keys from the seed), clock_gettime (an erratic clock from the seed, which the code on the unchanged tree never reads), write/writev on file descriptor 1 (simulated sink), the frame clock and the clients (simulator)")));
    c.push(("workers".into(), workers.to_string()));
    c.push(("cases_planned".into(), count.to_string()));
    if let Some((p, text)) = replay { c.push(("replay".into(), js(&p.display().to_string()))); c.push(("violation".into(), js(text))); }
    let coverage: Vec<String> = c.iter().map(|(k, v)| format!("    {}: {}", js(k), v)).collect();
    let json = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        js(property), js(if tier == "thorough" { "thorough" } else { "quick" }), base, coverage.join(",\n"),
        js("single precision results are judged within tolerances derived from the magnitudes involved; situations too close to call are skipped"), wall, violations
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", property)), json) { eprintln!("evidence: {}", e); }
}

/// show <property> <seed>
pub fn show(property: &str, seed: u64) -> i32 {
    let evs = gen::make(property, seed);
    print!("{}", Replay { property: property.into(), seed, class: "?".into(), text: "?".into(), evs }.text());
    0
}

/// Prints what happens in a replay file, event by event.
pub fn trace(path: &str) -> i32 {
    let r = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| Replay::parse(&t)) { Ok(r) => r, Err(e) => { eprintln!("{}", e); return 2 } };
    let mut text = String::new();
    let evs = r.evs.clone();
    let result = crate::check::isolated(1, move || {
        let mut text = String::new();
        let mut stats = crate::check::Stats::default();
        let result = crate::check::play(&evs, &mut [], &mut stats, false, Some(&mut |i: usize, out: &crate::world::Outcome, o: &crate::world::Obs| {
            text += &format!("{}: {} -> {:?}\n", i, evs[i].op.text(), out.ret);
            if !matches!(evs[i].op, crate::ops::Op::Step { .. }) && i + 1 < evs.len() { return; }
            for e in o.ents.values() { text += &format!("    e{} pos {:?} vel {:?} ang {:?} q {:?} m {:?}{}{:?}\n", e.id, e.pos.data, e.vel.data, e.ang.data, e.quat, e.total, if e.asleep { " asleep " } else { " " }, e.cols); }
            for k in &o.recs { text += &format!("    contact e{} e{} at {:?} time {:?} normal {:?} e {:?} impulse {:?}\n", k.a, k.b, k.pos.data, k.time, k.n.data, k.e, k.j); }
        }));
        (text, result.err().map(|v| v.text))
    });
    text += &result.0;
    crate::env::drain_stdout();
    print!("{}", text);
    if let Some(t) = result.1 { println!("{}", t); }
    0
}

#[allow(dead_code)]
pub type Counts = BTreeMap<String, u64>;
