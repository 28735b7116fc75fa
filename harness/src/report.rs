//! Running a property's families and parts, evidence, replay files.
use crate::codec::{self, Part};
use crate::explore::*;
use crate::logs::{self, LOGGED};
use crate::props;
use crate::sim::{execute, PANIC};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ allocation monitor
/// Remembers the largest single allocation a thread asked for, and refuses absurd ones before the system has to.
pub struct Counting;
thread_local! { static LARGEST: Cell<usize> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
#[inline]
fn note(n: usize) {
    if n > 1 << 20 {
        let _ = LARGEST.try_with(|c| c.set(c.get().max(n)));
    }
}
#[global_allocator]
static A: Counting = Counting;
/// far more than any 64 KiB frame can justify
const ALLOC_LIMIT: usize = 4 << 20;

// ------------------------------------------------------------------ codec parts
#[derive(Default)]
pub struct PStats {
    pub evals: u64,
    pub nontrivial: u64,
    pub capped: bool,
    pub samples: Vec<String>,
}
pub fn one_case(p: &Part, i: u64) -> codec::R {
    LARGEST.with(|c| c.set(0));
    PANIC.with(|c| *c.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.f)(i)));
    match r {
        Err(_) => {
            let m = PANIC.with(|c| c.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
        Ok(r) => {
            let big = LARGEST.with(|c| c.get());
            if big > ALLOC_LIMIT {
                return Err(format!("reserved {big} bytes for one input"));
            }
            r
        }
    }
}
/// Runs every case of a part; the violation with the smallest index wins.
pub fn run_part(p: &Part, threads: usize, st: &mut PStats, deadline: Instant, on_hang: &(dyn Fn(u64) + Sync)) -> Option<(u64, String)> {
    let next = AtomicU64::new(0);
    let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let (evals, nontriv) = (AtomicU64::new(0), AtomicU64::new(0));
    let cur: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let chunk = (p.n / (threads as u64 * 16)).clamp(1, 4096);
    std::thread::scope(|sc| {
        let (stop, done, found, next, evals, nontriv, cur) = (&stop, &done, &found, &next, &evals, &nontriv, &cur);
        sc.spawn(move || {
            let mut last: Vec<(u64, Instant)> = cur.iter().map(|c| (c.load(Ordering::Relaxed), Instant::now())).collect();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(2));
                if Instant::now() > deadline {
                    stop.store(true, Ordering::Relaxed);
                }
                for (i, c) in cur.iter().enumerate() {
                    let v = c.load(Ordering::Relaxed);
                    if v != last[i].0 || v == u64::MAX {
                        last[i] = (v, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(60) {
                        on_hang(v);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    let (mut e, mut k) = (0u64, 0u64);
                    while !stop.load(Ordering::Relaxed) {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= p.n {
                            break;
                        }
                        for i in a..(a + chunk).min(p.n) {
                            cur[t].store(i, Ordering::Relaxed);
                            e += 1;
                            match one_case(p, i) {
                                Ok(true) => k += 1,
                                Ok(false) => (),
                                Err(m) => {
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map_or(true, |(j, _)| i < *j) {
                                        *g = Some((i, m));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                    }
                    cur[t].store(u64::MAX, Ordering::Relaxed);
                    evals.fetch_add(e, Ordering::Relaxed);
                    nontriv.fetch_add(k, Ordering::Relaxed);
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let e = evals.into_inner();
    st.evals += e;
    st.nontrivial += nontriv.into_inner();
    let f = found.into_inner().unwrap();
    if f.is_none() && e < p.n {
        st.capped = true;
    }
    for i in [p.n / 3, p.n.saturating_sub(1)].into_iter().filter(|i| *i < p.n) {
        let mut s = format!("{}: {}", p.name, (p.show)(i));
        if s.len() > 300 {
            s = s.chars().take(300).collect::<String>() + "...";
        }
        st.samples.push(s);
    }
    f
}

// ------------------------------------------------------------------ commands
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16)
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}
pub struct Found {
    pub unit: String,
    pub kind: &'static str,
    pub choices: String,
    pub msg: String,
    pub trace: Vec<String>,
}
fn write_replay(id: &str, tier: &str, f: &Found) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.txt");
    let mut s = format!("property: {id}\ntier: {tier}\nkind: {}\nunit: {}\nchoices: {}\nmessage: {}\n\n", f.kind, f.unit, f.choices, f.msg.replace('\n', " "));
    for l in &f.trace {
        s += l;
        s.push('\n');
    }
    let _ = std::fs::write(&path, s);
    path
}
const ASSUME_T: &[&str] = &[
    "the real code of /repo runs on a vendored tokio whose task scheduler, select! order, UDP sockets and clock are driven by the checker; tokio's channels, mutexes and timers are the original code",
    "tokio tasks are interleaved at await points (the crate forbids nothing else: it has no unsafe code and no threads of its own)",
    "a datagram is delivered whole or not at all",
];
const ASSUME_C: &[&str] = &["the public functions are deterministic functions of their arguments, so one call per input decides it"];

struct Report {
    id: String,
    tier: &'static str,
    start: Instant,
    st: Stats,
    ps: PStats,
    units: Vec<String>,
    notes: Vec<String>,
}
fn write_evidence(r: &Report, violations: u32) {
    let level = if props::is_codec(&r.id) { "exploration" } else { "model_checking" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut samples = r.st.samples.clone();
    samples.truncate(8);
    samples.extend(r.ps.samples.iter().take(12).cloned());
    let exhaustive = violations == 0 && !r.st.capped && !r.ps.capped && r.notes.is_empty();
    let mut c = String::new();
    if level == "exploration" {
        c += &format!(
            "    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n",
            r.ps.evals + r.st.execs,
            r.ps.nontrivial + r.st.execs,
            esc("cases are the elements of the enumerated spaces listed under spaces, all of them, each once; non-trivial: the code under test returned a value (not a refusal) which was compared with the reference")
        );
        if r.st.execs > 0 {
            c += &format!("    \"executions_of_the_client\": {},\n", r.st.execs);
        }
    } else {
        c += &format!(
            "    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"choice_points\": {},\n    \"events_observed\": {},\n",
            r.st.states.len(),
            r.st.transitions.len(),
            r.st.execs,
            r.st.choice_points,
            r.st.events
        );
    }
    c += &format!("    \"exhaustive\": {exhaustive},\n    \"spaces\": {},\n    \"samples\": {}", list(&r.units), list(&samples));
    if !r.notes.is_empty() {
        c += &format!(",\n    \"not_completed\": {}", list(&r.notes));
    }
    let mut assume: Vec<String> = vec![];
    if level == "exploration" {
        assume.extend(ASSUME_C.iter().map(|s| s.to_string()));
    }
    if r.st.execs > 0 {
        assume.extend(ASSUME_T.iter().map(|s| s.to_string()));
    }
    let s = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": {},\n  \"coverage\": {{\n{c}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.3},\n  \"violations\": {violations}\n}}\n",
        esc(&r.id),
        esc(r.tier),
        esc(level),
        list(&assume),
        r.start.elapsed().as_secs_f64()
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", r.id);
    if let Err(e) = std::fs::write(&path, s) {
        eprintln!("cannot write {path}: {e}");
        std::process::exit(2);
    }
}
fn alarm(r: &Report, f: &Found) -> i32 {
    write_evidence(r, 1);
    let path = write_replay(&r.id, r.tier, f);
    println!("{}: {}", f.unit, f.msg);
    println!("VIOLATION property={} replay={}", r.id, path);
    1
}

/// families and spaces up to this size are also run with logging
const LOGGED_EXECS: u64 = 6_000;
const LOGGED_CASES: u64 = 1 << 20;

pub fn check(id: &str, thorough: bool) -> i32 {
    let fams = props::families(id, thorough);
    let parts = codec::parts(id, thorough);
    if fams.is_empty() && parts.is_empty() {
        eprintln!("unknown property {id}");
        return 2;
    }
    let start = Instant::now();
    let limit = std::env::var("KMC_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 420 });
    let deadline = start + Duration::from_secs(limit);
    let tier = if thorough { "thorough" } else { "quick" };
    let rep = Mutex::new(Report { id: id.into(), tier, start, st: Stats::default(), ps: PStats::default(), units: vec![], notes: vec![] });
    for (p, logged) in parts.iter().flat_map(|p| [(p, false), (p, true)]) {
        if logged && p.n > LOGGED_CASES {
            continue;
        }
        logs::set(logged);
        let name = if logged { p.name.clone() + LOGGED } else { p.name.clone() };
        let mut ps = std::mem::take(&mut rep.lock().unwrap().ps);
        let t = Instant::now();
        let on_hang = |i: u64| {
            let f = Found { unit: name.clone(), kind: "case", choices: i.to_string(), msg: "does not end (60 s of wall time)".into(), trace: vec![(p.show)(i)] };
            std::process::exit(alarm(&rep.lock().unwrap(), &f));
        };
        let r = run_part(p, threads(), &mut ps, deadline, &on_hang);
        let mut g = rep.lock().unwrap();
        g.ps = ps;
        g.units.push(format!("{name} ({} cases)", p.n));
        println!("{id} {name}: {} cases in {:.2}s", p.n, t.elapsed().as_secs_f64());
        if let Some((i, msg)) = r {
            return alarm(&g, &Found { unit: name.clone(), kind: "case", choices: i.to_string(), msg, trace: vec![(p.show)(i)] });
        }
        if Instant::now() > deadline {
            g.notes.push(format!("time limit reached in {}", p.name));
            break;
        }
    }
    let mut small = HashSet::new();
    for (f, logged) in fams.iter().flat_map(|f| [(f, false), (f, true)]) {
        if logged && !small.contains(&f.name) {
            continue;
        }
        let name = if logged { f.name.clone() + LOGGED } else { f.name.clone() };
        if Instant::now() > deadline {
            rep.lock().unwrap().notes.push(format!("time limit reached before {name}"));
            continue;
        }
        logs::set(logged);
        let mut st = std::mem::take(&mut rep.lock().unwrap().st);
        let (e0, t) = (st.execs, Instant::now());
        let capped0 = st.capped;
        st.capped = false;
        let on_hang = |n: &str, c: &[u16]| {
            let f = Found { unit: n.into(), kind: "schedule", choices: format!("{c:?}"), msg: "the code under test does not yield (60 s of wall time in one execution)".into(), trace: vec![] };
            std::process::exit(alarm(&rep.lock().unwrap(), &f));
        };
        let v = explore(f, threads(), &mut st, deadline, &on_hang);
        let mut g = rep.lock().unwrap();
        let capped = st.capped;
        st.capped |= capped0;
        g.st = st;
        println!(
            "{} {} executions, {} states, {} transitions so far, {:.2}s{}",
            name,
            g.st.execs - e0,
            g.st.states.len(),
            g.st.transitions.len(),
            t.elapsed().as_secs_f64(),
            if capped { " (stopped at its limit)" } else { "" }
        );
        let n = g.st.execs - e0;
        if n <= LOGGED_EXECS {
            small.insert(f.name.clone());
        }
        g.units.push(format!("{name} ({n} executions)"));
        if capped {
            g.notes.push(format!("limit reached in {name}"));
        }
        if g.st.undecided > 0 {
            let k = std::mem::take(&mut g.st.undecided);
            g.notes.push(format!("{k} executions of {} were not reproducible and could not be extended", f.name));
        }
        if let Some(v) = v {
            let f = Found { unit: if logged { v.family + LOGGED } else { v.family }, kind: "schedule", choices: format!("{:?}", v.choices), msg: v.msg, trace: v.trace };
            return alarm(&g, &f);
        }
    }
    let g = rep.into_inner().unwrap();
    write_evidence(&g, 0);
    println!("OK property={id} tier={tier} executions={} cases={} wall={:.1}s", g.st.execs, g.ps.evals, g.start.elapsed().as_secs_f64());
    0
}

pub fn run(id: &str, thorough: bool, only: &str) -> i32 {
    let far = Instant::now() + Duration::from_secs(100_000);
    for p in codec::parts(id, thorough) {
        if !p.name.contains(only) {
            continue;
        }
        let mut st = PStats::default();
        let t = Instant::now();
        let r = run_part(&p, threads(), &mut st, far, &|i| {
            println!("HANG {} {i} {}", p.name, (p.show)(i));
            std::process::exit(1)
        });
        println!("{id} {}: {} cases {} nontrivial {:?}", p.name, st.evals, st.nontrivial, t.elapsed());
        if let Some((i, m)) = r {
            println!("VIOL case {i} {m} {}", (p.show)(i));
        }
    }
    for f in props::families(id, thorough) {
        if !f.name.contains(only) {
            continue;
        }
        let mut st = Stats::default();
        let t = Instant::now();
        let r = explore(&f, threads(), &mut st, far, &|n, p| {
            println!("HANG {n} {p:?}");
            std::process::exit(1)
        });
        println!("{}: {} execs {} states {} tr {:?}{}", f.name, st.execs, st.states.len(), st.transitions.len(), t.elapsed(), if st.capped { " CAPPED" } else { "" });
        if st.undecided > 0 {
            println!("UNDECIDED {}", st.undecided);
        }
        if let Some(v) = r {
            println!("VIOL {} {:?}", v.msg, v.choices);
            let n = v.trace.len();
            for l in v.trace.iter().skip(n.saturating_sub(120)) {
                println!("   {l}");
            }
        }
    }
    0
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
    let (id, thorough, unit, ch) = (field("property"), field("tier") == "thorough", field("unit"), field("choices"));
    let unit = match unit.strip_suffix(LOGGED) {
        Some(u) => {
            logs::set(true);
            u.to_string()
        }
        None => unit,
    };
    if field("kind") == "case" {
        let Some(p) = codec::parts(&id, thorough).into_iter().find(|p| p.name == unit) else {
            eprintln!("no such space: {unit}");
            return 2;
        };
        let i: u64 = ch.parse().unwrap_or(0);
        println!("{}", (p.show)(i));
        return match one_case(&p, i) {
            Ok(_) => {
                println!("OK");
                0
            }
            Err(m) => {
                println!("{m}\nVIOLATION property={id} replay={path}");
                1
            }
        };
    }
    let Some(f) = props::families(&id, thorough).into_iter().find(|f| f.name == unit) else {
        eprintln!("no such family: {unit}");
        return 2;
    };
    let choices: Vec<u16> = ch.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let o = execute(&*f.body, &choices, f.devs, f.opts, &Arc::new(AtomicU64::new(0)));
    for l in dump(&o.trace) {
        println!("{l}");
    }
    match judge(&f, &o) {
        None => {
            println!("OK");
            0
        }
        Some(m) => {
            println!("{m}\nVIOLATION property={id} replay={path}");
            1
        }
    }
}
