//! Exhaustive depth-first exploration of all choice sequences of a family, on all cores.
use crate::monitors::{show, View, M};
use crate::sim::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Fam {
    pub name: String,
    pub body: Box<Body>,
    pub devs: u32,
    pub opts: Opts,
    pub checks: Vec<fn(&View) -> M>,
    /// checks per object, where they differ
    pub by_obj: Vec<Vec<fn(&View) -> M>>,
    pub max: u64,
}
#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub choice_points: u64,
    pub states: HashSet<u64>,
    pub transitions: HashSet<u64>,
    pub capped: bool,
    pub max_trace: usize,
    pub events: u64,
    pub samples: Vec<String>,
    /// executions whose recorded prefix could not be reproduced (the code under test is not deterministic)
    pub undecided: u64,
}
pub struct Violation {
    pub family: String,
    pub choices: Vec<u16>,
    pub msg: String,
    pub trace: Vec<String>,
}

pub const BASE: Opts = Opts {
    preempt: true,
    order: true,
    select: true,
    glue: true,
    always_yield: false,
};

pub fn fam(name: &str, body: Box<Body>, devs: u32, checks: &[fn(&View) -> M]) -> Fam {
    Fam {
        name: name.into(),
        body,
        devs,
        opts: BASE,
        checks: checks.to_vec(),
        by_obj: vec![],
        max: 20_000_000,
    }
}

pub fn judge(f: &Fam, o: &Outcome) -> Option<String> {
    if let Some(p) = &o.panic {
        return Some(format!("panic in the code under test: {p}"));
    }
    if let Some(e) = &o.err {
        return Some(e.clone());
    }
    for (k, t) in per_object(&o.trace) {
        let v = View::new(t.as_ref().unwrap_or(&o.trace));
        for c in f.by_obj.get(k).unwrap_or(&f.checks) {
            if let Err(e) = c(&v) {
                return Some(if t.is_some() { format!("object {k}: {e}") } else { e });
            }
        }
    }
    None
}

/// What happened to each object under test, as if it had been alone (None: the whole trace is about one).
fn per_object(tr: &Trace) -> Vec<(usize, Option<Trace>)> {
    let mut sock = vec![];
    for r in tr {
        if let Ev::Focus(k, s) = r.ev {
            if sock.len() <= k {
                sock.resize(k + 1, usize::MAX);
            }
            if s != usize::MAX {
                sock[k] = s;
            }
        }
    }
    if sock.len() < 2 {
        return vec![(0, None)];
    }
    if sock[0] == usize::MAX {
        sock[0] = 0;
    }
    let mut out: Vec<Trace> = vec![vec![]; sock.len()];
    let (mut focus, mut op_obj, mut sub_obj) = (0, vec![], vec![]);
    for r in tr {
        let mut ev = r.ev.clone();
        let own = match &mut ev {
            Ev::Focus(k, _) => {
                focus = *k;
                continue;
            }
            Ev::Target(s, _) | Ev::Bind(s, _) | Ev::Close(s) | Ev::Sent { s, .. } | Ev::SendFail { s, .. } | Ev::Enq { s, .. } | Ev::Recvd { s, .. } | Ev::RecvErr { s } => {
                let Some(k) = sock.iter().position(|x| x == s) else { continue };
                *s = 0;
                Some(k)
            }
            Ev::Start(o, _) => {
                op_obj.resize(*o + 1, focus);
                op_obj[*o] = focus;
                Some(focus)
            }
            Ev::End(o, _) | Ev::Cancel(o) => Some(op_obj[*o]),
            Ev::Dropped => Some(focus),
            Ev::SubCap(i, _) => {
                sub_obj.resize(*i + 1, focus);
                Some(focus)
            }
            Ev::Notified(i) | Ev::SubGone(i) => Some(sub_obj[*i]),
            Ev::Blocked(_) | Ev::Drained | Ev::Quiet | Ev::Settled | Ev::Note(_) => None,
        };
        let rec = Rec { t: r.t, ev };
        match own {
            Some(k) => out[k].push(rec),
            None => out.iter_mut().for_each(|t| t.push(rec.clone())),
        }
    }
    out.into_iter().enumerate().map(|(k, t)| (k, Some(t))).collect()
}

fn digest(o: &Outcome, st: &mut Stats) {
    // abstract states at quiescent points and the transitions between them
    let v = View::new(&o.trace);
    let mut prev: Option<u64> = None;
    let mut between = DefaultHasher::new();
    let mut sent = 0u32;
    let mut rec = 0u32;
    let mut pend: Vec<u8> = vec![];
    let mut kinds: Vec<u8> = vec![];
    for (i, r) in o.trace.iter().enumerate() {
        match &r.ev {
            Ev::Sent { f, .. } => {
                std::mem::discriminant(f).hash(&mut between);
                sent += 1;
            }
            Ev::Recvd { f, .. } => {
                std::mem::discriminant(f).hash(&mut between);
                f.hash(&mut between);
                rec += 1;
            }
            Ev::Start(o, k) => {
                let b = match k {
                    OpKind::Read(_) => 1,
                    OpKind::Write(..) => 2,
                    OpKind::Status => 3,
                    OpKind::Disconnect => 4,
                    OpKind::Next => 5,
                    OpKind::IsConn => 6,
                    OpKind::AddSub(_) => 7,
                    OpKind::Solicit(_) => 8,
                    OpKind::MWrite(..) => 9,
                    OpKind::MDisconnect => 10,
                    OpKind::Search(_) => 11,
                    OpKind::Open(..) => 12,
                };
                kinds.resize(*o + 1, 0);
                kinds[*o] = b;
                pend.push(*o as u8);
                b.hash(&mut between);
            }
            Ev::End(o, res) => {
                pend.retain(|x| *x != *o as u8);
                res.ok().hash(&mut between);
            }
            Ev::Cancel(o) => {
                pend.retain(|x| *x != *o as u8);
                77u8.hash(&mut between);
            }
            Ev::Quiet => {
                let mut h = DefaultHasher::new();
                match &v.ph[i] {
                    crate::monitors::Phase::Up { ch, n, .. } => (1, *ch, *n).hash(&mut h),
                    p => std::mem::discriminant(p).hash(&mut h),
                }
                v.shaky[i].hash(&mut h);
                pend.iter().map(|o| kinds[*o as usize]).collect::<Vec<_>>().hash(&mut h);
                (sent, rec).hash(&mut h);
                (r.t / 1_000_000).hash(&mut h);
                let s = h.finish();
                st.states.insert(s);
                if let Some(p) = prev {
                    (p, between.finish(), s).hash(&mut between);
                    st.transitions.insert(between.finish());
                }
                between = DefaultHasher::new();
                prev = Some(s);
            }
            _ => (),
        }
    }
}

/// Explores; returns the first violation found.
pub fn explore(f: &Fam, threads: usize, st: &mut Stats, deadline: Instant, on_hang: &(dyn Fn(&str, &[u16]) + Sync)) -> Option<Violation> {
    let stack: Mutex<Vec<Vec<u16>>> = Mutex::new(vec![vec![]]);
    let busy = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let execs = AtomicU64::new(0);
    let found: Mutex<Option<Violation>> = Mutex::new(None);
    let late = AtomicBool::new(false);
    let merged: Mutex<Stats> = Mutex::new(std::mem::take(st));
    let watch: Vec<(Arc<AtomicU64>, Mutex<Vec<u16>>, AtomicBool)> =
        (0..threads).map(|_| (Arc::new(AtomicU64::new(0)), Mutex::new(vec![]), AtomicBool::new(false))).collect();
    std::thread::scope(|sc| {
        // watchdog: an execution that makes no progress for 60 s of wall time is a hang of the code under test
        sc.spawn(|| {
            let mut last: Vec<(u64, Instant)> = watch.iter().map(|w| (w.0.load(Ordering::Relaxed), Instant::now())).collect();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(5));
                if Instant::now() > deadline {
                    late.store(true, Ordering::Relaxed);
                    stop.store(true, Ordering::Relaxed);
                }
                for (i, w) in watch.iter().enumerate() {
                    let p = w.0.load(Ordering::Relaxed);
                    if p != last[i].0 || !w.2.load(Ordering::Relaxed) {
                        last[i] = (p, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(60) {
                        on_hang(&f.name, &w.1.lock().unwrap());
                    }
                }
            }
        });
        let mut hs = vec![];
        for t in 0..threads {
            let (stack, busy, stop, execs, found, merged, w) = (&stack, &busy, &stop, &execs, &found, &merged, &watch[t]);
            hs.push(sc.spawn(move || {
                let mut local = Stats::default();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let job = {
                        let mut s = stack.lock().unwrap();
                        let j = s.pop();
                        if j.is_some() {
                            busy.fetch_add(1, Ordering::SeqCst);
                        }
                        j
                    };
                    let Some(prefix) = job else {
                        if busy.load(Ordering::SeqCst) == 0 && stack.lock().unwrap().is_empty() {
                            break;
                        }
                        std::thread::yield_now();
                        continue;
                    };
                    *w.1.lock().unwrap() = prefix.clone();
                    w.2.store(true, Ordering::Relaxed);
                    let o = execute(&*f.body, &prefix, f.devs, f.opts, &w.0);
                    w.2.store(false, Ordering::Relaxed);
                    w.0.fetch_add(1, Ordering::Relaxed);
                    let n = execs.fetch_add(1, Ordering::Relaxed);
                    local.execs += 1;
                    local.choice_points += o.taken.len() as u64;
                    local.max_trace = local.max_trace.max(o.trace.len());
                    local.events += o.trace.len() as u64;
                    if let Some(m) = judge(f, &o) {
                        let mut g = found.lock().unwrap();
                        if g.is_none() {
                            *g = Some(Violation {
                                family: f.name.clone(),
                                choices: o.taken.iter().map(|x| x.0).collect(),
                                msg: m,
                                trace: dump(&o.trace),
                            });
                        }
                        stop.store(true, Ordering::Relaxed);
                    } else if o.diverged {
                        local.undecided += 1;
                    } else {
                        digest(&o, &mut local);
                        // determinism spot check on a fixed fraction of executions
                        if n % 509 == 0 {
                            let o2 = execute(&*f.body, &prefix, f.devs, f.opts, &w.0);
                            if o2.trace != o.trace {
                                local.undecided += 1;
                            }
                        }
                        if n == 3 || n == 40 {
                            local.samples.push(format!(
                                "{} choices={:?}: {}",
                                f.name,
                                o.taken.iter().map(|x| x.0).collect::<Vec<_>>(),
                                o.trace
                                    .iter()
                                    .filter(|r| !matches!(r.ev, Ev::Quiet | Ev::Settled | Ev::Enq { .. }))
                                    .take(14)
                                    .map(|r| format!("[{:.3}s {}]", r.t as f64 / 1e6, show(&r.ev)))
                                    .collect::<Vec<_>>()
                                    .join(" ")
                            ));
                        }
                    }
                    let mut kids = vec![];
                    for i in prefix.len()..o.taken.len() {
                        for alt in 1..o.taken[i].1 {
                            let mut p: Vec<u16> = o.taken[..i].iter().map(|x| x.0).collect();
                            p.push(alt);
                            kids.push(p);
                        }
                    }
                    if !kids.is_empty() && !o.diverged {
                        stack.lock().unwrap().append(&mut kids);
                    }
                    busy.fetch_sub(1, Ordering::SeqCst);
                    if execs.load(Ordering::Relaxed) >= f.max {
                        local.capped = true;
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                let mut m = merged.lock().unwrap();
                m.execs += local.execs;
                m.choice_points += local.choice_points;
                m.events += local.events;
                m.capped |= local.capped;
                m.undecided += local.undecided;
                m.max_trace = m.max_trace.max(local.max_trace);
                m.states.extend(local.states);
                m.transitions.extend(local.transitions);
                m.samples.extend(local.samples);
            }));
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    *st = merged.into_inner().unwrap();
    let f = found.into_inner().unwrap();
    if f.is_none() && late.load(Ordering::Relaxed) && (!stack.lock().unwrap().is_empty()) {
        st.capped = true;
    }
    f
}

pub fn dump(t: &Trace) -> Vec<String> {
    t.iter().map(|r| format!("{:>12.6}s {}", r.t as f64 / 1e6, show(&r.ev))).collect()
}
