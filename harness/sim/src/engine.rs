//! The simulator: seeded discrete event scheduling, step traces, minimisation and replay.
use crate::*;
use simcore::model::{val_of, Schema, Sx};
use simcore::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, BinaryHeap, HashMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One event of a run, with everything needed to execute it again.
#[derive(Clone, Debug)]
pub struct Step {
    pub t: u64,
    pub op: String,
    pub n: Vec<i64>,
    pub v: Option<Val>,
    pub b: Vec<u8>,
}
impl Step {
    pub fn new(op: &str, n: &[i64]) -> Step {
        Step { t: 0, op: op.into(), n: n.to_vec(), v: None, b: vec![] }
    }
    pub fn v(mut self, v: Val) -> Step {
        self.v = Some(v);
        self
    }
    pub fn b(mut self, b: Vec<u8>) -> Step {
        self.b = b;
        self
    }
    /// i-th argument as an index; steps of a shortened trace may lack nothing but their context
    pub fn u(&self, i: usize) -> usize {
        self.n[i] as usize
    }
    pub fn text(&self) -> String {
        let mut s = format!("{} {}", self.t, self.op);
        let n: Vec<String> = self.n.iter().map(|x| x.to_string()).collect();
        write!(s, " [{}]", n.join(" ")).unwrap();
        if !self.b.is_empty() {
            write!(s, " x{}", hexs(&self.b)).unwrap();
        }
        if let Some(v) = &self.v {
            write!(s, " {v}").unwrap();
        }
        s
    }
    pub fn parse(l: &str) -> Step {
        let (head, rest) = l.split_once(" [").expect("step");
        let (nums, rest) = rest.split_once(']').expect("step");
        let (t, op) = head.split_once(' ').unwrap();
        let mut s = Step::new(op, &nums.split_whitespace().map(|x| x.parse().unwrap()).collect::<Vec<i64>>());
        s.t = t.parse().unwrap();
        let mut rest = rest.trim();
        if let Some(r) = rest.strip_prefix('x') {
            let (h, r2) = r.split_once(' ').unwrap_or((r, ""));
            s.b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            rest = r2.trim();
        }
        if !rest.is_empty() {
            s.v = Some(val_of(&Sx::parse_all(rest)[0]));
        }
        s
    }
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub struct Cx<'a> {
    pub prims: HashMap<&'static str, &'static dyn PrimOps>,
    pub schemas: &'a [Schema],
    pub ops: Vec<&'static dyn Ops>,
    pub by_name: HashMap<&'a str, usize>,
    /// schemas which the check uses
    pub pool: Vec<usize>,
}
impl<'a> Cx<'a> {
    pub fn s(&self, i: usize) -> &'a Schema {
        &self.schemas[i]
    }
}

#[derive(Default)]
pub struct Stats {
    /// operations, faults and rare conditions, by name
    pub ops: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub histories: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub sim_time: u64,
    pub steps: u64,
    pub runs: u64,
    pub nontrivial: u64,
    pub flags: BTreeMap<String, u64>,
    run_faults: u64,
    run_checks: u64,
}
impl Stats {
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.into()).or_default() += 1;
        self.run_faults += 1;
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_default() += 1;
    }
    /// an observation compared with the oracle
    pub fn check(&mut self) {
        self.run_checks += 1;
    }
    fn merge(&mut self, o: Stats) {
        for (a, b) in [(&mut self.ops, o.ops), (&mut self.faults, o.faults), (&mut self.probes, o.probes), (&mut self.flags, o.flags)] {
            for (k, n) in b {
                *a.entry(k).or_default() += n;
            }
        }
        self.states.extend(o.states);
        self.histories.extend(o.histories);
        self.schedules.extend(o.schedules);
        self.sim_time += o.sim_time;
        self.steps += o.steps;
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
    }
}

/// A simulated system. `next` is the only place that draws from the PRNG; `apply` executes a step
/// against the real code and the oracle and depends on nothing but the steps before it.
pub trait World {
    fn next(&mut self, r: &mut Rng) -> Option<Step>;
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String>;
    /// after the last step: faults have stopped
    fn finish(&mut self, _st: &mut Stats) -> Result<(), String> {
        Ok(())
    }
    /// digest of the observable state
    fn digest(&self) -> u64;
}

/// Event queue of simulated time; each actor sleeps for a delay drawn from its own pace.
pub struct Sched {
    pub now: u64,
    seq: u64,
    q: BinaryHeap<std::cmp::Reverse<(u64, u64, usize)>>,
    pace: Vec<u64>,
}
impl Sched {
    pub fn new(r: &mut Rng, actors: usize) -> Sched {
        let mut s = Sched { now: 0, seq: 0, q: BinaryHeap::new(), pace: vec![] };
        for a in 0..actors {
            s.pace.push(*r.pick(&[1, 3, 10, 10, 30, 100]));
            s.wake(r, a);
        }
        s
    }
    pub fn wake(&mut self, r: &mut Rng, a: usize) {
        self.seq += 1;
        let p = self.pace[a];
        let mut d = 1 + r.below(2 * p as usize + 1) as u64;
        if r.pm(30) {
            d += 1000 * p; // a stalled actor
        }
        self.q.push(std::cmp::Reverse((self.now + d, self.seq, a)));
    }
    /// the actor whose turn it is
    pub fn turn(&mut self, r: &mut Rng) -> usize {
        let std::cmp::Reverse((t, _, a)) = self.q.pop().unwrap();
        self.now = t;
        self.wake(r, a);
        a
    }
}

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
pub fn set_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|x| x.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let own = i.location().map_or(false, |l| l.file().contains("/sim/src/") || l.file().contains("/simcore/src/"));
        let m = format!("{}{m}", if own || m.starts_with("harness") { "harness: " } else { "" });
        let m = if m.starts_with("harness") { format!("{m} at {}", i.location().unwrap()) } else { m };
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub struct Fail {
    pub run: u64,
    pub schemas: Vec<usize>,
    pub trace: Vec<Step>,
    pub msg: String,
}
/// the part of a message that identifies the kind of failure
pub fn class(m: &str) -> &str {
    m.split(':').next().unwrap()
}

fn mixh(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29)
}
pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(mixh(h, b.len() as u64), |h, x| mixh(h, *x as u64))
}

fn exec(w: &mut dyn World, s: &Step, st: &mut Stats) -> Result<(), String> {
    match guarded(|| w.apply(s, st)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}
fn done(w: &mut dyn World, st: &mut Stats) -> Result<(), String> {
    match guarded(|| w.finish(st)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: at the end: {p}")),
    }
}

/// What is being executed, kept in a file for the case that it never comes back (see run.py).
pub static JOURNAL: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
fn journal(restart: bool, text: impl FnOnce() -> String) {
    use std::io::{Seek, Write};
    if let Some(f) = JOURNAL.lock().unwrap().as_mut() {
        if restart {
            f.set_len(0).unwrap();
            f.rewind().unwrap();
        }
        f.write_all(text().as_bytes()).unwrap();
    }
}
fn names(cx: &Cx, ids: &[usize]) -> String {
    ids.iter().map(|i| cx.s(*i).name.as_str()).collect::<Vec<_>>().join(" ")
}

/// One seeded run. Returns the digest of its whole history.
fn run(cx: &Cx, check: &str, seed: u64, i: u64, st: &mut Stats, keep: Option<&mut Vec<String>>) -> (u64, Option<Fail>) {
    let mut r = Rng::mix(&[seed, hash_bytes(1, check.as_bytes()), i]);
    let ids = worlds::cast(cx, check, i, &mut r);
    journal(true, || format!("check {check}\nseed {seed} run {i}\nschemas {}\n", names(cx, &ids)));
    let mut w = match guarded(|| worlds::make(check, cx, &ids, Some(&mut r))) {
        Ok(w) => w,
        Err(p) => return (1, Some(Fail { run: i, schemas: ids, trace: vec![], msg: format!("panic: at the start: {p}") })),
    };
    let max = *r.pick(&[12, 30, 30, 60, 60, 120]);
    let mut trace = vec![];
    (st.run_faults, st.run_checks) = (0, 0);
    st.runs += 1;
    for f in cx.s(ids[0]).flags.iter() {
        *st.flags.entry(f.clone()).or_default() += 1;
    }
    let mut hist = mixh(7, ids[0] as u64);
    let mut sched = 1;
    let mut res = Ok(());
    while trace.len() < max {
        let Some(s) = w.next(&mut r) else { break };
        trace.push(s.clone());
        journal(false, || format!("step {}\n", s.text()));
        *st.ops.entry(s.op.clone()).or_default() += 1;
        st.steps += 1;
        sched = hash_bytes(sched, s.op.as_bytes());
        sched = mixh(sched, s.n.first().copied().unwrap_or(0) as u64);
        hist = hash_bytes(hist, s.text().as_bytes());
        res = exec(&mut *w, &s, st);
        let d = w.digest();
        st.states.insert(d);
        hist = mixh(hist, d);
        if res.is_err() {
            break;
        }
    }
    if res.is_ok() {
        res = done(&mut *w, st);
    }
    st.sim_time += trace.last().map_or(0, |s| s.t);
    if st.histories.insert(hist) && st.run_checks >= 5 && st.run_faults >= 1 {
        st.nontrivial += 1;
    }
    st.schedules.insert(sched);
    if let Some(k) = keep {
        k.push(format!("{} {}", ids.iter().map(|i| cx.s(*i).name.as_str()).collect::<Vec<_>>().join("+"), trace.iter().take(12).map(|s| s.text()).collect::<Vec<_>>().join("; ")));
    }
    let fail = res.err().map(|msg| {
        hist = hash_bytes(hist, msg.as_bytes());
        Fail { run: i, schemas: ids, trace, msg }
    });
    (hist, fail)
}

/// Executes a fixed trace.
pub fn replay(cx: &Cx, check: &str, ids: &[usize], trace: &[Step]) -> Result<(), (usize, String)> {
    let mut st = Stats::default();
    let mut w = guarded(|| worlds::make(check, cx, ids, None)).map_err(|p| (0, format!("panic: at the start: {p}")))?;
    for (k, s) in trace.iter().enumerate() {
        exec(&mut *w, s, &mut st).map_err(|m| (k, m))?;
    }
    done(&mut *w, &mut st).map_err(|m| (trace.len(), m))
}

/// Drops steps and simplifies arguments while the same class of failure remains.
fn minimise(cx: &Cx, check: &str, f: &mut Fail) {
    let cls = class(&f.msg).to_string();
    let mut budget = 4000;
    let mut fails = |t: &[Step]| -> Option<(usize, String)> {
        if budget == 0 {
            return None;
        }
        budget -= 1;
        replay(cx, check, &f.schemas, t).err().filter(|(_, m)| class(m) == cls)
    };
    let mut t = f.trace.clone();
    let mut msg = f.msg.clone();
    if let Some((k, m)) = fails(&t) {
        t.truncate(k + 1);
        msg = m;
        if t.is_empty() {
            f.msg = msg;
            return;
        }
    } else {
        return;
    }
    let mut n = t.len() / 2;
    while n >= 1 {
        let mut i = 0;
        while i < t.len() {
            let mut c = t.clone();
            c.drain(i..(i + n).min(t.len()));
            match fails(&c) {
                Some((k, m)) => {
                    c.truncate(k + 1);
                    t = c;
                    msg = m;
                }
                None => i += n,
            }
        }
        n /= 2;
    }
    for i in 0..t.len() {
        let mut alts: Vec<Step> = vec![];
        if !t[i].b.is_empty() {
            let mut s = t[i].clone();
            s.b.fill(0);
            alts.push(s);
            for j in 0..t[i].b.len().min(40) {
                let mut s = t[i].clone();
                s.b[j] = 0;
                alts.push(s);
            }
        }
        for mut a in alts {
            // keep what the earlier simplifications of this step achieved
            for (x, y) in a.b.iter_mut().zip(&t[i].b) {
                *x &= *y;
            }
            let mut c = t.clone();
            c[i] = a;
            if let Some((_, m)) = fails(&c) {
                t = c;
                msg = m;
            }
        }
        loop {
            let Some(v) = t.get(i).and_then(|s| s.v.clone()) else { break };
            let mut better = false;
            for x in smaller(&v) {
                let mut c = t.clone();
                c[i].v = Some(x);
                if let Some((_, m)) = fails(&c) {
                    t = c;
                    msg = m;
                    better = true;
                    break;
                }
            }
            if !better {
                break;
            }
        }
    }
    f.trace = t;
    f.msg = msg;
}
fn smaller(v: &Val) -> Vec<Val> {
    match v {
        Val::U(x) if *x > 1 => vec![Val::U(0), Val::U(1), Val::U(x >> 64), Val::U(x >> 8), Val::U(x >> 1), Val::U(x & (x - 1))],
        Val::U(1) => vec![Val::U(0)],
        Val::I(x) if *x != 0 && *x != -1 => vec![Val::I(0), Val::I(1), Val::I(-1), Val::I(x >> 8), Val::I(x / 2)].into_iter().filter(|y| y != v && (*x != 1)).collect(),
        Val::F4(x) if *x != 0 => vec![Val::F4(0), Val::F4(x & (x - 1))],
        Val::F8(x) if *x != 0 => vec![Val::F8(0), Val::F8(x & (x - 1))],
        Val::C(x) if *x != 0 => vec![Val::C(0)],
        Val::B(true) => vec![Val::B(false)],
        Val::P(i, None) if *i > 0 => vec![Val::P(0, None)],
        Val::A(l) | Val::S(l) | Val::E(_, l) => {
            let mut o = vec![];
            for (i, x) in l.iter().enumerate() {
                for y in smaller(x) {
                    let mut l2 = l.clone();
                    l2[i] = y;
                    o.push(match v {
                        Val::A(_) => Val::A(l2),
                        Val::S(_) => Val::S(l2),
                        Val::E(k, _) => Val::E(*k, l2),
                        _ => unreachable!(),
                    });
                }
            }
            o
        }
        _ => vec![],
    }
}

pub struct Batch {
    pub stats: Stats,
    pub fail: Option<Fail>,
    pub known: BTreeMap<String, String>,
    pub samples: Vec<String>,
    pub redone: u64,
}

/// key of a failure for the known findings file
pub fn key(cx: &Cx, check: &str, f: &Fail) -> String {
    format!("{check}/{}/{}", cx.s(f.schemas[0]).name, class(&f.msg))
}

/// Runs `from..to` on all cores; the reported failure is the one of the lowest run.
pub fn batch(cx: &Cx, check: &str, seed: u64, from: u64, to: u64, secs: f64, known: &[String], threads: usize) -> Batch {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::Mutex;
    let next = AtomicU64::new(from);
    let stop = AtomicU64::new(u64::MAX);
    let fails: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let all = Mutex::new(Stats::default());
    let knowns: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let digests: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
    let start = std::time::Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut st = Stats::default();
                let mut dg = vec![];
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= to || i > stop.load(SeqCst) || start.elapsed().as_secs_f64() > secs {
                        break;
                    }
                    let mut keep = vec![];
                    let (h, f) = run(cx, check, seed, i, &mut st, if i < from + 3 { Some(&mut keep) } else { None });
                    samples.lock().unwrap().extend(keep);
                    if i % 97 == 0 {
                        dg.push((i, h));
                    }
                    if let Some(f) = f {
                        let k = key(cx, check, &f);
                        if known.contains(&k) {
                            knowns.lock().unwrap().insert(k, f.msg);
                            continue;
                        }
                        stop.fetch_min(i, SeqCst);
                        fails.lock().unwrap().push(f);
                    }
                }
                all.lock().unwrap().merge(st);
                digests.lock().unwrap().extend(dg);
            });
        }
    });
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.run);
    let mut fail = if fails.is_empty() { None } else { Some(fails.remove(0)) };
    if let Some(f) = &mut fail {
        minimise(cx, check, f);
    }
    // determinism: a sample of the runs once more, on one thread and in another order
    let mut dg = digests.into_inner().unwrap();
    dg.sort_by_key(|x| x.0.wrapping_mul(0x9e3779b97f4a7c15));
    let mut redone = 0;
    for (i, h) in dg.iter().take(if fail.is_some() { 0 } else { 400 }) {
        let (h2, _) = run(cx, check, seed, *i, &mut Stats::default(), None);
        if *h != h2 {
            eprintln!("harness: run {i} is not deterministic");
            std::process::exit(2);
        }
        redone += 1;
    }
    let mut samples = samples.into_inner().unwrap();
    samples.sort();
    Batch { stats: all.into_inner().unwrap(), fail, known: knowns.into_inner().unwrap(), samples, redone }
}
