pub use simcore::*;
pub mod engine;
pub mod probe;
pub mod worlds;
use engine::*;
use std::collections::HashMap;

fn arg<T: std::str::FromStr>(a: &[String], name: &str, d: T) -> T {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}
fn jm(m: &std::collections::BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","))
}

/// main CHECK --seed S --runs N [--from I] [--secs T] [--known FILE] [--out JSON] [--trace FILE]
/// main replay FILE
pub fn main(all: &[&[(&str, &'static dyn Ops)]], prims: &[&[(&'static str, &'static dyn PrimOps)]], model: &str) {
    let ops: HashMap<&str, &'static dyn Ops> = all.iter().flat_map(|x| x.iter().map(|y| (y.0, y.1))).collect();
    let mut schemas = model::Schema::parse_all(model);
    schemas.retain(|s| ops.contains_key(s.name.as_str()));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "probe" {
        return probe::run(&schemas, &ops, a[2].parse().unwrap());
    }
    set_hook();
    let mut cx = Cx { prims: prims.iter().flat_map(|x| x.iter().copied()).collect(), ops: schemas.iter().map(|s| ops[s.name.as_str()]).collect(), by_name: schemas.iter().enumerate().map(|(i, s)| (s.name.as_str(), i)).collect(), schemas: &schemas, pool: vec![] };
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let mut check = String::new();
        let mut ids = vec![];
        let mut steps = vec![];
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("check ") {
                check = x.into();
            } else if let Some(x) = l.strip_prefix("schemas ") {
                ids = x.split_whitespace().map(|n| cx.by_name[n]).collect();
            } else if let Some(x) = l.strip_prefix("step ") {
                steps.push(Step::parse(x));
            }
        }
        match replay(&cx, &check, &ids, &steps) {
            Ok(()) => println!("replayed {} steps: no violation", steps.len()),
            Err((k, m)) => {
                println!("replayed: step {} fails: {m}", k + 1);
                std::process::exit(if m.contains("harness") { 2 } else { 1 });
            }
        }
        return;
    }
    let check = a[1].clone();
    cx.pool = (0..schemas.len()).filter(|i| worlds::pool(&check, &schemas[*i])).collect();
    if cx.pool.is_empty() {
        eprintln!("harness: no schema for {check}");
        std::process::exit(2);
    }
    let seed: u64 = arg(&a, "--seed", 1);
    let from: u64 = arg(&a, "--from", 0);
    let per: u64 = arg(&a, "--per", 0);
    let runs: u64 = arg(&a, "--runs", per * cx.pool.len() as u64);
    let known: Vec<String> = std::fs::read_to_string(arg(&a, "--known", String::new())).map(|t| t.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect()).unwrap_or_default();
    let threads = arg(&a, "--threads", std::thread::available_parallelism().map_or(4, |n| n.get()));
    let journal = arg(&a, "--journal", String::new());
    if !journal.is_empty() {
        *engine::JOURNAL.lock().unwrap() = Some(std::fs::File::create(journal).unwrap());
    }
    let t0 = std::time::Instant::now();
    let b = batch(&cx, &check, seed, from, from + runs, arg(&a, "--secs", 1e9), &known, threads);
    let wall = t0.elapsed().as_secs_f64();
    let st = &b.stats;
    let mut digest = 0u64;
    for h in &st.histories {
        digest ^= h;
    }
    let j = format!(
        "{{\"runs\":{},\"steps\":{},\"nontrivial\":{},\"histories\":{},\"schedules\":{},\"states\":{},\"sim_time\":{},\"redone\":{},\"schemas\":{},\"wall\":{wall:.3},\"threads\":{threads},\"digest\":\"{digest:016x}\",\"ops\":{},\"faults\":{},\"probes\":{},\"features\":{},\"known\":[{}],\"samples\":[{}]}}",
        st.runs,
        st.steps,
        st.nontrivial,
        st.histories.len(),
        st.schedules.len(),
        st.states.len(),
        st.sim_time,
        b.redone,
        cx.pool.len(),
        jm(&st.ops),
        jm(&st.faults),
        jm(&st.probes),
        jm(&st.flags),
        b.known.iter().map(|(k, v)| js(&format!("{k}: {v}"))).collect::<Vec<_>>().join(","),
        b.samples.iter().take(3).map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
    let out = arg(&a, "--out", String::new());
    if out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(out, j).unwrap();
    }
    if let Some(f) = b.fail {
        println!("run {} fails: {}", f.run, f.msg);
        println!("key {}", key(&cx, &check, &f));
        let mut t = format!("check {check}\nseed {seed} run {}\nschemas {}\n", f.run, f.schemas.iter().map(|i| cx.s(*i).name.as_str()).collect::<Vec<_>>().join(" "));
        for s in &f.trace {
            t += &format!("step {}\n", s.text());
        }
        t += &format!("fails {}\n", f.msg.replace('\n', " "));
        let p = arg(&a, "--trace", String::new());
        if p.is_empty() {
            println!("{t}");
        } else {
            std::fs::write(p, t).unwrap();
        }
        std::process::exit(if f.msg.contains("harness") { 2 } else { 1 });
    }
}
