//! Replays behaviours of the Quint specifications of the cryptographic library
//! against the real code.  Same interface as the `conform` binary of ../harness.
//! Built natively (src/main.rs) and, for the code paths of the production
//! target, as WebAssembly (../crypto-wasm).
mod curve;
mod field;
mod hash;
mod itf;
mod num;
mod params;
mod poseidon;
mod uint;

use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        LazyLock, Mutex,
    },
    time::Instant,
};

use num_bigint::BigInt;
use serde_json::{json, Value};

/// What a step returns: lists of integers, or the name of the error
/// ("panic" when the call panicked).
pub type Out = Result<Vec<Vec<BigInt>>, String>;

/// One observation of the specification.
pub struct Obs {
    pub op: String,
    pub args: Vec<Vec<BigInt>>,
    pub ret: Vec<Vec<BigInt>>,
    pub bad: String,
}

/// The real code behind one specification.
pub trait Domain {
    /// Performs the step on the real code; panics count as the answer "panic".
    fn step(&mut self, obs: &Obs, n: usize) -> Out;
    /// What the specification's answer looks like, evaluated (identity unless
    /// the answer is symbolic).
    fn expect(&self, obs: &Obs) -> Vec<Vec<BigInt>> {
        obs.ret.clone()
    }
    /// Compares the whole state, when there is one.
    fn state(&mut self, _state: &Value, _n: usize) -> Result<(), String> {
        Ok(())
    }
}

fn domain(spec: &str, init: &Obs, state: &Value) -> Option<Box<dyn Domain>> {
    Some(match spec {
        "keccak" => Box::new(hash::Keccaks::new()),
        "merkle" => Box::new(hash::Merkle::new(init, state)),
        "field" => field::make(init),
        "curve" => curve::make(init),
        "uint" => uint::make(init),
        "poseidon" => poseidon::make(init),
        _ => return None,
    })
}

#[derive(Default)]
struct Stats {
    traces: usize,
    steps: usize,
    accepted: usize,
    rejected: usize,
    comparisons: usize,
    events: usize,
    per_op: BTreeMap<String, (usize, usize)>,
    per_err: BTreeMap<String, usize>,
    states: HashSet<u64>,
    transitions: HashSet<u64>,
}

struct Mismatch {
    facet: String,
    detail: String,
    step: usize,
}

fn hash_state(st: &Value) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for (k, v) in st.as_object().unwrap() {
        if k.starts_with('#') || k.ends_with("obs") || k.starts_with("mbt") {
            continue;
        }
        k.hash(&mut h);
        v.to_string().hash(&mut h);
    }
    h.finish()
}

fn message(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

fn step(dom: &mut dyn Domain, obs: &Obs, state: &Value, n: usize, stats: &mut Stats) -> Vec<Mismatch> {
    let mis = |kind: &str, detail: String| Mismatch { facet: format!("{kind}:{}", obs.op), detail, step: n };
    stats.steps += 1;
    let e = stats.per_op.entry(obs.op.clone()).or_default();
    if obs.bad.is_empty() {
        e.0 += 1;
        stats.accepted += 1;
    } else {
        e.1 += 1;
        stats.rejected += 1;
        *stats.per_err.entry(format!("{}/{}", obs.op, obs.bad)).or_default() += 1;
    }
    let mut bad = vec![];
    let mut why = String::new();
    let out = match catch_unwind(AssertUnwindSafe(|| dom.step(obs, n))) {
        Ok(o) => o,
        Err(p) => {
            why = message(p);
            if why.starts_with("harness:") {
                panic!("{why}");
            }
            Err("panic".into())
        }
    };
    stats.comparisons += 1;
    match (&out, obs.bad.is_empty()) {
        (Ok(got), true) => {
            let want = dom.expect(obs);
            if *got != want {
                bad.push(mis("ret", format!("{:?} returned {got:?}, specified {want:?}", obs.args)));
            }
        }
        (Err(got), false) if *got == obs.bad => {}
        (o, _) => bad.push(mis(
            "outcome",
            format!("{:?} gave {o:?} {why}, specified {}", obs.args, if obs.bad.is_empty() { "success" } else { &obs.bad }),
        )),
    }
    if bad.is_empty() {
        stats.comparisons += 1;
        let r = catch_unwind(AssertUnwindSafe(|| dom.state(state, n))).unwrap_or_else(|p| {
            let m = message(p);
            if m.starts_with("harness:") {
                panic!("{m}");
            }
            Err(m)
        });
        if let Err(d) = r {
            bad.push(mis("state", format!("after {:?}: {d}", obs.args)));
        }
    }
    bad
}

/// Replays one trace in WebAssembly, where a panic ends the program: steps that
/// must panic are left out, and `at` tells which step a trap belongs to.
pub fn replay_wasm(spec: &str, text: &str, facets: &str, at: &mut dyn FnMut(usize)) -> Value {
    let trace: Value = serde_json::from_str(text).expect("harness: trace");
    let facets: Vec<String> = facets.split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    let (mut others, mut stats) = (BTreeMap::new(), Stats::default());
    let m = replay(spec, &trace, &facets, &mut others, &mut stats, at);
    json!({
        "steps": stats.steps, "comparisons": stats.comparisons, "accepted": stats.accepted, "rejected": stats.rejected,
        "per_op": stats.per_op.iter().map(|(k, (a, b))| (k.clone(), json!([a, b]))).collect::<serde_json::Map<_, _>>(),
        "outside_property": others,
        "failure": m.map(|m| json!({"step": m.step, "facet": m.facet, "detail": m.detail})),
    })
}

fn replay(
    spec: &str,
    trace: &Value,
    facets: &[String],
    others: &mut BTreeMap<String, usize>,
    stats: &mut Stats,
    at: &mut dyn FnMut(usize),
) -> Option<Mismatch> {
    let states = trace["states"].as_array().expect("states");
    let init = Obs::read(itf::var(&states[0], "obs"));
    let mut dom = domain(spec, &init, &states[0]).expect("harness: domain");
    stats.traces += 1;
    let mut prev = hash_state(&states[0]);
    stats.states.insert(prev);
    for (n, st) in states.iter().enumerate().skip(1) {
        let o = itf::var(st, "obs");
        let obs = Obs::read(o);
        let h = hash_state(st);
        stats.states.insert(h);
        let mut t = std::collections::hash_map::DefaultHasher::new();
        (prev, o.to_string(), h).hash(&mut t);
        stats.transitions.insert(t.finish());
        prev = h;
        if cfg!(target_family = "wasm") && obs.bad == "panic" {
            continue;
        }
        at(n);
        let mut diverged = false;
        for m in step(&mut *dom, &obs, st, n, stats) {
            if relevant(&m.facet, facets) {
                return Some(m);
            }
            diverged = true;
            *others.entry(m.facet).or_default() += 1;
        }
        if diverged {
            return None;
        }
    }
    None
}

impl Obs {
    fn read(v: &Value) -> Self {
        Obs {
            op: v["op"].as_str().unwrap().to_string(),
            args: itf::lists(&v["args"]),
            ret: itf::lists(&v["ret"]),
            bad: v["bad"].as_str().unwrap().to_string(),
        }
    }
    /// The i-th argument, a single integer.
    pub fn n(&self, i: usize) -> &BigInt {
        &self.args[i][0]
    }
    pub fn us(&self, i: usize) -> usize {
        usize::try_from(self.n(i)).expect("harness: small integer")
    }
}

/// Facets are names or prefixes ending in `*`; `-name` excludes.
fn relevant(facet: &str, wanted: &[String]) -> bool {
    let hit = |w: &str| {
        facet == w
            || w.strip_prefix("*:").is_some_and(|p| facet.split(':').nth(1) == Some(p))
            || w.strip_suffix('*').is_some_and(|p| facet.starts_with(p))
    };
    if wanted.iter().any(|w| w.strip_prefix('-').is_some_and(hit)) {
        return false;
    }
    let mut pos = wanted.iter().filter(|w| !w.starts_with('-')).peekable();
    pos.peek().is_none() || pos.any(|w| hit(w))
}

static BUSY: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
static START: LazyLock<Instant> = LazyLock::new(Instant::now);
const LIMIT_MS: u64 = 60_000;

/// A behaviour that takes a million times longer than any other never ends.
fn watchdog(prop: &str, spec: &str, files: &[PathBuf], replays: &Path) {
    let (prop, spec) = (prop.to_string(), spec.to_string());
    let (files, replays) = (files.to_vec(), replays.to_path_buf());
    let _ = START.elapsed();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = START.elapsed().as_millis() as u64;
        for b in &BUSY {
            let v = b.load(Ordering::SeqCst);
            if v == 0 || now.saturating_sub(v >> 24) < LIMIT_MS {
                continue;
            }
            let i = (v & 0xff_ffff) as usize - 1;
            let mut t: Value =
                serde_json::from_str(&std::fs::read_to_string(&files[i]).unwrap()).unwrap();
            let variant = t.get("variant").and_then(|x| x.as_u64()).unwrap_or(i as u64);
            t["variant"] = json!(variant);
            t["violation"] = json!({"detail": "a call does not end", "spec": spec});
            std::fs::create_dir_all(&replays).unwrap();
            let path = replays.join(format!("{prop}.itf.json"));
            std::fs::write(&path, serde_json::to_string(&t).unwrap()).unwrap();
            println!("a call of this behaviour does not end");
            println!("VIOLATION property={prop} replay={}", path.display());
            std::process::exit(1);
        }
    });
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut args = std::env::args().skip(1);
    let (mut spec, mut prop, mut facets, mut report, mut replays) =
        (String::new(), String::new(), vec![], None, PathBuf::from("."));
    let mut dirs: Vec<PathBuf> = vec![];
    let mut only = None;
    let mut verbose = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--spec" => spec = args.next().unwrap(),
            "--property" => prop = args.next().unwrap(),
            "--facets" => {
                facets = args
                    .next()
                    .unwrap()
                    .split(',')
                    .filter(|s| !s.is_empty())
                    .map(String::from)
                    .collect()
            }
            "--report" => report = args.next(),
            "--only" => only = args.next().map(|n| n.parse::<usize>().unwrap()),
            "--replays" => replays = args.next().unwrap().into(),
            "-v" => verbose = true,
            _ => dirs.push(a.into()),
        }
    }
    let mut files = vec![];
    for d in dirs {
        if d.is_dir() {
            let mut fs: Vec<_> = std::fs::read_dir(&d)
                .unwrap()
                .map(|e| e.unwrap().path())
                .filter(|p| p.to_string_lossy().ends_with(".itf.json"))
                .collect();
            fs.sort();
            files.extend(fs);
        } else {
            files.push(d);
        }
    }
    if files.is_empty() {
        eprintln!("no traces");
        std::process::exit(2);
    }
    let next = AtomicUsize::new(0);
    let failures: Mutex<Vec<(usize, Mismatch)>> = Mutex::new(vec![]);
    let others: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
    let broken: Mutex<Vec<String>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    watchdog(&prop, &spec, &files, &replays);
    std::thread::scope(|s| {
        for w in 0..BUSY.len() {
            let spec = &spec;
            let (next, files, failures, others, broken, total, facets) =
                (&next, &files, &failures, &others, &broken, &total, &facets);
            let body = move || {
                let mut st = Stats::default();
                let mut oth = BTreeMap::new();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= files.len() {
                        break;
                    }
                    if only.is_some_and(|o| o != i) {
                        continue;
                    }
                    let since = START.elapsed().as_millis() as u64;
                    BUSY[w].store(since << 24 | (i as u64 + 1), Ordering::SeqCst);
                    let text = std::fs::read_to_string(&files[i]).unwrap();
                    let Ok(v) = serde_json::from_str::<Value>(&text) else {
                        broken.lock().unwrap().push(format!("unreadable trace {}", files[i].display()));
                        continue;
                    };
                    let r = std::panic::catch_unwind(
                        std::panic::AssertUnwindSafe(|| {
                            replay(spec, &v, facets, &mut oth, &mut st, &mut |_| ())
                        }),
                    );
                    BUSY[w].store(0, Ordering::SeqCst);
                    match r {
                        Ok(None) => {}
                        Ok(Some(m)) => failures.lock().unwrap().push((i, m)),
                        Err(p) => {
                            let msg = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            broken
                                .lock()
                                .unwrap()
                                .push(format!("{}: {msg}", files[i].display()));
                        }
                    }
                }
                for (k, n) in oth {
                    *others.lock().unwrap().entry(k).or_default() += n;
                }
                let mut t = total.lock().unwrap();
                t.traces += st.traces;
                t.steps += st.steps;
                t.accepted += st.accepted;
                t.rejected += st.rejected;
                t.comparisons += st.comparisons;
                t.events += st.events;
                for (k, (a, b)) in st.per_op {
                    let e = t.per_op.entry(k).or_default();
                    e.0 += a;
                    e.1 += b;
                }
                for (k, n) in st.per_err {
                    *t.per_err.entry(k).or_default() += n;
                }
                t.states.extend(st.states);
                t.transitions.extend(st.transitions);
            };
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, body).unwrap();
        }
    });
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|(i, m)| (m.step, *i));
    let broken = broken.into_inner().unwrap();
    let t = total.into_inner().unwrap();
    if let Some(r) = report {
        let rep = json!({
            "traces": t.traces, "steps": t.steps, "accepted": t.accepted,
            "rejected": t.rejected, "comparisons": t.comparisons,
            "events": t.events, "distinct_states": t.states.len(),
            "distinct_transitions": t.transitions.len(),
            "per_op": t.per_op.iter().map(|(k, (a, b))| (k.clone(), json!([a, b]))).collect::<serde_json::Map<_, _>>(),
            "per_guard": t.per_err,
            "failures": failures.len(),
            "outside_property": *others.lock().unwrap(),
            "broken": broken,
        });
        std::fs::write(r, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    }
    if verbose {
        for (i, m) in failures.iter().take(10) {
            eprintln!("{} step {} {}: {}", files[*i].display(), m.step, m.facet, m.detail);
        }
        for (k, n) in others.lock().unwrap().iter() {
            eprintln!("outside property: {k} x{n}");
        }
    }
    if let Some((i, m)) = failures.first() {
        std::fs::create_dir_all(&replays).unwrap();
        let path = replays.join(format!("{prop}.itf.json"));
        let mut v: Value =
            serde_json::from_str(&std::fs::read_to_string(&files[*i]).unwrap()).unwrap();
        let states: Vec<Value> =
            v["states"].as_array().unwrap().iter().take(m.step + 1).cloned().collect();
        let variant = v.get("variant").and_then(|x| x.as_u64()).unwrap_or(*i as u64);
        v["states"] = json!(states);
        v["variant"] = json!(variant);
        v["violation"] = json!({"step": m.step, "facet": m.facet, "detail": m.detail, "spec": spec});
        std::fs::write(&path, serde_json::to_string(&v).unwrap()).unwrap();
        println!("step {}: {}: {}", m.step, m.facet, m.detail);
        println!("VIOLATION property={prop} replay={}", path.display());
        std::process::exit(1);
    }
    if !broken.is_empty() {
        eprintln!("harness failure: {}", broken[0]);
        std::process::exit(2);
    }
}
