//! Replays behaviours of the Quint specifications against the real contracts.
//!
//! usage: conform --spec NAME --property ID [--facets a,b,..] --report FILE
//!                --replays DIR TRACE_DIR...
//! exit 0: every trace was a behaviour of the implementation
//! exit 1: a VIOLATION line was printed      exit 2: the tool itself failed
extern crate alloc;
mod abi;
mod domains;
mod host;
mod itf;
mod mocks;

use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        LazyLock, Mutex,
    },
    time::Instant,
};

use alloy_primitives::U256;
use domains::{Ctx, Domain, Obs};
use host::{with, Out};
use serde_json::{json, Value};

#[derive(Default)]
struct Stats {
    traces: usize,
    steps: usize,
    accepted: usize,
    rejected: usize,
    comparisons: usize,
    events: usize,
    per_op: BTreeMap<String, (usize, usize)>,
    per_err: BTreeMap<String, usize>,
    states: HashSet<u64>,
    transitions: HashSet<u64>,
}

struct Mismatch {
    facet: String,
    detail: String,
    step: usize,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn show(o: &Out) -> String {
    match o {
        Ok(b) => format!("success 0x{}", hex(b)),
        Err(b) => format!("revert 0x{}", hex(b)),
    }
}

fn hash_state(st: &Value) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for (k, v) in st.as_object().unwrap() {
        if k.starts_with('#') || k.ends_with("obs") || k.starts_with("mbt") {
            continue;
        }
        k.hash(&mut h);
        v.to_string().hash(&mut h);
    }
    h.finish()
}

fn perform(ctx: &mut Ctx, dom: &Domain, obs: &Obs) -> Option<Out> {
    if obs.op.starts_with('!') {
        return (dom.custom)(ctx, obs);
    }
    Some(domains::plain(ctx, obs))
}

/// Compares one step and returns every difference.
fn step(
    ctx: &mut Ctx,
    dom: &Domain,
    obs: &Obs,
    state: &Value,
    n: usize,
    stats: &mut Stats,
) -> Vec<Mismatch> {
    let mut bad: Vec<Mismatch> = vec![];
    let short = obs.op.split('(').next().unwrap().to_string();
    let mis = |kind: &str, detail: String| Mismatch {
        facet: format!("{kind}:{short}"),
        detail,
        step: n,
    };
    with(|w| {
        w.st.logs.clear();
        w.calls.clear();
        w.script.clear();
        w.callbacks = 0;
    });
    let out = perform(ctx, dom, obs);
    stats.steps += 1;
    let e = stats.per_op.entry(short.clone()).or_default();
    if obs.errs.is_empty() {
        e.0 += 1;
        stats.accepted += 1;
    } else {
        e.1 += 1;
        stats.rejected += 1;
        for (s, _) in &obs.errs {
            let k = format!("{short}/{}", s.split('(').next().unwrap());
            *stats.per_err.entry(k).or_default() += 1;
        }
    }
    if let Some(out) = out {
        stats.comparisons += 1;
        match (&out, obs.errs.is_empty()) {
            (Ok(got), true) => {
                let sig = abi::parse(obs.op.trim_start_matches('!'));
                let want = abi::result(&sig, &obs.ret, &|v| ctx.addr(v));
                if *got != want {
                    bad.push(mis(
                        "ret",
                        format!("returned 0x{}, specified 0x{}", hex(got), hex(&want)),
                    ));
                }
            }
            (Err(got), false) => {
                let ok = obs.errs.iter().any(|(s, a)| {
                    if s == "#any" {
                        return true;
                    }
                    if s == "#empty" {
                        return got.is_empty();
                    }
                    if s == "#raw" {
                        let b: Vec<u8> =
                            a[0].iter().map(|v| v.byte(0)).collect();
                        return *got == b;
                    }
                    if let Some(s) = s.strip_prefix('~') {
                        // any arguments
                        let c = abi::calldata(&abi::parse(s), a, &|v| ctx.addr(v));
                        return got.len() == c.len() && got[..4] == c[..4];
                    }
                    abi::calldata(&abi::parse(s), a, &|v| ctx.addr(v)) == *got
                });
                if !ok {
                    bad.push(mis(
                        "err",
                        format!("reverted with 0x{}, specified one of {:?}", hex(got), obs.errs),
                    ));
                }
            }
            (o, spec_ok) => {
                bad.push(mis(
                    "outcome",
                    format!(
                        "implementation: {}; specified: {}",
                        show(o),
                        if spec_ok { "success".into() } else { format!("revert {:?}", obs.errs) }
                    ),
                ));
            }
        }
        // Logs: a successful call emits exactly the specified ones, in order.
        let logs = with(|w| w.st.logs.clone());
        let want: Vec<host::Log> = if obs.errs.is_empty() {
            obs.evs
                .iter()
                .map(|(at, s, a)| {
                    let (topics, data) =
                        abi::event(&abi::parse(s), a, &|v| ctx.addr(v));
                    host::Log { at: ctx.contract(*at), topics, data }
                })
                .collect()
        } else {
            vec![]
        };
        stats.events += want.len();
        let logs: Vec<_> = logs
            .into_iter()
            .filter(|l| !ctx.ignored_logs.contains(&l.at))
            .collect();
        if logs != want {
            if bad.iter().all(|m| !m.facet.starts_with("outcome")) {
                bad.push(mis("ev", format!("logs {logs:?}, specified {:?}", obs.evs)));
            }
        }
    }
    // The whole projected state.
    with(|w| w.probing = true);
    for p in dom.proj {
        let v = itf::var(state, p.var);
        let sig = abi::parse(p.sig);
        let entries: Vec<(Vec<U256>, &Value)> =
            if v.get("#map").is_some() { itf::map(v) } else { vec![(vec![], v)] };
        for (key, val) in entries {
            let args: Vec<Vec<U256>> = key.iter().map(|k| vec![*k]).collect();
            if p.skip_zero_key && key.iter().any(|k| k.is_zero()) {
                continue;
            }
            let data = abi::calldata(&sig, &args, &|v| ctx.addr(v));
            let got = host::call(
                ctx.addr(U256::from(1)),
                ctx.contract(U256::from(p.at)),
                U256::ZERO,
                &data,
                true,
            );
            stats.comparisons += 1;
            let vals: Vec<Vec<U256>> = if sig.outs.len() == 1
                && (sig.outs[0].0.ends_with("[]")
                    || sig.outs[0].0 == "string"
                    || sig.outs[0].0 == "bytes")
            {
                vec![itf::list(val)]
            } else if let Some(a) = val.as_array() {
                a.iter().map(|x| vec![itf::int(x)]).collect()
            } else if let Some(t) = val.get("#tup") {
                t.as_array().unwrap().iter().map(|x| vec![itf::int(x)]).collect()
            } else {
                vec![vec![itf::int(val)]]
            };
            let fail = |d: String| Mismatch {
                facet: format!("st:{}", p.var),
                detail: format!("{}{:?}: {}", p.sig, key, d),
                step: n,
            };
            if let (Some(e), true) = (p.zero_err, vals == vec![vec![U256::ZERO]]) {
                let want = abi::calldata(&abi::parse(e), &args, &|v| ctx.addr(v));
                if got != Err(want) {
                    bad.push(fail(format!("{}, specified {e}", show(&got))));
                }
                continue;
            }
            let want = abi::result(&sig, &vals, &|v| ctx.addr(v));
            if got.as_ref() != Ok(&want) {
                bad.push(fail(format!("{}, specified 0x{}", show(&got), hex(&want))));
            }
        }
    }
    if let Err((facet, d)) = (dom.extra)(ctx, obs, state) {
        bad.push(Mismatch { facet: format!("st:{facet}"), detail: d, step: n });
    }
    with(|w| w.probing = false);
    bad
}

fn replay(
    dom: &Domain,
    trace: &Value,
    variant: u64,
    facets: &[String],
    others: &mut BTreeMap<String, usize>,
    stats: &mut Stats,
) -> Option<Mismatch> {
    let states = trace["states"].as_array().expect("states");
    host::reset();
    with(|w| w.variant = variant);
    let mut ctx = Ctx::new(variant);
    let init = Obs::read(itf::var(&states[0], "obs"));
    (dom.setup)(&mut ctx, &init, &states[0]);
    stats.traces += 1;
    let mut prev = hash_state(&states[0]);
    stats.states.insert(prev);
    for (n, st) in states.iter().enumerate().skip(1) {
        let o = itf::var(st, "obs");
        let obs = Obs::read(o);
        let h = hash_state(st);
        stats.states.insert(h);
        let mut t = std::collections::hash_map::DefaultHasher::new();
        (prev, o.to_string(), h).hash(&mut t);
        stats.transitions.insert(t.finish());
        prev = h;
        // Differences that belong to other properties end the trace only
        // when they make the two states diverge.
        let mut diverged = false;
        for m in step(&mut ctx, dom, &obs, st, n, stats) {
            if relevant(&m.facet, facets) {
                return Some(m);
            }
            diverged |= m.facet.starts_with("st:") || m.facet.starts_with("outcome:");
            *others.entry(m.facet).or_default() += 1;
        }
        if diverged {
            return None;
        }
    }
    None
}

/// Facets are names or prefixes ending in `*`; `-name` excludes.
fn relevant(facet: &str, wanted: &[String]) -> bool {
    let hit = |w: &str| {
        facet == w
            || w.strip_prefix("*:").is_some_and(|p| facet.split(':').nth(1) == Some(p))
            || w.strip_suffix('*').is_some_and(|p| facet.starts_with(p))
    };
    if wanted.iter().any(|w| w.strip_prefix('-').is_some_and(hit)) {
        return false;
    }
    let mut pos = wanted.iter().filter(|w| !w.starts_with('-')).peekable();
    pos.peek().is_none() || pos.any(|w| hit(w))
}

static BUSY: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
static START: LazyLock<Instant> = LazyLock::new(Instant::now);
const LIMIT_MS: u64 = 60_000;

/// A behaviour that takes a million times longer than any other never ends.
fn watchdog(prop: &str, spec: &str, files: &[PathBuf], replays: &Path) {
    let (prop, spec) = (prop.to_string(), spec.to_string());
    let (files, replays) = (files.to_vec(), replays.to_path_buf());
    let _ = START.elapsed();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = START.elapsed().as_millis() as u64;
        for b in &BUSY {
            let v = b.load(Ordering::SeqCst);
            if v == 0 || now.saturating_sub(v >> 24) < LIMIT_MS {
                continue;
            }
            let i = (v & 0xff_ffff) as usize - 1;
            let mut t: Value =
                serde_json::from_str(&std::fs::read_to_string(&files[i]).unwrap()).unwrap();
            let variant = t.get("variant").and_then(|x| x.as_u64()).unwrap_or(i as u64);
            t["variant"] = json!(variant);
            t["violation"] = json!({"detail": "a call does not end", "spec": spec});
            std::fs::create_dir_all(&replays).unwrap();
            let path = replays.join(format!("{prop}.itf.json"));
            std::fs::write(&path, serde_json::to_string(&t).unwrap()).unwrap();
            println!("a call of this behaviour does not end");
            println!("VIOLATION property={prop} replay={}", path.display());
            std::process::exit(1);
        }
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut args = std::env::args().skip(1);
    let (mut spec, mut prop, mut facets, mut report, mut replays) =
        (String::new(), String::new(), vec![], None, PathBuf::from("."));
    let mut dirs: Vec<PathBuf> = vec![];
    let mut only = None;
    let mut verbose = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--spec" => spec = args.next().unwrap(),
            "--property" => prop = args.next().unwrap(),
            "--facets" => {
                facets = args
                    .next()
                    .unwrap()
                    .split(',')
                    .filter(|s| !s.is_empty())
                    .map(String::from)
                    .collect()
            }
            "--report" => report = args.next(),
            "--only" => only = args.next().map(|n| n.parse::<usize>().unwrap()),
            "--replays" => replays = args.next().unwrap().into(),
            "-v" => verbose = true,
            _ => dirs.push(a.into()),
        }
    }
    let Some(dom) = domains::find(&spec) else {
        eprintln!("unknown spec {spec}");
        std::process::exit(2);
    };
    let mut files = vec![];
    for d in dirs {
        if d.is_dir() {
            let mut fs: Vec<_> = std::fs::read_dir(&d)
                .unwrap()
                .map(|e| e.unwrap().path())
                .filter(|p| p.to_string_lossy().ends_with(".itf.json"))
                .collect();
            fs.sort();
            files.extend(fs);
        } else {
            files.push(d);
        }
    }
    if files.is_empty() {
        eprintln!("no traces");
        std::process::exit(2);
    }
    let next = AtomicUsize::new(0);
    let failures: Mutex<Vec<(usize, Mismatch)>> = Mutex::new(vec![]);
    let others: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
    let broken: Mutex<Vec<String>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    watchdog(&prop, &spec, &files, &replays);
    std::thread::scope(|s| {
        for w in 0..BUSY.len() {
            let (next, files, failures, others, broken, total, facets) =
                (&next, &files, &failures, &others, &broken, &total, &facets);
            let body = move || {
                let mut st = Stats::default();
                let mut oth = BTreeMap::new();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= files.len() {
                        break;
                    }
                    if only.is_some_and(|o| o != i) {
                        continue;
                    }
                    let since = START.elapsed().as_millis() as u64;
                    BUSY[w].store(since << 24 | (i as u64 + 1), Ordering::SeqCst);
                    let text = std::fs::read_to_string(&files[i]).unwrap();
                    let Ok(v) = serde_json::from_str::<Value>(&text) else {
                        broken.lock().unwrap().push(format!("unreadable trace {}", files[i].display()));
                        continue;
                    };
                    // A replay file carries its own address variant.
                    let variant =
                        v.get("variant").and_then(|x| x.as_u64()).unwrap_or(i as u64);
                    let r = std::panic::catch_unwind(
                        std::panic::AssertUnwindSafe(|| {
                            replay(dom, &v, variant, facets, &mut oth, &mut st)
                        }),
                    );
                    BUSY[w].store(0, Ordering::SeqCst);
                    match r {
                        Ok(None) => {}
                        Ok(Some(m)) => failures.lock().unwrap().push((i, m)),
                        Err(p) => {
                            let msg = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            broken
                                .lock()
                                .unwrap()
                                .push(format!("{}: {msg}", files[i].display()));
                        }
                    }
                }
                for (k, n) in oth {
                    *others.lock().unwrap().entry(k).or_default() += n;
                }
                let mut t = total.lock().unwrap();
                t.traces += st.traces;
                t.steps += st.steps;
                t.accepted += st.accepted;
                t.rejected += st.rejected;
                t.comparisons += st.comparisons;
                t.events += st.events;
                for (k, (a, b)) in st.per_op {
                    let e = t.per_op.entry(k).or_default();
                    e.0 += a;
                    e.1 += b;
                }
                for (k, n) in st.per_err {
                    *t.per_err.entry(k).or_default() += n;
                }
                t.states.extend(st.states);
                t.transitions.extend(st.transitions);
            };
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, body).unwrap();
        }
    });
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|(i, m)| (m.step, *i));
    let broken = broken.into_inner().unwrap();
    let t = total.into_inner().unwrap();
    if let Some(r) = report {
        let rep = json!({
            "traces": t.traces, "steps": t.steps, "accepted": t.accepted,
            "rejected": t.rejected, "comparisons": t.comparisons,
            "events": t.events, "distinct_states": t.states.len(),
            "distinct_transitions": t.transitions.len(),
            "per_op": t.per_op.iter().map(|(k, (a, b))| (k.clone(), json!([a, b]))).collect::<serde_json::Map<_, _>>(),
            "per_guard": t.per_err,
            "failures": failures.len(),
            "outside_property": *others.lock().unwrap(),
            "broken": broken,
        });
        std::fs::write(r, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    }
    if verbose {
        for (i, m) in failures.iter().take(10) {
            eprintln!("{} step {} {}: {}", files[*i].display(), m.step, m.facet, m.detail);
        }
        for (k, n) in others.lock().unwrap().iter() {
            eprintln!("outside property: {k} x{n}");
        }
    }
    if let Some((i, m)) = failures.first() {
        std::fs::create_dir_all(&replays).unwrap();
        let path = replays.join(format!("{prop}.itf.json"));
        let mut v: Value =
            serde_json::from_str(&std::fs::read_to_string(&files[*i]).unwrap()).unwrap();
        let states: Vec<Value> =
            v["states"].as_array().unwrap().iter().take(m.step + 1).cloned().collect();
        let variant = v.get("variant").and_then(|x| x.as_u64()).unwrap_or(*i as u64);
        v["states"] = json!(states);
        v["variant"] = json!(variant);
        v["violation"] = json!({"step": m.step, "facet": m.facet, "detail": m.detail, "spec": spec});
        std::fs::write(&path, serde_json::to_string(&v).unwrap()).unwrap();
        println!("step {}: {}: {}", m.step, m.facet, m.detail);
        println!("VIOLATION property={prop} replay={}", path.display());
        std::process::exit(1);
    }
    if !broken.is_empty() {
        eprintln!("harness failure: {}", broken[0]);
        std::process::exit(2);
    }
}
