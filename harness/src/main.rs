//! Runs the monitored workloads of one property in one feature configuration.
//!   harness run PROP key=value...     keys: tier seed out slots dict known threads scale only
//!   harness replay key=value...       keys: workload tape dict known
mod c_api;
mod c_hist;
mod c_misc;
mod c_parse;
#[cfg(feature = "dnssec")]
mod c_sec;
mod c_ser;
mod gen;
mod map;
mod model;
mod rt;
mod wire;

use gen::{mutate, Dict, Gen, Rng};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static A: rt::Counting = rt::Counting;

pub type Check = fn(&mut Cx, &mut Gen) -> Result<(), String>;

#[derive(Clone, Copy)]
pub struct Workload {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: Check,
    /// cases in the quick tier
    pub quick: u64,
    /// factor of the thorough tier
    pub deep: u64,
    pub guided: bool,
    /// the verdict of the check function is not of interest here, only what the sanitizers see
    pub quiet: bool,
    /// counters that have to be positive, or the run observed nothing
    pub need: &'static [&'static str],
}
impl Workload {
    pub const fn new(prop: &'static str, name: &'static str, f: Check, quick: u64, guided: bool, need: &'static [&'static str]) -> Self {
        Workload { prop, name, f, quick, deep: 40, guided, quiet: false, need }
    }
    pub const fn deep(mut self, d: u64) -> Self {
        self.deep = d;
        self
    }
}

/// What a check reports about its case besides the verdict.
#[derive(Default)]
pub struct Cx {
    pub counters: BTreeMap<&'static str, u64>,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: HashSet<String>,
    pub known_hits: BTreeMap<String, u64>,
    pub log: Vec<u64>,
    pub logging: bool,
    pub case: u64,
    pub maxima: BTreeMap<&'static str, u64>,
    /// recorded cases: workload, work, tape
    pub tapes: Vec<String>,
    pub want_samples: usize,
    /// the input of this case as plain bytes
    pub raw: Option<String>,
}
impl Cx {
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// The case is non-trivial; h identifies it.
    pub fn nontrivial(&mut self, h: u64) -> bool {
        if self.seen.len() < 4_000_000 {
            self.seen.insert(h)
        } else {
            false
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.want_samples {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    /// Is this deviation a listed known finding?
    pub fn is_known(&mut self, id: &str) -> bool {
        if self.known.contains(id) {
            *self.known_hits.entry(id.to_string()).or_insert(0) += 1;
            true
        } else {
            false
        }
    }
    pub fn log(&mut self, h: u64) {
        if self.logging {
            self.log.push(h);
        }
    }
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub fn all_workloads() -> Vec<Workload> {
    let mut v = vec![];
    c_parse::workloads(&mut v);
    c_ser::workloads(&mut v);
    c_hist::workloads(&mut v);
    c_api::workloads(&mut v);
    c_misc::workloads(&mut v);
    #[cfg(feature = "dnssec")]
    c_sec::workloads(&mut v);
    c_misc::derived(&mut v);
    v
}

pub enum Out {
    Ok,
    Bad(String),
    Internal(String),
}

/// Runs one case with all monitors on.
pub fn run_case(w: &Workload, cx: &mut Cx, g: &mut Gen) -> Out {
    rt::begin_case();
    if !w.guided {
        // large or complete cases: a budget that only something without an end exceeds
        rt::tls().budget = 12 * rt::HANG;
    }
    let r = catch_unwind(AssertUnwindSafe(|| (w.f)(cx, g)));
    rt::end_case();
    match r {
        // text that is not text is undefined behaviour, whatever the property is
        Ok(Err(m)) if w.quiet && m.contains(c_parse::NO_TEXT) => Out::Bad(m),
        _ if w.quiet => Out::Ok,
        Ok(Ok(())) => Out::Ok,
        Ok(Err(m)) => Out::Bad(m),
        Err(_) => {
            let (loc, msg) = rt::take_panic();
            if loc.starts_with("src/") {
                Out::Internal(format!("an assumption of the monitor about the library failed at {loc}: {msg}"))
            } else {
                Out::Bad(format!("the library panicked at {loc}: {msg}"))
            }
        }
    }
}

fn quiet_case(w: &Workload, known: &HashSet<String>, tape: &[u64], dict: &Dict) -> (Out, Vec<u64>) {
    let mut cx = Cx { known: known.clone(), ..Default::default() };
    let mut g = Gen::new(tape, 0, dict, &[]);
    g.zeros = true;
    let o = run_case(w, &mut cx, &mut g);
    (o, g.tape)
}

/// Makes a failing tape shorter and smaller.
fn shrink(w: &Workload, known: &HashSet<String>, tape: Vec<u64>, msg: String, dict: &Dict) -> (Vec<u64>, String) {
    let mut best = tape;
    let mut bmsg = msg;
    let mut left = 600;
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let try_one = |t: &[u64], left: &mut i32| -> Option<(Vec<u64>, String)> {
        *left = if std::time::Instant::now() > end { 0 } else { *left - 1 };
        match quiet_case(w, known, t, dict) {
            (Out::Bad(m), tape) => Some((tape, m)),
            _ => None,
        }
    };
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a.iter().map(|x| *x as u128).sum::<u128>() < b.iter().map(|x| *x as u128).sum());
    let mut progress = true;
    while progress && left > 0 {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && left > 0 {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let mut t = best.clone();
                t.drain(i..(i + size).min(t.len()));
                if let Some((nt, m)) = try_one(&t, &mut left) {
                    if better(&nt, &best) {
                        best = nt;
                        bmsg = m;
                        progress = true;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if left <= 0 {
                break;
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            for v in [0, best[i] / 2, best[i] - 1] {
                let mut t = best.clone();
                t[i] = v;
                if let Some((nt, m)) = try_one(&t, &mut left) {
                    if better(&nt, &best) {
                        best = nt;
                        bmsg = m;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    (best, bmsg)
}

struct Found {
    workload: &'static str,
    tape: Vec<u64>,
    msg: String,
    internal: bool,
}
struct Done {
    cx: Cx,
    evals: u64,
    corpus: usize,
    edges: usize,
    found: Option<Found>,
    virgin: Vec<u8>,
}

struct Entry {
    tape: Vec<u64>,
    cmps: Vec<(u64, u64)>,
}

#[allow(clippy::too_many_arguments)]
fn worker(idx: usize, w: Workload, record: bool, n: u64, seed: u64, dict: &Dict, known: &HashSet<String>, slot: Option<String>, deadline: std::time::Instant, stop: &std::sync::atomic::AtomicBool, logging: bool, tid: u64, nthreads: u64) -> Done {
    use std::sync::atomic::Ordering::Relaxed;
    rt::init_thread();
    if let Some(s) = slot {
        rt::open_slot(&s);
    }
    let mut cx = Cx { known: known.clone(), logging, want_samples: 2, ..Default::default() };
    let mut r = Rng(seed);
    let mut corpus: Vec<Entry> = vec![];
    let mut found = None;
    let mut evals = 0;
    for i in 0..n {
        if i % 16 == 0 && (stop.load(Relaxed) || (!logging && !record && std::time::Instant::now() > deadline)) {
            break;
        }
        let s = r.next();
        let rtd: Vec<u64> = if w.guided { rt::tls().dict.clone() } else { vec![] };
        let base = if w.guided && !corpus.is_empty() && r.below(10) < 6 {
            let k = corpus.len() as u64;
            let p = if r.below(2) == 0 { k - 1 - r.below(k.min(40)) } else { r.below(k) };
            let o = r.below(k) as usize;
            let e = &corpus[p as usize];
            mutate(&mut r, &e.tape, &corpus[o].tape, &e.cmps, dict, &rtd)
        } else {
            vec![]
        };
        rt::slot_case(idx as u64, s);
        let mut g = Gen::new(&base, s, dict, &rtd);
        cx.case = i * nthreads + tid;
        cx.raw = None;
        let out = run_case(&w, &mut cx, &mut g);
        evals += 1;
        cx.max("steps of a case", rt::steps());
        let tape = std::mem::take(&mut g.tape);
        drop(g);
        match out {
            Out::Ok => {
                let new = rt::novel();
                if record && (new || i % 64 == 0) && tape.len() <= 3_000 && cx.tapes.len() < 20_000 {
                    if let Some(r) = cx.raw.take() {
                        cx.tapes.push(format!("raw {} {} {r}", rt::steps(), new as u8));
                    } else if !w.quiet || w.name != "c15_raw" {
                    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
                    cx.tapes.push(format!("{} {} {} {}", w.name, rt::steps(), new as u8, t.join(" ")));
                    }
                }
                if new && w.guided && tape.len() <= 4_000 {
                    let t = rt::tls();
                    let m = t.ncmp.min(t.cmps.len());
                    let step = (m / 48).max(1);
                    let cmps = t.cmps[..m].iter().step_by(step).copied().collect();
                    corpus.push(Entry { tape, cmps });
                    if corpus.len() > 3000 {
                        corpus.drain(..1000);
                    }
                }
            }
            Out::Bad(m) => {
                stop.store(true, Relaxed);
                let (t, m) = shrink(&w, known, tape, m, dict);
                found = Some(Found { workload: w.name, tape: t, msg: m, internal: false });
                break;
            }
            Out::Internal(m) => {
                stop.store(true, Relaxed);
                found = Some(Found { workload: w.name, tape, msg: m, internal: true });
                break;
            }
        }
        rt::slot_idle();
    }
    rt::slot_idle();
    let v = rt::tls().virgin.clone();
    Done { cx, evals, corpus: corpus.len(), edges: v.iter().filter(|x| **x != 0).count(), found, virgin: v }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn load_dict(p: Option<&String>) -> Dict {
    let mut d = Dict::default();
    if let Some(t) = p.and_then(|p| std::fs::read_to_string(p).ok()) {
        for l in t.lines() {
            match l.split_once(' ') {
                Some(("i", v)) => d.ints.extend(v.parse::<u64>().ok()),
                Some(("s", v)) => d.strs.push((0..v.len() / 2).filter_map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect()),
                _ => {}
            }
        }
    }
    d
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opts: HashMap<String, String> = args.iter().filter_map(|a| a.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let dict = load_dict(opts.get("dict"));
    let known: HashSet<String> = opts.get("known").map(|k| k.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()).unwrap_or_default();
    rt::install_panic_hook();
    if opts.contains_key("common") {
        model::COMMON.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2], &opts, dict, known),
        Some("replay") => replay(&opts, dict, known),
        Some("list") => {
            for w in all_workloads() {
                println!("{}", w.name);
            }
            0
        }
        Some("tapes") => tapes(&opts, known),
        Some("shared") => c_misc::shared_mode(&opts),
        _ => 2,
    };
    std::process::exit(code);
}

/// Runs recorded cases again: `in` file of tapes, `log` of digests, `from`/`step` select a part of the file.
/// Announces each case on standard error if `mark` is given.
fn tapes(opts: &HashMap<String, String>, known: HashSet<String>) -> i32 {
    rt::init_thread();
    c_misc::probe_startup();
    let all = all_workloads();
    let Ok(text) = std::fs::read_to_string(&opts["in"]) else { return 2 };
    let num = |k: &str, d: usize| opts.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let (from, step, mark) = (num("from", 0), num("step", 1), opts.contains_key("mark"));
    let threads = num("threads", 1);
    let lines: Vec<&str> = text.lines().collect();
    let mut todo: Vec<usize> = (from..lines.len()).step_by(step).collect();
    if opts.contains_key("reverse") {
        todo.reverse();
    }
    let logs = std::sync::Mutex::new(vec![None; lines.len()]);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let work = || {
        if !rt::has_tls() {
            rt::init_thread();
        }
        let dict = Dict::default();
        loop {
            let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if k >= todo.len() {
                return;
            }
            let i = todo[k];
            let mut p = lines[i].split(' ');
            let (Some(name), Some(_), Some(_)) = (p.next(), p.next(), p.next()) else { continue };
            if name == "raw" {
                if mark {
                    eprintln!("@{i}");
                }
                let mut cx = Cx::default();
                if let (Some(kind), h) = (p.next(), p.next().unwrap_or("")) {
                    c_misc::exercise_recorded(&mut cx, kind, h);
                }
                logs.lock().unwrap()[i] = Some("raw".into());
                continue;
            }
            let Some(w) = all.iter().find(|w| w.name == name) else { continue };
            let tape: Vec<u64> = p.filter_map(|s| s.parse().ok()).collect();
            if mark {
                eprintln!("@{i}");
            }
            let mut cx = Cx { known: known.clone(), logging: true, ..Default::default() };
            let mut g = Gen::new(&tape, 0, &dict, &[]);
            g.zeros = true;
            let h = match run_case(w, &mut cx, &mut g) {
                Out::Ok => format!("{:016x}", hash(&cx.log)),
                Out::Bad(m) | Out::Internal(m) => format!("bad {}", m.replace('\n', " ")),
            };
            logs.lock().unwrap()[i] = Some(h);
        }
    };
    if threads <= 1 {
        work();
    } else {
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(work);
            }
        });
    }
    if let Some(p) = opts.get("log") {
        let t: String = logs.into_inner().unwrap().into_iter().map(|h| h.unwrap_or_else(|| "-".into()) + "\n").collect();
        if std::fs::write(p, t).is_err() {
            return 2;
        }
    }
    0
}

fn replay(opts: &HashMap<String, String>, dict: Dict, known: HashSet<String>) -> i32 {
    rt::init_thread();
    c_misc::probe_startup();
    let name = &opts["workload"];
    let Some(w) = all_workloads().into_iter().find(|w| w.name == *name) else {
        return 2;
    };
    let Ok(text) = std::fs::read_to_string(&opts["tape"]) else { return 2 };
    let tape: Vec<u64> = text.split_whitespace().filter_map(|s| s.parse().ok()).collect();
    // own thread: same stack size as in the run
    let h = std::thread::spawn(move || {
        rt::init_thread();
        quiet_case(&w, &known, &tape, &dict).0
    });
    match h.join() {
        Ok(Out::Ok) => 0,
        Ok(Out::Bad(m)) => {
            if let Some(o) = opts.get("out") {
                let _ = std::fs::write(o, m);
            }
            1
        }
        Ok(Out::Internal(m)) => {
            if let Some(o) = opts.get("out") {
                let _ = std::fs::write(o, m);
            }
            2
        }
        Err(_) => 2,
    }
}

fn run(prop: &str, opts: &HashMap<String, String>, dict: Dict, known: HashSet<String>) -> i32 {
    let get = |k: &str, d: u64| opts.get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(d);
    let thorough = opts.get("tier").map(|s| s == "thorough").unwrap_or(false);
    let seed = get("seed", 1);
    let threads = get("threads", 8).max(1);
    let scale = opts.get("scale").and_then(|v| v.parse::<f64>().ok()).unwrap_or(1.0);
    let logging = opts.contains_key("log");
    rt::init_thread();
    c_misc::probe_startup();
    let all = all_workloads();
    let mut out = String::from("{\n");
    let mut found: Vec<Found> = vec![];
    let mut vacuous: Vec<String> = vec![];
    let mut parts = vec![];
    let mut total_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut logs: Vec<u64> = vec![];
    let mut tapes: Vec<String> = vec![];
    let record = opts.contains_key("record");
    let mut ran = 0;
    let limit = get("limit", if thorough { 3600 } else { 300 });
    let start = std::time::Instant::now();
    let mut virgin = vec![0u8; rt::MAP];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mine: Vec<(usize, Workload)> = all.iter().copied().enumerate().filter(|(_, w)| w.prop == prop && opts.get("only").is_none_or(|o| o.split(',').any(|x| x == w.name))).collect();
    for (pos, (idx, w)) in mine.iter().enumerate() {
        let (idx, mut w) = (*idx, *w);
        w.guided |= record;
        ran += 1;
        let budget = limit as f64 * (pos + 1) as f64 / mine.len() as f64;
        let deadline = start + std::time::Duration::from_secs_f64(budget);
        let n = if w.quick == 1 { 1 } else { ((w.quick * if thorough { w.deep } else { 1 }) as f64 * scale).ceil() as u64 };
        let stop = std::sync::atomic::AtomicBool::new(false);
        let nt = threads.min(n);
        let dones: Vec<Done> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nt)
                .map(|t| {
                    let (dict, known, stop) = (&dict, &known, &stop);
                    let slot = opts.get("slots").map(|d| format!("{d}/slot{t}"));
                    let per = n / nt + (t < n % nt) as u64;
                    let sd = hash(&(seed, w.name, t));
                    std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || worker(idx, w, record, per, sd, dict, known, slot, deadline, stop, logging, t, nt)).expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut counters: BTreeMap<&str, u64> = BTreeMap::new();
        let mut maxima: BTreeMap<&str, u64> = BTreeMap::new();
        let mut seen: HashSet<u64> = HashSet::new();
        let mut samples = vec![];
        let (mut evals, mut corpus) = (0, 0);
        let mut wv = vec![0u8; rt::MAP];
        for d in dones {
            evals += d.evals;
            corpus += d.corpus;
            let _ = d.edges;
            for (i, x) in d.virgin.iter().enumerate() {
                wv[i] |= x;
                virgin[i] |= x;
            }
            for (k, v) in d.cx.counters {
                *counters.entry(k).or_insert(0) += v;
            }
            for (k, v) in d.cx.maxima {
                let e = maxima.entry(k).or_insert(0);
                *e = (*e).max(v);
            }
            for (k, v) in d.cx.known_hits {
                *total_known.entry(k).or_insert(0) += v;
            }
            logs.extend(&d.cx.log);
            tapes.extend(d.cx.tapes);
            seen.extend(d.cx.seen.iter().map(|x| x ^ hash(&w.name)));
            if samples.len() < 3 {
                samples.extend(d.cx.samples);
            }
            if let Some(f) = d.found {
                found.push(f);
            }
        }
        samples.truncate(3);
        if found.is_empty() {
            for k in w.need {
                if counters.get(k).copied().unwrap_or(0) == 0 {
                    vacuous.push(format!("{}: {k}", w.name));
                }
            }
        }
        let cs: Vec<String> = counters.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        let ms: Vec<String> = maxima.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        let ss: Vec<String> = samples.iter().map(|s| js(s)).collect();
        parts.push(format!(
            "{{\"name\": {}, \"evaluations\": {evals}, \"distinct_nontrivial\": {}, \"corpus\": {corpus}, \"edges\": {}, \"counters\": {{{}}}, \"maxima\": {{{}}}, \"samples\": [{}]}}",
            js(w.name),
            seen.len(),
            wv.iter().filter(|x| **x != 0).count(),
            cs.join(", "),
            ms.join(", "),
            ss.join(", ")
        ));
        distinct.extend(seen);
        if !found.is_empty() {
            break;
        }
    }
    if ran == 0 {
        vacuous.push("no workload".into());
    }
    out.push_str(&format!("\"workloads\": [{}],\n", parts.join(",\n")));
    out.push_str(&format!("\"edges_total\": {},\n\"edges\": {},\n", rt::NGUARDS.load(std::sync::atomic::Ordering::Relaxed), virgin.iter().filter(|x| **x != 0).count()));
    out.push_str(&format!("\"distinct\": {},\n", distinct.len()));
    out.push_str(&format!("\"vacuous\": [{}],\n", vacuous.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    let probes: Vec<String> = c_misc::known_probes(prop, &known).iter().map(|(k, v)| format!("[{}, {}]", js(k), js(v))).collect();
    out.push_str(&format!("\"known\": [{}],\n", probes.join(", ")));
    out.push_str(&format!("\"known_hits\": {{{}}},\n", total_known.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ")));
    let fs: Vec<String> = found
        .iter()
        .map(|f| format!("{{\"workload\": {}, \"internal\": {}, \"message\": {}, \"tape\": [{}]}}", js(f.workload), f.internal, js(&f.msg), f.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    out.push_str(&format!("\"found\": [{}]\n}}\n", fs.join(",\n")));
    if let Some(p) = opts.get("out") {
        if std::fs::write(p, out).is_err() {
            return 2;
        }
    }
    if let Some(p) = opts.get("log") {
        let t: String = logs.iter().map(|h| format!("{h:016x}\n")).collect();
        if std::fs::write(p, t).is_err() {
            return 2;
        }
    }
    if let Some(p) = opts.get("record") {
        if std::fs::write(p, tapes.join("\n")).is_err() {
            return 2;
        }
    }
    if !found.is_empty() {
        1
    } else if !vacuous.is_empty() {
        3
    } else {
        0
    }
}
