//! The runner of the checks: worker threads, statistics, evidence, replays.
use crate::mon::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Mode {
    pub name: &'static str,
    /// Number of cases in the quick tier.
    pub quick: u64,
    /// Number of cases in the thorough tier.
    pub thorough: u64,
    pub f: fn(&mut Case),
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub modes: Vec<Mode>,
    pub assumptions: &'static [&'static str],
    /// Features which a run has to meet for its silence to mean anything.
    pub must: &'static [&'static str],
}

#[derive(Clone)]
pub struct Viol {
    pub mode: String,
    pub idx: u64,
    pub what: String,
    pub desc: String,
    pub src: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub calls: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub panicked: u64,
    pub bytes: u64,
    pub nodes: u64,
    pub feats: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(String, String)>,
    pub viols: Vec<Viol>,
    pub inconclusive: Vec<String>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.calls += o.calls;
        self.accepted += o.accepted;
        self.rejected += o.rejected;
        self.panicked += o.panicked;
        self.bytes += o.bytes;
        self.nodes += o.nodes;
        for (k, v) in o.feats {
            *self.feats.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            let e = self.maxes.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.iter().filter(|x| x.0 == s.0).count() < 2 {
                self.samples.push(s);
            }
        }
        self.viols.extend(o.viols);
        self.inconclusive.extend(o.inconclusive);
    }
}

pub struct Env {
    pub root: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub prop: String,
}

/// One generated case of a check.
pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub mode: &'static str,
    pub env: &'a Env,
    pub st: &'a mut Stats,
    pub cpu_limit: u64,
    pub cost: Cost,
}

pub fn text_hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}

impl<'a> Case<'a> {
    pub fn thorough(&self) -> bool {
        self.env.thorough
    }
    pub fn hit(&mut self, k: impl Into<String>) {
        *self.st.feats.entry(k.into()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: impl Into<String>, n: u64) {
        *self.st.feats.entry(k.into()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.st.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
    /// Count a case as non-trivial, by its text.
    pub fn nontrivial(&mut self, s: &str) {
        self.st.distinct.insert(text_hash(s));
        if self.st.samples.iter().filter(|x| x.0 == self.mode).count() < 1 {
            self.st.samples.push((self.mode.to_string(), clip_str(s, 1500)));
        }
    }
    pub fn parse_as(&mut self, e: &Entry, src: &str, path: &str) -> Obs {
        let (o, cost) = observe(e, src, path, self.cpu_limit);
        self.cost = cost;
        self.st.calls += 1;
        self.st.bytes += src.len() as u64;
        match &o {
            Obs::Ok(_) => self.st.accepted += 1,
            Obs::Err(_) => self.st.rejected += 1,
            Obs::Panic(_) => self.st.panicked += 1,
        }
        o
    }
    pub fn parse(&mut self, src: &str) -> Obs {
        self.parse_as(&Entry::Program, src, "x.rb")
    }
    pub fn fail_as(&mut self, e: &Entry, path: &str, src: &str, what: impl Into<String>) {
        self.fail_desc(&describe(e, path), src, what)
    }
    pub fn fail_desc(&mut self, desc: &str, src: &str, what: impl Into<String>) {
        self.st.viols.push(Viol {
            mode: self.mode.to_string(),
            idx: self.idx,
            what: what.into(),
            desc: desc.to_string(),
            src: src.to_string(),
        });
    }
    pub fn fail(&mut self, src: &str, what: impl Into<String>) {
        self.fail_as(&Entry::Program, "x.rb", src, what)
    }
    pub fn inconclusive(&mut self, what: impl Into<String>) {
        self.st.inconclusive.push(what.into());
    }
}

// ---- json ------------------------------------------------------------------

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn map_js(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

fn evidence(env: &Env, check: &Check, st: &Stats, wall: f64, notes: &[String]) -> String {
    let samples: Vec<String> = st
        .samples
        .iter()
        .map(|(m, s)| format!("{{\"mode\": {}, \"case\": {}}}", js(m), js(s)))
        .collect();
    let strs = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    let assumptions: Vec<String> = check.assumptions.iter().map(|s| s.to_string()).collect();
    format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n\
         \"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [{}],\n\
         \"parser_calls\": {},\n\"accepted\": {},\n\"rejected\": {},\n\"panics\": {},\n\"bytes_parsed\": {},\n\"tree_nodes_compared\": {},\n\
         \"observed\": {},\n\"maxima\": {},\n\"inconclusive\": [{}],\n\"notes\": [{}]\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.3},\n\"violations\": {}\n}}\n",
        js(&env.prop),
        js(if env.thorough { "thorough" } else { "quick" }),
        env.seed,
        st.evals.max(st.calls),
        st.distinct.len(),
        js(check.rule),
        samples.join(",\n"),
        st.calls,
        st.accepted,
        st.rejected,
        st.panicked,
        st.bytes,
        st.nodes,
        map_js(&st.feats),
        map_js(&st.maxes),
        strs(&st.inconclusive[..st.inconclusive.len().min(10)]),
        strs(notes),
        strs(&assumptions),
        wall,
        st.viols.len()
    )
}

// ---- known findings ----------------------------------------------------------

/// Lines `known: property=<id> input=<hex hash of the text> <what fails>`.
fn known_findings(env: &Env) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(env.root.join("known_findings.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            if p != env.prop {
                return None;
            }
            let (i, what) = rest.strip_prefix("input=")?.split_once(' ')?;
            Some((i.to_string(), what.to_string()))
        })
        .collect()
}

// ---- worker --------------------------------------------------------------------

pub fn stream_id(prop: &str, mode: &str) -> u64 {
    text_hash(&format!("{}/{}", prop, mode))
}

const STACK: usize = 512 << 20;

pub fn worker(env: Env, check: Check, only: Option<(String, u64)>, slots: Option<PathBuf>) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    let shared = Arc::new(Mutex::new(Stats::default()));
    let env = Arc::new(env);
    let check = Arc::new(check);
    {
        let (shared, env, check) = (shared.clone(), env.clone(), check.clone());
        on_runaway(Box::new(move |what, desc, src| {
            let st = shared.lock();
            let mut st = match st {
                Ok(s) => s,
                Err(e) => e.into_inner(),
            };
            st.viols.push(Viol {
                mode: "runaway".into(),
                idx: 0,
                what: what.to_string(),
                desc: desc.to_string(),
                src: src.to_string(),
            });
            let code = finish(&env, &check, &st, t0.elapsed().as_secs_f64(), &["stopped by a runaway call".to_string()]);
            std::process::exit(code);
        }));
    }
    spawn_watchdog();
    // A part of the cases, for slow builds.
    let part: u64 = std::env::var("VMON_PERMILLE").ok().and_then(|s| s.parse().ok()).unwrap_or(1000);
    let modes = std::env::var("VMON_MODES").ok();
    let plan: Vec<(usize, u64)> = check
        .modes
        .iter()
        .enumerate()
        .map(|(i, m)| {
            let n = if env.thorough { m.thorough } else { m.thorough.min(m.quick * 3) };
            let on = modes.as_ref().map_or(true, |l| l.split(',').any(|x| x == m.name));
            (i, if on { (n * part).div_ceil(1000) } else { 0 })
        })
        .collect();
    let total: u64 = plan.iter().map(|p| p.1).sum();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let nviol = Arc::new(AtomicUsize::new(0));
    let max_viol: usize = std::env::var("VMON_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    let limit = Duration::from_secs(if env.thorough { 3000 } else { 240 });
    let nthreads = std::env::var("VMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).clamp(1, MAXT);
    let mut hs = vec![];
    for ti in 0..nthreads {
        let (env, check, shared, next, stop, nviol, plan, only, slots) = (
            env.clone(),
            check.clone(),
            shared.clone(),
            next.clone(),
            stop.clone(),
            nviol.clone(),
            plan.clone(),
            only.clone(),
            slots.clone(),
        );
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let file = slots.and_then(|d| std::fs::File::create(d.join(format!("slot{}", ti))).ok());
                enter(ti, file);
                let mut st = Stats::default();
                let mut run = |mi: usize, idx: u64, st: &mut Stats| {
                    let m = &check.modes[mi];
                    let before = st.viols.len();
                    let mut c = Case {
                        rng: Rng::stream(env.seed ^ stream_id(&env.prop, m.name), idx),
                        idx,
                        mode: m.name,
                        env: &env,
                        st,
                        cpu_limit: CPU_LIMIT,
                        cost: Cost::default(),
                    };
                    c.st.evals += 1;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (m.f)(&mut c)));
                    if r.is_err() {
                        c.inconclusive(format!("harness: {} in {} {}", last_panic(), m.name, idx));
                    }
                    *st.feats.entry(format!("mode:{}", m.name)).or_insert(0) += 1;
                    nviol.fetch_add(st.viols.len() - before, SeqCst);
                };
                if let Some((mode, idx)) = &only {
                    if ti == 0 {
                        let mi = check.modes.iter().position(|m| m.name == mode).expect("mode");
                        run(mi, *idx, &mut st);
                    }
                } else {
                    loop {
                        // Interleave the modes, so that a stop cuts all of them.
                        let k = next.fetch_add(1, SeqCst);
                        if k >= total || stop.load(SeqCst) {
                            break;
                        }
                        let (mi, idx) = locate(&plan, total, k);
                        run(mi, idx, &mut st);
                        if k % 512 == 0 {
                            if t0.elapsed() > limit {
                                stop.store(true, SeqCst);
                            }
                            let s = std::mem::take(&mut st);
                            shared.lock().unwrap().merge(s);
                        }
                        if nviol.load(SeqCst) >= max_viol {
                            stop.store(true, SeqCst);
                        }
                    }
                }
                leave();
                shared.lock().unwrap().merge(st);
            })
            .unwrap();
        hs.push(h);
    }
    for h in hs {
        let _ = h.join();
    }
    let st = shared.lock().unwrap();
    let mut notes: Vec<String> = std::env::var("VMON_NOTE").into_iter().collect();
    if only.is_none() && st.evals < total && st.viols.is_empty() {
        notes.push(format!("stopped by the time limit after {} of {} cases", st.evals, total));
    }
    if only.is_some() {
        for v in &st.viols {
            println!("{}\n--- {} ---\n{}", v.what, v.desc.replace('\u{1e}', " "), v.src);
        }
        for v in &st.inconclusive {
            println!("inconclusive: {}", v);
        }
        println!("{} violations", st.viols.len());
        return 0;
    }
    finish(&env, &check, &st, t0.elapsed().as_secs_f64(), &notes)
}

/// The k-th of all cases, the modes evenly mixed.
fn locate(plan: &[(usize, u64)], total: u64, k: u64) -> (usize, u64) {
    // A fixed permutation of 0..total, then cut by mode.
    let step = [1_000_003u64, 999_983, 998_244_353, 7_919]
        .into_iter()
        .find(|s| gcd(*s, total) == 1)
        .unwrap_or(1);
    let mut x = ((k as u128 * step as u128) % total as u128) as u64;
    for (m, n) in plan {
        if x < *n {
            return (*m, x);
        }
        x -= n;
    }
    unreachable!()
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Write the evidence and the verdict.
fn finish(env: &Env, check: &Check, st: &Stats, wall: f64, notes: &[String]) -> i32 {
    let mut notes = notes.to_vec();
    let known = known_findings(env);
    let mut viols: Vec<&Viol> = vec![];
    let mut seen_known: HashSet<String> = HashSet::new();
    for v in &st.viols {
        let id = format!("{:016x}", text_hash(&v.src));
        if known.iter().any(|(i, _)| *i == id) {
            seen_known.insert(id);
        } else {
            viols.push(v);
        }
    }
    for (_, what) in &known {
        println!("KNOWN-FINDING: property={} {}", env.prop, what);
    }
    let all = std::env::var_os("VMON_MODES").is_none();
    let missing: Vec<&str> = check
        .must
        .iter()
        .filter(|_| all)
        .filter(|m| st.feats.get(**m).copied().unwrap_or(0) == 0)
        .copied()
        .collect();
    if !missing.is_empty() {
        notes.push(format!("never observed: {}", missing.join(", ")));
    }
    let dir = env.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let text = evidence(env, check, st, wall, &notes);
    let f = dir.join(format!("{}.json", env.prop));
    if let Err(e) = std::fs::write(&f, text) {
        eprintln!("cannot write {}: {}", f.display(), e);
        return 2;
    }
    viols.sort_by_key(|v| v.src.len());
    if !viols.is_empty() {
        let path = write_replay(env, &viols);
        let v = viols[0];
        if let Some(n) = std::env::var("VMON_LIST").ok().and_then(|s| s.parse::<usize>().ok()) {
            for v in viols.iter().take(n) {
                println!("* [{}] {:?}: {}", v.mode, clip_str(&v.src, 300), clip_str(&v.what, 300));
            }
        }
        println!("{} violation(s); shortest:", viols.len());
        println!("{}", clip_str(&v.what, 3000));
        println!("--- input ({}) ---\n{}\n---", v.desc.replace('\u{1e}', " "), clip_str(&v.src, 2000));
        println!("VIOLATION property={} replay={}", env.prop, path.display());
        return 1;
    }
    let _ = std::fs::remove_file(env.root.join("replays").join(format!("{}.txt", env.prop)));
    for i in st.inconclusive.iter().take(5) {
        println!("inconclusive: {}", i);
    }
    if st.inconclusive.len() as u64 * 10 > st.evals.max(1) || !missing.is_empty() || st.distinct.is_empty() {
        println!("inconclusive: {} {}", st.inconclusive.len(), notes.join("; "));
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial), {} parser calls, {} accepted, {} rejected, {:.1} s",
        env.prop,
        st.evals.max(st.calls),
        st.distinct.len(),
        st.calls,
        st.accepted,
        st.rejected,
        wall
    );
    0
}

fn write_replay(env: &Env, viols: &[&Viol]) -> PathBuf {
    let dir = env.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.txt", env.prop));
    if let Ok(mut f) = std::fs::File::create(&path) {
        let v = viols[0];
        let _ = writeln!(f, "property {} seed {} mode {} case {}", env.prop, env.seed, v.mode, v.idx);
        let _ = writeln!(f, "again: VERIF_SEED={} bash run.sh {} {} {}", env.seed, env.prop, v.mode, v.idx);
        let _ = writeln!(f, "what: {}", v.what);
        let _ = writeln!(f, "call: {}", v.desc.replace('\u{1e}', " "));
        let _ = writeln!(f, "input bytes: {}", v.src.len());
        let _ = writeln!(f, "input as a literal: {:?}", clip_str(&v.src, 100_000));
        let _ = writeln!(f, "input:\n{}", v.src);
        for v in viols.iter().skip(1).take(20) {
            let _ = writeln!(f, "---- also: mode {} case {}: {}\n{:?}", v.mode, v.idx, clip_str(&v.what, 500), clip_str(&v.src, 2000));
        }
    }
    path
}

// ---- supervisor -------------------------------------------------------------------

/// Run the worker in a process of its own, and turn an abort of it into a
/// verdict by repeating what its threads were doing.
pub fn supervise(env: Env, check: Check) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let slots = std::env::temp_dir().join(format!("vmon-{}-{}", env.prop, std::process::id()));
    let _ = std::fs::create_dir_all(&slots);
    let mut child = match std::process::Command::new(&exe)
        .args(["work", &env.prop])
        .env("VMON_SLOTS", &slots)
        .env("VMON_ROOT", &env.root)
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let limit = Duration::from_secs(if env.thorough { 6000 } else { 700 });
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    let code = match status {
        Some(s) if s.code().is_some() => s.code().unwrap(),
        None => {
            println!("inconclusive: no verdict within {} s", limit.as_secs());
            2
        }
        Some(s) => {
            println!("the monitored process died: {}", s);
            let st = confirm(&exe, &slots);
            if st.viols.is_empty() {
                println!("inconclusive: the death could not be repeated");
                2
            } else {
                finish(&env, &check, &st, t0.elapsed().as_secs_f64(), &["stopped by the death of the process".to_string()])
            }
        }
    };
    remove_slots(&slots);
    code
}

fn remove_slots(d: &Path) {
    for i in 0..MAXT {
        let _ = std::fs::remove_file(d.join(format!("slot{}", i)));
    }
    let _ = std::fs::remove_dir(d);
}

pub fn read_slot(p: &Path) -> Option<(String, String)> {
    let mut b = vec![];
    std::fs::File::open(p).ok()?.read_to_end(&mut b).ok()?;
    let dl = u64::from_le_bytes(b.get(0..8)?.try_into().ok()?) as usize;
    let sl = u64::from_le_bytes(b.get(8..16)?.try_into().ok()?) as usize;
    let d = String::from_utf8_lossy(b.get(16..16 + dl)?).to_string();
    let s = String::from_utf8_lossy(b.get(16 + dl..16 + dl + sl)?).to_string();
    Some((d, s))
}

fn confirm(exe: &Path, slots: &Path) -> Stats {
    use std::os::unix::process::ExitStatusExt;
    let mut st = Stats::default();
    for i in 0..MAXT {
        let p = slots.join(format!("slot{}", i));
        let Some((desc, src)) = read_slot(&p) else {
            continue;
        };
        st.evals += 1;
        let out = std::process::Command::new(exe).arg("one").arg(&p).output();
        if let Ok(o) = out {
            // A kill from outside (out of memory) says nothing about the parser.
            if let Some(sig) = o.status.signal().filter(|s| *s != 9) {
                st.viols.push(Viol {
                    mode: "abort".into(),
                    idx: 0,
                    what: format!(
                        "the process died of signal {} ({})",
                        sig,
                        clip_str(&String::from_utf8_lossy(&o.stderr), 300)
                    ),
                    desc,
                    src,
                });
            }
        }
    }
    st.distinct = st.viols.iter().map(|v| text_hash(&v.src)).collect();
    st
}

/// Repeat the call in a slot file.
pub fn one(p: &Path) -> i32 {
    let Some((desc, src)) = read_slot(p) else {
        return 2;
    };
    install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            if let Some((e, path)) = undescribe(&desc) {
                let (o, _) = observe(&e, &src, &path, CPU_LIMIT);
                println!("{}", o.brief());
            } else {
                println!("not a call of the parser: {}", desc);
            }
        })
        .unwrap();
    let _ = h.join();
    0
}
