//! C02: the result depends on nothing but the text, the path and the context.
use super::common::*;
use super::robust::any_entry;
use crate::mon::*;
use crate::mutate::*;
use crate::rng::Rng;
use crate::run::*;
use std::collections::HashSet;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier};

pub fn c02() -> Check {
    Check {
        id: "C02",
        rule: "everything a call returns (tree with locations, variable table, text and path; kind, location, text and path of an error) is written out and compared, byte for byte, with what the \
               same call returns again, after other calls (failed ones, the same text with another context or path, other texts with the same path), on another thread, while other threads \
               parse, in a process which did the calls in another order, and in a process of its own with another environment",
        modes: vec![
            Mode { name: "again", quick: 100_000, thorough: 1_500_000, f: again },
            Mode { name: "history", quick: 10_000, thorough: 150_000, f: history },
            Mode { name: "variants", quick: 12_000, thorough: 200_000, f: variants },
            Mode { name: "threads", quick: 1_500, thorough: 12_000, f: threads },
            Mode { name: "process", quick: 400, thorough: 4_000, f: process },
            Mode { name: "fresh", quick: 3_000, thorough: 20_000, f: fresh },
        ],
        assumptions: &["a call which panics is compared by its message here; that it must not panic is C01"],
        must: &[
            "text:program", "text:changed", "text:pieces", "entry:program", "entry:eval", "entry:binding", "after-failure", "after-success", "same text, other context", "same text, other path",
            "overlapping calls", "calls in other processes", "order: reversed", "order: shuffled", "first call of a process",
        ],
    }
}

/// Everything which can be seen of the result.
pub fn digest(o: &Obs) -> String {
    match o {
        Obs::Ok(r) => format!("ok {:?}\n{:?}\n{:?}\n{:?}", r.node, r.lvar_collector, r.source_info.path, r.source_info.code),
        Obs::Err(e) => format!("err {:?} {:?}\n{:?}\n{:?}", e.kind, e.loc, e.source_info.path, e.source_info.code),
        Obs::Panic(m) => format!("panic {}", m),
    }
}

fn differ(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let from = |s: &str| -> String {
        let mut i = n.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        clip_str(&s[i..], 300)
    };
    format!("...{}  AGAINST  ...{}", from(a), from(b))
}

type Call = (Entry, String, String);

fn same(c: &mut Case, k: &Call, was: &str, now: &str, when: &str) -> bool {
    if was != now {
        c.fail_as(&k.0, &k.1, &k.2, format!("{}: {}", when, differ(was, now)));
        return false;
    }
    true
}

fn run(c: &mut Case, k: &Call) -> String {
    let o = c.parse_as(&k.0, &k.2, &k.1);
    c.hit(if matches!(o, Obs::Ok(_)) { "accepted" } else { "rejected" });
    digest(&o)
}

const PATHS: &[&str] = &["x.rb", "x.rb", "", "lib/a b.rb", "/tmp/é.rb", "y.rb"];

/// Texts with many names, whose order is visible in the tables.
fn names(r: &mut Rng) -> String {
    let n = 2 + r.below(14);
    let mut s = String::new();
    for _ in 0..n {
        let a = r.below(20);
        let b = r.below(20);
        match r.below(6) {
            0 => s.push_str(&format!("a{} = 1\n", a)),
            1 => s.push_str(&format!("a{}, *a{} = 1, 2\n", a, b)),
            2 => s.push_str(&format!("foo {{ |a{}, (b{}, c{}), d: a{}| e{} = a{} }}\n", a, b, b, b, a, b)),
            3 => s.push_str(&format!("foo {{ _1 + _2; a{} = a{} }}\n", a, b)),
            4 => s.push_str(&format!("def f(a{}, b = a{}, *c, k: 1, **o, &g) a{} = g end\n", a, a, b)),
            _ => s.push_str(&format!("for a{}, a{} in 1..2 do a{} = 1 end\n", a, b + 20, b)),
        }
    }
    s
}

fn a_call(c: &mut Case) -> Call {
    let s = if c.rng.p(1, 4) {
        c.hit("text:names");
        names(&mut c.rng)
    } else {
        any_text(c)
    };
    let e = any_entry(c);
    (e, c.rng.s(PATHS).to_string(), s)
}

fn again(c: &mut Case) {
    let k = a_call(c);
    c.nontrivial(&k.2);
    let a = run(c, &k);
    for _ in 0..2 {
        let b = run(c, &k);
        if !same(c, &k, &a, &b, "the same call again") {
            return;
        }
    }
}

/// A sequence of calls, then the same calls in another order.
fn history(c: &mut Case) {
    let n = 3 + c.rng.below(10);
    let calls: Vec<Call> = (0..n).map(|_| a_call(c)).collect();
    let mut was = vec![];
    let mut failed = false;
    for (i, k) in calls.iter().enumerate() {
        c.nontrivial(&k.2);
        let d = run(c, k);
        if i > 0 {
            c.hit(if failed { "after-failure" } else { "after-success" });
        }
        failed = !d.starts_with("ok");
        was.push(d);
    }
    for _ in 0..2 {
        let mut order: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut order);
        for i in order {
            let d = run(c, &calls[i]);
            if !same(c, &calls[i], &was[i], &d, &format!("after {} other calls", n)) {
                return;
            }
        }
    }
}

/// Calls which differ in one thing only, so that anything kept under a part of
/// the input would be found; compared with a fresh process.
fn variants(c: &mut Case) {
    let k = a_call(c);
    let mut v = vec![k.clone()];
    v.push((any_entry(c), k.1.clone(), k.2.clone()));
    c.hit("same text, other context");
    v.push((k.0.clone(), format!("{}x", k.1), k.2.clone()));
    c.hit("same text, other path");
    // A text of the same length.
    let t: String = k.2.chars().map(|x| if x.is_ascii_lowercase() { ((x as u8 - b'a' + 1) % 26 + b'a') as char } else { x }).collect();
    v.push((k.0.clone(), k.1.clone(), t));
    // The same length and characters, with the lines ended elsewhere.
    let tail = c.rng.s(&["", "\n__LINE__", "\n[__LINE__, __FILE__]", ";a0 = 1 if", " )"]);
    let t = format!("{}{}", k.2, tail);
    let u: String = t.chars().map(|x| if x == '\n' || x == ';' || x == ' ' { if c.rng.p(1, 4) { *c.rng.pick(&['\n', ';', ' ']) } else { x } } else { x }).collect();
    v.push((k.0.clone(), k.1.clone(), t));
    v.push((k.0.clone(), k.1.clone(), u));
    let mut lines: Vec<&str> = k.2.lines().collect();
    c.rng.shuffle(&mut lines);
    v.push((k.0.clone(), k.1.clone(), lines.join("\n")));
    c.hit("same length");
    // The same beginning.
    v.push((k.0.clone(), k.1.clone(), cut(&mut c.rng, &k.2)));
    // The same end.
    v.push((k.0.clone(), k.1.clone(), format!("a0 = 1\n{}", k.2)));
    let was: Vec<String> = v.iter().map(|k| run(c, k)).collect();
    c.nontrivial(&k.2);
    // Changing the path changes the path, and what __FILE__ says.
    if !k.2.contains("__FILE__") {
        let strip = |s: &str, p: &str| s.replacen(&format!("\n{:?}\n", std::path::PathBuf::from(p)), "\nPATH\n", 1);
        if strip(&was[0], &k.1) != strip(&was[2], &v[2].1) {
            c.fail_as(&k.0, &k.1, &k.2, format!("with the path {:?}: {}", v[2].1, differ(&was[0], &was[2])));
            return;
        }
    }
    let mut order: Vec<usize> = (0..v.len()).collect();
    c.rng.shuffle(&mut order);
    for i in order {
        let d = run(c, &v[i]);
        if !same(c, &v[i], &was[i], &d, "after calls which differ in one thing") {
            return;
        }
    }
    if c.idx % 40 == 0 {
        let mut back = v.clone();
        back.reverse();
        if let Some(d) = elsewhere(c, &back) {
            for (i, d) in d.iter().rev().enumerate() {
                if !same(c, &v[i], &was[i], d, "in another process, in the reverse order") {
                    return;
                }
            }
        }
    }
}

/// Several threads parse the same texts at once, each in its own order; what
/// they get is what one thread gets alone.
fn threads(c: &mut Case) {
    let n = 6 + c.rng.below(6);
    let calls: Arc<Vec<Call>> = Arc::new((0..n).map(|_| a_call(c)).collect());
    let before = c.rng.coin();
    let mut was: Option<Vec<String>> = None;
    if before {
        was = Some(calls.iter().map(|k| run(c, k)).collect());
    }
    let nt = 2 + c.rng.below(4);
    let rounds = 3;
    let bar = Arc::new(Barrier::new(nt));
    let clock = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for _ in 0..nt {
        let (calls, bar, clock) = (calls.clone(), bar.clone(), clock.clone());
        let mut r = Rng::new(c.rng.next());
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let mut seen = vec![];
            for _ in 0..rounds {
                let mut order: Vec<usize> = (0..calls.len()).collect();
                r.shuffle(&mut order);
                bar.wait();
                for i in order {
                    // Shift the threads against each other.
                    match r.below(4) {
                        0 => std::thread::yield_now(),
                        1 => (0..r.below(3000)).for_each(|_| std::hint::spin_loop()),
                        _ => {}
                    }
                    let k = &calls[i];
                    let a = clock.fetch_add(1, SeqCst);
                    let (o, _) = observe(&k.0, &k.2, &k.1, CPU_LIMIT);
                    let b = clock.fetch_add(1, SeqCst);
                    seen.push((i, a, b, digest(&o)));
                }
            }
            seen
        });
        hs.push(h.unwrap());
    }
    let mut all = vec![];
    for (t, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(v) => all.extend(v.into_iter().map(|(i, a, b, d)| (t, i, a, b, d))),
            Err(_) => c.inconclusive("a thread of the harness failed"),
        }
    }
    let was = match was {
        Some(w) => w,
        None => calls.iter().map(|k| run(c, k)).collect(),
    };
    // The order of beginnings and ends which was seen.
    let mut ev: Vec<(usize, String)> = vec![];
    for (t, i, a, b, _) in &all {
        ev.push((*a, format!("{}:{}<", t, i)));
        ev.push((*b, format!("{}:{}>", t, i)));
        if b - a > 1 {
            c.hit("overlapping calls");
        }
    }
    ev.sort();
    let sig: String = ev.into_iter().map(|x| x.1).collect();
    c.nontrivial(&sig);
    c.hit("interleavings");
    c.add("calls on threads", all.len() as u64);
    c.st.calls += all.len() as u64;
    for (_, i, _, _, d) in &all {
        if !same(c, &calls[*i], &was[*i], d, "while other threads were parsing") {
            return;
        }
    }
}

// ---- other processes -----------------------------------------------------------

fn frame(calls: &[Call]) -> Vec<u8> {
    let mut v = vec![];
    for k in calls {
        let d = describe(&k.0, &k.1);
        v.extend_from_slice(&(d.len() as u64).to_le_bytes());
        v.extend_from_slice(&(k.2.len() as u64).to_le_bytes());
        v.extend_from_slice(d.as_bytes());
        v.extend_from_slice(k.2.as_bytes());
    }
    v
}

/// The helper process: calls on the standard input, digests on the output.
pub fn helper() -> i32 {
    install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(|| {
            let mut b = vec![];
            let _ = std::io::stdin().read_to_end(&mut b);
            let mut out = vec![];
            let mut p = 0;
            while p + 16 <= b.len() {
                let dl = u64::from_le_bytes(b[p..p + 8].try_into().unwrap()) as usize;
                let sl = u64::from_le_bytes(b[p + 8..p + 16].try_into().unwrap()) as usize;
                p += 16;
                let d = String::from_utf8_lossy(&b[p..p + dl]).to_string();
                let s = String::from_utf8_lossy(&b[p + dl..p + dl + sl]).to_string();
                p += dl + sl;
                let Some((e, path)) = undescribe(&d) else {
                    return;
                };
                let (o, _) = observe(&e, &s, &path, CPU_LIMIT);
                let x = digest(&o);
                out.extend_from_slice(&(x.len() as u64).to_le_bytes());
                out.extend_from_slice(x.as_bytes());
            }
            let _ = std::io::stdout().write_all(&out);
        })
        .unwrap();
    h.join().is_err() as i32
}

/// What another process says of these calls.
fn elsewhere(c: &mut Case, calls: &[Call]) -> Option<Vec<String>> {
    let exe = std::env::current_exe().ok()?;
    let mut cmd = std::process::Command::new(exe);
    cmd.args(["helper", "digest"]);
    match c.rng.below(3) {
        0 => {}
        1 => {
            cmd.env_clear();
        }
        _ => {
            cmd.env("LANG", c.rng.s(&["C", "ja_JP.UTF-8", "tr_TR"]))
                .env("LC_ALL", "tr_TR.UTF-8")
                .env("TZ", "Asia/Tokyo")
                .env("HOME", "/nonexistent")
                .env("RUST_BACKTRACE", "1")
                .env("RUBYOPT", "-w")
                .env("NO_COLOR", "1");
        }
    }
    if c.rng.coin() {
        cmd.current_dir("/");
    }
    let mut ch = cmd
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let mut stdin = ch.stdin.take()?;
    let data = frame(calls);
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(&data);
    });
    let out = ch.wait_with_output().ok()?;
    let _ = w.join();
    c.add("calls in other processes", calls.len() as u64);
    c.st.calls += calls.len() as u64;
    let mut v = vec![];
    let mut p = 0;
    while p + 8 <= out.stdout.len() {
        let n = u64::from_le_bytes(out.stdout[p..p + 8].try_into().unwrap()) as usize;
        v.push(String::from_utf8_lossy(out.stdout.get(p + 8..p + 8 + n)?).to_string());
        p += 8 + n;
    }
    if v.len() != calls.len() {
        c.inconclusive(format!("the other process answered {} of {} calls ({})", v.len(), calls.len(), out.status));
        return None;
    }
    Some(v)
}

fn process(c: &mut Case) {
    let n = 100;
    let calls: Vec<Call> = (0..n).map(|_| a_call(c)).collect();
    let was: Vec<String> = calls.iter().map(|k| run(c, k)).collect();
    let mut order: Vec<usize> = (0..n).collect();
    if c.rng.coin() {
        order.reverse();
        c.hit("order: reversed");
    } else {
        c.rng.shuffle(&mut order);
        c.hit("order: shuffled");
    }
    let sent: Vec<Call> = order.iter().map(|i| calls[*i].clone()).collect();
    let Some(d) = elsewhere(c, &sent) else {
        return;
    };
    let mut seen = HashSet::new();
    for (i, d) in order.iter().zip(d) {
        seen.insert(text_hash(&d));
        c.nontrivial(&calls[*i].2);
        if !same(c, &calls[*i], &was[*i], &d, "in another process, in another order") {
            return;
        }
    }
    c.add("distinct results of other processes", seen.len() as u64);
}

fn fresh(c: &mut Case) {
    let k = a_call(c);
    let was = run(c, &k);
    c.nontrivial(&k.2);
    if let Some(d) = elsewhere(c, &[k.clone()]) {
        c.hit("first call of a process");
        same(c, &k, &was, &d[0], "as the first call of a process");
    }
}
