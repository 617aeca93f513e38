//! The monitored parser call: what is observed of one execution, and the
//! guards which turn panics, runaway work, runaway memory and crashes into
//! observations instead of harness failures.
use crate::term::*;
use ruruby_parse::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::Mutex;

// ---- allocation monitor --------------------------------------------------

pub struct Counting;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn note(n: i64) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let live = LIVE.get() + n;
            LIVE.set(live);
            if n > 0 {
                TOTAL.set(TOTAL.get() + n as u64);
                COUNT.set(COUNT.get() + 1);
                if live > PEAK.get() {
                    PEAK.set(live);
                    if live > CAP.get() {
                        a.set(false);
                        runaway("memory", &format!("{} bytes live in one parse", live));
                    }
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64);
        let r = System.realloc(p, l, n);
        note(-(l.size() as i64));
        r
    }
}

// ---- inputs and outcomes -------------------------------------------------

/// How the text is given to the parser.
#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Program,
    Eval(Option<Ctx>),
    Binding(Option<Vec<String>>, Option<Ctx>),
}

/// A surrounding context: names and their depths.
#[derive(Clone, Debug, PartialEq)]
pub struct Ctx(pub Vec<(String, usize)>);

impl LocalsContext for Ctx {
    fn find_lvar(&self, id: &str) -> Option<usize> {
        self.0.iter().find(|(n, _)| n == id).map(|(_, d)| *d)
    }
}

/// What one call of the parser was observed to do.
pub enum Obs {
    Ok(ParseResult),
    Err(ParseErr),
    Panic(String),
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub allocs: u64,
    pub bytes: u64,
    pub peak: i64,
    pub cpu_ns: u64,
}

impl Obs {
    pub fn brief(&self) -> String {
        match self {
            Obs::Ok(r) => {
                let s = norm(&r.node).to_string();
                format!("accepted as {}", clip_str(&s, 600))
            }
            Obs::Err(e) => format!("rejected: {:?} at {:?}", e.kind, e.loc),
            Obs::Panic(m) => format!("panicked: {}", m),
        }
    }
}

pub fn clip_str(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

fn call(entry: &Entry, src: String, path: PathBuf) -> Result<ParseResult, ParseErr> {
    match entry {
        Entry::Program => Parser::parse_program(src, path),
        Entry::Eval(c) => Parser::<Ctx>::parse_program_eval(src, path, c.as_ref()),
        Entry::Binding(t, c) => {
            let table = t.as_ref().map(|names| {
                let mut l = LvarCollector::new();
                for n in names {
                    l.insert(n);
                }
                l
            });
            Parser::<Ctx>::parse_program_binding(src, path, table, c.as_ref())
        }
    }
}

// ---- slots: what every worker thread is doing ------------------------------

pub const MAXT: usize = 16;
struct Slot {
    busy: AtomicBool,
    seq: AtomicU64,
    /// CPU time of the thread at the start of the call, and its limit.
    start: AtomicU64,
    limit: AtomicU64,
    clock: AtomicI64,
    what: Mutex<(String, String)>,
}
static SLOTS: [Slot; MAXT] = [const {
    Slot {
        busy: AtomicBool::new(false),
        seq: AtomicU64::new(0),
        start: AtomicU64::new(0),
        limit: AtomicU64::new(0),
        clock: AtomicI64::new(i64::MAX),
        what: Mutex::new((String::new(), String::new())),
    }
}; MAXT];

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static SLOTFILE: Cell<Option<&'static std::fs::File>> = const { Cell::new(None) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Called once for a runaway parse; must not return.
type Report = Box<dyn Fn(&str, &str, &str) + Send + Sync>;
static REPORT: Mutex<Option<Report>> = Mutex::new(None);

pub fn on_runaway(f: Report) {
    *REPORT.lock().unwrap() = Some(f);
}

fn runaway(kind: &str, detail: &str) -> ! {
    let me = ME.get();
    let (desc, src) = if me < MAXT {
        let g = SLOTS[me].what.lock().unwrap();
        (g.0.clone(), g.1.clone())
    } else {
        Default::default()
    };
    report_runaway(kind, detail, &desc, &src)
}

fn report_runaway(kind: &str, detail: &str, desc: &str, src: &str) -> ! {
    if let Some(f) = &*REPORT.lock().unwrap() {
        f(&format!("{}: {}", kind, detail), desc, src);
    }
    std::process::exit(3)
}

fn clock_ns(id: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(id, &mut ts) };
    if r != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn thread_cpu() -> u64 {
    clock_ns(libc::CLOCK_THREAD_CPUTIME_ID)
}

/// Register the current thread as worker `i`; its inputs are written to `file`
/// before every call, so that they survive an abort of the process.
pub fn enter(i: usize, file: Option<std::fs::File>) {
    ME.set(i);
    if let Some(f) = file {
        SLOTFILE.set(Some(Box::leak(Box::new(f))));
    }
    let mut id: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
    SLOTS[i].clock.store(id as i64, SeqCst);
}

pub fn leave() {
    let me = ME.get();
    SLOTS[me].busy.store(false, SeqCst);
    SLOTS[me].clock.store(i64::MAX, SeqCst);
}

/// Watch the processor time used by every call.
pub fn spawn_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(300));
        for s in &SLOTS {
            let id = s.clock.load(SeqCst);
            if id == i64::MAX || !s.busy.load(SeqCst) {
                continue;
            }
            let seq = s.seq.load(SeqCst);
            let start = s.start.load(SeqCst);
            let now = clock_ns(id as libc::clockid_t);
            let limit = s.limit.load(SeqCst);
            if now > start && now - start > limit && s.busy.load(SeqCst) && s.seq.load(SeqCst) == seq {
                let (desc, src) = {
                    let g = s.what.lock().unwrap();
                    (g.0.clone(), g.1.clone())
                };
                report_runaway(
                    "no end",
                    &format!("{} ms of processor time in one call", (now - start) / 1_000_000),
                    &desc,
                    &src,
                );
            }
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VMON_PANICS").is_some() {
            eprintln!("panic: {} at {}\n{}", m, at, std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", m, at));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Nominal limits: a call on a text of ordinary size takes about a millisecond.
pub const CPU_LIMIT: u64 = 20_000_000_000;
pub const MEM_LIMIT: i64 = 2 << 30;

/// Run `f` under the monitors. `desc` says how to repeat it.
pub fn guard<R>(desc: &str, src: &str, cpu_limit: u64, f: impl FnOnce() -> R) -> (Result<R, String>, Cost) {
    let me = ME.get();
    if me < MAXT {
        let s = &SLOTS[me];
        {
            let mut g = s.what.lock().unwrap();
            g.0.clear();
            g.0.push_str(desc);
            g.1.clear();
            g.1.push_str(src);
        }
        if let Some(f) = SLOTFILE.get() {
            let mut buf = Vec::with_capacity(16 + desc.len() + src.len());
            buf.extend_from_slice(&(desc.len() as u64).to_le_bytes());
            buf.extend_from_slice(&(src.len() as u64).to_le_bytes());
            buf.extend_from_slice(desc.as_bytes());
            buf.extend_from_slice(src.as_bytes());
            let _ = f.write_all_at(&buf, 0);
        }
        s.seq.fetch_add(1, SeqCst);
        s.limit.store(cpu_limit, SeqCst);
        s.start.store(thread_cpu(), SeqCst);
        s.busy.store(true, SeqCst);
    }
    LIVE.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    COUNT.set(0);
    CAP.set(MEM_LIMIT);
    let t0 = thread_cpu();
    ARMED.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.set(false);
    let cost = Cost {
        allocs: COUNT.get(),
        bytes: TOTAL.get(),
        peak: PEAK.get(),
        cpu_ns: thread_cpu().saturating_sub(t0),
    };
    if me < MAXT {
        SLOTS[me].busy.store(false, SeqCst);
    }
    (r.map_err(|_| last_panic()), cost)
}

/// One observed call of the parser.
pub fn observe(entry: &Entry, src: &str, path: &str, cpu_limit: u64) -> (Obs, Cost) {
    let s = src.to_string();
    let p = PathBuf::from(path);
    let desc = describe(entry, path);
    let (r, cost) = guard(&desc, src, cpu_limit, || call(entry, s, p));
    (
        match r {
            Ok(Ok(r)) => Obs::Ok(r),
            Ok(Err(e)) => Obs::Err(e),
            Err(m) => Obs::Panic(m),
        },
        cost,
    )
}

// ---- description of a call, for replays -------------------------------------

pub fn describe(e: &Entry, path: &str) -> String {
    let names = |v: &[String]| v.join("\u{1f}");
    let ctx = |c: &Option<Ctx>| match c {
        None => "-".to_string(),
        Some(c) => format!(
            "+{}",
            c.0.iter().map(|(n, d)| format!("{}={}", n, d)).collect::<Vec<_>>().join("\u{1f}")
        ),
    };
    match e {
        Entry::Program => format!("program\u{1e}{}", path),
        Entry::Eval(c) => format!("eval\u{1e}{}\u{1e}{}", path, ctx(c)),
        Entry::Binding(t, c) => format!(
            "binding\u{1e}{}\u{1e}{}\u{1e}{}",
            path,
            ctx(c),
            match t {
                None => "-".to_string(),
                Some(v) => format!("+{}", names(v)),
            }
        ),
    }
}

pub fn undescribe(s: &str) -> Option<(Entry, String)> {
    let p: Vec<&str> = s.split('\u{1e}').collect();
    let path = p.get(1)?.to_string();
    let list = |s: &str| -> Vec<String> {
        if s.is_empty() {
            vec![]
        } else {
            s.split('\u{1f}').map(|x| x.to_string()).collect()
        }
    };
    let ctx = |s: &str| {
        s.strip_prefix('+').map(|s| {
            Ctx(list(s)
                .iter()
                .filter_map(|x| x.rsplit_once('=').map(|(a, b)| (a.to_string(), b.parse().unwrap_or(0))))
                .collect())
        })
    };
    match *p.first()? {
        "program" => Some((Entry::Program, path)),
        "eval" => Some((Entry::Eval(ctx(p.get(2)?)), path)),
        "binding" => Some((
            Entry::Binding(p.get(3)?.strip_prefix('+').map(list), ctx(p.get(2)?)),
            path,
        )),
        _ => None,
    }
}
