//! Run time of the checks: seeds, cases, verdicts, evidence, watchdog, panic monitor, allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x5851_F42D_4C95_7F2D);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn f01(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h ^ b as u64))
}

// ---------------------------------------------------------------- allocator
pub struct Counting;
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE_BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}
#[cfg(not(any(miri, feature = "san")))]
#[global_allocator]
static GLOBAL: Counting = Counting;

// ---------------------------------------------------------------- context
pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub only_case: Option<u64>,
    pub start: f64,
    pub evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    counters: Mutex<BTreeMap<String, u64>>,
    rules: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    pub workers: usize,
}
static CTX: OnceLock<Ctx> = OnceLock::new();
pub fn ctx() -> &'static Ctx {
    CTX.get().expect("no context")
}

/// Real monotonic seconds, independent of the interposed clock.
pub fn real_secs() -> f64 {
    #[cfg(not(any(miri, feature = "noclock")))]
    {
        extern "C" {
            fn syscall(num: std::os::raw::c_long, ...) -> std::os::raw::c_long;
        }
        let mut ts = [0i64; 2];
        unsafe { syscall(228, 1usize, ts.as_mut_ptr()) };
        ts[0] as f64 + ts[1] as f64 * 1e-9
    }
    #[cfg(any(miri, feature = "noclock"))]
    {
        static T0: OnceLock<std::time::Instant> = OnceLock::new();
        T0.get_or_init(std::time::Instant::now).elapsed().as_secs_f64()
    }
}

pub fn init(id: &str) {
    init_quiet(id);
    install_panic_monitor();
    start_watchdog();
}
/// Without panic monitor and watchdog.
pub fn init_quiet(id: &str) {
    let env = |k: &str| std::env::var(k).ok();
    let _ = CTX.set(Ctx {
        id: id.to_string(),
        thorough: env("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        only_case: env("VERIF_CASE").and_then(|s| s.parse().ok()),
        start: real_secs(),
        evals: AtomicU64::new(0),
        distinct: Mutex::new(HashSet::new()),
        samples: Mutex::new(Vec::new()),
        counters: Mutex::new(BTreeMap::new()),
        rules: Mutex::new(Vec::new()),
        notes: Mutex::new(Vec::new()),
        workers: env("VERIF_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(if cfg!(miri) { 1 } else { 8 }),
    });
}

/// The deep tier?
pub fn thorough() -> bool {
    CTX.get().map(|c| c.thorough).unwrap_or(false)
}

pub fn count(name: &str, n: u64) {
    let mut c = ctx().counters.lock().unwrap();
    let v = c.entry(name.to_string()).or_insert(0);
    *v = v.saturating_add(n);
}
pub fn rule(r: &str) {
    let mut rules = ctx().rules.lock().unwrap();
    if !rules.iter().any(|x| x == r) {
        rules.push(r.to_string());
    }
}
pub fn note(r: &str) {
    let mut n = ctx().notes.lock().unwrap();
    if n.len() < 50 && !n.iter().any(|x| x == r) {
        n.push(r.to_string());
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn write_evidence(violations: u64) {
    let c = ctx();
    let doc = evidence(violations);
    let part = std::env::var("VERIF_EVIDENCE_PART").unwrap_or_default();
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}{}.json", dir, c.id, part), doc);
}
pub fn evidence(violations: u64) -> String {
    let c = ctx();
    let list = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    let mut cov = String::new();
    let _ = write!(
        cov,
        "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]",
        c.evals.load(SeqCst),
        c.distinct.lock().map(|d| d.len()).unwrap_or(0),
        jstr(&c.rules.lock().map(|r| r.join(" | ")).unwrap_or_default()),
        list(&c.samples.lock().map(|s| s.clone()).unwrap_or_default())
    );
    if let Ok(counters) = c.counters.lock() {
        for (k, v) in counters.iter() {
            let _ = write!(cov, ",{}:{}", jstr(&format!("n_{}", k)), v);
        }
    }
    if let Ok(notes) = c.notes.lock() {
        let _ = write!(cov, ",\"notes\":[{}]", list(&notes));
    }
    format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(&c.id),
        jstr(if c.thorough { "thorough" } else { "quick" }),
        c.seed,
        cov,
        jstr("only the executions driven by this run were judged; interposed clock_gettime/nanosleep are faithful to a monotonic clock"),
        real_secs() - c.start,
        violations
    )
}

static FAILED: AtomicBool = AtomicBool::new(false);

pub fn violation(what: &str, history: &str) -> ! {
    if FAILED.swap(true, SeqCst) {
        loop {
            std::thread::park();
        }
    }
    let c = ctx();
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-seed{}.txt", dir, c.id, c.seed);
    let _ = std::fs::write(
        &path,
        format!(
            "property {}\ntier {}\nVERIF_SEED={}\n{}\n\n{}\n",
            c.id,
            if c.thorough { "thorough" } else { "quick" },
            c.seed,
            what,
            history
        ),
    );
    println!("{}", what);
    println!("VIOLATION property={} replay={}", c.id, path);
    write_evidence(1);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

pub fn harness_error(what: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", what);
    std::process::exit(2)
}

// ---------------------------------------------------------------- cases
pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub name: String,
    sig: u64,
    trivial: bool,
    /// what made the case distinct (kept for the first cases only)
    keep: Option<String>,
    slot: Arc<Slot>,
}

pub struct Slot {
    op: Mutex<(String, u64)>, // what, canary at start
    busy: AtomicBool,
    log: Mutex<Vec<String>>,
    title: Mutex<String>,
    beat: AtomicU64,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static CANARY: AtomicU64 = AtomicU64::new(0);
/// Canary cycles (about a millisecond each) after which a stuck operation is a hang.
pub const HANG_CYCLES: u64 = if cfg!(miri) { u64::MAX } else { 25_000 };

thread_local! {
    static CUR: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}

fn new_slot() -> Arc<Slot> {
    let s = Arc::new(Slot {
        op: Mutex::new((String::new(), 0)),
        busy: AtomicBool::new(false),
        log: Mutex::new(Vec::new()),
        title: Mutex::new(String::new()),
        beat: AtomicU64::new(0),
    });
    SLOTS.lock().unwrap().push(s.clone());
    s
}

impl Case {
    /// Appends to the history of this case (shown in the replay file).
    pub fn log(&self, s: impl Into<String>) {
        let mut l = self.slot.log.lock().unwrap();
        if l.len() > 4000 {
            l.drain(0..2000);
        }
        l.push(s.into());
        drop(l);
        self.beat();
    }
    /// Tells the watchdog that the case is alive.
    pub fn beat(&self) {
        self.slot.beat.store(CANARY.load(Relaxed), Relaxed);
    }
    pub fn beater(&self) -> Beater {
        Beater(self.slot.clone())
    }
    /// Makes the case distinct.
    pub fn sig(&mut self, s: &str) {
        if let Some(k) = &mut self.keep {
            k.push_str(s);
            k.push_str("; ");
        }
        self.sig = mix(self.sig ^ hash_str(s));
    }
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    pub fn fail(&self, what: impl AsRef<str>) -> ! {
        let history = self.slot.log.lock().unwrap().join("\n");
        violation(
            &format!("{} case {} (replay with VERIF_CASE={}): {}", ctx().id, self.name, self.seed, what.as_ref()),
            &history,
        )
    }
    pub fn check(&self, ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            self.fail(what())
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&self, got: T, want: T, what: impl FnOnce() -> String) {
        if got != want {
            self.fail(format!("{}: got {:?}, expected {:?}", what(), got, want))
        }
    }
    /// Runs an operation that must return; the watchdog reports it if it hangs.
    pub fn op<T>(&self, what: &str, f: impl FnOnce() -> T) -> T {
        let _g = self.enter(what);
        f()
    }
    fn enter(&self, what: &str) -> OpGuard {
        let prev = std::mem::replace(
            &mut *self.slot.op.lock().unwrap(),
            (what.to_string(), CANARY.load(Relaxed)),
        );
        self.beat();
        OpGuard { slot: self.slot.clone(), prev }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = ctx().samples.lock().unwrap();
        let of = format!("{} [", self.name);
        if v.iter().filter(|s| s.starts_with(&of)).count() < 2 {
            let t = s();
            v.push(format!("{} [{}]: {}", self.name, self.seed, t.chars().take(600).collect::<String>()));
        }
    }
}
#[derive(Clone)]
pub struct Beater(Arc<Slot>);
impl Beater {
    pub fn beat(&self) {
        self.0.beat.store(CANARY.load(Relaxed), Relaxed);
    }
    /// Use in helper threads so that the panic monitor and logs find the case.
    pub fn adopt(&self) {
        let s = self.0.clone();
        CUR.with(|c| *c.borrow_mut() = Some(s));
    }
    pub fn log(&self, s: impl Into<String>) {
        let mut l = self.0.log.lock().unwrap();
        if l.len() > 4000 {
            l.drain(0..2000);
        }
        l.push(s.into());
    }
}
struct OpGuard {
    slot: Arc<Slot>,
    prev: (String, u64),
}
impl Drop for OpGuard {
    fn drop(&mut self) {
        if let Ok(mut o) = self.slot.op.lock() {
            *o = std::mem::take(&mut self.prev);
        }
        self.slot.beat.store(CANARY.load(Relaxed), Relaxed);
    }
}

fn start_watchdog() {
    if cfg!(miri) {
        return;
    }
    std::thread::Builder::new()
        .name("canary".into())
        .spawn(|| loop {
            std::thread::sleep(Duration::from_millis(1));
            let now = CANARY.fetch_add(1, Relaxed) + 1;
            if now % 256 == 0 {
                let slots = SLOTS.lock().unwrap().clone();
                for s in slots {
                    if s.busy.load(SeqCst) && now.saturating_sub(s.beat.load(Relaxed)) > HANG_CYCLES {
                        let op = s.op.lock().unwrap().clone();
                        let title = s.title.lock().unwrap().clone();
                        let log = s.log.lock().unwrap().join("\n");
                        violation(
                            &format!(
                                "{} case {}: hangs in operation '{}' ({} canary cycles without return)",
                                ctx().id, title, op.0, now - s.beat.load(Relaxed)
                            ),
                            &log,
                        );
                    }
                }
            }
        })
        .unwrap();
}
pub fn canary() -> u64 {
    CANARY.load(Relaxed)
}

fn begin_case(slot: &Arc<Slot>, name: &str, seed: u64) -> Case {
    slot.log.lock().unwrap().clear();
    *slot.title.lock().unwrap() = format!("{} [{}]", name, seed);
    *slot.op.lock().unwrap() = ("case body".into(), CANARY.load(Relaxed));
    slot.beat.store(CANARY.load(Relaxed), Relaxed);
    slot.busy.store(true, SeqCst);
    Case {
        rng: Rng::new(seed),
        seed,
        name: name.to_string(),
        sig: hash_str(name),
        trivial: false,
        keep: None,
        slot: slot.clone(),
    }
}
fn end_case(case: Case) {
    case.slot.busy.store(false, SeqCst);
    ctx().evals.fetch_add(1, SeqCst);
    if !case.trivial {
        ctx().distinct.lock().unwrap().insert(case.sig);
    }
}

/// Properties whose quick checks take a few seconds get three times the cases.
const LIGHT: [&str; 21] = [
    "C01", "C02", "C05", "C06", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C24", "C25", "C26", "C27", "C29", "C31",
];
/// Runs `quick` (or `thorough`) cases of `f` on `par` threads.
pub fn run<F>(name: &str, quick: u64, thorough: u64, par: usize, f: F)
where
    F: Fn(&mut Case) + Sync,
{
    let c = ctx();
    if let Ok(only) = std::env::var("VERIF_ONLY") {
        if only != name {
            return;
        }
    }
    let t0 = real_secs();
    let n = if c.thorough { thorough } else { quick };
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(if !c.thorough && LIGHT.contains(&&*c.id) { 3.0 } else { 1.0 });
    let n = ((n as f64 * scale).ceil() as u64).max(1);
    // a generous cap of wall time; reaching it only means fewer cases
    let cap = if c.thorough { 240.0 } else { 40.0 };
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let body = || {
        let slot = new_slot();
        CUR.with(|x| *x.borrow_mut() = Some(slot.clone()));
        loop {
            let i = next.fetch_add(1, SeqCst);
            if i >= n || real_secs() - t0 > cap {
                break;
            }
            let mut seed = mix(mix(c.seed) ^ hash_str(name) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
            if let Some(s) = c.only_case {
                seed = s;
            }
            let mut case = begin_case(&slot, name, seed);
            crate::clock::real();
            if i < 8 {
                case.keep = Some(String::new());
            }
            f(&mut case);
            crate::clock::real();
            if let Some(sigs) = case.keep.take() {
                // workloads that give no sample themselves
                let history = case.slot.log.lock().unwrap().join("; ");
                if !(sigs.is_empty() && history.is_empty()) && !case.trivial {
                    case.sample(|| sigs + &history);
                }
            }
            end_case(case);
            done.fetch_add(1, SeqCst);
            if c.only_case.is_some() && i > 20 {
                break;
            }
        }
        CUR.with(|x| *x.borrow_mut() = None);
    };
    let par = par.min(c.workers).max(1);
    let delays = crate::clock::DELAYS.load(SeqCst);
    if par == 1 {
        body();
    } else {
        std::thread::scope(|s| {
            for k in 0..par {
                std::thread::Builder::new().name(format!("case{}", k)).spawn_scoped(s, body).unwrap();
            }
        });
    }
    count(&format!("cases_{}", name), done.load(SeqCst));
    crate::clock::DELAY_US.store(0, SeqCst);
    let delayed = crate::clock::DELAYS.load(SeqCst) - delays;
    if delayed > 0 {
        count("injected_delays", delayed);
    }
    if std::env::var("VERIF_TIMING").is_ok() {
        eprintln!("{}: {} cases in {:.2}s", name, done.load(SeqCst), real_secs() - t0);
    }
}

// ---------------------------------------------------------------- panic monitor
pub const EXPECTED: &str = "expected-panic";
pub static EXPECTED_PANICS: AtomicUsize = AtomicUsize::new(0);

fn install_panic_monitor() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if msg == EXPECTED {
            EXPECTED_PANICS.fetch_add(1, SeqCst);
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let thread = std::thread::current().name().unwrap_or("?").to_string();
        let text = format!("panic in thread '{}' at {}: {}", thread, loc, msg);
        if loc.starts_with("src/") || loc.contains("/harness/src/") {
            eprintln!("{}", bt);
            harness_error(&text);
        }
        let (title, log) = CUR.with(|c| {
            c.try_borrow()
                .ok()
                .and_then(|c| c.clone())
                .map(|s| {
                    (
                        s.title.lock().map(|t| t.clone()).unwrap_or_default(),
                        s.log.try_lock().map(|l| l.join("\n")).unwrap_or_default(),
                    )
                })
                .unwrap_or_else(|| {
                    let mut t = String::new();
                    if let Ok(slots) = SLOTS.try_lock() {
                        for s in slots.iter().filter(|s| s.busy.load(SeqCst)) {
                            t.push_str(&s.title.try_lock().map(|t| t.clone()).unwrap_or_default());
                            t.push(' ');
                        }
                    }
                    (t, String::new())
                })
        });
        violation(&format!("{} case(s) {}: {}", ctx().id, title, text), &format!("{}\n\n{}", log, bt));
    }));
}
/// A panic the monitor ignores.
pub fn expected_panic() -> ! {
    panic!("{}", EXPECTED)
}
