//! Things shared by the checks: observation records, recording components, snapshot access.
pub use crate::clock;
pub use crate::rt::*;
pub use metrix::cockpit::Cockpit;
pub use metrix::driver::{DriverBuilder, TelemetryDriver};
pub use metrix::instruments::{
    polled::{ConstantValue, PollingInstrument},
    AcceptAllLabels, AcceptNoLabel, AcceptOneLabel, Counter, DataDisplay, Flag, Gauge, GaugeAdapter, Histogram,
    Instrument, InstrumentAdapter, LabelFilter, LabelPredicate, LastOccurrenceTracker, Meter, NameAlternation,
    NonOccurrenceIndicator, OccurrenceIndicator, Panel, StaircaseTimer, Update, Updates, ValueMeter, LP,
};
pub use metrix::processor::{
    AggregatesProcessors, ProcessesTelemetryMessages, ProcessingOutcome, ProcessingStrategy, ProcessorMount,
    TelemetryProcessor,
};
pub use metrix::snapshot::{FindDurationItem, FindItem, ItemKind, JsonConfig, Snapshot};
pub use metrix::{
    ChangeBy, Decrement, DecrementBy, HandlesObservations, Increment, IncrementBy, Observation, ObservedValue,
    PutsSnapshot, TelemetryTransmitter, TimeUnit, TransmitsTelemetryData,
};
pub use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
pub use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
pub use std::sync::{Arc, Mutex};
pub use std::time::{Duration, Instant};

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn secs(n: u64) -> Duration {
    Duration::from_secs(n)
}
pub const ALL: ProcessingStrategy = ProcessingStrategy::ProcessAll;

// ------------------------------------------------------------ observations
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    One,
    Count(u64),
    I(i64),
    U(u64),
    F(u64),
    B(bool),
    D(u64, u8),
    C(i64),
}
pub const UNITS: [TimeUnit; 4] =
    [TimeUnit::Nanoseconds, TimeUnit::Microseconds, TimeUnit::Milliseconds, TimeUnit::Seconds];
pub fn unit_idx(u: TimeUnit) -> u8 {
    match u {
        TimeUnit::Nanoseconds => 0,
        TimeUnit::Microseconds => 1,
        TimeUnit::Milliseconds => 2,
        TimeUnit::Seconds => 3,
    }
}
/// nanoseconds per unit
pub const UNIT_NS: [u128; 4] = [1, 1_000, 1_000_000, 1_000_000_000];
/// A duration in one unit shown in another one: exact truncation, saturating at u64.
pub fn to_unit(v: u64, from: u8, to: u8) -> u64 {
    let ns = v as u128 * UNIT_NS[from as usize];
    (ns / UNIT_NS[to as usize]).min(u64::MAX as u128) as u64
}

impl Val {
    pub fn observation<L>(self, label: L, ts: Instant) -> Observation<L> {
        match self {
            Val::One => Observation::ObservedOne { label, timestamp: ts },
            Val::Count(count) => Observation::Observed { label, count, timestamp: ts },
            v => Observation::ObservedOneValue { label, value: v.value().unwrap(), timestamp: ts },
        }
    }
    pub fn value(self) -> Option<ObservedValue> {
        Some(match self {
            Val::One | Val::Count(_) => return None,
            Val::I(v) => ObservedValue::SignedInteger(v),
            Val::U(v) => ObservedValue::UnsignedInteger(v),
            Val::F(v) => ObservedValue::Float(f64::from_bits(v)),
            Val::B(v) => ObservedValue::Bool(v),
            Val::D(v, u) => ObservedValue::Duration(v, UNITS[u as usize]),
            Val::C(v) => ObservedValue::ChangedBy(v),
        })
    }
    pub fn update(self, ts: Instant) -> Update {
        match self {
            Val::One => Update::Observation(ts),
            Val::Count(n) => Update::Observations(n, ts),
            v => Update::ObservationWithValue(v.value().unwrap(), ts),
        }
    }
    pub fn of<L>(o: &Observation<L>) -> Val {
        match o {
            Observation::Observed { count, .. } => Val::Count(*count),
            Observation::ObservedOne { .. } => Val::One,
            Observation::ObservedOneValue { value, .. } => Val::of_value(value),
        }
    }
    pub fn of_value(value: &ObservedValue) -> Val {
        match *value {
            ObservedValue::SignedInteger(v) => Val::I(v),
            ObservedValue::UnsignedInteger(v) => Val::U(v),
            ObservedValue::Float(v) => Val::F(v.to_bits()),
            ObservedValue::Bool(v) => Val::B(v),
            ObservedValue::Duration(v, u) => Val::D(v, unit_idx(u)),
            ObservedValue::ChangedBy(v) => Val::C(v),
        }
    }
    pub fn of_update(u: &Update) -> Val {
        match u {
            Update::Observation(_) => Val::One,
            Update::Observations(n, _) => Val::Count(*n),
            Update::ObservationWithValue(v, _) => Val::of_value(v),
        }
    }
    pub fn is_delta(self) -> bool {
        matches!(self, Val::C(_))
    }
    /// How often something happened
    pub fn multiplicity(self) -> u64 {
        match self {
            Val::Count(n) => n,
            _ => 1,
        }
    }
    /// The number a value stands for: exact for integers, rounded half away from zero for floats.
    pub fn as_i64(self) -> Option<i64> {
        match self {
            Val::I(v) => Some(v),
            Val::U(v) => i64::try_from(v).ok(),
            Val::F(b) => {
                let f = f64::from_bits(b);
                if !f.is_finite() {
                    return None;
                }
                let r = round_half_away(f);
                if r >= -9_223_372_036_854_775_808.0 && r < 9_223_372_036_854_775_808.0 {
                    Some(r as i64)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    /// The non-negative amount a value meter counts
    pub fn amount(self, display: u8) -> Option<i64> {
        match self {
            Val::D(v, u) => Some(to_unit(v, u, display).min(i64::MAX as u64) as i64),
            v => v.as_i64().filter(|v| *v >= 0),
        }
    }
    /// The number a histogram or gauge takes
    pub fn number(self, display: u8) -> Option<i64> {
        match self {
            Val::D(v, u) => Some(to_unit(v, u, display).min(i64::MAX as u64) as i64),
            v => v.as_i64(),
        }
    }
}
pub fn round_half_away(f: f64) -> f64 {
    let t = f.trunc();
    if (f - t).abs() >= 0.5 {
        t + f.signum()
    } else {
        t
    }
}

/// Any value, with moderate magnitudes.
pub fn any_val(r: &mut Rng) -> Val {
    match r.below(10) {
        0 | 1 => Val::One,
        2 => Val::Count(r.below(20)),
        3 => Val::I(r.range(-1000, 1000)),
        4 => Val::U(r.below(1000)),
        5 => Val::F(((r.range(-4000, 4000)) as f64 / 4.0).to_bits()),
        6 => Val::B(r.bool()),
        7 => Val::D(r.below(5_000_000), r.below(4) as u8),
        8 => Val::C(r.range(-50, 50)),
        _ => *r.pick(&[
            Val::I(0),
            Val::U(0),
            Val::F(0),
            Val::D(0, 0),
            Val::D(0, 3),
            Val::D(1, 0),
            Val::C(0),
            Val::I(1),
            Val::I(-1),
            Val::F(f64::NAN.to_bits()),
            Val::F(f64::INFINITY.to_bits()),
            Val::F((-0.4f64).to_bits()),
            Val::F((2.5f64).to_bits()),
            Val::U(u64::MAX),
            Val::U(1 << 63),
            Val::F(1e300f64.to_bits()),
            Val::Count(0),
        ]),
    }
}
/// A value that carries the unique id `id` in every variant with content.
pub fn id_val(r: &mut Rng, id: u64) -> Val {
    match r.below(7) {
        0 => Val::Count(id),
        1 => Val::I(-(id as i64)),
        2 => Val::U(id),
        3 => Val::F((id as f64).to_bits()),
        4 => Val::D(id, r.below(4) as u8),
        5 => Val::C(id as i64),
        _ => Val::I(id as i64),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ob<L> {
    pub label: L,
    pub val: Val,
    pub ts: Instant,
}
impl<L: Clone> Ob<L> {
    pub fn of(o: &Observation<L>) -> Self {
        Ob { label: o.label().clone(), val: Val::of(o), ts: o.timestamp() }
    }
    pub fn to(&self) -> Observation<L> {
        self.val.observation(self.label.clone(), self.ts)
    }
}

// ------------------------------------------------------------ recording components
pub type Log<L> = Arc<Mutex<Vec<Ob<L>>>>;
pub fn new_log<L>() -> Log<L> {
    Arc::new(Mutex::new(Vec::new()))
}
/// Handler that records what it is given and returns `ret`.
pub struct Recorder<L> {
    pub log: Log<L>,
    pub ret: usize,
    pub key: String,
}
impl<L> Recorder<L> {
    pub fn new(log: &Log<L>) -> Self {
        Recorder { log: log.clone(), ret: 1, key: String::new() }
    }
    pub fn keyed(log: &Log<L>, key: impl Into<String>, ret: usize) -> Self {
        Recorder { log: log.clone(), ret, key: key.into() }
    }
}
impl<L: Send + 'static> PutsSnapshot for Recorder<L> {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        if !self.key.is_empty() {
            let n = self.log.lock().unwrap().len() as u64;
            into.push(self.key.clone(), n);
        }
    }
}
impl<L: Clone + Send + 'static> HandlesObservations for Recorder<L> {
    type Label = L;
    fn handle_observation(&mut self, o: &Observation<L>) -> usize {
        self.log.lock().unwrap().push(Ob::of(o));
        self.ret
    }
}
/// Instrument that records what it is given.
pub struct Probe {
    pub log: Arc<Mutex<Vec<Val>>>,
    pub key: String,
    pub ret: usize,
}
impl Probe {
    pub fn new(key: impl Into<String>) -> (Probe, Arc<Mutex<Vec<Val>>>) {
        let log = Arc::new(Mutex::new(Vec::new()));
        (Probe { log: log.clone(), key: key.into(), ret: 1 }, log)
    }
}
impl PutsSnapshot for Probe {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        let n = self.log.lock().unwrap().len() as u64;
        into.push(self.key.clone(), n);
    }
}
impl Updates for Probe {
    fn update(&mut self, with: &Update) -> usize {
        self.log.lock().unwrap().push(Val::of_update(with));
        self.ret
    }
}
impl Instrument for Probe {}

/// Snapshooter that puts a fixed item and counts its calls.
#[derive(Clone)]
pub struct Shot {
    pub key: String,
    pub value: ItemKind,
    pub calls: Arc<AtomicU64>,
}
impl Shot {
    pub fn new(key: impl Into<String>, value: impl Into<ItemKind>) -> Shot {
        Shot { key: key.into(), value: value.into(), calls: Arc::new(AtomicU64::new(0)) }
    }
}
impl PutsSnapshot for Shot {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        self.calls.fetch_add(1, SeqCst);
        into.items.push((self.key.clone(), self.value.clone()));
    }
}

/// Snapshooter that tells how often the thread that calls it slept between calls from some point in time on:
/// a driver that answers requests for many turns of its loop sleeps in between, one that answers them in one go
/// does not.
#[derive(Clone, Default)]
pub struct Turns {
    pub calls: Arc<AtomicU64>,
    armed: Arc<AtomicBool>,
    first: Arc<AtomicU64>,
    last: Arc<AtomicU64>,
}
impl Turns {
    /// Sets the point in time.
    pub fn arm(&self) {
        self.armed.store(true, SeqCst);
    }
    pub fn turns(&self) -> u64 {
        self.last.load(SeqCst).saturating_sub(self.first.load(SeqCst))
    }
}
impl PutsSnapshot for Turns {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        self.calls.fetch_add(1, SeqCst);
        if self.armed.load(SeqCst) {
            // no sleep yet is 1
            let n = clock::sleeps() + 1;
            let _ = self.first.compare_exchange(0, n, SeqCst, SeqCst);
            self.last.store(n, SeqCst);
        }
        into.items.push(("shown".into(), ItemKind::UInt(1)));
    }
}

/// Processor that counts its calls; the driver's heartbeat.
#[derive(Clone, Default)]
pub struct Beat {
    pub n: Arc<AtomicU64>,
    pub tid: Arc<AtomicU64>,
}
impl Beat {
    pub fn count(&self) -> u64 {
        self.n.load(SeqCst)
    }
}
impl PutsSnapshot for Beat {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for Beat {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.tid.store(gettid(), SeqCst);
        self.n.fetch_add(1, SeqCst);
        ProcessingOutcome::default()
    }
}
#[cfg(not(any(miri, feature = "noclock")))]
pub fn gettid() -> u64 {
    extern "C" {
        fn syscall(num: std::os::raw::c_long, ...) -> std::os::raw::c_long;
    }
    unsafe { syscall(186) as u64 }
}
#[cfg(any(miri, feature = "noclock"))]
pub fn gettid() -> u64 {
    1
}
/// True while the thread exists in this process.
pub fn thread_alive(tid: u64) -> bool {
    std::path::Path::new(&format!("/proc/self/task/{}", tid)).exists()
}
/// Number of threads of this process with that name.
pub fn threads_named(name: &str) -> usize {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            if let Ok(c) = std::fs::read_to_string(e.path().join("comm")) {
                if c.trim() == name {
                    n += 1;
                }
            }
        }
    }
    n
}

/// Waits in real time until `done`; the watchdog sees progress only through `progress` changing.
/// Returns false if `idle_rounds` heartbeats of the driver pass without progress. While others
/// than the driver have to make progress (not `settled`) that means little on a busy machine:
/// then it must also have taken long.
pub fn wait_rounds(
    c: &Case,
    beat: &Beat,
    idle_rounds: u64,
    settled: impl Fn() -> bool,
    progress: impl Fn() -> u64,
    done: impl Fn() -> bool,
) -> bool {
    let mut last = progress();
    let mut since = beat.count();
    let mut since_canary = crate::rt::canary();
    let mut last_beat = since;
    loop {
        if done() {
            return true;
        }
        let p = progress();
        let b = beat.count();
        if b != last_beat {
            last_beat = b;
            c.beat();
        }
        if p != last {
            last = p;
            since = b;
            since_canary = crate::rt::canary();
            c.beat();
        }
        if b - since > idle_rounds && (settled() || crate::rt::canary() - since_canary > 25_000) {
            return done();
        }
        nap();
    }
}
pub fn nap() {
    std::thread::sleep(Duration::from_micros(200));
}
/// Waits until the driver completed at least `n` further runs.
pub fn wait_beats(c: &Case, beat: &Beat, n: u64) {
    let from = beat.count();
    let mut last = from;
    while beat.count() < from + n {
        let b = beat.count();
        if b != last {
            last = b;
            c.beat();
        }
        nap();
    }
}
/// Waits for a condition; the watchdog reports the operation when it never becomes true.
pub fn wait_for(c: &Case, what: &str, cond: impl Fn() -> bool) {
    c.op(what, || {
        while !cond() {
            nap();
        }
    })
}

// ------------------------------------------------------------ snapshots
pub trait Look {
    fn at(&self, path: &[&str]) -> Option<&ItemKind>;
    fn u(&self, path: &[&str]) -> Option<u64>;
    fn i(&self, path: &[&str]) -> Option<i64>;
    fn f(&self, path: &[&str]) -> Option<f64>;
    fn b(&self, path: &[&str]) -> Option<bool>;
    fn keys(&self) -> Vec<String>;
}
impl Look for Snapshot {
    fn at(&self, path: &[&str]) -> Option<&ItemKind> {
        let item = self.items.iter().find(|(k, _)| k == path[0]).map(|x| &x.1)?;
        if path.len() == 1 {
            return Some(item);
        }
        match item {
            ItemKind::Snapshot(s) => s.at(&path[1..]),
            _ => None,
        }
    }
    fn u(&self, path: &[&str]) -> Option<u64> {
        match self.at(path)? {
            ItemKind::UInt(v) => Some(*v),
            ItemKind::Int(v) if *v >= 0 => Some(*v as u64),
            _ => None,
        }
    }
    fn i(&self, path: &[&str]) -> Option<i64> {
        match self.at(path)? {
            ItemKind::Int(v) => Some(*v),
            ItemKind::UInt(v) => i64::try_from(*v).ok(),
            _ => None,
        }
    }
    fn f(&self, path: &[&str]) -> Option<f64> {
        match self.at(path)? {
            ItemKind::Float(v) => Some(*v),
            ItemKind::Int(v) => Some(*v as f64),
            ItemKind::UInt(v) => Some(*v as f64),
            _ => None,
        }
    }
    fn b(&self, path: &[&str]) -> Option<bool> {
        match self.at(path)? {
            ItemKind::Boolean(v) => Some(*v),
            _ => None,
        }
    }
    fn keys(&self) -> Vec<String> {
        self.items.iter().map(|(k, _)| k.clone()).collect()
    }
}
pub fn shot_of(p: &impl PutsSnapshot, descriptive: bool) -> Snapshot {
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, descriptive);
    s
}
pub fn snap_str(s: &Snapshot) -> String {
    let mut o = String::from("{");
    for (k, v) in &s.items {
        o.push_str(&format!("{:?}: ", k));
        match v {
            ItemKind::Snapshot(s) => o.push_str(&snap_str(s)),
            v => o.push_str(&format!("{:?}", v)),
        }
        o.push_str(", ");
    }
    o.push('}');
    o
}
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
/// Equal up to rounding of floats. The quantiles of two histograms with the same values may
/// fall to either side of a value whose share of the weights is exactly the quantile, by
/// rounding, so there only the keys and kinds count (C18 judges the values).
pub fn snap_close(a: &Snapshot, b: &Snapshot) -> bool {
    // averages of large numbers of both signs
    let scale = ["min", "max"].iter().map(|k| a.i(&[*k]).map_or(0.0, |v| (v as f64).abs())).fold(0.0, f64::max);
    a.items.len() == b.items.len()
        && a.items.iter().zip(&b.items).all(|((ka, va), (kb, vb))| {
            ka == kb
                && match (va, vb) {
                    (ItemKind::Snapshot(x), ItemKind::Snapshot(y)) if ka == "quantiles" => {
                        x.items.len() == y.items.len()
                            && x.items.iter().zip(&y.items).all(|((kx, vx), (ky, vy))| {
                                kx == ky && std::mem::discriminant(vx) == std::mem::discriminant(vy)
                            })
                    }
                    (ItemKind::Snapshot(x), ItemKind::Snapshot(y)) => snap_close(x, y),
                    (ItemKind::Float(x), ItemKind::Float(y)) => close(*x, *y) || (x - y).abs() <= 1e-9 * scale,
                    (x, y) => x == y,
                }
        })
}

/// Start of a virtual time line.
pub fn virtual_start(r: &mut Rng) -> Instant {
    clock::local((1_000_000 + r.below(1_000_000) as i64) * clock::NS + r.below(1_000_000_000) as i64);
    clock::set_step(0);
    Instant::now()
}
pub fn now_vs(t0: Instant) -> f64 {
    Instant::now().checked_duration_since(t0).map(|d| d.as_secs_f64()).unwrap_or(-1.0)
}

/// Polls a future to completion on this thread.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, Wake, Waker};
    struct W(std::thread::Thread);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.unpark()
        }
    }
    let mut f = Box::pin(f);
    let waker: Waker = Arc::new(W(std::thread::current())).into();
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::park();
    }
}
/// Polls a future once.
pub fn poll_once<F: std::future::Future + Unpin>(f: &mut F) -> Option<F::Output> {
    use std::task::{Context, Poll, Wake, Waker};
    struct W;
    impl Wake for W {
        fn wake(self: Arc<Self>) {}
    }
    let waker: Waker = Arc::new(W).into();
    let mut cx = Context::from_waker(&waker);
    match std::pin::Pin::new(f).poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

/// Object whose drops are counted.
pub struct Token(pub Arc<AtomicI64>);
impl Token {
    /// Returns the token and a counter of live tokens sharing it.
    pub fn new(live: &Arc<AtomicI64>) -> Token {
        live.fetch_add(1, SeqCst);
        Token(live.clone())
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        Token::new(&self.0)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}
/// Has the threads of drivers held up now and then (all of them: cases running in parallel share this).
pub fn hold_ups(r: &mut Rng) {
    let us = *r.pick(&[0u64, 0, 30, 300]);
    if clock::COMPRESS_US.load(SeqCst) > 0 {
        clock::DELAY_US.store(us, SeqCst);
    }
}
/// Random short delay in real time: nothing, a yield or a few microseconds.
pub fn jitter(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(Duration::from_micros(r.below(100))),
        2 => {
            for _ in 0..r.below(2000) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}
