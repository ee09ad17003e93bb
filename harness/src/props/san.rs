//! C28: workloads for sanitizers. They judge nothing themselves; the oracle is the sanitizer the
//! binary was built with (ThreadSanitizer, AddressSanitizer + LeakSanitizer, Miri).
use super::tree::*;
use crate::common::*;
use metrix::attached_mount::AttachedMount;
use std::fmt::Debug;

pub fn c28() {
    // without a sanitizer there is no oracle
    harness_error("C28 runs through tools/sanitize.sh")
}

/// `mxcheck san-run`: returns from main normally so that leaks are looked for.
pub fn san_run() {
    init_quiet("C28");
    std::panic::set_hook(Box::new(|_| {}));
    rule("(storm) threads transmit, mount, attach, reconfigure, snapshot (sync, async, polled once, dropped), pause, resume and drop on several drivers in random order, with panicking components now and then; (breadth) random component trees fed with arbitrary observations, shown, serialised, searched and dropped on other threads; (shared) components that are Sync are shown from several threads at once. Non-trivial: something was processed. Only sanitizer reports count.");
    let m = cfg!(miri);
    let scale = |native: u64, miri: u64| if m { miri } else { native };
    let what = std::env::args().nth(2).unwrap_or_default();
    let all = what.is_empty() || what == "all";
    if all || what == "storm" {
        run("storm", scale(120, 1), scale(3_000, 1), 16, storm);
    }
    if all || what == "breadth" {
        run("breadth", scale(600, 1), scale(12_000, 1), 8, breadth);
    }
    if all || what == "shared" {
        run("shared", scale(150, 1), scale(3_000, 1), 12, shared);
    }
    for _ in 0..400 {
        if LIVE.load(SeqCst) == 0 {
            break;
        }
        std::thread::sleep(ms(25));
    }
    count("components_alive_at_end", LIVE.load(SeqCst).max(0) as u64);
    // driver threads are detached
    if m {
        std::thread::sleep(ms(2_000));
    } else {
        for _ in 0..400 {
            if threads_named("metrix") == 0 {
                break;
            }
            std::thread::sleep(ms(10));
        }
    }
    println!("SAN-EVIDENCE {}", evidence(0));
}

static LIVE: AtomicI64 = AtomicI64::new(0);
struct Tok;
impl Tok {
    fn new() -> Tok {
        LIVE.fetch_add(1, SeqCst);
        Tok
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new()
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
    }
}
/// A label that owns memory.
#[derive(Clone)]
struct Lb(u8, String, Tok);
impl PartialEq for Lb {
    fn eq(&self, o: &Lb) -> bool {
        self.0 == o.0 && self.1 == o.1
    }
}
impl Eq for Lb {}
impl Debug for Lb {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.1)
    }
}
impl Lab for Lb {
    fn nth(i: usize) -> Self {
        Lb(i as u8, format!("label {}", i), Tok::new())
    }
    fn idx(&self) -> usize {
        self.0 as usize
    }
}

/// Owns memory, reads all of it when used, may panic once in a while.
struct Comp {
    seen: Vec<(String, Val)>,
    n: u64,
    panics_at: u64,
    _t: Tok,
}
impl Comp {
    fn new(r: &mut Rng, panicky: bool) -> Comp {
        let panics_at = if panicky && r.chance(1, 4) { 1 + r.below(30) } else { 0 };
        Comp { seen: vec![], n: 0, panics_at, _t: Tok::new() }
    }
    fn use_it(&mut self) {
        self.n += 1;
        if self.n == self.panics_at {
            count("component_panics", 1);
            expected_panic()
        }
    }
}
impl PutsSnapshot for Comp {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("seen", self.seen.len() as u64);
        if let Some(l) = self.seen.last() {
            into.push("last", l.0.clone());
        }
    }
}
impl HandlesObservations for Comp {
    type Label = Lb;
    fn handle_observation(&mut self, o: &Observation<Lb>) -> usize {
        if self.seen.len() > 50 {
            self.seen.clear();
        }
        self.seen.push((o.label().1.clone(), Val::of(o)));
        self.use_it();
        1
    }
}
impl ProcessesTelemetryMessages for Comp {
    fn process(&mut self, max: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.seen.push((format!("{}", max), Val::One));
        if self.seen.len() > 50 {
            self.seen.clear();
        }
        self.use_it();
        ProcessingOutcome::default()
    }
}

type Tx = TelemetryTransmitter<Lb>;
struct Mine {
    tx: Vec<Tx>,
    drivers: Vec<TelemetryDriver>,
    mounts: Vec<AttachedMount>,
    futures: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = Result<Snapshot, metrix::driver::GetSnapshotError>> + Send>>>,
    loose: Vec<Box<dyn ProcessesTelemetryMessages>>,
}
struct Common {
    drivers: Mutex<Vec<TelemetryDriver>>,
    tx: Mutex<Vec<Tx>>,
    mounts: Mutex<Vec<AttachedMount>>,
    all: Mutex<Vec<TelemetryDriver>>,
}
fn any_strategy(r: &mut Rng) -> ProcessingStrategy {
    match r.below(4) {
        0 => ProcessingStrategy::ProcessAll,
        1 => ProcessingStrategy::DropAll,
        2 => ProcessingStrategy::default(),
        _ => ProcessingStrategy::DropOlderThan { max_age: Duration::from_micros(r.below(100_000)), drop_deltas: r.bool() },
    }
}
fn builder() -> Builder {
    let mut b = Builder::new();
    b.short = true;
    b.clashes = 4;
    b
}
/// A pair; blocking ones only where somebody is going to process.
fn new_pair(r: &mut Rng, blocking_ok: bool) -> (Tx, TelemetryProcessor<Lb>) {
    match r.below(4) {
        0 => TelemetryProcessor::new_pair_bounded(format!("p{}", r.below(4)), 1 + r.usize(20), blocking_ok),
        1 => TelemetryProcessor::new_pair_bounded_without_name(1 + r.usize(20), false),
        2 => TelemetryProcessor::new_pair(format!("p{}", r.below(4))),
        _ => {
            if r.bool() {
                let (tx, p, _) = builder().processor::<Lb>(r, "", 1);
                (tx, p)
            } else {
                TelemetryProcessor::new_pair_without_name()
            }
        }
    }
}
fn transmit(r: &mut Rng, tx: &Tx) {
    let l = Lb::nth(r.usize(LABELS));
    let now = Instant::now();
    match r.below(8) {
        0 => tx.observed_one_now(l),
        1 => tx.observed_one_value_now(l, r.range(-100, 100)),
        2 => tx.observed_one_duration_now(l, Duration::from_nanos(r.next() >> 20)),
        3 => tx.measure_time(l, now),
        4 => tx.observed_now(l, r.below(5)),
        5 => tx.observed_one_value_now(l, Increment),
        6 => tx.observed_one_value_now(l, r.f01()),
        _ => tx.transmit(any_val(r).observation(l, now)),
    };
    count("observations_sent", 1);
}
fn step(r: &mut Rng, m: &mut Mine, g: &Common, panicky: bool) {
    // mostly traffic
    if r.chance(3, 5) && !m.tx.is_empty() {
        let k = 1 + r.usize(8);
        let i = r.usize(m.tx.len());
        for _ in 0..k {
            transmit(r, &m.tx[i]);
        }
        return;
    }
    let d = r.usize(m.drivers.len().max(1));
    let driver = m.drivers.get(d).cloned();
    let t = r.usize(m.tx.len().max(1));
    let tx = m.tx.get(t).cloned();
    count("other_operations", 1);
    match r.below(24) {
        0 | 1 => {
            // mount a new processor
            if let Some(mut d) = driver {
                let (tx, mut p) = new_pair(r, true);
                p.add_handler(Comp::new(r, panicky));
                if r.chance(1, 3) {
                    let mut pm = ProcessorMount::new("mount");
                    pm.add_processor(p);
                    pm.add_snapshooter(Comp::new(r, false));
                    d.add_processor(pm);
                } else {
                    d.add_processor(p);
                }
                m.tx.push(tx);
            }
        }
        2 => {
            if let Some(mut d) = driver {
                let mut pm = ProcessorMount::new("group");
                pm.add_processor(Comp::new(r, panicky));
                let am = match r.below(4) {
                    0 if !m.mounts.is_empty() => r.pick(&m.mounts).attach_mount::<ProcessorMount>(pm),
                    _ => d.attached_mount(pm),
                };
                m.mounts.push(am);
            }
        }
        3 | 4 => {
            if !m.mounts.is_empty() {
                let i = r.usize(m.mounts.len());
                if r.bool() {
                    let (tx, p) = new_pair(r, false);
                    m.mounts[i].put_processor(p);
                    m.tx.push(tx);
                } else if r.bool() {
                    m.mounts[i].put_snapshooter(Comp::new(r, false));
                } else {
                    m.mounts[i].add_processor(Comp::new(r, panicky));
                }
            }
        }
        5 | 6 => {
            if let Some(tx) = tx {
                let (k, _) = builder().cockpit::<Lb>(r, "", 1);
                tx.add_cockpit(k);
            }
        }
        7 => {
            if let Some(tx) = tx {
                tx.remove_cockpit(format!("cockpit{}", r.below(4)));
                tx.remove_panel_from_cockpit(format!("cockpit{}", r.below(4)), format!("panel{}", r.below(6)));
            }
        }
        8 => {
            if let Some(tx) = tx {
                let (p, _) = builder().panel::<Lb>(r, "", 1);
                tx.add_panel_to_cockpit(format!("cockpit{}", r.below(4)), p);
            }
        }
        9 => {
            if let Some(tx) = tx {
                tx.add_handler(Comp::new(r, panicky));
            }
        }
        10 | 11 => {
            if let Some(d) = driver {
                if let Ok(s) = d.snapshot(r.bool()) {
                    let n = s.to_default_json().len() + s.items.len();
                    count("snapshot_bytes", n as u64);
                }
                count("snapshots_sync", 1);
            }
        }
        12 => {
            if let Some(d) = driver {
                let mut f = Box::pin(d.snapshot_async(r.bool()));
                count("snapshots_async", 1);
                match r.below(4) {
                    0 => drop(f),
                    1 => {
                        let _ = poll_once(&mut f);
                        m.futures.push(f);
                    }
                    2 => {
                        let _ = block_on(f);
                    }
                    _ => m.futures.push(f),
                }
            }
        }
        13 => {
            if let Some(mut f) = m.futures.pop() {
                match r.below(3) {
                    0 => drop(f),
                    1 => {
                        let _ = poll_once(&mut f);
                    }
                    _ => {
                        // waited for on another thread
                        std::thread::spawn(move || {
                            let _ = block_on(f);
                        })
                        .join()
                        .unwrap();
                    }
                }
            }
        }
        14 => {
            if let Some(d) = driver {
                d.pause();
                if r.bool() {
                    d.resume();
                }
            }
        }
        15 => {
            if let Some(d) = driver {
                d.change_processing_stragtegy(any_strategy(r));
            }
        }
        16 => {
            if let Some(mut d) = driver {
                d.add_snapshooter(Comp::new(r, false));
            }
        }
        17 => {
            // hand over to other threads
            let mut c = g.drivers.lock().unwrap();
            if let Some(d) = driver {
                c.push(d);
            }
            if !c.is_empty() && r.bool() {
                let i = r.usize(c.len());
                m.drivers.push(c.swap_remove(i));
            }
            drop(c);
            let mut c = g.tx.lock().unwrap();
            if let Some(t) = tx {
                c.push(t);
            }
            if !c.is_empty() && r.bool() {
                let i = r.usize(c.len());
                m.tx.push(c.swap_remove(i));
            }
            drop(c);
            let mut c = g.mounts.lock().unwrap();
            if !m.mounts.is_empty() {
                c.push(r.pick(&m.mounts).clone());
            }
            if !c.is_empty() && r.bool() {
                let i = r.usize(c.len());
                m.mounts.push(c.swap_remove(i));
            }
        }
        18 => {
            if m.tx.len() > 1 {
                let i = r.usize(m.tx.len());
                m.tx.swap_remove(i);
            }
        }
        19 => {
            if m.drivers.len() > 1 {
                let i = r.usize(m.drivers.len());
                m.drivers.swap_remove(i);
            }
            if m.mounts.len() > 2 {
                let i = r.usize(m.mounts.len());
                m.mounts.swap_remove(i);
            }
        }
        20 => {
            if let Some(tx) = tx {
                let _ = (tx.queue_size(), tx.is_queue_full(), tx.is_queue_empty(), tx.queue_capacity());
            }
        }
        21 => {
            // a short lived driver, with and without something mounted
            let mut d = DriverBuilder::default().set_driver_metrics(r.bool()).build();
            count("drivers", 1);
            if r.bool() {
                let (tx, p) = new_pair(r, false);
                d.add_processor(p);
                transmit(r, &tx);
                m.tx.push(tx);
            }
            if r.bool() {
                if let Some(mut outer) = driver {
                    outer.add_processor(d.clone());
                }
            }
            if r.bool() {
                g.all.lock().unwrap().push(d.clone());
                m.drivers.push(d);
            }
        }
        22 => {
            // processed here, not by a driver
            let (tx, mut p) = new_pair(r, false);
            p.add_handler(Comp::new(r, false));
            for _ in 0..r.usize(20) {
                transmit(r, &tx);
            }
            let _ = p.process(r.usize(20), any_strategy(r));
            let _ = shot_of(&p, true).to_default_json();
            m.tx.push(tx);
            if r.bool() {
                m.loose.push(Box::new(p));
            }
        }
        _ => {
            if !m.loose.is_empty() {
                let mut p = m.loose.pop().unwrap();
                let _ = p.process(100, ALL);
                if let Some(mut d) = driver {
                    let mut pm = ProcessorMount::default();
                    pm.add_processor_dyn(p);
                    d.add_processor(pm);
                }
            }
        }
    }
}
fn storm(c: &mut Case) {
    let seed = c.rng.next();
    c.sig(&format!("{}", seed));
    let mut r = Rng::new(seed);
    let panicky = r.chance(1, 3);
    let n_threads = if cfg!(miri) { 2 } else { 2 + r.usize(4) };
    let n_ops = if cfg!(miri) { 8 + r.usize(8) } else { 30 + r.usize(60) };
    let g = Arc::new(Common { drivers: Mutex::new(vec![]), tx: Mutex::new(vec![]), mounts: Mutex::new(vec![]), all: Mutex::new(vec![]) });
    let n_drivers = 1 + r.usize(2);
    let drivers: Vec<TelemetryDriver> = (0..n_drivers)
        .map(|i| {
            let mut b = if r.bool() { DriverBuilder::new(format!("driver{}", i)) } else { DriverBuilder::default() };
            b = b.set_processing_strategy(any_strategy(&mut r)).set_driver_metrics(r.chance(3, 4));
            if r.bool() {
                b = b.set_title("title").set_description("description");
            }
            count("drivers", 1);
            b.build()
        })
        .collect();
    let mut threads = vec![];
    for k in 0..n_threads {
        let (g, drivers) = (g.clone(), drivers.clone());
        let mut r = Rng::new(seed ^ (k as u64 + 1) << 32);
        threads.push(std::thread::spawn(move || {
            let mut m = Mine { tx: vec![], drivers, mounts: vec![], futures: vec![], loose: vec![] };
            for _ in 0..n_ops {
                step(&mut r, &mut m, &g, panicky);
                if !cfg!(miri) {
                    jitter(&mut r);
                }
            }
            // dropped in random order
            let mut order: Vec<u8> = vec![0, 1, 2, 3, 4];
            while !order.is_empty() {
                match order.swap_remove(r.usize(order.len())) {
                    0 => m.tx.clear(),
                    1 => m.drivers.clear(),
                    2 => m.mounts.clear(),
                    3 => m.futures.clear(),
                    _ => m.loose.clear(),
                }
            }
            r.next()
        }));
    }
    // nobody blocks on a paused driver for long; keeps the handles of drivers with blocking senders
    while threads.iter().any(|t| !t.is_finished()) {
        // (a driver takes one request per turn of its loop)
        for _ in 0..120 {
            if threads.iter().any(|t| !t.is_finished()) {
                std::thread::sleep(ms(1));
            }
        }
        drivers.iter().for_each(|d| d.resume());
        g.all.lock().unwrap().iter().for_each(|d| d.resume());
    }
    for t in threads {
        let _ = t.join();
    }
    // released on different threads
    let (a, b) = (drivers, g);
    if r.bool() {
        let h = std::thread::spawn(move || drop(b));
        drop(a);
        h.join().unwrap();
    } else {
        drop(b);
        drop(a);
    }
}

fn breadth(c: &mut Case) {
    let seed = c.rng.next();
    c.sig(&format!("{}", seed));
    let mut r = Rng::new(seed);
    let depth = r.below(3) as u32;
    let mut b = Builder::new();
    b.short = r.bool();
    b.hostile = r.bool();
    let (tx, mut p, model) = b.processor::<Lb>(&mut r, "", depth);
    drop(model);
    p.add_handler(Comp::new(&mut r, false));
    let (k, km) = b.cockpit::<Lb>(&mut r, "", depth);
    drop(km);
    p.add_cockpit(k);
    let rounds = if cfg!(miri) { 1 } else { 4 };
    let mut mount = ProcessorMount::new("mount");
    let mut p = if r.bool() {
        mount.add_processor(p);
        mount.add_snapshooter(Comp::new(&mut r, false));
        Box::new(mount) as Box<dyn ProcessesTelemetryMessages>
    } else {
        Box::new(p)
    };
    for _ in 0..rounds {
        let n = if cfg!(miri) { 4 } else { 10 + r.usize(60) };
        for _ in 0..n {
            let v = any_val(&mut r);
            let now = Instant::now();
            tx.transmit(v.observation(Lb::nth(r.usize(LABELS)), now));
            count("observations_sent", 1);
        }
        if r.chance(1, 4) {
            tx.remove_cockpit(format!("cockpit{}", r.below(3)));
        }
        p.process(if r.bool() { 1000 } else { r.usize(30) }, ALL);
        if r.chance(1, 3) && !cfg!(miri) {
            // on another thread for a while
            p = std::thread::spawn(move || {
                p.process(1000, ALL);
                p
            })
            .join()
            .unwrap();
        }
        let mut s = Snapshot::default();
        p.put_snapshot(&mut s, r.bool());
        use_snapshot(&mut r, &s);
        let t = s.clone();
        drop(s);
        std::thread::spawn(move || drop(t)).join().unwrap();
    }
    if r.bool() {
        drop(tx);
        drop(p);
    } else {
        std::thread::spawn(move || drop(p)).join().unwrap();
        transmit(&mut r, &tx);
    }
}
fn use_snapshot(r: &mut Rng, s: &Snapshot) {
    let text = s.to_default_json();
    let cfg = JsonConfig { pretty: if r.bool() { Some(r.below(5) as u16) } else { None }, make_booleans_ints: r.bool() };
    let text2 = s.to_json(&cfg);
    count("json_bytes", (text.len() + text2.len()) as u64);
    fn walk(s: &Snapshot, path: &str, root: &Snapshot, n: &mut u64) {
        for (k, v) in &s.items {
            let p = format!("{}/{}", path, k);
            let f = root.find(&p);
            *n += 1;
            let _ = (f.to_duration_nanoseconds(), f.to_duration_seconds());
            if let ItemKind::Snapshot(t) = v {
                if p.len() < 400 {
                    walk(t, &p, root, n);
                }
            }
        }
    }
    let mut n = 0;
    walk(s, "", s, &mut n);
    count("lookups", n);
}

// ------------------------------------------------------------ what is Sync is shared
struct Wrap<'a, T>(&'a T);
trait RaceSync {
    fn race(&self) -> bool;
}
impl<'a, T: Sync + PutsSnapshot> RaceSync for Wrap<'a, T> {
    fn race(&self) -> bool {
        let t = self.0;
        std::thread::scope(|s| {
            for k in 0..3 {
                s.spawn(move || {
                    for i in 0..3 {
                        let mut x = Snapshot::default();
                        t.put_snapshot(&mut x, (i + k) % 2 == 0);
                        if k == 0 {
                            std::thread::yield_now();
                        }
                    }
                });
            }
        });
        true
    }
}
trait RaceNone {
    fn race(&self) -> bool;
}
impl<'a, 'b, T> RaceNone for &'b Wrap<'a, T> {
    fn race(&self) -> bool {
        false
    }
}
macro_rules! race {
    ($r:expr, $($name:literal => $e:expr),* $(,)?) => {{ $(
        let mut x = $e;
        for _ in 0..3 {
            let u = any_val($r).update(Instant::now());
            x.update(&u);
        }
        if (&Wrap(&x)).race() {
            count(concat!("shared_", $name), 1);
        }
    )* }};
}
fn shared(c: &mut Case) {
    let seed = c.rng.next();
    c.sig(&format!("{}", seed));
    let r = &mut Rng::new(seed);
    race!(r,
        "counter" => gen_counter(r, "c", false),
        "gauge" => gen_gauge(r, "c", false).tracking(3),
        "meter" => gen_meter(r, "c", false),
        "value_meter" => gen_value_meter(r, "c", false),
        "histogram" => gen_histogram(r, "c", false),
        "flag" => gen_flag(r, "c", false),
        "display" => gen_display(r, "c", false),
        "tracker" => gen_tracker(r, "c", false),
        "staircase" => gen_staircase(r, "c", false),
        "occurrence" => gen_occurrence(r, "c", false),
        "non_occurrence" => gen_non_occurrence(r, "c", false),
    );
    // containers
    let mut b = builder();
    let (p, _) = b.panel::<u8>(r, "", 1);
    if (&Wrap(&p)).race() {
        count("shared_panel", 1);
    }
    let (k, _) = b.cockpit::<u8>(r, "", 1);
    if (&Wrap(&k)).race() {
        count("shared_cockpit", 1);
    }
    let (_tx, p, _) = b.processor::<u8>(r, "", 1);
    if (&Wrap(&p)).race() {
        count("shared_processor", 1);
    }
    let m = ProcessorMount::new("m");
    if (&Wrap(&m)).race() {
        count("shared_mount", 1);
    }
    // handles, used through shared references
    let (tx, mut p) = TelemetryProcessor::<Lb>::new_pair("shared");
    p.add_handler(Comp::new(r, false));
    let mut d = DriverBuilder::new("shared").build();
    count("drivers", 1);
    d.add_processor(p);
    let am = d.attached_mount(ProcessorMount::new("am"));
    if (&Wrap(&d)).race() {
        count("shared_driver", 1);
    }
    let seeds = [r.next(), r.next(), r.next()];
    let (tx, am, d) = (&tx, &am, &d);
    std::thread::scope(|s| {
        for k in seeds {
            s.spawn(move || {
                let mut r = Rng::new(k);
                for _ in 0..if cfg!(miri) { 3 } else { 20 } {
                    match r.below(6) {
                        0 => am.put_snapshooter(Comp::new(&mut r, false)),
                        1 => {
                            let _ = d.snapshot(r.bool());
                        }
                        2 => {
                            let f = d.snapshot_async(r.bool());
                            if r.bool() {
                                let _ = block_on(f);
                            }
                        }
                        3 => {
                            let t = tx.clone();
                            transmit(&mut r, &t);
                        }
                        _ => transmit(&mut r, tx),
                    }
                }
            });
        }
    });
    count("shared_handles", 3);
}
