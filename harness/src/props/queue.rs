//! C01 exactly once, C02 order, C03 bounded queues, C05 outcomes, C06 strategies
use super::instr::{gauge_adapter, GKind};
use crate::common::*;

// ------------------------------------------------------------------ shared: a random consumer tree
pub struct Sink {
    pub accept: [bool; 16],
    pub log: Log<u8>,
    pub what: String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum NumKind {
    Counter,
    Meter,
    Histogram,
}
pub struct Num {
    pub accept: [bool; 16],
    pub path: Vec<String>,
    pub kind: NumKind,
}
#[derive(Default)]
pub struct Sinks {
    pub sinks: Vec<Sink>,
    pub nums: Vec<Num>,
}
pub fn random_accept(r: &mut Rng) -> ([bool; 16], LabelFilter<u8>) {
    let mut a = [false; 16];
    match r.below(5) {
        0 => ([true; 16], LabelFilter::accept_all()),
        1 => {
            let k = r.below(8) as u8;
            (0..16).for_each(|i| a[i] = (i as u8) < k);
            (a, LabelFilter::predicate(move |l: &u8| *l < k))
        }
        _ => {
            let n = r.usize(7);
            let mut v = vec![];
            for _ in 0..n {
                let l = r.below(8) as u8;
                a[l as usize] = true;
                v.push(l);
            }
            (a, LabelFilter::from(v))
        }
    }
}
pub fn and(a: &[bool; 16], b: &[bool; 16]) -> [bool; 16] {
    let mut o = [false; 16];
    (0..16).for_each(|i| o[i] = a[i] && b[i]);
    o
}
impl Sinks {
    fn rec(&mut self, accept: [bool; 16], what: String) -> Recorder<u8> {
        let log = new_log();
        let rec = Recorder::new(&log);
        self.sinks.push(Sink { accept, log, what });
        rec
    }
    fn panel(&mut self, r: &mut Rng, outer: &[bool; 16], path: &[String], name: &str, depth: u32) -> Panel<u8> {
        let (a, f) = if depth > 2 && r.chance(9, 10) { ([true; 16], LabelFilter::accept_all()) } else { random_accept(r) };
        let accept = and(outer, &a);
        let named = r.chance(2, 3);
        let mut p = if named { Panel::named(f, name) } else { Panel::new(f) };
        let mut path = path.to_vec();
        if named {
            path.push(name.to_string());
        }
        if r.bool() {
            p.add_handler(self.rec(accept, format!("panel {} handler", name)));
        }
        for k in 0..r.below(4) {
            let iname = format!("{}_i{}", name, k);
            let mut ipath = path.clone();
            ipath.push(iname.clone());
            let kind = *r.pick(&[NumKind::Counter, NumKind::Meter, NumKind::Histogram]);
            match kind {
                NumKind::Counter => p.add_counter(Counter::new(iname)),
                NumKind::Meter => p.add_meter(Meter::new(iname)),
                NumKind::Histogram => p.add_histogram(Histogram::new(iname)),
            }
            if kind != NumKind::Counter {
                ipath.push("count".into());
            }
            self.nums.push(Num { accept, path: ipath, kind });
        }
        if depth > 2 {
            // one of the large ones
            let n = *r.pick(&[2, 10, 40]);
            for h in 0..r.below(n) {
                p.add_handler(self.rec(accept, format!("panel {} handler {}", name, h)));
            }
            let sub = self.panel(r, &accept, &path, &format!("{}s", name), depth - 1);
            p.add_panel(sub);
        } else if depth > 0 && r.chance(1, 2) {
            let sub = self.panel(r, &accept, &path, &format!("{}s", name), depth - 1);
            p.add_panel(sub);
        }
        p
    }
    /// Fills a processor with cockpits, panels, handlers
    pub fn fill(&mut self, r: &mut Rng, proc: &mut TelemetryProcessor<u8>, prefix: &[String], tag: &str) {
        let all = [true; 16];
        let mut path = prefix.to_vec();
        if let Some(n) = proc.get_name() {
            path.push(n.to_string());
        }
        proc.add_handler(self.rec(all, format!("{} processor handler", tag)));
        // once in a while something large
        let large = r.chance(1, 60);
        let (mut cockpits, mut panels, mut deep, mut handlers) = (r.below(4), 4, 2, 0);
        if large {
            match r.below(4) {
                0 => cockpits = r.below(70),
                1 => panels = 70,
                2 => deep = 2 + r.below(30) as u32,
                _ => handlers = r.below(70),
            }
            for h in 0..handlers {
                proc.add_handler(self.rec(all, format!("{} processor handler {}", tag, h)));
            }
            count("large_trees", 1);
        }
        for c in 0..cockpits {
            let cname = format!("{}c{}", tag, c);
            let named = r.bool();
            let mut ck = if named { Cockpit::new(cname.clone()) } else { Cockpit::without_name() };
            let mut cpath = path.clone();
            if named {
                cpath.push(cname.clone());
            }
            if r.bool() {
                ck.add_handler(self.rec(all, format!("cockpit {} handler", cname)));
            }
            for h in 0..if handlers > 0 { r.below(40) } else { 0 } {
                ck.add_handler(self.rec(all, format!("cockpit {} handler {}", cname, h)));
            }
            for p in 0..r.below(panels) {
                let panel = self.panel(r, &all, &cpath, &format!("{}p{}", cname, p), deep);
                ck.add_panel(panel);
            }
            proc.add_cockpit(ck);
        }
    }
    pub fn handled(&self) -> u64 {
        self.sinks.iter().map(|s| s.log.lock().unwrap().len() as u64).sum()
    }
    pub fn expected(&self, sent: &[Ob<u8>]) -> u64 {
        self.sinks.iter().map(|s| sent.iter().filter(|o| s.accept[o.label as usize]).count() as u64).sum()
    }
    pub fn judge(&self, c: &Case, sent: &[Ob<u8>], snap: Option<&Snapshot>) {
        for s in &self.sinks {
            let key = |o: &Ob<u8>| (o.val, o.label, o.ts);
            let mut want: Vec<Ob<u8>> = sent.iter().filter(|o| s.accept[o.label as usize]).cloned().collect();
            let mut got = s.log.lock().unwrap().clone();
            want.sort_by_key(key);
            got.sort_by_key(key);
            if want != got {
                let missing: Vec<_> = want.iter().filter(|o| !got.contains(o)).take(5).collect();
                let extra: Vec<_> = got.iter().filter(|o| !want.contains(o)).take(5).collect();
                c.fail(format!(
                    "{}: {} observations handled, {} accepted ones sent; missing {:?}, not sent {:?} (or duplicates)",
                    s.what,
                    got.len(),
                    want.len(),
                    missing,
                    extra
                ));
            }
        }
        count("sinks_judged", self.sinks.len() as u64);
        if let Some(snap) = snap {
            for n in &self.nums {
                let acc = sent.iter().filter(|o| n.accept[o.label as usize]);
                let want: u64 = match n.kind {
                    NumKind::Counter | NumKind::Meter => acc.map(|o| o.val.multiplicity()).sum(),
                    NumKind::Histogram => acc.filter(|o| o.val.number(1).is_some()).count() as u64,
                };
                let path: Vec<&str> = n.path.iter().map(|s| &**s).collect();
                let got = snap.u(&path);
                c.check(got == Some(want), || {
                    format!("{:?} at {:?} shows {:?}, but {} were sent\n{}", n.kind, path, got, want, snap_str(snap))
                });
            }
            count("instruments_judged", self.nums.len() as u64);
        }
    }
}
fn ids(r: &mut Rng, p: u64, k: u64) -> Val {
    id_val(r, 1 + p * 1_000_000 + k)
}
/// Something to process which contains a processor
enum Host {
    Plain(TelemetryProcessor<u8>),
    Mount(ProcessorMount),
}
impl Host {
    fn process(&mut self, max: usize, s: ProcessingStrategy) -> ProcessingOutcome {
        match self {
            Host::Plain(p) => p.process(max, s),
            Host::Mount(p) => p.process(max, s),
        }
    }
    fn snap(&self) -> Snapshot {
        match self {
            Host::Plain(p) => shot_of(p, false),
            Host::Mount(p) => shot_of(p, false),
        }
    }
}
pub fn make_pair(r: &mut Rng, cap: Option<usize>, block: bool) -> (TelemetryTransmitter<u8>, TelemetryProcessor<u8>) {
    match (cap, r.bool()) {
        (None, true) => TelemetryProcessor::new_pair("proc"),
        (None, false) => TelemetryProcessor::new_pair_without_name(),
        (Some(n), true) => TelemetryProcessor::new_pair_bounded("proc", n, block),
        (Some(n), false) => TelemetryProcessor::new_pair_bounded_without_name(n, block),
    }
}
pub fn transmit_some_way(r: &mut Rng, tx: &TelemetryTransmitter<u8>, o: &Ob<u8>) {
    if r.bool() {
        tx.transmit(o.to());
        return;
    }
    match o.val {
        Val::One => drop(tx.observed_one(o.label, o.ts)),
        Val::Count(n) => drop(tx.observed(o.label, n, o.ts)),
        v => drop(tx.observed_one_value(o.label, v.value().unwrap(), o.ts)),
    }
}
pub fn random_ts(r: &mut Rng) -> Instant {
    let now = Instant::now();
    match r.below(4) {
        0 => now.checked_sub(secs(r.below(100))).unwrap_or(now),
        1 => now + secs(r.below(100_000)),
        _ => now,
    }
}

pub fn c01() {
    rule("random consumer trees (cockpits, panels, nested panels, handlers, counter/meter/histogram) fed by 1-5 producer threads with uniquely identifiable observations through unbounded and bounded blocking queues of capacity 0..100, processed directly with random batch limits or by a driver; every recorder must have seen exactly the accepted multiset, every count must be the exact sum. Non-trivial: more than one observation sent.");
    clock::COMPRESS_US.store(200, SeqCst);
    run("direct", 1_500, 36_000, 8, |c| c01_case(c, false));
    run("driver", 600, 12_500, 4, |c| c01_case(c, true));
    run("echo", 3_000, 60_000, 8, c01_echo);
    run("bulk", 60, 1_000, 6, |c| bulk(c, Focus::Once));
}
fn c01_case(c: &mut Case, use_driver: bool) {
    let mut r = c.rng.clone();
    let cap = if r.chance(2, 5) { None } else { Some(*r.pick(&[0usize, 1, 2, 3, 7, 100])) };
    let (tx, mut proc) = make_pair(&mut r, cap, true);
    let mut sinks = Sinks::default();
    // where it is mounted
    let depth = r.below(4);
    let mut prefix: Vec<String> = vec![];
    let mut mounts: Vec<Option<String>> = vec![];
    for d in 0..depth {
        let n = if r.bool() { Some(format!("m{}", d)) } else { None };
        prefix.extend(n.clone());
        mounts.push(n);
    }
    if r.chance(1, 5) {
        let panel = r.bool();
        starts_empty(c, &mut r, &tx, &mut proc, |tx| {
            if panel {
                tx.add_cockpit(Cockpit::new("unused").panel(Panel::named(LabelFilter::new(99u8), "unused")));
            }
        });
    }
    sinks.fill(&mut r, &mut proc, &prefix, "x");
    let producers = 1 + r.below(5);
    let per = r.below(if use_driver { 60 } else { 120 });
    c.sig(&format!("{:?} {} {} {} {}", cap, depth, producers, per, sinks.sinks.len()));
    if producers * per < 2 {
        c.trivial();
    }
    // observations sent before anybody processes
    let mut sent: Vec<Ob<u8>> = vec![];
    if cap.is_none() || cap >= Some(3) {
        for k in 0..r.below(4) {
            let o = Ob { label: r.below(8) as u8, val: ids(&mut r, 0, k), ts: random_ts(&mut r) };
            transmit_some_way(&mut r, &tx, &o);
            sent.push(o);
        }
    }
    c.log(format!("cap {:?} producers {} per {} mounts {:?} driver {}", cap, producers, per, mounts, use_driver));
    let plans: Vec<Vec<Ob<u8>>> = (0..producers)
        .map(|p| {
            (0..per)
                .map(|k| Ob {
                    label: r.below(8) as u8,
                    val: if r.chance(1, 20) { Val::Count(0) } else { ids(&mut r, p + 1, k) },
                    ts: random_ts(&mut r),
                })
                // Count(0) is not unique; make its time stamp so
                .enumerate()
                .map(|(i, mut o)| {
                    if o.val == Val::Count(0) {
                        o.ts += Duration::from_nanos((p * 1000 + i as u64) * 7 + 1);
                    }
                    o
                })
                .collect()
        })
        .collect();
    for p in &plans {
        sent.extend(p.iter().cloned());
    }
    let seed = r.next();
    let mut handles = vec![];
    let finished = Arc::new(AtomicU64::new(0));
    for (p, plan) in plans.into_iter().enumerate() {
        let tx = tx.clone();
        let mut r = Rng::new(seed ^ p as u64);
        let b = c.beater();
        let finished = finished.clone();
        handles.push(std::thread::spawn(move || {
            b.adopt();
            let mut tx = tx;
            for o in plan {
                if r.chance(1, 10) {
                    tx = tx.clone();
                }
                transmit_some_way(&mut r, &tx, &o);
                jitter(&mut r);
            }
            finished.fetch_add(1, SeqCst);
        }));
    }
    let keep_tx = r.bool();
    let monitor = if keep_tx { Some(tx.clone()) } else { None };
    drop(tx);
    let expected = sinks.expected(&sent);
    if use_driver {
        let beat = Beat::default();
        let metrics = r.bool();
        let mut driver = DriverBuilder::default().set_processing_strategy(ALL).set_driver_metrics(metrics).build();
        driver.add_processor(beat.clone());
        // nested mounts
        let mut inner: Option<ProcessorMount> = None;
        let mut proc = Some(proc);
        for n in mounts.iter().rev() {
            let mut m = match n {
                Some(n) => ProcessorMount::new(n.clone()),
                None => ProcessorMount::default(),
            };
            match inner.take() {
                Some(i) => m.add_processor(i),
                None => m.add_processor(proc.take().unwrap()),
            }
            inner = Some(m);
        }
        match inner {
            None => driver.add_processor(proc.take().unwrap()),
            Some(m) => {
                if r.bool() {
                    let _ = driver.attached_mount(m);
                } else {
                    driver.add_processor(m)
                }
            }
        }
        let ok = c.op("waiting for all observations to be handled by the driver", || {
            wait_rounds(
                c,
                &beat,
                600,
                || finished.load(SeqCst) == producers,
                || sinks.handled() + finished.load(SeqCst),
                || sinks.handled() >= expected && finished.load(SeqCst) == producers,
            )
        });
        if !ok && finished.load(SeqCst) < producers {
            c.fail(format!(
                "producers do not return although the driver is running ({} of {} done, {} handled)",
                finished.load(SeqCst),
                producers,
                sinks.handled()
            ));
        }
        for h in handles {
            c.op("joining producers", || h.join().ok());
        }
        if !ok {
            sinks.judge(c, &sent, None);
            c.fail(format!("only {} of {} handled after 600 idle runs", sinks.handled(), expected));
        }
        wait_beats(c, &beat, 2);
        let s = c.op("snapshot", || driver.snapshot(false));
        match s {
            Ok(s) => sinks.judge(c, &sent, Some(&s)),
            Err(_) => c.fail("no snapshot from a running driver"),
        }
        drop(driver);
    } else {
        let mut host = {
            let mut inner: Option<ProcessorMount> = None;
            let mut proc = Some(proc);
            for n in mounts.iter().rev() {
                let mut m = match n {
                    Some(n) => ProcessorMount::new(n.clone()),
                    None => ProcessorMount::default(),
                };
                match inner.take() {
                    Some(i) => m.add_processor(i),
                    None => m.add_processor(proc.take().unwrap()),
                }
                inner = Some(m);
            }
            match inner {
                Some(m) => Host::Mount(m),
                None => Host::Plain(proc.take().unwrap()),
            }
        };
        let mut total = 0u64;
        let mut idle = 0;
        c.op("processing until drained", || loop {
            let max = *r.pick(&[1usize, 2, 3, 10, 50, 1000, 1 << 32, usize::MAX]);
            let done = finished.load(SeqCst) == producers;
            let out = host.process(max, ALL);
            c.check(out.dropped == 0, || format!("{} observations dropped with process-all", out.dropped));
            if out.processed > 0 {
                c.beat();
                idle = 0;
            } else {
                idle += 1;
                if !done {
                    nap();
                }
            }
            total += out.processed as u64;
            if done && (total >= sent.len() as u64 || idle > 3) {
                break;
            }
        });
        // nothing may follow
        let out = host.process(1000, ALL);
        total += out.processed as u64;
        for h in handles {
            c.op("joining producers", || h.join().ok());
        }
        sinks.judge(c, &sent, Some(&host.snap()));
        c.eq(total, sent.len() as u64, || "observations processed in total".into());
        if let Some(tx) = monitor {
            c.eq(tx.queue_size(), 0, || "queue size in the end".into());
        }
    }
    count("observations", sent.len() as u64);
    c.sample(|| format!("cap {:?}, {} producers, {} observations, {} recorders, mounts {:?}", cap, producers, sent.len(), sinks.sinks.len(), mounts));
}

/// A handler transmits while it handles.
struct Echo {
    tx: TelemetryTransmitter<u8>,
    from: u8,
}
impl PutsSnapshot for Echo {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl HandlesObservations for Echo {
    type Label = u8;
    fn handle_observation(&mut self, o: &Observation<u8>) -> usize {
        if *o.label() == self.from {
            let mut e = Ob::of(o);
            e.label += 1;
            self.tx.transmit(e.to());
        }
        0
    }
}
fn c01_echo(c: &mut Case) {
    let mut r = c.rng.clone();
    let own = r.bool();
    let (tx, mut p) = make_pair(&mut r, None, true);
    let (tx2, mut p2) = make_pair(&mut r, None, true);
    let levels = 1 + r.below(3) as u8;
    let (log, log2) = (new_log(), new_log());
    p.add_handler(Recorder::new(&log));
    p2.add_handler(Recorder::new(&log2));
    for k in 0..levels {
        let t = if own { tx.clone() } else { tx2.clone() };
        let e = Echo { tx: t, from: k };
        match r.below(3) {
            0 => p.add_handler(e),
            1 => p.add_cockpit(Cockpit::without_name().handler(e)),
            _ => p.add_cockpit(Cockpit::without_name().panel(Panel::accept(k).handler(e))),
        }
    }
    let n = 1 + r.below(40);
    let mut sent = vec![];
    for k in 0..n {
        let o = Ob { label: 0u8, val: ids(&mut r, 1, k), ts: Instant::now() };
        tx.transmit(o.to());
        sent.push(o);
    }
    c.sig(&format!("{} {} {}", own, levels, n));
    let max = 1 + r.usize(50);
    for _ in 0..(n as usize * 5 / max + 10) * 2 {
        p.process(max, ALL);
        p2.process(max, ALL);
    }
    let by = |log: &Log<u8>, l: u8| {
        let mut v: Vec<Val> = log.lock().unwrap().iter().filter(|o| o.label == l).map(|o| o.val).collect();
        v.sort();
        v
    };
    let mut want: Vec<Val> = sent.iter().map(|o| o.val).collect();
    want.sort();
    c.eq(by(&log, 0), want.clone(), || "original observations".into());
    if own {
        for k in 1..=levels {
            c.eq(by(&log, k), want.clone(), || format!("observations echoed by handlers at level {}", k));
        }
    } else {
        c.eq(by(&log2, 1), want.clone(), || "observations echoed into another processor".into());
    }
    count("observations", n * (1 + levels as u64));
    c.sample(|| format!("{} observations echoed {} times, own queue {}", n, levels, own));
}

// ------------------------------------------------------------------ C02
/// What one producer expects of a recorder: its own observations in this order.
struct Expect {
    log: Log<u8>,
    want: Vec<(u64, u64)>,
    what: String,
    open: bool,
    cockpit: Option<String>,
    panel: Option<String>,
}
pub fn c02() {
    rule("1-4 producers send random scripts of observations, add handler/cockpit/panel and remove panel/cockpit messages (names disjoint between producers), with a shared token passed around under a lock for cross-thread order; each recorder must contain exactly the producer's observations between its addition and removal, in order. Non-trivial: script with a control message.");
    clock::COMPRESS_US.store(200, SeqCst);
    run("direct", 2_400, 60_000, 8, |c| c02_case(c, false));
    run("driver", 600, 15_000, 4, |c| c02_case(c, true));
    run("bulk", 60, 1_000, 6, |c| bulk(c, Focus::Order));
}
/// Works on a processor without any components - noise, idle passes - before
/// `add` sends it some.
fn starts_empty(c: &Case, r: &mut Rng, tx: &TelemetryTransmitter<u8>, proc: &mut TelemetryProcessor<u8>, add: impl Fn(&TelemetryTransmitter<u8>) + Sync) {
    let noise = r.below(6);
    let after = r.below(4);
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            for n in 0..noise {
                match n % 3 {
                    0 => tx.transmit(Val::Count(0).observation(99, Instant::now())),
                    1 => tx.remove_cockpit("nothing"),
                    _ => tx.add_panel_to_cockpit("nothing", Panel::accept_all()),
                };
            }
            done.store(true, SeqCst);
        });
        c.op("noise for a processor without components", || {
            while !done.load(SeqCst) || !tx.is_queue_empty() && tx.queue_capacity() != Some(0) {
                proc.process(1 + r.usize(5), ALL);
                c.beat();
            }
        });
    });
    for _ in 0..after {
        proc.process(100, ALL);
    }
    done.store(false, SeqCst);
    std::thread::scope(|s| {
        s.spawn(|| {
            add(tx);
            done.store(true, SeqCst);
        });
        c.op("adding components to a processor without any", || {
            while !done.load(SeqCst) || !tx.is_queue_empty() && tx.queue_capacity() != Some(0) {
                proc.process(1 + r.usize(5), ALL);
                c.beat();
            }
        });
    });
}
fn c02_case(c: &mut Case, use_driver: bool) {
    let mut r = c.rng.clone();
    let cap = if r.bool() { None } else { Some(*r.pick(&[0usize, 1, 2, 5, 50])) };
    // a queue that never becomes full loses nothing, whether it would block or not
    let wide = r.chance(1, 4);
    let cap = if wide { Some(4000) } else { cap };
    let block = !wide || r.bool();
    let (tx, mut proc) = make_pair(&mut r, cap, block);
    let global = new_log();
    let pglobal = new_log();
    if r.chance(2, 3) {
        proc.add_handler(Recorder::new(&global));
        proc.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().handler(Recorder::new(&pglobal))));
    } else {
        // a processor that begins with nothing and gets everything by message
        starts_empty(c, &mut r, &tx, &mut proc, |tx| {
            tx.add_handler(Recorder::new(&global));
            tx.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().handler(Recorder::new(&pglobal))));
        });
    }
    let producers = 1 + r.below(4);
    let names = if r.chance(1, 8) { *r.pick(&[60, 200]) } else { 3 };
    let steps = if names > 3 || r.chance(1, 12) { 5 + r.below(600) } else { 5 + r.below(60) };
    // of twelve steps that many add a handler
    let keen = if names > 3 && r.bool() { 6 } else { 1 };
    // nothing is processed before everything was sent
    let backlog = !use_driver && (wide || cap.is_none()) && r.chance(1, 3);
    let seed = r.next();
    let token = Arc::new(Mutex::new(0u64));
    let finished = Arc::new(AtomicU64::new(0));
    let mut handles = vec![];
    for p in 0..producers {
        let tx = tx.clone();
        let token = token.clone();
        let finished = finished.clone();
        let b = c.beater();
        handles.push(std::thread::spawn(move || {
            b.adopt();
            let mut r = Rng::new(seed ^ (p << 8));
            let mut exps: Vec<Expect> = vec![];
            let mut cockpits: Vec<String> = vec![];
            let mut own: Vec<(u64, u64)> = vec![];
            let mut script = vec![];
            let mut n = 0u64;
            for step in 0..steps {
                if !backlog {
                    jitter(&mut r);
                }
                let kind = if keen > 1 && r.below(12) < keen { 0 } else { r.below(14) };
                match kind {
                    0 => {
                        let log = new_log();
                        tx.add_handler(Recorder::new(&log));
                        exps.push(Expect { log, want: vec![], what: format!("p{} handler added at step {}", p, step), open: true, cockpit: None, panel: None });
                        script.push('H');
                    }
                    1 | 2 => {
                        let name = format!("p{}c{}", p, r.below(names));
                        let log = new_log();
                        let fresh = !cockpits.contains(&name);
                        let mut ck = Cockpit::new(name.clone()).handler(Recorder::new(&log));
                        let log2 = new_log();
                        let with_panel = r.bool();
                        let pn = format!("q{}", r.below(if names > 3 { 12 } else { 2 }));
                        if with_panel {
                            ck.add_panel(Panel::accept_all_named(pn.clone()).handler(Recorder::new(&log2)));
                        }
                        tx.add_cockpit(ck);
                        exps.push(Expect { log, want: vec![], what: format!("p{} cockpit {} step {}", p, name, step), open: fresh, cockpit: Some(name.clone()), panel: None });
                        if with_panel {
                            exps.push(Expect { log: log2, want: vec![], what: format!("p{} panel {}/{} step {}", p, name, pn, step), open: fresh, cockpit: Some(name.clone()), panel: Some(pn) });
                        }
                        if fresh {
                            cockpits.push(name);
                        }
                        script.push('C');
                    }
                    3 => {
                        let name = format!("p{}c{}", p, r.below(names));
                        tx.remove_cockpit(name.clone());
                        cockpits.retain(|x| *x != name);
                        exps.iter_mut().filter(|e| e.cockpit.as_ref() == Some(&name)).for_each(|e| e.open = false);
                        script.push('R');
                    }
                    4 | 5 => {
                        let name = format!("p{}c{}", p, r.below(names));
                        let pn = format!("q{}", r.below(if names > 3 { 12 } else { 2 }));
                        let log = new_log();
                        let taken = exps.iter().any(|e| e.open && e.cockpit.as_ref() == Some(&name) && e.panel.as_ref() == Some(&pn));
                        let open = cockpits.contains(&name) && !taken;
                        tx.add_panel_to_cockpit(name.clone(), Panel::accept_all_named(pn.clone()).handler(Recorder::new(&log)));
                        exps.push(Expect { log, want: vec![], what: format!("p{} panel {}/{} step {}", p, name, pn, step), open, cockpit: Some(name), panel: Some(pn) });
                        script.push('P');
                    }
                    6 => {
                        let name = format!("p{}c{}", p, r.below(names));
                        let pn = format!("q{}", r.below(if names > 3 { 12 } else { 2 }));
                        tx.remove_panel_from_cockpit(name.clone(), pn.clone());
                        exps.iter_mut()
                            .filter(|e| e.cockpit.as_ref() == Some(&name) && e.panel.as_ref() == Some(&pn))
                            .for_each(|e| e.open = false);
                        script.push('Q');
                    }
                    _ => {
                        n += 1;
                        // the shared token orders observations of different threads
                        let mut g = token.lock().unwrap();
                        *g += 1;
                        let id = *g;
                        tx.transmit(Val::Count(id).observation(p as u8, Instant::now()));
                        drop(g);
                        own.push((n, id));
                        exps.iter_mut().filter(|e| e.open).for_each(|e| e.want.push((n, id)));
                        script.push('o');
                    }
                }
            }
            finished.fetch_add(1, SeqCst);
            (exps, own, script.into_iter().collect::<String>())
        }));
    }
    drop(tx);
    if use_driver {
        let beat = Beat::default();
        let mut driver = DriverBuilder::default().set_processing_strategy(ALL).build();
        driver.add_processor(beat.clone());
        driver.add_processor(proc);
        let ok = c.op("waiting for the producers", || {
            wait_rounds(c, &beat, 600, || false, || global.lock().unwrap().len() as u64 + finished.load(SeqCst), || finished.load(SeqCst) == producers)
        });
        c.check(ok, || "producers do not return although the driver is running".into());
        // at most one run takes what is left (batches of a run are larger than a script)
        let sent = *token.lock().unwrap();
        c.op("waiting for observations", || {
            wait_rounds(c, &beat, 300, || true, || global.lock().unwrap().len() as u64, || global.lock().unwrap().len() as u64 >= sent)
        });
        wait_beats(c, &beat, 3);
        drop(driver);
    } else {
        if backlog {
            wait_for(c, "producers that need not wait", || finished.load(SeqCst) == producers);
            count("backlogs", 1);
        }
        c.op("processing until drained", || {
            let mut idle = 0;
            while idle < 3 {
                let done = finished.load(SeqCst) == producers;
                let max = *r.pick(&[1usize, 2, 5, 100, 10_000]);
                let o = proc.process(max, ALL);
                if o.processed + o.dropped > 0 {
                    idle = 0;
                    c.beat();
                } else if done {
                    idle += 1;
                } else {
                    nap();
                }
            }
        });
    }
    let mut scripts = vec![];
    let mut controls = 0;
    for (p, h) in handles.into_iter().enumerate() {
        let (exps, own, script) = c.op("joining producers", || h.join()).expect("producer");
        c.log(format!("producer {}: {}", p, script));
        controls += exps.len();
        for e in &exps {
            let got: Vec<u64> = e.log.lock().unwrap().iter().filter(|o| o.label == p as u8).map(|o| match o.val { Val::Count(n) => n, _ => 0 }).collect();
            let want: Vec<u64> = e.want.iter().map(|x| x.1).collect();
            c.check(got == want, || format!("{}: own observations seen {:?}, expected exactly {:?}", e.what, got, want));
        }
        let got: Vec<u64> = global.lock().unwrap().iter().filter(|o| o.label == p as u8).map(|o| match o.val { Val::Count(n) => n, _ => 0 }).collect();
        c.eq(got, own.iter().map(|x| x.1).collect::<Vec<_>>(), || format!("observations of producer {} at the processor's handler", p));
        c.sig(&script);
        scripts.push(script);
    }
    for (log, what) in [(&global, "processor handler"), (&pglobal, "panel")] {
        let seq: Vec<u64> = log.lock().unwrap().iter().map(|o| match o.val { Val::Count(n) => n, _ => 0 }).collect();
        c.check(seq.windows(2).all(|w| w[0] < w[1]), || format!("{}: observations ordered across threads by a lock arrived as {:?}", what, seq));
    }
    if controls == 0 {
        c.trivial();
    }
    count("observations", *token.lock().unwrap());
    count("recorders", controls as u64);
    c.sample(|| format!("cap {:?} scripts {:?}", cap, scripts));
}

// ------------------------------------------------------------------ C03
pub fn c03() {
    rule("bounded queues of capacity 0..100: exact single-threaded model of accept/drop/size/full/empty/capacity after every operation; rounds of concurrent non-blocking senders without consumer (exactly min(capacity, sent) survive); concurrent blocking senders (lossless, size never above capacity, blocked exactly while full). Non-trivial: the queue was full at least once.");
    clock::COMPRESS_US.store(200, SeqCst);
    run("model", 45_000, 900_000, 8, c03_model);
    run("rounds", 500, 10_000, 4, c03_rounds);
    run("blocking", 750, 15_000, 4, c03_blocking);
    run("single_blocked", 300, 5_000, 4, c03_blocked);
    run("patience", 8, 16, 8, c03_patience);
    run("bulk", 80, 1_000, 6, |c| bulk(c, Focus::Bounded));
}
fn any_message(r: &mut Rng, tx: &TelemetryTransmitter<u8>, id: u64) -> bool {
    // true if it was an observation with that id
    match r.below(8) {
        0 => {
            tx.remove_cockpit(format!("nope{}", id));
            false
        }
        1 => {
            tx.add_panel_to_cockpit("nope", Panel::accept_all());
            false
        }
        _ => {
            let o = Ob { label: r.below(4) as u8, val: Val::Count(id), ts: Instant::now() };
            transmit_some_way(r, tx, &o);
            true
        }
    }
}
fn c03_model(c: &mut Case) {
    let mut r = c.rng.clone();
    let cap = match r.below(6) {
        0 => None,
        1 => Some(0usize),
        2 => Some(1),
        3 => Some(2),
        4 => Some(3 + r.usize(10)),
        _ => Some(100),
    };
    let block = r.chance(1, 4);
    let (tx, mut p) = make_pair(&mut r, cap, block);
    let txs = [tx.clone(), tx];
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let mut queue: VecDeque<Option<u64>> = VecDeque::new();
    let mut expect: Vec<u64> = vec![];
    let mut was_full = false;
    let mut ops = String::new();
    let n = 10 + r.below(if cap == Some(100) { 400 } else { 80 });
    for id in 1..=n {
        let tx = &txs[r.usize(2)];
        let full = cap.map(|m| queue.len() >= m).unwrap_or(false);
        was_full |= full;
        if r.chance(3, 4) {
            if full && block {
                continue;
            }
            let is_obs = c.op("send that must not block", || any_message(&mut r, tx, id));
            ops.push('s');
            if !full {
                queue.push_back(if is_obs { Some(id) } else { None });
            }
        } else {
            let max = *r.pick(&[0usize, 1, 2, 5, 1000]);
            ops.push_str(&format!("p{} ", max));
            let out = p.process(max, ALL);
            let k = queue.len().min(max);
            c.eq(out.processed, k, || "messages processed".into());
            for _ in 0..k {
                if let Some(id) = queue.pop_front().unwrap() {
                    expect.push(id);
                }
            }
        }
        c.eq(tx.queue_size(), queue.len(), || format!("queue size after {}", ops));
        c.eq(tx.queue_capacity(), cap, || "queue capacity".into());
        if cap != Some(0) {
            c.eq(tx.is_queue_full(), cap.map(|m| queue.len() >= m).unwrap_or(false), || format!("fullness with {} of {:?} after {}", queue.len(), cap, ops));
            c.eq(tx.is_queue_empty(), queue.is_empty(), || format!("emptiness with {} of {:?} after {}", queue.len(), cap, ops));
        } else {
            c.check(tx.is_queue_full(), || "a queue of capacity zero is not full".into());
        }
    }
    p.process(usize::MAX, ALL);
    expect.extend(queue.iter().flatten());
    let got: Vec<u64> = log.lock().unwrap().iter().map(|o| match o.val { Val::Count(n) => n, _ => 0 }).collect();
    c.eq(got, expect, || format!("observations that were accepted by a queue of {:?} (block {}), ops {}", cap, block, ops));
    c.sig(&ops);
    if !was_full {
        c.trivial();
    }
    count("sends", n);
    c.sample(|| format!("cap {:?} block {} ops {}", cap, block, ops));
}
fn c03_rounds(c: &mut Case) {
    let mut r = c.rng.clone();
    let cap = *r.pick(&[1usize, 2, 5, 20, 100]);
    let (tx, mut p) = make_pair(&mut r, Some(cap), false);
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let threads = 1 + r.usize(4);
    let mut base = 0u64;
    let concurrent = r.bool();
    for round in 0..6 {
        let per = 1 + r.usize(2 * cap / threads + 3);
        let total = per * threads;
        let stop = Arc::new(AtomicBool::new(false));
        let over = Arc::new(AtomicU64::new(0));
        let mut hs = vec![];
        for t in 0..threads {
            let tx = tx.clone();
            let b = c.beater();
            let seed = r.next();
            let over = over.clone();
            hs.push(std::thread::spawn(move || {
                b.adopt();
                let mut r = Rng::new(seed);
                for k in 0..per {
                    tx.observed(0, base + (t * per + k) as u64 + 1, Instant::now());
                    if tx.queue_size() > cap {
                        over.fetch_add(1, SeqCst);
                    }
                    if r.chance(1, 6) {
                        std::thread::yield_now();
                    }
                }
            }));
        }
        if concurrent {
            for _ in 0..r.below(20) {
                p.process(1 + r.usize(3), ALL);
            }
        }
        c.op("non-blocking senders must return", || hs.into_iter().for_each(|h| drop(h.join())));
        stop.store(true, SeqCst);
        c.eq(over.load(SeqCst), 0, || format!("queue of capacity {} was seen above its capacity", cap));
        c.check(tx.queue_size() <= cap, || format!("{} queued of {}", tx.queue_size(), cap));
        p.process(usize::MAX, ALL);
        let mut got: Vec<u64> = log.lock().unwrap().drain(..).map(|o| match o.val { Val::Count(n) => n, _ => 0 }).collect();
        got.sort();
        let n = got.len();
        got.dedup();
        c.check(n == got.len() && got.iter().all(|g| *g > base && *g <= base + total as u64), || format!("round {}: duplicated or invented observations", round));
        let min = total.min(cap);
        c.check(n >= min, || format!("round {}: {} of {} observations survived although the queue has a capacity of {} and was empty before", round, n, total, cap));
        if !concurrent {
            c.eq(n, min, || format!("round {}: survivors of {} without a consumer, capacity {}", round, total, cap));
        }
        base += total as u64;
        c.sig(&format!("{} {}", total, n));
        count("sends", total as u64);
        count("dropped_when_full", (total - n) as u64);
    }
    c.sample(|| format!("cap {} threads {} concurrent consumer {}", cap, threads, concurrent));
}
fn c03_blocking(c: &mut Case) {
    let mut r = c.rng.clone();
    let cap = *r.pick(&[0usize, 1, 2, 5, 20]);
    let (tx, mut p) = make_pair(&mut r, Some(cap), true);
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let threads = 1 + r.below(4);
    let per = 5 + r.below(60);
    let mut hs = vec![];
    let over = Arc::new(AtomicU64::new(0));
    let full_seen = Arc::new(AtomicU64::new(0));
    for t in 0..threads {
        let (tx, over, full_seen, b) = (tx.clone(), over.clone(), full_seen.clone(), c.beater());
        let seed = r.next();
        hs.push(std::thread::spawn(move || {
            b.adopt();
            let mut r = Rng::new(seed);
            for k in 0..per {
                if k % 7 == 3 {
                    tx.remove_cockpit("nope");
                } else {
                    tx.observed(t as u8, k, Instant::now());
                }
                let n = tx.queue_size();
                if n > cap {
                    over.fetch_add(1, SeqCst);
                }
                if n == cap {
                    full_seen.fetch_add(1, SeqCst);
                }
                jitter(&mut r);
            }
        }));
    }
    let total = threads * per;
    let mut n = 0u64;
    c.op("blocking senders with a live consumer", || {
        let mut idle = 0;
        while n < total && idle < 2_000_000 {
            let o = p.process(*r.pick(&[1usize, 2, 7, 100]), ALL);
            n += o.processed as u64;
            if o.processed > 0 {
                c.beat();
                idle = 0;
            } else {
                idle += 1;
                std::thread::yield_now();
                if hs.iter().all(|h| h.is_finished()) && tx.queue_size() == 0 && idle > 3 {
                    break;
                }
            }
            jitter(&mut r);
        }
    });
    c.eq(n, total, || format!("messages processed of {} blocking senders, capacity {}", threads, cap));
    c.op("joining senders", || hs.into_iter().for_each(|h| drop(h.join())));
    for t in 0..threads {
        let got: Vec<u64> = log.lock().unwrap().iter().filter(|o| o.label == t as u8).map(|o| match o.val { Val::Count(n) => n, _ => 0 }).collect();
        let want: Vec<u64> = (0..per).filter(|k| k % 7 != 3).collect();
        c.eq(got, want, || format!("observations of sender {}", t));
    }
    c.eq(over.load(SeqCst), 0, || format!("queue of capacity {} was seen above its capacity", cap));
    if full_seen.load(SeqCst) == 0 {
        c.trivial();
    }
    c.sig(&format!("{} {} {} {}", cap, threads, per, full_seen.load(SeqCst)));
    count("sends", total);
    count("seen_full", full_seen.load(SeqCst));
    c.sample(|| format!("cap {} senders {} x {}", cap, threads, per));
}
fn c03_blocked(c: &mut Case) {
    let mut r = c.rng.clone();
    let cap = *r.pick(&[1usize, 2, 5]);
    let (tx, mut p) = make_pair(&mut r, Some(cap), true);
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    for k in 0..cap as u64 {
        c.op("blocking send while not full", || drop(tx.observed(0, k, Instant::now())));
    }
    let waiters = 1 + r.usize(3);
    let returned = Arc::new(AtomicUsize::new(0));
    let started = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for w in 0..waiters {
        let (tx, returned, started, b) = (tx.clone(), returned.clone(), started.clone(), c.beater());
        hs.push(std::thread::spawn(move || {
            b.adopt();
            started.fetch_add(1, SeqCst);
            tx.observed(1, w as u64, Instant::now());
            returned.fetch_add(1, SeqCst);
        }));
    }
    wait_for(c, "sender threads start", || started.load(SeqCst) == waiters);
    for _ in 0..20 {
        nap();
        c.eq(returned.load(SeqCst), 0, || "blocking senders that returned although the queue is full".into());
        c.eq(tx.queue_size(), cap, || "size of a full queue with waiting senders".into());
        c.check(tx.is_queue_full(), || "full queue does not report so".into());
    }
    for k in 1..=waiters {
        let o = p.process(1, ALL);
        c.eq(o.processed, 1, || "messages processed".into());
        wait_for(c, "a waiting sender gets the free place", || returned.load(SeqCst) >= k);
        for _ in 0..3 {
            nap();
        }
        c.eq(returned.load(SeqCst), k, || "waiting senders that got one free place each".into());
        c.eq(tx.queue_size(), cap, || "size of a full queue with waiting senders".into());
    }
    c.op("joining senders", || hs.into_iter().for_each(|h| drop(h.join())));
    p.process(1000, ALL);
    c.eq(log.lock().unwrap().len(), cap + waiters, || "observations handled".into());
    c.sig(&format!("{} {}", cap, waiters));
    count("blocked_senders", waiters as u64);
    c.sample(|| format!("cap {} waiting senders {}", cap, waiters));
}

/// Senders blocked for seconds of real time: neither do they give up, nor is anything lost.
fn c03_patience(c: &mut Case) {
    let mut r = c.rng.clone();
    let cap = r.usize(4);
    let secs = if thorough() { 100.0 } else { 6.0 };
    let (tx, mut p) = make_pair(&mut r, Some(cap), true);
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let mut want = vec![];
    for k in 0..cap as u64 {
        c.op("blocking send while not full", || drop(tx.observed(0, k, Instant::now())));
        want.push(k);
    }
    let waiters = 1 + r.below(4);
    let returned = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for w in 0..waiters {
        let (tx, returned, b) = (tx.clone(), returned.clone(), c.beater());
        let (way, quick) = (r.below(4), r.bool());
        hs.push(std::thread::spawn(move || {
            b.adopt();
            if quick {
                // minutes pass for this one
                clock::impatient();
            }
            let now = Instant::now();
            match way {
                0 => drop(tx.observed(1, 100 + w, now)),
                1 => drop(tx.transmit(Observation::ObservedOneValue { label: 1, value: (100 + w).into(), timestamp: now })),
                2 => drop(tx.observed_one_value_now(1, 100 + w)),
                _ => drop(tx.observed_now(1, 100 + w)),
            }
            returned.fetch_add(1, SeqCst);
        }));
        want.push(100 + w);
    }
    let t0 = real_secs();
    while real_secs() - t0 < secs {
        std::thread::sleep(Duration::from_millis(20));
        c.beat();
        c.eq(returned.load(SeqCst), 0, || format!("blocking senders that returned after {:.1} s although the queue of capacity {} is full", real_secs() - t0, cap));
        c.eq(tx.queue_size(), cap, || "size of a full queue with waiting senders".into());
    }
    c.op("processing until all waiting senders returned", || {
        while returned.load(SeqCst) < waiters as usize {
            p.process(1, ALL);
            nap();
        }
    });
    c.op("joining senders", || hs.into_iter().for_each(|h| drop(h.join())));
    p.process(1000, ALL);
    let mut got: Vec<u64> = log
        .lock()
        .unwrap()
        .iter()
        .map(|o| match o.val {
            Val::Count(n) => n,
            Val::U(n) => n,
            _ => 9999,
        })
        .collect();
    got.sort();
    c.eq(got, want, || format!("observations handled after blocking the senders for {} s", secs));
    c.sig(&format!("{} {}", cap, waiters));
    count("patient_senders", waiters);
    c.sample(|| format!("cap {} waiting senders {} for {} s", cap, waiters, secs));
}

// ------------------------------------------------------------------ C05
/// Handler with a scripted return value.
pub struct Ret {
    pub ret: usize,
}
impl PutsSnapshot for Ret {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl HandlesObservations for Ret {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        self.ret
    }
}
struct ModelQueue {
    tx: Option<TelemetryTransmitter<u8>>,
    /// Some(delta) for an observation that is old
    queue: VecDeque<Msg>,
    /// instruments updated per label
    per_label: [usize; 4],
    extra: usize,
    total: (u64, u64, u64),
}
#[derive(Clone, Copy)]
enum Msg {
    Control,
    AddHandler(usize),
    Obs { label: u8, old: bool, delta: bool },
}
/// Scripted processor for the sums of groups.
struct Const(usize, usize, usize, usize);
impl PutsSnapshot for Const {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for Const {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        ProcessingOutcome { processed: self.0, dropped: self.1, instruments_updated: self.2, observations_enqueued: self.3 }
    }
}
pub fn c05() {
    rule("random groups (processors in nested mounts and attached mounts, scripted processors) with random backlogs of fresh, old, delta observations and control messages; every pass with a random limit and strategy must report exactly what a model of the queues predicts, and sums over history must balance. Non-trivial: at least one message taken.");
    run("model", 25_000, 400_000, 8, c05_model);
    run("combine", 15_000, 150_000, 8, c05_combine);
    run("kinds", 30_000, 400_000, 8, c05_kinds);
    run("wide", 300, 5_000, 8, c05_wide);
    run("live", 60, 1000, 4, c05_live);
    run("bulk", 80, 1_000, 6, |c| bulk(c, Focus::Outcome));
}
fn c05_model(c: &mut Case) {
    let mut r = c.rng.clone();
    let t0 = virtual_start(&mut r);
    clock::advance(1000 * clock::NS);
    let nq = 1 + r.usize(4);
    let mut queues: Vec<ModelQueue> = vec![];
    let mut root = if r.bool() { ProcessorMount::new("root") } else { ProcessorMount::default() };
    let mut fixed = (0usize, 0usize, 0usize, 0usize);
    for _ in 0..nq {
        let cap = if r.bool() { None } else { Some(1000) };
        let (tx, mut p) = make_pair(&mut r, cap, true);
        let mut per_label = [0usize; 4];
        for _ in 0..r.below(4) {
            match r.below(4) {
                0 => {
                    let ret = r.usize(4);
                    p.add_handler(Ret { ret });
                    per_label.iter_mut().for_each(|x| *x += ret);
                }
                1 => {
                    let l = r.below(4) as u8;
                    let mut panel = Panel::accept(l).counter(Counter::new("c")).meter(Meter::new("m"));
                    per_label[l as usize] += 2;
                    if r.bool() {
                        panel.add_panel(Panel::accept_all().handler(Ret { ret: 3 }));
                        per_label[l as usize] += 3;
                    }
                    if r.bool() {
                        panel.add_instrument(StaircaseTimer::new("s"));
                        per_label[l as usize] += 1;
                    }
                    p.add_cockpit(Cockpit::without_name().panel(panel));
                }
                2 => {
                    let ret = r.usize(3);
                    // a second cockpit of that name is ignored
                    let present = p.get_cockpits().iter().any(|c| c.get_name() == Some("k"));
                    p.add_cockpit(Cockpit::new("k").handler(Ret { ret }));
                    if !present {
                        per_label.iter_mut().for_each(|x| *x += ret);
                    }
                }
                _ => {
                    p.add_snapshooter(Shot::new("s", 1u64));
                }
            }
        }
        queues.push(ModelQueue { tx: Some(tx), queue: VecDeque::new(), per_label, extra: 0, total: (0, 0, 0) });
        match r.below(4) {
            0 => {
                let mut m = ProcessorMount::default();
                m.add_processor(p);
                root.add_processor(m);
            }
            1 => {
                let a = root.attached_mount(ProcessorMount::new("at"));
                a.put_processor(p);
            }
            2 => {
                let mut m = ProcessorMount::new("m1");
                let mut m2 = ProcessorMount::new("m2");
                m2.add_processor(p);
                m.add_processor(m2);
                root.add_processor(m);
            }
            _ => root.add_processor(p),
        }
        if r.chance(1, 4) {
            let k = (r.usize(5), r.usize(5), r.usize(5), r.usize(5));
            fixed.0 += k.0;
            fixed.1 += k.1;
            fixed.2 += k.2;
            fixed.3 += k.3;
            root.add_processor(Const(k.0, k.1, k.2, k.3));
        }
    }
    let mut taken_total = 0usize;
    let mut ops = String::new();
    for _ in 0..(3 + r.below(25)) {
        for q in queues.iter_mut() {
            if let Some(tx) = &q.tx {
                for _ in 0..r.below(12) {
                    match r.below(12) {
                        0 => {
                            tx.remove_cockpit("nope");
                            q.queue.push_back(Msg::Control);
                        }
                        1 => {
                            let ret = r.usize(3);
                            tx.add_handler(Ret { ret });
                            q.queue.push_back(Msg::AddHandler(ret));
                        }
                        2 => {
                            tx.add_cockpit(Cockpit::without_name());
                            q.queue.push_back(Msg::Control);
                        }
                        3 => {
                            tx.add_panel_to_cockpit("nope", Panel::accept_all());
                            tx.remove_panel_from_cockpit("nope", "x");
                            q.queue.push_back(Msg::Control);
                            q.queue.push_back(Msg::Control);
                        }
                        _ => {
                            let label = r.below(4) as u8;
                            let delta = r.chance(1, 4);
                            let old = r.bool();
                            let ts = if old { t0 } else { Instant::now() + secs(100_000) };
                            let val = if delta { Val::C(1) } else { *r.pick(&[Val::One, Val::Count(3), Val::I(4)]) };
                            tx.transmit(val.observation(label, ts));
                            q.queue.push_back(Msg::Obs { label, old, delta });
                        }
                    }
                }
                if r.chance(1, 25) {
                    q.tx = None;
                }
            }
        }
        let max = *r.pick(&[0usize, 1, 2, 5, 10, 1000, 1 << 32, 1 << 63, usize::MAX]);
        let (strategy, sname) = match r.below(4) {
            0 => (ALL, "all"),
            1 => (ProcessingStrategy::DropAll, "drop"),
            2 => (ProcessingStrategy::DropOlderThan { max_age: secs(500), drop_deltas: false }, "old"),
            _ => (ProcessingStrategy::DropOlderThan { max_age: secs(500), drop_deltas: true }, "old+d"),
        };
        ops.push_str(&format!("{}:{} ", sname, max));
        let mut want = fixed;
        for q in queues.iter_mut() {
            for _ in 0..max.min(q.queue.len()) {
                taken_total += 1;
                match q.queue.pop_front().unwrap() {
                    Msg::Control => want.0 += 1,
                    Msg::AddHandler(ret) => {
                        want.0 += 1;
                        q.extra += ret;
                    }
                    Msg::Obs { label, old, delta } => {
                        let keep = match strategy {
                            ProcessingStrategy::ProcessAll => true,
                            ProcessingStrategy::DropAll => false,
                            ProcessingStrategy::DropOlderThan { drop_deltas, .. } => !old || (delta && !drop_deltas),
                        };
                        if keep {
                            want.0 += 1;
                            want.2 += q.per_label[label as usize] + q.extra;
                        } else {
                            want.1 += 1;
                        }
                    }
                }
            }
            want.3 += q.queue.len();
        }
        let out = c.op("processing pass", || root.process(max, strategy));
        let got = (out.processed, out.dropped, out.instruments_updated, out.observations_enqueued);
        c.check(got == want, || {
            format!("pass with limit {} and strategy {} reported (processed, dropped, updated, enqueued) = {:?}, expected {:?}; passes {}", max, sname, got, want, ops)
        });
        c.eq(out.something_happened(), want.0 > 0 || want.1 > 0, || format!("something_happened of {:?}", got));
        count("passes", 1);
    }
    c.sig(&ops);
    if taken_total == 0 {
        c.trivial();
    }
    count("messages_taken", taken_total as u64);
    c.sample(|| format!("{} queues, passes {}", nq, ops));
}
fn c05_combine(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut sum = ProcessingOutcome::default();
    let mut want = (0, 0, 0, 0);
    c.eq((sum.processed, sum.dropped, sum.instruments_updated, sum.observations_enqueued), want, || "default outcome".into());
    for _ in 0..r.below(10) {
        let k = (r.usize(3), r.usize(3), r.usize(100), r.usize(100));
        let o = ProcessingOutcome { processed: k.0, dropped: k.1, instruments_updated: k.2, observations_enqueued: k.3 };
        c.eq(o.something_happened(), k.0 + k.1 > 0, || format!("something_happened of {:?}", k));
        sum.combine_with(&o);
        want = (want.0 + k.0, want.1 + k.1, want.2 + k.2, want.3 + k.3);
        c.eq((sum.processed, sum.dropped, sum.instruments_updated, sum.observations_enqueued), want, || "combined outcome".into());
    }
    c.sig(&format!("{:?}", want));
}
/// Groups of many processors: the limit is one of each processor.
fn c05_wide(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let n = 1 + r.usize(200);
    let mut root = ProcessorMount::default();
    let mut group = ProcessorMount::new("group");
    let mut left: Vec<(TelemetryTransmitter<u8>, usize, usize)> = vec![];
    for i in 0..n {
        let (tx, mut p) = make_pair(&mut r, None, true);
        let ret = r.usize(3);
        p.add_handler(Ret { ret });
        let k = r.usize(8);
        for _ in 0..k {
            tx.observed_one_now(1);
        }
        left.push((tx, k, ret));
        if r.chance(1, 50) || i + 1 == n {
            group.add_processor(p);
            let g = std::mem::replace(&mut group, ProcessorMount::default());
            if r.bool() {
                root.add_processor(g);
            } else {
                root.attached_mount(g);
            }
        } else {
            group.add_processor(p);
        }
    }
    let mut trace = format!("{} ", n);
    for _ in 0..1 + r.below(5) {
        let max = *r.pick(&[0usize, 1, 1, 2, 3, 10]);
        let strategy = if r.chance(1, 4) { ProcessingStrategy::DropAll } else { ALL };
        let (mut taken, mut updated, mut enqueued) = (0, 0, 0);
        for x in left.iter_mut() {
            let k = x.1.min(max);
            x.1 -= k;
            taken += k;
            updated += k * x.2;
            enqueued += x.1;
        }
        let want = if strategy == ALL { (taken, 0, updated, enqueued) } else { (0, taken, 0, enqueued) };
        let o = root.process(max, strategy);
        trace.push_str(&format!("{}:{} ", max, taken));
        c.eq((o.processed, o.dropped, o.instruments_updated, o.observations_enqueued), want, || {
            format!("(processed, dropped, updated, enqueued) of a pass over {} processors with limit {}, {:?}", n, max, strategy)
        });
        for x in &left {
            c.eq(x.0.queue_size(), x.1, || format!("queue of one of {} processors after a pass with limit {}", n, max));
        }
        count("wide_passes", 1);
    }
    c.sig(&trace);
}
/// Whether an instrument uses an observation; both bounds are the same where that is beyond question.
fn uses(kind: u8, v: Val) -> (usize, usize) {
    let int = match v {
        Val::I(v) => Some(v),
        Val::U(v) => i64::try_from(v).ok(),
        Val::F(b) => {
            let x = f64::from_bits(b).round();
            if x >= -(2f64.powi(63)) && x < 2f64.powi(63) {
                Some(x as i64)
            } else {
                None
            }
        }
        _ => None,
    };
    let yes = |b: bool| if b { (1, 1) } else { (0, 0) };
    let valued = !matches!(v, Val::One | Val::Count(_));
    match kind {
        // counters, the switches with timing, trackers
        0 | 5 | 6 | 7 | 8 => match v {
            Val::Count(0) => (0, 1),
            _ => (1, 1),
        },
        // meters
        1 => match v {
            Val::Count(n) if n == 0 || n > i64::MAX as u64 => (0, 1),
            _ => (1, 1),
        },
        // gauges
        2 => match v {
            Val::One | Val::Count(_) => (0, 0),
            _ => (usize::from(int.is_some()), 1),
        },
        // histograms
        3 => yes(int.is_some() || matches!(v, Val::D(..))),
        // meters of values
        4 => yes(int.map(|x| x >= 0).unwrap_or(matches!(v, Val::D(..)))),
        // flags
        9 => yes(matches!(v, Val::B(_) | Val::I(_) | Val::U(_))),
        // displays
        _ => yes(valued && !matches!(v, Val::D(..) | Val::C(_))),
    }
}
fn c05_kinds(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let (tx, mut p) = make_pair(&mut r, None, true);
    let mut members: Vec<(u8, [bool; 16])> = vec![];
    let mut gauges: Vec<([bool; 16], GKind)> = vec![];
    for g in 0..1 + r.below(3) {
        let (a, f) = random_accept(&mut r);
        let mut panel = Panel::named(f, format!("p{}", g));
        for k in 0..r.below(6) {
            let kind = r.below(11) as u8;
            let (b, f2) = random_accept(&mut r);
            let n = format!("i{}", k);
            macro_rules! put {
                ($i:expr) => {
                    if r.bool() {
                        panel.add_instrument($i);
                        members.push((kind, a));
                    } else {
                        panel.add_handler($i.accept(f2));
                        members.push((kind, and(&a, &b)));
                    }
                };
            }
            match kind {
                0 => put!(Counter::new(n)),
                1 => put!(Meter::new(n)),
                2 => put!(Gauge::new(n)),
                3 => put!(Histogram::new(n)),
                4 => put!(ValueMeter::new(n)),
                5 => put!(StaircaseTimer::new(n)),
                6 => put!(OccurrenceIndicator::new(n)),
                7 => put!(NonOccurrenceIndicator::new(n)),
                8 => put!(LastOccurrenceTracker::new(n)),
                9 => put!(Flag::new(n)),
                _ => put!(DataDisplay::new(n)),
            }
        }
        // gauges that choose what they take
        for k in 0..r.below(3) {
            let (adapter, kind, _) = gauge_adapter(&mut r, Gauge::new(format!("g{}", k)));
            if k == 0 && r.bool() {
                panel = panel.gauge(adapter);
            } else {
                panel.add_handler(adapter);
            }
            gauges.push((a, kind));
        }
        match r.below(3) {
            0 => p.add_cockpit(Cockpit::new(format!("c{}", g)).panel(panel)),
            1 => p.add_cockpit(Cockpit::new(format!("c{}", g)).panel(Panel::accept_all().panel(panel))),
            _ => p.add_handler(panel),
        }
    }
    for _ in 0..1 + r.below(8) {
        let (mut lo, mut hi) = (0, 0);
        let mut batch = vec![];
        for _ in 0..1 + r.below(3) {
            let (label, v) = (r.below(9) as u8, any_val(&mut r));
            for (kind, accept) in &members {
                if accept[label as usize] {
                    let (l, h) = uses(*kind, v);
                    lo += l;
                    hi += h;
                }
            }
            for (outer, kind) in gauges.iter().filter(|g| g.0[label as usize]) {
                let (l, h) = match kind {
                    GKind::Filter(a) if a[label as usize] => uses(2, v),
                    // a change is always taken, nothing else is
                    GKind::Deltas(a) if a[label as usize] && matches!(v, Val::C(_)) => (1, 1),
                    GKind::IncDec(a, b) if a[label as usize] || b[label as usize] => (1, 1),
                    _ => (0, 0),
                };
                debug_assert!(outer[label as usize]);
                lo += l;
                hi += h;
            }
            tx.transmit(v.observation(label, Instant::now()));
            batch.push((label, v));
        }
        let o = p.process(100, ALL);
        c.check(o.instruments_updated >= lo && o.instruments_updated <= hi, || {
            format!("{} instruments updated by {:?}, expected {} to {} of {:?} and gauges {:?}", o.instruments_updated, batch, lo, hi, members, gauges)
        });
        count("kinds_updates", o.instruments_updated as u64);
    }
    c.sig(&format!("{:?} {:?}", members, gauges));
}
/// Producers keep sending during passes: sent = processed + dropped + queued at the end, limits kept.
fn c05_live(c: &mut Case) {
    let mut r = c.rng.clone();
    let (tx, mut p) = make_pair(&mut r, None, true);
    let threads = 1 + r.below(3);
    let per = 200 + r.below(300);
    let stop_at = threads * per;
    let echo = r.bool();
    if echo {
        p.add_handler(Echo { tx: tx.clone(), from: 0 });
    }
    let mut hs = vec![];
    for _ in 0..threads {
        let (tx, b) = (tx.clone(), c.beater());
        let old = Instant::now().checked_sub(secs(5000));
        let seed = r.next();
        hs.push(std::thread::spawn(move || {
            b.adopt();
            let mut r = Rng::new(seed);
            for _ in 0..per {
                let ts = if r.chance(1, 3) { old.unwrap_or_else(Instant::now) } else { Instant::now() };
                tx.observed_one(0, ts);
                if r.chance(1, 20) {
                    std::thread::yield_now();
                }
            }
        }));
    }
    let (mut done, mut dropped) = (0u64, 0u64);
    let strategy = ProcessingStrategy::DropOlderThan { max_age: secs(1000), drop_deltas: true };
    let mut passes = 0u64;
    let mut idle = 0u64;
    c.op("processing while producers send", || loop {
        let fin = hs.iter().all(|h| h.is_finished());
        idle += fin as u64;
        c.check(idle <= 2 * stop_at + 100, || format!("{} passes after the last message and still {} queued", idle, tx.queue_size()));
        let max = *r.pick(&[1usize, 3, 10, 50]);
        let o = p.process(max, strategy);
        passes += 1;
        c.check(o.processed + o.dropped <= max, || format!("{} messages taken with a limit of {}", o.processed + o.dropped, max));
        done += o.processed as u64;
        dropped += o.dropped as u64;
        c.beat();
        if fin && o.observations_enqueued == 0 && tx.queue_size() == 0 {
            break;
        }
        if fin {
            c.eq(o.observations_enqueued, tx.queue_size(), || "messages still queued".into());
        }
    });
    c.op("joining", || hs.into_iter().for_each(|h| drop(h.join())));
    if echo {
        // every processed original was echoed once, with the original time stamp
        c.eq(done % 2, 0, || "every processed observation causes one more".into());
        c.eq(done / 2 + dropped, stop_at, || "sent = processed + dropped".into());
    } else {
        c.eq(done + dropped, stop_at, || "sent = processed + dropped".into());
    }
    c.sig(&format!("{} {} {} {}", threads, per, passes, dropped));
    count("messages_taken", done + dropped);
    c.sample(|| format!("{} producers x {}, {} processed, {} dropped in {} passes", threads, per, done, dropped, passes));
}

// ------------------------------------------------------------------ C06
pub fn c06() {
    rule("virtual time: random time stamps around the age limit (including exactly at it, +-1 ns, future), random values and deltas, all strategies changing between passes; exactly the kept observations reach the recorders and instruments, control messages always take effect. Driver runs check the default strategy. Non-trivial: something was dropped and something kept.");
    run("model", 62_500, 1_250_000, 8, c06_model);
    clock::COMPRESS_US.store(200, SeqCst);
    run("driver_default", 300, 4_000, 4, c06_driver);
    run("bulk", 80, 1_000, 6, |c| bulk(c, Focus::Age));
}
fn boxed_shot(p: &Box<dyn ProcessesTelemetryMessages>) -> Snapshot {
    let mut s = Snapshot::default();
    p.put_snapshot(&mut s, false);
    s
}
/// What other members of a group did in a pass.
#[derive(Default)]
struct OddOnes {
    processed: usize,
    dropped: usize,
    strategies: Vec<ProcessingStrategy>,
}
struct OddOne(Rng, Arc<Mutex<OddOnes>>);
impl PutsSnapshot for OddOne {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for OddOne {
    fn process(&mut self, _: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        let o = ProcessingOutcome {
            processed: *self.0.pick(&[0usize, 0, 1, 7, 100, 1000, 5000]),
            dropped: *self.0.pick(&[0usize, 0, 1, 9, 1000]),
            ..Default::default()
        };
        let mut x = self.1.lock().unwrap();
        x.processed += o.processed;
        x.dropped += o.dropped;
        x.strategies.push(strategy);
        o
    }
}
fn c06_model(c: &mut Case) {
    let mut r = c.rng.clone();
    let t0 = virtual_start(&mut r);
    c.eq(ProcessingStrategy::default(), ProcessingStrategy::DropOlderThan { max_age: secs(30), drop_deltas: false }, || "default strategy".into());
    let past = *r.pick(&[100_000, 100_000, 1_000_000_000u64]);
    clock::advance(past as i64 * clock::NS);
    let (tx, mut p) = make_pair(&mut r, None, true);
    let log = new_log();
    let plog = new_log();
    p.add_handler(Recorder::new(&log));
    p.add_cockpit(Cockpit::new("c").panel(Panel::accept_all_named("p").handler(Recorder::new(&plog)).counter(Counter::new("n")).gauge(Gauge::new("g"))));
    let root = if p.get_name().is_some() { vec!["proc"] } else { vec![] };
    // directly or through groups, which must hand the strategy on, whatever their other members do
    let odd: Arc<Mutex<OddOnes>> = Default::default();
    let before_it: Vec<_> = (0..r.below(3)).map(|_| OddOne(Rng::new(r.next()), odd.clone())).collect();
    let after_it: Vec<_> = (0..r.below(2)).map(|_| OddOne(Rng::new(r.next()), odd.clone())).collect();
    let mut p: Box<dyn ProcessesTelemetryMessages> = match r.below(6) {
        0 => {
            let mut m = ProcessorMount::default();
            before_it.into_iter().for_each(|x| m.add_processor(x));
            m.add_processor(p);
            after_it.into_iter().for_each(|x| m.add_processor(x));
            Box::new(m)
        }
        1 => {
            let (mut outer, mut inner) = (ProcessorMount::default(), ProcessorMount::default());
            if r.bool() {
                before_it.into_iter().for_each(|x| inner.add_processor(x));
            } else {
                before_it.into_iter().for_each(|x| outer.add_processor(x));
            }
            inner.add_processor(p);
            outer.add_processor(inner);
            after_it.into_iter().for_each(|x| outer.add_processor(x));
            Box::new(outer)
        }
        2 => {
            let mut m = ProcessorMount::default();
            let a = m.attached_mount(ProcessorMount::default());
            if r.bool() {
                a.put_processor(p);
            } else {
                a.attach_mount::<Beat>(ProcessorMount::default()).put_processor(p);
            }
            // an inner attached mount becomes part of it in the first pass
            m.process(0, ALL);
            Box::new(m)
        }
        _ => Box::new(p),
    };
    let mut want: Vec<Ob<u8>> = vec![];
    let mut added: Vec<(Log<u8>, usize)> = vec![];
    let (mut kept, mut dropped) = (0, 0);
    let mut trace = String::new();
    for _ in 0..(1 + r.below(6)) {
        let max_age = match r.below(6) {
            0 => Duration::ZERO,
            1 => Duration::from_nanos(1),
            2 => secs(30),
            4 => {
                let bits = 10 + r.below(47);
                Duration::from_nanos(r.below(1 << bits))
            }
            3 => ms(r.below(100_000)),
            _ => secs(r.below(1000)),
        };
        let strategy = match r.below(5) {
            0 => ALL,
            1 => ProcessingStrategy::DropAll,
            2 => ProcessingStrategy::default(),
            _ => ProcessingStrategy::DropOlderThan { max_age, drop_deltas: r.bool() },
        };
        let (limit, drop_deltas) = match strategy {
            ProcessingStrategy::DropOlderThan { max_age, drop_deltas } => (Some(max_age), drop_deltas),
            _ => (None, false),
        };
        let mut batch: Vec<Option<Ob<u8>>> = vec![];
        let wait = r.below(3) * r.below(40_000_000_000);
        let at_processing = Instant::now() + Duration::from_nanos(wait);
        let most = if r.chance(1, 40) { 400 } else { 15 };
        for _ in 0..r.below(most) {
            if r.chance(1, 10) {
                let l = new_log();
                tx.add_handler(Recorder::new(&l));
                added.push((l, usize::MAX));
                batch.push(None);
                continue;
            }
            let lim = limit.unwrap_or(secs(30));
            let edge = at_processing.checked_sub(lim).unwrap_or(t0);
            let ts = match r.below(7) {
                0 => edge,
                1 => edge.checked_sub(Duration::from_nanos(1)).unwrap_or(edge),
                2 => edge + Duration::from_nanos(1),
                3 => Instant::now(),
                4 => at_processing + secs(r.below(100)),
                5 => t0 + secs(r.below(2 * past)),
                _ => edge + Duration::from_nanos(r.below(60_000_000_000)) - secs(30),
            };
            let val = match r.below(6) {
                0 => Val::C(r.range(-5, 5)),
                1 => {
                    let bits = r.below(54);
                    let most = 1i64 << bits;
                    Val::C(r.range(-most, most))
                }
                _ => any_val(&mut r),
            };
            let o = Ob { label: r.below(4) as u8, val, ts };
            tx.transmit(o.to());
            batch.push(Some(o));
        }
        clock::advance(wait as i64);
        let now = Instant::now();
        let mut pending = added.iter().filter(|a| a.1 == usize::MAX).count();
        let (mut k, mut d) = (0, 0);
        for m in &batch {
            match m {
                None => {
                    let i = added.len() - pending;
                    added[i].1 = want.len();
                    pending -= 1;
                    k += 1;
                }
                Some(o) => {
                    let keep = match strategy {
                        ProcessingStrategy::ProcessAll => true,
                        ProcessingStrategy::DropAll => false,
                        _ => {
                            let age = now.checked_duration_since(o.ts).unwrap_or(Duration::ZERO);
                            age <= limit.unwrap() || (o.val.is_delta() && !drop_deltas)
                        }
                    };
                    if keep {
                        want.push(o.clone());
                        k += 1;
                        kept += 1;
                    } else {
                        d += 1;
                        dropped += 1;
                    }
                }
            }
        }
        trace.push_str(&format!("{:?}:{}k{}d ", strategy, k, d));
        let before = boxed_shot(&p);
        *odd.lock().unwrap() = OddOnes::default();
        let out = p.process(1000, strategy);
        let odd = odd.lock().unwrap();
        for s in &odd.strategies {
            c.eq(*s, strategy, || "strategy handed to another member of a group".into());
        }
        count("passes_of_other_members", odd.strategies.len() as u64);
        c.eq((out.processed, out.dropped), (k + odd.processed, d + odd.dropped), || format!("processed and dropped with {:?}, batch {:?}, now {:?}", strategy, batch, now));
        c.eq(log.lock().unwrap().clone(), want.clone(), || format!("observations kept by {:?} at {:?}", strategy, now));
        c.eq(plog.lock().unwrap().clone(), want.clone(), || "observations at the panel".into());
        if k == 0 {
            c.eq(out.instruments_updated, 0, || "instruments updated by a pass that only dropped".into());
            c.eq(boxed_shot(&p), before, || "values after a pass that only dropped".into());
        }
    }
    for (l, from) in &added {
        c.eq(l.lock().unwrap().clone(), want[(*from).min(want.len())..].to_vec(), || "observations at a handler added by a control message".into());
    }
    let s = boxed_shot(&p);
    let path: Vec<&str> = root.iter().copied().chain(["c", "p", "n"]).collect();
    c.eq(s.u(&path), Some(want.iter().map(|o| o.val.multiplicity()).sum()), || "counter".into());
    c.sig(&trace);
    if kept == 0 || dropped == 0 {
        c.trivial();
    }
    count("kept", kept);
    count("dropped", dropped);
    c.sample(|| trace.clone());
}
fn c06_driver(c: &mut Case) {
    let mut r = c.rng.clone();
    c.eq(DriverBuilder::default().processing_strategy, ProcessingStrategy::default(), || "default strategy of the builder".into());
    let (tx, mut p) = make_pair(&mut r, None, true);
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let now = Instant::now();
    let mut want = vec![];
    for k in 0..30u64 {
        // far from the limit: real time passes
        let age = *r.pick(&[0u64, 5, 45, 100, 10_000]);
        let ts = match now.checked_sub(secs(age)) {
            Some(t) => t,
            None => continue,
        };
        let val = if r.bool() { Val::C(k as i64) } else { Val::I(k as i64) };
        let o = Ob { label: 0u8, val, ts };
        tx.transmit(o.to());
        if age < 30 || val.is_delta() {
            want.push(o);
        }
    }
    let beat = Beat::default();
    let mut driver = match r.below(3) {
        0 => TelemetryDriver::default(),
        1 => DriverBuilder::default().build(),
        _ => DriverBuilder::new("d").build(),
    };
    driver.add_processor(p);
    driver.add_processor(beat.clone());
    c.op("waiting for the queue to drain", || wait_rounds(c, &beat, 300, || true, || tx.queue_size() as u64, || tx.queue_size() == 0));
    wait_beats(c, &beat, 3);
    // a slow machine may let the young ones become old; then nothing can be said
    if now.elapsed() < secs(20) {
        c.eq(log.lock().unwrap().clone(), want, || "observations kept by a driver with the default strategy".into());
    } else {
        c.trivial();
    }
    c.sig(&format!("{:?}", log.lock().unwrap().iter().map(|o| o.val).collect::<Vec<_>>()));
}

// ------------------------------------------------------------------ large backlogs
#[derive(Clone, Copy, PartialEq, Debug)]
enum Focus {
    Once,
    Order,
    Bounded,
    Outcome,
    Age,
}
const BULK: [usize; 9] = [300, 1_000, 4_097, 10_000, 20_000, 33_000, 66_000, 100_000, 140_000];
/// Backlogs as they build up when nobody processes for a while: the amounts at which something
/// could change (powers of two, the number a driver takes per run) are all exceeded.
fn bulk(c: &mut Case, focus: Focus) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    clock::advance(1000 * clock::NS);
    let now = Instant::now();
    let total = *r.pick(&BULK) + r.usize(1000);
    let cap = match focus {
        Focus::Bounded => Some(match r.below(4) {
            0 => total + 1 + r.usize(1000),
            1 => *r.pick(&BULK) + r.usize(1000),
            2 => 1 << (8 + r.below(10)),
            _ => 1 + total - r.usize(total),
        }),
        _ if r.bool() => None,
        _ => Some(2 * total + 1000),
    };
    let block = r.bool();
    let (tx, mut p) = make_pair(&mut r, cap, block);
    let first = new_log();
    p.add_handler(Recorder::new(&first));
    // recorders and the number of observations taken before they were there
    let mut recs: Vec<(Log<u8>, usize)> = vec![(first, 0)];
    enum E {
        // how old, and whether it is a change of a value
        Ob(u64, Duration, bool),
        Add(Log<u8>),
    }
    let mut queue: VecDeque<E> = VecDeque::new();
    let mut taken: Vec<u64> = vec![];
    let strategy = if focus == Focus::Outcome && r.bool() {
        ProcessingStrategy::DropOlderThan { max_age: secs(500), drop_deltas: true }
    } else {
        ALL
    };
    let mut id = 0u64;
    let mut sent = 0usize;
    let rounds = 1 + r.usize(3);
    let mut ops = String::new();
    let mut high = 0usize;
    for round in 0..rounds {
        let mut left = total / rounds;
        while left > 0 {
            let mut n = 1 + r.usize(left);
            if let (Focus::Bounded, Some(m)) = (focus, cap) {
                // up to the last free place, or all but one
                let room = m.saturating_sub(queue.len() + r.usize(2));
                if room > 0 && room <= left && r.bool() {
                    n = room;
                }
            }
            left -= n;
            let parallel = matches!(focus, Focus::Once | Focus::Order) && r.chance(1, 3);
            ops.push_str(&format!("{}{} ", if parallel { "t" } else { "s" }, n));
            if parallel {
                // three threads at once; the ids of each ascend
                let hs: Vec<_> = (0..3u64)
                    .map(|t| {
                        let tx = tx.clone();
                        let b = c.beater();
                        let k = n as u64 / 3;
                        let from = id + t * k;
                        std::thread::spawn(move || {
                            b.adopt();
                            for i in 0..k {
                                tx.observed((t % 3) as u8 + 1, from + i + 1, now);
                            }
                        })
                    })
                    .collect();
                c.op("sending from threads", || hs.into_iter().for_each(|h| drop(h.join())));
                let k = n as u64 / 3;
                (0..3 * k).for_each(|i| queue.push_back(E::Ob(id + i + 1, Duration::ZERO, false)));
                id += 3 * k;
                sent += 3 * k as usize;
            } else {
                c.op("sending", || {
                    for i in 0..n {
                        let full = cap.map_or(false, |m| queue.len() >= m);
                        if full && block {
                            break;
                        }
                        id += 1;
                        let (age, delta) = match r.below(4) {
                            0 => (secs(900), false),
                            1 if focus == Focus::Age => (secs(100 + r.below(9) * 100), r.bool()),
                            _ => (Duration::ZERO, false),
                        };
                        if delta {
                            tx.observed_one_value(0, metrix::ChangeBy(id as i64), now - age);
                        } else {
                            tx.observed(0, id, now - age);
                        }
                        sent += 1;
                        if !full {
                            queue.push_back(E::Ob(id, age, delta));
                        }
                        if i % 1024 == 0 {
                            c.beat();
                        }
                    }
                });
            }
            if r.chance(1, 3) && cap.map_or(true, |m| queue.len() < m) {
                let log = new_log();
                tx.add_handler(Recorder::new(&log));
                queue.push_back(E::Add(log));
                ops.push_str("h ");
            }
            if focus == Focus::Bounded {
                c.eq(tx.queue_size(), queue.len(), || format!("queue size, capacity {:?}, {}", cap, ops));
                c.eq(tx.queue_capacity(), cap, || "queue capacity".into());
                c.eq(tx.is_queue_full(), cap.map_or(false, |m| queue.len() >= m), || format!("fullness, {} of {:?}", queue.len(), cap));
                c.check(!tx.is_queue_empty() || queue.is_empty(), || "emptiness".into());
            }
            high = high.max(queue.len());
        }
        let mut passes = r.below(12);
        loop {
            let last = round + 1 == rounds;
            if passes == 0 && (!last || queue.is_empty()) {
                break;
            }
            passes = passes.saturating_sub(1);
            let max = match r.below(if passes == 0 { 2 } else { 6 }) {
                0 => usize::MAX,
                1 => 20_000 + r.usize(150_000),
                2 => 0,
                3 => 1,
                _ => 1000,
            };
            let before = queue.len();
            let strategy = if focus != Focus::Age {
                strategy
            } else {
                match r.below(8) {
                    0 => ALL,
                    1 => ProcessingStrategy::DropAll,
                    _ => ProcessingStrategy::DropOlderThan {
                        max_age: secs(100 + r.below(9) * 100) - Duration::from_nanos(r.below(2)),
                        drop_deltas: r.bool(),
                    },
                }
            };
            let out = c.op("processing", || p.process(max, strategy));
            let (mut done, mut dropped, mut updated) = (0, 0, 0);
            for _ in 0..max.min(before) {
                match queue.pop_front().unwrap() {
                    E::Ob(_, age, delta)
                        if match strategy {
                            ProcessingStrategy::ProcessAll => false,
                            ProcessingStrategy::DropAll => true,
                            ProcessingStrategy::DropOlderThan { max_age, drop_deltas } => age > max_age && (drop_deltas || !delta),
                        } =>
                    {
                        dropped += 1
                    }
                    E::Ob(id, ..) => {
                        done += 1;
                        updated += recs.len();
                        taken.push(id);
                    }
                    E::Add(log) => {
                        done += 1;
                        recs.push((log, taken.len()));
                    }
                }
            }
            ops.push_str(&format!("p{} ", max));
            if matches!(focus, Focus::Outcome | Focus::Age) {
                let got = (out.processed, out.dropped, out.instruments_updated, out.observations_enqueued);
                c.check(got == (done, dropped, updated, queue.len()), || {
                    format!(
                        "pass with limit {} over a backlog of {} reported (processed, dropped, updated, enqueued) = {:?}, expected {:?}",
                        max, before, got, (done, dropped, updated, queue.len())
                    )
                });
            }
            count("passes", 1);
        }
    }
    let n_recs = recs.len();
    for (k, (log, from)) in recs.into_iter().enumerate() {
        let got: Vec<(u8, u64)> = log.lock().unwrap().drain(..).map(|o| (o.label, match o.val {
            Val::Count(n) => n,
            Val::C(n) => n as u64,
            _ => 0,
        })).collect();
        let want = &taken[from..];
        let what = |kind: &str, at: usize| {
            format!(
                "recorder {} of {}: {} at {}: {} handled, {} expected; capacity {:?} block {} backlog {} ops {}",
                k, n_recs, kind, at, got.len(), want.len(), cap, block, high, ops
            )
        };
        match focus {
            Focus::Order => {
                for producer in 0..4u8 {
                    let seq: Vec<u64> = got.iter().filter(|g| g.0 == producer).map(|g| g.1).collect();
                    if let Some(at) = seq.windows(2).position(|w| w[0] >= w[1]) {
                        c.fail(what("observations of one producer out of order", at));
                    }
                }
                // a late handler sees exactly what came after it
                let (a, b) = (got.iter().map(|g| g.1).min(), want.iter().copied().min());
                c.check(a == b && got.len() == want.len(), || what("a handler added in between sees another range", from));
            }
            Focus::Outcome => {}
            _ => {
                let mut ids: Vec<u64> = got.iter().map(|g| g.1).collect();
                ids.sort_unstable();
                let at = ids.iter().zip(want).position(|(a, b)| a != b);
                if at.is_some() || ids.len() != want.len() {
                    c.fail(what("lost, invented or duplicated observations", at.unwrap_or(ids.len().min(want.len()))));
                }
            }
        }
    }
    c.sig(&format!("{} {:?} {} {}", total, cap, n_recs, ops.len()));
    count("sends", sent as u64);
    count("observations_in_largest_backlogs", high as u64);
    c.sample(|| format!("bulk of {} capacity {:?} block {} largest backlog {} ops {}", total, cap, block, high, ops));
}
