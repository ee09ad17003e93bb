//! C07 runs, C08 pause and strategy, C09 life time, C10 consistent snapshots, C11 driver metrics
use super::backend::Gate;
use super::queue::{make_pair, random_ts, transmit_some_way};
use crate::common::*;
use metrix::attached_mount::AttachedMount;

fn compressed(us: u64, f: impl FnOnce()) {
    clock::COMPRESS_US.store(us, SeqCst);
    f();
    clock::COMPRESS_US.store(0, SeqCst);
}
fn snapshot_ok(c: &Case, d: &TelemetryDriver, descriptive: bool, asynchronous: bool) -> Snapshot {
    let res = if asynchronous {
        let f = d.snapshot_async(descriptive);
        c.op("asynchronous snapshot of a live driver", || block_on(f))
    } else {
        c.op("snapshot of a live driver", || d.snapshot(descriptive))
    };
    match res {
        Ok(s) => s,
        Err(_) => c.fail("a live driver refused a snapshot"),
    }
}
fn any_driver(r: &mut Rng, name: &str) -> TelemetryDriver {
    match r.below(4) {
        0 => TelemetryDriver::default(),
        1 => DriverBuilder::new(name).build(),
        2 => DriverBuilder::default().set_driver_metrics(false).build(),
        _ => DriverBuilder::default().set_name(name).set_driver_metrics(r.bool()).set_title("t").build(),
    }
}

// ------------------------------------------------------------------ C07
type RunLog = Arc<Mutex<Vec<(u32, u64)>>>;
#[derive(Clone)]
struct Member {
    idx: u32,
    log: RunLog,
    stop: Arc<AtomicBool>,
    backlog: u64,
    kind: u64,
}
impl PutsSnapshot for Member {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(format!("member{}", self.idx), 1u64);
    }
}
impl ProcessesTelemetryMessages for Member {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        if !self.stop.load(SeqCst) {
            self.log.lock().unwrap().push((self.idx, gettid()));
        }
        if self.backlog > 0 {
            self.backlog -= 1;
            // pretends to have had a lot to do
            let processed = *[1000, 999, 100, 1, 20_000, 5_000_000, 1 << 40].get(self.kind as usize % 9).unwrap_or(&0);
            let dropped = *[0, 0, 0, 1, 999, 1_000, 3_000_000].get(self.kind as usize / 9).unwrap_or(&0);
            return ProcessingOutcome { processed, dropped, instruments_updated: 5, observations_enqueued: 7 };
        }
        ProcessingOutcome::default()
    }
}
/// Handler that records the number of the run it is called in.
struct RunStamp {
    beat: Beat,
    stamps: Arc<Mutex<Vec<(u64, u64)>>>,
}
impl PutsSnapshot for RunStamp {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl HandlesObservations for RunStamp {
    type Label = u8;
    fn handle_observation(&mut self, o: &Observation<u8>) -> usize {
        if let Val::Count(id) = Val::of(o) {
            self.stamps.lock().unwrap().push((id, self.beat.count()));
        }
        1
    }
}

pub fn c07() {
    rule("drivers with random members, alone and together in nested groups, mounted before and while running: every member gets exactly one process call per run, all calls on one thread, backlogs are worked off in the number of runs that limits allow; drivers mounted in drivers. Distinct set of mounted components, moments of mounting, backlog sizes and nesting.");
    run("runs", 60, 800, 6, c07_runs);
    run("backlog", 30, 300, 6, c07_backlog);
    compressed(300, || {
        run("runs_fast", 1500, 25_000, 6, c07_runs);
        run("backlog_fast", 250, 3000, 6, c07_backlog);
        run("nested", 800, 12_000, 6, c07_nested);
    });
}
fn add_member(r: &mut Rng, d: &mut TelemetryDriver, mounts: &Mutex<Vec<AttachedMount>>, m: Member) {
    match r.below(6) {
        0 => {
            let mut pm = ProcessorMount::new(format!("pm{}", m.idx));
            pm.add_processor(m);
            d.add_processor(pm);
        }
        1 => {
            let mut pm = ProcessorMount::default();
            let mut inner = ProcessorMount::default();
            inner.add_processor(m);
            pm.add_processor(inner);
            d.add_processor(pm);
        }
        2 => {
            let a = d.attached_mount(ProcessorMount::default());
            a.put_processor(m);
            mounts.lock().unwrap().push(a);
        }
        3 => {
            let ms = mounts.lock().unwrap();
            match ms.last() {
                Some(a) => a.put_processor(m),
                None => {
                    drop(ms);
                    d.add_processor(m)
                }
            }
        }
        _ => d.add_processor(m),
    }
}
fn c07_runs(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let log: RunLog = Default::default();
    let stop = Arc::new(AtomicBool::new(false));
    let mut driver = any_driver(&mut r, "d");
    driver.change_processing_stragtegy(ALL);
    let beat = Beat::default();
    let kinds = r.next();
    let member = |idx: u32, backlog: u64| Member {
        idx,
        log: log.clone(),
        stop: stop.clone(),
        backlog,
        kind: (kinds >> (idx % 32)) % 64,
    };
    driver.add_processor(member(0, r.below(3) * 20));
    driver.add_processor(beat.clone());
    // a component with a large backlog among them
    let (tx, p) = make_pair(&mut r, None, true);
    let backlog = *r.pick(&[0u64, 10, 1000, 8000]);
    for k in 0..backlog {
        tx.observed(1, k, Instant::now());
    }
    let mounts = Mutex::new(vec![]);
    let many = r.chance(1, 12) && clock::COMPRESS_US.load(SeqCst) > 0;
    let early = 1 + r.below(if many { 150 } else { 5 }) as u32;
    let late = r.below(if many { 60 } else { 10 }) as u32;
    if r.chance(1, 4) {
        // all in one group
        let mut group = ProcessorMount::new("group");
        for i in 1..=early {
            group.add_processor(member(i, r.below(4) * 10));
        }
        if r.bool() {
            let mut outer = ProcessorMount::default();
            outer.add_processor(group);
            group = outer;
        }
        driver.add_processor(group);
    } else {
        for i in 1..=early {
            let m = member(i, r.below(4) * 10);
            add_member(&mut r, &mut driver, &mounts, m);
        }
    }
    driver.add_processor(p);
    if r.bool() {
        wait_beats(c, &beat, 1 + r.below(5));
    }
    // from several threads, through clones, while it runs
    let nth = 1 + r.below(3) as u32;
    std::thread::scope(|s| {
        for t in 0..nth {
            let mut r = Rng::new(r.next() ^ t as u64);
            let (mut d, mounts, member) = (driver.clone(), &mounts, &member);
            s.spawn(move || {
                for i in (early + 1..=early + late).filter(|i| i % nth == t) {
                    jitter(&mut r);
                    let m = member(i, r.below(4) * 10);
                    add_member(&mut r, &mut d, mounts, m);
                    if r.chance(1, 4) {
                        drop(d.snapshot_async(false));
                    }
                }
            });
        }
    });
    let added = early + late + 1;
    // every request takes one turn of the loop
    wait_beats(c, &beat, 2 * added as u64 + 30 + backlog / 1000);
    stop.store(true, SeqCst);
    let tid = beat.tid.load(SeqCst);
    let log = std::mem::take(&mut *log.lock().unwrap());
    c.check(tid != gettid() && thread_alive(tid), || "the driver has no thread of its own".into());
    if let Some(x) = log.iter().find(|x| x.1 != tid) {
        c.fail(format!("component {} was processed on thread {}, the driver runs on {}", x.0, x.1, tid));
    }
    let mut seen: HashSet<u32> = HashSet::new();
    let mut runs: Vec<Vec<u32>> = vec![];
    for (idx, _) in &log {
        if *idx == 0 {
            runs.push(vec![]);
        }
        match runs.last_mut() {
            Some(x) => x.push(*idx),
            None => {
                // the first component is mounted first
                c.fail(format!("component {} was processed before the first one was", idx))
            }
        }
    }
    runs.pop(); // maybe incomplete
    for (k, run) in runs.iter().enumerate() {
        let set: HashSet<u32> = run.iter().copied().collect();
        c.check(set.len() == run.len(), || format!("run {} processed a component more than once: {:?}", k, run));
        if let Some(m) = seen.iter().find(|x| !set.contains(x)) {
            c.fail(format!("run {} of {} left out component {} that took part before: {:?}", k, runs.len(), m, run));
        }
        seen = set;
    }
    c.check(seen.len() == added as usize, || {
        format!("only {:?} of {} components take part in the runs ({} runs)", seen, added, runs.len())
    });
    let s = snapshot_ok(c, &driver, false, r.bool());
    let text = snap_str(&s);
    for i in 0..added {
        c.check(text.matches(&format!("\"member{}\":", i)).count() == 1, || {
            format!("component {} is not shown exactly once in {}", i, text)
        });
    }
    count("runs", runs.len() as u64);
    count("component_calls", log.len() as u64);
    c.sig(&format!("{} {} {} {}", early, late, nth, backlog));
    c.sample(|| format!("{} components, backlog {}, {} runs, last {:?}", added, backlog, runs.len(), runs.last()));
}
fn c07_backlog(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut driver = any_driver(&mut r, "d");
    driver.change_processing_stragtegy(ALL);
    let beat = Beat::default();
    driver.add_processor(beat.clone());
    wait_beats(c, &beat, 2);
    let k = 1 + r.usize(4);
    let sizes: Vec<u64> = (0..k).map(|_| *r.pick(&[0u64, 1, 99, 101, 999, 1000, 1001, 5000, 20_000])).collect();
    let mut txs = vec![];
    let mut stamps = vec![];
    let mut procs = vec![];
    for (i, n) in sizes.iter().enumerate() {
        let (tx, mut p) = TelemetryProcessor::<u8>::new_pair(format!("p{}", i));
        let st = Arc::new(Mutex::new(vec![]));
        p.add_handler(RunStamp { beat: beat.clone(), stamps: st.clone() });
        for j in 0..*n {
            tx.observed(1, j, Instant::now());
        }
        txs.push(tx);
        stamps.push(st);
        procs.push(p);
    }
    let paused = r.bool();
    if paused {
        driver.pause();
        snapshot_ok(c, &driver, false, false);
    }
    for p in procs {
        if r.bool() {
            let mut m = ProcessorMount::new("m");
            m.add_processor(p);
            driver.add_processor(m);
        } else {
            driver.add_processor(p);
        }
    }
    if paused {
        driver.resume();
    }
    // once this is answered the driver has got everything: what this thread was held up by before does not count
    snapshot_ok(c, &driver, false, false);
    let b0 = beat.count();
    let bound = |n: u64| n / 500 + 30 + k as u64;
    for i in 0..k {
        let n = sizes[i];
        let st = stamps[i].clone();
        let ok = c.op("draining a backlog", || {
            loop {
                c.beat();
                if st.lock().unwrap().len() as u64 == n {
                    break true;
                }
                if beat.count() > b0 + bound(n) + 20 + bound(*sizes.iter().max().unwrap_or(&0)) * 2 {
                    break st.lock().unwrap().len() as u64 == n;
                }
                nap();
            }
        });
        let v = st.lock().unwrap().clone();
        c.check(ok, || format!("backlog of {} observations not drained after {} runs: {} left", n, beat.count() - b0, n - v.len() as u64));
        if let (Some(first), Some(last)) = (v.first(), v.last()) {
            c.check(last.1 <= b0 + bound(n), || {
                format!("backlog of {} observations took {} runs to drain, other backlogs {:?}", n, last.1 - b0, sizes)
            });
            count("backlog_runs", last.1 - first.1 + 1);
        }
        c.check(v.iter().map(|x| x.0).eq(0..n), || "backlog was not handled in order".into());
    }
    // a small component is served in every run, whatever the others have to do
    let flood = Arc::new(AtomicBool::new(true));
    let (small_tx, mut small) = TelemetryProcessor::<u8>::new_pair("small");
    let st = Arc::new(Mutex::new(vec![]));
    small.add_handler(RunStamp { beat: beat.clone(), stamps: st.clone() });
    driver.add_processor(small);
    snapshot_ok(c, &driver, false, false);
    let tx0 = txs[0].clone();
    let fl = flood.clone();
    let j = std::thread::spawn(move || {
        let mut n = 0u64;
        while fl.load(SeqCst) && n < 2_000_000 {
            if tx0.queue_size() < 20_000 {
                tx0.observed_now(1, n);
                n += 1;
            } else {
                std::thread::yield_now();
            }
        }
    });
    let mut sent = vec![];
    for id in 0..20u64 {
        jitter(&mut r);
        small_tx.observed_now(1, id);
        sent.push(beat.count());
        if r.chance(1, 5) {
            // this thread may be held up while the driver goes on: the best of many attempts is judged
            let mut best = u64::MAX;
            for _ in 0..60 {
                let before = beat.count();
                snapshot_ok(c, &driver, false, r.bool());
                best = best.min(beat.count() - before);
                if best <= 20 {
                    break;
                }
            }
            c.check(best <= 20, || format!("at least {} runs passed before a snapshot was taken, 60 times in a row", best));
        }
    }
    let b = beat.count();
    c.op("small component beside a flooded one", || {
        while st.lock().unwrap().len() < 20 && beat.count() < b + 60 {
            c.beat();
            nap();
        }
    });
    flood.store(false, SeqCst);
    let _ = j.join();
    let v = st.lock().unwrap().clone();
    c.check(v.iter().map(|x| x.0).eq(0..20), || format!("observations of a small component: {:?}", v));
    for (x, b) in v.iter().zip(&sent) {
        c.check(x.1 <= b + 3, || {
            format!("an observation sent in run {} was handled in run {} although only another component is busy", b, x.1)
        });
    }
    count("backlog_observations", sizes.iter().sum::<u64>());
    c.sig(&format!("{:?} {}", sizes, paused));
}
fn c07_nested(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let n = 2 + r.usize(3);
    let logs: Vec<RunLog> = (0..n).map(|_| Default::default()).collect();
    let stop = Arc::new(AtomicBool::new(false));
    let mut drivers = vec![];
    let mut beats = vec![];
    for i in 0..n {
        let mut d = DriverBuilder::new(format!("d{}", i)).set_driver_metrics(r.bool()).build();
        let b = Beat::default();
        d.add_processor(b.clone());
        d.add_processor(Member { idx: i as u32, log: logs[i].clone(), stop: stop.clone(), backlog: r.below(20), kind: r.below(64) });
        drivers.push(d);
        beats.push(b);
    }
    // each driver is mounted on one with a smaller number
    let mut parents = vec![0];
    for i in 1..n {
        let p = r.usize(i);
        let inner = drivers[i].clone();
        match r.below(4) {
            0 => drivers[p].add_snapshooter(inner),
            1 => {
                let a = drivers[p].attached_mount(ProcessorMount::default());
                a.put_processor(inner);
            }
            2 => {
                let mut m = ProcessorMount::default();
                m.add_processor(inner);
                drivers[p].add_processor(m);
            }
            _ => drivers[p].add_processor(inner),
        }
        parents.push(p);
        jitter(&mut r);
    }
    let paused = if r.chance(1, 3) { Some(r.usize(n)) } else { None };
    for b in &beats {
        wait_beats(c, b, 6);
    }
    if let Some(i) = paused {
        drivers[i].pause();
        snapshot_ok(c, &drivers[i], false, false);
        // only this one stands still
        for (k, b) in beats.iter().enumerate() {
            if k != i {
                wait_beats(c, b, 5);
            }
        }
    }
    let tids: HashSet<u64> = beats.iter().map(|b| b.tid.load(SeqCst)).collect();
    c.eq(tids.len(), n, || "number of threads of that many drivers".into());
    for i in 0..n {
        let s = snapshot_ok(c, &drivers[i], r.bool(), r.bool());
        let text = snap_str(&s);
        for k in 0..n {
            let mut path = vec![k];
            while *path.last().unwrap() != 0 && *path.last().unwrap() != i {
                path.push(parents[*path.last().unwrap()]);
            }
            let below = *path.last().unwrap() == i;
            let names: Vec<String> = path.iter().rev().map(|x| format!("d{}", x)).collect();
            let mut p: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
            let m = format!("member{}", k);
            p.push(&m);
            let shown = text.matches(&format!("\"{}\":", m)).count();
            c.check(shown == below as usize && (!below || s.u(&p) == Some(1)), || {
                format!("driver {} (parents {:?}) shows member {} {} times, expected at {:?} {}: {}", i, parents, k, shown, p, below, text)
            });
        }
    }
    stop.store(true, SeqCst);
    for i in 0..n {
        let tid = beats[i].tid.load(SeqCst);
        let l = logs[i].lock().unwrap();
        c.check(!l.is_empty() && l.iter().all(|x| x.1 == tid), || {
            format!("components of driver {} did not all run on its own thread", i)
        });
        // at most once per run of its own driver
        let runs = beats[i].count();
        c.check(l.len() as u64 <= runs + 1, || format!("component of driver {} was processed {} times in {} runs", i, l.len(), runs));
    }
    count("nested_drivers", n as u64);
    c.sig(&format!("{:?} {:?}", parents, paused));
}

// ------------------------------------------------------------------ C08
/// Heartbeat that records the strategy of every run.
#[derive(Clone, Default)]
struct Strategies {
    log: Arc<Mutex<Vec<ProcessingStrategy>>>,
}
impl Strategies {
    fn len(&self) -> usize {
        self.log.lock().unwrap().len()
    }
}
impl PutsSnapshot for Strategies {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("runs", self.len() as u64);
    }
}
impl ProcessesTelemetryMessages for Strategies {
    fn process(&mut self, _: usize, s: ProcessingStrategy) -> ProcessingOutcome {
        self.log.lock().unwrap().push(s);
        ProcessingOutcome::default()
    }
}
pub fn c08() {
    rule("random scripts of pause, resume, strategy change, mounting, transmitting and snapshot requests by one or several threads, with recording processors; between two acknowledged requests exactly what the model says is processed, with the strategy in effect. Crowds: hundreds of requests pending at once while the driver is held up or paused; each snapshot must show what was asked before it and nothing asked after. Nested: drivers mounted on each other, each must follow its own requests only. Distinct script.");
    run("script", 50, 600, 6, c08_case);
    compressed(300, || {
        run("script_fast", 1500, 25_000, 6, c08_case);
        run("threads", 600, 8_000, 6, c08_threads);
        run("crowd", 800, 12_000, 6, c08_crowd);
        run("nested", 600, 10_000, 6, c08_nested);
    });
}
/// Drivers mounted on each other: what is requested of one is not done by the others.
fn c08_nested(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let any = |r: &mut Rng| match r.below(4) {
        0 => ALL,
        1 => ProcessingStrategy::DropAll,
        2 => ProcessingStrategy::default(),
        _ => ProcessingStrategy::DropOlderThan { max_age: secs(r.below(100)), drop_deltas: r.bool() },
    };
    let n = 2 + r.usize(2);
    let (mut drivers, mut logs, mut strategies, mut paused): (Vec<TelemetryDriver>, Vec<Strategies>, _, _) = (vec![], vec![], vec![], vec![false; n]);
    for i in 0..n {
        let s = any(&mut r);
        let mut d = DriverBuilder::new(format!("d{}", i)).set_processing_strategy(s).set_driver_metrics(r.bool()).build();
        let log = Strategies::default();
        d.add_processor(log.clone());
        if i > 0 {
            let on = r.usize(i);
            if r.bool() {
                drivers[on].add_processor(d.clone());
            } else {
                let mut m = ProcessorMount::default();
                m.add_processor(d.clone());
                drivers[on].add_processor(m);
            }
        }
        drivers.push(d);
        logs.push(log);
        strategies.push(s);
    }
    for d in &drivers {
        snapshot_ok(c, d, false, r.bool());
    }
    // from here on the driver does nothing else
    let mut from: Vec<usize> = logs.iter().map(|l| l.len()).collect();
    let mut trace = format!("{:?} ", strategies);
    for _ in 0..2 + r.below(8) {
        let i = r.usize(n);
        match r.below(4) {
            0 => {
                drivers[i].pause();
                paused[i] = true;
                trace.push_str(&format!("pause{} ", i));
            }
            1 => {
                drivers[i].resume();
                paused[i] = false;
                trace.push_str(&format!("resume{} ", i));
            }
            _ => {
                strategies[i] = any(&mut r);
                drivers[i].change_processing_stragtegy(strategies[i]);
                trace.push_str(&format!("{:?} for {} ", strategies[i], i));
            }
        }
        snapshot_ok(c, &drivers[i], false, r.bool());
        from[i] = logs[i].len();
        // everybody else goes on meanwhile
        let until: Vec<usize> = logs.iter().map(|l| l.len() + 2 + r.usize(3)).collect();
        for k in 0..n {
            if !paused[k] {
                wait_for(c, "runs of a driver that is not paused", || logs[k].len() >= until[k]);
            }
        }
        for k in 0..n {
            let l = logs[k].log.lock().unwrap();
            if paused[k] {
                c.eq(l.len(), from[k], || format!("runs of driver {} of {} which is paused, after {}", k, n, trace));
            } else if let Some(x) = l[from[k]..].iter().find(|x| **x != strategies[k]) {
                c.fail(format!("a run of driver {} of {} used {:?} while {:?} was in effect, after {}", k, n, x, strategies[k], trace));
            }
            count("runs_of_nested_drivers", (l.len() - from[k]) as u64);
        }
    }
    c.sig(&trace);
}
/// What a snapshot asked for in the middle of a crowd of pending requests has to show.
struct Cut08 {
    shots: usize,
    mounted: usize,
    /// number of the strategy in effect, and of the pauses and resumes before
    strategy: usize,
    moves: usize,
    paused: bool,
}
/// Many requests pending at once take effect one after the other.
fn c08_crowd(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let gate = Gate::new(true);
    let strat = Strategies::default();
    let first = *r.pick(&[ALL, ProcessingStrategy::DropAll, ProcessingStrategy::default()]);
    let mut driver = DriverBuilder::default().set_processing_strategy(first).set_driver_metrics(r.bool()).build();
    driver.add_processor(gate.clone());
    driver.add_processor(strat.clone());
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    let log = new_log();
    p.add_handler(Recorder::keyed(&log, "seen", 1));
    driver.add_processor(p);
    // either the driver is busy or it is paused while the requests come in
    let mut paused = r.chance(1, 3);
    if paused {
        gate.closed.store(false, SeqCst);
        driver.pause();
        snapshot_ok(c, &driver, false, r.bool());
    } else {
        wait_for(c, "driver reaches the gate", || gate.waiting.load(SeqCst) > 0);
    }
    let mut clones = vec![driver.clone(), driver.clone()];
    let mount = driver.attached_mount(ProcessorMount::new("crowd"));
    clones.push(driver);
    let n = *r.pick(&[3usize, 20, 33, 65, 129, 300, 520]);
    let n = 1 + r.usize(n);
    let few_snaps = r.chance(1, 3);
    // nothing stops or starts the driver after that many requests
    let moves_until = if r.bool() { n } else { r.usize(n) / 3 + 1 };
    let mut strategies = vec![first];
    let (mut shots, mut mounted, mut moves, mut sent) = (0, 0, 0, 0u64);
    let mut pending = vec![];
    let mut late = vec![];
    for k in 0..n {
        let i = r.usize(3);
        match r.below(16) {
            0 | 1 => {
                clones[i].add_snapshooter(Shot::new(format!("shot{}", shots), shots as u64));
                shots += 1;
            }
            2 | 3 => {
                let b = Beat::default();
                let mut m = ProcessorMount::new(format!("mount{}", mounted));
                m.add_processor(b.clone());
                clones[i].add_processor(m);
                late.push(b);
                mounted += 1;
            }
            4 | 5 => {
                let s = ProcessingStrategy::DropOlderThan { max_age: secs(5000 + k as u64), drop_deltas: false };
                clones[i].change_processing_stragtegy(s);
                strategies.push(s);
            }
            6 if k < moves_until => {
                clones[i].pause();
                moves += 1;
                paused = true;
            }
            7 if k < moves_until => {
                clones[i].resume();
                moves += 1;
                paused = false;
            }
            _ if k == moves_until && paused && r.bool() => {
                clones[i].resume();
                moves += 1;
                paused = false;
            }
            8 if sent < 30_000 => {
                for _ in 0..1 + r.below(300) {
                    sent += 1;
                    tx.observed_one_now(1);
                }
            }
            _ if few_snaps && !r.chance(1, 20) => {
                let b = Beat::default();
                mount.put_processor(b.clone());
                late.push(b);
            }
            _ => {
                let cut = Cut08 { shots, mounted, strategy: strategies.len() - 1, moves, paused };
                pending.push((clones[i].snapshot_async(r.bool()), cut));
            }
        }
    }
    gate.closed.store(false, SeqCst);
    let mut last: Option<(Cut08, usize, u64)> = None;
    let all = pending.len();
    for (k, (f, cut)) in pending.into_iter().enumerate() {
        let s = match c.op("one of many pending requests", || block_on(f)) {
            Ok(s) => s,
            Err(_) => c.fail(format!("request {} of {} pending ones was refused by a live driver", k, all)),
        };
        let what = format!("snapshot {} of {} asked for among {} pending requests", k, all, n);
        let keys = s.keys();
        let got: Vec<&String> = keys.iter().filter(|x| x.starts_with("shot")).collect();
        c.check(got.len() == cut.shots && got.iter().enumerate().all(|(i, x)| **x == format!("shot{}", i)), || {
            format!("{}: {} snapshooters had been added before, it shows {:?}", what, cut.shots, got)
        });
        let got: Vec<&String> = keys.iter().filter(|x| x.starts_with("mount")).collect();
        c.check(got.len() == cut.mounted && got.iter().enumerate().all(|(i, x)| **x == format!("mount{}", i)), || {
            format!("{}: {} processors had been mounted before, it shows {:?}", what, cut.mounted, got)
        });
        let runs = s.u(&["runs"]).unwrap_or(0) as usize;
        let seen = s.u(&["seen"]).unwrap_or(0);
        c.check(seen <= sent, || format!("{}: {} of {} observations seen", what, seen, sent));
        if let Some((before, runs0, seen0)) = last {
            c.check(runs >= runs0 && seen >= seen0, || format!("{}: runs {} after {}, observations {} after {}", what, runs, runs0, seen, seen0));
            if before.paused && before.moves == cut.moves {
                c.eq((runs, seen), (runs0, seen0), || format!("{}: (runs, observations seen) while the driver is paused", what));
                count("cuts_while_paused", 1);
            }
            if before.strategy == cut.strategy {
                let l = strat.log.lock().unwrap();
                let s = strategies[cut.strategy];
                if let Some(x) = l[runs0..runs].iter().find(|x| **x != s) {
                    c.fail(format!("{}: a run used {:?} while {:?} was in effect", what, x, s));
                }
                count("runs_between_cuts", (runs - runs0) as u64);
            }
        }
        last = Some((cut, runs, seen));
    }
    // what is in effect now
    let s = snapshot_ok(c, &clones[0], false, r.bool());
    c.eq(s.keys().iter().filter(|x| x.starts_with("shot")).count(), shots, || "snapshooters in the end".into());
    c.eq(s.keys().iter().filter(|x| x.starts_with("mount")).count(), mounted, || "mounted processors in the end".into());
    let now = strat.len();
    if paused {
        std::thread::sleep(Duration::from_micros(r.below(1500)));
        c.eq(strat.len(), now, || format!("runs of a driver paused by the last of {} pending requests", n));
        clones[1].resume();
    }
    wait_for(c, "runs after a crowd of requests", || strat.len() > now + 3);
    let l = strat.log.lock().unwrap().clone();
    if let Some(x) = l[now..].iter().find(|x| **x != strategies[strategies.len() - 1]) {
        c.fail(format!("a run after {} pending requests used {:?}", n, x));
    }
    for b in &late {
        wait_beats(c, b, 1);
    }
    c.sig(&format!("{} {} {} {} {} {}", n, all, shots, mounted, moves, strategies.len()));
    count("crowded_requests", n as u64);
    c.log(format!("{} requests, {} snapshots, {} moves", n, all, moves));
}
fn c08_case(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let mut strategy = match r.below(3) {
        0 => ALL,
        1 => ProcessingStrategy::DropAll,
        _ => ProcessingStrategy::default(),
    };
    let driver = DriverBuilder::default()
        .set_name("d")
        .set_processing_strategy(strategy)
        .set_driver_metrics(r.bool())
        .build();
    let mut clones = vec![driver.clone(), driver.clone(), driver];
    let strat = Strategies::default();
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair("p");
    let log = new_log();
    p.add_handler(Recorder::keyed(&log, "seen", 1));
    clones[0].add_processor(strat.clone());
    clones[0].add_processor(p);
    let mut requests = vec![strategy];
    let mut handled: u64 = 0; // observations that must have been handled
    let mut queued: Vec<u64> = vec![]; // sent while paused
    let mut paused = false;
    let mut late: Vec<(Beat, String)> = vec![];
    let mut trace = String::new();
    let mut frozen = (0usize, 0u64);
    let mut next = 0u64;
    let steps = 6 + r.usize(25);
    let accepts = |s: ProcessingStrategy| s != ProcessingStrategy::DropAll;
    for step in 0..steps {
        let i = r.usize(clones.len());
        let k = r.below(13);
        match k {
            0 | 1 => {
                if r.bool() {
                    clones[i].pause();
                } else {
                    let d = clones[i].clone();
                    c.op("pausing from another thread", || {
                        let _ = std::thread::spawn(move || d.pause()).join();
                    });
                }
                if !paused {
                    // a request of the same thread: the pause is in effect when it is answered
                    snapshot_ok(c, &clones[r.usize(3)], r.bool(), r.bool());
                    frozen = (strat.len(), log.lock().unwrap().len() as u64);
                }
                paused = true;
                trace.push_str("pause ");
            }
            2 | 3 => {
                if paused {
                    // nothing happened meanwhile
                    let now = (strat.len(), log.lock().unwrap().len() as u64);
                    c.eq(now, frozen, || format!("(runs, observations handled) of a paused driver after {}", trace));
                }
                let clone_for_resume = r.usize(3);
                clones[clone_for_resume].resume();
                trace.push_str("resume ");
                if paused {
                    paused = false;
                    if accepts(strategy) {
                        handled += queued.len() as u64;
                    }
                    queued.clear();
                }
                drain(c, &tx, &strat, &trace);
                c.eq(log.lock().unwrap().len() as u64, handled, || {
                    format!("observations handled after a resume with {:?}: {}", strategy, trace)
                });
            }
            4 | 5 => {
                let s = match r.below(4) {
                    0 => ALL,
                    1 => ProcessingStrategy::DropAll,
                    2 => ProcessingStrategy::default(),
                    _ => ProcessingStrategy::DropOlderThan { max_age: secs(1000 + step as u64), drop_deltas: r.bool() },
                };
                trace.push_str(&format!("{:?} ", s));
                if !paused {
                    // what was sent before is gone already
                    drain(c, &tx, &strat, &trace);
                }
                let before = strat.len();
                let last = strat.log.lock().unwrap().last().copied();
                if let (Some(l), false) = (last, paused) {
                    c.check(before == 0 || requests.contains(&l), || format!("strategy {:?} was never requested: {}", l, trace));
                }
                clones[i].change_processing_stragtegy(s);
                if r.bool() || true {
                    snapshot_ok(c, &clones[r.usize(3)], r.bool(), r.bool());
                    let after = strat.len();
                    strategy = s;
                    requests.push(s);
                    if !paused {
                        c.op("waiting for runs", || {
                            while strat.len() < after + 3 {
                                nap();
                            }
                        });
                        let l = strat.log.lock().unwrap();
                        if let Some(x) = l[after..].iter().find(|x| **x != s) {
                            c.fail(format!("a run after the strategy was changed to {:?} used {:?}: {}", s, x, trace));
                        }
                        // and no run before the request knew of it
                        let old = requests[requests.len() - 2];
                        if old != s && before > 0 && requests.len() == 2 {
                            if let Some(x) = l[..before].iter().find(|x| **x != old) {
                                c.fail(format!("a run before the change to {:?} used {:?}, not {:?}", s, x, old));
                            }
                        }
                    }
                }
            }
            6..=9 => {
                let n = 1 + r.below(30);
                for _ in 0..n {
                    next += 1;
                    tx.observed_now(1, next);
                    if paused {
                        queued.push(next);
                    }
                }
                trace.push_str(&format!("send{} ", n));
                if !paused {
                    drain(c, &tx, &strat, &trace);
                    if accepts(strategy) {
                        handled += n;
                    }
                    c.eq(log.lock().unwrap().len() as u64, handled, || format!("observations handled with {:?}: {}", strategy, trace));
                }
            }
            10 => {
                let b = Beat::default();
                let name = format!("late{}", late.len());
                if r.bool() {
                    let mut m = ProcessorMount::new(name.clone());
                    m.add_processor(b.clone());
                    clones[i].add_processor(m);
                } else {
                    let a = clones[i].attached_mount(ProcessorMount::new(name.clone()));
                    a.put_processor(b.clone());
                }
                trace.push_str("mount ");
                let s = snapshot_ok(c, &clones[r.usize(3)], r.bool(), r.bool());
                c.check(s.at(&["d", &name]).is_some(), || format!("mounted group {} is not shown (paused {}): {}", name, paused, snap_str(&s)));
                if paused {
                    c.eq(b.count(), 0, || "calls of a processor mounted on a paused driver".into());
                } else {
                    wait_beats(c, &b, 1);
                }
                late.push((b, name));
            }
            11 => {
                let name = format!("shot{}", step);
                clones[i].add_snapshooter(Shot::new(name.clone(), 5u64));
                let s = snapshot_ok(c, &clones[r.usize(3)], r.bool(), r.bool());
                c.eq(s.u(&["d", &name]), Some(5), || "snapshooter added".into());
                c.eq(s.u(&["d", "p", "seen"]), Some(handled), || format!("observations shown: {}", trace));
                if paused {
                    c.eq(s.u(&["d", "runs"]), Some(frozen.0 as u64), || "runs shown by a paused driver".into());
                }
                trace.push_str("shot ");
            }
            _ => {
                if paused {
                    std::thread::sleep(Duration::from_micros(if r.chance(1, 5) { 120_000 } else { r.below(2000) }));
                    let now = (strat.len(), log.lock().unwrap().len() as u64);
                    c.eq(now, frozen, || format!("(runs, observations handled) of a paused driver after {}", trace));
                    c.eq(tx.queue_size(), queued.len(), || "observations waiting for a paused driver".into());
                    if let Some((b, _)) = late.first() {
                        let n = b.count();
                        nap();
                        c.eq(b.count(), n, || "calls of a processor mounted on a paused driver".into());
                    }
                }
            }
        }
        c.sig(&format!("{} {}", k, paused));
        c.log(trace.clone());
    }
    // after a final resume everything goes on
    clones[0].change_processing_stragtegy(ALL);
    clones[1].resume();
    drain(c, &tx, &strat, &trace);
    handled += queued.len() as u64;
    c.eq(log.lock().unwrap().len() as u64, handled, || format!("observations handled in the end: {}", trace));
    for (b, _) in &late {
        wait_beats(c, b, 2);
    }
    // strategies were used in the order requested
    requests.push(ALL);
    let l = strat.log.lock().unwrap().clone();
    let mut at = 0;
    for (k, s) in l.iter().enumerate() {
        while at < requests.len() && requests[at] != *s {
            at += 1;
        }
        c.check(at < requests.len(), || format!("run {} used {:?}, which does not fit the requests {:?}", k, s, requests));
    }
    count("runs_recorded", l.len() as u64);
    count("observations", next);
    c.sample(|| trace.clone());
}
/// Waits until the running driver has worked off its queue.
fn drain(c: &Case, tx: &TelemetryTransmitter<u8>, s: &Strategies, trace: &str) {
    let from = s.len();
    c.op(&format!("waiting for a resumed driver to work: {}", trace), || {
        while tx.queue_size() > 0 {
            nap();
        }
        // the run that emptied the queue has ended
        let at = s.len().max(from);
        while s.len() < at + 2 {
            nap();
        }
    });
}
/// Pausing while producers and other requesters are busy.
fn c08_threads(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let (tx, mut p) = make_pair(&mut r, None, true);
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let strat = Strategies::default();
    let mut driver = DriverBuilder::default().set_processing_strategy(ALL).build();
    driver.add_processor(strat.clone());
    driver.add_processor(p);
    let go = Arc::new(AtomicBool::new(true));
    let n = Arc::new(AtomicU64::new(0));
    let mut joins = vec![];
    for t in 0..1 + r.usize(3) {
        let (tx, go, n) = (tx.clone(), go.clone(), n.clone());
        let mut r = Rng::new(r.next() + t as u64);
        joins.push(std::thread::spawn(move || {
            while go.load(SeqCst) && n.load(SeqCst) < 50_000 {
                n.fetch_add(1, SeqCst);
                tx.observed_one_now(1);
                jitter(&mut r);
            }
        }));
    }
    // another thread keeps asking for snapshots
    {
        let (d, go) = (driver.clone(), go.clone());
        joins.push(std::thread::spawn(move || {
            let mut k = 0;
            while go.load(SeqCst) && k < 20_000 {
                k += 1;
                let _ = d.snapshot(k % 2 == 0);
            }
        }));
    }
    for _ in 0..5 {
        std::thread::sleep(Duration::from_micros(r.below(1500)));
        driver.pause();
        snapshot_ok(c, &driver, false, r.bool());
        let frozen = (strat.len(), log.lock().unwrap().len());
        for _ in 0..r.below(4) {
            std::thread::sleep(Duration::from_micros(r.below(1500)));
            c.eq((strat.len(), log.lock().unwrap().len()), frozen, || "(runs, observations handled) of a paused driver under load".into());
        }
        driver.resume();
        let at = frozen.0;
        wait_for(c, "resumed driver under load", || strat.len() > at + 2);
        count("pauses_under_load", 1);
    }
    go.store(false, SeqCst);
    for j in joins {
        let _ = c.op("joining", || j.join());
    }
    let want = n.load(SeqCst) as usize;
    wait_for(c, "everything sent is handled after the last resume", || log.lock().unwrap().len() >= want);
    wait_for(c, "another run", || tx.queue_size() == 0);
    c.eq(log.lock().unwrap().len(), want, || "observations handled in the end".into());
    c.sig(&format!("{}", want));
    count("observations", want as u64);
}

// ------------------------------------------------------------------ C09
/// Label that carries a token.
#[derive(Clone)]
struct TokLabel(u8, Option<Token>);
impl PartialEq for TokLabel {
    fn eq(&self, o: &TokLabel) -> bool {
        self.0 == o.0
    }
}
impl Eq for TokLabel {}
/// Any component with a token inside.
struct Held(Token, Beat);
impl PutsSnapshot for Held {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push("held", 1u64);
    }
}
impl ProcessesTelemetryMessages for Held {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.1.n.fetch_add(1, SeqCst);
        ProcessingOutcome::default()
    }
}
impl HandlesObservations for Held {
    type Label = TokLabel;
    fn handle_observation(&mut self, _: &Observation<TokLabel>) -> usize {
        self.1.n.fetch_add(1, SeqCst);
        1
    }
}
impl Updates for Held {
    fn update(&mut self, _: &Update) -> usize {
        1
    }
}
impl Instrument for Held {}

fn held_panel(r: &mut Rng, live: &Arc<AtomicI64>, name: &str, depth: u32) -> Panel<TokLabel> {
    let h = || Held(Token::new(live), Beat::default());
    let filter = match r.below(4) {
        0 => LabelFilter::accept_all(),
        1 => {
            let t = Token::new(live);
            LabelFilter::predicate(move |l: &TokLabel| {
                let _keep = &t;
                l.0 < 3
            })
        }
        2 => LabelFilter::from(vec![TokLabel(1, Some(Token::new(live))), TokLabel(2, Some(Token::new(live)))]),
        _ => LabelFilter::from((0..7).map(|k| TokLabel(k, Some(Token::new(live)))).collect::<Vec<_>>()),
    };
    let mut p = if r.bool() { Panel::named(filter, name) } else { Panel::new(filter) };
    p.add_counter(Counter::new("c"));
    if r.bool() {
        let t = Token::new(live);
        p.add_counter(InstrumentAdapter::new(Counter::new("m")).modify_with(move |_, u| {
            let _keep = &t;
            u
        }));
    }
    if r.bool() {
        p.add_instrument(h());
        p.add_histogram(InstrumentAdapter::for_label(TokLabel(1, Some(Token::new(live))), Histogram::new("h")));
    }
    if r.bool() {
        p.add_handler(h());
        p.add_snapshooter(h());
        p.add_snapshooter(PollingInstrument::new_with_defaults("poll", h()));
    }
    if depth > 0 {
        p.add_panel(held_panel(r, live, &format!("{}x", name), depth - 1));
    }
    p
}
fn held_processor(r: &mut Rng, live: &Arc<AtomicI64>) -> (TelemetryTransmitter<TokLabel>, TelemetryProcessor<TokLabel>) {
    let h = || Held(Token::new(live), Beat::default());
    let (tx, mut p) = match r.below(4) {
        0 => TelemetryProcessor::new_pair_without_name(),
        1 => TelemetryProcessor::new_pair_bounded("p", 50, false),
        2 => TelemetryProcessor::new_pair_bounded_without_name(5, false),
        _ => TelemetryProcessor::new_pair("p"),
    };
    p.add_handler(h());
    p.add_snapshooter(h());
    for i in 0..r.below(3) {
        let mut ck = if r.bool() { Cockpit::new(format!("c{}", i)) } else { Cockpit::without_name() };
        ck.add_handler(h());
        ck.add_snapshooter(h());
        ck.add_panel(held_panel(r, live, "p", 2));
        p.add_cockpit(ck);
    }
    (tx, p)
}
fn send_held(r: &mut Rng, tx: &TelemetryTransmitter<TokLabel>, live: &Arc<AtomicI64>) {
    for _ in 0..r.below(30) {
        match r.below(8) {
            0 => drop(tx.add_handler(Held(Token::new(live), Beat::default()))),
            1 => drop(tx.add_cockpit(Cockpit::new("come").panel(held_panel(r, live, "pp", 1)))),
            2 => drop(tx.remove_cockpit("come")),
            3 => drop(tx.add_panel_to_cockpit("c0", held_panel(r, live, "come", 1))),
            4 => drop(tx.remove_panel_from_cockpit("c0", "come")),
            _ => drop(tx.observed_one_now(TokLabel(r.below(5) as u8, Some(Token::new(live))))),
        }
    }
}

pub fn c09() {
    rule("drivers (busy, paused, held up, nested, with requests pending by the hundreds) whose handles are dropped in any order on any thread, also inside another driver; every mounted component and queued message must be dropped and every thread must end after the last handle is gone, and nothing before. Distinct mounted components, number of handle clones, order and threads of their drops, driver state.");
    run("release", 60, 600, 6, c09_release);
    compressed(300, || {
        run("release_fast", 2500, 40_000, 6, c09_release);
        run("threads", 180, 2_400, 1, c09_threads);
        run("inner", 400, 6_000, 6, c09_inner);
        run("lonely", 800, 12_000, 6, c09_lonely);
    });
}
/// Drops something here or in another thread, in the course of a panic, too.
fn let_go<T: Send + 'static>(c: &Case, r: &mut Rng, what: &str, x: T) {
    match r.below(7) {
        0 | 1 => drop(x),
        2 | 3 => {
            let _ = c.op(what, || std::thread::spawn(move || drop(x)).join());
        }
        4 | 5 => {
            count("handles_dropped_by_a_panic", 1);
            let unwinds = c.op(what, || {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _x = x;
                    crate::rt::expected_panic()
                }))
            });
            c.check(unwinds.is_err(), || "no panic".into());
        }
        _ => {
            count("handles_dropped_by_a_panic", 1);
            let j = std::thread::spawn(move || {
                let _x = x;
                crate::rt::expected_panic()
            });
            let _ = c.op(what, || j.join());
        }
    }
}
/// A driver with many requests pending loses its last handle within another driver.
fn c09_inner(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let live = Arc::new(AtomicI64::new(0));
    let (beat, inner_beat) = (Beat::default(), Beat::default());
    let mut outer = any_driver(&mut r, "outer");
    outer.add_processor(beat.clone());
    let mut inner = any_driver(&mut r, "inner");
    inner.add_processor(inner_beat.clone());
    inner.add_processor(Held(Token::new(&live), Beat::default()));
    let turns = Turns::default();
    inner.add_snapshooter(turns.clone());
    wait_beats(c, &beat, 1);
    wait_beats(c, &inner_beat, 1);
    let (tid, inner_tid) = (beat.tid.load(SeqCst), inner_beat.tid.load(SeqCst));
    if r.bool() {
        inner.pause();
    }
    if r.chance(1, 3) {
        outer.pause();
    }
    let n = 200 + r.below(400);
    let descr = r.bool();
    let futs: Vec<_> = (0..n).map(|_| inner.snapshot_async(descr)).collect();
    let how = r.below(4);
    match how {
        0 => outer.add_processor(inner),
        1 => outer.add_snapshooter(inner),
        2 => {
            let mut m = ProcessorMount::new("m");
            m.add_processor(inner);
            outer.add_processor(m);
        }
        _ => outer.attached_mount(ProcessorMount::new("a")).put_processor(inner),
    }
    if r.bool() {
        std::thread::sleep(Duration::from_micros(r.below(3000)));
    }
    drop(outer);
    wait_for(c, "outer driver thread to end", || !thread_alive(tid));
    let at = turns.calls.load(SeqCst);
    let runs_at = inner_beat.count();
    turns.arm();
    wait_for(c, "thread of the mounted driver to end", || !thread_alive(inner_tid));
    let (more, slept, runs) = (turns.calls.load(SeqCst) - at, turns.turns(), inner_beat.count() - runs_at);
    c.check(slept <= 100 && runs <= 100, || {
        format!("a driver answered {} of {} pending requests in {} turns after its last handle had been dropped in another driver", more, n, slept.max(runs))
    });
    c.eq(live.load(SeqCst), 0, || "components of the mounted driver that were not released".into());
    for f in futs {
        let _ = c.op("request pending at a mounted driver that lost its last handle", || block_on(f));
    }
    if at + 100 < n {
        count("ended_with_requests_pending", 1);
    }
    c.sig(&format!("{} {} {}", n, how, at / 20));
}
/// Drivers with few components, of one sort only or none at all.
fn c09_lonely(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let live = Arc::new(AtomicI64::new(0));
    let mut d = any_driver(&mut r, "d");
    let kind = r.below(3);
    let n = *r.pick(&[0u64, 0, 1, 2, 30]);
    let before = clock::METRIX_SLEEPS.load(SeqCst);
    let teller = Beat::default();
    if kind == 2 {
        // no components, only the snapshooter that tells the thread
        d.add_snapshooter(Teller(teller.clone()));
    }
    for _ in 0..n {
        match kind {
            0 => d.add_snapshooter(Held(Token::new(&live), Beat::default())),
            1 => d.add_processor(Held(Token::new(&live), Beat::default())),
            _ => {
                let (tx, p) = held_processor(&mut r, &live);
                send_held(&mut r, &tx, &live);
                d.add_processor(p);
            }
        }
    }
    let mut futs = vec![];
    let told = r.bool();
    if told && kind != 2 {
        d.add_snapshooter(Teller(teller.clone()));
    }
    let paused = r.chance(1, 3);
    if paused {
        d.pause();
    }
    if told || kind == 2 {
        snapshot_ok(c, &d, r.bool(), r.bool());
    }
    if r.bool() {
        futs.push(d.snapshot_async(true));
    }
    let clones: Vec<_> = (0..r.below(3)).map(|_| d.clone()).collect();
    if r.bool() {
        std::thread::sleep(Duration::from_micros(r.below(2000)));
    }
    drop(clones);
    let_go(c, &mut r, "dropping the last handle", d);
    let tid = teller.tid.load(SeqCst);
    if tid != 0 {
        wait_for(c, "thread of a driver with few components to end", || !thread_alive(tid));
    }
    wait_for(c, "components of a driver with few components to be released", || live.load(SeqCst) == 0);
    for f in futs {
        let _ = c.op("request pending when the last handle was dropped", || block_on(f));
    }
    count("components_of_lonely_drivers", n);
    c.sig(&format!("{} {} {} {} {}", kind, n, told, paused, clock::METRIX_SLEEPS.load(SeqCst) - before > 3));
}
/// Tells the thread that takes snapshots.
struct Teller(Beat);
impl PutsSnapshot for Teller {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {
        self.0.tid.store(gettid(), SeqCst);
    }
}
fn c09_release(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let live = Arc::new(AtomicI64::new(0));
    let mut driver = any_driver(&mut r, "d");
    let beat = Beat::default();
    driver.add_processor(beat.clone());
    wait_beats(c, &beat, 1);
    let tid = beat.tid.load(SeqCst);
    let mut txs = vec![];
    let mut mounts = vec![];
    let held_beat = Beat::default();
    driver.add_processor(Held(Token::new(&live), held_beat.clone()));
    for _ in 0..1 + r.below(3) {
        let (tx, p) = held_processor(&mut r, &live);
        send_held(&mut r, &tx, &live);
        match r.below(5) {
            0 => {
                let mut m = ProcessorMount::new("m");
                m.add_processor(p);
                m.add_snapshooter(Held(Token::new(&live), Beat::default()));
                driver.add_processor(m);
            }
            1 => {
                let a = driver.attached_mount(ProcessorMount::new("a"));
                a.put_processor(p);
                a.put_snapshooter(Held(Token::new(&live), Beat::default()));
                mounts.push(a);
            }
            2 => {
                let a = driver.attached_mount(ProcessorMount::new("a"));
                let b = a.attach_mount::<Beat>(ProcessorMount::new("b"));
                b.put_processor(p);
                drop(b);
                mounts.push(a);
            }
            _ => driver.add_processor(p),
        }
        txs.push(tx);
    }
    driver.add_snapshooter(Held(Token::new(&live), Beat::default()));
    // drivers within drivers, whose only handle is mounted
    let mut inner_beats = vec![];
    let (mut inner_turns, mut inner_crowd) = (vec![], vec![]);
    for _ in 0..r.below(3) {
        let mut inner = any_driver(&mut r, "inner");
        let b = Beat::default();
        inner.add_processor(b.clone());
        inner.add_processor(Held(Token::new(&live), Beat::default()));
        let (tx, p) = held_processor(&mut r, &live);
        send_held(&mut r, &tx, &live);
        inner.add_processor(p);
        txs.push(tx);
        wait_beats(c, &b, 1);
        inner_beats.push(b);
        if r.chance(1, 3) {
            inner.pause();
        }
        if r.bool() {
            let mut nest = any_driver(&mut r, "nest");
            let b = Beat::default();
            nest.add_processor(b.clone());
            nest.add_processor(inner);
            wait_beats(c, &b, 1);
            inner_beats.push(b);
            inner = nest;
        }
        // requests of its own may be pending when it loses its last handle
        let n = if clock::COMPRESS_US.load(SeqCst) > 0 && r.chance(1, 12) { 200 + r.below(300) } else { 0 };
        if n > 0 {
            let s = Turns::default();
            inner_turns.push(s.clone());
            inner.add_snapshooter(s);
            inner_crowd.extend((0..n).map(|_| inner.snapshot_async(false)));
        }
        if r.bool() {
            driver.add_processor(inner);
        } else {
            driver.add_snapshooter(inner);
        }
    }
    let inner_tids: Vec<u64> = inner_beats.iter().map(|b| b.tid.load(SeqCst)).collect();
    if r.bool() {
        wait_beats(c, &beat, 1 + r.below(20));
    }
    let paused = r.chance(1, 3);
    if paused {
        driver.pause();
        if r.bool() {
            snapshot_ok(c, &driver, false, false);
        }
        // mounted on a paused driver, maybe never known to it
        driver.add_processor(Held(Token::new(&live), Beat::default()));
        driver.add_snapshooter(Held(Token::new(&live), Beat::default()));
    }
    // clones come and go, also in other threads
    let mut clones = vec![driver];
    for _ in 0..r.below(6) {
        let x = clones[0].clone();
        clones.push(x);
    }
    let nclones = clones.len();
    while clones.len() > 1 {
        let i = r.usize(clones.len());
        let x = clones.swap_remove(i);
        match r.below(3) {
            0 => let_go(c, &mut r, "dropping a clone", x),
            1 => {
                // all at once
                let n = r.usize(clones.len());
                let more: Vec<_> = clones.drain(1..1 + n.min(clones.len() - 1)).collect();
                let js: Vec<_> = more.into_iter().map(|d| std::thread::spawn(move || drop(d))).collect();
                drop(x);
                for j in js {
                    let _ = j.join();
                }
            }
            _ => drop(x),
        }
        if r.bool() {
            // the others do not care
            c.check(thread_alive(tid), || format!("the driver thread ended while {} handles exist", clones.len()));
            if !paused {
                wait_beats(c, &beat, 2);
                wait_beats(c, &held_beat, 1);
            }
            snapshot_ok(c, &clones[0], false, r.bool());
        }
    }
    let d = clones.pop().unwrap();
    if r.chance(1, 4) {
        d.change_processing_stragtegy(ProcessingStrategy::DropAll);
    }
    for tx in &txs {
        send_held(&mut r, tx, &live);
    }
    for m in &mounts {
        m.put_processor(Held(Token::new(&live), Beat::default()));
        m.put_snapshooter(Held(Token::new(&live), Beat::default()));
    }
    let s = snapshot_ok(c, &d, r.bool(), r.bool());
    c.check(snap_str(&s).contains("\"held\""), || "the last handle does not show what is mounted".into());
    c.check(live.load(SeqCst) > 0, || "components were released while a handle exists".into());
    // a pending request does not keep it alive
    let fut = if r.bool() { Some(d.snapshot_async(false)) } else { None };
    // nor do many of them, which it need not answer
    let turns = Turns::default();
    let crowd: Vec<_> = if r.chance(1, 5) {
        let mut d = d.clone();
        d.add_snapshooter(turns.clone());
        let n = 100 + r.below(300);
        count("requests_pending_at_the_end", n);
        (0..n).map(|_| d.snapshot_async(r.bool())).collect()
    } else {
        vec![]
    };
    let before = beat.count();
    let_go(c, &mut r, "dropping the last handle", d);
    let at = beat.count();
    turns.arm();
    // transmitters and mounts may outlive all
    let (mut keep_tx, mut keep_m) = (Some(txs), Some(mounts));
    let bounded = keep_tx.iter().flatten().any(|t| t.queue_capacity().is_some());
    if r.bool() {
        keep_tx = None;
    }
    if r.bool() {
        keep_m = None;
    }
    wait_for(c, &format!("driver thread to end (paused {})", paused), || !thread_alive(tid));
    let runs = beat.count() - at;
    c.check(runs <= 50, || format!("the driver ran {} more times after its last handle was dropped", runs));
    inner_turns.iter().for_each(|t| t.arm());
    c.check(turns.turns() <= 50, || format!("the driver answered requests for {} more turns after its last handle was dropped (paused {})", turns.turns(), paused));
    for (k, f) in crowd.into_iter().enumerate() {
        let _ = c.op(&format!("request {} of many pending when the last handle was dropped", k), || block_on(f));
    }
    for t in &inner_tids {
        wait_for(c, "threads of mounted drivers to end", || !thread_alive(*t));
    }
    if !inner_crowd.is_empty() {
        for t in &inner_turns {
            c.check(t.turns() <= 100, || format!("a mounted driver answered requests for {} more turns after its last handle was dropped", t.turns()));
        }
        count("requests_pending_at_mounted_drivers", inner_crowd.len() as u64);
        for f in inner_crowd {
            let _ = c.op("requests pending at a mounted driver that lost its last handle", || block_on(f));
        }
    }
    if let Some(f) = fut {
        let _ = c.op("request pending when the last handle was dropped", || block_on(f));
    }
    if bounded && keep_tx.is_some() {
        // a bounded queue keeps what it holds until its last transmitter is gone, too; nothing else
        let kept: i64 = live.load(SeqCst);
        let most: usize = keep_tx.iter().flatten().map(|t| t.queue_size()).sum();
        c.check(most > 0 || kept == 0, || format!("{} components and labels were not released by an ended driver", kept));
        keep_tx = None;
    }
    let n = live.load(SeqCst);
    c.check(n == 0, || {
        format!(
            "{} of the components, labels and queued messages of an ended driver were not released (transmitters alive: {})",
            n,
            keep_tx.is_some()
        )
    });
    // and nothing is kept that comes later
    if let Some(txs) = &keep_tx {
        for tx in txs {
            send_held(&mut r, tx, &live);
        }
    }
    if let Some(ms) = &keep_m {
        for m in ms {
            m.put_processor(Held(Token::new(&live), Beat::default()));
        }
    }
    c.eq(live.load(SeqCst), 0, || "components and labels sent to an ended driver that are kept".into());
    count("drivers_released", 1 + inner_tids.len() as u64);
    count("runs_after_last_drop", runs);
    c.sig(&format!("{} {} {} {} {}", nclones, paused, inner_tids.len(), keep_tx.is_some(), before % 7));
    c.sample(|| format!("{} clones, {} inner drivers, paused {}, {} runs after the last drop", nclones, inner_tids.len(), paused, runs));
}
/// Number of threads with and without handles.
fn c09_threads(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    wait_for(c, "threads of earlier cases to end", || threads_named("metrix") == 0);
    let n = 1 + r.usize(6);
    let mut drivers: Vec<Vec<TelemetryDriver>> = vec![];
    for i in 0..n {
        let d = any_driver(&mut r, &format!("d{}", i));
        if r.chance(1, 3) {
            d.pause();
        }
        let mut v = vec![d];
        for _ in 0..r.below(4) {
            let x = v[0].clone();
            v.push(x);
        }
        drivers.push(v);
    }
    for d in &drivers {
        snapshot_ok(c, &d[0], false, false);
    }
    c.eq(threads_named("metrix"), n, || "number of threads of that many drivers".into());
    while !drivers.is_empty() {
        let i = r.usize(drivers.len());
        let d = drivers[i].pop();
        let_go(c, &mut r, "dropping a handle", d);
        if drivers[i].is_empty() {
            drivers.swap_remove(i);
            let n = drivers.len();
            wait_for(c, "thread of a driver without handles to end", || threads_named("metrix") <= n);
        }
        for d in &drivers {
            snapshot_ok(c, &d[0], false, false);
        }
        c.eq(threads_named("metrix"), drivers.len(), || "number of threads of the remaining drivers".into());
    }
    count("driver_threads", n as u64);
    c.sig(&format!("{}", n));
}

// ------------------------------------------------------------------ C10
/// What one snapshot shows: per producer, and in total.
#[derive(Clone, Debug, PartialEq)]
struct Cut {
    per: Vec<u64>,
    total: u64,
}
struct Counted {
    per: Arc<Vec<AtomicU64>>,
}
impl PutsSnapshot for Counted {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        let mut s = Snapshot::default();
        for (i, n) in self.per.iter().enumerate() {
            s.push(format!("{}", i), n.load(SeqCst));
        }
        into.push("counted", ItemKind::Snapshot(s));
    }
}
impl HandlesObservations for Counted {
    type Label = u8;
    fn handle_observation(&mut self, o: &Observation<u8>) -> usize {
        self.per[*o.label() as usize].fetch_add(1, SeqCst);
        1
    }
}
pub fn c10() {
    rule("producers stamp ascending observations while snapshot threads ask synchronously and asynchronously, also with virtual patience at a driver that is busy for long; every snapshot must be a prefix per producer, the same in all instruments, monotone, and include all that was handled before the request. Distinct number of producers, snapshot threads, observations and nesting; cuts seen are counted.");
    run("cuts", 8, 150, 3, c10_case);
    compressed(200, || {
        run("cuts_fast", 600, 8000, 3, c10_case);
    });
    run("patience", 40, 600, 8, c10_patience);
}
/// A processor that keeps the driver busy from time to time.
struct Busy(u64, Arc<AtomicU64>);
impl PutsSnapshot for Busy {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        if self.0 & 1 == 1 {
            std::thread::sleep(ms(self.0));
        }
        into.push("runs", self.1.load(SeqCst));
    }
}
impl ProcessesTelemetryMessages for Busy {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        std::thread::sleep(ms(self.0));
        self.1.fetch_add(1, SeqCst);
        ProcessingOutcome::default()
    }
}
/// However long it takes: who asks a live driver for a snapshot gets it.
fn c10_patience(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut driver = any_driver(&mut r, "");
    let runs: Arc<AtomicU64> = Default::default();
    let busy = *r.pick(&[30u64, 60, 101, 160]);
    driver.add_processor(Busy(busy, runs.clone()));
    let paused = r.chance(1, 4);
    if paused {
        driver.pause();
    }
    let n = 1 + r.usize(3);
    let mut joins = vec![];
    for _ in 0..n {
        let (d, b, descr, way) = (driver.clone(), c.beater(), r.bool(), r.below(3));
        joins.push(std::thread::spawn(move || {
            b.adopt();
            // hours pass for this one
            clock::impatient();
            let mut got = vec![];
            for _ in 0..3 {
                let s = if way == 0 { block_on(d.snapshot_async(descr)) } else { d.snapshot(descr) };
                match s {
                    Ok(s) => got.push(snap_str(&s).contains("\"runs\":")),
                    Err(_) => got.push(false),
                }
            }
            got
        }));
    }
    for j in joins {
        match c.op("threads asking a busy driver for snapshots", || j.join()) {
            Ok(got) => c.eq(got, vec![true; 3], || format!("complete snapshots given by a driver busy for {} ms at a time (paused: {})", busy, paused)),
            Err(_) => c.fail("a thread asking for a snapshot panicked"),
        }
    }
    count("patient_snapshots", 3 * n as u64);
    c.sig(&format!("{} {} {}", busy, paused, n));
}
fn c10_panel(l: u8, name: String) -> Panel<u8> {
    Panel::named(l, name)
        .counter(Counter::new("counter"))
        .gauge(Gauge::new("gauge"))
        .meter(Meter::new("meter"))
        .histogram(Histogram::new("histogram"))
        .instrument(ValueMeter::new("values"))
        .instrument(DataDisplay::new("display"))
        .gauge(GaugeAdapter::new(Gauge::new("second")))
}
fn c10_judge(c: &Case, s: &Snapshot, base: &[&str], n: usize, what: &str) -> Cut {
    let at = |tail: &[&str]| -> Vec<String> { base.iter().chain(tail).map(|x| x.to_string()).collect() };
    let u = |tail: &[&str]| -> u64 {
        let p = at(tail);
        let p: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
        match s.u(&p) {
            Some(v) => v,
            None => c.fail(format!("{}: {:?} is missing in {}", what, p, snap_str(s))),
        }
    };
    let opt = |tail: &[&str]| -> Option<i64> {
        let p = at(tail);
        let p: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
        s.i(&p)
    };
    let mut per = vec![];
    for l in 0..n {
        let ls = format!("{}", l);
        let k = u(&["counted", &ls]);
        for cockpit in ["c1", "c2"] {
            let pn = format!("p{}", l);
            let q = |tail: &[&str]| -> Vec<String> { [cockpit, &pn].iter().chain(tail).map(|x| x.to_string()).collect() };
            let qs = |tail: &[&str]| -> u64 {
                let v = q(tail);
                let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
                u(&v)
            };
            let qo = |tail: &[&str]| -> Option<i64> {
                let v = q(tail);
                let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
                opt(&v)
            };
            let shown = [
                ("counter", qs(&["counter"])),
                ("meter", qs(&["meter", "count"])),
                ("histogram", qs(&["histogram", "count"])),
            ];
            for (i, v) in shown {
                c.check(v == k, || format!("{}: {} of producer {} in {} shows {}, the handler saw {}", what, i, l, cockpit, v, k));
            }
            c.check(qs(&["values", "count"]) == k * (k + 1) / 2, || {
                format!("{}: value meter of producer {} in {} shows {} after {} values", what, l, cockpit, qs(&["values", "count"]), k)
            });
            for g in ["gauge", "second", "display"] {
                let v = qo(&[g]);
                let want = if k == 0 { None } else { Some(k as i64) };
                c.check(v == want, || {
                    format!("{}: {} of producer {} in {} shows {:?} after {} observations", what, g, l, cockpit, v, k)
                });
            }
        }
        per.push(k);
    }
    let total = per.iter().sum();
    for p in [vec!["c1", "all", "counter"], vec!["c2", "all", "counter"], vec!["c1", "all", "meter", "count"], vec!["c2", "all", "histogram", "count"]] {
        let v = u(&p);
        c.check(v == total, || format!("{}: {:?} shows {}, the sum over all producers is {}", what, p, v, total));
    }
    Cut { per, total }
}
fn c10_case(c: &mut Case) {
    let mut r = c.rng.clone();
    if r.chance(1, 6) {
        hold_ups(&mut r);
    } else {
        clock::DELAY_US.store(0, SeqCst);
    }
    let n = 1 + r.usize(4);
    let per_producer = *r.pick(&[50u64, 500, 3000]);
    let (tx, mut p) = match r.below(3) {
        0 => TelemetryProcessor::<u8>::new_pair("proc"),
        1 => TelemetryProcessor::<u8>::new_pair_bounded("proc", 1 + r.usize(300), true),
        _ => TelemetryProcessor::<u8>::new_pair("proc"),
    };
    let counted = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect::<Vec<_>>());
    let first = r.bool();
    if first {
        p.add_handler(Counted { per: counted.clone() });
    }
    for ck in ["c1", "c2"] {
        let mut cockpit = Cockpit::new(ck);
        cockpit.add_panel(
            Panel::accept_all_named("all").counter(Counter::new("counter")).meter(Meter::new("meter")).histogram(Histogram::new("histogram")),
        );
        for l in 0..n {
            cockpit.add_panel(c10_panel(l as u8, format!("p{}", l)));
        }
        p.add_cockpit(cockpit);
    }
    if !first {
        p.add_handler(Counted { per: counted.clone() });
    }
    let mut base = vec!["proc"];
    let mut driver = DriverBuilder::default().set_processing_strategy(ALL).set_driver_metrics(r.bool()).build();
    let nesting = r.below(4);
    match nesting {
        0 => {
            let mut m = ProcessorMount::new("m");
            m.add_processor(p);
            driver.add_processor(m);
            base.insert(0, "m");
        }
        1 => {
            let mut inner = DriverBuilder::new("inner").set_processing_strategy(ALL).build();
            inner.add_processor(p);
            driver.add_processor(inner);
            base.insert(0, "inner");
        }
        _ => driver.add_processor(p),
    }
    // until the components are known a snapshot shows nothing of them
    let base: Vec<&str> = base;
    c.op("waiting for the components to be shown", || loop {
        if let Ok(s) = driver.snapshot(false) {
            let mut path = base.clone();
            path.push("counted");
            if s.at(&path).is_some() {
                break;
            }
        }
        nap();
    });
    let clock = AtomicU64::new(0);
    let cuts: Mutex<Vec<(u64, u64, Cut)>> = Mutex::new(vec![]);
    let done = AtomicUsize::new(0);
    let sent: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let ns = 1 + r.usize(4);
    let chaos = r.bool();
    std::thread::scope(|s| {
        for l in 0..n {
            let (tx, done, sent) = (tx.clone(), &done, &sent);
            let mut r = Rng::new(r.next() ^ l as u64);
            s.spawn(move || {
                for k in 1..=per_producer {
                    sent[l].store(k, SeqCst);
                    tx.observed_one_value_now(l as u8, k);
                    if k % 16 == 0 {
                        jitter(&mut r);
                    }
                }
                done.fetch_add(1, SeqCst);
            });
        }
        for t in 0..ns {
            let d = driver.clone();
            let (clock, cuts, done, sent, counted, base) = (&clock, &cuts, &done, &sent, &counted, &base);
            let case = &*c;
            let b = c.beater();
            let mut r = Rng::new(r.next() ^ (t as u64) << 8);
            s.spawn(move || {
                b.adopt();
                let mut last: Option<Cut> = None;
                let mut k = 0;
                while k < 3 || (done.load(SeqCst) < n && k < 400) {
                    k += 1;
                    let fresh: Vec<u64> = counted.iter().map(|x| x.load(SeqCst)).collect();
                    let t0 = clock.fetch_add(1, SeqCst);
                    let asy = r.bool();
                    let s = snapshot_ok(case, &d, r.bool(), asy);
                    let t1 = clock.fetch_add(1, SeqCst);
                    let cut = c10_judge(case, &s, base, n, if asy { "asynchronous snapshot" } else { "synchronous snapshot" });
                    for l in 0..n {
                        let limit = sent[l].load(SeqCst);
                        case.check(cut.per[l] >= fresh[l], || {
                            format!("{} observations of producer {} were processed before the request, the snapshot shows {}", fresh[l], l, cut.per[l])
                        });
                        case.check(cut.per[l] <= limit, || format!("a snapshot shows {} observations of {} sent", cut.per[l], limit));
                    }
                    if let Some(p) = &last {
                        case.check(p.per.iter().zip(&cut.per).all(|(a, b)| a <= b), || {
                            format!("successive snapshots of one thread show {:?} and then {:?}", p, cut)
                        });
                    }
                    last = Some(cut.clone());
                    cuts.lock().unwrap().push((t0, t1, cut));
                    b.beat();
                    jitter(&mut r);
                }
            });
        }
        if chaos {
            let d = driver.clone();
            let (done, mut r) = (&done, Rng::new(r.next()));
            s.spawn(move || {
                let mut k = 0;
                while done.load(SeqCst) < n && k < 500 {
                    k += 1;
                    d.pause();
                    jitter(&mut r);
                    d.resume();
                    std::thread::sleep(Duration::from_micros(r.below(3000)));
                }
            });
        }
    });
    let all = per_producer * n as u64;
    wait_for(c, "everything to be processed", || counted.iter().map(|x| x.load(SeqCst)).sum::<u64>() >= all);
    let s = snapshot_ok(c, &driver, false, r.bool());
    let last = c10_judge(c, &s, &base, n, "final snapshot");
    c.eq(last.per.clone(), vec![per_producer; n], || "final snapshot".into());
    // monotone along the real time order of all requests
    let mut v = cuts.into_inner().unwrap_or_default();
    v.push((u64::MAX - 1, u64::MAX, last));
    v.sort_by_key(|x| x.0);
    let mut ended: Vec<(u64, Cut)> = v.iter().map(|x| (x.1, x.2.clone())).collect();
    ended.sort_by_key(|x| x.0);
    let mut high = vec![0u64; n];
    let mut k = 0;
    for (t0, _, cut) in &v {
        while k < ended.len() && ended[k].0 < *t0 {
            for l in 0..n {
                high[l] = high[l].max(ended[k].1.per[l]);
            }
            k += 1;
        }
        c.check(cut.per.iter().zip(&high).all(|(a, b)| a >= b), || {
            format!("a snapshot requested after others had ended shows {:?}, they showed {:?}", cut.per, high)
        });
    }
    let distinct: HashSet<Vec<u64>> = v.iter().map(|x| x.2.per.clone()).collect();
    count("cuts", v.len() as u64);
    count("distinct_cuts", distinct.len() as u64);
    count("partial_cuts", distinct.iter().filter(|x| x.iter().sum::<u64>() > 0 && x.iter().sum::<u64>() < all).count() as u64);
    c.sig(&format!("{} {} {} {} {} {}", n, per_producer, ns, nesting, chaos, distinct.len()));
    c.sample(|| format!("{} producers x {}, {} snapshot threads: {} snapshots, {} distinct cuts", n, per_producer, ns, v.len(), distinct.len()));
}

// ------------------------------------------------------------------ C11
#[derive(Clone, Default, Debug)]
struct Truth {
    runs: u64,
    processed: u64,
    dropped: u64,
    updated: u64,
    max_processed: u64,
    max_dropped: u64,
    snapshots: u64,
    cur: Option<(i64, [u64; 4])>,
    enqueued: Option<u64>,
    last_drop: Option<(i64, i64)>,
    last_seen: Option<(i64, i64)>,
}
impl Truth {
    /// The current run is over at the latest now.
    fn finish(&mut self) {
        let now = clock::global_now();
        if let Some((t, [p, d, u, e])) = self.cur.take() {
            self.runs += 1;
            self.processed += p;
            self.dropped += d;
            self.updated += u;
            self.max_processed = self.max_processed.max(p);
            self.max_dropped = self.max_dropped.max(d);
            self.enqueued = Some(e);
            if d > 0 {
                self.last_drop = Some((t, now));
            }
            if d > 0 || p > 0 {
                self.last_seen = Some((t, now));
            }
        }
    }
}
type Shared = Arc<Mutex<Truth>>;
struct Head(Shared, Beat);
impl PutsSnapshot for Head {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for Head {
    fn process(&mut self, m: usize, s: ProcessingStrategy) -> ProcessingOutcome {
        let mut t = self.0.lock().unwrap();
        t.finish();
        t.cur = Some((clock::global_now(), [0; 4]));
        self.1.process(m, s)
    }
}
/// Reports made up outcomes, or those of a real processor.
struct Scripted {
    truth: Shared,
    mode: Arc<AtomicU64>,
    rng: Rng,
    inner: Option<TelemetryProcessor<u8>>,
}
impl PutsSnapshot for Scripted {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for Scripted {
    fn process(&mut self, m: usize, s: ProcessingStrategy) -> ProcessingOutcome {
        let o = match self.inner.as_mut() {
            Some(p) => p.process(m, s),
            None => {
                let mode = self.mode.load(SeqCst);
                let r = &mut self.rng;
                // a single run with something to report, or many
                let once = mode & 16 > 0;
                if once {
                    self.mode.store(0, SeqCst);
                }
                let huge = r.chance(1, if once { 2 } else { 8 });
                let n = |on: bool, r: &mut Rng, k: u64| match on && (once || r.bool()) {
                    true if huge && r.chance(1, if once { 1 } else { 3 }) => *r.pick(&[1_000usize, 1_001, 65_536, 70_000, 3_000_000, 1 << 33]),
                    true => r.below(k) as usize,
                    false => 0,
                };
                ProcessingOutcome {
                    processed: n(mode & 1 > 0, r, 300),
                    dropped: n(mode & 2 > 0, r, 50),
                    instruments_updated: n(mode & 4 > 0, r, 1000),
                    observations_enqueued: n(mode & 8 > 0, r, 10_000),
                }
            }
        };
        let mut t = self.truth.lock().unwrap();
        if let Some((_, x)) = t.cur.as_mut() {
            x[0] += o.processed as u64;
            x[1] += o.dropped as u64;
            x[2] += o.instruments_updated as u64;
            x[3] += o.observations_enqueued as u64;
        }
        o
    }
}
/// Records the truth at the moment of each snapshot.
struct Witness {
    truth: Shared,
    states: Arc<Mutex<Vec<(Truth, i64)>>>,
}
impl PutsSnapshot for Witness {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        let mut t = self.truth.lock().unwrap();
        t.finish();
        t.snapshots += 1;
        let mut v = self.states.lock().unwrap();
        into.push("witness", v.len() as u64);
        v.push((t.clone(), clock::global_now()));
    }
}
pub fn c11() {
    rule("processors that report scripted outcomes (bursts and huge numbers too) under global virtual time, with pauses and snapshots; the metrics group of the driver is compared with a model of the runs that really happened. Distinct script of outcomes, time steps, pauses and snapshots.");
    clock::COMPRESS_US.store(40, SeqCst);
    run("metrics", 1200, 20_000, 1, c11_case);
    run("times", 600, 10_000, 1, c11_times);
    run("disabled", 60, 500, 1, c11_disabled);
    clock::COMPRESS_US.store(0, SeqCst);
}
fn c11_case(c: &mut Case) {
    let mut r = c.rng.clone();
    let start = (1_000_000 + r.below(1000) as i64) * clock::NS;
    clock::global_on(start);
    let named = r.bool();
    let strategy = *r.pick(&[ProcessingStrategy::default(), ALL, ProcessingStrategy::DropAll]);
    let mut driver = if r.chance(1, 4) {
        TelemetryDriver::new(if named { Some("d".into()) } else { None }, None, None, strategy, true)
    } else {
        let mut b = DriverBuilder::default().set_processing_strategy(strategy);
        if named {
            b = b.set_name("d");
        }
        b.build()
    };
    let path = |p: &[&'static str]| -> Vec<&'static str> {
        let mut v = if named { vec!["d"] } else { vec![] };
        v.push("_metrix");
        v.extend_from_slice(p);
        v
    };
    driver.pause();
    let s0 = snapshot_ok(c, &driver, false, false);
    let get = |s: &Snapshot, p: &[&'static str]| -> u64 {
        match s.u(&path(p)) {
            Some(x) => x,
            None => c.fail(format!("{:?} is missing in {}", path(p), snap_str(s))),
        }
    };
    // runs before anything was mounted
    let runs0 = get(&s0, &["collections_per_second", "count"]);
    c.eq(get(&s0, &["snapshots_per_second", "count"]), 1, || "number of snapshots shown by the first one".into());
    let truth: Shared = Default::default();
    let states = Arc::new(Mutex::new(vec![]));
    let beat = Beat::default();
    truth.lock().unwrap().snapshots = 1;
    truth.lock().unwrap().last_seen = None;
    driver.add_processor(Head(truth.clone(), beat.clone()));
    let mode = Arc::new(AtomicU64::new(0));
    let nscripted = r.usize(3);
    for _ in 0..nscripted {
        driver.add_processor(Scripted { truth: truth.clone(), mode: mode.clone(), rng: Rng::new(r.next()), inner: None });
    }
    let mut txs = vec![];
    for _ in 0..(if nscripted == 0 { 1 } else { r.usize(2) }) {
        let (tx, mut p) = make_pair(&mut r, None, true);
        p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().counter(Counter::new("x")).gauge(Gauge::new("y"))));
        txs.push(tx);
        driver.add_processor(Scripted { truth: truth.clone(), mode: mode.clone(), rng: Rng::new(r.next()), inner: Some(p) });
    }
    driver.add_snapshooter(Witness { truth: truth.clone(), states: states.clone() });
    snapshot_ok(c, &driver, false, true);
    let mut paused = true;
    let mut trace = String::new();
    let steps = 10 + r.usize(40);
    let mut alarms = [0u64; 4];
    for _ in 0..steps {
        match r.below(10) {
            0 | 1 => {
                if paused {
                    driver.resume();
                } else {
                    driver.pause();
                }
                snapshot_ok(c, &driver, false, false);
                paused = !paused;
                trace.push_str(if paused { "pause " } else { "resume " });
            }
            2 => {
                let m = match r.bool() {
                    true => *r.pick(&[0u64, 0, 1, 2, 3, 4, 8, 15]),
                    false => 16 + r.below(16),
                };
                mode.store(m, SeqCst);
                trace.push_str(&format!("mode{} ", m));
            }
            3 | 4 => {
                let d = match r.below(7) {
                    0 => 60 * clock::NS,
                    1 => 60 * clock::NS - 1_000_000,
                    2 => 60 * clock::NS + 1_000_000,
                    3 => 30 * clock::NS,
                    4 => r.below(1_000_000_000) as i64,
                    5 => r.below(120) as i64 * clock::NS,
                    _ => r.below(10_000) as i64 * clock::NS,
                };
                clock::global_advance(d);
                trace.push_str(&format!("+{}ms ", d / 1_000_000));
            }
            5 => {
                for tx in &txs {
                    let most = if r.chance(1, 15) { 5_000 } else { 200 };
                    for _ in 0..r.below(most) {
                        let o = Ob { label: 1u8, val: Val::I(r.range(0, 50)), ts: random_ts(&mut r) };
                        transmit_some_way(&mut r, tx, &o);
                    }
                }
                trace.push_str("send ");
            }
            6 if !paused => {
                wait_beats(c, &beat, 1 + r.below(20));
            }
            _ => {
                let asy = r.bool();
                let s = snapshot_ok(c, &driver, r.bool(), asy);
                let hi = clock::global_now();
                let wp: Vec<&str> = if named { vec!["d", "witness"] } else { vec!["witness"] };
                let idx = match s.u(&wp) {
                    Some(i) => i as usize,
                    None => c.fail(format!("the snapshooter of the driver is missing in {}", snap_str(&s))),
                };
                let (t, lo) = states.lock().unwrap()[idx].clone();
                let what = |n: &str| format!("{} after {} ({:?})", n, trace, t);
                c.eq(get(&s, &["collections_per_second", "count"]), runs0 + t.runs, || what("number of collections"));
                c.eq(get(&s, &["collection_times_us", "count"]), runs0 + t.runs, || what("number of collection times"));
                c.eq(get(&s, &["observations_processed_per_second", "count"]), t.processed, || what("observations processed"));
                c.eq(get(&s, &["observations_dropped_per_second", "count"]), t.dropped, || what("observations dropped"));
                c.eq(get(&s, &["instruments_updated_per_second", "count"]), t.updated, || what("instruments updated"));
                c.eq(get(&s, &["snapshots_per_second", "count"]), t.snapshots, || what("snapshots"));
                c.eq(get(&s, &["snapshots_times_us", "count"]), t.snapshots, || what("snapshot times"));
                if t.runs < 900 && t.max_processed > 0 {
                    c.eq(get(&s, &["observations_processed_per_collection", "max"]), t.max_processed, || what("most observations per collection"));
                }
                if t.runs < 900 && t.max_dropped > 0 {
                    c.eq(get(&s, &["observations_dropped_per_collection", "max"]), t.max_dropped, || what("most observations dropped per collection"));
                }
                if let Some(e) = t.enqueued {
                    let shown = s
                        .u(&path(&["observations_enqueued", "current"]))
                        .or_else(|| s.u(&path(&["observations_enqueued", "observations_enqueued"])));
                    c.eq(shown, Some(e), || what("observations enqueued"));
                }
                let min_60 = 60 * clock::NS;
                let dropped = s.b(&path(&["dropped_observations_alarm"]));
                let (on, off) = match t.last_drop {
                    Some((a, b)) => (hi - a < min_60, lo - b > min_60),
                    None => (false, true),
                };
                c.check(dropped.is_some() && !(on && dropped == Some(false)) && !(off && dropped == Some(true)), || {
                    format!("dropped observations alarm is {:?}, must be on {} off {}: {}", dropped, on, off, what("time"))
                });
                let (a, b) = t.last_seen.unwrap_or((start, start));
                let (off, on) = (hi - a < min_60, lo - b > min_60);
                let inactive = s.b(&path(&["inactivity_alarm"]));
                c.check(inactive.is_some() && !(on && inactive == Some(false)) && !(off && inactive == Some(true)), || {
                    format!("inactivity alarm is {:?}, must be on {} off {}: {}", inactive, on, off, what("time"))
                });
                alarms[0] += (dropped == Some(true)) as u64;
                alarms[1] += (dropped == Some(false)) as u64;
                alarms[2] += (inactive == Some(true)) as u64;
                alarms[3] += (inactive == Some(false)) as u64;
                count("snapshots_judged", 1);
                trace.push_str("snap ");
            }
        }
        c.log(trace.clone());
    }
    for (n, v) in ["drop_alarm_on", "drop_alarm_off", "inactivity_alarm_on", "inactivity_alarm_off"].iter().zip(alarms) {
        count(n, v);
    }
    count("runs", truth.lock().unwrap().runs);
    let tid = beat.tid.load(SeqCst);
    drop(driver);
    if tid != 0 {
        wait_for(c, "driver thread to end", || !thread_alive(tid));
    } else {
        wait_for(c, "driver thread to end", || threads_named("metrix") == 0);
    }
    clock::global_off();
    c.sig(&trace);
    c.sample(|| trace.clone());
}
/// What the only processor and the snapshooter of a driver know about its times.
#[derive(Clone, Default, Debug)]
struct Times {
    runs: u64,
    quiet: u64,
    max_run: i64,
    snapshots: u64,
    max_snapshot: i64,
    /// end and length of a snapshot that may have been put in this iteration
    snap: Option<(i64, i64)>,
    /// start, length, time of the iteration before, quiet
    last: Option<(i64, i64, i64, bool)>,
    ratio: Option<u64>,
    max_ratio: u64,
}
impl Times {
    fn next(&mut self) {
        if let Some((start, len, pre, quiet)) = self.last.take() {
            self.runs += 1;
            self.max_run = self.max_run.max(len);
            if quiet {
                let all = pre + (clock::global_now() - start);
                if all > 0 {
                    self.quiet += 1;
                    let x = (len as i128 * 1000 / all as i128) as u64;
                    self.ratio = Some(x);
                    self.max_ratio = self.max_ratio.max(x);
                }
            }
        }
    }
}
struct TimedRun {
    t: Arc<Mutex<Times>>,
    rng: Rng,
    beat: Beat,
    left: Arc<AtomicI64>,
}
impl PutsSnapshot for TimedRun {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for TimedRun {
    fn process(&mut self, m: usize, s: ProcessingStrategy) -> ProcessingOutcome {
        let mut t = self.t.lock().unwrap();
        t.next();
        let r = &mut self.rng;
        let now = clock::global_now();
        let pre = match t.snap.take() {
            Some((end, len)) if end == now => len,
            _ => 0,
        };
        let d = match r.below(6) {
            0 => 0,
            1 => r.below(2_000_000_000) as i64,
            2 => 10_000_000,
            3 => r.below(30_000_000) as i64,
            _ => r.below(10_000_000) as i64,
        };
        clock::global_advance(d);
        let o = ProcessingOutcome {
            processed: *r.pick(&[0usize, 0, 1, 30, 100, 101, 1000, 100_000]),
            dropped: *r.pick(&[0usize, 0, 0, 0, 1, 50, 5_000]),
            ..Default::default()
        };
        t.last = Some((now, d, pre, o.dropped == 0 && o.processed <= 100));
        self.left.fetch_sub(1, SeqCst);
        drop(t);
        self.beat.process(m, s);
        o
    }
}
struct TimedShot {
    t: Arc<Mutex<Times>>,
    len: Arc<AtomicI64>,
    states: Arc<Mutex<Vec<Times>>>,
}
impl PutsSnapshot for TimedShot {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        let mut t = self.t.lock().unwrap();
        t.next();
        let len = self.len.load(SeqCst);
        clock::global_advance(len);
        t.snapshots += 1;
        t.max_snapshot = t.max_snapshot.max(len);
        t.snap = Some((clock::global_now(), len));
        let mut v = self.states.lock().unwrap();
        into.push("witness", v.len() as u64);
        v.push(t.clone());
    }
}
/// Runs and snapshots that take known times.
fn c11_times(c: &mut Case) {
    let mut r = c.rng.clone();
    clock::global_on((1_000_000 + r.below(1000) as i64) * clock::NS);
    clock::SLEEP_ADVANCES.store(true, SeqCst);
    let mut driver = DriverBuilder::new("d").build();
    driver.pause();
    let s0 = snapshot_ok(c, &driver, false, false);
    let get = |s: &Snapshot, p: &[&str]| -> u64 {
        let mut path = vec!["d", "_metrix"];
        path.extend_from_slice(p);
        s.u(&path).unwrap_or_else(|| c.fail(format!("{:?} is missing in {}", path, snap_str(s))))
    };
    let runs0 = get(&s0, &["collection_times_us", "count"]);
    let quiet0 = get(&s0, &["iteration_update_ratio_per_mille_histo", "count"]);
    c.check(quiet0 <= runs0, || format!("{} update ratios for {} runs", quiet0, runs0));
    let t = Arc::new(Mutex::new(Times { snapshots: 1, ..Default::default() }));
    let states = Arc::new(Mutex::new(vec![]));
    let (left, len, beat) = (Arc::new(AtomicI64::new(0)), Arc::new(AtomicI64::new(0)), Beat::default());
    driver.add_processor(TimedRun { t: t.clone(), rng: Rng::new(r.next()), beat: beat.clone(), left: left.clone() });
    driver.add_snapshooter(TimedShot { t: t.clone(), len: len.clone(), states: states.clone() });
    snapshot_ok(c, &driver, false, false);
    let mut trace = String::new();
    // not paused again: sleeping while paused would count as part of the last iteration
    driver.resume();
    for _ in 0..(2 + r.below(8)) {
        left.store(r.below(8) as i64, SeqCst);
        wait_for(c, "runs", || left.load(SeqCst) <= 0);
        len.store(*r.pick(&[0i64, 1_000, 1_500, 999_999, 20_000_000, 3 * clock::NS]), SeqCst);
        let asy = r.bool();
        let s = snapshot_ok(c, &driver, r.bool(), asy);
        let idx = s.u(&["d", "witness"]).unwrap_or_else(|| c.fail(format!("no snapshooter in {}", snap_str(&s)))) as usize;
        let x = states.lock().unwrap()[idx].clone();
        let what = |n: &str| format!("{} ({:?}, {} runs and {} update ratios before) in {}", n, x, runs0, quiet0, snap_str(&s));
        c.eq(get(&s, &["collection_times_us", "count"]), runs0 + x.runs, || what("number of collection times"));
        c.eq(get(&s, &["snapshots_times_us", "count"]), x.snapshots, || what("number of snapshot times"));
        c.eq(get(&s, &["iteration_update_ratio_per_mille_histo", "count"]), quiet0 + x.quiet, || what("number of update ratios"));
        if x.runs + runs0 < 900 {
            // there may have been none so far
            if runs0 + x.runs > 0 {
                c.eq(get(&s, &["collection_times_us", "max"]), x.max_run as u64 / 1000, || what("longest collection"));
            }
            c.eq(get(&s, &["snapshots_times_us", "max"]), x.max_snapshot as u64 / 1000, || what("longest snapshot"));
            if x.quiet > 0 {
                let m = get(&s, &["iteration_update_ratio_per_mille_histo", "max"]);
                c.check(m.abs_diff(x.max_ratio) <= 1, || what("highest update ratio"));
            }
            count("times_judged", 1);
        }
        if let Some(want) = x.ratio {
            let p = ["d", "_metrix", "iteration_update_ratio_per_mille"];
            let shown = s.u(&[p[0], p[1], p[2], "current"]).or_else(|| s.u(&[p[0], p[1], p[2], p[2]])).or_else(|| s.u(&p));
            c.check(shown.map(|v| v.abs_diff(want) <= 1).unwrap_or(false), || what(&format!("update ratio is {:?}, expected {}", shown, want)));
        }
        trace.push_str(&format!("{} {} {:?}, ", x.runs, x.max_run, x.ratio));
    }
    count("timed_runs", t.lock().unwrap().runs);
    let tid = beat.tid.load(SeqCst);
    drop(driver);
    wait_for(c, "driver thread to end", || !thread_alive(tid));
    clock::SLEEP_ADVANCES.store(false, SeqCst);
    clock::global_off();
    c.sig(&trace);
    c.sample(|| trace.clone());
}
fn c11_disabled(c: &mut Case) {
    let mut r = c.rng.clone();
    let on = [r.bool(), r.bool()];
    let mk = |on: bool, r: &mut Rng, name: &str| match r.below(3) {
        0 => TelemetryDriver::new(Some(name.into()), None, None, ALL, on),
        1 => {
            let mut b = DriverBuilder::new(name);
            b.with_driver_metrics = on;
            b.build()
        }
        // the default is enabled
        _ if on => DriverBuilder::new(name).build(),
        _ => DriverBuilder::new(name).set_driver_metrics(false).build(),
    };
    let mut outer = mk(on[0], &mut r, "outer");
    let inner = mk(on[1], &mut r, "inner");
    outer.add_processor(inner.clone());
    let (tx, mut p) = make_pair(&mut r, None, true);
    let log = new_log();
    p.add_handler(Recorder::keyed(&log, "seen", 1));
    outer.add_processor(p);
    for _ in 0..r.below(20) {
        tx.observed_one_now(1);
    }
    for _ in 0..3 {
        wait_for(c, "observations", || tx.queue_size() == 0);
        let s = snapshot_ok(c, &outer, r.bool(), r.bool());
        c.check(s.at(&["outer", "_metrix"]).is_some() == on[0], || format!("metrics enabled {} but snapshot is {}", on[0], snap_str(&s)));
        c.check(s.at(&["outer", "inner", "_metrix"]).is_some() == on[1], || {
            format!("metrics of inner driver enabled {} but snapshot is {}", on[1], snap_str(&s))
        });
        let n = snap_str(&s).matches("\"_metrix\":").count();
        c.eq(n, on[0] as usize + on[1] as usize, || "number of _metrix groups".into());
        c.check(s.at(&["outer", "inner"]).is_some(), || "inner driver is missing".into());
    }
    c.sig(&format!("{:?}", on));
}
