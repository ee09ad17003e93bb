//! C04 isolation from the backend, C29 attached mounts, C30 bounded memory
use super::queue::{make_pair, transmit_some_way};
use crate::common::*;
use metrix::attached_mount::AttachedMount;

// ------------------------------------------------------------------ C04
#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Unmounted,
    ProcessorDropped,
    Running,
    Paused,
    HandlesDropped,
    PausedHandlesDropped,
    DiedHandler,
    DiedCockpitHandler,
    DiedPredicate,
    DiedModify,
    DiedInstrument,
    DiedProcess,
    DiedSnapshooter,
    DiedSnapshotOfProcessor,
    DiedPolled,
}
use State::*;
const STATES: [State; 15] = [
    Unmounted,
    ProcessorDropped,
    Running,
    Paused,
    HandlesDropped,
    PausedHandlesDropped,
    DiedHandler,
    DiedCockpitHandler,
    DiedPredicate,
    DiedModify,
    DiedInstrument,
    DiedProcess,
    DiedSnapshooter,
    DiedSnapshotOfProcessor,
    DiedPolled,
];
const BOMB: u8 = 15;

/// Panics everywhere once armed.
#[derive(Clone)]
struct Bomb(Arc<AtomicBool>);
impl Bomb {
    fn go(&self) {
        if self.0.load(SeqCst) {
            expected_panic()
        }
    }
}
impl PutsSnapshot for Bomb {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {
        self.go()
    }
}
impl ProcessesTelemetryMessages for Bomb {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.go();
        ProcessingOutcome::default()
    }
}
struct BombHandler;
impl PutsSnapshot for BombHandler {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl HandlesObservations for BombHandler {
    type Label = u8;
    fn handle_observation(&mut self, o: &Observation<u8>) -> usize {
        if *o.label() == BOMB {
            expected_panic()
        }
        0
    }
}
struct BombInstrument;
impl PutsSnapshot for BombInstrument {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl Updates for BombInstrument {
    fn update(&mut self, _: &Update) -> usize {
        expected_panic()
    }
}
impl Instrument for BombInstrument {}
/// Processor that waits until the gate opens.
#[derive(Clone)]
pub struct Gate {
    pub closed: Arc<AtomicBool>,
    pub waiting: Arc<AtomicU64>,
}
impl Gate {
    pub fn new(closed: bool) -> Gate {
        Gate { closed: Arc::new(AtomicBool::new(closed)), waiting: Arc::new(AtomicU64::new(0)) }
    }
}
impl PutsSnapshot for Gate {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
}
impl ProcessesTelemetryMessages for Gate {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.waiting.fetch_add(1, SeqCst);
        while self.closed.load(SeqCst) {
            nap();
        }
        ProcessingOutcome::default()
    }
}

fn arm(p: &mut TelemetryProcessor<u8>, s: State, armed: &Arc<AtomicBool>) {
    let b = Bomb(armed.clone());
    match s {
        DiedHandler => p.add_handler(BombHandler),
        DiedCockpitHandler => p.add_cockpit(Cockpit::new("bomb").handler(BombHandler)),
        DiedPredicate => p.add_cockpit(Cockpit::without_name().panel(Panel::new(LabelFilter::predicate(|l: &u8| {
            if *l == BOMB {
                expected_panic()
            }
            true
        })))),
        DiedModify => p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().counter(
            InstrumentAdapter::new(Counter::new("x")).modify_with(|l: &u8, u| {
                if *l == BOMB {
                    expected_panic()
                }
                u
            }),
        ))),
        DiedInstrument => {
            p.add_cockpit(Cockpit::without_name().panel(Panel::named(BOMB, "bombpanel").instrument(BombInstrument)))
        }
        DiedSnapshotOfProcessor => match armed.as_ref() as *const _ as usize & 64 {
            0 => p.add_snapshooter(b),
            _ => p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().snapshooter(b))),
        },
        DiedPolled => p.add_cockpit(
            Cockpit::new("polled").snapshooter(PollingInstrument::new_with_defaults("poll", b)),
        ),
        _ => {}
    }
}

/// Any operation on a transmitter.
fn tx_op(r: &mut Rng, tx: &TelemetryTransmitter<u8>, log: &Log<u8>) {
    let l = r.below(8) as u8;
    match r.below(16) {
        0 => drop(tx.add_handler(Recorder::new(log))),
        1 => drop(tx.add_cockpit(Cockpit::new("extra").panel(Panel::accept_all().counter(Counter::new("n"))))),
        2 => drop(tx.remove_cockpit("extra")),
        3 => drop(tx.add_panel_to_cockpit("extra", Panel::named(l, "pp"))),
        4 => drop(tx.remove_panel_from_cockpit("extra", "pp")),
        5 => {
            let t = tx.clone();
            t.observed_one_now(l);
        }
        6 => drop(tx.observed_now(l, 3)),
        7 => drop(tx.observed_one_value_now(l, 7u64).observed_one_value_now(l, Increment)),
        8 => drop(tx.observed_one_duration_now(l, ms(5))),
        9 => drop(tx.measure_time(l, Instant::now() - ms(1))),
        10 => {
            let _ = (tx.queue_size(), tx.is_queue_empty(), tx.is_queue_full(), tx.queue_capacity());
        }
        _ => {
            let o = Ob { label: l, val: any_val(r), ts: Instant::now() };
            transmit_some_way(r, tx, &o);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Expect {
    Ok,
    Err,
    Any,
}
fn judge_reply(c: &Case, got: &Result<Snapshot, metrix::driver::GetSnapshotError>, e: Expect, what: &str) {
    match (got, e) {
        (Ok(_), Expect::Err) => c.fail(format!("{}: a snapshot was returned by a dead driver", what)),
        (Err(_), Expect::Ok) => c.fail(format!("{}: a live driver refused a snapshot", what)),
        _ => {}
    }
}
fn driver_op(c: &Case, r: &mut Rng, d: &mut TelemetryDriver, e: Expect, what: &str) {
    match r.below(10) {
        0 | 1 => {
            let s = c.op(&format!("{}: synchronous snapshot", what), || d.snapshot(r.bool()));
            judge_reply(c, &s, e, what);
            count(if s.is_ok() { "snapshots_ok" } else { "snapshots_err" }, 1);
        }
        2 | 3 => {
            let f = d.snapshot_async(r.bool());
            let s = c.op(&format!("{}: asynchronous snapshot", what), || block_on(f));
            judge_reply(c, &s, e, what);
            count(if s.is_ok() { "snapshots_ok" } else { "snapshots_err" }, 1);
        }
        4 => {
            // never awaited
            drop(d.snapshot_async(r.bool()));
        }
        5 => c.op("change strategy", || d.change_processing_stragtegy(ALL)),
        6 => c.op("add processor", || d.add_processor(Beat::default())),
        7 => c.op("add snapshooter", || d.add_snapshooter(Shot::new("late", 1u64))),
        8 => {
            let s = c.op(&format!("{}: snapshot of the mounted handle", what), || shot_of(&d.clone(), r.bool()));
            if e == Expect::Err && !s.items.is_empty() {
                c.fail(format!("{}: a dead driver put {} into a snapshot", what, snap_str(&s)));
            }
            let _ = d.name();
        }
        _ => {
            c.op("process of the mounted handle", || {
                d.process(10, ALL);
            });
            let m = c.op("attached mount", || d.attached_mount(ProcessorMount::new("am")));
            m.put_processor(Beat::default());
            m.put_snapshooter(Shot::new("x", 1u64));
            let n = m.attach_mount::<Beat>(ProcessorMount::default());
            n.put_snapshooter(Shot::new("y", 1u64));
        }
    }
}
fn mount_op(r: &mut Rng, m: &mut AttachedMount) {
    match r.below(5) {
        0 => m.put_processor(Beat::default()),
        1 => m.put_snapshooter(Shot::new("put", 1u64)),
        2 => {
            let n = m.attach_mount::<Beat>(ProcessorMount::new("inner"));
            n.put_processor(Beat::default());
        }
        3 => m.add_processor(Beat::default()),
        _ => m.clone().add_snapshooter(Shot::new("added", 1u64)),
    }
}

pub fn c04() {
    rule("every operation of transmitters, mounts and drivers against a backend that is unmounted, paused, blocked, ended, dropped or killed by a panic of a component (in process, snapshot, handle or drop), at random moments, with crowds of synchronous and asynchronous requests pending whose callers wait in virtual time, and with backends that end while requests arrive; nothing may panic or hang in the caller, every answer is the documented one, siblings keep working. Distinct backend state, queue kind, operation sequence and timing class.");
    run("states", 200, 3000, 8, c04_states);
    run("pending", 100, 1500, 8, c04_pending);
    // the same with the sleeps of the drivers compressed
    clock::COMPRESS_US.store(300, SeqCst);
    run("states_fast", 1500, 20_000, 8, c04_states);
    run("pending_fast", 1500, 20_000, 8, c04_pending);
    run("blocked", 1000, 15_000, 8, c04_blocked);
    run("leaving", 3000, 40_000, 8, c04_leaving);
    run("nested", 600, 8_000, 8, c04_nested);
    clock::COMPRESS_US.store(0, SeqCst);
}
fn queue_kind(r: &mut Rng) -> (Option<usize>, bool) {
    match r.below(4) {
        0 => (None, true),
        1 => (Some(1 + r.usize(4)), false),
        2 => (Some(100_000), true),
        _ => (Some(1 + r.usize(4)), true),
    }
}
fn c04_states(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let state = *r.pick(&STATES);
    let (cap, block) = queue_kind(&mut r);
    let (tx, mut p) = make_pair(&mut r, cap, block);
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let armed = Arc::new(AtomicBool::new(false));
    arm(&mut p, state, &armed);
    let beat = Beat::default();
    let mut driver = if r.bool() { DriverBuilder::new("drv").build() } else { TelemetryDriver::default() };
    // an unrelated driver must not be impressed by anything
    let (other_tx, mut other_p) = TelemetryProcessor::<u8>::new_pair("other");
    let other_log = new_log();
    other_p.add_handler(Recorder::new(&other_log));
    let mut other = TelemetryDriver::default();
    let other_beat = Beat::default();
    other.add_processor(other_p);
    other.add_processor(other_beat.clone());

    driver.add_processor(beat.clone());
    let mut mount = driver.attached_mount(ProcessorMount::new("mount"));
    let mut parked = None;
    if r.bool() {
        // give it something before
        for _ in 0..r.below(4) {
            if cap.map_or(true, |n| tx.queue_size() + 1 < n) || !block {
                tx_op(&mut r, &tx, &log);
            }
        }
    }
    match state {
        Unmounted => parked = Some(p),
        ProcessorDropped => drop(p),
        DiedSnapshooter => {
            driver.add_snapshooter(Bomb(armed.clone()));
            driver.add_processor(p);
        }
        _ if r.chance(1, 4) => {
            let mut m = ProcessorMount::new("outer");
            m.add_processor(p);
            driver.add_processor(m);
        }
        _ if r.chance(1, 3) => mount.put_processor(p),
        _ => driver.add_processor(p),
    }
    if state == DiedProcess {
        driver.add_processor(Bomb(armed.clone()));
    }
    wait_beats(c, &beat, 2);
    let tid = beat.tid.load(SeqCst);
    let settle = r.chance(2, 3);
    // now make it so
    let mut handle = Some(driver);
    let mut dead = false;
    match state {
        Unmounted | ProcessorDropped | Running => {}
        Paused => handle.as_ref().unwrap().pause(),
        HandlesDropped => {
            handle = None;
            dead = true;
        }
        PausedHandlesDropped => {
            handle.as_ref().unwrap().pause();
            handle = None;
            dead = true;
        }
        DiedHandler | DiedCockpitHandler | DiedPredicate | DiedModify | DiedInstrument => {
            // a send that may find the queue full when sends are not blocking
            if block {
                c.op("transmit to a live driver", || drop(tx.observed_one_now(BOMB)));
            } else {
                let bt = beat.count();
                while thread_alive(tid) && beat.count() < bt + 50 {
                    tx.observed_one_now(BOMB);
                    std::thread::sleep(ms(1));
                }
            }
            dead = true;
        }
        DiedProcess => {
            armed.store(true, SeqCst);
            dead = true;
        }
        DiedSnapshooter | DiedSnapshotOfProcessor | DiedPolled => {
            // the mounted processor must be known to the driver before the snapshot
            wait_beats(c, &beat, 4);
            armed.store(true, SeqCst);
            let d = handle.as_ref().unwrap();
            let res = if r.bool() {
                c.op("synchronous snapshot that kills the driver", || d.snapshot(false))
            } else {
                let f = d.snapshot_async(true);
                c.op("asynchronous snapshot that kills the driver", || block_on(f))
            };
            judge_reply(c, &res, Expect::Err, "snapshot during which a component panics");
            dead = true;
        }
    }
    let expect = if !dead {
        Expect::Ok
    } else if settle {
        c.op("waiting for the driver thread to end", || {
            while thread_alive(tid) {
                nap();
            }
        });
        Expect::Err
    } else {
        Expect::Any
    };
    // operations from several threads at once
    let nth = 1 + r.usize(3);
    let unserviced = matches!(state, Unmounted | Paused);
    let limit = match cap {
        Some(n) if block && unserviced => n.saturating_sub(tx.queue_size()),
        _ => usize::MAX,
    };
    let budget = Arc::new(AtomicI64::new(limit.min(1 << 30) as i64));
    let what = format!("{:?} {}", state, if settle { "settled" } else { "just now" });
    let slow = unserviced && limit < 10;
    std::thread::scope(|s| {
        for k in 0..nth {
            let (tx, mut mount, mut handle, log, budget, what) =
                (tx.clone(), mount.clone(), handle.clone(), log.clone(), budget.clone(), what.clone());
            let mut r = Rng::new(r.next() ^ k as u64);
            let case = &*c;
            let b = c.beater();
            s.spawn(move || {
                b.adopt();
                for _ in 0..10 + r.below(30) {
                    b.beat();
                    match r.below(8) {
                        0 => mount_op(&mut r, &mut mount),
                        1 | 2 => {
                            if let Some(d) = handle.as_mut() {
                                driver_op(case, &mut r, d, expect, &what);
                            }
                        }
                        _ => {
                            // two messages at most
                            if budget.fetch_sub(2, SeqCst) >= 2 {
                                case.op(&format!("{}: transmitter operation", what), || tx_op(&mut r, &tx, &log));
                                count("transmitter_operations", 1);
                            }
                        }
                    }
                }
            });
        }
    });
    if let Some(d) = handle.as_ref() {
        if r.bool() {
            c.op("pause and resume", || {
                d.pause();
                d.resume();
            });
        }
    }
    // the other driver is alive and well
    let n = 1 + r.below(50);
    let had = other_log.lock().unwrap().len() as u64;
    for _ in 0..n {
        other_tx.observed_one_now(1);
    }
    wait_for(c, "another driver handles its observations", || other_log.lock().unwrap().len() as u64 >= had + n);
    let s = c.op("snapshot of another driver", || other.snapshot(false));
    judge_reply(c, &s, Expect::Ok, "another driver");
    c.sig(&format!("{} {:?} {} {} {}", what, cap.is_some(), block, nth, slow));
    count(&format!("state_{:?}", state), 1);
    // whatever is left over may be dropped in any order
    match r.below(3) {
        0 => {
            c.op("dropping the processor", || drop(parked));
            c.op("dropping the driver", || drop(handle));
        }
        1 => {
            c.op("dropping the transmitter", || drop(tx));
            c.op("dropping the driver", || drop(handle));
        }
        _ => c.op("dropping everything", || {
            drop(handle);
            drop(mount);
        }),
    }
}

/// Requests that are pending when the backend goes away.
fn c04_pending(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let gate = Gate::new(true);
    let armed = Arc::new(AtomicBool::new(false));
    let mut driver = if r.bool() { DriverBuilder::new("drv").build() } else { TelemetryDriver::default() };
    let end = r.below(4); // 0 dies in process, 1 dies in the first snapshot, 2 handles dropped, 3 nothing happens
    let bomb = Bomb(armed.clone());
    driver.add_processor(gate.clone());
    if end == 1 {
        driver.add_snapshooter(bomb.clone());
    } else {
        driver.add_processor(bomb.clone());
    }
    let before = r.usize(4);
    // requests answered before the gate is reached or pending behind it
    let mut futs = vec![];
    for _ in 0..before {
        futs.push((driver.snapshot_async(r.bool()), Expect::Any));
    }
    wait_for(c, "driver reaches the gate", || gate.waiting.load(SeqCst) > 0);
    // the driver is stuck in the run: everything requested now is pending
    let crowd = r.chance(1, 25);
    let k = 1 + if crowd { r.usize(600) } else { r.usize(8) };
    for _ in 0..k {
        futs.push((
            driver.snapshot_async(r.bool()),
            match end {
                0 | 1 => Expect::Err,
                2 => Expect::Any,
                _ => Expect::Ok,
            },
        ));
    }
    let nsync = if crowd { r.usize(40) } else { r.usize(4) };
    let b = c.beater();
    let mut joins = vec![];
    let asked = Arc::new(AtomicU64::new(0));
    for i in 0..nsync {
        let (d, b, asked) = (driver.clone(), b.clone(), asked.clone());
        let (descr, quick) = (r.bool(), r.bool());
        joins.push(
            std::thread::Builder::new()
                .name(format!("sync{}", i))
                .spawn(move || {
                    b.adopt();
                    if quick {
                        // minutes pass for this one
                        clock::impatient();
                    }
                    asked.fetch_add(1, SeqCst);
                    d.snapshot(descr)
                })
                .unwrap(),
        );
    }
    wait_for(c, "threads asking for snapshots", || asked.load(SeqCst) == nsync as u64);
    if r.bool() {
        let most = if nsync > 0 && r.chance(1, 20) { 200_000 } else { 3000 };
        std::thread::sleep(Duration::from_micros(r.below(most)));
    }
    // dropping some futures early must not disturb the rest
    if r.bool() && futs.len() > 1 {
        let i = r.usize(futs.len());
        drop(futs.remove(i));
    }
    armed.store(end < 2, SeqCst);
    let mut driver = Some(driver);
    if end == 2 && nsync == 0 {
        driver = None;
    }
    gate.closed.store(false, SeqCst);
    for (i, (f, e)) in futs.into_iter().enumerate() {
        let res = c.op(&format!("pending asynchronous request {} (end {})", i, end), || block_on(f));
        judge_reply(c, &res, e, &format!("pending asynchronous request {} with end {}", i, end));
        count(if res.is_ok() { "pending_ok" } else { "pending_err" }, 1);
    }
    for j in joins {
        let res = c.op(&format!("pending synchronous request (end {})", end), || j.join());
        match res {
            Ok(res) => {
                let e = if end < 2 { Expect::Err } else { Expect::Ok };
                // a request of another thread may have come after the death: still an error
                judge_reply(c, &res, e, &format!("pending synchronous request with end {}", end));
                count(if res.is_ok() { "pending_ok" } else { "pending_err" }, 1);
            }
            Err(_) => c.fail("a thread asking for a snapshot panicked"),
        }
    }
    if let Some(d) = driver.as_ref() {
        // later requests
        let res = c.op("request afterwards", || d.snapshot(false));
        judge_reply(c, &res, if end < 2 { Expect::Err } else { Expect::Ok }, "request afterwards");
        let f = d.snapshot_async(false);
        let res = c.op("asynchronous request afterwards", || block_on(f));
        judge_reply(c, &res, if end < 2 { Expect::Err } else { Expect::Ok }, "asynchronous request afterwards");
    }
    c.sig(&format!("{} {} {} {}", end, before, k, nsync));
    c.sample(|| format!("end {} with {} async and {} sync requests pending", end, k, nsync));
}

/// The handles go while requests are pending, from any state, with the driver delayed anywhere.
fn c04_leaving(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let mut driver = if r.bool() { DriverBuilder::new("drv").build() } else { TelemetryDriver::default() };
    let beat = Beat::default();
    driver.add_processor(beat.clone());
    let (tx, mut p) = make_pair(&mut r, None, true);
    p.add_handler(Counter::new("n").for_all_labels());
    driver.add_processor(p);
    let mut trace = String::new();
    let mut futs = vec![];
    let steps = 1 + r.below(8);
    for _ in 0..steps {
        trace.push_str(match r.below(8) {
            0 => {
                driver.pause();
                "pause "
            }
            1 => {
                driver.resume();
                "resume "
            }
            2 => {
                let s = c.op("snapshot of a live driver", || driver.snapshot(false));
                judge_reply(c, &s, Expect::Ok, "live driver");
                "snapshot "
            }
            3 => {
                jitter(&mut r);
                "wait "
            }
            4 => {
                driver.change_processing_stragtegy(ALL);
                driver.add_snapshooter(Shot::new("s", 1u64));
                "add "
            }
            5 => {
                tx.observed_one_now(1);
                "observe "
            }
            _ => {
                futs.push(driver.snapshot_async(r.bool()));
                "async "
            }
        });
    }
    let n = r.usize(4);
    let mut joins = vec![];
    for _ in 0..n {
        let (d, b, two, descr) = (driver.clone(), c.beater(), r.bool(), r.bool());
        joins.push(std::thread::spawn(move || {
            b.adopt();
            let f = if two { Some(d.snapshot_async(descr)) } else { None };
            let res = d.snapshot(descr);
            // maybe the last one
            drop(d);
            (res.is_ok(), f.map(|f| block_on(f).is_ok()))
        }));
    }
    if r.bool() {
        jitter(&mut r);
    }
    drop(driver);
    let k = futs.len();
    for f in futs {
        let res = c.op("request pending when the handles were dropped", || block_on(f));
        count(if res.is_ok() { "pending_ok" } else { "pending_err" }, 1);
    }
    for j in joins {
        match c.op("synchronous request while another handle is dropped", || j.join()) {
            // it held a handle itself
            Ok((sync, _)) => c.check(sync, || format!("a driver with a handle refused a snapshot after {}", trace)),
            Err(_) => c.fail("a thread asking for a snapshot panicked"),
        }
    }
    // sending goes on
    for _ in 0..10 {
        c.op("sending afterwards", || drop(tx.observed_one_now(1)));
    }
    trace.push_str(&format!("{} {}", n, k));
    c.sig(&trace);
}

/// Senders blocked on a full queue are released when the queue is serviced or goes away.
fn c04_blocked(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let cap = r.usize(4) + 1;
    let (tx, mut p) = make_pair(&mut r, Some(cap), true);
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let gate = Gate::new(true);
    let armed = Arc::new(AtomicBool::new(false));
    // 0 the unmounted processor is dropped, 1 driver dies, 2 driver handles dropped, 3 goes on, 4 paused then resumed,
    // 5 paused then handle dropped
    let end = r.below(6);
    let mut driver = TelemetryDriver::default();
    let beat = Beat::default();
    driver.add_processor(beat.clone());
    let mut p = Some(p);
    match end {
        0 => {}
        4 | 5 => {
            driver.add_processor(p.take().unwrap());
            driver.pause();
            let s = c.op("snapshot of a paused driver", || driver.snapshot(false));
            judge_reply(c, &s, Expect::Ok, "paused driver");
        }
        _ => {
            driver.add_processor(gate.clone());
            driver.add_processor(Bomb(armed.clone()));
            driver.add_processor(p.take().unwrap());
            wait_for(c, "driver reaches the gate", || gate.waiting.load(SeqCst) > 0);
        }
    }
    let nth = 1 + r.usize(3);
    let per = cap as u64 + 1 + r.below(5);
    let b = c.beater();
    let done = Arc::new(AtomicU64::new(0));
    let mut joins = vec![];
    for t in 0..nth {
        let (tx, b, done) = (tx.clone(), b.clone(), done.clone());
        joins.push(std::thread::spawn(move || {
            b.adopt();
            for k in 0..per {
                tx.observed_one_value_now(t as u8, k);
            }
            done.fetch_add(1, SeqCst);
        }));
    }
    wait_for(c, "queue to fill up", || tx.queue_size() == cap);
    if r.bool() {
        std::thread::sleep(Duration::from_micros(r.below(3000)));
    }
    c.check(done.load(SeqCst) == 0, || "a blocking sender returned although its messages cannot be queued".into());
    let mut driver = Some(driver);
    match end {
        0 => drop(p.take()),
        1 => {
            armed.store(true, SeqCst);
            gate.closed.store(false, SeqCst);
        }
        2 => {
            driver = None;
            gate.closed.store(false, SeqCst);
        }
        3 => gate.closed.store(false, SeqCst),
        4 => driver.as_ref().unwrap().resume(),
        _ => driver = None,
    }
    wait_for(c, &format!("blocked senders to return (end {})", end), || done.load(SeqCst) == nth as u64);
    for j in joins {
        if j.join().is_err() {
            c.fail("a blocked sender panicked");
        }
    }
    if end == 3 || end == 4 {
        wait_for(c, "everything sent to be handled", || log.lock().unwrap().len() as u64 == per * nth as u64);
    }
    // and later sends do not block either, whether it is alive or gone
    for _ in 0..cap * 2 {
        c.op("sending afterwards", || drop(tx.observed_one_now(1)));
    }
    count("blocked_senders_released", nth as u64);
    drop(driver);
    c.sig(&format!("{} {} {} {}", end, cap, nth, per));
}

/// Outer and inner drivers die independently.
fn c04_nested(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let (tx_i, mut p_i) = TelemetryProcessor::<u8>::new_pair("pi");
    let (tx_o, mut p_o) = TelemetryProcessor::<u8>::new_pair("po");
    let (log_i, log_o) = (new_log(), new_log());
    p_i.add_handler(Recorder::keyed(&log_i, "seen", 1));
    p_o.add_handler(Recorder::keyed(&log_o, "seen", 1));
    let (armed_i, armed_o) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
    let (beat_i, beat_o) = (Beat::default(), Beat::default());
    let mut inner = DriverBuilder::new("inner").set_driver_metrics(r.bool()).build();
    let mut outer = DriverBuilder::new("outer").set_driver_metrics(r.bool()).build();
    inner.add_processor(beat_i.clone());
    inner.add_processor(p_i);
    let in_snapshot = r.bool();
    if in_snapshot {
        inner.add_snapshooter(Bomb(armed_i.clone()));
    } else {
        inner.add_processor(Bomb(armed_i.clone()));
    }
    outer.add_processor(beat_o.clone());
    outer.add_processor(Bomb(armed_o.clone()));
    outer.add_processor(inner.clone());
    outer.add_processor(p_o);
    wait_beats(c, &beat_i, 3);
    wait_beats(c, &beat_o, 3);
    let s = c.op("snapshot", || outer.snapshot(false));
    match s {
        Ok(s) => c.check(s.u(&["outer", "inner", "pi", "seen"]).is_some() && s.u(&["outer", "po", "seen"]).is_some(), || {
            format!("snapshot of nested drivers lacks a part: {}", snap_str(&s))
        }),
        Err(_) => c.fail("live driver refused a snapshot"),
    }
    let kill_inner = r.bool();
    if kill_inner {
        let tid = beat_i.tid.load(SeqCst);
        armed_i.store(true, SeqCst);
        if in_snapshot {
            // the snapshot of the outer driver kills the inner one, but is answered
            let s = c.op("snapshot of the outer driver that kills the inner one", || outer.snapshot(false));
            judge_reply(c, &s, Expect::Ok, "outer driver whose inner driver dies");
        }
        if r.bool() {
            wait_for(c, "inner driver dies", || !thread_alive(tid));
        }
        for _ in 0..5 {
            tx_i.observed_one_now(1);
            tx_o.observed_one_now(1);
        }
        wait_for(c, "outer driver goes on after the inner one died", || log_o.lock().unwrap().len() == 5);
        wait_for(c, "inner driver dies", || !thread_alive(tid));
        let s = c.op("snapshot of the outer driver after the inner one died", || outer.snapshot(true));
        match s {
            Ok(s) => {
                c.check(s.at(&["outer", "inner"]).is_none(), || "a dead driver shows something".into());
                c.eq(s.u(&["outer", "po", "seen"]), Some(5), || "part of the outer driver".into());
            }
            Err(_) => c.fail("the outer driver refused a snapshot after the inner one died"),
        }
        let s = c.op("snapshot of the inner driver", || inner.snapshot(false));
        judge_reply(c, &s, Expect::Err, "dead inner driver");
    } else {
        let tid = beat_o.tid.load(SeqCst);
        let drop_it = r.bool();
        if drop_it {
            drop(outer);
        } else {
            armed_o.store(true, SeqCst);
        }
        if r.bool() {
            wait_for(c, "outer driver ends", || !thread_alive(tid));
        }
        for _ in 0..5 {
            tx_i.observed_one_now(1);
            tx_o.observed_one_now(1);
        }
        wait_for(c, "inner driver goes on after the outer one ended", || log_i.lock().unwrap().len() == 5);
        let s = c.op("snapshot of the inner driver", || inner.snapshot(false));
        match s {
            Ok(s) => c.eq(s.u(&["inner", "pi", "seen"]), Some(5), || "part of the inner driver".into()),
            Err(_) => c.fail("the inner driver refused a snapshot after the outer one ended"),
        }
    }
    c.sig(&format!("{} {}", kill_inner, in_snapshot));
    count("nested", 1);
}

// ------------------------------------------------------------------ C29
/// Processor that records its calls in a common sequence.
struct Seq {
    id: u64,
    seq: Arc<Mutex<Vec<(u64, usize, ProcessingStrategy)>>>,
    n: u64,
    /// puts another one somewhere when it is processed first
    puts: Option<(AttachedMount, u64)>,
}
impl PutsSnapshot for Seq {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(format!("p{}", self.id), self.n);
    }
}
impl ProcessesTelemetryMessages for Seq {
    fn process(&mut self, max: usize, strategy: ProcessingStrategy) -> ProcessingOutcome {
        self.n += 1;
        self.seq.lock().unwrap().push((self.id, max, strategy));
        if let Some((h, id)) = self.puts.take() {
            h.put_processor(Seq { id, seq: self.seq.clone(), n: 0, puts: None });
        }
        ProcessingOutcome { processed: 1, dropped: 0, instruments_updated: 2, observations_enqueued: 3 }
    }
}
#[derive(Clone, Copy)]
enum MItem {
    Seq(u64),
    Real(usize),
    Mount(usize),
}
enum MMsg {
    Proc(MItem),
    Shot(String),
}
#[derive(Default)]
struct MNode {
    name: Option<String>,
    procs: Vec<MItem>,
    shots: Vec<String>,
    pending: VecDeque<MMsg>,
}
struct Real {
    tx: TelemetryTransmitter<u8>,
    queued: usize,
    seen: u64,
}
#[derive(Default)]
struct MModel {
    nodes: Vec<MNode>,
    reals: Vec<Real>,
    seq: Vec<u64>,
    calls: HashMap<u64, u64>,
    /// what is put where when the one with this id is processed first
    puts: HashMap<u64, (usize, u64)>,
    out: (usize, usize, usize, usize),
    next: u64,
}
impl MModel {
    fn pass(&mut self, node: usize, max: usize, drops: bool) {
        while let Some(m) = self.nodes[node].pending.pop_front() {
            match m {
                MMsg::Proc(p) => self.nodes[node].procs.push(p),
                MMsg::Shot(s) => self.nodes[node].shots.push(s),
            }
        }
        for it in self.nodes[node].procs.clone() {
            match it {
                MItem::Seq(id) => {
                    self.seq.push(id);
                    *self.calls.entry(id).or_insert(0) += 1;
                    self.out.0 += 1;
                    self.out.1 += 2;
                    self.out.2 += 3;
                    if let Some((node, new)) = self.puts.remove(&id) {
                        self.nodes[node].pending.push_back(MMsg::Proc(MItem::Seq(new)));
                    }
                }
                MItem::Real(i) => {
                    let x = &mut self.reals[i];
                    let n = x.queued.min(max);
                    x.queued -= n;
                    self.out.2 += x.queued;
                    if drops {
                        self.out.3 += n;
                    } else {
                        x.seen += n as u64;
                        self.out.0 += n;
                        self.out.1 += n;
                    }
                }
                MItem::Mount(m) => self.pass(m, max, drops),
            }
        }
    }
    fn show(&self, node: usize, into: &mut Snapshot) {
        let mut own = Snapshot::default();
        for it in &self.nodes[node].procs {
            match *it {
                MItem::Seq(id) => own.items.push((format!("p{}", id), (*self.calls.get(&id).unwrap_or(&0)).into())),
                MItem::Real(i) => {
                    let mut g = Snapshot::default();
                    g.items.push(("seen".into(), self.reals[i].seen.into()));
                    own.items.push((format!("r{}", i), ItemKind::Snapshot(g)));
                }
                MItem::Mount(m) => self.show(m, &mut own),
            }
        }
        for s in &self.nodes[node].shots {
            own.items.push((s.clone(), 1u64.into()));
        }
        match &self.nodes[node].name {
            Some(n) => into.items.push((n.clone(), ItemKind::Snapshot(own))),
            None => into.items.extend(own.items),
        }
    }
}

pub fn c29() {
    rule("random trees of attached mounts whose handles are used from outside and from inside passes (puts of processors, mounts and snapshooters, drops of handles), passes with random limits and strategies, snapshots in between; a tree model predicts every report, every snapshot and the order of the members; live runs do the same on drivers. Distinct sequence of puts, passes and drops.");
    run("model", 25_000, 500_000, 8, c29_model);
    run("live", 40, 500, 6, c29_live);
    clock::COMPRESS_US.store(300, SeqCst);
    run("live_fast", 1_200, 20_000, 6, c29_live);
    clock::COMPRESS_US.store(0, SeqCst);
}

type SeqLog = Arc<Mutex<Vec<(u64, usize, ProcessingStrategy)>>>;
/// Any processor: instrumented, real, or a plain mount with things inside
enum AnyProc {
    Seq(Seq),
    Real(TelemetryProcessor<u8>),
    Mount(ProcessorMount),
}
fn c29_proc(r: &mut Rng, m: &mut MModel, seq: &SeqLog, handles: &mut Vec<(AttachedMount, usize)>, depth: u32) -> (AnyProc, MItem) {
    match r.below(if depth > 0 { 5 } else { 3 }) {
        0 | 1 => {
            m.next += 1;
            let id = m.next;
            let mut puts = None;
            if !handles.is_empty() && r.chance(1, 6) {
                let (h, node) = &handles[r.usize(handles.len())];
                m.next += 1;
                m.puts.insert(id, (*node, m.next));
                puts = Some((h.clone(), m.next));
                count("put_while_processing", 1);
            }
            (AnyProc::Seq(Seq { id, seq: seq.clone(), n: 0, puts }), MItem::Seq(id))
        }
        2 => {
            let i = m.reals.len();
            let (tx, mut p) = TelemetryProcessor::<u8>::new_pair(format!("r{}", i));
            p.add_handler(Recorder::keyed(&new_log(), "seen", 1));
            m.reals.push(Real { tx, queued: 0, seen: 0 });
            (AnyProc::Real(p), MItem::Real(i))
        }
        _ => {
            let (pm, i) = c29_mount(r, m, seq, handles, depth - 1);
            (AnyProc::Mount(pm), MItem::Mount(i))
        }
    }
}
fn c29_mount(r: &mut Rng, m: &mut MModel, seq: &SeqLog, handles: &mut Vec<(AttachedMount, usize)>, depth: u32) -> (ProcessorMount, usize) {
    let i = m.nodes.len();
    m.nodes.push(MNode::default());
    let mut pm = if r.chance(2, 3) {
        let n = format!("m{}", i);
        m.nodes[i].name = Some(n.clone());
        ProcessorMount::new(n)
    } else {
        ProcessorMount::default()
    };
    for _ in 0..r.below(3) {
        let (p, it) = c29_proc(r, m, seq, handles, depth);
        add_any(&mut pm, p);
        m.nodes[i].procs.push(it);
    }
    for _ in 0..r.below(2) {
        m.next += 1;
        let k = format!("s{}", m.next);
        pm.add_snapshooter(Shot::new(k.clone(), 1u64));
        m.nodes[i].shots.push(k);
    }
    if depth > 0 && r.chance(1, 4) {
        // an attached mount within the mount
        let (inner, j) = c29_mount(r, m, seq, handles, depth - 1);
        let h = pm.attached_mount(inner);
        m.nodes[i].procs.push(MItem::Mount(j));
        handles.push((h, j));
    }
    (pm, i)
}
fn add_any(a: &mut impl AggregatesProcessors, p: AnyProc) {
    match p {
        AnyProc::Seq(x) => a.add_processor(x),
        AnyProc::Real(x) => a.add_processor(x),
        AnyProc::Mount(x) => a.add_processor(x),
    }
}
fn put_any(a: &AttachedMount, p: AnyProc) {
    match p {
        AnyProc::Seq(x) => a.put_processor(x),
        AnyProc::Real(x) => a.put_processor(x),
        AnyProc::Mount(x) => a.put_processor(x),
    }
}
fn c29_model(c: &mut Case) {
    let mut r = c.rng.clone();
    let seq: SeqLog = Arc::new(Mutex::new(vec![]));
    let mut m = MModel::default();
    let mut handles = vec![];
    let (mut root, ri) = c29_mount(&mut r, &mut m, &seq, &mut handles, 2);
    let mut trace = String::new();
    let steps = 10 + r.usize(60);
    let mut puts = 0u64;
    for _ in 0..steps {
        let k = r.below(20);
        let max = *r.pick(&[0usize, 1, 2, 3, 10, 1000, 1 << 32, usize::MAX]);
        match k {
            0 => {
                let (pm, j) = c29_mount(&mut r, &mut m, &seq, &mut handles, 1);
                let h = root.attached_mount(pm);
                m.nodes[ri].procs.push(MItem::Mount(j));
                handles.push((h, j));
                trace.push_str(&format!("attach {} ", j));
            }
            1..=5 if !handles.is_empty() => {
                let h = r.usize(handles.len());
                let node = handles[h].1;
                let (p, it) = c29_proc(&mut r, &mut m, &seq, &mut handles, 1);
                if r.bool() {
                    put_any(&handles[h].0, p);
                } else {
                    add_any(&mut handles[h].0, p);
                }
                m.nodes[node].pending.push_back(MMsg::Proc(it));
                puts += 1;
                trace.push_str(&format!("put into {} ", node));
            }
            6 | 7 if !handles.is_empty() => {
                let h = r.usize(handles.len());
                m.next += 1;
                let key = format!("s{}", m.next);
                if r.bool() {
                    handles[h].0.put_snapshooter(Shot::new(key.clone(), 1u64));
                } else {
                    handles[h].0.add_snapshooter(Shot::new(key.clone(), 1u64));
                }
                let node = handles[h].1;
                m.nodes[node].pending.push_back(MMsg::Shot(key));
                puts += 1;
                trace.push_str(&format!("shot into {} ", node));
            }
            8 if r.chance(1, 20) && !handles.is_empty() => {
                // many at once
                let h = r.usize(handles.len());
                let node = handles[h].1;
                let k = 30 + r.usize(300);
                for _ in 0..k {
                    if r.chance(1, 4) {
                        m.next += 1;
                        let key = format!("s{}", m.next);
                        handles[h].0.put_snapshooter(Shot::new(key.clone(), 1u64));
                        m.nodes[node].pending.push_back(MMsg::Shot(key));
                    } else {
                        let (p, it) = c29_proc(&mut r, &mut m, &seq, &mut handles, 0);
                        put_any(&handles[h].0, p);
                        m.nodes[node].pending.push_back(MMsg::Proc(it));
                    }
                }
                puts += k as u64;
                trace.push_str(&format!("put {} into {} ", k, node));
            }
            8 | 9 if !handles.is_empty() => {
                let h = r.usize(handles.len());
                let node = handles[h].1;
                let (pm, j) = c29_mount(&mut r, &mut m, &seq, &mut handles, 1);
                let nh = if r.bool() {
                    handles[h].0.attach_mount::<Beat>(pm)
                } else {
                    handles[h].0.attached_mount(pm)
                };
                m.nodes[node].pending.push_back(MMsg::Proc(MItem::Mount(j)));
                handles.push((nh, j));
                puts += 1;
                trace.push_str(&format!("attach {} to {} ", j, node));
            }
            10 if !handles.is_empty() => {
                let h = r.usize(handles.len());
                let x = handles[h].clone();
                handles.push(x);
            }
            11 if !handles.is_empty() => {
                let h = r.usize(handles.len());
                let x = handles.swap_remove(h);
                trace.push_str(&format!("drop {} ", x.1));
            }
            12..=14 if !m.reals.is_empty() => {
                let i = r.usize(m.reals.len());
                let x = &mut m.reals[i];
                for _ in 0..r.below(4) {
                    x.tx.observed_one_now(1);
                    x.queued += 1;
                }
            }
            15 => {
                let mut want = Snapshot::default();
                m.show(ri, &mut want);
                let got = shot_of(&root, r.bool());
                c.check(got == want, || {
                    format!("snapshot of the mount is {}, expected {} after {}", snap_str(&got), snap_str(&want), trace)
                });
                trace.push_str("snap ");
            }
            _ => {
                c29_pass(c, &mut r, &mut root, ri, &mut m, &seq, max, &trace);
                trace.push_str("pass ");
            }
        }
        c.sig(&format!("{} {}", k, max % 11));
    }
    // the group goes on without handles
    handles.clear();
    for _ in 0..3 {
        c29_pass(c, &mut r, &mut root, ri, &mut m, &seq, usize::MAX, &trace);
    }
    let mut want = Snapshot::default();
    m.show(ri, &mut want);
    let got = shot_of(&root, false);
    c.check(got == want, || format!("final snapshot is {}, expected {} after {}", snap_str(&got), snap_str(&want), trace));
    count("puts", puts);
    if puts == 0 {
        c.trivial();
    }
    c.sample(|| trace.clone());
}
fn c29_pass(c: &Case, r: &mut Rng, root: &mut ProcessorMount, ri: usize, m: &mut MModel, seq: &SeqLog, max: usize, trace: &str) {
    m.seq.clear();
    m.out = (0, 0, 0, 0);
    seq.lock().unwrap().clear();
    let strategy = match r.below(6) {
        0 => ProcessingStrategy::DropAll,
        1 => ProcessingStrategy::DropOlderThan { max_age: secs(100_000 + r.below(9)), drop_deltas: r.bool() },
        _ => ALL,
    };
    let o = root.process(max, strategy);
    m.pass(ri, max, strategy == ProcessingStrategy::DropAll);
    let got: Vec<u64> = seq.lock().unwrap().iter().map(|x| x.0).collect();
    c.check(got == m.seq, || format!("a pass with {:?} processed {:?}, expected {:?} after {}", strategy, got, m.seq, trace));
    c.check(seq.lock().unwrap().iter().all(|x| x.1 == max && x.2 == strategy), || {
        "a mounted processor was given another limit or strategy".into()
    });
    c.eq((o.processed, o.instruments_updated, o.observations_enqueued, o.dropped), m.out, || format!("outcome of a pass with {:?} after {}", strategy, trace));
    count("passes", 1);
}

/// Puts from many threads into a group of a running driver.
fn c29_live(c: &mut Case) {
    let mut r = c.rng.clone();
    hold_ups(&mut r);
    let beat = Beat::default();
    let mut driver = if r.bool() { DriverBuilder::new("d").build() } else { TelemetryDriver::default() };
    let mut path: Vec<&str> = if driver.name().is_some() { vec!["d"] } else { vec![] };
    driver.add_processor(beat.clone());
    let paused = r.chance(1, 4);
    if paused {
        driver.pause();
    }
    if r.chance(1, 3) {
        driver.change_processing_stragtegy(ProcessingStrategy::DropAll);
    }
    let mut h = driver.attached_mount(ProcessorMount::new("a"));
    path.push("a");
    if r.bool() {
        h = h.attach_mount::<Beat>(ProcessorMount::new("b"));
        path.push("b");
    }
    if r.chance(1, 3) {
        h = h.attached_mount(ProcessorMount::new("c"));
        path.push("c");
    }
    if r.bool() && !paused {
        wait_beats(c, &beat, 1 + r.below(3));
    }
    let nth = 1 + r.usize(4);
    let per = 1 + r.below(12);
    let beats: Vec<Vec<Beat>> = (0..nth).map(|_| (0..per).map(|_| Beat::default()).collect()).collect();
    std::thread::scope(|s| {
        for t in 0..nth {
            let h = h.clone();
            let beats = &beats;
            let mut r = Rng::new(r.next() + t as u64);
            s.spawn(move || {
                for k in 0..per {
                    jitter(&mut r);
                    h.put_snapshooter(Shot::new(format!("s_{}_{}", t, k), 1u64));
                    h.put_processor(Named(beats[t][k as usize].clone(), format!("p_{}_{}", t, k)));
                    // through a mount of its own
                    let n = h.attach_mount::<Beat>(ProcessorMount::new(format!("g_{}_{}", t, k)));
                    n.put_snapshooter(Shot::new("x", 1u64));
                }
            });
        }
    });
    let gone = r.bool();
    let h = if gone {
        drop(h);
        None
    } else {
        Some(h)
    };
    if paused {
        // a paused driver knows nothing of them yet, but nothing is lost
        driver.resume();
    }
    for t in 0..nth {
        for k in 0..per {
            let b = &beats[t][k as usize];
            wait_for(c, "processor put into an attached mount to be processed", || b.count() > 3);
        }
    }
    wait_beats(c, &beat, 2);
    let s = match c.op("snapshot", || driver.snapshot(false)) {
        Ok(s) => s,
        Err(_) => c.fail("a live driver refused a snapshot"),
    };
    let group = match s.at(&path) {
        Some(ItemKind::Snapshot(g)) => g.clone(),
        _ => c.fail(format!("group {:?} is missing in {}", path, snap_str(&s))),
    };
    for (what, extra) in [("s", None), ("p", None), ("g", Some("x"))] {
        let keys: Vec<String> = group.keys().into_iter().filter(|k| k.starts_with(&format!("{}_", what))).collect();
        c.eq(keys.len(), nth * per as usize, || format!("number of '{}' components in {}", what, snap_str(&group)));
        for t in 0..nth {
            let mine: Vec<&String> = keys.iter().filter(|k| k.starts_with(&format!("{}_{}_", what, t))).collect();
            let want: Vec<String> = (0..per).map(|k| format!("{}_{}_{}", what, t, k)).collect();
            c.check(mine.iter().map(|x| x.as_str()).eq(want.iter().map(|x| x.as_str())), || {
                format!("components of thread {} are shown as {:?}, put as {:?}", t, mine, want)
            });
            if let Some(x) = extra {
                for w in &want {
                    c.eq(group.u(&[w, x]), Some(1), || format!("content of nested group {}", w));
                }
            }
        }
    }
    // every component exactly once per run
    let (a, b0) = (beats[0][0].count(), beat.count());
    wait_beats(c, &beat, 20);
    let (b, b1) = (beats[0][0].count(), beat.count());
    c.check(b - a <= b1 - b0 + 2 && b - a + 3 >= b1 - b0, || {
        format!("a component was processed {} times in {} runs", b - a, b1 - b0)
    });
    if let Some(h) = h {
        let late = Beat::default();
        h.put_processor(late.clone());
        wait_for(c, "late processor", || late.count() > 0);
    }
    count("live_puts", nth as u64 * per * 3);
    c.sig(&format!("{:?} {} {} {} {}", path, nth, per, paused, gone));
}
struct Named(Beat, String);
impl PutsSnapshot for Named {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(self.1.clone(), 1u64);
    }
}
impl ProcessesTelemetryMessages for Named {
    fn process(&mut self, max: usize, s: ProcessingStrategy) -> ProcessingOutcome {
        self.0.process(max, s)
    }
}

// ------------------------------------------------------------------ C30
fn live_bytes() -> i64 {
    LIVE_BYTES.load(SeqCst)
}
/// Bytes that may come and go without meaning anything (queue blocks, vector capacities).
const SLACK: i64 = 24 * 1024;

pub fn c30() {
    rule("repeated cycles of processing, reconfiguration, ever new labels and names, driver use, one kind of request (or none) over thousands of turns of a running or paused driver, and whole life cycles over random component trees; live bytes and blocks are compared at quiescent points by a counting allocator. Distinct combination of components, cycle kinds and clock.");
    run("processing", 60, 400, 1, c30_processing);
    run("reconfiguration", 120, 1_000, 1, c30_reconfiguration);
    run("labels", 60, 600, 1, c30_labels);
    run("driver", 6, 60, 1, c30_driver);
    run("lifecycle", 8, 60, 1, c30_lifecycle);
    run("turns", 21, 140, 1, c30_turns);
}
fn judge_memory(c: &Case, what: &str, measures: &[i64], cycles: u64) {
    // later measurements must not exceed the first ones
    let base = measures[0].max(measures[1]);
    let last = *measures.last().unwrap();
    c.check(last <= base + SLACK, || {
        format!(
            "{}: live memory grows with the number of cycles: {:?} bytes at intervals of {} cycles",
            what, measures, cycles
        )
    });
    count("memory_measurements", measures.len() as u64);
}
fn all_instruments(r: &mut Rng, track: usize) -> Panel<u8> {
    let mut p = Panel::accept_all()
        .counter(Counter::new("counter"))
        .gauge(Gauge::new("gauge").tracking(track))
        .meter(Meter::new("meter"))
        .histogram(Histogram::new("histogram"))
        .instrument(ValueMeter::new("vm"))
        .instrument(Flag::new("flag"))
        .instrument(StaircaseTimer::new("st"))
        .instrument(OccurrenceIndicator::new("oi"))
        .instrument(NonOccurrenceIndicator::new("noi"))
        .instrument(DataDisplay::new("dd"))
        .instrument(LastOccurrenceTracker::new("lot"))
        .gauge(GaugeAdapter::deltas_only(vec![0u8, 1, 2, 3, 4, 5, 6, 7], Gauge::new("g2").tracking(2)));
    if r.bool() {
        p.add_histogram(Histogram::new("h2"));
        p.add_meter(Meter::new("m2"));
        p.add_panel(Panel::named(vec![1u8, 2, 3], "sub").counter(Counter::new("c")).histogram(Histogram::new("h")));
    }
    p
}
/// Random further parts that must make no difference.
fn dress(r: &mut Rng, p: &mut TelemetryProcessor<u8>) {
    if r.bool() {
        p.add_snapshooter(ConstantValue::new("constant", 1u64));
    }
    if r.bool() {
        p.add_handler(Counter::new("handler").for_all_labels());
    }
    if r.bool() {
        p.set_inactivity_limit(secs(5));
        p.set_show_activity_state(r.bool());
    }
    if r.bool() {
        p.add_cockpit(Cockpit::new("dressing").panel(Panel::named(AcceptAllLabels, "panel").counter(Counter::new("counter"))));
    }
    if r.bool() {
        let mut c = Cockpit::without_name();
        c.add_snapshooter(ConstantValue::new("constant", 1u64));
        p.add_cockpit(c);
    }
}
fn c30_processing(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let cap = if r.bool() { None } else { Some(64) };
    let (tx, mut p) = make_pair(&mut r, cap, false);
    let track = 1 + r.usize(20);
    p.add_cockpit(Cockpit::new("c").panel(all_instruments(&mut r, track)));
    dress(&mut r, &mut p);
    let gap = *r.pick(&[1_000i64, 1_000_000, 50_000_000, 700_000_000, 3_000_000_000]);
    let old = r.bool();
    let snaps = r.bool();
    let strategy = *r.pick(&[ALL, ALL, ProcessingStrategy::default(), ProcessingStrategy::DropAll]);
    let n = 12_000u64;
    let mut measures = vec![];
    for round in 0..5 {
        for k in 0..n {
            let ts = if old && r.chance(1, 3) {
                Instant::now().checked_sub(secs(r.below(100_000))).unwrap_or_else(Instant::now)
            } else {
                Instant::now()
            };
            let val = any_val(&mut r);
            tx.transmit(val.observation(r.below(8) as u8, ts));
            clock::advance(r.below(gap as u64 + 1) as i64);
            if k % 50 == 49 {
                p.process(200, strategy);
                if snaps {
                    shot_of(&p, r.bool());
                }
                c.beat();
            }
        }
        while p.process(1000, strategy).processed > 0 {}
        shot_of(&p, true).to_default_json();
        let _ = round;
        measures.push(live_bytes());
    }
    count("observations", 5 * n);
    judge_memory(c, "observations and snapshots", &measures, n);
    c.sig(&format!("{:?} {} {} {} {:?}", cap, track, gap, old, strategy));
    c.sample(|| format!("gap {} ns, tracking {}: {:?} live bytes", gap, track, measures));
}
/// Labels and snapshot texts own memory; they go whichever way a message goes.
fn c30_labels(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    clock::advance(100_000 * clock::NS);
    let label = |k: u64| format!("a label long enough to be seen when it is lost {}", k % 10);
    let cap = *r.pick(&[None, Some(0), Some(4), Some(100)]);
    let block = cap.is_none() && r.bool();
    let (tx, mut p) = match cap {
        None => TelemetryProcessor::<String>::new_pair("labels"),
        Some(n) => TelemetryProcessor::<String>::new_pair_bounded("labels", n, block),
    };
    let l = label(1);
    p.add_cockpit(
        Cockpit::new("c").panel(
            Panel::named(LabelPredicate(move |x: &String| *x != l), "some")
                .counter(Counter::new("n"))
                .gauge(Gauge::new("g").for_label(label(3)))
                .meter(Meter::new("m").for_labels(vec![label(4), label(5)]))
                .histogram(Histogram::new("h").inactivity_limit(secs(1)).show_activity_state(r.bool()).for_all_labels()),
        ),
    );
    let strategy = *r.pick(&[
        ALL,
        ProcessingStrategy::default(),
        ProcessingStrategy::DropAll,
        ProcessingStrategy::DropOlderThan { max_age: secs(5), drop_deltas: true },
    ]);
    let dead = r.chance(1, 4);
    let mut p = Some(p);
    if dead {
        p = None;
    }
    // one whose transmitters are gone
    let (gone_tx, mut gone) = TelemetryProcessor::<String>::new_pair("gone");
    gone_tx.observed_one_now(label(1));
    drop(gone_tx);
    let mut mount = ProcessorMount::new("mount");
    drop(mount.attached_mount(ProcessorMount::new("left")));
    let n = 2_000u64;
    let mut measures = vec![];
    for _ in 0..5 {
        for k in 0..n {
            let ts = match r.below(3) {
                0 => Instant::now() - secs(r.below(60)),
                _ => Instant::now(),
            };
            tx.transmit(any_val(&mut r).observation(label(k), ts));
            clock::advance(r.below(200_000_000) as i64);
            if k % 500 == 7 {
                // inactive for a while
                clock::advance(3 * clock::NS);
            }
            if k % 10 == 9 {
                if let Some(p) = p.as_mut() {
                    p.process(r.usize(30), strategy);
                    if k % 100 == 9 {
                        drop(shot_of(p, r.bool()).to_default_json());
                    }
                }
                gone.process(100, strategy);
                mount.process(100, strategy);
                drop(shot_of(&mount, true));
                c.beat();
            }
        }
        if let Some(p) = p.as_mut() {
            loop {
                let o = p.process(1000, strategy);
                if o.processed + o.dropped == 0 {
                    break;
                }
            }
            drop(shot_of(p, true));
        }
        measures.push(live_bytes());
    }
    count("labelled_messages", 5 * n);
    judge_memory(c, &format!("labels with capacity {:?}, {:?}, processor dropped {}", cap, strategy, dead), &measures, n);
    c.sig(&format!("{:?} {:?} {} {}", cap, strategy, dead, block));
    c.sample(|| format!("{:?}: {:?} live bytes", strategy, measures));
}
fn c30_reconfiguration(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let (tx, mut p) = make_pair(&mut r, None, true);
    p.add_cockpit(Cockpit::new("stay").panel(Panel::named(1u8, "stay").counter(Counter::new("x"))));
    dress(&mut r, &mut p);
    let kind = r.below(4);
    let batch = *r.pick(&[1, 2, 3, 10]);
    let snaps = r.bool();
    let n = 400u64;
    let mut measures = vec![];
    for _ in 0..5 {
        for k in 0..n {
            match kind {
                0 => {
                    tx.add_cockpit(Cockpit::new("come").panel(all_instruments(&mut r, 5)));
                    tx.observed_one_value_now(1, 5u64);
                    tx.remove_cockpit("come");
                }
                1 => {
                    tx.add_panel_to_cockpit("stay", Panel::named(2u8, "come").panel(all_instruments(&mut r, 5)));
                    tx.observed_one_value_now(2, 5u64);
                    tx.remove_panel_from_cockpit("stay", "come");
                }
                2 => {
                    // refused: the names are taken or the cockpit does not exist
                    tx.add_cockpit(Cockpit::new("stay").panel(all_instruments(&mut r, 5)));
                    tx.add_panel_to_cockpit("stay", Panel::named(2u8, "stay").panel(all_instruments(&mut r, 5)));
                    tx.add_panel_to_cockpit("nobody", Panel::named(2u8, "stay").panel(all_instruments(&mut r, 5)));
                    tx.remove_cockpit(format!("nobody {}", k));
                    tx.remove_panel_from_cockpit("stay", format!("nobody {}", k));
                }
                _ => {
                    // queued by a non blocking sender or dropped because the queue is full
                    let (t, q) = make_pair(&mut r, Some(2), false);
                    for _ in 0..5 {
                        t.add_cockpit(Cockpit::new("x").panel(all_instruments(&mut r, 5)));
                    }
                    if r.bool() {
                        drop(t);
                        drop(q);
                    } else {
                        drop(q);
                        t.add_cockpit(Cockpit::new("x").panel(all_instruments(&mut r, 5)));
                        drop(t);
                    }
                }
            }
            if k % batch == 0 {
                p.process(1000, ALL);
                if snaps {
                    shot_of(&p, k % 2 == 0);
                }
                c.beat();
            }
        }
        while p.process(1000, ALL).processed > 0 {}
        shot_of(&p, true);
        measures.push(live_bytes());
    }
    judge_memory(c, &format!("components that come and go (kind {})", kind), &measures, n);
    count("reconfigurations", 5 * n);
    c.sig(&format!("{}", kind));
}
fn c30_driver(c: &mut Case) {
    let mut r = c.rng.clone();
    clock::COMPRESS_US.store(30, SeqCst);
    let virt = r.bool();
    if virt {
        clock::global_on(5_000_000 * clock::NS);
    }
    let cap = if r.bool() { None } else { Some(256) };
    let (tx, mut p) = make_pair(&mut r, cap, true);
    p.add_cockpit(Cockpit::new("c").panel(all_instruments(&mut r, 3)));
    dress(&mut r, &mut p);
    let mut driver = DriverBuilder::new("d").set_driver_metrics(r.bool()).build();
    let beat = Beat::default();
    driver.add_processor(beat.clone());
    driver.add_processor(p);
    let h = driver.attached_mount(ProcessorMount::new("m"));
    // members nobody can send to any more
    let (gone_tx, gone) = make_pair(&mut r, None, true);
    driver.add_processor(gone);
    drop(gone_tx);
    drop(driver.attached_mount(ProcessorMount::new("left")));
    // fill the bounded statistics of the driver itself
    for k in 0..1300 {
        tx.observed_one_now(1);
        drop(c.op("snapshot", || driver.snapshot(false)));
        let at = beat.count();
        while beat.count() < at + 2 && tx.queue_size() > 0 {
            std::thread::yield_now();
        }
        if virt {
            clock::global_advance(100_000_000);
        }
        if k % 50 == 0 {
            c.beat();
        }
    }
    let n = 1000u64;
    let mut measures = vec![];
    for _ in 0..5 {
        for k in 0..n {
            match k % 8 {
                0 => drop(c.op("snapshot", || driver.snapshot(false))),
                1 => {
                    let f = driver.snapshot_async(true);
                    drop(c.op("async snapshot", || block_on(f)));
                }
                2 => drop(driver.snapshot_async(true)),
                3 => {
                    let d = driver.clone();
                    d.pause();
                    d.resume();
                    d.change_processing_stragtegy(if k % 16 == 3 { ALL } else { ProcessingStrategy::default() });
                    drop(h.clone());
                }
                4 => {
                    tx.add_panel_to_cockpit("c", Panel::named(2u8, "come").counter(Counter::new("x")));
                    tx.remove_panel_from_cockpit("c", "come");
                }
                _ => {
                    for _ in 0..10 {
                        tx.transmit(any_val(&mut r).observation(r.below(8) as u8, Instant::now()));
                    }
                }
            }
            if virt {
                clock::global_advance(r.below(300_000_000) as i64);
            }
            c.beat();
        }
        // enough runs that bounded statistics of the driver itself are saturated
        wait_beats(c, &beat, 1200);
        wait_for(c, "queue to drain", || tx.queue_size() == 0);
        for _ in 0..20 {
            drop(c.op("snapshot", || driver.snapshot(true)));
        }
        wait_beats(c, &beat, 3);
        measures.push(live_bytes());
    }
    let tid = beat.tid.load(SeqCst);
    drop(driver);
    drop(h);
    wait_for(c, "driver thread to end", || !thread_alive(tid));
    clock::global_off();
    clock::COMPRESS_US.store(0, SeqCst);
    judge_memory(c, "a running driver", &measures, n);
    c.sig(&format!("{} {:?}", virt, tx.queue_capacity()));
    c.sample(|| format!("driver, virtual time {}: {:?} live bytes", virt, measures));
}
/// The same kind of request, or nothing at all, over thousands of turns of a driver's loop.
fn c30_turns(c: &mut Case) {
    let mut r = c.rng.clone();
    clock::COMPRESS_US.store(1, SeqCst);
    let mut driver = metrix::driver::DriverBuilder::new("d").set_driver_metrics(false).build();
    let beat = Beat::default();
    driver.add_processor(beat.clone());
    let (tx, p) = make_pair(&mut r, None, true);
    driver.add_processor(p);
    tx.observed_one_now(1);
    snapshot_of(c, &driver);
    let paused = r.bool();
    if paused {
        driver.pause();
        snapshot_of(c, &driver);
    }
    let kind = r.below(7);
    let n = 5_000u64;
    let mut measures = vec![];
    for _ in 0..5 {
        match kind {
            0 => {
                let at = clock::METRIX_SLEEPS.load(SeqCst);
                wait_for(c, "turns of an idle driver", || clock::METRIX_SLEEPS.load(SeqCst) > at + n);
                count("idle_turns", n);
            }
            _ => {
                for k in 0..n {
                    match kind {
                        1 => driver.change_processing_stragtegy(if k % 2 == 0 { ALL } else { ProcessingStrategy::default() }),
                        2 if paused => driver.pause(),
                        2 => driver.resume(),
                        3 if paused => {
                            driver.resume();
                            driver.pause();
                        }
                        3 => {
                            driver.pause();
                            driver.resume();
                        }
                        4 => drop(driver.snapshot_async(k % 3 == 0)),
                        5 => drop(driver.clone()),
                        _ => {
                            if !paused {
                                tx.observed_one_now(1);
                            }
                            drop(c.op("async snapshot", || block_on(driver.snapshot_async(k % 2 == 0))));
                        }
                    }
                    if k % 200 == 0 {
                        snapshot_of(c, &driver);
                        c.beat();
                    }
                }
                count("requests_of_one_kind", n);
            }
        }
        snapshot_of(c, &driver);
        if !paused {
            wait_for(c, "queue to drain", || tx.queue_size() == 0);
            wait_beats(c, &beat, 3);
        }
        snapshot_of(c, &driver);
        measures.push(live_bytes());
    }
    let tid = beat.tid.load(SeqCst);
    drop(driver);
    wait_for(c, "driver thread to end", || !thread_alive(tid));
    clock::COMPRESS_US.store(0, SeqCst);
    judge_memory(c, &format!("a driver over many turns, kind {} paused {}", kind, paused), &measures, n);
    c.sig(&format!("{} {}", kind, paused));
    c.sample(|| format!("kind {} paused {}: {:?} live bytes", kind, paused, measures));
}
fn snapshot_of(c: &Case, d: &TelemetryDriver) {
    c.check(c.op("snapshot", || d.snapshot(false)).is_ok(), || "a live driver refused a snapshot".into());
}
fn c30_lifecycle(c: &mut Case) {
    let mut r = c.rng.clone();
    clock::COMPRESS_US.store(30, SeqCst);
    let n = 40u64;
    let how = r.below(4);
    let mut measures = vec![];
    for _ in 0..5 {
        for _ in 0..n {
            let (tx, mut p) = make_pair(&mut r, None, true);
            p.add_cockpit(Cockpit::new("c").panel(all_instruments(&mut r, 3)));
            let mut driver = DriverBuilder::new("d").build();
            let beat = Beat::default();
            driver.add_processor(beat.clone());
            let mut inner = TelemetryDriver::default();
            let ibeat = Beat::default();
            inner.add_processor(ibeat.clone());
            let h = driver.attached_mount(ProcessorMount::new("m"));
            match how {
                0 => driver.add_processor(p),
                1 => h.put_processor(p),
                2 => {
                    inner.add_processor(p);
                    driver.add_processor(inner.clone());
                }
                _ => {
                    inner.pause();
                    inner.add_processor(p);
                    driver.add_snapshooter(inner.clone());
                }
            }
            for _ in 0..100 {
                tx.transmit(any_val(&mut r).observation(r.below(8) as u8, Instant::now()));
            }
            if how != 3 {
                wait_beats(c, &ibeat, 1);
            }
            wait_beats(c, &beat, 2);
            drop(c.op("snapshot", || driver.snapshot(true)));
            drop(driver.snapshot_async(false));
            let tids = [beat.tid.load(SeqCst), ibeat.tid.load(SeqCst)];
            drop(inner);
            drop(driver);
            wait_for(c, "driver threads to end", || tids.iter().all(|t| *t == 0 || !thread_alive(*t)));
            // a paused driver may have had no run
            tx.observed_one_now(1);
            drop(h);
        }
        wait_for(c, "all driver threads to end", || threads_named("metrix") == 0);
        measures.push(live_bytes());
    }
    clock::COMPRESS_US.store(0, SeqCst);
    judge_memory(c, &format!("drivers that come and go (kind {})", how), &measures, n);
    c.sig(&format!("{}", how));
    count("drivers_created_and_dropped", 5 * n * 2);
}
