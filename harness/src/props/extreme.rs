//! C27 extreme observations and configurations
use super::tree::*;
use crate::common::*;

pub fn c27() {
    rule("(instr) every instrument configured with extreme durations, windows and units under virtual time, histories of extreme counts, values, durations and timestamps with jumps of time; counts, gauges, extremes, averages, rates and switches are compared to exact wide-integer models that saturate. (tree) random component trees inside processors with extreme maximum ages, inactivity limits and batch limits: everything accepted must be delivered to recorders and no pass may panic. (driver) the same on a running driver whose thread must survive and keep all other instruments working; (slow) the same with user components that take anything from nothing to hours of (virtual) time to process, to handle an observation or to be shown. Run in a build with overflow checks and in one where arithmetic wraps silently. Non-trivial: an extreme value was observed.");
    run("instr", 25_000, 600_000, 8, c27_instr);
    run("tree", 2_500, 50_000, 8, c27_tree);
    clock::COMPRESS_US.store(100, SeqCst);
    run("driver", 1_250, 25_000, 6, |c| c27_driver(c, false));
    run("slow", 300, 6_000, 1, |c| {
        clock::global_on(2_000_000 * clock::NS);
        clock::SLEEP_ADVANCES.store(c.seed & 1 == 0, SeqCst);
        c27_driver(c, true);
        clock::SLEEP_ADVANCES.store(false, SeqCst);
        clock::global_off();
    });
    clock::COMPRESS_US.store(0, SeqCst);
}
pub fn ext_u64(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => u64::MAX - r.below(3),
        1 => (i64::MAX as u64).wrapping_add(r.below(5)).wrapping_sub(2),
        2 => (1u64 << r.below(64)).wrapping_sub(r.below(2)),
        3 => r.below(3),
        _ => r.next(),
    }
}
pub fn ext_i64(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => i64::MAX - r.below(3) as i64,
        1 => i64::MIN + r.below(3) as i64,
        2 => r.range(-2, 2),
        _ => r.next() as i64,
    }
}
pub fn ext_val(r: &mut Rng) -> Val {
    match r.below(9) {
        0 => any_val(r),
        1 => Val::Count(ext_u64(r)),
        2 => Val::I(ext_i64(r)),
        3 => Val::U(ext_u64(r)),
        4 => Val::F(
            (*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 9.3e18, -9.3e18, 9223372036854775807.0, -9223372036854775808.0, 9223372036854774784.0, 1.8446744073709552e19, 5e-324])).to_bits(),
        ),
        5 | 6 => Val::D(ext_u64(r), r.below(4) as u8),
        7 => Val::C(ext_i64(r)),
        _ => Val::One,
    }
}
pub fn ext_dur(r: &mut Rng) -> Duration {
    match r.below(7) {
        0 => Duration::MAX,
        1 => Duration::ZERO,
        2 => Duration::from_nanos(1),
        3 => Duration::new(i64::MAX as u64 - r.below(3), r.below(1_000_000_000) as u32),
        4 => Duration::new(i64::MAX as u64 + r.below(3), 999_999_999),
        5 => Duration::from_secs(1 << r.below(64)),
        _ => Duration::from_millis(r.below(5_000)),
    }
}
pub fn ext_ts(r: &mut Rng) -> Instant {
    let now = Instant::now();
    let d = ext_dur(r);
    match r.below(4) {
        0 => now.checked_sub(d).unwrap_or(now),
        1 => now.checked_add(d).unwrap_or(now),
        // as far as it gets
        2 => {
            let mut t = now;
            for b in (0..63).rev() {
                let d = Duration::from_secs(1 << b);
                t = if r.0 & 1 == 0 { t.checked_add(d) } else { t.checked_sub(d) }.unwrap_or(t);
            }
            t
        }
        _ => now,
    }
}
fn ext_jump(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 | 1 | 2 | 3 => 0,
        4 => r.below(3_000_000_000) as i64,
        5 => r.below(100_000_000_000) as i64,
        6 => r.below(10_000) as i64 * 1_000_000_000,
        // days, rarely: a meter catches up with every tick
        _ if r.chance(1, 20) => r.below(4) as i64 * 86_400_000_000_000,
        _ => 3_600_000_000_000,
    }
}
fn within(x: f64, lo: f64, hi: f64) -> bool {
    let tol = 1e-9 * (1.0 + lo.abs().max(hi.abs()));
    x.is_finite() && x >= lo - tol && x <= hi + tol
}
/// The rates of a meter as they may be: one sequence per reading of counts above i64::MAX
struct Rates {
    pending: u64,
    rate: [f64; 3],
    init: bool,
    next: i64,
}
impl Rates {
    fn new() -> Rates {
        Rates { pending: 0, rate: [0.0; 3], init: false, next: clock::now_ns() + 5_000_000_000 }
    }
    fn tick(&mut self) {
        while self.next <= clock::now_ns() {
            self.next += 5_000_000_000;
            let now = self.pending as f64 / 5.0;
            self.pending = 0;
            for (i, minutes) in [1.0, 5.0, 15.0f64].iter().enumerate() {
                let alpha = 1.0 - (-5.0 / 60.0 / minutes).exp();
                self.rate[i] = if self.init { self.rate[i] + alpha * (now - self.rate[i]) } else { now };
            }
            self.init = true;
        }
    }
    fn mark(&mut self, n: u64) {
        self.tick();
        self.pending = self.pending.saturating_add(n);
    }
}
fn c27_instr(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let kind = c.seed % 11;
    let unit = r.below(4) as u8;
    let u = UNITS[unit as usize];
    let d = ext_dur(&mut r);
    let flip = r.bool();
    let window = *r.pick(&[0usize, 1, 2, 60, 3600]);
    let window = if r.chance(9, 10) { window.min(60) } else { window };
    let reset = r.bool();
    let limit = if r.bool() { Some(d) } else { None };
    let alt = NameAlternation::Postfix("_not".into());
    let mut i: Box<dyn Instrument> = match kind {
        0 => Box::new(Counter::new("i")),
        1 => Box::new(Gauge::new("i").display_time_unit(u).tracking(window).group_values(true)),
        2 => Box::new(Meter::new("i").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true).lower_cutoff(0.0)),
        3 => Box::new(ValueMeter::new("i").display_time_unit(u).five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true).lower_cutoff(0.0)),
        4 => {
            let mut h = Histogram::new("i").display_time_unit(u).reset_after_inactivity(reset);
            if let Some(d) = limit {
                h.set_inactivity_limit(d);
            }
            Box::new(h)
        }
        5 => Box::new(Flag::new("i").show_inverted(alt)),
        6 => Box::new(DataDisplay::new("i").reset_after(d)),
        7 => Box::new(LastOccurrenceTracker::new("i").make_none_zero(flip)),
        8 => Box::new(StaircaseTimer::new("i").switch_off_after(d).show_inverted(alt)),
        9 => Box::new(OccurrenceIndicator::new("i").if_happened_within(d).show_inverted(alt)),
        _ => Box::new(NonOccurrenceIndicator::new("i").if_not_happened_within(d).show_inverted(alt)),
    };
    let mut trace = format!("kind {} unit {} limit {:?} window {}: ", kind, unit, d, window);
    let created = clock::now_ns();
    // models
    let mut total: u128 = 0;
    // counts above i64::MAX may be ignored by a meter or saturate
    let (mut least, mut most) = (0u128, 0u128);
    let (mut low, mut high) = (Rates::new(), Rates::new());
    let mut gauge: Option<i64> = None;
    // values with the second they were observed in
    let mut tracked: Vec<(i64, i64)> = vec![];
    let mut hist: Vec<(i64, i64)> = vec![];
    let mut hist_last = created;
    let mut last: Option<i64> = None;
    let mut extreme = false;
    for _ in 0..(1 + r.below(40)) {
        let j = ext_jump(&mut r);
        clock::advance(j);
        if j > 0 {
            trace.push_str(&format!("+{} ", j));
        }
        let v = ext_val(&mut r);
        let ts = ext_ts(&mut r);
        trace.push_str(&format!("{:?} ", v));
        extreme |= matches!(v, Val::Count(n) | Val::U(n) | Val::D(n, _) if n > 1 << 60) || matches!(v, Val::I(n) | Val::C(n) if n.unsigned_abs() > 1 << 60) || matches!(v, Val::F(_));
        let updated = i.update(&v.update(ts));
        c.check(updated <= 1, || format!("one instrument counts as {} after {}", updated, trace));
        last = Some(clock::now_ns());
        total += v.multiplicity() as u128;
        match kind {
            2 => {
                let n = v.multiplicity();
                let counted = if n <= i64::MAX as u64 { n } else { 0 };
                least = (least + counted as u128).min(i64::MAX as u128);
                most = (most + n as u128).min(u64::MAX as u128);
                low.mark(counted);
                high.mark(n);
            }
            3 => {
                if let Some(n) = v.amount(unit) {
                    least = (least + n as u128).min(i64::MAX as u128);
                    most = (most + n as u128).min(u64::MAX as u128);
                    low.mark(n as u64);
                    high.mark(n as u64);
                }
            }
            1 => {
                let next = match v {
                    Val::C(d) => Some(gauge.unwrap_or(0).saturating_add(d)),
                    Val::One | Val::Count(_) => None,
                    // what is no number leaves the value as it is
                    v => v.number(unit).or(gauge),
                };
                if next.is_some() {
                    gauge = next;
                    tracked.push((clock::now_ns(), gauge.unwrap_or(0)));
                }
            }
            4 => {
                if let Some(x) = v.number(unit) {
                    if limit.map_or(false, |d| reset && (clock::now_ns() - hist_last) as u128 > d.as_nanos()) {
                        hist.clear();
                    }
                    hist.push((clock::now_ns(), x));
                    hist_last = clock::now_ns();
                }
            }
            _ => {}
        }
        if r.chance(1, 3) {
            continue;
        }
        if r.bool() {
            let j = ext_jump(&mut r);
            clock::advance(j);
            if j > 0 {
                trace.push_str(&format!("+{} ", j));
            }
        }
        let mut s = Snapshot::default();
        i.put_snapshot(&mut s, false);
        count("snapshots_judged", 1);
        let now = clock::now_ns();
        let bad = |what: &str| -> String { format!("{}: {} after {}", what, snap_str(&s), trace) };
        match kind {
            0 => {
                c.eq(s.u(&["i"]), Some(total.min(u64::MAX as u128) as u64), || bad("counter"));
            }
            1 => {
                c.eq(s.i(&["i", "current"]), gauge, || bad("gauge"));
                if window > 0 && gauge.is_some() {
                    let (Some(g), Some(peak), Some(pmin), Some(bottom), Some(bmax), Some(pavg), Some(bavg), Some(avg)) = (
                        gauge,
                        s.i(&["i", "peak"]),
                        s.i(&["i", "peak_min"]),
                        s.i(&["i", "bottom"]),
                        s.i(&["i", "bottom_max"]),
                        s.f(&["i", "peak_avg"]),
                        s.f(&["i", "bottom_avg"]),
                        s.f(&["i", "avg"]),
                    ) else {
                        c.fail(bad("tracked values missing"));
                    };
                    let _ = g;
                    // what is surely and what may be within the window
                    let age = window as i64 * 1_000_000_000;
                    let may: Vec<i64> = tracked.iter().filter(|x| now - x.0 <= age).map(|x| x.1).collect();
                    let ok = bottom <= peak
                        && (bottom..=peak).contains(&pmin)
                        && (bottom..=peak).contains(&bmax)
                        && within(avg, bottom as f64, peak as f64)
                        && within(pavg, pmin as f64, peak as f64)
                        && within(bavg, bottom as f64, bmax as f64);
                    c.check(ok, || bad("tracked values are inconsistent"));
                    if may.is_empty() {
                        c.check(Some(peak) == gauge && Some(bottom) == gauge, || bad("tracked values without updates"));
                    } else {
                        c.check((may.contains(&peak) || Some(peak) == gauge) && (may.contains(&bottom) || Some(bottom) == gauge), || bad("extremes were never observed"));
                    }
                    if tracked.iter().all(|x| now - x.0 < 1_000_000 && x.0 - created < 1_000_000) {
                        let sum: i128 = tracked.iter().map(|x| x.1 as i128).sum();
                        let want = sum as f64 / tracked.len() as f64;
                        c.check(within(avg, want, want) && Some(peak) == may.iter().copied().max() && Some(bottom) == may.iter().copied().min(), || bad("one interval"));
                    }
                }
            }
            2 | 3 => {
                low.tick();
                high.tick();
                let Some(n) = s.u(&["i", "count"]) else { c.fail(bad("count is missing")) };
                c.check(n as u128 >= least && n as u128 <= most, || format!("count not within {} and {}: {}", least, most, bad("meter")));
                for (k, key) in ["one_minute", "five_minutes", "fifteen_minutes"].iter().enumerate() {
                    let Some(x) = s.f(&["i", key, "rate"]) else { c.fail(bad("rate is missing")) };
                    c.check(x >= low.rate[k] * (1.0 - 1e-6) - 1e-6 && x <= high.rate[k] * (1.0 + 1e-6) + 1e-6 && x.is_finite(), || {
                        format!("rate {} is {}, expected between {} and {}: {}", key, x, low.rate[k], high.rate[k], bad("meter"))
                    });
                }
            }
            4 => {
                let idle = (now - hist_last) as u128;
                let active = limit.map_or(true, |d| idle < d.as_nanos());
                if limit.is_some() {
                    c.eq((s.b(&["i", "_active"]), s.b(&["i", "_inactive"])), (Some(active), Some(!active)), || bad("activity"));
                }
                if active {
                    c.eq(s.u(&["i", "count"]), Some(hist.len() as u64), || bad("count of a histogram"));
                    // older values fade out of the reservoir
                    if !hist.is_empty() && hist.iter().all(|x| now - x.0 < 3_600_000_000_000) {
                        let (lo, hi) = (hist.iter().map(|x| x.1).min(), hist.iter().map(|x| x.1).max());
                        c.eq((s.i(&["i", "min"]), s.i(&["i", "max"])), (lo, hi), || bad("extremes of a histogram"));
                        let (lo, hi) = (lo.unwrap_or(0) as f64, hi.unwrap_or(0) as f64);
                        let Some(mean) = s.f(&["i", "mean"]) else { c.fail(bad("mean is missing")) };
                        let Some(dev) = s.f(&["i", "stddev"]) else { c.fail(bad("stddev is missing")) };
                        c.check(within(mean, lo, hi) && dev >= 0.0 && dev <= (hi - lo) * (1.0 + 1e-9) + 1e-9 * (1.0 + hi.abs().max(lo.abs())), || bad("mean and deviation"));
                        for q in ["p25", "p50", "p75", "p95", "p98", "p99", "p999"] {
                            let x = s.i(&["i", "quantiles", q]);
                            c.check(x.map_or(false, |x| hist.iter().any(|h| h.1 == x)), || bad("quantile was never observed"));
                        }
                    }
                }
            }
            7 => {
                // whole seconds since the last observation
                let want = last.map(|l| (now - l) / 1_000_000_000);
                c.eq(s.i(&["i"]), want, || bad("tracker"));
            }
            8 | 9 | 10 => {
                let since = last.unwrap_or(created);
                let (x, y) = (s.b(&["i"]), s.b(&["i_not"]));
                c.check(x.is_some() && y == x.map(|x| !x), || bad("switch"));
                let age = (now - since) as u128;
                // boundaries belong to another property
                if age < d.as_nanos() {
                    c.eq(x, Some(kind != 10), || bad("switch within its duration"));
                } else if age > d.as_nanos() {
                    c.eq(x, Some(kind == 10), || bad("switch after its duration"));
                }
            }
            _ => {}
        }
    }
    if !extreme {
        c.trivial();
    }
    c.sig(&trace);
    c.sample(|| trace.clone());
}
fn ext_strategy(r: &mut Rng) -> ProcessingStrategy {
    match r.below(4) {
        0 => ALL,
        1 => ProcessingStrategy::default(),
        _ => ProcessingStrategy::DropOlderThan { max_age: ext_dur(r), drop_deltas: r.bool() },
    }
}
fn c27_tree(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let mut b = Builder::new();
    b.short = r.bool();
    let (tx, mut p, mut model) = b.processor::<u8>(&mut r, "", 2);
    if r.bool() {
        p.set_inactivity_limit(ext_dur(&mut r));
    }
    let log = new_log::<u8>();
    p.add_handler(Recorder::new(&log));
    let mut trace = String::new();
    let mut kept: Vec<Ob<u8>> = vec![];
    let mut extreme = false;
    for _ in 0..(1 + r.below(25)) {
        clock::advance(ext_jump(&mut r));
        let (l, v, ts) = (r.usize(LABELS), ext_val(&mut r), ext_ts(&mut r));
        trace.push_str(&format!("{}:{:?} ", l, v));
        extreme = true;
        tx.transmit(v.observation(l as u8, ts));
        clock::advance(ext_jump(&mut r).min(1_000_000_000));
        let strategy = ext_strategy(&mut r);
        let now = Instant::now();
        let drop = match &strategy {
            ProcessingStrategy::DropOlderThan { max_age, drop_deltas } => {
                let age = if now > ts { now.duration_since(ts) } else { Duration::ZERO };
                age > *max_age && (*drop_deltas || !v.is_delta())
            }
            _ => false,
        };
        let max = *r.pick(&[1, 2, 1000, usize::MAX]);
        let out = p.process(max, strategy);
        c.eq((out.processed, out.dropped), (!drop as usize, drop as usize), || format!("processed and dropped with {:?} after {}", ts, trace));
        if !drop {
            model.feed(l, v, ts);
            kept.push(Ob { label: l as u8, val: v, ts });
        }
        if r.bool() {
            let _ = shot_of(&p, r.bool());
        }
    }
    c.eq(log.lock().unwrap().clone(), kept, || format!("received by a handler after {}", trace));
    model.check_received(c, &trace);
    let json = shot_of(&p, true).to_default_json();
    count("bytes_of_json", json.len() as u64);
    count("observations", trace.split(' ').count() as u64);
    if !extreme {
        c.trivial();
    }
    c.sig(&trace);
}
/// A component that takes its time.
struct Slow(Mutex<Rng>);
impl Slow {
    fn new(r: &mut Rng) -> Slow {
        Slow(Mutex::new(Rng::new(r.next())))
    }
    fn take(&self) {
        let mut r = self.0.lock().unwrap();
        let d = match r.below(12) {
            0 | 1 => 10_000_000 + r.range(-1, 1),
            2 | 3 => r.below(10_000_000) as i64,
            4 => r.below(30_000_000) as i64,
            5 => r.below(100_000_000_000) as i64,
            6 if r.chance(1, 10) => r.below(86_400) as i64 * clock::NS,
            _ => 0,
        };
        clock::global_advance(d);
    }
}
impl PutsSnapshot for Slow {
    fn put_snapshot(&self, _: &mut Snapshot, _: bool) {
        self.take()
    }
}
impl ProcessesTelemetryMessages for Slow {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.take();
        ProcessingOutcome::default()
    }
}
impl HandlesObservations for Slow {
    type Label = u8;
    fn handle_observation(&mut self, _: &Observation<u8>) -> usize {
        self.take();
        0
    }
}
fn c27_driver(c: &mut Case, slow: bool) {
    let mut r = c.rng.clone();
    clock::real();
    let strategy = if r.bool() { ALL } else { ProcessingStrategy::DropOlderThan { max_age: Duration::MAX, drop_deltas: r.bool() } };
    let mut d = DriverBuilder::default().set_processing_strategy(strategy).build();
    let beat = Beat::default();
    d.add_processor(beat.clone());
    let mut b = Builder::new();
    b.short = r.bool();
    let (tx, mut p, mut model) = b.processor::<u8>(&mut r, "", 1);
    if r.bool() {
        p.set_inactivity_limit(ext_dur(&mut r));
    }
    let log = new_log::<u8>();
    p.add_handler(Recorder::new(&log));
    let counted = new_log::<u8>();
    let (tx2, mut p2) = TelemetryProcessor::<u8>::new_pair("bystander");
    p2.add_handler(Recorder::new(&counted));
    p2.add_handler(Counter::new("count").for_all_labels());
    if slow {
        if r.bool() {
            d.add_processor(Slow::new(&mut r));
        }
        if r.bool() {
            d.add_snapshooter(Slow::new(&mut r));
        }
        if r.bool() {
            p.add_handler(Slow::new(&mut r));
        }
        if r.bool() {
            p2.add_handler(Slow::new(&mut r));
        }
    }
    if r.bool() {
        let mut m = ProcessorMount::new("mount");
        m.set_inactivity_limit(ext_dur(&mut r));
        m.add_processor(p);
        m.add_processor(p2);
        let mut d2 = d.clone();
        d2.add_processor(m);
    } else {
        d.add_processor(p);
        d.add_processor(p2);
    }
    let mut trace = String::new();
    let n = 1 + r.usize(40);
    let mut sent = vec![];
    for k in 0..n {
        let (l, v, ts) = (r.usize(LABELS), ext_val(&mut r), ext_ts(&mut r));
        trace.push_str(&format!("{}:{:?} ", l, v));
        tx.transmit(v.observation(l as u8, ts));
        tx2.observed_one(1, ts);
        model.feed(l, v, ts);
        sent.push(Ob { label: l as u8, val: v, ts });
        if r.chance(1, 10) {
            let res = c.op("snapshot", || d.snapshot(k % 2 == 0));
            c.check(res.is_ok(), || format!("the driver refused a snapshot after {}", trace));
        }
    }
    wait_for(c, "waiting for the driver to process", || tx.queue_size() == 0 && tx2.queue_size() == 0);
    c.op("waiting for runs", || wait_beats(c, &beat, 2));
    let s = match c.op("snapshot", || d.snapshot(false)) {
        Ok(s) => s,
        Err(_) => c.fail(format!("the driver refused a snapshot after {}", trace)),
    };
    c.eq(log.lock().unwrap().clone(), sent, || format!("received by a handler after {}", trace));
    c.eq(counted.lock().unwrap().len(), n, || format!("received by a bystander after {}", trace));
    model.check_received(c, &trace);
    let seen = s.u(&["bystander", "count"]).or_else(|| s.u(&["mount", "bystander", "count"]));
    // a mount with a short inactivity limit may be hidden
    if let Some(seen) = seen {
        c.eq(seen, n as u64, || format!("shown by a bystander after {}", trace));
        count("bystanders_shown", 1);
    }
    count("observations", 2 * n as u64);
    c.sig(&trace);
}
