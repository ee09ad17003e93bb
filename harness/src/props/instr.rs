//! C14 counts, C15 rates, C16 gauges, C17 tracking, C18 histograms
use crate::common::*;
use crate::props::queue::{make_pair, random_accept, random_ts, transmit_some_way};

/// Like `any_val`, sometimes with large numbers (few enough of them not to overflow sums).
fn val_with_big(r: &mut Rng, big_left: &mut u32) -> Val {
    if *big_left > 0 && r.chance(1, 8) {
        *big_left -= 1;
        let big = match r.below(4) {
            0 => (1u64 << 32) + r.below(3) - 1,
            1 => (1u64 << 53) + r.below(5),
            2 => (1u64 << 31) + r.below(3) - 1,
            _ => r.below(1 << 58),
        };
        match r.below(6) {
            0 => Val::I(big as i64),
            1 => Val::U(big),
            2 => Val::D(big >> 32, r.below(4) as u8),
            3 => Val::F((big as f64).to_bits()),
            _ => Val::Count(big),
        }
    } else {
        any_val(r)
    }
}

// ------------------------------------------------------------------ C14
pub fn c14() {
    rule("random observation sequences (all kinds and values, large counts, any time stamp) fed to counters, meters and value meters directly, through adapters and through processors with random batches, with random virtual time and snapshots in between; after every snapshot the counts must equal the model and must not decrease. Non-trivial: at least one counted observation.");
    run("counts", 60_000, 1_600_000, 8, c14_case);
}
fn c14_case(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    if r.chance(1, 4) {
        clock::set_step(r.below(2_000_000_000) as i64);
    }
    let unit = r.below(4) as u8;
    let (acc, filter) = random_accept(&mut r);
    let (acc2, filter2) = random_accept(&mut r);
    let (acc3, filter3) = random_accept(&mut r);
    // direct
    let mut dc = Counter::new("c");
    let mut dm = Meter::new("m");
    let mut dv = ValueMeter::new("v").display_time_unit(UNITS[unit as usize]);
    if r.bool() {
        dm = dm.five_minute_rate_enabled(true);
        dm.set_one_minute_rate_enabled(false);
        dv = dv.lower_cutoff(1e6);
    }
    // adapters
    let mut ac: InstrumentAdapter<u8, Counter> = Counter::new("c").accept(filter);
    let mut am: InstrumentAdapter<u8, Meter> = InstrumentAdapter::accept(filter2, Meter::new("m"));
    let mut av = InstrumentAdapter::accept(filter3, ValueMeter::new("v").display_time_unit(UNITS[unit as usize]));
    // in a processor
    let (tx, mut p) = make_pair(&mut r, None, true);
    let named = p.get_name().is_some();
    p.add_cockpit(
        Cockpit::new("k").panel(
            Panel::named(AcceptAllLabels, "p")
                .counter(Counter::new("c"))
                .meter(Meter::new("m"))
                .instrument(ValueMeter::new("v").display_time_unit(UNITS[unit as usize])),
        ),
    );
    let pre: Vec<&str> = if named { vec!["proc", "k", "p"] } else { vec!["k", "p"] };
    let at = |tail: &[&'static str]| -> Vec<&'static str> {
        let mut v: Vec<&'static str> = if named { vec!["proc", "k", "p"] } else { vec!["k", "p"] };
        v.extend_from_slice(tail);
        v
    };
    let _ = pre;
    let mut want = [[0u64; 3]; 3]; // route x instrument
    let mut queue: VecDeque<Val> = VecDeque::new();
    let mut big = 6;
    let mut trace = String::new();
    for _ in 0..(1 + r.below(60)) {
        match r.below(8) {
            0 => clock::advance(r.below(20_000_000_000) as i64),
            1 => {
                // a pass
                let n = *r.pick(&[1usize, 2, 5, 1000]);
                p.process(n, ALL);
                for _ in 0..n.min(queue.len()) {
                    let v = queue.pop_front().unwrap();
                    want[2][0] += v.multiplicity();
                    want[2][1] += v.multiplicity();
                    want[2][2] += v.amount(unit).unwrap_or(0) as u64;
                }
                trace.push_str(&format!("pass{} ", n));
            }
            2 => {
                let desc = r.bool();
                let s = [shot_of(&dc, desc), shot_of(&dm, desc), shot_of(&dv, desc)];
                let t = [shot_of(&ac, desc), shot_of(&am, desc), shot_of(&av, desc)];
                let u = shot_of(&p, desc);
                c.eq(dc.get(), want[0][0], || "Counter::get".into());
                for (i, path) in [&["c"][..], &["m", "count"], &["v", "count"]].iter().enumerate() {
                    c.eq(s[i].u(path), Some(want[0][i]), || format!("{:?} (direct) after {}", path, trace));
                    c.eq(t[i].u(path), Some(want[1][i]), || format!("{:?} (adapter) after {}", path, trace));
                    c.eq(u.u(&at(path)), Some(want[2][i]), || format!("{:?} (processor) after {}", path, trace));
                }
                count("snapshots", 1);
            }
            _ => {
                let v = val_with_big(&mut r, &mut big);
                let label = r.below(8) as u8;
                let ts = random_ts(&mut r);
                trace.push_str(&format!("{}:{:?} ", label, v));
                if v == Val::One && r.bool() {
                    dc.inc();
                } else if let (Val::Count(n), true) = (v, r.bool()) {
                    dc.inc_by(n);
                } else {
                    dc.update(&v.update(ts));
                }
                dm.update(&v.update(ts));
                dv.update(&v.update(ts));
                let o = v.observation(label, ts);
                ac.handle_observation(&o);
                am.handle_observation(&o);
                av.handle_observation(&o);
                want[0][0] += v.multiplicity();
                want[0][1] += v.multiplicity();
                want[0][2] += v.amount(unit).unwrap_or(0) as u64;
                want[1][0] += v.multiplicity() * acc[label as usize] as u64;
                want[1][1] += v.multiplicity() * acc2[label as usize] as u64;
                want[1][2] += v.amount(unit).unwrap_or(0) as u64 * acc3[label as usize] as u64;
                transmit_some_way(&mut r, &tx, &Ob { label, val: v, ts });
                queue.push_back(v);
            }
        }
    }
    // all three at the end
    p.process(usize::MAX, ALL);
    for v in queue.drain(..) {
        want[2][0] += v.multiplicity();
        want[2][1] += v.multiplicity();
        want[2][2] += v.amount(unit).unwrap_or(0) as u64;
    }
    let u = shot_of(&p, false);
    c.eq(
        [u.u(&at(&["c"])), u.u(&at(&["m", "count"])), u.u(&at(&["v", "count"]))],
        [Some(want[2][0]), Some(want[2][1]), Some(want[2][2])],
        || format!("final counts (processor) after {}", trace),
    );
    c.eq([dc.get(), ac.instrument().get()], [want[0][0], want[1][0]], || format!("Counter::get after {}", trace));
    c.eq([shot_of(&dm, false).u(&["m", "count"]), shot_of(&am, false).u(&["m", "count"])], [Some(want[0][1]), Some(want[1][1])], || format!("final meter counts after {}", trace));
    c.eq([shot_of(&dv, false).u(&["v", "count"]), shot_of(&av, false).u(&["v", "count"])], [Some(want[0][2]), Some(want[1][2])], || format!("final value meter counts after {}", trace));
    c.sig(&trace);
    if want[0][0] == 0 {
        c.trivial();
    }
    count("observations", want[2][1]);
    c.sample(|| trace.clone());
}

// ------------------------------------------------------------------ C15
struct RateModel {
    t0: i64,
    rates: [Option<f64>; 3],
    ticks: i64,
    pending: u64,
}
impl RateModel {
    fn new() -> Self {
        RateModel { t0: clock::now_ns(), rates: [None; 3], ticks: 0, pending: 0 }
    }
    fn tick(&mut self) {
        let k = (clock::now_ns() - self.t0) / (5 * clock::NS);
        while self.ticks < k {
            self.ticks += 1;
            let i = self.pending as f64 / 5.0;
            self.pending = 0;
            for (w, rate) in [1.0f64, 5.0, 15.0].iter().zip(self.rates.iter_mut()) {
                let alpha = 1.0 - (-5.0 / 60.0 / w).exp();
                *rate = Some(match *rate {
                    None => i,
                    Some(r) => r + alpha * (i - r),
                });
            }
        }
    }
}
pub fn c15() {
    rule("meters and value meters under virtual time: random update patterns, idle gaps around multiples of the 5 s tick (+-1 ns) up to days, snapshots at random moments or none; every shown rate must equal an independently computed exponentially weighted average, rates under the cutoff are 0 and exactly the enabled rates are shown. Non-trivial: some rate other than 0 was shown.");
    run("rates", 50_000, 1_200_000, 8, c15_case);
}
fn c15_case(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let value_meter = r.bool();
    let unit = r.below(4) as u8;
    let defaults = r.chance(1, 4);
    let mut on = [true, false, false];
    let mut cutoff = 0.001;
    if !defaults {
        on = [r.bool(), r.bool(), r.bool()];
        cutoff = *r.pick(&[0.001, 0.0, 0.5, 3.0, 1e-9, -1.0]);
    }
    let mut m = Meter::new("m");
    let mut v = ValueMeter::new("m");
    if !defaults {
        if r.bool() {
            m = m.one_minute_rate_enabled(on[0]).five_minute_rate_enabled(on[1]).fifteen_minute_rate_enabled(on[2]).lower_cutoff(cutoff);
            v = v.one_minute_rate_enabled(on[0]).five_minute_rate_enabled(on[1]).fifteen_minute_rate_enabled(on[2]).lower_cutoff(cutoff).display_time_unit(UNITS[unit as usize]);
        } else {
            m.set_one_minute_rate_enabled(on[0]);
            m.set_five_minute_rate_enabled(on[1]);
            m.set_fifteen_minute_rate_enabled(on[2]);
            m.set_lower_cutoff(cutoff);
            v.set_one_minute_rate_enabled(on[0]);
            v.set_five_minute_rate_enabled(on[1]);
            v.set_fifteen_minute_rate_enabled(on[2]);
            v.set_lower_cutoff(cutoff);
            v.set_display_time_unit(UNITS[unit as usize]);
        }
    }
    let unit = if defaults { 1 } else { unit };
    let mut model = RateModel::new();
    let mut seen_rate = false;
    let mut trace = String::new();
    let rare_snapshots = r.bool();
    for _ in 0..(2 + r.below(50)) {
        match r.below(10) {
            0..=3 => {
                let to_tick = 5 * clock::NS - (clock::now_ns() - model.t0).rem_euclid(5 * clock::NS);
                let ns = match r.below(9) {
                    0 => to_tick - 1,
                    1 => to_tick + 1,
                    2 => to_tick - 1 + 5 * clock::NS * r.below(4) as i64,
                    3 => to_tick + 1 + 5 * clock::NS * r.below(4) as i64,
                    4 => r.below(1_000_000_000) as i64,
                    5 => r.below(5_000_000_000) as i64,
                    6 => r.below(60_000_000_000) as i64,
                    7 => r.below(1_000_000_000_000) as i64,
                    _ => {
                        if r.chance(1, 20) {
                            r.below(200_000) as i64 * clock::NS
                        } else {
                            r.below(9_000_000_000) as i64
                        }
                    }
                };
                // never exactly on a tick
                let ns = if (clock::now_ns() + ns - model.t0) % (5 * clock::NS) == 0 { ns + 1 } else { ns };
                clock::advance(ns);
                trace.push_str(&format!("+{:.3}s ", ns as f64 / 1e9));
            }
            4..=7 => {
                for _ in 0..(1 + r.below(4)) {
                    let val = if value_meter && r.bool() {
                        *r.pick(&[Val::I(1), Val::I(100), Val::U(7), Val::D(1_500, 2), Val::D(3, 3), Val::I(-5), Val::F(2.4f64.to_bits())])
                    } else {
                        match r.below(3) {
                            0 => Val::Count(r.below(10_000)),
                            _ => any_val(&mut r),
                        }
                    };
                    let ts = random_ts(&mut r);
                    model.tick();
                    if value_meter {
                        v.update(&val.update(ts));
                        let a = val.amount(unit).unwrap_or(0) as u64;
                        model.pending += a;
                        trace.push_str(&format!("v{} ", a));
                    } else {
                        m.update(&val.update(ts));
                        model.pending += val.multiplicity();
                        trace.push_str(&format!("n{} ", val.multiplicity()));
                    }
                }
            }
            _ => {
                if rare_snapshots && r.chance(3, 4) {
                    continue;
                }
                model.tick();
                let s = if value_meter { shot_of(&v, r.bool()) } else { shot_of(&m, r.bool()) };
                c15_compare(c, &s, &model, on, cutoff, &trace, &mut seen_rate);
            }
        }
    }
    if r.bool() {
        let n = clock::NS * r.below(30) as i64 + 1;
        if (clock::now_ns() + n - model.t0) % (5 * clock::NS) != 0 {
            clock::advance(n);
        }
    }
    model.tick();
    let s = if value_meter { shot_of(&v, false) } else { shot_of(&m, false) };
    c15_compare(c, &s, &model, on, cutoff, &trace, &mut seen_rate);
    // only rates below the limit are shown as zero: at the same moment with limits right at a shown rate
    for k in ["one_minute", "five_minutes", "fifteen_minutes"] {
        let g = match s.f(&["m", k, "rate"]) {
            Some(g) if g > 0.0 => g,
            _ => continue,
        };
        for (limit, want) in [(g, g), (f64::from_bits(g.to_bits() + 1), 0.0), (f64::from_bits(g.to_bits() - 1), g)] {
            let s = if value_meter {
                v.set_lower_cutoff(limit);
                shot_of(&v, r.bool())
            } else {
                m.set_lower_cutoff(limit);
                shot_of(&m, r.bool())
            };
            c.eq(s.f(&["m", k, "rate"]), Some(want), || format!("{} rate {:?} with the limit {:?} after {}", k, g, limit, trace));
        }
        count("rates_at_the_limit", 1);
    }
    c.sig(&trace);
    if !seen_rate {
        c.trivial();
    }
    count("ticks", model.ticks as u64);
    c.sample(|| format!("{} rates on {:?} cutoff {}: {} -> {}", if value_meter { "value meter" } else { "meter" }, on, cutoff, trace, snap_str(&s)));
}
fn c15_compare(c: &Case, s: &Snapshot, model: &RateModel, on: [bool; 3], cutoff: f64, trace: &str, seen: &mut bool) {
    let mut keys = match s.at(&["m"]) {
        Some(ItemKind::Snapshot(g)) => g.keys(),
        other => c.fail(format!("no group of the meter but {:?}", other)),
    };
    let mut want_keys = vec!["count".to_string()];
    for (i, k) in ["one_minute", "five_minutes", "fifteen_minutes"].iter().enumerate() {
        if on[i] {
            want_keys.push(k.to_string());
            let got = s.f(&["m", k, "rate"]);
            let raw = model.rates[i].unwrap_or(0.0);
            let want = if raw < cutoff { 0.0 } else { raw };
            let near_cutoff = (raw - cutoff).abs() <= 1e-9 * (raw.abs() + cutoff.abs());
            let eq = |a: f64, b: f64| (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-15;
            let ok = match got {
                Some(g) => eq(g, want) || (near_cutoff && (g == 0.0 || eq(g, raw))),
                None => false,
            };
            c.check(ok, || format!("{} rate is {:?}, expected {} (cutoff {}) after {} ticks: {}", k, got, want, cutoff, model.ticks, trace));
            if want > 0.0 {
                *seen = true;
            }
        }
    }
    keys.sort();
    want_keys.sort();
    c.eq(keys, want_keys, || "shown parts of the meter".into());
    count("rates_compared", on.iter().filter(|x| **x).count() as u64);
}

// ------------------------------------------------------------------ C16
#[derive(Clone, Copy, Debug)]
pub enum GKind {
    Filter([bool; 16]),
    Deltas([bool; 16]),
    IncDec([bool; 16], [bool; 16]),
}
fn only(l: u8) -> [bool; 16] {
    let mut a = [false; 16];
    a[l as usize] = true;
    a
}
fn those(v: &[u8]) -> [bool; 16] {
    let mut a = [false; 16];
    v.iter().for_each(|l| a[*l as usize] = true);
    a
}
fn random_labels(r: &mut Rng) -> Vec<u8> {
    (0..r.usize(8)).map(|_| r.below(8) as u8).collect()
}
/// Every way to make a gauge adapter.
pub fn gauge_adapter(r: &mut Rng, g: Gauge) -> (GaugeAdapter<u8>, GKind, &'static str) {
    let l = r.below(8) as u8;
    let k = r.below(9) as u8;
    let v = random_labels(r);
    let w = random_labels(r);
    let below = {
        let mut a = [false; 16];
        (0..16).for_each(|i| a[i] = (i as u8) < k);
        a
    };
    let none = [false; 16];
    let (fa, f) = random_accept(r);
    let (fb, f2) = random_accept(r);
    match r.below(24) {
        0 => (GaugeAdapter::new(g), GKind::Filter([true; 16]), "new"),
        1 => (g.into(), GKind::Filter([true; 16]), "into"),
        2 => (GaugeAdapter::accept(f, g), GKind::Filter(fa), "accept"),
        3 => (GaugeAdapter::for_label(l, g), GKind::Filter(only(l)), "for_label"),
        4 => (GaugeAdapter::for_labels(v.clone(), g), GKind::Filter(those(&v)), "for_labels"),
        5 => (GaugeAdapter::for_labels_by_predicate(move |x: &u8| *x < k, g), GKind::Filter(below), "predicate"),
        6 => (GaugeAdapter::deltas_only(f, g), GKind::Deltas(fa), "deltas_only"),
        7 => (GaugeAdapter::for_label_deltas_only(l, g), GKind::Deltas(only(l)), "for_label_deltas_only"),
        8 => (GaugeAdapter::for_labels_deltas_only(v.clone(), g), GKind::Deltas(those(&v)), "for_labels_deltas_only"),
        9 => (GaugeAdapter::for_labels_deltas_only_by_predicate(move |x: &u8| *x < k, g), GKind::Deltas(below), "deltas predicate"),
        10 => (GaugeAdapter::inc_dec_on(f, f2, g), GKind::IncDec(fa, fb), "inc_dec_on"),
        11 => (GaugeAdapter::inc_dec_on_many(v.clone(), w.clone(), g), GKind::IncDec(those(&v), those(&w)), "inc_dec_on_many"),
        12 => (GaugeAdapter::inc_dec_by_predicates(move |x: &u8| *x < k, move |x: &u8| *x == l, g), GKind::IncDec(below, only(l)), "inc_dec_by_predicates"),
        13 => (GaugeAdapter::deaf(g), GKind::Filter(none), "deaf"),
        14 => (g.accept(f), GKind::Filter(fa), "Gauge::accept"),
        15 => (g.for_label(l), GKind::Filter(only(l)), "Gauge::for_label"),
        16 => (g.for_labels(v.clone()), GKind::Filter(those(&v)), "Gauge::for_labels"),
        17 => (g.for_all_labels(), GKind::Filter([true; 16]), "Gauge::for_all_labels"),
        18 => (g.for_labels_by_predicate(move |x: &u8| *x < k), GKind::Filter(below), "Gauge::predicate"),
        19 => (g.adapter(), GKind::Filter(none), "Gauge::adapter"),
        20 => match r.below(4) {
            0 => (g.deltas_only(f), GKind::Deltas(fa), "Gauge::deltas_only"),
            1 => (g.for_label_deltas_only(l), GKind::Deltas(only(l)), "Gauge::for_label_deltas_only"),
            2 => (g.for_labels_deltas_only(v.clone()), GKind::Deltas(those(&v)), "Gauge::for_labels_deltas_only"),
            _ => (g.for_labels_deltas_only_by_predicate(move |x: &u8| *x < k), GKind::Deltas(below), "Gauge::deltas predicate"),
        },
        21 => (g.inc_dec_on(l, w.clone()), GKind::IncDec(only(l), those(&w)), "Gauge::inc_dec_on"),
        22 => (g.inc_dec_on_many(v.clone(), w.clone()), GKind::IncDec(those(&v), those(&w)), "Gauge::inc_dec_on_many"),
        _ => (g.inc_dec_by_predicates(move |x: &u8| *x < k, move |x: &u8| *x == l), GKind::IncDec(below, only(l)), "Gauge::inc_dec_by_predicates"),
    }
}
fn gauge_step(cur: Option<i64>, v: Val, unit: u8) -> Option<i64> {
    match v {
        Val::One | Val::Count(_) => cur,
        Val::C(d) => Some(cur.unwrap_or(0).saturating_add(d)),
        v => v.number(unit).or(cur),
    }
}
pub fn c16() {
    rule("gauges of any configuration behind every kind of adapter, directly, in panels and in processors: random sets, changes, durations and values that are no number; after every operation the shown value must equal the model. Non-trivial: at least one set and one change.");
    run("gauge", 100_000, 2_400_000, 8, c16_case);
}
fn c16_case(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let unit = r.below(4) as u8;
    let group = r.bool();
    let mut cur: Option<i64> = None;
    let mut g = Gauge::new("g");
    if r.chance(1, 3) {
        g = g.group_values(group).display_time_unit(UNITS[unit as usize]);
    } else {
        g.set_display_time_unit(UNITS[unit as usize]);
        g = g.group_values(group);
    }
    if r.bool() {
        g.set_tracking(r.usize(70));
    } else if r.bool() {
        g = g.tracking(r.usize(70));
    }
    if r.chance(1, 4) {
        let v = r.range(-100, 100);
        g = g.value(v);
        cur = Some(v);
    }
    let (adapter, kind, how) = gauge_adapter(&mut r, g);
    enum Host {
        Direct(GaugeAdapter<u8>),
        Panel(Panel<u8>),
        Proc(TelemetryTransmitter<u8>, TelemetryProcessor<u8>),
    }
    let (mut host, pre): (Host, Vec<&str>) = match r.below(3) {
        0 => (Host::Direct(adapter), vec![]),
        1 => {
            let mut p = if r.bool() { Panel::accept_all() } else { Panel::accept_all().gauge(Gauge::new("other").adapter()) };
            p.add_gauge(adapter);
            (Host::Panel(p), vec![])
        }
        _ => {
            let (tx, mut p) = TelemetryProcessor::new_pair_without_name();
            p.add_cockpit(Cockpit::new("k").panel(Panel::accept_all_named("p").gauge(adapter)));
            (Host::Proc(tx, p), vec!["k", "p"])
        }
    };
    let path: Vec<&str> = pre.iter().copied().chain(if group { vec!["g", "current"] } else { vec!["g"] }).collect();
    let (mut sets, mut changes) = (0, 0);
    let mut trace = format!("{} {:?}: ", how, kind);
    let ext = r.chance(1, 5);
    for _ in 0..(1 + r.below(40)) {
        let mut v = any_val(&mut r);
        if ext && r.chance(1, 6) {
            v = *r.pick(&[
                Val::I(i64::MAX), Val::I(i64::MIN), Val::U(i64::MAX as u64), Val::C(i64::MAX), Val::C(i64::MIN),
                Val::F((9.3e18f64).to_bits()), Val::F((-9.2e18f64).to_bits()), Val::D(u64::MAX, 3), Val::D(u64::MAX, 0),
            ]);
        }
        if r.chance(1, 3) {
            v = Val::C(r.range(-20, 20));
        }
        let label = r.below(8) as u8;
        let ts = random_ts(&mut r);
        let o = v.observation(label, ts);
        match &mut host {
            Host::Direct(a) => {
                a.handle_observation(&o);
            }
            Host::Panel(p) => {
                p.handle_observation(&o);
            }
            Host::Proc(tx, p) => {
                if matches!(v, Val::C(_)) && r.bool() {
                    let d = match v {
                        Val::C(d) => d,
                        _ => 0,
                    };
                    match d {
                        1 => drop(tx.observed_one_value_now(label, Increment)),
                        -1 => drop(tx.observed_one_value_now(label, Decrement)),
                        d if d > 0 && d < 1000 => drop(tx.observed_one_value_now(label, IncrementBy(d as u32))),
                        d if d < 0 && d > -1000 => drop(tx.observed_one_value_now(label, DecrementBy(-d as u32))),
                        d => drop(tx.observed_one_value_now(label, ChangeBy(d))),
                    }
                } else {
                    tx.transmit(o);
                }
                p.process(10, ALL);
            }
        }
        let before = cur;
        let l = label as usize;
        cur = match kind {
            GKind::Filter(a) if a[l] => gauge_step(cur, v, unit),
            GKind::Deltas(a) if a[l] && v.is_delta() => gauge_step(cur, v, unit),
            GKind::IncDec(a, _) if a[l] => gauge_step(cur, Val::C(1), unit),
            GKind::IncDec(_, b) if b[l] => gauge_step(cur, Val::C(-1), unit),
            _ => cur,
        };
        if cur != before {
            if v.is_delta() || matches!(kind, GKind::IncDec(..)) {
                changes += 1
            } else {
                sets += 1
            }
        }
        trace.push_str(&format!("{}:{:?} ", label, v));
        if r.chance(1, 4) {
            clock::advance(r.below(3_000_000_000) as i64);
        }
        let s = match &host {
            Host::Direct(a) => {
                c.eq(a.gauge().get(), cur, || format!("Gauge::get after {}", trace));
                shot_of(a, r.bool())
            }
            Host::Panel(p) => shot_of(p, false),
            Host::Proc(_, p) => shot_of(p, false),
        };
        c.eq(s.i(&path), cur, || format!("shown gauge after {}; snapshot {}", trace, snap_str(&s)));
    }
    count("sets", sets);
    count("changes", changes);
    if sets + changes < 2 {
        c.trivial();
    }
    c.sig(&trace);
    c.sample(|| trace.clone());
}

// ------------------------------------------------------------------ C17
pub fn c17() {
    rule("tracked gauges under virtual time: windows of 1 s to hours, random sets and changes, gaps of any size (also +-1 ns around whole seconds and around the window), snapshots at random times; every statistic must equal the one computed from the full history. A second workload lets time pass during the snapshot and checks the orderings. Non-trivial: some update had left the window when a snapshot was taken.");
    run("window", 45_000, 1_200_000, 8, |c| c17_case(c, false));
    run("flowing", 10_000, 200_000, 8, |c| c17_case(c, true));
}
fn c17_case(c: &mut Case, flowing: bool) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let n = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 5 + r.below(10),
        _ if r.chance(1, 60) => 100 + r.below(20_000),
        _ => 1 + r.below(100),
    } as i64;
    let group = r.bool();
    let mut g = Gauge::new("g").group_values(group).tracking(r.usize(4));
    clock::advance(r.below(5_000_000_000) as i64);
    let t_set;
    if r.bool() {
        t_set = clock::now_ns();
        g.set_tracking(n as usize);
    } else {
        t_set = clock::now_ns();
        g = g.tracking(n as usize);
    }
    if r.chance(1, 4) {
        g.set_tracking(0);
    }
    if flowing {
        clock::set_step(1 + r.below(300_000_000) as i64);
    }
    let mut adapter: GaugeAdapter<u8> = g.for_all_labels();
    let mut cur: Option<i64> = None;
    let mut hist: Vec<(i64, i64)> = vec![];
    let mut left_window = false;
    let mut trace = format!("window {} s: ", n);
    let wide = r.chance(1, 6);
    for _ in 0..(2 + r.below(50)) {
        match r.below(8) {
            0 | 1 => {
                let sec = clock::NS;
                let to_next = sec - (clock::now_ns() - t_set).rem_euclid(sec);
                let mut d = match r.below(8) {
                    0 => to_next - 1,
                    1 => to_next + 1,
                    2 => to_next + 1 + sec * r.below(4) as i64,
                    3 => to_next + (n - 1) * sec + 1,
                    4 => to_next + n * sec - 1,
                    5 => to_next + n * sec + 1,
                    6 => r.below(1_000_000_000) as i64,
                    _ => r.below(2 * n as u64 * 1_000_000_000) as i64,
                };
                if r.chance(1, 40) {
                    d += r.below(400_000) as i64 * sec;
                }
                if (clock::now_ns() + d - t_set) % sec == 0 {
                    d += 1;
                }
                clock::advance(d);
                trace.push_str(&format!("+{:.9} ", d as f64 / 1e9));
            }
            2 if r.chance(1, 60) => {
                // many updates within one second
                let k = if r.chance(1, 60) { 70_000 } else { 1 + r.below(400) };
                for _ in 0..k {
                    let v = if r.chance(1, 3) { Val::C(r.range(-2, 2)) } else { Val::I(r.range(-100, 100)) };
                    adapter.handle_observation(&v.observation(1, Instant::now()));
                    cur = gauge_step(cur, v, 1);
                    hist.push((clock::now_ns(), cur.unwrap()));
                }
                trace.push_str(&format!("{} updates to {} ", k, cur.unwrap()));
            }
            2 | 3 | 4 | 5 => {
                let v = match r.below(4) {
                    0 => Val::C(r.range(-10, 10)),
                    1 => Val::D(r.below(5000), 1),
                    2 if wide => *r.pick(&[Val::I(i64::MAX), Val::I(i64::MIN), Val::I(i64::MAX - 3), Val::I(1 << 60)]),
                    _ => Val::I(r.range(-100, 100)),
                };
                adapter.handle_observation(&v.observation(1, random_ts(&mut r)));
                cur = gauge_step(cur, v, 1);
                hist.push((clock::now_ns(), cur.unwrap()));
                trace.push_str(&format!("{} ", cur.unwrap()));
            }
            _ => {
                let s = shot_of(&adapter, r.bool());
                c17_compare(c, &s, group, n, t_set, cur, &hist, &mut left_window, flowing, &trace);
                trace.push_str("snap ");
            }
        }
    }
    let s = shot_of(&adapter, false);
    c17_compare(c, &s, group, n, t_set, cur, &hist, &mut left_window, flowing, &trace);
    if !left_window {
        c.trivial();
    }
    c.sig(&trace);
    count("updates", hist.len() as u64);
    c.sample(|| format!("{} -> {}", trace, snap_str(&s)));
}
fn c17_compare(c: &Case, s: &Snapshot, group: bool, n: i64, t_set: i64, cur: Option<i64>, hist: &[(i64, i64)], left: &mut bool, flowing: bool, trace: &str) {
    let key = |k: &str| -> Vec<String> {
        match (group, k) {
            (true, "") => vec!["g".into(), "current".into()],
            (true, k) => vec!["g".into(), k.into()],
            (false, "") => vec!["g".into()],
            (false, k) => vec![format!("g_{}", k)],
        }
    };
    let f = |k: &str| -> Option<f64> {
        let p = key(k);
        s.f(&p.iter().map(|x| &**x).collect::<Vec<_>>())
    };
    let i = |k: &str| -> Option<i64> {
        let p = key(k);
        s.i(&p.iter().map(|x| &**x).collect::<Vec<_>>())
    };
    let ints = ["", "peak", "peak_min", "bottom", "bottom_max"];
    let floats = ["peak_avg", "bottom_avg", "avg"];
    let cur = match cur {
        None => {
            for k in ints.iter().chain(&floats) {
                c.check(f(k).is_none(), || format!("{:?} shown before the gauge was set", k));
            }
            return;
        }
        Some(v) => v,
    };
    let got: Vec<Option<i64>> = ints.iter().map(|k| i(k)).collect();
    let got_f: Vec<Option<f64>> = floats.iter().map(|k| f(k)).collect();
    c.check(got.iter().all(|x| x.is_some()) && got_f.iter().all(|x| x.is_some()), || format!("statistics missing: {} after {}", snap_str(s), trace));
    let (peak, peak_min, bottom, bottom_max) = (got[1].unwrap(), got[2].unwrap(), got[3].unwrap(), got[4].unwrap());
    let (peak_avg, bottom_avg, avg) = (got_f[0].unwrap(), got_f[1].unwrap(), got_f[2].unwrap());
    c.eq(got[0], Some(cur), || format!("current value after {}", trace));
    let le = |a: f64, b: f64| a <= b + 1e-9 * (a.abs().max(b.abs()));
    c.check(bottom <= bottom_max && peak_min <= peak && bottom <= peak && bottom_max <= peak && bottom <= peak_min, || format!("extremes out of order in {} after {}", snap_str(s), trace));
    c.check(
        le(bottom as f64, avg) && le(avg, peak as f64) && le(bottom as f64, bottom_avg) && le(bottom_avg, bottom_max as f64) && le(peak_min as f64, peak_avg) && le(peak_avg, peak as f64),
        || format!("averages outside of their extremes in {} after {}", snap_str(s), trace),
    );
    count("statistics_compared", 1);
    if flowing {
        if !hist.is_empty() && clock::now_ns() - hist[0].0 > (n + 1) * clock::NS {
            *left = true;
        }
        return;
    }
    let idx = |t: i64| (t - t_set).div_euclid(clock::NS);
    let now = idx(clock::now_ns());
    let mut buckets: BTreeMap<i64, (i64, i64, i128, u64)> = BTreeMap::new();
    for (t, v) in hist {
        let k = idx(*t);
        if k <= now - n {
            *left = true;
            continue;
        }
        let b = buckets.entry(k).or_insert((*v, *v, 0, 0));
        b.0 = b.0.min(*v);
        b.1 = b.1.max(*v);
        b.2 += *v as i128;
        b.3 += 1;
    }
    if buckets.is_empty() {
        buckets.insert(now, (cur, cur, cur as i128, 1));
    }
    let want = (
        buckets.values().map(|b| b.1).max().unwrap(),
        buckets.values().map(|b| b.1).min().unwrap(),
        buckets.values().map(|b| b.0).min().unwrap(),
        buckets.values().map(|b| b.0).max().unwrap(),
    );
    let k = buckets.len() as f64;
    let want_f = (
        buckets.values().map(|b| b.1 as i128).sum::<i128>() as f64 / k,
        buckets.values().map(|b| b.0 as i128).sum::<i128>() as f64 / k,
        buckets.values().map(|b| b.2).sum::<i128>() as f64 / buckets.values().map(|b| b.3).sum::<u64>() as f64,
    );
    c.eq((peak, peak_min, bottom, bottom_max), want, || format!("(peak, peak_min, bottom, bottom_max) after {}", trace));
    c.check(close(peak_avg, want_f.0) && close(bottom_avg, want_f.1) && close(avg, want_f.2), || {
        format!("(peak_avg, bottom_avg, avg) = {:?}, expected {:?} after {}", (peak_avg, bottom_avg, avg), want_f, trace)
    });
}

// ------------------------------------------------------------------ C18
pub fn c18() {
    rule("histograms under virtual time with and without inactivity limits, fed 0..5000 values of all kinds (durations of all units, non-numeric ones, extremes) with gaps around the limit; count, membership, exactness, order and mean of every snapshot are checked against the multiset of values since the last reset; when all values weigh the same also quantile ranks, mean and deviation. Non-trivial: at least two values.");
    run("histogram", 30_000, 600_000, 8, |c| c18_case(c, false));
    run("large", 900, 22_500, 8, |c| c18_case(c, true));
}
fn c18_case(c: &mut Case, large: bool) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let unit = r.below(4) as u8;
    let most = if r.chance(1, 20) { 1_000_000_000_000_000 } else { 100_000_000_000 };
    let limit = if r.bool() { Some(Duration::from_nanos(2 + r.below(most))) } else { None };
    let reset = r.chance(2, 3);
    let show = r.chance(2, 3);
    let mut h = Histogram::new("h");
    if r.bool() {
        h.set_display_time_unit(UNITS[unit as usize]);
        if let Some(l) = limit {
            h.set_inactivity_limit(l);
        }
        if !reset || r.bool() {
            h.set_reset_after_inactivity(reset);
        }
        if !show || r.bool() {
            h.set_show_activity_state(show);
        }
    } else {
        h = h.display_time_unit(UNITS[unit as usize]).reset_after_inactivity(reset).show_activity_state(show);
        if let Some(l) = limit {
            h = h.inactivity_limit(l);
        }
    }
    let frozen = r.bool(); // all values weigh the same
    let mut vals: Vec<i64> = vec![];
    let mut last = clock::now_ns();
    let mut span = 0i64; // the decay forgets values after half a day
    let mut trace = format!("limit {:?} reset {} show {}: ", limit, reset, show);
    let mut host = InstrumentAdapter::<u8, Histogram>::new(h);
    let steps = if large { 20 + r.below(20) } else { 2 + r.below(40) };
    let spread = *r.pick(&[3i64, 100, 1_000_000]);
    let mut seen = 0;
    for _ in 0..steps {
        match r.below(6) {
            0 if !frozen || limit.is_some() => {
                let lim = limit.map(|l| l.as_nanos() as i64).unwrap_or(5 * clock::NS);
                let d = match r.below(5) {
                    0 => lim - 1,
                    1 => lim + 1,
                    2 => lim / 2,
                    3 => 3 * lim,
                    _ => r.below(2_000_000_000) as i64,
                };
                let d = if frozen { lim * 2 + 5 * clock::NS } else { d };
                if frozen && !reset {
                    continue;
                }
                if span + d > HALF_A_DAY && (limit.is_none() || frozen) {
                    continue;
                }
                let elapsed = clock::now_ns() + d - last;
                let d = if elapsed == lim { d + 1 } else { d };
                clock::advance(d);
                span += d;
                trace.push_str(&format!("+{:.9} ", d as f64 / 1e9));
            }
            1 => {
                let s = shot_of(&host, r.bool());
                c18_compare(c, &s, limit, show, &vals, last, frozen, span <= HALF_A_DAY, &trace);
                trace.push_str("snap ");
            }
            _ => {
                let n = if large { 50 + r.below(300) } else { 1 + r.below(4) };
                for k in 0..n {
                    let v = match r.below(8) {
                        0 => any_val(&mut r),
                        1 => Val::D(r.below(5_000_000), r.below(4) as u8),
                        2 => Val::F((r.range(-4000, 4000) as f64 / 8.0).to_bits()),
                        3 => *r.pick(&[Val::C(5), Val::One, Val::Count(7), Val::B(true), Val::F(f64::NAN.to_bits()), Val::U(u64::MAX)]),
                        4 if r.chance(1, 4) => *r.pick(&[Val::I(i64::MAX), Val::I(i64::MIN), Val::U(1 << 62), Val::D(u64::MAX, 3)]),
                        _ => Val::I(r.range(-spread, spread)),
                    };
                    if let (Some(l), true) = (limit, reset) {
                        if clock::now_ns() - last > l.as_nanos() as i64 {
                            vals.clear();
                            span = 0;
                        }
                    }
                    host.handle_observation(&v.observation(k as u8, random_ts(&mut r)));
                    if let Some(x) = v.number(unit) {
                        vals.push(x);
                        last = clock::now_ns();
                        seen += 1;
                    }
                    if !large {
                        trace.push_str(&format!("{:?} ", v));
                    }
                }
                if large {
                    trace.push_str(&format!("{} values ", n));
                }
            }
        }
    }
    let s = shot_of(&host, false);
    c18_compare(c, &s, limit, show, &vals, last, frozen, span <= HALF_A_DAY, &trace);
    if seen < 2 {
        c.trivial();
    }
    c.sig(&trace);
    count("values", seen);
    c.sample(|| format!("{} -> {}", trace, snap_str(&s)));
}
const HALF_A_DAY: i64 = 9 * 3600 * clock::NS;
fn c18_compare(c: &Case, s: &Snapshot, limit: Option<Duration>, show: bool, vals: &[i64], last: i64, same_weight: bool, fresh: bool, trace: &str) {
    let g = match s.at(&["h"]) {
        Some(ItemKind::Snapshot(g)) => g,
        other => c.fail(format!("histogram is {:?} after {}", other, trace)),
    };
    let mut keys = g.keys();
    keys.sort();
    let mut want: Vec<&str> = vec![];
    let active = match limit {
        Some(l) => clock::now_ns() - last < l.as_nanos() as i64,
        None => true,
    };
    if limit.is_some() && show {
        want.extend(["_active", "_inactive"]);
        c.eq((g.b(&["_active"]), g.b(&["_inactive"])), (Some(active), Some(!active)), || format!("activity state after {}", trace));
    }
    if active {
        want.push("count");
        if !vals.is_empty() {
            want.extend(["max", "min", "mean", "stddev", "quantiles"]);
        }
    }
    want.sort();
    if active && !fresh {
        // the decay may have forgotten values
        c.check(g.u(&["count"]).is_some(), || format!("no count in an active histogram after {}", trace));
        count("only_activity", 1);
        return;
    }
    c.eq(keys, want.iter().map(|s| s.to_string()).collect(), || format!("parts shown by the histogram after {}", trace));
    if !active {
        count("hidden", 1);
        return;
    }
    count("compared", 1);
    c.eq(g.u(&["count"]), Some(vals.len() as u64), || format!("count after {}", trace));
    if vals.is_empty() {
        return;
    }
    let mut sorted = vals.to_vec();
    sorted.sort();
    let (min, max) = (g.i(&["min"]), g.i(&["max"]));
    let n = vals.len();
    let has = |x: &i64| sorted.binary_search(x).is_ok();
    c.check(min.as_ref().map_or(false, has) && max.as_ref().map_or(false, has), || format!("min {:?} or max {:?} was never observed after {}", min, max, trace));
    let (min, max) = (min.unwrap(), max.unwrap());
    c.check(min <= max, || format!("min {} > max {} after {}", min, max, trace));
    if n <= 1028 {
        c.eq((min, max), (sorted[0], sorted[n - 1]), || format!("(min, max) after {}", trace));
    }
    let mean = g.f(&["mean"]).unwrap_or(f64::NAN);
    let dev = g.f(&["stddev"]).unwrap_or(f64::NAN);
    let tol = 1e-9 * (min as f64).abs().max((max as f64).abs());
    c.check(mean >= min as f64 - tol && mean <= max as f64 + tol, || format!("mean {} not in [{}, {}] after {}", mean, min, max, trace));
    c.check(dev >= 0.0 && dev <= (max as f64 - min as f64) * 0.5000001 + tol, || format!("stddev {} impossible in [{}, {}] after {}", dev, min, max, trace));
    let q = match g.at(&["quantiles"]) {
        Some(ItemKind::Snapshot(q)) => q,
        other => c.fail(format!("quantiles are {:?}", other)),
    };
    let names = [("p25", 0.25), ("p50", 0.5), ("p75", 0.75), ("p95", 0.95), ("p98", 0.98), ("p99", 0.99), ("p999", 0.999)];
    c.eq(q.items.len(), names.len(), || "number of quantiles".into());
    let mut before = min;
    for (name, f) in names {
        let v = match q.i(&[name]) {
            Some(v) => v,
            None => c.fail(format!("quantile {} missing in {}", name, snap_str(q))),
        };
        c.check(has(&v), || format!("quantile {} = {} was never observed after {}", name, v, trace));
        c.check(v >= before && v <= max, || format!("quantile {} = {} out of order in {} after {}", name, v, snap_str(g), trace));
        before = v;
        if same_weight && n <= 1028 {
            let rank = f * n as f64;
            let lo = sorted[(rank.floor() as usize).saturating_sub(2).min(n - 1)];
            let hi = sorted[((rank.ceil() as usize) + 2).min(n - 1)];
            c.check(v >= lo && v <= hi, || format!("quantile {} of {} values is {}, expected within [{}, {}]", name, n, v, lo, hi));
        }
    }
    if same_weight && n <= 1028 {
        let m = vals.iter().map(|v| *v as f64).sum::<f64>() / n as f64;
        c.check((m - mean).abs() <= tol, || format!("mean {} expected {} after {}", mean, m, trace));
        let sd = (vals.iter().map(|v| (*v as f64 - m).powi(2)).sum::<f64>() / n as f64).sqrt();
        c.check((sd - dev).abs() <= 1e-6 * (1.0 + sd) + 10.0 * tol, || format!("stddev {} expected {} after {}", dev, sd, trace));
    }
}
