//! C19 switches, C20 flags, displays and trackers, C21 inactivity limits
use crate::common::*;
use crate::props::queue::{random_accept, random_ts};

/// A gap around `d`: just below, just above, far below, far above.
fn gap(r: &mut Rng, d: i64) -> i64 {
    match r.below(8) {
        0 => d - 1,
        1 => d + 1,
        2 => d / 2,
        3 => d * 2 + 1,
        4 => d / 2 + 1,
        5 => r.below(d as u64 * 3 + 1) as i64,
        6 => r.below(1_000_000_000) as i64,
        _ => r.below(20) as i64,
    }
    .max(0)
}
fn duration(r: &mut Rng) -> i64 {
    match r.below(5) {
        0 => 1 + r.below(1000) as i64,
        1 => 60 * clock::NS,
        2 => 1 + r.below(3_000_000_000) as i64,
        3 => {
            let most = if r.chance(1, 4) { 20_000_000_000_000_000 } else { 100_000_000_000_000 };
            1 + r.below(most) as i64
        }
        _ => (1 + r.below(100) as i64) * clock::NS,
    }
}
fn alternation(r: &mut Rng, name: &str) -> (Option<NameAlternation>, Option<String>) {
    let s = r.pick(&["not_", "x", "", "_off", "no "]).to_string();
    match r.below(5) {
        0 => (None, None),
        1 => (Some(NameAlternation::Prefix(s.clone())), Some(format!("{}{}", s, name))),
        2 => (Some(NameAlternation::Postfix(s.clone())), Some(format!("{}{}", name, s))),
        _ => (Some(NameAlternation::Rename(format!("r{}", s))), Some(format!("r{}", s))),
    }
}
macro_rules! show_inverted {
    ($r:expr, $i:expr, $a:expr) => {
        match ($a, $r.below(3)) {
            (None, _) => $i,
            (Some(a), 0) => $i.show_inverted(a),
            (Some(NameAlternation::Prefix(s)), 1) => $i.show_inverted_prefixed(s),
            (Some(NameAlternation::Postfix(s)), 1) => $i.show_inverted_postfixed(s),
            (Some(NameAlternation::Rename(s)), 1) => $i.show_inverted_renamed(s),
            (Some(a), _) => {
                let mut i = $i;
                match a {
                    NameAlternation::Prefix(s) => i.set_show_inverted_prefixed(s),
                    NameAlternation::Postfix(s) => i.set_show_inverted_postfixed(s),
                    NameAlternation::Rename(s) => i.set_show_inverted_renamed(s),
                }
                i
            }
        }
    };
}

/// An instrument fed directly, behind an adapter, in a panel or in a processor.
enum Host<I> {
    Direct(I),
    Adapter(InstrumentAdapter<u8, I>),
    Panel(Panel<u8>),
    Proc(TelemetryTransmitter<u8>, TelemetryProcessor<u8>),
}
impl<I: Instrument + Send + 'static> Host<I> {
    fn new(r: &mut Rng, i: I) -> (Host<I>, [bool; 16]) {
        let (a, f) = random_accept(r);
        let all = [true; 16];
        match r.below(5) {
            0 => (Host::Direct(i), all),
            1 => (Host::Adapter(InstrumentAdapter::accept(f, i)), a),
            2 => (Host::Panel(Panel::accept_all().handler(InstrumentAdapter::accept(f, i))), a),
            3 => (Host::Panel(Panel::accept(f).instrument(i)), a),
            _ => {
                let (tx, mut p) = TelemetryProcessor::new_pair_without_name();
                p.add_cockpit(Cockpit::without_name().panel(Panel::accept_all().handler(InstrumentAdapter::accept(f, i))));
                (Host::Proc(tx, p), a)
            }
        }
    }
    fn feed(&mut self, o: Observation<u8>) {
        match self {
            Host::Direct(i) => {
                i.update(&Val::of(&o).update(o.timestamp()));
            }
            Host::Adapter(a) => {
                a.handle_observation(&o);
            }
            Host::Panel(p) => {
                p.handle_observation(&o);
            }
            Host::Proc(tx, p) => {
                tx.transmit(o);
                p.process(10, ALL);
            }
        }
    }
    fn snap(&self, d: bool) -> Snapshot {
        match self {
            Host::Direct(i) => shot_of(i, d),
            Host::Adapter(i) => shot_of(i, d),
            Host::Panel(i) => shot_of(i, d),
            Host::Proc(_, i) => shot_of(i, d),
        }
    }
}

// ------------------------------------------------------------------ C19
pub fn c19() {
    rule("staircase timers, occurrence and non-occurrence indicators of any configuration under virtual time, fed at gaps just below, just above and far from their durations, directly, in adapters, panels and processors; state and inverted state compared to the documented timing after every step. A second workload lets the clock advance during the snapshot and requires complementary values. Non-trivial: both states were seen.");
    run("switch", 240_000, 6_000_000, 8, |c| c19_any(c, false));
    run("flowing", 120_000, 2_400_000, 8, |c| c19_any(c, true));
}
fn c19_any(c: &mut Case, flowing: bool) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let d = duration(&mut r);
    let default_d = r.chance(1, 6);
    let d = if default_d { 60 * clock::NS } else { d };
    let dur = Duration::from_nanos(d as u64);
    let invert = r.bool();
    let name = r.pick(&["sw", "a b", "_x"]).to_string();
    let (alt, alt_name) = alternation(&mut r, &name);
    let created = clock::now_ns();
    match r.below(3) {
        0 => {
            let mut i = StaircaseTimer::new(name.clone());
            if !default_d {
                if r.bool() {
                    i = i.switch_off_after(dur);
                } else {
                    i.set_switch_off_after(dur);
                }
            }
            if invert {
                if r.bool() {
                    i.set_invert(true);
                } else {
                    i.enable_invert();
                }
            }
            let i = show_inverted!(r, i, alt);
            c19_drive(c, r, i, "staircase timer", d, flowing, &name, &alt_name, move |last, now| match last {
                Some(t) => (now - t < d, now - t == d),
                None => (false, false),
            }, invert, |i| i.state());
        }
        1 => {
            let mut i = OccurrenceIndicator::new(name.clone());
            if !default_d {
                if r.bool() {
                    i = i.if_happened_within(dur);
                } else {
                    i.set_if_happened_within(dur);
                }
            }
            i = match (invert, r.below(3)) {
                (true, 0) => i.inverted(),
                (v, 1) => i.invert_enabled(v),
                (v, _) => {
                    i.set_invert_enabled(v);
                    i
                }
            };
            let i = show_inverted!(r, i, alt);
            c19_drive(c, r, i, "occurrence indicator", d, flowing, &name, &alt_name, move |last, now| match last {
                Some(t) => (now - t < d, now - t == d),
                None => (false, false),
            }, invert, |i| i.state());
        }
        _ => {
            let mut i = NonOccurrenceIndicator::new(name.clone());
            if !default_d {
                if r.bool() {
                    i = i.if_not_happened_within(dur);
                } else {
                    i.set_if_not_happened_within(dur);
                }
            }
            i = match (invert, r.below(3)) {
                (true, 0) => i.inverted(),
                (v, 1) => i.invert_enabled(v),
                (v, _) => {
                    i.set_invert_enabled(v);
                    i
                }
            };
            let i = show_inverted!(r, i, alt);
            c19_drive(c, r, i, "non-occurrence indicator", d, flowing, &name, &alt_name, move |last, now| {
                let t = last.unwrap_or(created);
                (now - t > d, now - t == d)
            }, invert, |i| i.state());
        }
    }
}
fn c19_drive<I: Instrument + Send + 'static>(
    c: &mut Case, mut r: Rng, i: I, what: &str, d: i64, flowing: bool, name: &str, alt: &Option<String>,
    model: impl Fn(Option<i64>, i64) -> (bool, bool), invert: bool, state: impl Fn(&I) -> bool,
) {
    let (mut host, acc) = Host::new(&mut r, i);
    if flowing {
        // about d passes per few readings of the clock
        clock::set_step((d / (1 + r.below(6) as i64)).max(1));
    }
    let mut last: Option<i64> = None;
    let (mut on, mut off) = (0, 0);
    let mut trace = format!("{} d={} invert {} shown as {:?}: ", what, d, invert, alt);
    for _ in 0..(2 + r.below(25)) {
        match r.below(4) {
            0 | 1 => {
                let g = gap(&mut r, d);
                clock::advance(g);
                trace.push_str(&format!("+{} ", g));
            }
            2 => {
                let v = any_val(&mut r);
                let label = r.below(8) as u8;
                let ts = random_ts(&mut r);
                host.feed(v.observation(label, ts));
                if acc[label as usize] {
                    last = Some(clock::now_ns());
                    trace.push_str("observed ");
                }
            }
            _ => {}
        }
        let s = host.snap(r.bool());
        let shown = s.b(&[name]);
        let shown_inv = alt.as_ref().map(|a| if a == name { s.items.last().and_then(|x| match x.1 { ItemKind::Boolean(b) => Some(b), _ => None }) } else { s.b(&[a.as_str()]) });
        let state_items = s.items.iter().filter(|(_, v)| matches!(v, ItemKind::Boolean(_))).count();
        c.eq(state_items, 1 + alt.is_some() as usize, || format!("number of states shown in {} after {}", snap_str(&s), trace));
        let b = match shown {
            Some(b) => b,
            None => c.fail(format!("no state in {} after {}", snap_str(&s), trace)),
        };
        if let Some(inv) = shown_inv {
            c.eq(inv, Some(!b), || format!("inverted value {:?} in {} after {}", alt, snap_str(&s), trace));
        }
        if b {
            on += 1
        } else {
            off += 1
        }
        if flowing {
            continue;
        }
        let (want, boundary) = model(last, clock::now_ns());
        if !boundary {
            c.eq(b, want != invert, || format!("state at {} ns after the last observation, after {}", last.map(|t| clock::now_ns() - t).unwrap_or(-1), trace));
            if let Host::Direct(i) = &host {
                c.eq(state(i), want != invert, || format!("state() after {}", trace));
            }
        }
    }
    if on == 0 || off == 0 {
        c.trivial();
    }
    count("states_compared", on + off);
    c.sig(&trace);
    c.sample(|| trace.clone());
}

// ------------------------------------------------------------------ C20
pub fn c20() {
    rule("flags, data displays and last occurrence trackers of any configuration under virtual time with observations of all kinds; after every step the shown items must equal the model. Non-trivial: something was shown at least once.");
    run("flag", 90_000, 1_800_000, 8, c20_flag);
    run("display", 160_000, 3_200_000, 8, c20_display);
    run("tracker", 120_000, 2_400_000, 8, c20_tracker);
}
fn obs_any(r: &mut Rng) -> (u8, Val, Instant) {
    let mut v = any_val(r);
    if r.chance(1, 3) {
        v = *r.pick(&[Val::B(true), Val::B(false), Val::I(0), Val::I(1), Val::U(0), Val::U(7), Val::I(i64::MIN), Val::U(u64::MAX), Val::I(-1)]);
    }
    (r.below(8) as u8, v, random_ts(r))
}
fn c20_flag(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let (alt, alt_name) = alternation(&mut r, "f");
    let mut state = None;
    let mut i = Flag::new("f");
    if r.bool() {
        state = Some(r.bool());
        i = if r.bool() { Flag::new_with_state("f", state.unwrap()) } else { i.state(state.unwrap()) };
    }
    let i = show_inverted!(r, i, alt);
    let (mut host, acc) = Host::new(&mut r, i);
    let mut trace = String::new();
    let mut shown = 0;
    for _ in 0..(1 + r.below(25)) {
        let (l, v, ts) = obs_any(&mut r);
        host.feed(v.observation(l, ts));
        trace.push_str(&format!("{}:{:?} ", l, v));
        if acc[l as usize] {
            state = match v {
                Val::B(b) => Some(b),
                Val::I(x) => Some(x != 0),
                Val::U(x) => Some(x != 0),
                _ => state,
            };
        }
        clock::advance(r.below(100_000_000_000) as i64);
        let s = host.snap(r.bool());
        let mut want: Vec<(String, bool)> = vec![];
        if let Some(b) = state {
            want.push(("f".into(), b));
            if let Some(a) = &alt_name {
                want.push((a.clone(), !b));
            }
            shown += 1;
        }
        let got: Vec<(String, bool)> = s.items.iter().filter_map(|(k, v)| match v { ItemKind::Boolean(b) => Some((k.clone(), *b)), _ => None }).collect();
        c.eq(got.len(), s.items.len(), || format!("items of the flag in {}", snap_str(&s)));
        c.eq(got, want, || format!("flag after {}", trace));
        if let Host::Direct(i) = &host {
            c.eq(i.get_state(), state, || format!("get_state after {}", trace));
        }
    }
    if shown == 0 {
        c.trivial();
    }
    count("flags_compared", shown);
    c.sig(&trace);
    c.sample(|| format!("{:?} {}", alt_name, trace));
}
fn any_item(r: &mut Rng) -> ItemKind {
    match r.below(5) {
        0 => ItemKind::Text("reset".into()),
        1 => ItemKind::Boolean(r.bool()),
        2 => ItemKind::UInt(r.below(10)),
        3 => ItemKind::Int(-5),
        _ => ItemKind::Float(1.5),
    }
}
fn same_item(a: &Option<ItemKind>, b: &Option<ItemKind>) -> bool {
    match (a, b) {
        (Some(ItemKind::Float(x)), Some(ItemKind::Float(y))) => x == y || (x.is_nan() && y.is_nan()),
        (a, b) => a == b,
    }
}
fn c20_display(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let d = if r.chance(2, 3) { Some(duration(&mut r)) } else { None };
    let reset = if r.bool() { Some(any_item(&mut r)) } else { None };
    let mut i = DataDisplay::new("d");
    if let Some(d) = d {
        if r.bool() {
            i = i.reset_after(Duration::from_nanos(d as u64));
        } else {
            i.set_reset_after(Duration::from_nanos(d as u64));
        }
    }
    if let Some(v) = &reset {
        if r.bool() {
            i = i.reset_value(v.clone());
        } else {
            i.set_reset_value(v.clone());
        }
    }
    c.eq(i.get_reset_after(), d.map(|d| Duration::from_nanos(d as u64)), || "get_reset_after".into());
    let (mut host, acc) = Host::new(&mut r, i);
    let mut last: Option<(i64, ItemKind)> = None;
    let mut trace = format!("reset after {:?} to {:?}: ", d, reset);
    let mut shown = 0;
    for _ in 0..(2 + r.below(25)) {
        if r.bool() {
            let (l, v, ts) = obs_any(&mut r);
            host.feed(v.observation(l, ts));
            trace.push_str(&format!("{}:{:?} ", l, v));
            if acc[l as usize] {
                let item = match v {
                    Val::I(x) => Some(ItemKind::Int(x)),
                    Val::U(x) => Some(ItemKind::UInt(x)),
                    Val::F(x) => Some(ItemKind::Float(f64::from_bits(x))),
                    Val::B(x) => Some(ItemKind::Boolean(x)),
                    _ => None,
                };
                if let Some(item) = item {
                    last = Some((clock::now_ns(), item));
                }
            }
        } else {
            let g = gap(&mut r, d.unwrap_or(60 * clock::NS));
            clock::advance(g);
            trace.push_str(&format!("+{} ", g));
        }
        let (want, boundary) = match (&last, d) {
            (None, _) => (reset.clone(), false),
            (Some((_, v)), None) => (Some(v.clone()), false),
            (Some((t, v)), Some(d)) => {
                let e = clock::now_ns() - t;
                (if e <= d { Some(v.clone()) } else { reset.clone() }, e == d)
            }
        };
        let s = host.snap(r.bool());
        c.check(s.items.iter().all(|(k, _)| k == "d") && s.items.len() <= 1, || format!("unexpected items {} after {}", snap_str(&s), trace));
        let got = s.at(&["d"]).cloned();
        if !boundary {
            c.check(same_item(&got, &want), || format!("shown {:?}, expected {:?} after {}", got, want, trace));
            if let Host::Direct(i) = &host {
                c.check(same_item(&i.value(), &want), || format!("value() is {:?}, expected {:?} after {}", i.value(), want, trace));
            }
            shown += got.is_some() as u64;
        }
    }
    if shown == 0 {
        c.trivial();
    }
    count("displays_compared", shown);
    c.sig(&trace);
    c.sample(|| trace.clone());
}
fn c20_tracker(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let zero = r.bool();
    let mut i = LastOccurrenceTracker::new("t");
    if zero || r.bool() {
        if r.bool() {
            i = i.make_none_zero(zero);
        } else {
            i.set_make_none_zero(zero);
        }
    }
    let (mut host, acc) = Host::new(&mut r, i);
    let mut last: Option<i64> = None;
    let mut trace = format!("zero {}: ", zero);
    let mut shown = 0;
    for _ in 0..(2 + r.below(25)) {
        if r.bool() {
            let (l, v, ts) = obs_any(&mut r);
            host.feed(v.observation(l, ts));
            if acc[l as usize] {
                last = Some(clock::now_ns());
                trace.push_str("observed ");
            }
        } else {
            let d = duration(&mut r);
            let g = match r.below(3) {
                0 => {
                    // close to a whole second
                    let e = last.map(|l| clock::now_ns() - l).unwrap_or(0).rem_euclid(clock::NS);
                    clock::NS - e + r.below(3) as i64 - 1 + clock::NS * r.below(5) as i64
                }
                _ => gap(&mut r, d),
            };
            clock::advance(g);
            trace.push_str(&format!("+{} ", g));
        }
        let s = host.snap(r.bool());
        let want = match last {
            Some(t) => Some(((clock::now_ns() - t) / clock::NS) as u64),
            None if zero => Some(0),
            None => None,
        };
        c.eq(s.u(&["t"]), want, || format!("seconds since the last occurrence after {}; snapshot {}", trace, snap_str(&s)));
        c.eq(s.items.len(), want.is_some() as usize, || format!("items in {}", snap_str(&s)));
        shown += want.is_some() as u64;
    }
    if shown == 0 {
        c.trivial();
    }
    count("trackers_compared", shown);
    c.sig(&trace);
    c.sample(|| trace.clone());
}

// ------------------------------------------------------------------ C21
#[derive(Debug)]
struct Node {
    cockpit: bool,
    named: bool,
    path: Vec<String>,
    limit: Option<i64>,
    show: bool,
    last: i64,
    /// control messages may count as activity of what took them
    maybe: i64,
    /// what must reach it
    accept: Option<[bool; 16]>,
    /// the queues whose observations may reach it
    queues: Vec<usize>,
    parent: Option<usize>,
    desc: bool,
    /// removed, with everything in it
    gone: bool,
}
pub fn c21() {
    rule("random trees mount > processors > cockpits > panels > panels with random inactivity limits and activity states (set in any order), observations reaching random parts, gaps just below, just above and far from the limits, which may be zero, and additions and removals which are no activity; after every step exactly the contents and pairs of the active components must be shown. A second workload lets time pass during the snapshot. Non-trivial: some component was hidden and some became visible again.");
    run("tree", 28_000, 560_000, 8, |c| c21_case(c, false));
    run("flowing", 12_000, 150_000, 8, |c| c21_case(c, true));
}
/// How many further parts a component has.
thread_local! {
    /// what the inactivity limits of a case are below
    static SPAN: std::cell::Cell<u64> = std::cell::Cell::new(100_000_000_000);
}
fn c21_more(r: &mut Rng) -> usize {
    match r.below(8) {
        0..=3 => 0,
        4 => super::tree::some(r, 8),
        _ => r.usize(4),
    }
}
fn c21_limit(r: &mut Rng) -> Option<i64> {
    match r.below(36) {
        0..=11 => None,
        12 => Some(0),
        _ => Some(1 + r.below(SPAN.with(|s| s.get())) as i64),
    }
}
/// A processor with what is in it, mounted in `parent`.
fn c21_processor(r: &mut Rng, nodes: &mut Vec<Node>, parent: usize, q: usize) -> (TelemetryTransmitter<u8>, TelemetryProcessor<u8>) {
    let dur = |l: i64| Duration::from_nanos(l as u64);
    let now = clock::now_ns();
    let pi = nodes.len();
    let named = r.chance(3, 4);
    let (tx, mut p) = if named { TelemetryProcessor::<u8>::new_pair(format!("n{}", pi)) } else { TelemetryProcessor::new_pair_without_name() };
    let (l, show) = (c21_limit(r), r.chance(2, 3));
    let show_first = r.bool();
    if show_first && !show {
        p.set_show_activity_state(false);
    }
    if let Some(l) = l {
        p = if r.bool() {
            p.inactivity_limit(dur(l))
        } else {
            p.set_inactivity_limit(dur(l));
            p
        };
    }
    if !show_first && !show {
        p = p.show_activity_state(false);
    }
    let mut at = Some(parent);
    while let Some(k) = at {
        nodes[k].queues.push(q);
        at = nodes[k].parent;
    }
    let path = inner_path(&nodes[parent].path, pi, named);
    nodes.push(Node { cockpit: false, path, named, limit: l, show, last: now, maybe: now, accept: None, queues: vec![q], parent: Some(parent), desc: false, gone: false });
    p.add_snapshooter(Shot::new(format!("n{}_mark", pi), 0u64));
    for k in 0..c21_more(r) {
        match r.below(3) {
            0 => p.add_handler(super::queue::Ret { ret: r.usize(2) }),
            1 => p.add_handler(InstrumentAdapter::accept(random_accept(r).1, Counter::new(format!("n{}_c{}", pi, k)))),
            _ => p.add_snapshooter(Shot::new(format!("n{}_s{}", pi, k), 0u64)),
        }
    }
    for _ in 0..super::tree::some(r, 3) {
        let ci = nodes.len();
        let named = r.chance(3, 4);
        let mut cp = if named { Cockpit::new(format!("n{}", ci)) } else { Cockpit::without_name() };
        let (l, show) = (c21_limit(r), r.chance(2, 3));
        let show_first = r.bool();
        if show_first && !show {
            cp = cp.show_activity_state(false);
        }
        if let Some(l) = l {
            cp.set_inactivity_limit(dur(l));
        }
        if !show_first && !show {
            cp.set_show_activity_state(false);
        }
        let desc = r.bool();
        if desc {
            cp.set_title("T");
        }
        cp.add_snapshooter(Shot::new(format!("n{}_mark", ci), 0u64));
        for k in 0..c21_more(r) {
            match r.below(3) {
                0 => cp.add_handler(super::queue::Ret { ret: r.usize(2) }),
                1 => cp.add_handler(InstrumentAdapter::accept(random_accept(r).1, Counter::new(format!("n{}_c{}", ci, k)))),
                _ => cp.add_snapshooter(Shot::new(format!("n{}_s{}", ci, k), 0u64)),
            }
        }
        let path = inner_path(&nodes[pi].path, ci, named);
        nodes.push(Node { cockpit: true, path, named, limit: l, show, last: now, maybe: now, accept: Some([true; 16]), queues: vec![q], parent: Some(pi), desc, gone: false });
        for _ in 0..super::tree::some(r, 3) {
            cp.add_panel(c21_panel(r, nodes, ci, q, 0));
        }
        p.add_cockpit(cp);
    }
    (tx, p)
}
/// A group with processors and perhaps a group, mounted in `parent`.
fn c21_group(r: &mut Rng, nodes: &mut Vec<Node>, txs: &mut Vec<TelemetryTransmitter<u8>>, parent: Option<usize>, depth: u32) -> ProcessorMount {
    let now = clock::now_ns();
    let i = nodes.len();
    let named = parent.is_none() || r.chance(3, 4);
    let path = match parent {
        None => vec!["root".to_string()],
        Some(p) => inner_path(&nodes[p].path, i, named),
    };
    let mut mount = if named { ProcessorMount::new(path.last().unwrap().clone()) } else { ProcessorMount::default() };
    let limit = c21_limit(r);
    if let Some(l) = limit {
        mount.set_inactivity_limit(Duration::from_nanos(l as u64));
    }
    nodes.push(Node { cockpit: false, path, named, limit, show: true, last: now, maybe: now, accept: None, queues: vec![], parent, desc: false, gone: false });
    mount.add_snapshooter(Shot::new(format!("n{}_mark", i), 0u64));
    for _ in 0..if depth == 0 { 1 + r.usize(2) } else { r.usize(3) } {
        if depth < 2 && r.chance(1, 4) {
            mount.add_processor(c21_group(r, nodes, txs, Some(i), depth + 1));
        } else {
            let (tx, p) = c21_processor(r, nodes, i, txs.len());
            txs.push(tx);
            mount.add_processor(p);
        }
    }
    mount
}
/// One pass over everything: each processor takes up to `max` of what is pending.
fn c21_pass(mount: &mut ProcessorMount, nodes: &mut [Node], pending: &mut [VecDeque<u8>], max: usize) {
    mount.process(max, ALL);
    let now = clock::now_ns();
    for (q, pend) in pending.iter_mut().enumerate() {
        let k = pend.len().min(max);
        for l in pend.drain(..k) {
            for n in nodes.iter_mut() {
                if n.queues.contains(&q) && n.accept.map_or(true, |a| a[l as usize]) {
                    n.last = now;
                    n.maybe = now;
                }
            }
        }
    }
}
fn c21_case(c: &mut Case, flowing: bool) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    // limits up to milliseconds, minutes or months
    let long = if flowing { 100_000_000_000 } else { 3_000_000_000_000_000 };
    let span = if r.chance(1, 12) { long } else { *r.pick(&[100_000_000_000, 100_000_000_000, 2_000_000]) };
    SPAN.with(|s| s.set(span));
    let mut nodes: Vec<Node> = vec![];
    let mut txs = vec![];
    let mut mount = c21_group(&mut r, &mut nodes, &mut txs, None, 0);
    let mut pending: Vec<VecDeque<u8>> = txs.iter().map(|_| VecDeque::new()).collect();
    if flowing {
        clock::set_step(1 + r.below(SPAN.with(|s| s.get()) / 33) as i64);
    }
    let mut trace = String::new();
    let (mut hidden, mut back) = (0u64, 0u64);
    let mut was_hidden = vec![false; nodes.len()];
    for _ in 0..(3 + r.below(25)) {
        match r.below(12) {
            0..=3 => {
                let k = r.usize(nodes.len());
                let l = nodes[k].limit.unwrap_or(clock::NS);
                let e = clock::now_ns() - nodes[k].last;
                let g = match r.below(5) {
                    0 => l - e - 1,
                    1 => l - e + 1,
                    2 => l / 3,
                    3 => l * 2 + 1,
                    _ => r.below(SPAN.with(|s| s.get()) / 2 * 3) as i64,
                };
                if g > 0 {
                    clock::advance(g);
                    trace.push_str(&format!("+{} ", g));
                }
            }
            4..=7 => {
                // observations to some processors, then one or more passes which may not reach the end
                let mut sent: Vec<(usize, u8)> = vec![];
                for (q, tx) in txs.iter().enumerate() {
                    for _ in 0..r.below(3) {
                        let l = r.below(8) as u8;
                        let v = any_val(&mut r);
                        tx.transmit(v.observation(l, random_ts(&mut r)));
                        sent.push((q, l));
                        pending[q].push_back(l);
                    }
                }
                let short = r.chance(1, 3);
                trace.push_str(&format!("obs{:?} ", sent));
                for _ in 0..if short { 1 + r.usize(3) } else { 1 } {
                    let max = if short { *r.pick(&[1usize, 1, 2, 3]) } else { 100 };
                    c21_pass(&mut mount, &mut nodes, &mut pending, max);
                    trace.push_str(&format!("pass({}) ", max));
                    if short && r.bool() {
                        let g = r.below(SPAN.with(|s| s.get()) / 5 * 3) as i64;
                        clock::advance(g);
                        trace.push_str(&format!("+{} ", g));
                    }
                }
            }
            8 if r.chance(1, 3) => {
                // something new, which is no activity of what it gets into
                match r.below(4) {
                    0 => {
                        let (tx, p) = c21_processor(&mut r, &mut nodes, 0, txs.len());
                        txs.push(tx);
                        pending.push(VecDeque::new());
                        mount.add_processor(p);
                        trace.push_str("processor ");
                    }
                    1 => {
                        mount.add_processor(c21_group(&mut r, &mut nodes, &mut txs, Some(0), 1));
                        pending.resize(txs.len(), VecDeque::new());
                        trace.push_str("group ");
                    }
                    2 => {
                        mount.add_snapshooter(Shot::new("n0_more", 0u64));
                        trace.push_str("snapshooter ");
                    }
                    _ => {
                        let l = 1 + r.below(SPAN.with(|s| s.get())) as i64;
                        mount.set_inactivity_limit(Duration::from_nanos(l as u64));
                        nodes[0].limit = Some(l);
                        trace.push_str(&format!("limit{} ", l));
                    }
                }
                was_hidden.resize(nodes.len(), false);
            }
            8 => {
                // requests, and observations that are dropped: they reach no cockpit or panel
                c21_pass(&mut mount, &mut nodes, &mut pending, 1000);
                if txs.is_empty() {
                    continue;
                }
                let q = r.usize(txs.len());
                let named: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].cockpit && nodes[*i].named && !nodes[*i].gone && nodes[*i].queues == [q]).collect();
                let mut what = "nothing";
                if !named.is_empty() && r.bool() {
                    let k = *r.pick(&named);
                    let p = c21_panel(&mut r, &mut nodes, k, q, 1);
                    if r.bool() {
                        clock::advance(r.below(2_000_000_000) as i64);
                    }
                    txs[q].add_panel_to_cockpit(nodes[k].path.last().unwrap().clone(), p);
                    was_hidden.resize(nodes.len(), false);
                    what = "panel";
                } else if !named.is_empty() && r.bool() {
                    // a removal is no activity of the cockpit it is from
                    let k = *r.pick(&named);
                    let cockpit = nodes[k].path.last().unwrap().clone();
                    let within: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].parent == Some(k) && nodes[*i].named && !nodes[*i].gone).collect();
                    if within.is_empty() || r.chance(1, 5) {
                        txs[q].remove_cockpit(cockpit);
                        remove_node(&mut nodes, k);
                        what = "cockpit removed";
                    } else {
                        let p = *r.pick(&within);
                        txs[q].remove_panel_from_cockpit(cockpit, nodes[p].path.last().unwrap().clone());
                        remove_node(&mut nodes, p);
                        what = "panel removed";
                    }
                    count("removals", 1);
                } else if r.bool() {
                    txs[q].remove_panel_from_cockpit("nope", "nope");
                    txs[q].remove_cockpit("nope");
                    what = "removal";
                }
                mount.process(100, ALL);
                let dropped = r.chance(1, 3);
                if dropped {
                    for _ in 0..*r.pick(&[1, 1, 2, 60]) {
                        txs[q].observed_one(r.below(8) as u8, Instant::now());
                    }
                    mount.process(100, ProcessingStrategy::DropAll);
                    what = "dropped";
                }
                if what != "nothing" {
                    let now = clock::now_ns();
                    for n in nodes.iter_mut().filter(|n| n.accept.is_none() && n.queues.contains(&q)) {
                        n.maybe = now;
                        // the processor took it from its queue: it reached that far
                        if dropped {
                            n.last = now;
                        }
                    }
                }
                trace.push_str(&format!("{} for {} ", what, q));
            }
            _ => {
                // an empty pass is no activity
                c21_pass(&mut mount, &mut nodes, &mut pending, 100);
            }
        }
        if !flowing {
            while nodes.iter().any(|n| n.limit.map_or(false, |l| clock::now_ns() - n.last == l || clock::now_ns() - n.maybe == l)) {
                clock::advance(1);
            }
        }
        let descriptive = r.bool();
        let s = shot_of(&mount, descriptive);
        let mut visible = vec![false; nodes.len()];
        // the pairs of a group: its own, then those of unnamed components within, in order
        let mut pairs: BTreeMap<&[String], Vec<bool>> = BTreeMap::new();
        for (i, n) in in_order(&nodes) {
            let path: Vec<&str> = n.path.iter().map(|s| &**s).collect();
            let parent_visible = n.parent.map_or(true, |p| visible[p]);
            let group = match s.at(&path) {
                Some(ItemKind::Snapshot(g)) => Some(g),
                _ => None,
            };
            let prefix = format!("n{}_", i);
            let own = |g: &Snapshot| g.keys().into_iter().filter(|k| k.starts_with(&prefix)).collect::<Vec<_>>();
            if !parent_visible {
                if n.named {
                    c.check(group.is_none(), || format!("{:?} shown within an inactive component after {}: {}", n.path, trace, snap_str(&s)));
                } else {
                    let extra = group.map_or(vec![], own);
                    c.check(extra.is_empty(), || format!("{:?} shown although an enclosing component is inactive after {}: {}", extra, trace, snap_str(&s)));
                }
                continue;
            }
            let g = match group {
                Some(g) => g,
                None => c.fail(format!("{:?} missing after {}: {}", n.path, trace, snap_str(&s))),
            };
            let mark = g.at(&[&*format!("n{}_mark", i)]).is_some();
            if n.limit.is_some() && n.show {
                pairs.entry(&n.path).or_default().push(mark);
            }
            if !flowing {
                let want = n.limit.map_or(true, |l| clock::now_ns() - n.last <= l);
                let maybe = n.limit.map_or(true, |l| clock::now_ns() - n.maybe <= l);
                c.check(mark == want || mark == maybe, || format!("contents of component {} in {:?} are{} visible {} ns after the last activity with limit {:?}, after {}", i, n.path, if mark { "" } else { " not" }, clock::now_ns() - n.last, n.limit, trace));
            } else if n.limit.is_none() {
                c.check(mark, || format!("contents of {:?} hidden without a limit", n.path));
            }
            if !mark {
                // nothing but the state (and descriptions)
                let extra: Vec<String> = if n.named { g.keys().into_iter().filter(|k| !k.starts_with('_')).collect() } else { own(g) };
                c.check(extra.is_empty(), || format!("inactive {:?} shows {:?} after {}", n.path, extra, trace));
                hidden += 1;
                was_hidden[i] = true;
            } else if was_hidden[i] {
                back += 1;
                was_hidden[i] = false;
            }
            if n.desc && descriptive {
                c.check(g.at(&["_title"]).is_some(), || format!("title of {:?} missing after {}", n.path, trace));
            }
            visible[i] = mark;
            count("components_compared", 1);
        }
        for n in nodes.iter().filter(|n| !n.gone) {
            let path: Vec<&str> = n.path.iter().map(|s| &**s).collect();
            let g = match s.at(&path) {
                Some(ItemKind::Snapshot(g)) => g,
                _ => continue,
            };
            let got = |key: &str| g.items.iter().filter(|x| x.0 == key).map(|x| x.1 == ItemKind::Boolean(true)).collect::<Vec<bool>>();
            let want = pairs.get(&n.path[..]).cloned().unwrap_or_default();
            c.eq(got("_active"), want.clone(), || format!("activity states within {:?} (visible contents; limit {:?}, shown {}) after {}", n.path, n.limit, n.show, trace));
            c.eq(got("_inactive"), want.iter().map(|x| !x).collect(), || format!("inactivity states within {:?} after {}", n.path, trace));
        }
    }
    if hidden == 0 || back == 0 {
        c.trivial();
    }
    count("hidden", hidden);
    count("visible_again", back);
    c.sig(&format!("{:?} {}", nodes.iter().map(|n| (n.limit, n.show)).collect::<Vec<_>>(), trace));
    c.sample(|| format!("{} components, {}", nodes.len(), trace));
}
fn in_order(nodes: &[Node]) -> Vec<(usize, &Node)> {
    fn go<'a>(nodes: &'a [Node], i: usize, out: &mut Vec<(usize, &'a Node)>) {
        out.push((i, &nodes[i]));
        for k in i + 1..nodes.len() {
            if nodes[k].parent == Some(i) && !nodes[k].gone {
                go(nodes, k, out);
            }
        }
    }
    let mut out = vec![];
    go(nodes, 0, &mut out);
    out
}
fn remove_node(nodes: &mut [Node], i: usize) {
    nodes[i].gone = true;
    for k in i + 1..nodes.len() {
        if nodes[k].parent.map_or(false, |p| nodes[p].gone) {
            nodes[k].gone = true;
        }
    }
}
fn inner_path(outer: &[String], i: usize, named: bool) -> Vec<String> {
    let mut p = outer.to_vec();
    if named {
        p.push(format!("n{}", i));
    }
    p
}
fn c21_panel(r: &mut Rng, nodes: &mut Vec<Node>, parent: usize, q: usize, depth: u32) -> Panel<u8> {
    let (a, f) = random_accept(r);
    let i = nodes.len();
    let named = r.chance(3, 4);
    let mut p = if named { Panel::named(f, format!("n{}", i)) } else { Panel::new(f) };
    let limit = c21_limit(r);
    let show = r.chance(2, 3);
    let show_first = r.bool();
    if show_first && !show {
        p.set_show_activity_state(false);
    }
    if let Some(l) = limit {
        let d = Duration::from_nanos(l as u64);
        p = if r.bool() {
            p.inactivity_limit(d)
        } else {
            p.set_inactivity_limit(d);
            p
        };
    }
    if !show_first && !show {
        p = p.show_activity_state(false);
    }
    let desc = r.bool();
    if desc {
        p.set_title("T");
    }
    p.add_snapshooter(Shot::new(format!("n{}_mark", i), 0u64));
    let outer = nodes[parent].accept.unwrap_or([true; 16]);
    let accept = crate::props::queue::and(&a, &outer);
    let path = inner_path(&nodes[parent].path, i, named);
    nodes.push(Node { cockpit: false, path, named, limit, show, last: clock::now_ns(), maybe: clock::now_ns(), accept: Some(accept), queues: vec![q], parent: Some(parent), desc, gone: false });
    // contents that take all, some or no labels, and may ignore what reaches the panel
    for k in 0..c21_more(r) {
        let f = random_accept(r).1;
        match r.below(10) {
            9 => p.add_snapshooter(Shot::new(format!("n{}_s{}", i, k), 0u64)),
            0 => p.add_counter(Counter::new(format!("n{}_c", i))),
            1 => p.add_counter(InstrumentAdapter::accept(f, Counter::new(format!("n{}_c", i)))),
            2 => p.add_gauge(Gauge::new(format!("n{}_g", i)).deltas_only(f)),
            3 => p.add_gauge(Gauge::new(format!("n{}_g", i))),
            4 => p.add_meter(InstrumentAdapter::accept(f, Meter::new(format!("n{}_m", i)))),
            5 => p.add_histogram(Histogram::new(format!("n{}_h", i))),
            6 => p.add_instrument(Flag::new(format!("n{}_f", i))),
            7 => p.add_handler(super::queue::Ret { ret: r.usize(2) }),
            _ => p.add_handler(InstrumentAdapter::accept(f, Counter::new(format!("n{}_c{}", i, k)))),
        }
    }
    if depth < 2 {
        for _ in 0..if r.chance(1, 4) { r.usize(5) } else { r.usize(2) } {
            p.add_panel(c21_panel(r, nodes, i, q, depth + 1));
        }
    }
    p
}
