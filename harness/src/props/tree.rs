//! Random component trees with a model beside them: what every component must have received
//! and what a snapshot must contain.
use crate::common::*;
use metrix::instruments::L as OneLabel;
use std::fmt::Debug;

// ------------------------------------------------------------ labels
pub const LABELS: usize = 10;
pub trait Lab: Clone + Eq + Debug + Send + 'static {
    fn nth(i: usize) -> Self;
    fn idx(&self) -> usize;
}
impl Lab for u8 {
    fn nth(i: usize) -> Self {
        i as u8
    }
    fn idx(&self) -> usize {
        *self as usize
    }
}
impl Lab for String {
    fn nth(i: usize) -> Self {
        // common prefixes, an empty one, case differences
        ["", "a", "aa", "A", "ab", "b", " ", "a ", "ä", "0"][i].to_string()
    }
    fn idx(&self) -> usize {
        (0..LABELS).position(|i| String::nth(i) == *self).unwrap_or(0)
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum En {
    A,
    B,
    C(u8),
    D { x: bool, y: String },
}
impl Lab for En {
    fn nth(i: usize) -> Self {
        match i {
            0 => En::A,
            1 => En::B,
            2..=5 => En::C(i as u8),
            _ => En::D { x: i % 2 == 0, y: if i < 8 { "p".into() } else { "q".into() } },
        }
    }
    fn idx(&self) -> usize {
        (0..LABELS).position(|i| En::nth(i) == *self).unwrap_or(0)
    }
}
pub type Acc = [bool; LABELS];
pub const EVERY: Acc = [true; LABELS];
pub const NONE: Acc = [false; LABELS];

// ------------------------------------------------------------ filters
fn acc_of(v: &[usize]) -> Acc {
    let mut a = NONE;
    v.iter().for_each(|i| a[*i] = true);
    a
}
/// Any way of writing a filter.
pub fn any_filter<L: Lab>(r: &mut Rng) -> (Acc, LabelFilter<L>, &'static str) {
    let l: Vec<usize> = (0..14).map(|_| r.usize(LABELS)).collect();
    let n = |k: usize| L::nth(l[k]);
    let set = r.next();
    let pred_acc = {
        let mut a = NONE;
        (0..LABELS).for_each(|i| a[i] = set >> i & 1 == 1);
        a
    };
    let pred = move |x: &L| set >> x.idx() & 1 == 1;
    let len = r.usize(13);
    let (mut acc, mut f, form): (Acc, LabelFilter<L>, &'static str) = match r.below(19) {
        0 => (EVERY, LabelFilter::accept_all(), "accept_all"),
        1 => (EVERY, AcceptAllLabels.into(), "AcceptAllLabels"),
        2 => (EVERY, LabelFilter::default(), "default"),
        3 => (NONE, LabelFilter::accept_none(), "accept_none"),
        4 => (NONE, AcceptNoLabel.into(), "AcceptNoLabel"),
        5 => (acc_of(&l[..1]), n(0).into(), "label"),
        6 => (acc_of(&l[..1]), LabelFilter::new(n(0)), "LabelFilter::new"),
        7 => (acc_of(&l[..1]), AcceptOneLabel(n(0)).into(), "AcceptOneLabel"),
        8 => (acc_of(&l[..1]), OneLabel(n(0)).into(), "L"),
        9 => (acc_of(&l[..2]), (n(0), n(1)).into(), "2-tuple"),
        10 => (acc_of(&l[..3]), (n(0), n(1), n(2)).into(), "3-tuple"),
        11 => (acc_of(&l[..4]), (n(0), n(1), n(2), n(3)).into(), "4-tuple"),
        12 => (acc_of(&l[..5]), (n(0), n(1), n(2), n(3), n(4)).into(), "5-tuple"),
        13 => (pred_acc, LabelFilter::predicate(pred), "LabelFilter::predicate"),
        14 => (pred_acc, LabelPredicate(pred).into(), "LabelPredicate"),
        15 => (pred_acc, LP(pred).into(), "LP"),
        _ => (acc_of(&l[..len]), (0..len).map(n).collect::<Vec<_>>().into(), "vec"),
    };
    let mut extended = false;
    if r.chance(1, 3) {
        for _ in 0..(1 + r.usize(7)) {
            let i = r.usize(LABELS);
            f.accept_another(L::nth(i));
            acc[i] = true;
            extended = true;
        }
    }
    count(if extended { "filters_extended" } else { "filters_plain" }, 1);
    (acc, f, form)
}

// ------------------------------------------------------------ update modifiers
pub fn modify(id: u8, label: usize, u: Update) -> Update {
    let ts = match u {
        Update::Observation(t) | Update::Observations(_, t) | Update::ObservationWithValue(_, t) => t,
    };
    match id {
        0 => match u {
            Update::ObservationWithValue(ObservedValue::SignedInteger(v), t) => {
                Update::ObservationWithValue(ObservedValue::SignedInteger(v.wrapping_mul(3)), t)
            }
            u => u,
        },
        1 => Update::Observations(label as u64 + 1, ts),
        2 => Update::ObservationWithValue(ObservedValue::SignedInteger(label as i64 - 4), ts),
        3 => Update::Observation(ts),
        _ => Update::ObservationWithValue(ObservedValue::Bool(label % 2 == 0), ts),
    }
}
fn modifier<L: Lab>(id: u8) -> impl Fn(&L, Update) -> Update + Send + 'static {
    move |l: &L, u: Update| modify(id, l.idx(), u)
}

// ------------------------------------------------------------ adapters
/// The ways every instrument offers to choose its labels.
pub trait OwnWays: Instrument + Sized {
    type Ad<L: Lab>;
    fn own_way<L: Lab>(self, r: &mut Rng) -> (Self::Ad<L>, Acc, &'static str);
}
macro_rules! own_ways {
    ($ad:ident; $($t:ty),*) => { $(own_ways!(@ $t, InstrumentAdapter<L, $t>);)* };
    (@ $t:ty, $ad:ty) => {
        impl OwnWays for $t {
            type Ad<L: Lab> = $ad;
            fn own_way<L: Lab>(self, r: &mut Rng) -> ($ad, Acc, &'static str) {
                let v: Vec<usize> = (0..r.usize(9)).map(|_| r.usize(LABELS)).collect();
                let one = r.usize(LABELS);
                let set = r.next();
                match r.below(6) {
                    0 => {
                        let (a, f, _) = any_filter::<L>(r);
                        (self.accept(f), a, "accept")
                    }
                    1 => (self.for_label(L::nth(one)), acc_of(&[one]), "for_label"),
                    2 => (self.for_labels(v.iter().map(|i| L::nth(*i)).collect()), acc_of(&v), "for_labels"),
                    3 => (self.for_all_labels(), EVERY, "for_all_labels"),
                    4 => {
                        let mut a = NONE;
                        (0..LABELS).for_each(|i| a[i] = set >> i & 1 == 1);
                        (self.for_labels_by_predicate(move |x: &L| set >> x.idx() & 1 == 1), a, "for_labels_by_predicate")
                    }
                    _ => (self.adapter(), NONE, "adapter"),
                }
            }
        }
    };
}
own_ways!(InstrumentAdapter; Counter, Meter, ValueMeter, Histogram, Flag, DataDisplay, LastOccurrenceTracker, StaircaseTimer, OccurrenceIndicator, NonOccurrenceIndicator);
own_ways!(@ Gauge, GaugeAdapter<L>);

/// The ways of `InstrumentAdapter` itself.
pub fn adapter_way<L: Lab, I: Instrument>(i: I, r: &mut Rng) -> (InstrumentAdapter<L, I>, Acc, &'static str) {
    let v: Vec<usize> = (0..r.usize(9)).map(|_| r.usize(LABELS)).collect();
    let one = r.usize(LABELS);
    let set = r.next();
    let (fa, f, _) = any_filter::<L>(r);
    match r.below(9) {
        0 => (InstrumentAdapter::new(i), EVERY, "new"),
        1 => (i.into(), EVERY, "into"),
        2 => (InstrumentAdapter::accept(f, i), fa, "accept"),
        3 => (InstrumentAdapter::for_label(L::nth(one), i), acc_of(&[one]), "for_label"),
        4 => (InstrumentAdapter::for_labels(v.iter().map(|i| L::nth(*i)).collect(), i), acc_of(&v), "for_labels"),
        5 => {
            let mut a = NONE;
            (0..LABELS).for_each(|i| a[i] = set >> i & 1 == 1);
            (InstrumentAdapter::by_predicate(move |x: &L| set >> x.idx() & 1 == 1, i), a, "by_predicate")
        }
        6 => (InstrumentAdapter::deaf(i), NONE, "deaf"),
        7 => (InstrumentAdapter::accept(f, i).accept_no_labels(), NONE, "accept_no_labels"),
        _ => (InstrumentAdapter::accept(f, i).accept_all_labels(), EVERY, "accept_all_labels"),
    }
}
fn gauge_way<L: Lab>(g: Gauge, r: &mut Rng) -> (GaugeAdapter<L>, Acc, &'static str) {
    let v: Vec<usize> = (0..r.usize(9)).map(|_| r.usize(LABELS)).collect();
    let one = r.usize(LABELS);
    let set = r.next();
    let (fa, f, _) = any_filter::<L>(r);
    match r.below(7) {
        0 => (GaugeAdapter::new(g), EVERY, "new"),
        1 => (g.into(), EVERY, "into"),
        2 => (GaugeAdapter::accept(f, g), fa, "accept"),
        3 => (GaugeAdapter::for_label(L::nth(one), g), acc_of(&[one]), "for_label"),
        4 => (GaugeAdapter::for_labels(v.iter().map(|i| L::nth(*i)).collect(), g), acc_of(&v), "for_labels"),
        5 => {
            let mut a = NONE;
            (0..LABELS).for_each(|i| a[i] = set >> i & 1 == 1);
            (GaugeAdapter::for_labels_by_predicate(move |x: &L| set >> x.idx() & 1 == 1, g), a, "for_labels_by_predicate")
        }
        _ => (GaugeAdapter::deaf(g), NONE, "deaf"),
    }
}

// ------------------------------------------------------------ instruments
fn dur(r: &mut Rng) -> Duration {
    Duration::from_nanos(match r.below(3) {
        0 => 1 + r.below(3_000_000_000),
        1 => (1 + r.below(100)) * 1_000_000_000,
        _ => r.below(1000),
    })
}
fn unit(r: &mut Rng) -> TimeUnit {
    UNITS[r.usize(4)]
}
fn inverted(r: &mut Rng, name: &str) -> Option<NameAlternation> {
    match r.below(4) {
        0 => Some(NameAlternation::Prefix("not_".into())),
        1 => Some(NameAlternation::Postfix("_not".into())),
        2 => Some(NameAlternation::Rename(format!("ren_{}", name))),
        _ => None,
    }
}
pub fn gen_counter(_: &mut Rng, n: &str, _: bool) -> Counter {
    Counter::new(n)
}
pub fn gen_gauge(r: &mut Rng, n: &str, timeless: bool) -> Gauge {
    let mut g = Gauge::new(n).display_time_unit(unit(r)).group_values(r.bool());
    if r.bool() {
        g = g.value(r.range(-5, 5));
    }
    if !timeless && r.bool() {
        g = g.tracking(1 + r.usize(20));
    }
    g
}
pub fn gen_meter(r: &mut Rng, n: &str, timeless: bool) -> Meter {
    let mut m = Meter::new(n);
    if timeless {
        m.set_one_minute_rate_enabled(false);
    } else {
        m = m.one_minute_rate_enabled(r.bool()).five_minute_rate_enabled(r.bool()).fifteen_minute_rate_enabled(r.bool()).lower_cutoff(r.f01());
    }
    m
}
pub fn gen_value_meter(r: &mut Rng, n: &str, timeless: bool) -> ValueMeter {
    let mut m = ValueMeter::new(n).display_time_unit(unit(r));
    if timeless {
        m.set_one_minute_rate_enabled(false);
    } else {
        m = m.one_minute_rate_enabled(r.bool()).five_minute_rate_enabled(r.bool()).fifteen_minute_rate_enabled(r.bool()).lower_cutoff(r.f01());
    }
    m
}
pub fn gen_histogram(r: &mut Rng, n: &str, _: bool) -> Histogram {
    let mut h = Histogram::new(n).display_time_unit(unit(r));
    if r.bool() {
        h = h.inactivity_limit(dur(r)).reset_after_inactivity(r.bool()).show_activity_state(r.bool());
    }
    h
}
pub fn gen_flag(r: &mut Rng, n: &str, _: bool) -> Flag {
    let mut f = Flag::new(n);
    if r.bool() {
        f = f.state(r.bool());
    }
    if let Some(a) = inverted(r, n) {
        f = f.show_inverted(a);
    }
    f
}
pub fn gen_display(r: &mut Rng, n: &str, timeless: bool) -> DataDisplay {
    let mut d = DataDisplay::new(n);
    if r.bool() {
        d = d.reset_value("reset");
    }
    if !timeless && r.bool() {
        d = d.reset_after(dur(r));
    }
    d
}
pub fn gen_tracker(r: &mut Rng, n: &str, _: bool) -> LastOccurrenceTracker {
    LastOccurrenceTracker::new(n).make_none_zero(r.bool())
}
pub fn gen_staircase(r: &mut Rng, n: &str, _: bool) -> StaircaseTimer {
    let mut t = StaircaseTimer::new(n).switch_off_after(dur(r));
    t.set_invert(r.bool());
    if let Some(a) = inverted(r, n) {
        t = t.show_inverted(a);
    }
    t
}
pub fn gen_occurrence(r: &mut Rng, n: &str, _: bool) -> OccurrenceIndicator {
    let mut t = OccurrenceIndicator::new(n).if_happened_within(dur(r)).invert_enabled(r.bool());
    if let Some(a) = inverted(r, n) {
        t = t.show_inverted(a);
    }
    t
}
pub fn gen_non_occurrence(r: &mut Rng, n: &str, _: bool) -> NonOccurrenceIndicator {
    let mut t = NonOccurrenceIndicator::new(n).if_not_happened_within(dur(r)).invert_enabled(r.bool());
    if let Some(a) = inverted(r, n) {
        t = t.show_inverted(a);
    }
    t
}

// ------------------------------------------------------------ model
pub struct Twin(pub Box<dyn Instrument>);
pub enum Part {
    Leaf { twin: Twin, name: String, title: Option<String>, descr: Option<String>, acc: Acc, modifier: Option<u8>, what: String },
    Probe { key: String, log: Arc<Mutex<Vec<Val>>>, ret: usize, acc: Acc, modifier: Option<u8>, want: Vec<Val>, what: String },
    Rec { key: String, log: Arc<Mutex<Vec<(usize, Val, Instant)>>>, ret: usize, want: Vec<(usize, Val, Instant)>, what: String },
    Shot { key: String, value: ItemKind, calls: Arc<AtomicU64>, want_calls: u64, what: String },
    Poll { key: String, group: bool, title: Option<String>, descr: Option<String>, items: Vec<(String, ItemKind)>, calls: Arc<AtomicU64>, want_calls: u64, what: String },
    Const { key: String, title: Option<String>, descr: Option<String>, value: ItemKind },
    Group(Group),
}
pub struct Group {
    pub name: Option<String>,
    pub title: Option<String>,
    pub descr: Option<String>,
    pub pair: bool,
    pub gate: Acc,
    /// parts with their kind
    pub parts: Vec<(u8, Part)>,
}
impl Group {
    pub fn new(name: Option<String>) -> Group {
        Group { name, title: None, descr: None, pair: false, gate: EVERY, parts: vec![] }
    }
}
pub const K_INSTR: u8 = 0;
pub const K_PANEL: u8 = 1;
pub const K_SHOT: u8 = 2;
pub const K_HANDLER: u8 = 3;
pub const K_COCKPIT: u8 = 4;
pub const K_PROC: u8 = 5;

pub type Tag = Vec<(u8, usize)>;
#[derive(Debug, Clone)]
pub enum Want {
    One(ItemKind),
    Group(Vec<Item>),
}
#[derive(Debug, Clone)]
pub struct Item {
    pub key: String,
    pub val: Want,
    pub tag: Tag,
    /// descriptive items: the candidates
    pub texts: Vec<(String, Tag)>,
}
fn put_desc(into: &mut Vec<Item>, key: &str, text: &Option<String>, tag: &Tag) {
    if let Some(t) = text {
        if let Some(i) = into.iter_mut().find(|i| i.key == key && !i.texts.is_empty()) {
            i.texts.push((t.clone(), tag.clone()));
        } else {
            into.push(Item { key: key.to_string(), val: Want::One(ItemKind::Text(t.clone())), tag: tag.clone(), texts: vec![(t.clone(), tag.clone())] });
        }
    }
}
impl Group {
    /// Feeds an observation to the model, returns how many instruments are updated.
    pub fn feed(&mut self, l: usize, v: Val, ts: Instant) -> usize {
        if !self.gate[l] {
            return 0;
        }
        let mut n = 0;
        for (_, p) in self.parts.iter_mut() {
            n += match p {
                Part::Leaf { twin, acc, modifier, .. } if acc[l] => {
                    let mut u = v.update(ts);
                    if let Some(m) = modifier {
                        u = modify(*m, l, u);
                    }
                    twin.0.update(&u)
                }
                Part::Probe { acc, modifier, want, ret, .. } if acc[l] => {
                    let mut u = v.update(ts);
                    if let Some(m) = modifier {
                        u = modify(*m, l, u);
                    }
                    want.push(Val::of_update(&u));
                    *ret
                }
                Part::Rec { want, ret, .. } => {
                    want.push((l, v, ts));
                    *ret
                }
                Part::Group(g) => g.feed(l, v, ts),
                _ => 0,
            };
        }
        n
    }
    pub fn put(&mut self, into: &mut Vec<Item>, descriptive: bool, tag: &Tag) {
        if let Some(name) = self.name.clone() {
            let mut inner = vec![];
            self.put_inner(&mut inner, descriptive, &vec![]);
            into.push(Item { key: name, val: Want::Group(inner), tag: tag.clone(), texts: vec![] });
        } else {
            self.put_inner(into, descriptive, tag);
        }
    }
    pub fn put_inner(&mut self, into: &mut Vec<Item>, descriptive: bool, tag: &Tag) {
        if descriptive {
            // comes before everything else of this group
            let mut t = tag.clone();
            t.push((255, 0));
            put_desc(into, "_title", &self.title, &t);
            put_desc(into, "_description", &self.descr, &t);
        }
        if self.pair {
            let one = |k: &str, b: bool| Item { key: k.into(), val: Want::One(b.into()), tag: tag.clone(), texts: vec![] };
            into.push(one("_inactive", false));
            into.push(one("_active", true));
        }
        for (i, (kind, p)) in self.parts.iter_mut().enumerate() {
            let mut tag = tag.clone();
            tag.push((*kind, i));
            let plain = |key: &str, v: ItemKind| Item { key: key.to_string(), val: Want::One(v), tag: tag.clone(), texts: vec![] };
            match p {
                Part::Leaf { twin, name, title, descr, .. } => {
                    if descriptive {
                        put_desc(into, &format!("_title_{}", name), title, &tag);
                        put_desc(into, &format!("_description_{}", name), descr, &tag);
                    }
                    let mut s = Snapshot::default();
                    twin.0.put_snapshot(&mut s, false);
                    for (k, v) in s.items {
                        into.push(plain(&k, v));
                    }
                }
                Part::Probe { key, want, .. } => into.push(plain(key, (want.len() as u64).into())),
                Part::Rec { key, want, .. } => into.push(plain(key, (want.len() as u64).into())),
                Part::Shot { key, value, want_calls, .. } => {
                    *want_calls += 1;
                    into.push(plain(key, value.clone()));
                }
                Part::Poll { key, group, title, descr, items, want_calls, .. } => {
                    *want_calls += 1;
                    if descriptive {
                        put_desc(into, &format!("_title_{}", key), title, &tag);
                        put_desc(into, &format!("_description_{}", key), descr, &tag);
                    }
                    if *group {
                        into.push(plain(key, ItemKind::Snapshot(Snapshot { items: items.clone() })));
                    } else {
                        for (k, v) in items.iter() {
                            into.push(plain(k, v.clone()));
                        }
                    }
                }
                Part::Const { key, title, descr, value } => {
                    if descriptive {
                        put_desc(into, &format!("_title_{}", key), title, &tag);
                        put_desc(into, &format!("_description_{}", key), descr, &tag);
                    }
                    into.push(plain(key, value.clone()));
                }
                Part::Group(g) => g.put(into, descriptive, &tag),
            }
        }
    }
    /// Everything a component has received must be what the model says.
    pub fn check_received(&self, c: &Case, trace: &str) -> u64 {
        let mut n = 0;
        for (_, p) in &self.parts {
            match p {
                Part::Probe { log, want, what, .. } => {
                    let got = log.lock().unwrap().clone();
                    n += got.len() as u64;
                    c.check(got == *want, || format!("{} received {:?}, expected {:?} after {}", what, got, want, trace));
                }
                Part::Rec { log, want, what, .. } => {
                    let got = log.lock().unwrap().clone();
                    n += got.len() as u64;
                    c.check(got == *want, || format!("{} received {:?}, expected {:?} after {}", what, got, want, trace));
                }
                Part::Group(g) => n += g.check_received(c, trace),
                _ => {}
            }
        }
        n
    }
    /// Every snapshooter must have been called once per snapshot.
    pub fn check_calls(&self, c: &Case, trace: &str) -> u64 {
        let mut n = 0;
        for (_, p) in &self.parts {
            match p {
                Part::Shot { calls, want_calls, what, .. } | Part::Poll { calls, want_calls, what, .. } => {
                    c.eq(calls.load(SeqCst), *want_calls, || format!("calls of snapshooter {} after {}", what, trace));
                    n += *want_calls;
                }
                Part::Group(g) => n += g.check_calls(c, trace),
                _ => {}
            }
        }
        n
    }
    pub fn size(&self) -> usize {
        self.parts.iter().map(|(_, p)| if let Part::Group(g) = p { 1 + g.size() } else { 1 }).sum()
    }
}
fn before(a: &Tag, b: &Tag) -> bool {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            // a group's own descriptions come first
            return x.0 == 255 || (x.0 == y.0 && x.1 < y.1);
        }
    }
    false
}
/// Does the actual snapshot contain exactly what is wanted?
pub fn matches(want: &[Item], got: &[(String, ItemKind)]) -> Result<(), String> {
    let mut used = vec![false; got.len()];
    let mut pos = vec![usize::MAX; want.len()];
    for (wi, w) in want.iter().enumerate() {
        let mut why = String::new();
        for (gi, (k, v)) in got.iter().enumerate() {
            if used[gi] || *k != w.key {
                continue;
            }
            let ok = if !w.texts.is_empty() {
                let allowed: Vec<&String> =
                    w.texts.iter().filter(|t| !w.texts.iter().any(|u| before(&u.1, &t.1))).map(|t| &t.0).collect();
                match v {
                    ItemKind::Text(t) if allowed.contains(&t) => true,
                    v => {
                        why = format!("{} is {:?}, expected one of {:?}", k, v, allowed);
                        false
                    }
                }
            } else {
                match (&w.val, v) {
                    (Want::Group(inner), ItemKind::Snapshot(s)) => match matches(inner, &s.items) {
                        Ok(()) => true,
                        Err(e) => {
                            why = format!("{}/{}", w.key, e);
                            false
                        }
                    },
                    (Want::One(a), b) => {
                        if item_close(a, b) {
                            true
                        } else {
                            why = format!("{} is {:?}, expected {:?}", k, b, a);
                            false
                        }
                    }
                    (_, b) => {
                        why = format!("{} is {:?}, expected a group", k, b);
                        false
                    }
                }
            };
            if ok {
                used[gi] = true;
                pos[wi] = gi;
                break;
            }
        }
        if pos[wi] == usize::MAX {
            return Err(if why.is_empty() { format!("{} is missing", w.key) } else { why });
        }
    }
    if let Some(gi) = used.iter().position(|u| !u) {
        return Err(format!("unexpected item {:?}: {:?}", got[gi].0, got[gi].1));
    }
    let unique = |k: &str| want.iter().filter(|w| w.key == k).count() == 1;
    for (i, a) in want.iter().enumerate() {
        for (j, b) in want.iter().enumerate() {
            if a.texts.is_empty() && b.texts.is_empty() && before(&a.tag, &b.tag) && pos[i] > pos[j] && unique(&a.key) && unique(&b.key) {
                return Err(format!("{} is shown before {}", b.key, a.key));
            }
        }
    }
    Ok(())
}
pub fn item_close(a: &ItemKind, b: &ItemKind) -> bool {
    match (a, b) {
        (ItemKind::Float(x), ItemKind::Float(y)) => close(*x, *y),
        (ItemKind::Snapshot(x), ItemKind::Snapshot(y)) => snap_close(x, y),
        (a, b) => a == b,
    }
}

// ------------------------------------------------------------ components for the trees
pub struct LabRec<L> {
    log: Arc<Mutex<Vec<(usize, Val, Instant)>>>,
    key: String,
    ret: usize,
    _l: std::marker::PhantomData<fn(L)>,
}
impl<L: Lab> PutsSnapshot for LabRec<L> {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        let n = self.log.lock().unwrap().len() as u64;
        into.push(self.key.clone(), n);
    }
}
impl<L: Lab> HandlesObservations for LabRec<L> {
    type Label = L;
    fn handle_observation(&mut self, o: &Observation<L>) -> usize {
        self.log.lock().unwrap().push((o.label().idx(), Val::of(o), o.timestamp()));
        self.ret
    }
}
pub struct Polled {
    items: Vec<(String, ItemKind)>,
    calls: Arc<AtomicU64>,
}
impl PutsSnapshot for Polled {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        self.calls.fetch_add(1, SeqCst);
        into.items.extend(self.items.iter().cloned());
    }
}
pub struct Boxed<L>(pub Box<dyn HandlesObservations<Label = L>>);
impl<L: Lab> PutsSnapshot for Boxed<L> {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        self.0.put_snapshot(into, d)
    }
}
impl<L: Lab> HandlesObservations for Boxed<L> {
    type Label = L;
    fn handle_observation(&mut self, o: &Observation<L>) -> usize {
        self.0.handle_observation(o)
    }
}
pub struct BoxedShot(pub Box<dyn PutsSnapshot>);
impl PutsSnapshot for BoxedShot {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        self.0.put_snapshot(into, d)
    }
}

// ------------------------------------------------------------ builder
/// Less than `n`, or once in a while many more.
pub fn some(r: &mut Rng, n: usize) -> usize {
    if r.chance(1, 250) {
        count("wide_containers", 1);
        r.usize(70)
    } else {
        r.usize(n)
    }
}
pub struct Builder {
    pub timeless: bool,
    pub names: u64,
    /// chance in 16 that a name is not fresh
    pub clashes: u64,
    pub titles: bool,
    pub modifiers: bool,
    pub limits: bool,
    /// inactivity limits that are exceeded now and then (the model does not follow them)
    pub short: bool,
    /// names with any characters
    pub hostile: bool,
    pub forms: BTreeMap<String, u64>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { timeless: false, names: 0, clashes: 1, titles: true, modifiers: true, limits: true, short: false, hostile: false, forms: BTreeMap::new() }
    }
    pub fn name(&mut self, r: &mut Rng, p: &str) -> String {
        if self.clashes > 0 && r.chance(1, 100) {
            // a name like any other
            return match r.below(4) {
                // or one that looks like what components show by themselves
                0 => r.pick(&["x_title", "my_description", "_active", "_inactive", "title", "description", "_", " "]).to_string(),
                1 if self.names > 0 => format!("x_title_{}{}", p, r.below(self.names)),
                2 if self.names > 0 => format!("x_description_{}{}", p, r.below(self.names)),
                _ => String::new(),
            };
        }
        if r.below(16) < self.clashes && self.names > 0 {
            let k = r.below(self.names);
            return format!("{}{}", p, k);
        }
        self.names += 1;
        if self.hostile {
            let odd: String = (0..r.usize(4)).map(|_| *r.pick(&['"', '\\', '/', '\u{0}', '\u{1f}', '\n', '\u{7f}', '\u{10ffff}', 'ä', ' '])).collect();
            return format!("{}{}{}", odd, p, self.names - 1);
        }
        format!("{}{}", p, self.names - 1)
    }
    fn text(&mut self, r: &mut Rng, what: &str, n: &str) -> Option<String> {
        if self.titles && r.chance(1, 3) {
            Some(match r.below(12) {
                // nothing to say is said, too
                0 => String::new(),
                1 => r.pick(&[" ", "\t\n", "_", "\u{0}", "\""]).to_string(),
                _ => format!("{} of {} {}", what, n, r.below(1000)),
            })
        } else {
            None
        }
    }
    pub fn limit(&self, r: &mut Rng) -> Duration {
        if self.short {
            ms(100 + r.below(20_000))
        } else {
            secs(1_000_000_000)
        }
    }
    fn form(&mut self, i: &str, f: &str) {
        *self.forms.entry(format!("{}/{}", i, f)).or_insert(0) += 1;
    }
    /// A snapshooter: fixed item, polled instrument or constant
    pub fn shot(&mut self, r: &mut Rng, place: &str) -> (BoxedShot, Part) {
        let key = self.name(r, "s");
        let calls = Arc::new(AtomicU64::new(0));
        let value: ItemKind = match r.below(5) {
            0 => r.below(100).into(),
            1 => r.range(-9, 9).into(),
            2 => r.bool().into(),
            3 => "text".into(),
            _ => (r.f01() * 10.0).into(),
        };
        let (title, descr) = (self.text(r, "title", &key), self.text(r, "descr", &key));
        let what = format!("{} in {}", key, place);
        match r.below(3) {
            0 => {
                let s = Shot { key: key.clone(), value: value.clone(), calls: calls.clone() };
                (BoxedShot(Box::new(s)), Part::Shot { key, value, calls, want_calls: 0, what })
            }
            1 => {
                let n = r.usize(3);
                let items: Vec<(String, ItemKind)> = (0..n).map(|_| (self.name(r, "v"), value.clone())).collect();
                let polled = Polled { items: items.clone(), calls: calls.clone() };
                let mut p = PollingInstrument::new_with_defaults(key.clone(), polled);
                let group = r.bool();
                if r.bool() {
                    p.set_create_group_with_name(group);
                    title.clone().map(|t| p.set_title(t));
                    descr.clone().map(|t| p.set_description(t));
                } else {
                    p.create_group_with_name = group;
                    p.title = title.clone();
                    p.description = descr.clone();
                }
                (BoxedShot(Box::new(p)), Part::Poll { key, group, title, descr, items, calls, want_calls: 0, what })
            }
            _ => {
                let mut k = ConstantValue::new(key.clone(), value.clone());
                title.clone().map(|t| k.set_title(t));
                descr.clone().map(|t| k.set_description(t));
                (BoxedShot(Box::new(k)), Part::Const { key, title, descr, value })
            }
        }
    }
    /// A recording handler
    pub fn rec<L: Lab>(&mut self, r: &mut Rng, place: &str) -> (LabRec<L>, Part) {
        let key = self.name(r, "h");
        let log = Arc::new(Mutex::new(vec![]));
        let ret = r.usize(4);
        let what = format!("handler {} in {}", key, place);
        (
            LabRec { log: log.clone(), key: key.clone(), ret, _l: Default::default() },
            Part::Rec { key, log, ret, want: vec![], what },
        )
    }
    /// A probe behind an adapter
    pub fn probe<L: Lab>(&mut self, r: &mut Rng, place: &str) -> (InstrumentAdapter<L, Probe>, Part) {
        let key = self.name(r, "p");
        let (mut p, log) = Probe::new(key.clone());
        p.ret = r.usize(4);
        let ret = p.ret;
        let (mut a, acc, form) = adapter_way::<L, Probe>(p, r);
        self.form("probe", form);
        let modifier = if self.modifiers && r.chance(1, 4) { Some(r.below(5) as u8) } else { None };
        if let Some(m) = modifier {
            if r.chance(1, 4) {
                // replaced by the next one
                a = a.modify_with(modifier_fn(r.below(5) as u8));
            }
            a = a.modify_with(modifier_fn(m));
        }
        let what = format!("probe {} ({}, modifier {:?}) in {}", key, form, modifier, place);
        (a, Part::Probe { key, log, ret, acc, modifier, want: vec![], what })
    }
    pub fn timed(&self) -> bool {
        !self.timeless
    }
}
fn modifier_fn<L: Lab>(id: u8) -> impl Fn(&L, Update) -> Update + Send + 'static {
    modifier::<L>(id)
}

/// Makes an instrument and its twin: (instrument, twin, name, title, description)
macro_rules! make {
    ($b:expr, $r:expr, $gen:path, $prefix:expr) => {{
        let name = $b.name($r, $prefix);
        let (title, descr) = ($b.text($r, "title", &name), $b.text($r, "descr", &name));
        let seed = $r.next();
        let twin: Box<dyn Instrument> = Box::new($gen(&mut Rng::new(seed), &name, $b.timeless));
        let mut i = $gen(&mut Rng::new(seed), &name, $b.timeless);
        if let Some(t) = title.clone() {
            if $r.bool() {
                i = i.title(t);
            } else {
                i.set_title(t);
            }
        }
        if let Some(t) = descr.clone() {
            if $r.bool() {
                i = i.description(t);
            } else {
                i.set_description(t);
            }
        }
        (i, Twin(twin), name, title, descr)
    }};
}
/// An instrument behind one of its adapters, with its model part.
macro_rules! adapted {
    ($b:expr, $r:expr, $l:ty, $gen:path, $prefix:expr, $place:expr) => {{
        let (i, twin, name, title, descr) = make!($b, $r, $gen, $prefix);
        let own = $r.bool();
        let (mut a, acc, form) = if own { i.own_way::<$l>($r) } else { adapter_way::<$l, _>(i, $r) };
        $b.form($prefix, form);
        let modifier = if $b.modifiers && $r.chance(1, 4) { Some($r.below(5) as u8) } else { None };
        if let Some(m) = modifier {
            if $r.chance(1, 4) {
                a = a.modify_with(modifier_fn($r.below(5) as u8));
            }
            a = a.modify_with(modifier_fn(m));
        }
        let what = format!("{} ({}) in {}", name, form, $place);
        (a, Part::Leaf { twin, name, title, descr, acc, modifier, what })
    }};
}
macro_rules! boxed {
    ($e:expr) => {{
        let (a, p) = $e;
        (Boxed(Box::new(a) as Box<dyn HandlesObservations<Label = _>>), p)
    }};
}
macro_rules! plain_instrument {
    ($b:expr, $r:expr, $panel:expr, $gen:path, $prefix:expr, $place:expr) => {{
        let (i, twin, name, title, descr) = make!($b, $r, $gen, $prefix);
        $panel.add_instrument(i);
        let what = format!("{} (add_instrument) in {}", name, $place);
        Part::Leaf { twin, name, title, descr, acc: EVERY, modifier: None, what }
    }};
}
impl Builder {
    /// Any instrument behind an adapter, as a handler.
    pub fn handler<L: Lab>(&mut self, r: &mut Rng, place: &str) -> (Boxed<L>, Part) {
        let n = if self.timeless { 8 } else { 14 };
        match r.below(n) {
            0 => boxed!(self.rec::<L>(r, place)),
            1 | 2 => boxed!(self.probe::<L>(r, place)),
            3 => boxed!(adapted!(self, r, L, gen_counter, "counter", place)),
            4 => boxed!(self.gauge::<L>(r, place)),
            5 => boxed!(adapted!(self, r, L, gen_flag, "flag", place)),
            6 => boxed!(adapted!(self, r, L, gen_display, "display", place)),
            7 => boxed!(adapted!(self, r, L, gen_meter, "meter", place)),
            8 => boxed!(adapted!(self, r, L, gen_value_meter, "valuemeter", place)),
            9 => boxed!(adapted!(self, r, L, gen_histogram, "histogram", place)),
            10 => boxed!(adapted!(self, r, L, gen_tracker, "tracker", place)),
            11 => boxed!(adapted!(self, r, L, gen_staircase, "staircase", place)),
            12 => boxed!(adapted!(self, r, L, gen_occurrence, "occurrence", place)),
            _ => boxed!(adapted!(self, r, L, gen_non_occurrence, "nonoccurrence", place)),
        }
    }
    fn gauge<L: Lab>(&mut self, r: &mut Rng, place: &str) -> (GaugeAdapter<L>, Part) {
        let (i, twin, name, title, descr) = make!(self, r, gen_gauge, "gauge");
        let (a, acc, form) = if r.bool() { i.own_way::<L>(r) } else { gauge_way::<L>(i, r) };
        self.form("gauge", form);
        let what = format!("{} ({}) in {}", name, form, place);
        (a, Part::Leaf { twin, name, title, descr, acc, modifier: None, what })
    }
    pub fn panel<L: Lab>(&mut self, r: &mut Rng, place: &str, depth: u32) -> (Panel<L>, Group) {
        let (acc, f, form) = any_filter::<L>(r);
        // empty panels tell nothing
        let (acc, f, form) = if acc == NONE && r.bool() { any_filter::<L>(r) } else { (acc, f, form) };
        self.form("panel", form);
        let name = if r.chance(2, 3) { Some(self.name(r, "panel")) } else { None };
        let mut g = Group::new(name.clone());
        g.gate = acc;
        let mut late_name = None;
        let mut p: Panel<L> = match (&name, r.below(4)) {
            (Some(n), 0) => {
                late_name = Some(n.clone());
                if r.bool() {
                    Panel::new(f)
                } else {
                    Panel::named(f, "other")
                }
            }
            (Some(n), 1) => Panel::accept_named(f, n.clone()),
            (Some(n), _) if acc == EVERY && r.bool() => Panel::accept_all_named(n.clone()),
            (Some(n), _) => Panel::named(f, n.clone()),
            (None, 0) => Panel::accept(f),
            (None, _) if acc == EVERY && r.bool() => Panel::accept_all(),
            (None, _) => Panel::new(f),
        };
        let place = format!("{}/{}", place, name.clone().unwrap_or_else(|| "panel".into()));
        let n = name.clone().unwrap_or_default();
        g.title = self.text(r, "title", &n);
        g.descr = self.text(r, "descr", &n);
        if self.limits && r.chance(1, 4) {
            let d = self.limit(r);
            if r.bool() {
                p = p.inactivity_limit(d);
            } else {
                p.set_inactivity_limit(d);
            }
            g.pair = r.bool();
            if !g.pair {
                p.set_show_activity_state(false);
            }
        }
        for _ in 0..some(r, 7) {
            let how = r.bool();
            match r.below(if depth > 0 { 9 } else { 7 }) {
                0 => {
                    let (a, m) = adapted!(self, r, L, gen_counter, "counter", place);
                    p = if how { p.counter(a) } else { p.add_counter(a); p };
                    g.parts.push((K_INSTR, m));
                }
                1 => {
                    let (a, m) = self.gauge::<L>(r, &place);
                    p = if how { p.gauge(a) } else { p.add_gauge(a); p };
                    g.parts.push((K_INSTR + 10, m));
                }
                2 => {
                    let (a, m) = adapted!(self, r, L, gen_meter, "meter", place);
                    p = if how { p.meter(a) } else { p.add_meter(a); p };
                    g.parts.push((K_INSTR + 11, m));
                }
                3 if !self.timeless => {
                    let (a, m) = adapted!(self, r, L, gen_histogram, "histogram", place);
                    p = if how { p.histogram(a) } else { p.add_histogram(a); p };
                    g.parts.push((K_INSTR + 12, m));
                }
                4 => {
                    let (s, m) = self.shot(r, &place);
                    p = if how { p.snapshooter(s) } else { p.add_snapshooter(s); p };
                    g.parts.push((K_SHOT, m));
                }
                5 => {
                    let part = if how {
                        let key = self.name(r, "p");
                        let (mut i, log) = Probe::new(key.clone());
                        i.ret = r.usize(3);
                        let ret = i.ret;
                        p = p.instrument(i);
                        let what = format!("probe {} (instrument) in {}", key, place);
                        Part::Probe { key, log, ret, acc: EVERY, modifier: None, want: vec![], what }
                    } else {
                        match r.below(if self.timeless { 4 } else { 8 }) {
                            0 => plain_instrument!(self, r, p, gen_counter, "counter", place),
                            1 => plain_instrument!(self, r, p, gen_flag, "flag", place),
                            2 => plain_instrument!(self, r, p, gen_display, "display", place),
                            3 => plain_instrument!(self, r, p, gen_gauge, "gauge", place),
                            4 => plain_instrument!(self, r, p, gen_value_meter, "valuemeter", place),
                            5 => plain_instrument!(self, r, p, gen_staircase, "staircase", place),
                            6 => plain_instrument!(self, r, p, gen_tracker, "tracker", place),
                            _ => plain_instrument!(self, r, p, gen_histogram, "histogram", place),
                        }
                    };
                    g.parts.push((K_HANDLER, part));
                }
                3 | 6 => {
                    let (h, m) = self.handler::<L>(r, &place);
                    p = if how { p.handler(h) } else { p.add_handler(h); p };
                    g.parts.push((K_HANDLER, m));
                }
                _ => {
                    let deeper = if r.chance(1, 150) { 2 + r.below(40) as u32 } else { depth - 1 };
                    let (q, m) = self.panel::<L>(r, &place, deeper);
                    p = if how { p.panel(q) } else { p.add_panel(q); p };
                    g.parts.push((K_PANEL, Part::Group(m)));
                }
            }
        }
        if let Some(n) = late_name {
            p.set_name(n);
        }
        if let Some(t) = g.title.clone() {
            p.set_title(t);
        }
        if let Some(t) = g.descr.clone() {
            p.set_description(t);
        }
        (p, g)
    }
    pub fn cockpit<L: Lab>(&mut self, r: &mut Rng, place: &str, depth: u32) -> (Cockpit<L>, Group) {
        let name = if r.chance(2, 3) { Some(self.name(r, "cockpit")) } else { None };
        let mut g = Group::new(name.clone());
        let place = format!("{}/{}", place, name.clone().unwrap_or_else(|| "cockpit".into()));
        let mut late = None;
        let mut k: Cockpit<L> = match &name {
            Some(n) if r.bool() => Cockpit::new(n.clone()),
            Some(n) => {
                late = Some(n.clone());
                if r.bool() { Cockpit::without_name() } else { Cockpit::new("other") }
            }
            None if r.bool() => Cockpit::default(),
            None => Cockpit::without_name(),
        };
        let n = name.clone().unwrap_or_default();
        g.title = self.text(r, "title", &n);
        g.descr = self.text(r, "descr", &n);
        if self.limits && r.chance(1, 4) {
            k.set_inactivity_limit(self.limit(r));
            g.pair = r.bool();
            if !g.pair {
                k = k.show_activity_state(false);
            }
        }
        for _ in 0..some(r, 6) {
            let how = r.bool();
            match r.below(5) {
                0 => {
                    let (s, m) = self.shot(r, &place);
                    k = if how { k.snapshooter(s) } else { k.add_snapshooter(s); k };
                    g.parts.push((K_SHOT, m));
                }
                1 => {
                    let (h, m) = self.handler::<L>(r, &place);
                    k = if how { k.handler(h) } else { k.add_handler(h); k };
                    g.parts.push((K_HANDLER, m));
                }
                _ => {
                    let (q, m) = self.panel::<L>(r, &place, depth);
                    let taken = m.name.is_some() && g.parts.iter().any(|(_, p)| matches!(p, Part::Group(x) if x.name == m.name));
                    k = if how { k.panel(q) } else { k.add_panel(q); k };
                    if !taken {
                        g.parts.push((K_PANEL, Part::Group(m)));
                    }
                }
            }
        }
        if let Some(n) = late {
            k.set_name(n);
        }
        if let Some(t) = g.title.clone() {
            k.set_title(t);
        }
        if let Some(t) = g.descr.clone() {
            k.set_description(t);
        }
        (k, g)
    }
    /// A processor with its components added directly or through the transmitter.
    pub fn processor<L: Lab>(&mut self, r: &mut Rng, place: &str, depth: u32) -> (TelemetryTransmitter<L>, TelemetryProcessor<L>, Group) {
        let name = if r.chance(2, 3) { Some(self.name(r, "proc")) } else { None };
        let mut g = Group::new(name.clone());
        let place = format!("{}/{}", place, name.clone().unwrap_or_else(|| "proc".into()));
        let (tx, mut p) = match (&name, r.below(4)) {
            (Some(n), 0) => TelemetryProcessor::new_pair(n.clone()),
            (Some(n), 1) => TelemetryProcessor::new_pair_bounded(n.clone(), 1000, r.bool()),
            (Some(n), _) => {
                let (tx, mut p) = TelemetryProcessor::new_pair_without_name();
                p.set_name(n.clone());
                (tx, p)
            }
            (None, 0) => TelemetryProcessor::new_pair_bounded_without_name(1000, r.bool()),
            (None, _) => TelemetryProcessor::new_pair_without_name(),
        };
        if self.limits && r.chance(1, 4) {
            p.set_inactivity_limit(self.limit(r));
            g.pair = r.bool();
            if !g.pair {
                p = p.show_activity_state(false);
            }
        }
        // what goes through the transmitter comes after what was added directly
        let direct = some(r, 5);
        let total = direct + some(r, 4);
        for k in 0..total {
            let sent = k >= direct;
            let how = r.bool();
            match r.below(6) {
                0 if !sent => {
                    let (s, m) = self.shot(r, &place);
                    p = if how { p.snapshooter(s) } else { p.add_snapshooter(s); p };
                    g.parts.push((K_SHOT, m));
                }
                0 | 1 => {
                    let (h, m) = self.handler::<L>(r, &place);
                    if sent {
                        tx.add_handler(h);
                    } else {
                        p = if how { p.handler(h) } else { p.add_handler(h); p };
                    }
                    g.parts.push((K_HANDLER, m));
                }
                2 if sent => {
                    // a panel for an existing or missing cockpit
                    let names: Vec<String> = g.parts.iter().filter_map(|(k, p)| match p { Part::Group(x) if *k == K_COCKPIT => x.name.clone(), _ => None }).collect();
                    let target = if names.is_empty() || r.chance(1, 4) { "missing".to_string() } else { r.pick(&names).clone() };
                    let (q, m) = self.panel::<L>(r, &format!("{}/{}", place, target), depth);
                    tx.add_panel_to_cockpit(target.clone(), q);
                    let cockpit = g.parts.iter_mut().find_map(|(k, p)| match p { Part::Group(x) if *k == K_COCKPIT && x.name.as_ref() == Some(&target) => Some(x), _ => None });
                    if let Some(k) = cockpit {
                        let taken = m.name.is_some() && k.parts.iter().any(|(_, p)| matches!(p, Part::Group(x) if x.name == m.name));
                        if !taken {
                            k.parts.push((K_PANEL, Part::Group(m)));
                        }
                    }
                }
                _ => {
                    let (k, m) = self.cockpit::<L>(r, &place, depth);
                    let taken = m.name.is_some() && g.parts.iter().any(|(_, p)| matches!(p, Part::Group(x) if x.name == m.name));
                    if sent {
                        tx.add_cockpit(k);
                    } else {
                        p = if how { p.cockpit(k) } else { p.add_cockpit(k); p };
                    }
                    if !taken {
                        g.parts.push((K_COCKPIT, Part::Group(m)));
                    }
                }
            }
        }
        p.process(100_000, ALL);
        (tx, p, g)
    }
}
