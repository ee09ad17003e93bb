//! C31 ways of configuring; C26 ways of observing
use super::tree::*;
use crate::common::*;
use metrix::instruments::{BorrowedLabelAndUpdate, LabelAndUpdate};
use metrix::Descriptive;

/// Applies one step by its setter or by its builder method.
fn way<T>(r: &mut Rng, mut t: T, set: impl FnOnce(&mut T), build: impl FnOnce(T) -> T) -> T {
    if r.bool() {
        set(&mut t);
        t
    } else {
        build(t)
    }
}
fn text(r: &mut Rng) -> String {
    let n = r.usize(6);
    (0..n).map(|_| *r.pick(&['a', 'b', '_', ' ', '/', '"', '\u{e4}', '\u{1f600}', '\n', 'X'])).collect()
}
fn alternation(kind: u8, t: &str) -> NameAlternation {
    match kind {
        0 => NameAlternation::Prefix(t.into()),
        1 => NameAlternation::Postfix(t.into()),
        _ => NameAlternation::Rename(t.into()),
    }
}
type Alt = Option<(u8, String)>;
fn dur(r: &mut Rng) -> Duration {
    match r.below(4) {
        0 => Duration::from_nanos(1 + r.below(1_000_000_000)),
        1 => ms(r.below(5000)),
        2 => secs(60),
        _ => secs(1 + r.below(200)),
    }
}
fn default_or<T: Clone + PartialEq>(r: &mut Rng, v: &Option<T>, default: T) -> Option<T> {
    // what is documented as default may be said, too
    match v {
        Some(v) => Some(v.clone()),
        None if r.bool() => Some(default),
        None => None,
    }
}
/// An instrument with its options.
trait Conf: Instrument + Descriptive + Sized {
    type Opts: Default + Clone + std::fmt::Debug;
    const KIND: &'static str;
    fn make(r: &mut Rng, name: &str) -> Self;
    fn named(self, r: &mut Rng, name: &str) -> Self;
    fn titled(self, r: &mut Rng, t: &str) -> Self;
    fn described(self, r: &mut Rng, t: &str) -> Self;
    fn its_name(&self) -> String;
    /// Sets a random option in a random way.
    fn change(self, r: &mut Rng, o: &mut Self::Opts) -> Self;
    /// Constructor and one builder method per option.
    fn canonical(r: &mut Rng, name: &str, o: &Self::Opts) -> Self;
    /// What can be read must be what was set, and what the snapshot shows.
    fn read(&self, o: &Self::Opts, s: &Snapshot, name: &str) -> Result<(), String>;
}
macro_rules! common {
    ($t:ty, $kind:expr) => {
        const KIND: &'static str = $kind;
        fn named(self, r: &mut Rng, name: &str) -> Self {
            way(r, self, |x| x.set_name(name), |x| x.name(name))
        }
        fn titled(self, r: &mut Rng, t: &str) -> Self {
            way(r, self, |x| x.set_title(t), |x| x.title(t))
        }
        fn described(self, r: &mut Rng, t: &str) -> Self {
            way(r, self, |x| x.set_description(t), |x| x.description(t))
        }
        fn its_name(&self) -> String {
            self.get_name().to_string()
        }
    };
}
macro_rules! make_it {
    () => {
        fn make(r: &mut Rng, name: &str) -> Self {
            if r.bool() {
                Self::new(name)
            } else {
                Self::new_with_defaults(name)
            }
        }
    };
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?}, expected {:?}", what, got, want))
    }
}
fn shown<'a>(s: &'a Snapshot, name: &str) -> Option<&'a ItemKind> {
    s.items.iter().find(|i| i.0 == name).map(|i| &i.1)
}

impl Conf for Counter {
    type Opts = ();
    common!(Counter, "counter");
    make_it!();
    fn change(mut self, r: &mut Rng, _: &mut ()) -> Self {
        // counting nothing changes nothing
        if r.bool() {
            self.inc_by(0);
        }
        self
    }
    fn canonical(_: &mut Rng, name: &str, _: &()) -> Self {
        Counter::new(name)
    }
    fn read(&self, _: &(), s: &Snapshot, name: &str) -> Result<(), String> {
        same("get()", Some(&ItemKind::UInt(self.get())), shown(s, name))
    }
}
#[derive(Default, Clone, Debug)]
struct GaugeOpts {
    value: Option<i64>,
    unit: Option<u8>,
    group: Option<bool>,
    tracking: Option<usize>,
}
impl Conf for Gauge {
    type Opts = GaugeOpts;
    common!(Gauge, "gauge");
    make_it!();
    fn change(self, r: &mut Rng, o: &mut GaugeOpts) -> Self {
        match r.below(4) {
            // an initial value is also recorded by the tracking that was enabled before
            0 if o.tracking.is_none() => {
                let v = r.range(-1000, 1000);
                o.value = Some(v);
                self.value(v)
            }
            1 => {
                let u = r.below(4) as u8;
                o.unit = Some(u);
                let u = UNITS[u as usize];
                way(r, self, |x| x.set_display_time_unit(u), |x| x.display_time_unit(u))
            }
            2 => {
                let b = r.bool();
                o.group = Some(b);
                self.group_values(b)
            }
            _ => {
                let n = r.usize(10);
                if n != 0 {
                    o.tracking = Some(n);
                }
                way(r, self, |x| x.set_tracking(n), |x| x.tracking(n))
            }
        }
    }
    fn canonical(r: &mut Rng, name: &str, o: &GaugeOpts) -> Self {
        let mut g = Gauge::new(name);
        if let Some(v) = o.value {
            g = g.value(v);
        }
        if let Some(n) = o.tracking {
            g = g.tracking(n);
        }
        if let Some(u) = default_or(r, &o.unit, 1) {
            g = g.display_time_unit(UNITS[u as usize]);
        }
        if let Some(b) = default_or(r, &o.group, false) {
            g = g.group_values(b);
        }
        g
    }
    fn read(&self, o: &GaugeOpts, s: &Snapshot, name: &str) -> Result<(), String> {
        let shown = if o.group == Some(true) {
            match shown(s, name) {
                Some(ItemKind::Snapshot(s)) => s.items.iter().find(|i| i.0 == "current").map(|i| &i.1),
                _ => None,
            }
        } else {
            shown(s, name)
        };
        same("get()", self.get().map(ItemKind::Int).as_ref(), shown)
    }
}
#[derive(Default, Clone, Debug)]
struct MeterOpts {
    rates: [Option<bool>; 3],
    cutoff: Option<f64>,
    unit: Option<u8>,
}
macro_rules! meter_change {
    ($self:expr, $r:expr, $o:expr) => {{
        let b = $r.bool();
        match $r.below(4) {
            0 => {
                $o.rates[0] = Some(b);
                way($r, $self, |x| x.set_one_minute_rate_enabled(b), |x| x.one_minute_rate_enabled(b))
            }
            1 => {
                $o.rates[1] = Some(b);
                way($r, $self, |x| x.set_five_minute_rate_enabled(b), |x| x.five_minute_rate_enabled(b))
            }
            2 => {
                $o.rates[2] = Some(b);
                way($r, $self, |x| x.set_fifteen_minute_rate_enabled(b), |x| x.fifteen_minute_rate_enabled(b))
            }
            _ => {
                let c = *$r.pick(&[0.0, 0.001, 0.01, 0.5, 100.0]);
                $o.cutoff = Some(c);
                way($r, $self, |x| x.set_lower_cutoff(c), |x| x.lower_cutoff(c))
            }
        }
    }};
}
macro_rules! meter_canonical {
    ($m:expr, $r:expr, $o:expr) => {{
        let mut m = $m;
        if let Some(b) = default_or($r, &$o.rates[0], true) {
            m = m.one_minute_rate_enabled(b);
        }
        if let Some(b) = default_or($r, &$o.rates[1], false) {
            m = m.five_minute_rate_enabled(b);
        }
        if let Some(b) = default_or($r, &$o.rates[2], false) {
            m = m.fifteen_minute_rate_enabled(b);
        }
        if let Some(c) = default_or($r, &$o.cutoff, 0.001) {
            m = m.lower_cutoff(c);
        }
        m
    }};
}
fn meter_read(o: &MeterOpts, s: &Snapshot, name: &str) -> Result<(), String> {
    let g = match shown(s, name) {
        Some(ItemKind::Snapshot(s)) => s,
        _ => return Err("no group".into()),
    };
    for (i, (k, default)) in [("one_minute", true), ("five_minutes", false), ("fifteen_minutes", false)].iter().enumerate() {
        same(k, shown(g, k).is_some(), o.rates[i].unwrap_or(*default))?;
    }
    Ok(())
}
impl Conf for Meter {
    type Opts = MeterOpts;
    common!(Meter, "meter");
    make_it!();
    fn change(self, r: &mut Rng, o: &mut MeterOpts) -> Self {
        meter_change!(self, r, o)
    }
    fn canonical(r: &mut Rng, name: &str, o: &MeterOpts) -> Self {
        meter_canonical!(Meter::new(name), r, o)
    }
    fn read(&self, o: &MeterOpts, s: &Snapshot, name: &str) -> Result<(), String> {
        meter_read(o, s, name)
    }
}
impl Conf for ValueMeter {
    type Opts = MeterOpts;
    common!(ValueMeter, "value meter");
    make_it!();
    fn change(self, r: &mut Rng, o: &mut MeterOpts) -> Self {
        if r.chance(1, 4) {
            let u = r.below(4) as u8;
            o.unit = Some(u);
            let u = UNITS[u as usize];
            return way(r, self, |x| x.set_display_time_unit(u), |x| x.display_time_unit(u));
        }
        meter_change!(self, r, o)
    }
    fn canonical(r: &mut Rng, name: &str, o: &MeterOpts) -> Self {
        let m = meter_canonical!(ValueMeter::new(name), r, o);
        match default_or(r, &o.unit, 1) {
            Some(u) => m.display_time_unit(UNITS[u as usize]),
            None => m,
        }
    }
    fn read(&self, o: &MeterOpts, s: &Snapshot, name: &str) -> Result<(), String> {
        meter_read(o, s, name)
    }
}
#[derive(Default, Clone, Debug)]
struct HistoOpts {
    limit: Option<Duration>,
    reset: Option<bool>,
    show: Option<bool>,
    unit: Option<u8>,
}
impl Conf for Histogram {
    type Opts = HistoOpts;
    common!(Histogram, "histogram");
    make_it!();
    fn change(self, r: &mut Rng, o: &mut HistoOpts) -> Self {
        let b = r.bool();
        match r.below(4) {
            0 => {
                let d = dur(r);
                o.limit = Some(d);
                way(r, self, |x| x.set_inactivity_limit(d), |x| x.inactivity_limit(d))
            }
            1 => {
                o.reset = Some(b);
                way(r, self, |x| x.set_reset_after_inactivity(b), |x| x.reset_after_inactivity(b))
            }
            2 => {
                o.show = Some(b);
                way(r, self, |x| x.set_show_activity_state(b), |x| x.show_activity_state(b))
            }
            _ => {
                let u = r.below(4) as u8;
                o.unit = Some(u);
                let u = UNITS[u as usize];
                way(r, self, |x| x.set_display_time_unit(u), |x| x.display_time_unit(u))
            }
        }
    }
    fn canonical(r: &mut Rng, name: &str, o: &HistoOpts) -> Self {
        let mut h = Histogram::new(name);
        if let Some(d) = o.limit {
            h = h.inactivity_limit(d);
        }
        if let Some(b) = default_or(r, &o.reset, true) {
            h = h.reset_after_inactivity(b);
        }
        if let Some(b) = default_or(r, &o.show, true) {
            h = h.show_activity_state(b);
        }
        if let Some(u) = default_or(r, &o.unit, 1) {
            h = h.display_time_unit(UNITS[u as usize]);
        }
        h
    }
    fn read(&self, o: &HistoOpts, s: &Snapshot, name: &str) -> Result<(), String> {
        let g = match shown(s, name) {
            Some(ItemKind::Snapshot(s)) => s,
            _ => return Err("no group".into()),
        };
        let pair = o.limit.is_some() && o.show.unwrap_or(true);
        same("_active shown", shown(g, "_active").is_some(), pair)?;
        same("_inactive shown", shown(g, "_inactive").is_some(), pair)
    }
}
/// `show_inverted` in one of its eight spellings
macro_rules! inverted_way {
    ($self:expr, $r:expr, $o:expr) => {{
        let (k, t) = ($r.below(3) as u8, text($r));
        $o.alt = Some((k, t.clone()));
        if $r.chance(1, 3) {
            way($r, $self, |x| x.set_show_inverted(alternation(k, &t)), |x| x.show_inverted(alternation(k, &t)))
        } else {
            match k {
                0 => way($r, $self, |x| x.set_show_inverted_prefixed(t.clone()), |x| x.show_inverted_prefixed(t.clone())),
                1 => way($r, $self, |x| x.set_show_inverted_postfixed(t.clone()), |x| x.show_inverted_postfixed(t.clone())),
                _ => way($r, $self, |x| x.set_show_inverted_renamed(t.clone()), |x| x.show_inverted_renamed(t.clone())),
            }
        }
    }};
}
fn inverted_key(alt: &Alt, name: &str) -> Option<String> {
    alt.as_ref().map(|(k, t)| match k {
        0 => format!("{}{}", t, name),
        1 => format!("{}{}", name, t),
        _ => t.clone(),
    })
}
/// The state and, if wanted, its opposite, and nothing else
fn read_switch(s: &Snapshot, name: &str, state: Option<bool>, alt: &Alt) -> Result<(), String> {
    let mut want = vec![];
    if let Some(b) = state {
        want.push((name.to_string(), ItemKind::Boolean(b)));
        if let Some(k) = inverted_key(alt, name) {
            want.push((k, ItemKind::Boolean(!b)));
        }
    }
    let mut got = s.items.clone();
    for w in &want {
        match got.iter().position(|g| g == w) {
            Some(i) => drop(got.remove(i)),
            None => return Err(format!("{:?} is missing", w)),
        }
    }
    same("rest of the snapshot", got.len(), 0)
}
#[derive(Default, Clone, Debug)]
struct FlagOpts {
    state: Option<bool>,
    alt: Alt,
}
impl Conf for Flag {
    type Opts = FlagOpts;
    common!(Flag, "flag");
    fn make(_: &mut Rng, name: &str) -> Self {
        Flag::new(name)
    }
    fn change(self, r: &mut Rng, o: &mut FlagOpts) -> Self {
        if r.chance(1, 3) {
            let b = r.bool();
            o.state = Some(b);
            return self.state(b);
        }
        inverted_way!(self, r, o)
    }
    fn canonical(_: &mut Rng, name: &str, o: &FlagOpts) -> Self {
        let mut f = match o.state {
            Some(b) => Flag::new_with_state(name, b),
            None => Flag::new(name),
        };
        if let Some((k, t)) = &o.alt {
            f = f.show_inverted(alternation(*k, t));
        }
        f
    }
    fn read(&self, o: &FlagOpts, s: &Snapshot, name: &str) -> Result<(), String> {
        read_switch(s, name, self.get_state(), &o.alt)
    }
}
#[derive(Default, Clone, Debug)]
struct DisplayOpts {
    after: Option<Duration>,
    value: Option<ItemKind>,
}
impl Conf for DataDisplay {
    type Opts = DisplayOpts;
    common!(DataDisplay, "display");
    make_it!();
    fn change(self, r: &mut Rng, o: &mut DisplayOpts) -> Self {
        if r.bool() {
            let d = dur(r);
            o.after = Some(d);
            return way(r, self, |x| x.set_reset_after(d), |x| x.reset_after(d));
        }
        let v: ItemKind = match r.below(4) {
            0 => r.below(10).into(),
            1 => r.bool().into(),
            2 => text(r).into(),
            _ => r.range(-5, 5).into(),
        };
        o.value = Some(v.clone());
        way(r, self, |x| x.set_reset_value(v.clone()), |x| x.reset_value(v.clone()))
    }
    fn canonical(_: &mut Rng, name: &str, o: &DisplayOpts) -> Self {
        let mut d = DataDisplay::new(name);
        if let Some(x) = o.after {
            d = d.reset_after(x);
        }
        if let Some(v) = &o.value {
            d = d.reset_value(v.clone());
        }
        d
    }
    fn read(&self, o: &DisplayOpts, s: &Snapshot, name: &str) -> Result<(), String> {
        same("get_reset_after()", self.get_reset_after(), o.after)?;
        same("get_reset_value()", self.get_reset_value(), o.value.as_ref())?;
        match (self.value(), shown(s, name)) {
            (Some(a), Some(b)) if item_close(&a, b) || format!("{:?}", a) == format!("{:?}", b) => Ok(()),
            (None, None) => Ok(()),
            (a, b) => Err(format!("value() is {:?} but the snapshot shows {:?}", a, b)),
        }
    }
}
#[derive(Default, Clone, Debug)]
struct TrackerOpts {
    invert: Option<bool>,
    zero: Option<bool>,
}
impl Conf for LastOccurrenceTracker {
    type Opts = TrackerOpts;
    common!(LastOccurrenceTracker, "tracker");
    make_it!();
    fn change(self, r: &mut Rng, o: &mut TrackerOpts) -> Self {
        let b = r.bool();
        match r.below(3) {
            0 => {
                o.invert = Some(b);
                way(r, self, |x| x.set_invert_enabled(b), |x| x.invert_enabled(b))
            }
            1 => {
                o.invert = Some(true);
                self.inverted()
            }
            _ => {
                o.zero = Some(b);
                way(r, self, |x| x.set_make_none_zero(b), |x| x.make_none_zero(b))
            }
        }
    }
    fn canonical(r: &mut Rng, name: &str, o: &TrackerOpts) -> Self {
        let mut t = LastOccurrenceTracker::new(name);
        if let Some(b) = default_or(r, &o.invert, false) {
            t = t.invert_enabled(b);
        }
        if let Some(b) = o.zero {
            t = t.make_none_zero(b);
        }
        t
    }
    fn read(&self, o: &TrackerOpts, _: &Snapshot, _: &str) -> Result<(), String> {
        same("is_inverted()", self.is_inverted(), o.invert.unwrap_or(false))?;
        match o.zero {
            Some(z) => same("get_make_none_zero()", self.get_make_none_zero(), z),
            None => Ok(()),
        }
    }
}
#[derive(Default, Clone, Debug)]
struct SwitchOpts {
    invert: Option<bool>,
    within: Option<Duration>,
    alt: Alt,
}
impl Conf for StaircaseTimer {
    type Opts = SwitchOpts;
    common!(StaircaseTimer, "staircase timer");
    make_it!();
    fn change(mut self, r: &mut Rng, o: &mut SwitchOpts) -> Self {
        match r.below(4) {
            0 => {
                let b = r.bool();
                o.invert = Some(b);
                self.set_invert(b);
                self
            }
            1 => {
                o.invert = Some(true);
                self.enable_invert();
                self
            }
            2 => {
                let d = dur(r);
                o.within = Some(d);
                way(r, self, |x| x.set_switch_off_after(d), |x| x.switch_off_after(d))
            }
            _ => inverted_way!(self, r, o),
        }
    }
    fn canonical(r: &mut Rng, name: &str, o: &SwitchOpts) -> Self {
        let mut t = StaircaseTimer::new(name);
        if let Some(d) = default_or(r, &o.within, secs(60)) {
            t = t.switch_off_after(d);
        }
        if let Some(b) = default_or(r, &o.invert, false) {
            t.set_invert(b);
        }
        if let Some((k, a)) = &o.alt {
            t = t.show_inverted(alternation(*k, a));
        }
        t
    }
    fn read(&self, o: &SwitchOpts, s: &Snapshot, name: &str) -> Result<(), String> {
        same("invert()", self.invert(), o.invert.unwrap_or(false))?;
        same("get_switch_off_after()", self.get_switch_off_after(), o.within.unwrap_or(secs(60)))?;
        read_switch(s, name, Some(self.state()), &o.alt)
    }
}
macro_rules! indicator {
    ($t:ty, $kind:expr, $set:ident, $build:ident, $get:ident) => {
        impl Conf for $t {
            type Opts = SwitchOpts;
            common!($t, $kind);
            make_it!();
            fn change(self, r: &mut Rng, o: &mut SwitchOpts) -> Self {
                match r.below(4) {
                    0 => {
                        let b = r.bool();
                        o.invert = Some(b);
                        way(r, self, |x| x.set_invert_enabled(b), |x| x.invert_enabled(b))
                    }
                    1 => {
                        o.invert = Some(true);
                        self.inverted()
                    }
                    2 => {
                        let d = dur(r);
                        o.within = Some(d);
                        way(r, self, |x| x.$set(d), |x| x.$build(d))
                    }
                    _ => inverted_way!(self, r, o),
                }
            }
            fn canonical(r: &mut Rng, name: &str, o: &SwitchOpts) -> Self {
                let mut t = <$t>::new(name);
                if let Some(b) = default_or(r, &o.invert, false) {
                    t = t.invert_enabled(b);
                }
                if let Some(d) = o.within {
                    t = t.$build(d);
                }
                if let Some((k, a)) = &o.alt {
                    t = t.show_inverted(alternation(*k, a));
                }
                t
            }
            fn read(&self, o: &SwitchOpts, s: &Snapshot, name: &str) -> Result<(), String> {
                same("is_inverted()", self.is_inverted(), o.invert.unwrap_or(false))?;
                if let Some(d) = o.within {
                    same(stringify!($get), self.$get(), d)?;
                }
                read_switch(s, name, Some(self.state()), &o.alt)
            }
        }
    };
}
indicator!(OccurrenceIndicator, "occurrence indicator", set_if_happened_within, if_happened_within, get_if_happened_within);
indicator!(NonOccurrenceIndicator, "non occurrence indicator", set_if_not_happened_within, if_not_happened_within, get_if_not_happened_within);

pub fn c31() {
    rule("random sequences of configuration steps for every kind of instrument and component, each step in a random spelling (constructor, setter, builder method, short cut, field), later steps overriding earlier ones; the result must behave in random traffic and snapshots over virtual time exactly like one built in one go with the final options (options not mentioned sometimes set to their documented default), every getter must return the final option, and every value that can be read directly must be the one the snapshot shows. Non-trivial: at least two steps.");
    run("instruments", 100_000, 3_000_000, 8, |c| match c.seed % 11 {
        0 => c31_case::<Counter>(c),
        1 => c31_case::<Gauge>(c),
        2 => c31_case::<Meter>(c),
        3 => c31_case::<ValueMeter>(c),
        4 => c31_case::<Histogram>(c),
        5 => c31_case::<Flag>(c),
        6 => c31_case::<DataDisplay>(c),
        7 => c31_case::<LastOccurrenceTracker>(c),
        8 => c31_case::<StaircaseTimer>(c),
        9 => c31_case::<OccurrenceIndicator>(c),
        _ => c31_case::<NonOccurrenceIndicator>(c),
    });
    run("components", 60_000, 1_500_000, 8, c31_components);
    run("access", 10_000, 200_000, 8, c31_access);
    run("polled", 20_000, 400_000, 8, c31_polled);
    clock::COMPRESS_US.store(200, SeqCst);
    run("drivers", 2_000, 60_000, 8, c31_driver);
}
fn c31_case<C: Conf>(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let mut name = text(&mut r);
    let mut o = C::Opts::default();
    let (mut title, mut descr): (Option<String>, Option<String>) = (None, None);
    let mut a = C::make(&mut r, &name);
    let steps = r.below(12);
    for _ in 0..steps {
        match r.below(8) {
            0 => {
                name = text(&mut r);
                a = a.named(&mut r, &name);
            }
            1 => {
                let t = text(&mut r);
                a = a.titled(&mut r, &t);
                title = Some(t);
            }
            2 => {
                let t = text(&mut r);
                a = a.described(&mut r, &t);
                descr = Some(t);
            }
            _ => a = a.change(&mut r, &mut o),
        }
    }
    let mut b = C::canonical(&mut r, &name, &o);
    let trace = format!("{} {:?} {:?} {:?} {:?} in {} steps", C::KIND, name, title, descr, o, steps);
    c.log(trace.clone());
    if let Some(t) = &title {
        b = b.titled(&mut r, t);
    }
    if let Some(t) = &descr {
        b = b.described(&mut r, t);
    }
    c.eq(a.its_name(), name.clone(), || format!("get_name() of {}", trace));
    c.eq(Descriptive::title(&a).map(|t| t.to_string()), title, || format!("title of {}", trace));
    c.eq(Descriptive::description(&a).map(|t| t.to_string()), descr, || format!("description of {}", trace));
    let mut history = String::new();
    for _ in 0..(1 + r.below(12)) {
        match r.below(3) {
            0 => {
                let d = match r.below(3) {
                    0 => r.below(2_000_000_000) as i64,
                    1 => r.below(150) as i64 * clock::NS,
                    _ => 60 * clock::NS + r.range(-1, 1),
                };
                clock::advance(d);
                history.push_str(&format!("+{}ns ", d));
            }
            1 => {
                let v = any_val(&mut r);
                let ts = Instant::now();
                let (x, y) = (a.update(&v.update(ts)), b.update(&v.update(ts)));
                c.eq(x, y, || format!("instruments updated by {:?} in {}", v, trace));
                history.push_str(&format!("{:?} ", v));
            }
            _ => {
                let d = r.bool();
                let (mut x, mut y) = (Snapshot::default(), Snapshot::default());
                a.put_snapshot(&mut x, d);
                b.put_snapshot(&mut y, d);
                c.check(snap_close(&x, &y), || format!("{} after {} shows {}, one configured in one go shows {}", trace, history, snap_str(&x), snap_str(&y)));
                if !d {
                    if let Err(e) = a.read(&o, &x, &name) {
                        c.fail(format!("{} after {}: {} in {}", trace, history, e, snap_str(&x)));
                    }
                }
                count("snapshots_compared", 1);
                history.push_str(if d { "descriptive snapshot " } else { "snapshot " });
            }
        }
    }
    if steps < 2 {
        c.trivial();
    }
    count(&format!("kind_{}", C::KIND.replace(' ', "_")), 1);
    c.sig(&format!("{} {}", trace, history));
    c.sample(|| format!("{}: {}", trace, history));
}

/// The parts of cockpits and processors can be read back as they were put in.
fn c31_access(c: &mut Case) {
    fn names<'a, P: PutsSnapshot + ?Sized + 'a>(it: impl IntoIterator<Item = &'a P>) -> Vec<String> {
        it.into_iter()
            .flat_map(|p| {
                let mut s = Snapshot::default();
                p.put_snapshot(&mut s, false);
                s.items.into_iter().map(|i| i.0).collect::<Vec<_>>()
            })
            .collect()
    }
    let mut r = c.rng.clone();
    let (_tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    let (mut cockpits, mut handlers, mut shots) = (vec![], vec![], vec![]);
    for i in 0..r.below(10) {
        let n = format!("{}", i);
        match r.below(3) {
            0 => {
                let mut k = if r.bool() { Cockpit::new(n.clone()) } else { Cockpit::without_name() };
                let (mut kp, mut kh, mut ks) = (vec![], vec![], vec![]);
                for j in 0..r.below(8) {
                    let m = format!("{}.{}", i, j);
                    match r.below(3) {
                        0 => {
                            let panel = Panel::accept_all_named(m.clone());
                            k = if r.bool() {
                                k.add_panel(panel);
                                k
                            } else {
                                k.panel(panel)
                            };
                            kp.push(m);
                        }
                        1 => {
                            let h = Recorder::keyed(&new_log(), m.clone(), 1);
                            k = if r.bool() {
                                k.add_handler(h);
                                k
                            } else {
                                k.handler(h)
                            };
                            kh.push(m);
                        }
                        _ => {
                            let s = ConstantValue::new(m.clone(), 1u64);
                            k = if r.bool() {
                                k.add_snapshooter(s);
                                k
                            } else {
                                k.snapshooter(s)
                            };
                            ks.push(m);
                        }
                    }
                }
                let what = || format!("cockpit with panels {:?}, handlers {:?}, snapshooters {:?}", kp, kh, ks);
                c.eq(k.get_panels().iter().map(|p| p.name().unwrap_or("").to_string()).collect::<Vec<_>>(), kp.clone(), || format!("get_panels() of a {}", what()));
                c.eq(k.get_panels_mut().iter().map(|p| p.name().unwrap_or("").to_string()).collect::<Vec<_>>(), kp.clone(), || format!("get_panels_mut() of a {}", what()));
                c.eq(names(k.get_handlers()), kh.clone(), || format!("get_handlers() of a {}", what()));
                c.eq(names(k.get_snapshooters()), ks.clone(), || format!("get_snapshooters() of a {}", what()));
                cockpits.push((k.get_name().map(|n| n.to_string()), kp.len(), kh.len(), ks.len()));
                p = if r.bool() {
                    p.add_cockpit(k);
                    p
                } else {
                    p.cockpit(k)
                };
            }
            1 => {
                let h = Recorder::keyed(&new_log(), n.clone(), 1);
                p = if r.bool() {
                    p.add_handler(h);
                    p
                } else {
                    p.handler(h)
                };
                handlers.push(n);
            }
            _ => {
                let s = ConstantValue::new(n.clone(), 1u64);
                p = if r.bool() {
                    p.add_snapshooter(s);
                    p
                } else {
                    p.snapshooter(s)
                };
                shots.push(n);
            }
        }
    }
    let what = || format!("processor with cockpits {:?}, handlers {:?}, snapshooters {:?}", cockpits, handlers, shots);
    let got: Vec<_> = p.get_cockpits().iter().map(|k| (k.get_name().map(|n| n.to_string()), k.get_panels().len(), k.get_handlers().len(), k.get_snapshooters().len())).collect();
    c.eq(got, cockpits.clone(), || format!("get_cockpits() of a {}", what()));
    c.eq(names(p.get_handlers()), handlers.clone(), || format!("get_handlers() of a {}", what()));
    c.eq(names(p.get_snapshooters()), shots.clone(), || format!("get_snapshooters() of a {}", what()));
    // groups, by what their parts show
    let mut m = ProcessorMount::new("m");
    let (mut procs, mut snaps) = (vec![], vec![]);
    for i in 0..r.below(6) {
        let n = format!("k{}", i);
        if r.bool() {
            let q = TelemetryProcessor::<u8>::new_pair(n.clone()).1;
            match r.below(4) {
                0 => m.add_processor(q),
                1 => m.add_processor_dyn(Box::new(q)),
                2 => m.add_processor(ProcessorMount::new(n.clone())),
                _ => {
                    let mut inner = ProcessorMount::default();
                    inner.add_processor(q);
                    m.add_processor(inner)
                }
            }
            procs.push(n);
        } else {
            let s = ConstantValue::new(n.clone(), 1u64);
            match r.below(2) {
                0 => m.add_snapshooter(s),
                _ => m.add_snapshooter_dyn(Box::new(s)),
            }
            snaps.push(n);
        }
    }
    let first = |s: &mut Snapshot| s.items.drain(..).map(|x| x.0).collect::<Vec<_>>().join(" ");
    let got: Vec<String> = m.processors().iter().map(|x| { let mut s = Snapshot::default(); x.put_snapshot(&mut s, false); first(&mut s) }).collect();
    c.eq(got, procs.clone(), || format!("processors() of a group with processors {:?}, snapshooters {:?}", procs, snaps));
    let got: Vec<String> = m.snapshooters().iter().map(|x| { let mut s = Snapshot::default(); x.put_snapshot(&mut s, false); first(&mut s) }).collect();
    c.eq(got, snaps.clone(), || format!("snapshooters() of a group with processors {:?}, snapshooters {:?}", procs, snaps));
    if cockpits.len() + handlers.len() + shots.len() < 2 {
        c.trivial();
    }
    count("parts_read_back", (cockpits.len() + handlers.len() + shots.len()) as u64);
    c.sig(&what());
}
/// Panels, cockpits, processors and mounts: name, texts, limits and the display of activity.
fn c31_components(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    #[derive(Default, Debug, Clone)]
    struct O {
        name: Option<String>,
        title: Option<String>,
        descr: Option<String>,
        limit: Option<Duration>,
        show: Option<bool>,
    }
    enum Any {
        Panel(Panel<u8>),
        Cockpit(Cockpit<u8>),
        Proc(TelemetryTransmitter<u8>, TelemetryProcessor<u8>),
        Mount(TelemetryTransmitter<u8>, ProcessorMount),
    }
    impl Any {
        fn snap(&self, d: bool) -> Snapshot {
            let mut s = Snapshot::default();
            match self {
                Any::Panel(x) => x.put_snapshot(&mut s, d),
                Any::Cockpit(x) => x.put_snapshot(&mut s, d),
                Any::Proc(_, x) => x.put_snapshot(&mut s, d),
                Any::Mount(_, x) => x.put_snapshot(&mut s, d),
            }
            s
        }
        fn feed(&mut self, o: Observation<u8>) {
            match self {
                Any::Panel(x) => drop(x.handle_observation(&o)),
                Any::Cockpit(x) => drop(x.handle_observation(&o)),
                Any::Proc(tx, x) => {
                    tx.transmit(o);
                    x.process(10, ALL);
                }
                Any::Mount(tx, x) => {
                    tx.transmit(o);
                    x.process(10, ALL);
                }
            }
        }
        fn name(&self) -> Option<String> {
            match self {
                Any::Panel(x) => x.name().map(|s| s.to_string()),
                Any::Cockpit(x) => x.get_name().map(|s| s.to_string()),
                Any::Proc(_, x) => x.get_name().map(|s| s.to_string()),
                Any::Mount(_, x) => x.name().map(|s| s.to_string()),
            }
        }
        fn texts(&self) -> (Option<String>, Option<String>) {
            fn of<D: Descriptive>(d: &D) -> (Option<String>, Option<String>) {
                (d.title().map(|s| s.to_string()), d.description().map(|s| s.to_string()))
            }
            match self {
                Any::Panel(x) => of(x),
                Any::Cockpit(x) => of(x),
                Any::Proc(_, x) => of(x),
                Any::Mount(_, x) => of(x),
            }
        }
    }
    fn filled(k: u64, name: Option<String>, r: &mut Rng) -> Any {
        let counter = || Counter::new("n");
        match k {
            0 => {
                let p = match (&name, r.below(3)) {
                    (None, 0) => Panel::new(AcceptAllLabels),
                    (None, 1) => Panel::accept(AcceptAllLabels),
                    (None, _) => Panel::accept_all(),
                    (Some(n), 0) => Panel::named(AcceptAllLabels, n.clone()),
                    (Some(n), 1) => Panel::accept_named(AcceptAllLabels, n.clone()),
                    (Some(n), _) => Panel::accept_all_named(n.clone()),
                };
                Any::Panel(way(r, p, |p| p.add_counter(counter()), |p| p.counter(counter())))
            }
            1 => {
                let k = match (&name, r.bool()) {
                    (None, true) => Cockpit::without_name(),
                    (None, false) => Cockpit::default(),
                    (Some(n), _) => Cockpit::new(n.clone()),
                };
                let p = || Panel::accept_all().counter(counter());
                Any::Cockpit(way(r, k, |k| k.add_panel(p()), |k| k.panel(p())))
            }
            2 => {
                let (tx, p) = match (&name, r.bool()) {
                    (None, true) => TelemetryProcessor::new_pair_without_name(),
                    (None, false) => TelemetryProcessor::new_pair_bounded_without_name(10, r.bool()),
                    (Some(n), true) => TelemetryProcessor::new_pair(n.clone()),
                    (Some(n), false) => TelemetryProcessor::new_pair_bounded(n.clone(), 10, r.bool()),
                };
                let k = || Cockpit::without_name().panel(Panel::accept_all().counter(counter()));
                Any::Proc(tx, way(r, p, |p| p.add_cockpit(k()), |p| p.cockpit(k())))
            }
            _ => {
                let mut m = match &name {
                    None => ProcessorMount::default(),
                    Some(n) => ProcessorMount::new(n.clone()),
                };
                let (tx, p) = TelemetryProcessor::new_pair_without_name();
                let p = p.cockpit(Cockpit::without_name().panel(Panel::accept_all().counter(counter())));
                if r.bool() {
                    m.add_processor(p);
                } else {
                    m.add_processor_dyn(Box::new(p));
                }
                Any::Mount(tx, m)
            }
        }
    }
    let kind = r.below(4);
    let mut o = O::default();
    if r.bool() {
        o.name = Some(text(&mut r));
    }
    let mut a = filled(kind, o.name.clone(), &mut r);
    // the twin is as old, but configured later
    let mut b = filled(kind, o.name.clone(), &mut r);
    let steps = r.below(10);
    for _ in 0..steps {
        if r.chance(1, 3) {
            let bits = r.below(38);
            clock::advance(r.below(1 << bits) as i64);
        }
        let (t, d, b) = (text(&mut r), dur(&mut r), r.bool());
        let r = &mut r;
        match (r.below(5), &mut a) {
            (0, x) => {
                match x {
                    Any::Panel(x) => x.set_name(t.clone()),
                    Any::Cockpit(x) => x.set_name(t.clone()),
                    Any::Proc(_, x) => x.set_name(t.clone()),
                    Any::Mount(_, x) => x.set_name(t.clone()),
                }
                o.name = Some(t);
            }
            (1, Any::Panel(x)) => {
                x.set_title(t.clone());
                o.title = Some(t);
            }
            (1, Any::Cockpit(x)) => {
                x.set_title(t.clone());
                o.title = Some(t);
            }
            (2, Any::Panel(x)) => {
                x.set_description(t.clone());
                o.descr = Some(t);
            }
            (2, Any::Cockpit(x)) => {
                x.set_description(t.clone());
                o.descr = Some(t);
            }
            (3, x) => {
                o.limit = Some(d);
                a = match std::mem::replace(x, Any::Panel(Panel::accept_all())) {
                    Any::Panel(x) => Any::Panel(way(r, x, |x| x.set_inactivity_limit(d), |x| x.inactivity_limit(d))),
                    Any::Cockpit(mut x) => {
                        x.set_inactivity_limit(d);
                        Any::Cockpit(x)
                    }
                    Any::Proc(tx, x) => Any::Proc(tx, way(r, x, |x| x.set_inactivity_limit(d), |x| x.inactivity_limit(d))),
                    Any::Mount(tx, mut x) => {
                        x.set_inactivity_limit(d);
                        Any::Mount(tx, x)
                    }
                };
            }
            (4, x) if kind < 3 => {
                o.show = Some(b);
                a = match std::mem::replace(x, Any::Panel(Panel::accept_all())) {
                    Any::Panel(x) => Any::Panel(way(r, x, |x| x.set_show_activity_state(b), |x| x.show_activity_state(b))),
                    Any::Cockpit(x) => Any::Cockpit(way(r, x, |x| x.set_show_activity_state(b), |x| x.show_activity_state(b))),
                    Any::Proc(tx, x) => Any::Proc(tx, way(r, x, |x| x.set_show_activity_state(b), |x| x.show_activity_state(b))),
                    x => x,
                };
            }
            _ => {}
        }
    }
    let trace = format!("{} {:?} in {} steps", ["panel", "cockpit", "processor", "mount"][kind as usize], o, steps);
    c.log(trace.clone());
    if b.name() != o.name {
        let name = o.name.clone().unwrap();
        match &mut b {
            Any::Panel(x) => x.set_name(name),
            Any::Cockpit(x) => x.set_name(name),
            Any::Proc(_, x) => x.set_name(name),
            Any::Mount(_, x) => x.set_name(name),
        }
    }
    match &mut b {
        Any::Panel(x) => {
            o.title.clone().map(|t| x.set_title(t));
            o.descr.clone().map(|t| x.set_description(t));
            o.limit.map(|d| x.set_inactivity_limit(d));
            default_or(&mut r, &o.show, true).map(|b| x.set_show_activity_state(b));
        }
        Any::Cockpit(x) => {
            o.title.clone().map(|t| x.set_title(t));
            o.descr.clone().map(|t| x.set_description(t));
            o.limit.map(|d| x.set_inactivity_limit(d));
            default_or(&mut r, &o.show, true).map(|b| x.set_show_activity_state(b));
        }
        Any::Proc(_, x) => {
            o.limit.map(|d| x.set_inactivity_limit(d));
            default_or(&mut r, &o.show, true).map(|b| x.set_show_activity_state(b));
        }
        Any::Mount(_, x) => drop(o.limit.map(|d| x.set_inactivity_limit(d))),
    }
    c.eq(a.name(), o.name.clone(), || format!("name of {}", trace));
    c.eq(a.texts(), (o.title.clone(), o.descr.clone()), || format!("texts of {}", trace));
    let mut history = String::new();
    for _ in 0..(2 + r.below(10)) {
        match r.below(3) {
            0 => {
                let d = match (r.below(3), o.limit) {
                    (0, Some(l)) => (l.as_nanos() as i64 + r.range(-1, 1)).max(0),
                    (1, _) => r.below(100) as i64 * clock::NS,
                    _ => r.below(2_000_000_000) as i64,
                };
                clock::advance(d);
                history.push_str(&format!("+{}ns ", d));
            }
            1 => {
                let v = any_val(&mut r);
                let ts = Instant::now();
                a.feed(v.observation(1, ts));
                b.feed(v.observation(1, ts));
                history.push_str("observation ");
            }
            _ => {
                let d = r.bool();
                let (x, y) = (a.snap(d), b.snap(d));
                c.check(snap_close(&x, &y), || format!("{} after {} shows {}, one configured in one go shows {}", trace, history, snap_str(&x), snap_str(&y)));
                // the configuration itself
                let inner = match &o.name {
                    Some(n) => match shown(&x, n) {
                        Some(ItemKind::Snapshot(s)) if x.items.len() == 1 => s.clone(),
                        _ => c.fail(format!("{} shows {}", trace, snap_str(&x))),
                    },
                    None => x.clone(),
                };
                let text = |k: &str| match shown(&inner, k) {
                    Some(ItemKind::Text(t)) => Some(t.clone()),
                    _ => None,
                };
                c.eq((text("_title"), text("_description")), if d { (o.title.clone(), o.descr.clone()) } else { (None, None) }, || format!("texts of {} in {}", trace, snap_str(&x)));
                let pair = o.limit.is_some() && o.show.unwrap_or(true);
                c.eq(shown(&inner, "_active").is_some(), pair, || format!("activity shown by {}: {}", trace, snap_str(&x)));
                if o.limit.is_none() {
                    c.check(shown(&inner, "n").is_some(), || format!("{} without limit shows {}", trace, snap_str(&x)));
                }
                count("snapshots_compared", 1);
                history.push_str("snapshot ");
            }
        }
    }
    if steps < 2 {
        c.trivial();
    }
    c.sig(&format!("{} {}", trace, history));
    c.sample(|| format!("{}: {}", trace, history));
}

struct Items(Vec<(String, ItemKind)>);
impl PutsSnapshot for Items {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.items.extend(self.0.iter().cloned());
    }
}
fn c31_polled(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut name = text(&mut r);
    let (mut title, mut descr): (Option<String>, Option<String>) = (None, None);
    let items: Vec<(String, ItemKind)> = (0..r.below(4)).map(|i| (format!("i{}", i), r.below(100).into())).collect();
    let value: ItemKind = r.below(100).into();
    let mut group = false;
    let polled = r.bool();
    let mut p = PollingInstrument::new_with_defaults(name.clone(), Items(items.clone()));
    let mut k = ConstantValue::new(name.clone(), value.clone());
    let steps = r.below(8);
    for _ in 0..steps {
        let t = text(&mut r);
        match r.below(4) {
            0 => {
                name = t.clone();
                if r.bool() {
                    p.set_name(t.clone());
                } else {
                    p.name = t.clone();
                }
                k.set_name(t);
            }
            1 => {
                title = Some(t.clone());
                if r.bool() {
                    p.set_title(t.clone());
                } else {
                    p.title = Some(t.clone());
                }
                k.set_title(t);
            }
            2 => {
                descr = Some(t.clone());
                if r.bool() {
                    p.set_description(t.clone());
                } else {
                    p.description = Some(t.clone());
                }
                k.set_description(t);
            }
            _ => {
                group = r.bool();
                if r.bool() {
                    p.set_create_group_with_name(group);
                } else {
                    p.create_group_with_name = group;
                }
            }
        }
    }
    let trace = format!("polled {} {:?} {:?} {:?} group {} {:?}", polled, name, title, descr, group, items);
    c.eq(p.get_name(), &name[..], || format!("name of {}", trace));
    c.eq(k.get_name(), &name[..], || format!("name of constant {}", trace));
    c.eq(p.create_group_with_name(), group, || format!("create_group_with_name of {}", trace));
    for d in [false, true] {
        let mut s = Snapshot::default();
        let mut want: Vec<(String, ItemKind)> = vec![];
        if d {
            title.clone().map(|t| want.push((format!("_title_{}", name), t.into())));
            descr.clone().map(|t| want.push((format!("_description_{}", name), t.into())));
        }
        if polled {
            p.put_snapshot(&mut s, d);
            if group {
                want.push((name.clone(), ItemKind::Snapshot(Snapshot { items: items.clone() })));
            } else {
                want.extend(items.iter().cloned());
            }
        } else {
            k.put_snapshot(&mut s, d);
            want.push((name.clone(), value.clone()));
        }
        c.check(snap_close(&s, &Snapshot { items: want.clone() }), || format!("{} shows {}, expected {:?}", trace, snap_str(&s), want));
        count("snapshots_compared", 1);
    }
    if steps < 2 {
        c.trivial();
    }
    c.sig(&trace);
    c.sample(|| trace.clone());
}
fn c31_driver(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut name, mut title, mut descr): (Option<String>, Option<String>, Option<String>) = (None, None, None);
    let (mut drop_all, mut metrics) = (false, true);
    let strategy = |d: bool| if d { ProcessingStrategy::DropAll } else { ALL };
    let direct = r.chance(1, 4);
    let driver = if r.chance(1, 12) {
        // the default: nameless, with metrics, nothing young is dropped
        TelemetryDriver::default()
    } else if direct {
        name = if r.bool() { Some(text(&mut r)) } else { None };
        title = if r.bool() { Some(text(&mut r)) } else { None };
        descr = if r.bool() { Some(text(&mut r)) } else { None };
        drop_all = r.bool();
        metrics = r.bool();
        TelemetryDriver::new(name.clone(), title.clone(), descr.clone(), strategy(drop_all), metrics)
    } else {
        let mut b = if r.bool() {
            let t = text(&mut r);
            name = Some(t.clone());
            DriverBuilder::new(t)
        } else {
            DriverBuilder::default()
        };
        for _ in 0..r.below(9) {
            let t = text(&mut r);
            let field = r.bool();
            match r.below(5) {
                0 => {
                    name = Some(t.clone());
                    if field {
                        b.name = Some(t);
                    } else {
                        b = b.set_name(t);
                    }
                }
                1 => {
                    title = Some(t.clone());
                    if field {
                        b.title = Some(t);
                    } else {
                        b = b.set_title(t);
                    }
                }
                2 => {
                    descr = Some(t.clone());
                    if field {
                        b.description = Some(t);
                    } else {
                        b = b.set_description(t);
                    }
                }
                3 => {
                    drop_all = r.bool();
                    if field {
                        b.processing_strategy = strategy(drop_all);
                    } else {
                        b = b.set_processing_strategy(strategy(drop_all));
                    }
                }
                _ => {
                    metrics = r.bool();
                    if field {
                        b.with_driver_metrics = metrics;
                    } else {
                        b = b.set_driver_metrics(metrics);
                    }
                }
            }
        }
        b.build()
    };
    let trace = format!("direct {} {:?} {:?} {:?} drop all {} metrics {}", direct, name, title, descr, drop_all, metrics);
    c.log(trace.clone());
    let mut driver = driver;
    c.eq(driver.name().map(|s| s.to_string()), name.clone(), || format!("name of {}", trace));
    c.eq(Descriptive::title(&driver).map(|s| s.to_string()), title.clone(), || format!("title of {}", trace));
    c.eq(Descriptive::description(&driver).map(|s| s.to_string()), descr.clone(), || format!("description of {}", trace));
    let (tx, mut p) = TelemetryProcessor::new_pair_without_name();
    let log = new_log();
    p.add_handler(Recorder::new(&log));
    let n = 1 + r.below(5);
    for i in 0..n {
        tx.observed_now(1u8, i);
    }
    driver.add_processor(p);
    wait_for(c, "observations to be taken", || tx.queue_size() == 0);
    for d in [true, false] {
        // a snapshot is taken between two runs: the run that took the last observation is over
        let s = match c.op("snapshot", || driver.snapshot(d)) {
            Ok(s) => s,
            Err(_) => c.fail("a live driver refused a snapshot"),
        };
        let inner = match &name {
            Some(n) => match shown(&s, n) {
                Some(ItemKind::Snapshot(s)) => s.clone(),
                _ => c.fail(format!("{} shows {}", trace, snap_str(&s))),
            },
            None => s.clone(),
        };
        let text = |k: &str| match shown(&inner, k) {
            Some(ItemKind::Text(t)) => Some(t.clone()),
            _ => None,
        };
        c.eq((text("_title"), text("_description")), if d { (title.clone(), descr.clone()) } else { (None, None) }, || format!("texts of {} in {}", trace, snap_str(&s)));
        c.eq(shown(&inner, "_metrix").is_some(), metrics, || format!("driver metrics of {} in {}", trace, snap_str(&s)));
        c.eq(log.lock().unwrap().len() as u64, if drop_all { 0 } else { n }, || format!("observations handled by {}", trace));
    }
    count("drivers", 1);
    c.sig(&trace);
    c.sample(|| trace.clone());
}

// ------------------------------------------------------------------ C26, continued
fn whole(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 53, (1 << 53) + 1, 1 << 32, (1 << 32) - 1]),
        1 => r.below(100),
        2 => r.below(1 << 40),
        _ => r.next() >> r.below(64),
    }
}
fn any_duration(r: &mut Rng) -> Duration {
    match r.below(5) {
        0 => Duration::MAX,
        1 => Duration::from_nanos(whole(r)),
        2 => Duration::new(whole(r), r.below(1_000_000_000) as u32),
        3 => Duration::new(u64::MAX / *r.pick(&[1u64, 1_000, 1_000_000, 1_000_000_000]), r.below(1_000_000_000) as u32),
        _ => Duration::new(r.below(100_000), r.below(1_000_000_000) as u32),
    }
}
fn sat(v: u128) -> u64 {
    v.min(u64::MAX as u128) as u64
}
/// A value in any type that converts, with what it must become.
fn any_input(r: &mut Rng) -> (ObservedValue, Val, &'static str) {
    let w = whole(r);
    match r.below(20) {
        0 => ((w as i64).into(), Val::I(w as i64), "i64"),
        1 => ((w as i32).into(), Val::I(w as i32 as i64), "i32"),
        2 => ((w as i16).into(), Val::I(w as i16 as i64), "i16"),
        3 => ((w as i8).into(), Val::I(w as i8 as i64), "i8"),
        4 => (w.into(), Val::U(w), "u64"),
        5 => ((w as u32).into(), Val::U(w as u32 as u64), "u32"),
        6 => ((w as u16).into(), Val::U(w as u16 as u64), "u16"),
        7 => ((w as u8).into(), Val::U(w as u8 as u64), "u8"),
        8 => ((w as usize).into(), Val::U(w), "usize"),
        9 => (f64::from_bits(w).into(), Val::F(w), "f64"),
        10 => ((w & 1 == 1).into(), Val::B(w & 1 == 1), "bool"),
        11 | 12 => {
            let d = any_duration(r);
            (d.into(), Val::D(sat(d.as_nanos()), 0), "Duration")
        }
        13 => {
            let u = r.below(4) as u8;
            ((w, UNITS[u as usize]).into(), Val::D(w, u), "(u64, TimeUnit)")
        }
        14 | 15 => {
            let (d, u) = (any_duration(r), r.below(4) as u8);
            ((d, UNITS[u as usize]).into(), Val::D(sat(d.as_nanos() / UNIT_NS[u as usize]), u), "(Duration, TimeUnit)")
        }
        16 => {
            if r.bool() {
                (Increment.into(), Val::C(1), "Increment")
            } else {
                (Decrement.into(), Val::C(-1), "Decrement")
            }
        }
        17 => (IncrementBy(w as u32).into(), Val::C(w as u32 as i64), "IncrementBy"),
        18 => (DecrementBy(w as u32).into(), Val::C(-(w as u32 as i64)), "DecrementBy"),
        _ => (ChangeBy(w as i64).into(), Val::C(w as i64), "ChangeBy"),
    }
}
pub fn c26_ways(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    clock::advance(100_000 * clock::NS);
    let bounded = r.bool();
    let (tx, mut p) = if bounded {
        TelemetryProcessor::<u64>::new_pair_bounded_without_name(100, r.bool())
    } else {
        TelemetryProcessor::<u64>::new_pair_without_name()
    };
    let log: Arc<Mutex<Vec<(u64, Val, Instant, Val, Instant)>>> = Default::default();
    struct Rec(Arc<Mutex<Vec<(u64, Val, Instant, Val, Instant)>>>, bool);
    impl PutsSnapshot for Rec {
        fn put_snapshot(&self, _: &mut Snapshot, _: bool) {}
    }
    impl HandlesObservations for Rec {
        type Label = u64;
        fn handle_observation(&mut self, o: &Observation<u64>) -> usize {
            let when = |u: &Update| match u {
                Update::Observation(t) | Update::Observations(_, t) | Update::ObservationWithValue(_, t) => *t,
            };
            let (l, u) = if self.1 {
                let BorrowedLabelAndUpdate(l, u) = o.into();
                (*l, u)
            } else {
                let LabelAndUpdate(l, u) = Val::of(o).observation(*o.label(), o.timestamp()).into();
                (l, u)
            };
            let l = if l == *o.label() { l } else { !l };
            self.0.lock().unwrap().push((l, Val::of(o), o.timestamp(), Val::of_update(&u), when(&u)));
            1
        }
    }
    p.add_handler(Rec(log.clone(), r.bool()));
    let mut want: Vec<(u64, Val, Instant)> = vec![];
    let mut forms = String::new();
    for _ in 0..(1 + r.below(30)) {
        if r.bool() {
            clock::advance(r.below(3_000_000_000) as i64);
        }
        let now = Instant::now();
        let ts = super::queue::random_ts(&mut r);
        let l = whole(&mut r);
        let n = whole(&mut r);
        let (v, val, form) = any_input(&mut r);
        let d = any_duration(&mut r);
        let dval = Val::D(sat(d.as_nanos()), 0);
        let way = r.below(17);
        forms.push_str(&format!("{}({}) ", way, form));
        let w = match way {
            0 => {
                tx.observed(l, n, ts);
                (Val::Count(n), ts)
            }
            1 => {
                tx.observed_one(l, ts);
                (Val::One, ts)
            }
            2 => {
                tx.observed_one_value(l, v, ts);
                (val, ts)
            }
            3 => {
                tx.observed_duration(l, d, ts);
                (dval, ts)
            }
            4 => {
                tx.observed_now(l, n);
                (Val::Count(n), now)
            }
            5 => {
                tx.observed_one_now(l);
                (Val::One, now)
            }
            6 => {
                tx.observed_one_value_now(l, v);
                (val, now)
            }
            7 => {
                tx.observed_one_duration_now(l, d);
                (dval, now)
            }
            8 => {
                let from = super::queue::random_ts(&mut r);
                tx.measure_time(l, from);
                match now.checked_duration_since(from) {
                    Some(d) => (Val::D(sat(d.as_nanos()), 0), now),
                    // nothing is observed about the future
                    None => continue,
                }
            }
            9 => {
                tx.transmit(Observation::observed(l, n, ts));
                (Val::Count(n), ts)
            }
            10 => {
                tx.transmit(Observation::observed_now(l, n));
                (Val::Count(n), now)
            }
            11 => {
                tx.transmit(Observation::observed_one(l, ts));
                (Val::One, ts)
            }
            12 => {
                tx.transmit(Observation::observed_one_now(l));
                (Val::One, now)
            }
            13 => {
                tx.transmit(Observation::observed_one_value(l, v, ts));
                (val, ts)
            }
            14 => {
                tx.transmit(Observation::observed_one_value_now(l, v));
                (val, now)
            }
            15 => {
                // a clone observes the same
                tx.clone().observed_one_value(l, v, ts);
                (val, ts)
            }
            _ => {
                tx.transmit(val.observation(l, ts));
                (val, ts)
            }
        };
        let o: Observation<u64> = w.0.observation(l, w.1);
        let delta = matches!(w.0, Val::C(_));
        c.eq(metrix::ObservationLike::is_delta(&o), delta, || format!("is_delta of {:?}", w.0));
        c.eq(metrix::ObservationLike::timestamp(&o), w.1, || format!("timestamp of {:?}", w.0));
        want.push((l, w.0, w.1));
    }
    let out = p.process(1000, ALL);
    c.eq(out.processed, want.len(), || format!("observations processed of {}", forms));
    let got = log.lock().unwrap().clone();
    c.eq(got.len(), want.len(), || format!("observations handled of {}", forms));
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let form = forms.split(' ').nth(i).unwrap_or("");
        c.check((g.0, g.1, g.2) == *w, || format!("observation {} ({}) arrived as {:?}, made as {:?}", i, form, (g.0, g.1, g.2), w));
        c.check((g.3, g.4) == (w.1, w.2), || format!("observation {} ({}) became the update {:?}, made as {:?}", i, form, (g.3, g.4), w));
    }
    count("observations", want.len() as u64);
    c.sig(&format!("{} {:?}", forms, want));
    c.sample(|| format!("{:?}", want));
}
/// The integer nearest to a float (ties away from zero), computed on its bits.
fn nearest(v: f64) -> Option<i128> {
    if !v.is_finite() {
        return None;
    }
    let bits = v.to_bits();
    let e = (bits >> 52 & 0x7ff) as i32;
    let m = if e == 0 { (bits & ((1 << 52) - 1)) as i128 } else { (bits & ((1 << 52) - 1) | 1 << 52) as i128 };
    let shift = e.max(1) - 1075;
    let a = if shift >= 64 {
        return None;
    } else if shift >= 0 {
        m << shift
    } else if shift < -60 {
        0
    } else {
        (m + (1i128 << (-shift - 1))) >> -shift
    };
    Some(if v.is_sign_negative() { -a } else { a })
}
pub fn c26_convert(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut trace = String::new();
    for _ in 0..20 {
        let (v, val, form) = match r.below(3) {
            0 => {
                let near = *r.pick(&[0.0, 0.5, 1.5, 2.5, 4503599627370495.5, 9007199254740993.0, 9223372036854775807.0, 18446744073709551615.0]);
                let f: f64 = f64::from_bits((near as f64).to_bits().wrapping_add(r.range(-2, 2) as u64)) * if r.bool() { 1.0 } else { -1.0 };
                (f.into(), Val::F(f.to_bits()), "near f64")
            }
            _ => any_input(&mut r),
        };
        let (i, u, b): (Option<i128>, Option<i128>, Option<bool>) = match val {
            Val::I(v) => (Some(v as i128), Some(v as i128), Some(v != 0)),
            Val::U(v) => (Some(v as i128), Some(v as i128), Some(v != 0)),
            Val::F(v) => (nearest(f64::from_bits(v)), nearest(f64::from_bits(v)), None),
            Val::B(v) => (None, None, Some(v)),
            _ => (None, None, None),
        };
        let i = i.filter(|v| *v >= i64::MIN as i128 && *v <= i64::MAX as i128).map(|v| v as i64);
        let u = u.filter(|v| *v >= 0 && *v <= u64::MAX as i128).map(|v| v as u64);
        c.eq(Val::of_value(&v), val, || format!("value of a {}", form));
        c.eq(v.convert_to_i64(), i, || format!("{:?} ({}) as i64", v, form));
        c.eq(v.convert_to_u64(), u, || format!("{:?} ({}) as u64", v, form));
        c.eq(v.convert_to_bool(), b, || format!("{:?} ({}) as bool", v, form));
        c.eq(v.is_delta(), matches!(val, Val::C(_)), || format!("is_delta of {:?}", v));
        let kind = match val {
            Val::I(v) => Some(ItemKind::Int(v)),
            Val::U(v) => Some(ItemKind::UInt(v)),
            Val::F(v) => Some(ItemKind::Float(f64::from_bits(v))),
            Val::B(v) => Some(ItemKind::Boolean(v)),
            _ => None,
        };
        c.eq(format!("{:?}", v.to_item_kind()), format!("{:?}", kind), || format!("item for {:?}", v));
        trace.push_str(&format!("{:?} ", val));
        count("values", 1);
    }
    c.sig(&trace);
    c.sample(|| trace.clone());
}
