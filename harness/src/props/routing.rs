//! C12 label routing, C13 names and reconfiguration, C22 structure of snapshots
use super::queue::random_ts;
use super::tree::*;
use crate::common::*;
use metrix::attached_mount::AttachedMount;

// ------------------------------------------------------------------ C12
pub fn c12() {
    rule("(filters) every way of writing a label filter, extended or not, over numbers, texts and enums: accepts() compared to the set of labels for every label. (tree) random trees of panels, cockpits and processors holding every kind of instrument, probes and handlers behind every kind of adapter, with update modifiers; random observations; every probe and handler must have received exactly the updates the model says and every instrument must show what an identical twin fed with exactly the matching updates shows. Non-trivial: at least one update was delivered and one was filtered.");
    run("filters", 150_000, 3_000_000, 8, |c| match c.seed % 3 {
        0 => c12_filters::<u8>(c),
        1 => c12_filters::<String>(c),
        _ => c12_filters::<En>(c),
    });
    run("wide", 30_000, 600_000, 8, c12_wide);
    run("tree", 18_000, 450_000, 8, |c| match c.seed % 3 {
        0 => c12_tree::<u8>(c),
        1 => c12_tree::<String>(c),
        _ => c12_tree::<En>(c),
    });
}
fn c12_filters<L: Lab>(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut acc, mut f, form) = any_filter::<L>(&mut r);
    let mut trace = form.to_string();
    for round in 0..3 {
        let panel: Panel<L>;
        let got: Vec<bool> = if round == 2 {
            panel = Panel::new(std::mem::replace(&mut f, LabelFilter::default()));
            (0..LABELS).map(|i| panel.accepts_label(&L::nth(i))).collect()
        } else {
            (0..LABELS).map(|i| f.accepts(&L::nth(i))).collect()
        };
        c.eq(got, acc.to_vec(), || format!("labels accepted by filter {}", trace));
        if round == 0 {
            let i = r.usize(LABELS);
            f.accept_another(L::nth(i));
            acc[i] = true;
            trace.push_str(&format!(" + {:?}", L::nth(i)));
        }
    }
    count("filter_decisions", 3 * LABELS as u64);
    c.sig(&format!("{} {:?}", trace, acc));
    c.sample(|| format!("{} accepts {:?}", trace, acc));
}
/// Filters over many labels, built in one go and label by label.
fn c12_wide(c: &mut Case) {
    let mut r = c.rng.clone();
    let span = *r.pick(&[8u32, 20, 300, 1 << 31]);
    let n = match r.below(4) {
        0 => r.usize(8),
        1 => r.usize(40),
        2 => 60 + r.usize(20),
        _ => r.usize(400),
    };
    let mut labels: Vec<u32> = (0..n).map(|_| r.below(span as u64) as u32).collect();
    if r.chance(1, 3) {
        labels.sort();
    }
    let at = if n == 0 { 0 } else { r.usize(n + 1) };
    let mut f: LabelFilter<u32> = match r.below(3) {
        0 => labels[..at].to_vec().into(),
        k => {
            let mut f = if k == 1 { LabelFilter::accept_none() } else { LabelFilter::predicate(|_| false) };
            labels[..at].iter().for_each(|l| f.accept_another(*l));
            f
        }
    };
    labels[at..].iter().for_each(|l| f.accept_another(*l));
    let set: std::collections::HashSet<u32> = labels.iter().cloned().collect();
    let mut asked = 0u64;
    let mut near: Vec<u32> = labels.iter().flat_map(|l| [*l, l.wrapping_add(1), l.wrapping_sub(1), l ^ 0x100, l ^ 0x1_0000]).collect();
    near.extend((0..20).map(|_| r.below(span as u64) as u32));
    for l in near {
        asked += 1;
        c.eq(f.accepts(&l), set.contains(&l), || format!("label {} accepted by a filter for {:?} ({} labels given at first)", l, labels, at));
    }
    if n < 2 {
        c.trivial();
    }
    count("filter_decisions", asked);
    c.sig(&format!("{:?} {}", labels, at));
    c.sample(|| format!("{} labels, {} distinct, {} at first", n, set.len(), at));
}
enum Any<L> {
    Panel(Panel<L>),
    Cockpit(Cockpit<L>),
    Proc(TelemetryTransmitter<L>, TelemetryProcessor<L>),
}
impl<L: Lab> Any<L> {
    fn build(b: &mut Builder, r: &mut Rng, depth: u32) -> (Any<L>, Group) {
        match r.below(4) {
            0 => {
                let (p, g) = b.panel(r, "", depth);
                (Any::Panel(p), g)
            }
            1 => {
                let (p, g) = b.cockpit(r, "", depth);
                (Any::Cockpit(p), g)
            }
            _ => {
                let (tx, p, g) = b.processor(r, "", depth);
                (Any::Proc(tx, p), g)
            }
        }
    }
    fn feed(&mut self, o: Observation<L>) -> usize {
        match self {
            Any::Panel(p) => p.handle_observation(&o),
            Any::Cockpit(p) => p.handle_observation(&o),
            Any::Proc(tx, p) => {
                tx.transmit(o);
                p.process(10, ALL).instruments_updated
            }
        }
    }
    fn snap(&self, into: &mut Snapshot, d: bool) {
        match self {
            Any::Panel(p) => p.put_snapshot(into, d),
            Any::Cockpit(p) => p.put_snapshot(into, d),
            Any::Proc(_, p) => p.put_snapshot(into, d),
        }
    }
}
fn c12_tree<L: Lab>(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let mut b = Builder::new();
    b.titles = false;
    b.limits = false;
    b.clashes = 0;
    let (mut host, mut model) = Any::<L>::build(&mut b, &mut r, 2);
    let mut trace = String::new();
    let (mut sent, mut updated) = (0u64, 0u64);
    for _ in 0..(1 + r.below(30)) {
        if r.chance(1, 5) {
            clock::advance(r.below(4_000_000_000) as i64);
        }
        let l = r.usize(LABELS);
        let v = any_val(&mut r);
        let ts = random_ts(&mut r);
        trace.push_str(&format!("{}:{:?} ", l, v));
        let want = model.feed(l, v, ts);
        let got = host.feed(v.observation(L::nth(l), ts));
        c.eq(got, want, || format!("instruments updated by {:?} with label {:?} after {}", v, L::nth(l), trace));
        sent += 1;
        updated += want as u64;
        if r.chance(1, 6) {
            c12_compare(c, &host, &mut model, &trace);
        }
    }
    c12_compare(c, &host, &mut model, &trace);
    let received = model.check_received(c, &trace);
    for (k, n) in &b.forms {
        count(&format!("form_{}", k), *n);
    }
    count("observations", sent);
    count("deliveries_to_recorders", received);
    count("instrument_updates", updated);
    if updated == 0 {
        c.trivial();
    }
    c.sig(&format!("{:?} {}", b.forms, trace));
    c.sample(|| format!("{} components, {:?}, {}", model.size(), b.forms, trace));
}
fn c12_compare<L: Lab>(c: &Case, host: &Any<L>, model: &mut Group, trace: &str) {
    let mut s = Snapshot::default();
    host.snap(&mut s, false);
    let mut want = vec![];
    model.put(&mut want, false, &vec![]);
    if let Err(e) = matches(&want, &s.items) {
        c.fail(format!("an instrument shows something else than a twin fed with the matching observations: {}; after {}; snapshot {}", e, trace, snap_str(&s)));
    }
}

// ------------------------------------------------------------------ C13
pub fn c13() {
    rule("random sequences of adding and removing named and unnamed cockpits, panels and handlers (few names, so that they clash and are absent often), directly and through the transmitter with random batches, observations in between; crowds of up to 350 cockpits and panels with long names that differ in a few characters; after every pass the snapshot must show exactly the model's components in order and every recorder must have received exactly the observations processed while it was present. Non-trivial: a duplicate was refused and a removal hit.");
    run("model", 20_000, 480_000, 8, |c| c13_case(c, false));
    run("crowd", 150, 4_000, 8, |c| c13_case(c, true));
    run("cockpit", 9_000, 180_000, 8, c13_cockpit);
}
enum C13Op {
    AddCockpit(Group),
    RemoveCockpit(String),
    AddPanel(String, Group),
    RemovePanel(String, String),
    AddHandler(Part),
    Observe(usize, Val, Instant),
}
struct C13Made {
    n: u64,
    /// the names used for cockpits and for panels
    cockpits: Vec<String>,
    panels: Vec<String>,
}
impl C13Made {
    fn few() -> Self {
        let few: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        C13Made { n: 0, cockpits: few.clone(), panels: few }
    }
    /// Hundreds of names that differ in a few characters only.
    fn crowd(r: &mut Rng) -> Self {
        let long = |r: &mut Rng| {
            let (a, b) = ("x".repeat(r.usize(70)), "-\u{e4}".repeat(r.usize(40)));
            (0..3 + r.below(350)).map(|i| format!("{}{}{}", a, i, b)).collect::<Vec<_>>()
        };
        let cockpits = long(r);
        let panels = long(r);
        let k = if r.bool() { panels.len() } else { 1 + r.usize(4) };
        C13Made { n: 0, cockpits, panels: panels[..k.min(panels.len())].to_vec() }
    }
    fn rec(&mut self, prefix: &str) -> (LabRecU8, Part) {
        self.n += 1;
        let key = format!("{}{}", prefix, self.n);
        let log = Arc::new(Mutex::new(vec![]));
        (
            LabRecU8 { log: log.clone(), key: key.clone() },
            Part::Rec { key: key.clone(), log, ret: 1, want: vec![], what: key },
        )
    }
    fn panel(&mut self, r: &mut Rng) -> (Panel<u8>, Group) {
        let name = if r.chance(3, 4) { Some(r.pick(&self.panels).to_string()) } else { None };
        self.panel_named(r, name)
    }
    fn panel_named(&mut self, r: &mut Rng, name: Option<String>) -> (Panel<u8>, Group) {
        let mut g = Group::new(name.clone());
        let mut p = match &name {
            Some(n) => Panel::named(AcceptAllLabels, n.clone()),
            None => Panel::accept_all(),
        };
        if r.chance(1, 4) {
            p = Panel::accept_all();
            name.clone().map(|n| p.set_name(n));
        }
        let (rec, part) = self.rec("p");
        p.add_handler(rec);
        g.parts.push((K_HANDLER, part));
        if r.chance(1, 5) {
            // nested panels may share names with anything
            let (q, gg) = self.panel(r);
            p.add_panel(q);
            g.parts.push((K_PANEL, Part::Group(gg)));
        }
        (p, g)
    }
    fn cockpit(&mut self, r: &mut Rng) -> (Cockpit<u8>, Group) {
        let name = if r.chance(3, 4) { Some(r.pick(&self.cockpits).to_string()) } else { None };
        self.cockpit_named(r, name)
    }
    fn cockpit_named(&mut self, r: &mut Rng, name: Option<String>) -> (Cockpit<u8>, Group) {
        let mut g = Group::new(name.clone());
        let mut k = match &name {
            Some(n) => Cockpit::new(n.clone()),
            None => Cockpit::without_name(),
        };
        if r.chance(1, 4) {
            k = Cockpit::default();
            name.clone().map(|n| k.set_name(n));
        }
        let (rec, part) = self.rec("k");
        k.add_handler(rec);
        g.parts.push((K_HANDLER, part));
        for _ in 0..r.usize(4) {
            let (p, m) = self.panel(r);
            k.add_panel(p);
            model_add_panel(&mut g, m);
        }
        (k, g)
    }
}
/// Few names, many of them nearly equal: names are compared exactly.
const NAMES: [&str; 13] = ["a", " ", "b", "aa", "", "A", "a ", " a", "a/b", "\u{e4}", "a\u{308}", "\u{df}", "a\n"];
pub struct LabRecU8 {
    log: Arc<Mutex<Vec<(usize, Val, Instant)>>>,
    key: String,
}
impl PutsSnapshot for LabRecU8 {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        let n = self.log.lock().unwrap().len() as u64;
        into.push(self.key.clone(), n);
    }
}
impl HandlesObservations for LabRecU8 {
    type Label = u8;
    fn handle_observation(&mut self, o: &Observation<u8>) -> usize {
        self.log.lock().unwrap().push((*o.label() as usize, Val::of(o), o.timestamp()));
        1
    }
}
fn named<'a>(g: &'a mut Group, kind: u8, name: &str) -> Option<&'a mut Group> {
    g.parts.iter_mut().find_map(|(k, p)| match p {
        Part::Group(x) if *k == kind && x.name.as_deref() == Some(name) => Some(x),
        _ => None,
    })
}
/// false: refused
fn model_add_panel(cockpit: &mut Group, p: Group) -> bool {
    if let Some(n) = p.name.clone() {
        if named(cockpit, K_PANEL, &n).is_some() {
            return false;
        }
    }
    cockpit.parts.push((K_PANEL, Part::Group(p)));
    true
}
fn model_remove(g: &mut Group, kind: u8, name: &str) -> bool {
    let at = g.parts.iter().position(|(k, p)| matches!(p, Part::Group(x) if *k == kind && x.name.as_deref() == Some(name)));
    match at {
        Some(i) => {
            g.parts.remove(i);
            true
        }
        None => false,
    }
}
#[derive(Default)]
struct C13Stats {
    refused: u64,
    removed: u64,
    absent: u64,
}
fn c13_apply(model: &mut Group, op: C13Op, st: &mut C13Stats) {
    match op {
        C13Op::AddCockpit(g) => {
            if g.name.is_some() && named(model, K_COCKPIT, g.name.as_deref().unwrap_or("")).is_some() {
                st.refused += 1;
            } else {
                model.parts.push((K_COCKPIT, Part::Group(g)));
            }
        }
        C13Op::RemoveCockpit(n) => {
            if model_remove(model, K_COCKPIT, &n) {
                st.removed += 1
            } else {
                st.absent += 1
            }
        }
        C13Op::AddPanel(n, p) => match named(model, K_COCKPIT, &n) {
            Some(k) => {
                if !model_add_panel(k, p) {
                    st.refused += 1
                }
            }
            None => st.absent += 1,
        },
        C13Op::RemovePanel(n, q) => match named(model, K_COCKPIT, &n) {
            Some(k) => {
                if model_remove(k, K_PANEL, &q) {
                    st.removed += 1
                } else {
                    st.absent += 1
                }
            }
            None => st.absent += 1,
        },
        C13Op::AddHandler(p) => model.parts.push((K_HANDLER, p)),
        C13Op::Observe(l, v, ts) => {
            model.feed(l, v, ts);
        }
    }
}
fn c13_case(c: &mut Case, crowd: bool) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let (tx, mut p) = super::queue::make_pair(&mut r, None, true);
    let mut model = Group::new(p.get_name().map(|n| n.to_string()));
    let mut made = if crowd { C13Made::crowd(&mut r) } else { C13Made::few() };
    let mut queue: VecDeque<C13Op> = VecDeque::new();
    let mut st = C13Stats::default();
    let mut trace = String::new();
    if crowd {
        for name in made.cockpits.clone() {
            if r.chance(19, 20) {
                let (k, g) = made.cockpit_named(&mut r, Some(name));
                p.add_cockpit(k);
                c13_apply(&mut model, C13Op::AddCockpit(g), &mut st);
            }
        }
        let full = r.pick(&made.cockpits).to_string();
        for name in made.panels.clone() {
            let (q, g) = made.panel_named(&mut r, Some(name));
            tx.add_panel_to_cockpit(full.clone(), q);
            queue.push_back(C13Op::AddPanel(full.clone(), g));
        }
        trace.push_str(&format!("{} cockpits, {} panels in {:?}, ", made.cockpits.len(), made.panels.len(), full));
    }
    for _ in 0..(5 + r.below(40)) {
        match r.below(12) {
            0 | 1 => {
                let (k, g) = made.cockpit(&mut r);
                let direct = r.bool();
                trace.push_str(&format!("{}cockpit {:?}, ", if direct { "" } else { "send " }, g.name));
                if direct {
                    if r.bool() {
                        p = p.cockpit(k);
                    } else {
                        p.add_cockpit(k);
                    }
                    c13_apply(&mut model, C13Op::AddCockpit(g), &mut st);
                } else {
                    tx.add_cockpit(k);
                    queue.push_back(C13Op::AddCockpit(g));
                }
            }
            2 => {
                let n = r.pick(&made.cockpits).to_string();
                tx.remove_cockpit(n.clone());
                trace.push_str(&format!("send remove {:?}, ", n));
                queue.push_back(C13Op::RemoveCockpit(n));
            }
            3 | 4 => {
                let n = r.pick(&made.cockpits).to_string();
                let (q, g) = made.panel(&mut r);
                trace.push_str(&format!("send panel {:?} to {:?}, ", g.name, n));
                tx.add_panel_to_cockpit(n.clone(), q);
                queue.push_back(C13Op::AddPanel(n, g));
            }
            5 | 6 => {
                let n = r.pick(&made.cockpits).to_string();
                let q = r.pick(&made.panels).to_string();
                trace.push_str(&format!("send remove panel {:?} from {:?}, ", q, n));
                tx.remove_panel_from_cockpit(n.clone(), q.clone());
                queue.push_back(C13Op::RemovePanel(n, q));
            }
            7 => {
                let (h, part) = made.rec("h");
                if r.bool() {
                    p.add_handler(h);
                    c13_apply(&mut model, C13Op::AddHandler(part), &mut st);
                } else {
                    tx.add_handler(h);
                    queue.push_back(C13Op::AddHandler(part));
                }
                trace.push_str("handler, ");
            }
            8 | 9 => {
                let (l, v, ts) = (r.usize(LABELS), any_val(&mut r), random_ts(&mut r));
                tx.transmit(v.observation(l as u8, ts));
                queue.push_back(C13Op::Observe(l, v, ts));
                trace.push_str("observation, ");
            }
            _ => {
                let max = *r.pick(&[1usize, 2, 3, 100, 1000]);
                p.process(max, ALL);
                for _ in 0..max {
                    if let Some(op) = queue.pop_front() {
                        c13_apply(&mut model, op, &mut st);
                    }
                }
                trace.push_str(&format!("pass {}, ", max));
                c13_judge(c, &p, &mut model, &trace);
            }
        }
    }
    p.process(1000, ALL);
    for op in queue {
        c13_apply(&mut model, op, &mut st);
    }
    c13_judge(c, &p, &mut model, &trace);
    let n = model.check_received(c, &trace);
    count("deliveries", n);
    count("refused_duplicates", st.refused);
    count("removed", st.removed);
    count("absent_targets", st.absent);
    if st.refused == 0 || st.removed == 0 {
        c.trivial();
    }
    c.sig(&trace);
    c.sample(|| trace.clone());
}
fn c13_judge(c: &Case, p: &TelemetryProcessor<u8>, model: &mut Group, trace: &str) {
    let s = shot_of(p, false);
    let mut want = vec![];
    model.put(&mut want, false, &vec![]);
    if let Err(e) = matches(&want, &s.items) {
        c.fail(format!("components differ from the model: {}; after {}; snapshot {}", e, trace, snap_str(&s)));
    }
    let names: Vec<Option<String>> = p.get_cockpits().iter().map(|k| k.get_name().map(|n| n.to_string())).collect();
    let model_names: Vec<Option<String>> =
        model.parts.iter().filter_map(|(k, p)| match p { Part::Group(g) if *k == K_COCKPIT => Some(g.name.clone()), _ => None }).collect();
    c.eq(names, model_names, || format!("names of the cockpits after {}", trace));
    count("structures_compared", 1);
}
/// Panels added to and removed from a cockpit directly.
fn c13_cockpit(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let mut made = if r.chance(1, 40) { C13Made::crowd(&mut r) } else { C13Made::few() };
    let (mut k, mut model) = made.cockpit(&mut r);
    let mut trace = String::new();
    let (mut refused, mut removed) = (0, 0);
    if made.panels.len() > NAMES.len() {
        for name in made.panels.clone() {
            let (p, g) = made.panel_named(&mut r, Some(name));
            k.add_panel(p);
            model_add_panel(&mut model, g);
        }
    }
    for _ in 0..(2 + r.below(30)) {
        match r.below(5) {
            0 | 1 => {
                let (p, g) = made.panel(&mut r);
                trace.push_str(&format!("panel {:?}, ", g.name));
                if r.bool() {
                    k = k.panel(p);
                } else {
                    k.add_panel(p);
                }
                refused += !model_add_panel(&mut model, g) as u64;
            }
            2 => {
                let n = r.pick(&made.panels).to_string();
                trace.push_str(&format!("remove {:?}, ", n));
                if r.bool() {
                    k.remove_panel(n.clone());
                } else {
                    k.remove_panel(&n);
                }
                removed += model_remove(&mut model, K_PANEL, &n) as u64;
            }
            3 => {
                // extends one panel in place
                let i = r.usize(8);
                let (h, part) = made.rec("m");
                let mut panels = k.get_panels_mut();
                if i < panels.len() {
                    panels[i].add_handler(h);
                    if let Some(Part::Group(g)) = model.parts.iter_mut().filter(|x| x.0 == K_PANEL).nth(i).map(|x| &mut x.1) {
                        g.parts.push((K_HANDLER, part));
                    }
                }
            }
            _ => {
                let (l, v, ts) = (r.usize(LABELS), any_val(&mut r), random_ts(&mut r));
                k.handle_observation(&v.observation(l as u8, ts));
                model.feed(l, v, ts);
            }
        }
        let names: Vec<Option<String>> = k.get_panels().iter().map(|p| p.name().map(|n| n.to_string())).collect();
        let want: Vec<Option<String>> =
            model.parts.iter().filter_map(|(k, p)| match p { Part::Group(g) if *k == K_PANEL => Some(g.name.clone()), _ => None }).collect();
        c.eq(names, want, || format!("panels after {}", trace));
        let s = shot_of(&k, false);
        let mut want = vec![];
        model.put(&mut want, false, &vec![]);
        if let Err(e) = matches(&want, &s.items) {
            c.fail(format!("panels differ from the model: {}; after {}; snapshot {}", e, trace, snap_str(&s)));
        }
    }
    model.check_received(c, &trace);
    if refused == 0 || removed == 0 {
        c.trivial();
    }
    count("refused_duplicates", refused);
    count("removed", removed);
    c.sig(&trace);
}

// ------------------------------------------------------------------ C22
pub fn c22() {
    rule("(tree) random trees of mounts, attached mounts, processors, cockpits, panels, instruments, handlers, polled instruments and constants with colliding names, titles and descriptions, some observations, snapshots appended to snapshots that already have contents: the result must contain every component exactly once in its group and in order, descriptions exactly once (the first wins) in descriptive snapshots only. (driver) the same through a running driver; (nested) drivers, mounts and snapshooters below each other with equal names. Transmitters and handles may be gone. Non-trivial: the tree has at least 5 components.");
    run("tree", 4_000, 100_000, 8, c22_tree);
    run("part", 4_000, 100_000, 8, |c| match c.seed % 3 {
        0 => c22_part::<u8>(c),
        1 => c22_part::<String>(c),
        _ => c22_part::<En>(c),
    });
    run("crowd", 300, 6_000, 8, c22_crowd);
    clock::COMPRESS_US.store(100, SeqCst);
    run("driver", 1_000, 20_000, 6, c22_driver);
    run("nested", 1_000, 20_000, 6, c22_nested);
    clock::COMPRESS_US.store(0, SeqCst);
}
pub struct MountTx {
    pub txs: Vec<(TelemetryTransmitter<u8>, Vec<usize>)>,
    pub handles: Vec<AttachedMount>,
}
/// A mount with everything below it; `path` is where its model sits.
pub fn any_mount(b: &mut Builder, r: &mut Rng, path: &[usize], out: &mut MountTx, depth: u32) -> (ProcessorMount, Group) {
    let name = if r.chance(2, 3) { Some(b.name(r, "mount")) } else { None };
    let mut g = Group::new(name.clone());
    let mut m = match &name {
        Some(n) if r.bool() => ProcessorMount::new(n.clone()),
        Some(n) => {
            let mut m = ProcessorMount::default();
            m.set_name(n.clone());
            m
        }
        None => ProcessorMount::default(),
    };
    if b.limits && r.chance(1, 4) {
        m.set_inactivity_limit(b.limit(r));
        g.pair = true;
    }
    fill(b, r, &mut m, &mut g, path, out, depth);
    (m, g)
}
pub fn fill(b: &mut Builder, r: &mut Rng, m: &mut impl AggregatesProcessors, g: &mut Group, path: &[usize], out: &mut MountTx, depth: u32) {
    for _ in 0..(1 + some(r, 4)) {
        let mut path = path.to_vec();
        path.push(g.parts.len());
        match r.below(if depth > 0 { 6 } else { 4 }) {
            0 => {
                let (s, part) = b.shot(r, "mount");
                m.add_snapshooter(s);
                g.parts.push((K_SHOT, part));
            }
            4 => {
                let (inner, gg) = any_mount(b, r, &path, out, depth - 1);
                m.add_processor(inner);
                g.parts.push((K_PROC, Part::Group(gg)));
            }
            5 => {
                let (inner, mut gg) = any_mount(b, r, &path, out, depth - 1);
                let mut h = m.attached_mount(inner);
                // what is put into the handle follows what the mount had
                if r.bool() {
                    fill(b, r, &mut h, &mut gg, &path, out, depth - 1);
                }
                if r.bool() {
                    out.handles.push(h);
                }
                g.parts.push((K_PROC, Part::Group(gg)));
            }
            _ => {
                let (tx, p, gg) = b.processor::<u8>(r, "mount", 1);
                out.txs.push((tx, path));
                m.add_processor(p);
                g.parts.push((K_PROC, Part::Group(gg)));
            }
        }
    }
}
pub fn group_at<'a>(g: &'a mut Group, path: &[usize]) -> Option<&'a mut Group> {
    if path.is_empty() {
        return Some(g);
    }
    match g.parts.get_mut(path[0]) {
        Some((_, Part::Group(x))) => group_at(x, &path[1..]),
        _ => None,
    }
}
/// Contents a snapshot may already have.
fn prefill(r: &mut Rng) -> (Snapshot, Vec<Item>) {
    let mut s = Snapshot::default();
    let mut items = vec![];
    if r.bool() {
        for _ in 0..r.usize(4) {
            let (k, desc) = match r.below(5) {
                0 => ("_title".to_string(), true),
                1 => ("_description".to_string(), true),
                2 => (format!("{}{}", r.pick(&["_title_counter", "_title_gauge", "_description_flag"]), r.below(4)), true),
                3 => (format!("counter{}", r.below(4)), false),
                _ => ("before".to_string(), false),
            };
            if s.items.iter().any(|x| x.0 == k) {
                continue;
            }
            s.push(k.clone(), "already there");
            let t = "already there".to_string();
            items.push(Item {
                key: k,
                val: Want::One(ItemKind::Text(t.clone())),
                tag: vec![(255, 0)],
                texts: if desc { vec![(t, vec![(255, 0)])] } else { vec![] },
            });
        }
    }
    (s, items)
}
/// Whether the descriptive items are the plain ones with nothing but descriptions between them.
fn only_described(plain: &[(String, ItemKind)], full: &[(String, ItemKind)]) -> bool {
    let mut at = 0;
    for (k, v) in full {
        let same = plain.get(at).map_or(false, |(pk, pv)| {
            pk == k
                && match (pv, v) {
                    (ItemKind::Snapshot(a), ItemKind::Snapshot(b)) => only_described(&a.items, &b.items),
                    (a, b) => item_close(a, b),
                }
        });
        if same {
            at += 1;
        } else if !(matches!(v, ItemKind::Text(_)) && (k.starts_with("_title") || k.starts_with("_description"))) {
            return false;
        }
    }
    at == plain.len()
}
fn texts(items: &[Item]) -> u64 {
    items
        .iter()
        .map(|i| match &i.val {
            Want::Group(g) => texts(g),
            _ => i.texts.len() as u64,
        })
        .sum()
}
fn c22_judge(c: &Case, r: &mut Rng, model: &mut Group, snap: &dyn Fn(&mut Snapshot, bool), trace: &str) {
    let (pre, items) = prefill(r);
    let keep = pre.items.len();
    let mut plain = pre.clone();
    snap(&mut plain, false);
    let mut full = pre.clone();
    snap(&mut full, true);
    for (s, d) in [(&plain, false), (&full, true)] {
        c.check(s.items.len() >= keep && s.items[..keep] == pre.items[..], || format!("what was in the snapshot changed: {} became {}", snap_str(&pre), snap_str(s)));
        let mut want = items.clone();
        if !d {
            want.iter_mut().for_each(|w| w.texts.clear());
        }
        model.put(&mut want, d, &vec![]);
        if let Err(e) = matches(&want, &s.items) {
            c.fail(format!("{} snapshot: {}; after {}; snapshot {}; before {}", if d { "descriptive" } else { "plain" }, e, trace, snap_str(s), snap_str(&pre)));
        }
        count("items_compared", s.items.len() as u64);
        count("descriptions_expected", if d { texts(&want) } else { 0 });
    }
    c.check(only_described(&plain.items, &full.items), || format!("descriptive {} differs from plain {}", snap_str(&full), snap_str(&plain)));
}
fn c22_tree(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let mut b = Builder::new();
    b.clashes = r.below(6);
    let mut out = MountTx { txs: vec![], handles: vec![] };
    let (mut m, mut model) = any_mount(&mut b, &mut r, &[], &mut out, 2);
    m.process(10_000, ALL);
    let mut trace = String::new();
    for _ in 0..(1 + r.below(4)) {
        for _ in 0..r.below(8) {
            if out.txs.is_empty() {
                break;
            }
            let (tx, path) = r.pick(&out.txs);
            let (l, v, ts) = (r.usize(LABELS), any_val(&mut r), random_ts(&mut r));
            tx.transmit(v.observation(l as u8, ts));
            if let Some(g) = group_at(&mut model, path) {
                g.feed(l, v, ts);
            }
            trace.push_str(&format!("{:?}<-{}:{:?} ", path, l, v));
        }
        m.process(10_000, ALL);
        if r.bool() {
            clock::advance(r.below(10_000_000_000) as i64);
        }
        // components stay where they are when nobody can send anything to them any more
        if r.chance(1, 3) {
            for _ in 0..1 + r.usize(3) {
                if !out.txs.is_empty() && r.chance(2, 3) {
                    let (_, path) = out.txs.swap_remove(r.usize(out.txs.len()));
                    trace.push_str(&format!("{:?} disconnected ", path));
                } else if !out.handles.is_empty() {
                    out.handles.swap_remove(r.usize(out.handles.len()));
                    trace.push_str("handle dropped ");
                }
            }
            for _ in 0..r.usize(3) {
                m.process(10_000, ALL);
            }
            count("disconnections", 1);
        }
        c22_judge(c, &mut r, &mut model, &|s, d| m.put_snapshot(s, d), &trace);
    }
    model.check_calls(c, &trace);
    let n = model.size();
    if n < 5 {
        c.trivial();
    }
    count("components", n as u64);
    c.sig(&format!("{} {}", n, snap_str(&shot_of(&m, true))));
    c.sample(|| format!("{} components: {}", n, snap_str(&shot_of(&m, true))));
}
/// One component with hundreds of parts of a kind, one of them with a description.
fn c22_crowd(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let n = *r.pick(&[10usize, 100, 300, 700]) + r.usize(100);
    let (shots, hands) = (r.usize(n), r.usize(n));
    let with = |k: usize| format!("part{}", k);
    let shot = |k: usize| Shot::new(format!("shot{}", k), k as u64);
    let hand = |k: usize| Counter::new(format!("hand{}", k)).title("T");
    let mut want: Vec<String> = (0..n).map(|k| with(k)).collect();
    let shot_keys = || (0..shots).map(|k| format!("shot{}", k));
    let hand_keys = || (0..hands).flat_map(|k| [format!("_title_hand{}", k), format!("hand{}", k)]);
    let kind = r.below(6);
    let mut into = Snapshot::default();
    match kind {
        5 => {
            // everything through a handle, before or between passes
            let mut m = ProcessorMount::default();
            let mut h = m.attached_mount(ProcessorMount::default());
            let passes = r.bool();
            for k in 0..n {
                if r.chance(3, 4) {
                    h.add_processor(ProcessorMount::new(with(k)));
                } else {
                    h.attach_mount::<Beat>(ProcessorMount::new(with(k)));
                }
                if passes && r.chance(1, 30) {
                    m.process(1, ALL);
                }
            }
            for k in 0..shots {
                if r.bool() {
                    h.add_snapshooter(shot(k));
                } else {
                    h.put_snapshooter(shot(k));
                }
            }
            want.extend(shot_keys());
            m.process(1, ALL);
            m.put_snapshot(&mut into, true);
        }
        0 | 1 => {
            let mut m = ProcessorMount::default();
            let mut txs = vec![];
            for k in 0..n {
                match r.below(4) {
                    0 => {
                        m.add_processor(ProcessorMount::new(with(k)));
                    }
                    1 if k % 2 == 0 => {
                        m.attached_mount(ProcessorMount::new(with(k)));
                    }
                    _ => {
                        let (tx, p) = TelemetryProcessor::<u8>::new_pair(with(k));
                        txs.push(tx);
                        m.add_processor(p);
                    }
                }
            }
            if kind == 1 {
                // a driver, with its own descriptions
                m.add_processor(DriverBuilder::default().set_driver_metrics(false).set_title("T").set_description("D").build());
                want.push("_title".into());
                want.push("_description".into());
            }
            (0..shots).for_each(|k| m.add_snapshooter(shot(k)));
            want.extend(shot_keys());
            m.process(1, ALL);
            c.op("snapshot", || m.put_snapshot(&mut into, true));
        }
        2 => {
            let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
            for k in 0..n {
                if r.bool() {
                    p.add_cockpit(Cockpit::new(with(k)));
                } else {
                    tx.add_cockpit(Cockpit::new(with(k)));
                    p.process(1, ALL);
                }
            }
            (0..hands).for_each(|k| p.add_handler(InstrumentAdapter::new(hand(k))));
            (0..shots).for_each(|k| p.add_snapshooter(shot(k)));
            want.extend(hand_keys().chain(shot_keys()));
            p.put_snapshot(&mut into, true);
        }
        3 => {
            let mut k0 = Cockpit::<u8>::without_name();
            (0..n).for_each(|k| k0.add_panel(Panel::accept_all_named(with(k))));
            (0..hands).for_each(|k| k0.add_handler(InstrumentAdapter::new(hand(k))));
            (0..shots).for_each(|k| k0.add_snapshooter(shot(k)));
            want.extend(hand_keys().chain(shot_keys()));
            k0.put_snapshot(&mut into, true);
        }
        _ => {
            let mut p = Panel::<u8>::accept_all();
            (0..n).for_each(|k| p.add_panel(Panel::accept_all_named(with(k))));
            (0..hands).for_each(|k| p.add_handler(InstrumentAdapter::new(hand(k))));
            (0..shots).for_each(|k| p.add_snapshooter(shot(k)));
            want.extend(shot_keys().chain(hand_keys()));
            p.put_snapshot(&mut into, true);
        }
    }
    let got = into.keys();
    let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    c.check(got == want, || {
        format!("component of kind {} with {} parts, {} snapshooters and {} handlers shows {:?} at {} of {}, expected {:?} of {}", kind, n, shots, hands, got.get(at), at, got.len(), want.get(at), want.len())
    });
    count("parts_in_crowds", got.len() as u64);
    c.sig(&format!("{} {} {} {}", kind, n, shots, hands));
    c.sample(|| format!("kind {} with {} parts", kind, n));
}
fn c22_part<L: Lab>(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let mut b = Builder::new();
    b.clashes = r.below(8);
    let (mut host, mut model) = Any::<L>::build(&mut b, &mut r, 3);
    let mut trace = String::new();
    for _ in 0..(1 + r.below(3)) {
        for _ in 0..r.below(8) {
            let (l, v, ts) = (r.usize(LABELS), any_val(&mut r), random_ts(&mut r));
            model.feed(l, v, ts);
            host.feed(v.observation(L::nth(l), ts));
            trace.push_str(&format!("{}:{:?} ", l, v));
        }
        if r.bool() {
            clock::advance(r.below(10_000_000_000) as i64);
        }
        c22_judge(c, &mut r, &mut model, &|s, d| host.snap(s, d), &trace);
    }
    model.check_calls(c, &trace);
    let n = model.size();
    if n < 5 {
        c.trivial();
    }
    count("components", n as u64);
    let mut s = Snapshot::default();
    host.snap(&mut s, true);
    c.sig(&snap_str(&s));
}
/// A driver or a mount with snapshooters, mounts and drivers below it, and what it has to show.
fn nested_parts(r: &mut Rng, d: &mut impl AggregatesProcessors, depth: u32, want: &mut Snapshot, n: &mut u64) {
    let key = |r: &mut Rng| ["a", "b", "same"][r.usize(3)].to_string();
    let mut shots = Snapshot::default();
    for _ in 0..1 + r.usize(4) {
        *n += 1;
        match r.below(if depth > 0 { 6 } else { 2 }) {
            0 | 1 => {
                let k = key(r);
                shots.push(k.clone(), *n);
                d.add_snapshooter(Shot::new(k, *n));
            }
            2 => {
                let name = if r.bool() { Some(key(r)) } else { None };
                let mut m = match &name {
                    Some(x) => ProcessorMount::new(x.clone()),
                    None => ProcessorMount::default(),
                };
                let mut inner = Snapshot::default();
                nested_parts(r, &mut m, depth - 1, &mut inner, n);
                d.add_processor(m);
                match name {
                    Some(x) => want.push(x, inner),
                    None => want.items.extend(inner.items),
                }
            }
            _ => {
                let name = if r.chance(1, 3) { Some(key(r)) } else { None };
                let mut b = DriverBuilder::default().set_driver_metrics(false);
                b.name = name.clone();
                let mut m = b.build();
                let mut inner = Snapshot::default();
                nested_parts(r, &mut m, depth - 1, &mut inner, n);
                let to = if r.chance(1, 3) {
                    d.add_snapshooter(m.clone());
                    &mut shots
                } else {
                    d.add_processor(m.clone());
                    &mut *want
                };
                match name {
                    Some(x) => to.push(x, inner),
                    None => to.items.extend(inner.items),
                }
            }
        }
    }
    want.items.extend(shots.items);
}
/// Drivers below drivers and mounts show what they have in its place, whatever else has the same name.
fn c22_nested(c: &mut Case) {
    let mut r = c.rng.clone();
    clock::real();
    let mut d = DriverBuilder::default().set_driver_metrics(false).build();
    let (mut want, mut n) = (Snapshot::default(), 0);
    nested_parts(&mut r, &mut d, 3, &mut want, &mut n);
    for _ in 0..2 {
        let desc = r.bool();
        let got = if r.bool() { c.op("snapshot", || d.snapshot(desc)) } else { c.op("snapshot", || block_on(d.snapshot_async(desc))) };
        match got {
            Ok(got) => c.check(got == want, || format!("nested drivers show {}, expected {}", snap_str(&got), snap_str(&want))),
            Err(_) => c.fail("a live driver refused a snapshot"),
        };
    }
    if n < 5 {
        c.trivial();
    }
    count("nested_parts", n);
    c.sig(&snap_str(&want));
}
fn c22_driver(c: &mut Case) {
    let mut r = c.rng.clone();
    clock::real();
    let mut b = Builder::new();
    b.timeless = true;
    b.clashes = r.below(6);
    let name = if r.bool() { Some(b.name(&mut r, "driver")) } else { None };
    let mut g = Group::new(name.clone());
    g.title = if r.bool() { Some("title of the driver".to_string()) } else { None };
    g.descr = if r.bool() { Some("description of the driver".to_string()) } else { None };
    let metrics = r.bool();
    let mut builder = match &name {
        Some(n) if r.bool() => DriverBuilder::new(n.clone()),
        Some(n) => DriverBuilder::default().set_name(n.clone()),
        None => DriverBuilder::default(),
    };
    builder = builder.set_driver_metrics(metrics).set_processing_strategy(ALL);
    if let Some(t) = g.title.clone() {
        builder = builder.set_title(t);
    }
    if let Some(t) = g.descr.clone() {
        builder = builder.set_description(t);
    }
    let mut d = builder.build();
    let beat = Beat::default();
    d.add_processor(beat.clone());
    g.parts.push((K_PROC, Part::Group(Group::new(None))));
    let mut out = MountTx { txs: vec![], handles: vec![] };
    fill(&mut b, &mut r, &mut d, &mut g, &[], &mut out, 1);
    let mut trace = String::new();
    for round in 0..(1 + r.below(3)) {
        for _ in 0..r.below(10) {
            if out.txs.is_empty() {
                break;
            }
            let (tx, path) = r.pick(&out.txs);
            let (l, v) = (r.usize(LABELS), any_val(&mut r));
            let ts = Instant::now();
            tx.transmit(v.observation(l as u8, ts));
            if let Some(x) = group_at(&mut g, path) {
                x.feed(l, v, ts);
            }
            trace.push_str(&format!("{:?}<-{}:{:?} ", path, l, v));
        }
        // everything mounted is integrated and everything sent is processed after two runs
        let emptied = || out.txs.iter().all(|(tx, _)| tx.queue_size() == 0);
        wait_for(c, "waiting for the driver to process", emptied);
        if round == 0 {
            c.op("waiting for runs", || wait_beats(c, &beat, 3));
        }
        let desc = r.bool();
        let res = if r.bool() { c.op("snapshot", || d.snapshot(desc)) } else { c.op("snapshot", || block_on(d.snapshot_async(desc))) };
        let mut s = match res {
            Ok(s) => s,
            Err(_) => c.fail("a live driver refused a snapshot"),
        };
        // the driver's own metrics are judged elsewhere
        let inner: &mut Vec<(String, ItemKind)> = match &name {
            Some(n) => match s.items.iter_mut().find(|x| x.0 == *n) {
                Some((_, ItemKind::Snapshot(x))) => &mut x.items,
                _ => c.fail(format!("the group of the driver {:?} is missing in {}", n, snap_str(&s))),
            },
            None => &mut s.items,
        };
        let own: Vec<usize> = inner.iter().enumerate().filter(|(_, x)| x.0 == "_metrix").map(|x| x.0).collect();
        if own.len() != metrics as usize {
            c.fail(format!("{} driver metrics with metrics enabled: {}", own.len(), metrics));
        }
        own.first().map(|i| inner.remove(*i));
        let mut want = vec![];
        g.put(&mut want, desc, &vec![]);
        if let Err(e) = matches(&want, &s.items) {
            c.fail(format!("driver snapshot (descriptive: {}): {}; after {}; snapshot {}", desc, e, trace, snap_str(&s)));
        }
        count("driver_snapshots", 1);
    }
    g.check_calls(c, &trace);
    let n = g.size();
    if n < 5 {
        c.trivial();
    }
    c.sig(&format!("{} {}", n, trace));
}
