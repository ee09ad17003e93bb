//! C23 snapshots do not disturb, C24 JSON, C25 path lookup, C26 conversions
use super::queue::random_ts;
use super::routing::*;
use super::tree::*;
use crate::common::*;
use metrix::snapshot::{find_item, FindDurationItem, FindItem, JsonConfig};

// ------------------------------------------------------------------ C23
pub fn c23() {
    rule("two identical systems fed identically under virtual time; one of them is asked for snapshots (plain, descriptive, repeated, into snapshots with contents) at random moments: (instr) every instrument alone, (tree) random trees of mounts, attached mounts, processors, cockpits and panels with and without inactivity limits, (driver) running drivers with concurrent snapshot threads. Reports of all passes, the final state, everything recorders received and (equal snapshots without time passing, contents already there, calls of visible snapshooters) are judged. Non-trivial: at least one snapshot between two observations.");
    run("instr", 20_000, 400_000, 8, c23_instr);
    run("tree", 4_000, 80_000, 8, c23_tree);
    clock::COMPRESS_US.store(100, SeqCst);
    run("driver", 450, 9_000, 6, c23_driver);
    clock::COMPRESS_US.store(0, SeqCst);
}
fn any_instrument(kind: u64, seed: u64) -> Box<dyn Instrument> {
    let r = &mut Rng::new(seed);
    match kind {
        0 => Box::new(gen_counter(r, "i", false)),
        1 => Box::new(gen_gauge(r, "i", false)),
        2 => Box::new(gen_meter(r, "i", false)),
        3 => Box::new(gen_value_meter(r, "i", false)),
        4 => Box::new(gen_histogram(r, "i", false)),
        5 => Box::new(gen_flag(r, "i", false)),
        6 => Box::new(gen_display(r, "i", false)),
        7 => Box::new(gen_tracker(r, "i", false)),
        8 => Box::new(gen_staircase(r, "i", false)),
        9 => Box::new(gen_occurrence(r, "i", false)),
        _ => Box::new(gen_non_occurrence(r, "i", false)),
    }
}
fn some_time(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 | 1 => 0,
        2 => r.below(2_000_000) as i64,
        3 | 4 => r.below(1_200_000_000) as i64,
        5 => r.below(6_000_000_000) as i64,
        6 => r.below(100_000_000_000) as i64,
        _ => (1 + r.below(8)) as i64 * 1_000_000_000,
    }
}
fn c23_instr(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let kind = c.seed % 11;
    let seed = r.next();
    let mut a = any_instrument(kind, seed);
    let mut b = any_instrument(kind, seed);
    let mut trace = format!("kind {} ", kind);
    let (mut snaps, mut between) = (0u64, 0u64);
    for _ in 0..(2 + r.below(60)) {
        let t = some_time(&mut r);
        clock::advance(t);
        trace.push_str(&format!("+{} ", t));
        if r.bool() {
            let v = any_val(&mut r);
            let ts = if r.chance(1, 4) { random_ts(&mut r) } else { Instant::now() };
            let u = v.update(ts);
            trace.push_str(&format!("{:?} ", v));
            let x = a.update(&u);
            let y = b.update(&u);
            c.eq(x, y, || format!("instruments updated after {}", trace));
            between += (snaps > 0) as u64;
        } else {
            let d = r.bool();
            let n = 1 + r.below(3);
            let first = snap_into(&*a, Snapshot::default(), d);
            for _ in 1..n {
                let again = snap_into(&*a, Snapshot::default(), d);
                c.check(snap_str(&again) == snap_str(&first), || format!("a repeated snapshot {} differs from {} after {}", snap_str(&again), snap_str(&first), trace));
            }
            trace.push_str("snap ");
            snaps += n;
        }
    }
    let (x, y) = (snap_into(&*a, Snapshot::default(), false), snap_into(&*b, Snapshot::default(), false));
    c.check(snap_close(&x, &y), || format!("with snapshots {} without {} after {}", snap_str(&x), snap_str(&y), trace));
    count("snapshots", snaps);
    count("observations_after_a_snapshot", between);
    if between == 0 {
        c.trivial();
    }
    c.sig(&trace);
}
fn snap_into(i: &dyn PutsSnapshot, mut s: Snapshot, d: bool) -> Snapshot {
    i.put_snapshot(&mut s, d);
    s
}
/// (key, calls) of all plain snapshooters
fn shots(g: &Group, out: &mut Vec<(String, u64)>) {
    for (_, p) in &g.parts {
        match p {
            Part::Shot { key, calls, .. } => out.push((key.clone(), calls.load(SeqCst))),
            Part::Group(g) => shots(g, out),
            _ => {}
        }
    }
}
fn occurrences(s: &Snapshot, key: &str) -> u64 {
    s.items
        .iter()
        .map(|(k, v)| {
            (k == key) as u64
                + match v {
                    ItemKind::Snapshot(s) => occurrences(s, key),
                    _ => 0,
                }
        })
        .sum()
}
struct System {
    mount: ProcessorMount,
    model: Group,
    out: MountTx,
}
fn system(seed: u64, short: bool) -> System {
    let mut r = Rng::new(seed);
    let mut b = Builder::new();
    b.short = short;
    b.clashes = if short { 0 } else { r.below(6) };
    let mut out = MountTx { txs: vec![], handles: vec![] };
    let (mut mount, model) = any_mount(&mut b, &mut r, &[], &mut out, 2);
    mount.process(10_000, ALL);
    System { mount, model, out }
}
fn c23_tree(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let short = r.bool();
    let seed = r.next();
    let mut a = system(seed, short);
    let mut b = system(seed, short);
    let mut trace = format!("short limits: {}; ", short);
    let (mut snaps, mut between) = (0u64, 0u64);
    let sources = a.out.txs.len().min(b.out.txs.len());
    for _ in 0..(3 + r.below(25)) {
        if r.bool() {
            let t = some_time(&mut r);
            clock::advance(t);
            trace.push_str(&format!("+{} ", t));
        }
        match r.below(5) {
            0 | 1 if sources > 0 => {
                let i = r.usize(sources);
                let (l, v, ts) = (r.usize(LABELS), any_val(&mut r), random_ts(&mut r));
                a.out.txs[i].0.transmit(v.observation(l as u8, ts));
                b.out.txs[i].0.transmit(v.observation(l as u8, ts));
                trace.push_str(&format!("{}<-{}:{:?} ", i, l, v));
                // the queue is short, so what was sent is processed before the next snapshot or now
                if r.bool() {
                    c23_pass(c, &mut a, &mut b, 10_000, &trace);
                }
                let path = a.out.txs[i].1.clone();
                if let Some(g) = group_at(&mut a.model, &path) {
                    g.feed(l, v, ts);
                }
                between += (snaps > 0) as u64;
            }
            2 => {
                let n = 1 + r.usize(5);
                trace.push_str(&format!("process({}) ", n));
                c23_pass(c, &mut a, &mut b, n, &trace);
            }
            _ => {
                let d = r.bool();
                let n = 1 + r.below(3);
                let mut pre = Snapshot::default();
                for i in 0..r.below(3) {
                    pre.push(format!("before{}", i), i);
                }
                let mut first: Option<Snapshot> = None;
                for _ in 0..n {
                    let (mut was, mut is) = (vec![], vec![]);
                    shots(&a.model, &mut was);
                    let s = snap_into(&a.mount, pre.clone(), d);
                    shots(&a.model, &mut is);
                    if short {
                        for ((key, x), (_, y)) in was.iter().zip(&is) {
                            let shown = occurrences(&s, key);
                            c.check(y - x == shown, || format!("snapshooter {} was called {} times for {} occurrences in {}", key, y - x, shown, snap_str(&s)));
                        }
                    } else {
                        a.model.put(&mut vec![], d, &vec![]);
                    }
                    c.check(s.items.len() >= pre.items.len() && s.items[..pre.items.len()] == pre.items[..], || {
                        format!("what was in the snapshot changed: {} became {}", snap_str(&pre), snap_str(&s))
                    });
                    if let Some(f) = &first {
                        c.check(snap_str(&s) == snap_str(f), || format!("a repeated snapshot {} differs from {} after {}", snap_str(&s), snap_str(f), trace));
                    }
                    first = Some(s);
                }
                snaps += n;
                trace.push_str(&format!("{}snap{} ", n, d));
            }
        }
    }
    c23_pass(c, &mut a, &mut b, 10_000, &trace);
    let d = r.bool();
    if !short {
        a.model.check_calls(c, &trace);
    }
    let (x, y) = (snap_into(&a.mount, Snapshot::default(), d), snap_into(&b.mount, Snapshot::default(), d));
    c.check(snap_close(&x, &y), || format!("with snapshots {} without {} after {}", snap_str(&x), snap_str(&y), trace));
    count("deliveries_to_recorders", a.model.check_received(c, &trace));
    count("snapshots", snaps);
    count("observations_after_a_snapshot", between);
    count("items_compared", x.items.len() as u64);
    if between == 0 {
        c.trivial();
    }
    c.sig(&format!("{} {}", seed, trace));
    c.sample(|| format!("{} components, {}", a.model.size(), trace));
}
fn c23_pass(c: &Case, a: &mut System, b: &mut System, n: usize, trace: &str) {
    let x = a.mount.process(n, ALL);
    let y = b.mount.process(n, ALL);
    let x = (x.processed, x.dropped, x.instruments_updated, x.observations_enqueued);
    let y = (y.processed, y.dropped, y.instruments_updated, y.observations_enqueued);
    c.check(x == y, || format!("with snapshots a pass reports {:?}, without {:?} after {}", x, y, trace));
}
fn without_metrix(mut s: Snapshot) -> Snapshot {
    s.items.retain(|x| x.0 != "_metrix");
    s
}
fn c23_driver(c: &mut Case) {
    let mut r = c.rng.clone();
    clock::real();
    let seed = r.next();
    let metrics = r.bool();
    let make = |c: &Case| {
        let mut r = Rng::new(seed);
        let mut d = DriverBuilder::default().set_driver_metrics(metrics).set_processing_strategy(ALL).build();
        let beat = Beat::default();
        d.add_processor(beat.clone());
        let mut g = Group::new(None);
        g.parts.push((K_PROC, Part::Group(Group::new(None))));
        let mut b = Builder::new();
        b.timeless = true;
        b.clashes = r.below(4);
        let mut out = MountTx { txs: vec![], handles: vec![] };
        fill(&mut b, &mut r, &mut d, &mut g, &[], &mut out, 1);
        c.op("waiting for runs", || wait_beats(c, &beat, 3));
        (d, beat, g, out)
    };
    let (da, beat_a, mut ga, outa) = make(c);
    let (db, beat_b, _gb, outb) = make(c);
    let sources = outa.txs.len().min(outb.txs.len());
    let stop = std::sync::atomic::AtomicBool::new(false);
    let answered = AtomicU64::new(0);
    let refused = AtomicU64::new(0);
    let threads = 1 + r.usize(3);
    let mut trace = String::new();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (da, stop, answered, refused) = (da.clone(), &stop, &answered, &refused);
            let beater = c.beater();
            let mut r = Rng::new(mix(c.seed ^ t as u64));
            s.spawn(move || {
                beater.adopt();
                let mut n = 0;
                while (!stop.load(SeqCst) || n == 0) && n < 300 {
                    let res = if r.bool() { da.snapshot(r.bool()).is_ok() } else { block_on(da.snapshot_async(r.bool())).is_ok() };
                    if res { answered } else { refused }.fetch_add(1, SeqCst);
                    n += 1;
                    beater.beat();
                    jitter(&mut r);
                }
            });
        }
        for _ in 0..(5 + r.below(60)) {
            if sources == 0 {
                break;
            }
            let i = r.usize(sources);
            let (l, v) = (r.usize(LABELS), any_val(&mut r));
            let ts = Instant::now();
            outa.txs[i].0.transmit(v.observation(l as u8, ts));
            outb.txs[i].0.transmit(v.observation(l as u8, ts));
            let path = outa.txs[i].1.clone();
            if let Some(g) = group_at(&mut ga, &path) {
                g.feed(l, v, ts);
            }
            trace.push_str(&format!("{}<-{}:{:?} ", i, l, v));
            if r.chance(1, 8) {
                std::thread::sleep(Duration::from_micros(r.below(300)));
            }
        }
        stop.store(true, SeqCst);
    });
    c.eq(refused.load(SeqCst), 0, || "snapshot requests refused by a live driver".to_string());
    let emptied = |out: &MountTx| out.txs.iter().all(|(tx, _)| tx.queue_size() == 0);
    wait_for(c, "waiting for the drivers to process", || emptied(&outa) && emptied(&outb));
    c.op("waiting for runs", || {
        wait_beats(c, &beat_a, 2);
        wait_beats(c, &beat_b, 2);
    });
    let take = |d: &TelemetryDriver| match c.op("snapshot", || d.snapshot(false)) {
        Ok(s) => without_metrix(s),
        Err(_) => c.fail("a live driver refused a snapshot"),
    };
    let (x, y) = (take(&da), take(&db));
    c.check(snap_close(&x, &y), || format!("with snapshots {} without {} after {}", snap_str(&x), snap_str(&y), trace));
    let again = take(&da);
    c.check(snap_str(&x) == snap_str(&again), || format!("a repeated snapshot {} differs from {}", snap_str(&again), snap_str(&x)));
    let n = answered.load(SeqCst) + 2;
    for _ in 0..n {
        ga.put(&mut vec![], false, &vec![]);
    }
    ga.check_calls(c, &format!("{} snapshots; {}", n, trace));
    count("deliveries_to_recorders", ga.check_received(c, &trace));
    count("snapshots", n);
    c.sig(&format!("{} {} {}", seed, n, trace));
}

// ------------------------------------------------------------------ C24
pub fn c24() {
    rule("(values) random snapshot trees: any text in keys and values (control characters, quotes, escapes, surrogate edges, empty), extreme and random integers and floats, deep nesting; (system) snapshots of random component trees with hostile names. The JSON is parsed by an own strict RFC 8259 parser and compared with the tree; with booleans as integers and with every indentation the text must be what the options say. Non-trivial: at least one item.");
    run("values", 30_000, 750_000, 8, c24_values);
    run("system", 1_500, 30_000, 8, c24_system);
}
#[derive(Debug, Clone, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
/// A strict parser of RFC 8259.
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn parse(text: &'a str) -> Result<J, String> {
        let mut p = P { s: text.as_bytes(), i: 0 };
        p.ws();
        let v = p.value(0)?;
        p.ws();
        if p.i != p.s.len() {
            return Err(format!("trailing characters at {}", p.i));
        }
        Ok(v)
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ') | Some(b'\t') | Some(b'\n') | Some(b'\r')) {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Ok(v)
        } else {
            Err(format!("unexpected character at {}", self.i))
        }
    }
    fn value(&mut self, depth: u32) -> Result<J, String> {
        if depth > 2000 {
            return Err("too deep".into());
        }
        match self.peek() {
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(format!("bad array at {}", self.i)),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != Some(b':') {
                        return Err(format!("no colon at {}", self.i));
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.value(depth + 1)?;
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            Some(b'-') | Some(b'0'..=b'9') => self.number(),
            _ => Err(format!("unexpected character at {}", self.i)),
        }
    }
    fn digits(&mut self) -> usize {
        let from = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        self.i - from
    }
    fn number(&mut self) -> Result<J, String> {
        let from = self.i;
        if self.peek() == Some(b'-') {
            self.i += 1;
        }
        match self.peek() {
            Some(b'0') => self.i += 1,
            Some(b'1'..=b'9') => {
                self.digits();
            }
            _ => return Err(format!("bad number at {}", from)),
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            if self.digits() == 0 {
                return Err(format!("bad fraction at {}", from));
            }
        }
        if matches!(self.peek(), Some(b'e') | Some(b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+') | Some(b'-')) {
                self.i += 1;
            }
            if self.digits() == 0 {
                return Err(format!("bad exponent at {}", from));
            }
        }
        Ok(J::Num(String::from_utf8_lossy(&self.s[from..self.i]).into_owned()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let mut v = 0;
        for _ in 0..4 {
            let d = self.peek().and_then(|b| (b as char).to_digit(16)).ok_or_else(|| format!("bad \\u at {}", self.i))?;
            v = v * 16 + d;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != Some(b'"') {
            return Err(format!("no string at {}", self.i));
        }
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        let mut push = |out: &mut Vec<u8>, c: char| {
            let mut buf = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
        };
        loop {
            let b = self.peek().ok_or("unterminated string")?;
            self.i += 1;
            match b {
                b'"' => break,
                b'\\' => {
                    let e = self.peek().ok_or("unterminated escape")?;
                    self.i += 1;
                    let c = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut v = self.hex4()?;
                            if (0xd800..0xdc00).contains(&v) {
                                if self.peek() != Some(b'\\') {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 1;
                                if self.peek() != Some(b'u') {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 1;
                                let low = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&low) {
                                    return Err("lone surrogate".into());
                                }
                                v = 0x10000 + ((v - 0xd800) << 10) + (low - 0xdc00);
                            }
                            char::from_u32(v).ok_or("bad code point")?
                        }
                        _ => return Err(format!("bad escape at {}", self.i)),
                    };
                    push(&mut out, c);
                }
                0..=0x1f => return Err(format!("raw control character {:#x} at {}", b, self.i - 1)),
                b => out.push(b),
            }
        }
        String::from_utf8(out).map_err(|_| "bad utf-8".to_string())
    }
}
/// The exact value of a decimal number as mantissa and exponent of ten, without trailing zeros.
fn decimal(t: &str) -> Option<(bool, String, i64)> {
    let (neg, t) = match t.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, t),
    };
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], t[i + 1..].trim_start_matches('+').parse::<i64>().ok()?),
        None => (t, 0),
    };
    let (int, frac) = match m.find('.') {
        Some(i) => (&m[..i], &m[i + 1..]),
        None => (m, ""),
    };
    let all = format!("{}{}", int, frac);
    let mut exp = e - frac.len() as i64;
    let mut digits = all.trim_start_matches('0').to_string();
    while digits.ends_with('0') {
        digits.pop();
        exp += 1;
    }
    if digits.is_empty() {
        return Some((false, digits, 0));
    }
    Some((neg, digits, exp))
}
fn faithful(item: &ItemKind, j: &J, ints: bool, path: &str) -> Result<u64, String> {
    let bad = || Err(format!("{}: {:?} became {:?}", path, item, j));
    let same_number = |t: &str, want: String| decimal(t) == decimal(&want);
    match (item, j) {
        (ItemKind::Text(a), J::Str(b)) if a == b => Ok(1),
        (ItemKind::Boolean(a), J::Bool(b)) if a == b && !ints => Ok(1),
        (ItemKind::Boolean(a), J::Num(t)) if ints && same_number(t, (*a as u8).to_string()) => Ok(1),
        (ItemKind::UInt(a), J::Num(t)) if same_number(t, a.to_string()) => Ok(1),
        (ItemKind::Int(a), J::Num(t)) if same_number(t, a.to_string()) => Ok(1),
        (ItemKind::Float(a), J::Null) if !a.is_finite() => Ok(1),
        (ItemKind::Float(a), J::Num(t)) if a.is_finite() => match t.parse::<f64>() {
            Ok(b) if b == *a => Ok(1),
            _ => bad(),
        },
        (ItemKind::Snapshot(s), J::Obj(o)) => {
            if s.items.len() != o.len() {
                return Err(format!("{}: {} items became {}", path, s.items.len(), o.len()));
            }
            let mut n = 1;
            for (i, (k, v)) in s.items.iter().enumerate() {
                // usually at the same place
                let found = if o[i].0 == *k { Some(&o[i]) } else { o.iter().find(|x| x.0 == *k) };
                match found {
                    Some((_, x)) => n += faithful(v, x, ints, &format!("{}/{:?}", path, k))?,
                    None => return Err(format!("{}: key {:?} is missing", path, k)),
                }
            }
            Ok(n)
        }
        _ => bad(),
    }
}
/// The text without white space between tokens
fn squeeze(t: &str) -> String {
    let mut out = String::with_capacity(t.len());
    let (mut inside, mut escaped) = (false, false);
    for c in t.chars() {
        if inside {
            out.push(c);
            if escaped {
                escaped = false;
            } else if c == '\\' {
                escaped = true;
            } else if c == '"' {
                inside = false;
            }
        } else if !matches!(c, ' ' | '\n' | '\t' | '\r') {
            out.push(c);
            inside = c == '"';
        }
    }
    out
}
fn any_text(r: &mut Rng) -> String {
    let n = match r.below(10) {
        0 => 0,
        1 => r.usize(60),
        _ => 1 + r.usize(8),
    };
    (0..n)
        .map(|_| match r.below(9) {
            0 => char::from_u32(r.below(0x20) as u32).unwrap_or('a'),
            1 => *r.pick(&['"', '\\', '/', '\u{7f}', '\u{80}', '\u{9f}', '\u{2028}', '\u{2029}', '\u{feff}', '{', '}', '[', ']', ':', ',', '\'']),
            2 => *r.pick(&['\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{1f600}']),
            3 => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
            4 => *r.pick(&['ä', 'ß', '€', '中']),
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}
fn any_float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::from_bits(r.next()),
        1 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e-7, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 4.35, 0.3, 1.7976931348623157e308, 9007199254740993.0, 123456789012345680.0]),
        2 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        3 => r.range(-1_000_000, 1_000_000) as f64 / 100.0,
        4 => r.f01(),
        5 => r.next() as f64,
        6 => (r.f01() - 0.5) * 10f64.powi(r.range(-320, 308) as i32),
        _ => r.range(-100, 100) as f64,
    }
}
fn any_u64(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 53) + 1, 10_000_000_000_000_000_000, u32::MAX as u64]),
        1 => r.below(100),
        2 => 10u64.pow(r.below(20) as u32),
        3 => (1u64 << r.below(64)).wrapping_sub(r.below(2)),
        _ => r.next(),
    }
}
fn any_i64(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MIN + 1, -(1 << 53) - 1]),
        1 => -10i64.pow(r.below(19) as u32),
        _ => any_u64(r) as i64,
    }
}
fn any_item(r: &mut Rng, depth: u32) -> ItemKind {
    match r.below(if depth > 0 { 10 } else { 8 }) {
        0 | 1 => any_text(r).into(),
        2 => r.bool().into(),
        3 | 4 => any_float(r).into(),
        5 | 6 => any_u64(r).into(),
        7 => any_i64(r).into(),
        _ => any_snapshot(r, depth - 1).into(),
    }
}
fn any_snapshot(r: &mut Rng, depth: u32) -> Snapshot {
    let mut s = Snapshot::default();
    for _ in 0..r.usize(7) {
        let k = any_text(r);
        if !s.items.iter().any(|x| x.0 == k) {
            let v = any_item(r, depth);
            s.push(k, v);
        }
    }
    s
}
fn c24_judge(c: &Case, s: &Snapshot, r: &mut Rng, large: bool) {
    let compact = s.to_default_json();
    let explicit = s.to_json(&JsonConfig { make_booleans_ints: false, pretty: None });
    c.check(compact == explicit, || format!("default JSON {} differs from {}", compact, explicit));
    let ints = s.to_json(&JsonConfig { make_booleans_ints: true, pretty: None });
    for (t, i) in [(&compact, false), (&ints, true)] {
        match P::parse(t) {
            Err(e) => c.fail(format!("invalid JSON: {}: {}", e, t)),
            Ok(j) => match faithful(&ItemKind::Snapshot(s.clone()), &j, i, "") {
                Ok(n) => count("values_compared", n),
                Err(e) => c.fail(format!("booleans as integers: {}: {} in {}", i, e, t)),
            },
        }
    }
    let indent = if large { r.below(3) as u16 } else { *r.pick(&[0, 1, 2, 3, 4, 8, 17, 100]) };
    let pretty = s.to_json(&JsonConfig { make_booleans_ints: false, pretty: Some(indent) });
    c.check(squeeze(&pretty) == squeeze(&compact), || format!("pretty JSON {} is something else than {}", pretty, compact));
    if let Err(e) = P::parse(&pretty) {
        c.fail(format!("invalid JSON: {}: {}", e, pretty));
    }
    let both = s.to_json(&JsonConfig { make_booleans_ints: true, pretty: Some(indent) });
    c.check(squeeze(&both) == squeeze(&ints), || format!("pretty JSON {} is something else than {}", both, ints));
    count("documents_parsed", 3);
}
fn c24_values(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut s = any_snapshot(&mut r, 4);
    if r.chance(1, 50) {
        // deep
        for i in 0..(10 + r.below(60)) {
            let mut outer = Snapshot::default();
            outer.push(format!("d{}", i), s);
            s = outer;
        }
    }
    let large = r.chance(1, 400);
    if large {
        count("large_documents", 1);
        match r.below(5) {
            0 => {
                for i in 0..(100 + r.below(400)) {
                    let mut outer = Snapshot::default();
                    outer.push(format!("d{}", i), s);
                    if r.chance(1, 20) {
                        outer.push("beside", any_item(&mut r, 0));
                    }
                    s = outer;
                }
            }
            1 => {
                for i in 0..(100 + r.below(5000)) {
                    let k = format!("{}{}", any_text(&mut r), i);
                    s.items.push((k, any_item(&mut r, 0)));
                }
                let mut seen = std::collections::HashSet::new();
                s.items.retain(|x| seen.insert(x.0.clone()));
            }
            2 => {
                let n = 1000 + r.usize(100_000);
                let mut t = String::new();
                while t.len() < n {
                    t.push_str(&any_text(&mut r));
                }
                s.items.push((format!("{}!", t), 1u64.into()));
                s.items.push(("long text".into(), ItemKind::Text(t)));
            }
            3 => {
                // one kind of character only
                let ch = *r.pick(&['"', '\\', '\u{0}', 'x', '\u{10ffff}', '\u{7f}', '\n']);
                let t: String = std::iter::repeat(ch).take(1 + r.usize(70_000)).collect();
                s.items.push(("many of one".into(), ItemKind::Text(t)));
            }
            _ => {
                // many groups
                for i in 0..(50 + r.below(300)) {
                    s.items.push((format!("many{}", i), ItemKind::Snapshot(any_snapshot(&mut r, 1))));
                }
            }
        }
    }
    c24_judge(c, &s, &mut r, large);
    if s.items.is_empty() {
        c.trivial();
    }
    if !large {
        c.sig(&snap_str(&s));
        c.sample(|| s.to_default_json());
    }
}
fn unique(s: &Snapshot) -> bool {
    s.items.iter().enumerate().all(|(i, (k, v))| {
        s.items[..i].iter().all(|x| x.0 != *k)
            && match v {
                ItemKind::Snapshot(s) => unique(s),
                _ => true,
            }
    })
}
fn c24_system(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let mut b = Builder::new();
    b.clashes = 0;
    b.hostile = true;
    let mut out = MountTx { txs: vec![], handles: vec![] };
    let (mut m, _) = any_mount(&mut b, &mut r, &[], &mut out, 2);
    m.process(10_000, ALL);
    for _ in 0..r.below(30) {
        if out.txs.is_empty() {
            break;
        }
        let (l, v, ts) = (r.usize(LABELS), any_val(&mut r), random_ts(&mut r));
        r.pick(&out.txs).0.transmit(v.observation(l as u8, ts));
        clock::advance(r.below(2_000_000_000) as i64);
        m.process(10_000, ALL);
    }
    let s = shot_of(&m, r.bool());
    // unnamed components are put into the surrounding group, so keys may repeat
    if unique(&s) {
        c24_judge(c, &s, &mut r, false);
    } else {
        count("with_repeated_keys", 1);
        for pretty in [None, Some(3)] {
            let t = s.to_json(&JsonConfig { make_booleans_ints: r.bool(), pretty });
            if let Err(e) = P::parse(&t) {
                c.fail(format!("invalid JSON: {}: {}", e, t));
            }
        }
    }
    if s.items.is_empty() {
        c.trivial();
    }
    c.sig(&snap_str(&s));
}

// ------------------------------------------------------------------ C25
pub fn c25() {
    rule("random snapshot trees with repeated, empty and separator-like names; random and derived paths (existing, prolonged, truncated, with empty segments) with random separators, looked up from snapshots, items and found items and read as durations; compared to an own lookup. Non-trivial: a path that exists and one that does not.");
    run("find", 80_000, 1_600_000, 8, c25_find);
    run("durations", 15_000, 300_000, 8, c25_durations);
}
const SEG: [&str; 15] = ["a", "b", "c", "aa", "A", "a.b", "", "/", "x/y", "ä", " ", "\t", " a", "a ", "\u{a0}"];
fn c25_tree(r: &mut Rng, depth: u32, n: &mut u64) -> Snapshot {
    let mut s = Snapshot::default();
    for _ in 0..r.usize(6) {
        *n += 1;
        let v: ItemKind = if depth > 0 && r.chance(2, 5) { c25_tree(r, depth - 1, n).into() } else { (*n).into() };
        s.push(*r.pick(&SEG), v);
    }
    s
}
/// None: not found
fn lookup<'a>(item: &'a ItemKind, path: &[&str]) -> Option<&'a ItemKind> {
    let path: Vec<&str> = path.iter().copied().filter(|x| !x.is_empty()).collect();
    let mut at = item;
    for seg in path {
        match at {
            ItemKind::Snapshot(s) => at = &s.items.iter().find(|x| x.0 == seg)?.1,
            // the rest of the path is discarded
            other => return Some(other),
        }
    }
    Some(at)
}
fn same_item(got: &FindItem, want: Option<&ItemKind>) -> bool {
    match (got, want) {
        // the very item, not just an equal one
        (FindItem::Found(a), Some(b)) => std::ptr::eq(*a, b),
        (FindItem::NotFound, None) => true,
        _ => false,
    }
}
fn derived_path(r: &mut Rng, s: &Snapshot) -> Vec<String> {
    let mut p = vec![];
    let mut at = Some(s);
    while let Some(s) = at {
        // through the deep ones, too
        let last = s.items.last();
        let deep = last.filter(|x| x.0.starts_with("level"));
        if s.items.is_empty() || r.chance(1, if deep.is_some() { 200 } else { 6 }) {
            break;
        }
        let (k, v) = match deep {
            Some(x) if r.chance(149, 150) => x,
            _ => r.pick(&s.items),
        };
        p.push(k.clone());
        at = match v {
            ItemKind::Snapshot(s) => Some(s),
            _ => None,
        };
    }
    match r.below(5) {
        0 => p.push(r.pick(&SEG).to_string()),
        1 if !p.is_empty() => {
            let i = r.usize(p.len());
            p[i] = r.pick(&SEG).to_string();
        }
        _ => {}
    }
    if r.chance(1, 4) {
        let i = r.usize(p.len() + 1);
        p.insert(i, String::new());
    }
    p
}
fn c25_find(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut n = 0;
    let mut s = c25_tree(&mut r, 4, &mut n);
    if r.chance(1, 300) {
        count("large_snapshots", 1);
        if r.bool() {
            // deep, some without anything in the way
            let odd = if r.bool() { 4 } else { 0 };
            for i in 0..(10 + r.below(200)) {
                let mut outer = c25_tree(&mut r, 0, &mut n);
                let k = if r.below(16) < odd { r.pick(&SEG).to_string() } else { format!("level{}", i) };
                outer.push(k, s);
                s = outer;
            }
        } else {
            // wide
            let most = if r.chance(1, 8) { 12_000 } else { 1_000 };
            for i in 0..(10 + r.below(most)) {
                let inner = c25_tree(&mut r, 1, &mut n);
                n += 1;
                let v: ItemKind = if r.chance(1, 3) { inner.into() } else { n.into() };
                s.push(format!("wide{}", if r.chance(1, 20) { r.below(i + 1) } else { i }), v);
            }
        }
    }
    let item = ItemKind::Snapshot(s.clone());
    let inner = match &item {
        ItemKind::Snapshot(s) => s,
        _ => return,
    };
    let (mut hits, mut misses) = (0, 0);
    for _ in 0..12 {
        let segs = derived_path(&mut r, inner);
        let sep = *r.pick(&['/', '.', '|', ' ', 'ä', 'a', '\0']);
        let text = segs.join(&sep.to_string());
        let split: Vec<&str> = text.split(sep).filter(|x| !x.is_empty()).collect();
        let want = if split.is_empty() { None } else { lookup(&item, &split) };
        let got = inner.find_with_separator(&text, sep);
        c.check(same_item(&got, want), || format!("find_with_separator({:?}, {:?}) gives {:?}, expected {:?} in {}", text, sep, got, want, snap_str(inner)));
        c.check(got.opt() == want, || format!("opt() of {:?} is not {:?}", got, want));
        let shown = match want {
            Some(ItemKind::Snapshot(s)) => format!("Snapshot({} items)", s.items.len()),
            Some(v) => format!("{}", v),
            None => "<item not found>".to_string(),
        };
        c.check(format!("{}", got) == shown, || format!("{:?} is displayed as {}", got, got));
        if sep == '/' {
            let got = inner.find(&text);
            c.check(same_item(&got, want), || format!("find({:?}) gives {:?}, expected {:?} in {}", text, got, want, snap_str(inner)));
        }
        // segments as they are, also with separators in them
        let plain: Vec<&str> = segs.iter().map(|x| x.as_str()).collect();
        let want2 = lookup(&item, &plain);
        let got2 = find_item(&item, &segs);
        c.check(same_item(&got2, want2), || format!("find_item({:?}) gives {:?}, expected {:?} in {}", segs, got2, want2, snap_str(inner)));
        let got3 = find_item(&item, &plain);
        c.check(same_item(&got3, want2), || format!("find_item({:?}) gives {:?}, expected {:?} in {}", segs, got3, want2, snap_str(inner)));
        // on from a found group
        if let Some(at @ ItemKind::Snapshot(s2)) = want {
            let segs = derived_path(&mut r, s2);
            for sep in ['/', *r.pick(&['/', '.', '|', ' ', 'ä', 'a', '\0'])] {
                let more = segs.join(&sep.to_string());
                let split: Vec<&str> = more.split(sep).filter(|x| !x.is_empty()).collect();
                let want4 = if split.is_empty() { None } else { lookup(at, &split) };
                let got5 = got.find_with_separator(&more, sep);
                c.check(same_item(&got5, want4), || format!("find_with_separator({:?}, {:?}) on {:?} gives {:?}, expected {:?}", more, sep, got, got5, want4));
                if sep == '/' {
                    let got4 = got.find(&more);
                    c.check(same_item(&got4, want4), || format!("find({:?}) on {:?} gives {:?}, expected {:?}", more, got, got4, want4));
                }
            }
            count("continued_lookups", 1);
        }
        if want.is_none() {
            c.check(same_item(&got.find("a"), None), || "something was found on something not found".to_string());
            misses += 1;
        } else {
            hits += 1;
        }
    }
    count("found", hits);
    count("not_found", misses);
    if hits == 0 || misses == 0 {
        c.trivial();
    }
    c.sig(&snap_str(inner));
    c.sample(|| snap_str(inner));
}
fn c25_durations(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut s = Snapshot::default();
    for i in 0..8 {
        let v = any_item(&mut r, 1);
        s.push(format!("k{}", i), v);
    }
    s.push("u", any_u64(&mut r));
    s.push("i", any_i64(&mut r));
    s.push("f", 5.0);
    let mut trace = String::new();
    for k in ["k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "u", "i", "f", "missing", "u/x"] {
        let found = s.find(k);
        let number: Option<Option<u64>> = match lookup(&ItemKind::Snapshot(s.clone()), &k.split('/').collect::<Vec<_>>()) {
            Some(ItemKind::UInt(v)) => Some(Some(*v)),
            Some(ItemKind::Int(v)) if *v >= 0 => Some(Some(*v as u64)),
            Some(_) => Some(None),
            None => None,
        };
        for (u, got) in [found.to_duration_nanoseconds(), found.to_duration_microseconds(), found.to_duration_milliseconds(), found.to_duration_seconds()].into_iter().enumerate() {
            let ok = match (number, got) {
                (None, FindDurationItem::NotFound) | (Some(None), FindDurationItem::NotADuration) => got.opt().is_none(),
                (Some(Some(v)), FindDurationItem::Duration(d)) => {
                    let ns = v as u128 * UNIT_NS[u];
                    d.as_nanos() == ns && got.opt() == Some(d)
                }
                _ => false,
            };
            c.check(ok, || format!("{:?} read as a duration in unit {} gives {:?}", found, u, got));
            let shown = match got {
                FindDurationItem::NotFound => "<item not found>".to_string(),
                FindDurationItem::NotADuration => "<item not a duration>".to_string(),
                FindDurationItem::Duration(d) => format!("{:?}", d),
            };
            c.check(format!("{}", got) == shown, || format!("{:?} is displayed as {}", got, got));
            count("durations_read", 1);
        }
        trace.push_str(&format!("{} ", found));
    }
    c.sig(&trace);
}

// ------------------------------------------------------------------ C26
pub fn c26() {
    rule("(values) every source type and conversion with boundary and random values against exact integer arithmetic and correctly rounded floats; (units) all pairs of time units through gauges, histograms and value meters; (methods) every convenience method of a transmitter under virtual time, including measuring from the future: the recorded observations must be exactly those described; (ways) every way of making and sending an observation (constructors, transmit, observed*, *_now, clones, every type that converts into a value): every handler must receive exactly that label, kind, value, unit, count and timestamp, and every view of it must agree; (convert) a second, independently written conversion model. Non-trivial: always.");
    run("values", 40_000, 800_000, 8, c26_values);
    run("units", 20_000, 400_000, 8, c26_units);
    run("methods", 8_000, 200_000, 8, c26_methods);
    run("ways", 80_000, 2_000_000, 8, super::config::c26_ways);
    run("convert", 40_000, 2_000_000, 8, super::config::c26_convert);
}
fn edge_float(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => any_float(r),
        1 => {
            // around the limits of the integer types
            let base = *r.pick(&[9_223_372_036_854_775_808.0f64, 18_446_744_073_709_551_616.0, 4_503_599_627_370_496.0, 9_007_199_254_740_992.0, 0.0, 1.0]);
            let mut bits = base.to_bits() as i64;
            bits += r.range(-3, 3);
            let f = f64::from_bits(bits as u64);
            if r.bool() { f } else { -f }
        }
        2 => r.range(-5, 5) as f64 + *r.pick(&[0.0, 0.5, -0.5, 0.49999999999999994, 0.25, 0.75]),
        3 => any_i64(r) as f64,
        4 => any_u64(r) as f64,
        _ => r.range(-2_000, 2_000) as f64 / 8.0,
    }
}
/// The exact integer a float rounds to (half away from zero)
fn rounded(f: f64) -> Option<i128> {
    if !f.is_finite() || f.abs() >= 1e30 {
        return None;
    }
    let bits = f.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = (bits & ((1 << 52) - 1)) as i128 | if e > 0 { 1 << 52 } else { 0 };
    let exp = e.max(1) - 1075;
    let abs = if exp >= 0 {
        m << exp
    } else if exp < -60 {
        0
    } else {
        (m + (1i128 << (-exp - 1))) >> -exp
    };
    Some(if f < 0.0 { -abs } else { abs })
}
fn any_duration(r: &mut Rng) -> Duration {
    match r.below(4) {
        0 => Duration::new(any_u64(r), r.below(1_000_000_000) as u32),
        1 => Duration::from_nanos(any_u64(r)),
        2 => *r.pick(&[Duration::MAX, Duration::ZERO, Duration::from_secs(u64::MAX), Duration::from_nanos(999_999_999)]),
        _ => Duration::new(r.below(100), r.below(1_000_000_000) as u32),
    }
}
fn c26_values(c: &mut Case) {
    let mut r = c.rng.clone();
    let (i, u, f, b, d, n) = (any_i64(&mut r), any_u64(&mut r), edge_float(&mut r), r.bool(), any_duration(&mut r), any_u64(&mut r) as u32);
    let unit = r.usize(4);
    let ns = d.as_secs() as u128 * 1_000_000_000 + d.subsec_nanos() as u128;
    let made: Vec<(ObservedValue, Val)> = vec![
        (i.into(), Val::I(i)),
        ((i as i32).into(), Val::I(i as i32 as i64)),
        ((i as i16).into(), Val::I(i as i16 as i64)),
        ((i as i8).into(), Val::I(i as i8 as i64)),
        (u.into(), Val::U(u)),
        ((u as u32).into(), Val::U(u as u32 as u64)),
        ((u as u16).into(), Val::U(u as u16 as u64)),
        ((u as u8).into(), Val::U(u as u8 as u64)),
        ((u as usize).into(), Val::U(u)),
        (f.into(), Val::F(f.to_bits())),
        (b.into(), Val::B(b)),
        (d.into(), Val::D(ns.min(u64::MAX as u128) as u64, 0)),
        ((u, UNITS[unit]).into(), Val::D(u, unit as u8)),
        ((d, UNITS[unit]).into(), Val::D((ns / UNIT_NS[unit]).min(u64::MAX as u128) as u64, unit as u8)),
        (metrix::Increment.into(), Val::C(1)),
        (metrix::Decrement.into(), Val::C(-1)),
        (metrix::IncrementBy(n).into(), Val::C(n as i64)),
        (metrix::DecrementBy(n).into(), Val::C(-(n as i64))),
        (metrix::ChangeBy(i).into(), Val::C(i)),
    ];
    for (v, want) in &made {
        c.eq(Val::of_value(v), *want, || format!("value made from {} {} {} {} {:?} {:?} {}", i, u, f, b, d, UNITS[unit], n));
        let (wi, wu, wb): (Option<i64>, Option<u64>, Option<bool>) = match *want {
            Val::I(v) => (Some(v), u64::try_from(v).ok(), Some(v != 0)),
            Val::U(v) => (i64::try_from(v).ok(), Some(v), Some(v != 0)),
            Val::F(bits) => {
                let x = rounded(f64::from_bits(bits));
                (x.and_then(|x| i64::try_from(x).ok()), x.and_then(|x| u64::try_from(x).ok()), None)
            }
            Val::B(v) => (None, None, Some(v)),
            _ => (None, None, None),
        };
        c.eq(v.convert_to_i64(), wi, || format!("convert_to_i64 of {:?}", v));
        c.eq(v.convert_to_u64(), wu, || format!("convert_to_u64 of {:?}", v));
        c.eq(v.convert_to_bool(), wb, || format!("convert_to_bool of {:?}", v));
        c.eq(v.is_delta(), matches!(want, Val::C(_)), || format!("is_delta of {:?}", v));
        let item: Option<ItemKind> = match *want {
            Val::I(v) => Some(ItemKind::Int(v)),
            Val::U(v) => Some(ItemKind::UInt(v)),
            Val::F(v) => Some(ItemKind::Float(f64::from_bits(v))),
            Val::B(v) => Some(ItemKind::Boolean(v)),
            _ => None,
        };
        for got in [v.to_item_kind(), Option::<ItemKind>::from(*v)] {
            c.check(format!("{:?}", got) == format!("{:?}", item), || format!("{:?} as an item is {:?}, expected {:?}", v, got, item));
        }
        count("conversions", 6);
    }
    let items: Vec<(ItemKind, ItemKind)> = vec![
        (u.into(), ItemKind::UInt(u)),
        ((u as u32).into(), ItemKind::UInt(u as u32 as u64)),
        ((u as u16).into(), ItemKind::UInt(u as u16 as u64)),
        ((u as u8).into(), ItemKind::UInt(u as u8 as u64)),
        ((u as usize).into(), ItemKind::UInt(u)),
        (i.into(), ItemKind::Int(i)),
        ((i as i32).into(), ItemKind::Int(i as i32 as i64)),
        ((i as i16).into(), ItemKind::Int(i as i16 as i64)),
        ((i as i8).into(), ItemKind::Int(i as i8 as i64)),
        ((i as isize).into(), ItemKind::Int(i)),
        (f.into(), ItemKind::Float(f)),
        ((f as f32).into(), ItemKind::Float(f as f32 as f64)),
        (b.into(), ItemKind::Boolean(b)),
        ("text".into(), ItemKind::Text("text".into())),
        (format!("{}", u).into(), ItemKind::Text(format!("{}", u))),
        (Snapshot { items: vec![("x".into(), ItemKind::UInt(u))] }.into(), ItemKind::Snapshot(Snapshot { items: vec![("x".into(), ItemKind::UInt(u))] })),
    ];
    for (got, want) in &items {
        c.check(format!("{:?}", got) == format!("{:?}", want), || format!("item {:?}, expected {:?}", got, want));
    }
    c.sig(&format!("{} {} {} {} {:?} {} {}", i, u, f, b, d, unit, n));
}
fn c26_units(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    let ts = Instant::now();
    for from in 0..4u8 {
        for to in 0..4u8 {
            let v = match r.below(4) {
                0 => any_u64(&mut r),
                1 => r.below(5_000),
                // around whole units
                2 => ((r.below(1000) as u128 * 10u128.pow(r.below(10) as u32)) as u64).wrapping_add(r.below(3)).wrapping_sub(1),
                _ => r.below(1 << 40),
            };
            let want = to_unit(v, from, to).min(i64::MAX as u64) as i64;
            let u = Val::D(v, from).update(ts);
            let mut g = Gauge::new("g").display_time_unit(UNITS[to as usize]).group_values(false);
            g.update(&u);
            let got = shot_of(&g, false).i(&["g"]);
            c.eq(got, Some(want), || format!("gauge in {:?} shows {} {:?}", UNITS[to as usize], v, UNITS[from as usize]));
            let mut h = Histogram::new("h").display_time_unit(UNITS[to as usize]);
            h.update(&u);
            let s = shot_of(&h, false);
            c.eq((s.i(&["h", "min"]), s.i(&["h", "max"])), (Some(want), Some(want)), || format!("histogram in {:?} shows {} {:?}", UNITS[to as usize], v, UNITS[from as usize]));
            let mut m = ValueMeter::new("m").display_time_unit(UNITS[to as usize]);
            m.update(&u);
            let s = shot_of(&m, false);
            c.eq(s.u(&["m", "count"]), Some(want as u64), || format!("value meter in {:?} counts {} {:?}", UNITS[to as usize], v, UNITS[from as usize]));
            count("unit_conversions", 3);
        }
    }
    c.sig(&r.next().to_string());
}
fn c26_methods(c: &mut Case) {
    let mut r = c.rng.clone();
    virtual_start(&mut r);
    // time passes with every look at the clock
    clock::set_step(1 + r.below(1000) as i64);
    let log = new_log::<u8>();
    let (tx, mut p) = TelemetryProcessor::<u8>::new_pair_without_name();
    p.add_handler(Recorder::new(&log));
    let mut trace = String::new();
    // label, value, earliest and latest timestamp
    let mut want: Vec<(u8, Val, Instant, Instant)> = vec![];
    for _ in 0..(1 + r.below(20)) {
        clock::advance(r.below(2_000_000_000) as i64);
        let l = r.below(10) as u8;
        let n = any_u64(&mut r);
        let v = any_val(&mut r);
        let d = any_duration(&mut r);
        let ts = random_ts(&mut r);
        let dv = Val::D(d.as_nanos().min(u64::MAX as u128) as u64, 0);
        let way = r.below(14);
        trace.push_str(&format!("{}:{} ", way, l));
        let before = Instant::now();
        let mut fixed = true;
        let mut measured = None;
        let val = match way {
            0 => {
                tx.observed(l, n, ts);
                Val::Count(n)
            }
            1 => {
                tx.observed_one(l, ts);
                Val::One
            }
            2 => {
                let x = v.value().unwrap_or(ObservedValue::SignedInteger(n as i64));
                tx.observed_one_value(l, x, ts);
                Val::of_value(&x)
            }
            3 => {
                tx.observed_duration(l, d, ts);
                dv
            }
            4 => {
                tx.transmit(v.observation(l, ts));
                v
            }
            5 => {
                tx.transmit(Observation::observed(l, n, ts));
                Val::Count(n)
            }
            6 => {
                tx.transmit(Observation::observed_one(l, ts)).transmit(Observation::observed_one_value(l, d, ts));
                want.push((l, Val::One, ts, ts));
                dv
            }
            7 => {
                fixed = false;
                tx.observed_now(l, n);
                Val::Count(n)
            }
            8 => {
                fixed = false;
                tx.observed_one_now(l);
                Val::One
            }
            9 => {
                fixed = false;
                tx.observed_one_value_now(l, n);
                Val::U(n)
            }
            10 => {
                fixed = false;
                tx.observed_one_duration_now(l, d);
                dv
            }
            11 => {
                fixed = false;
                match r.below(3) {
                    0 => {
                        tx.transmit(Observation::observed_now(l, n));
                        Val::Count(n)
                    }
                    1 => {
                        tx.transmit(Observation::observed_one_now(l));
                        Val::One
                    }
                    _ => {
                        tx.transmit(Observation::observed_one_value_now(l, metrix::ChangeBy(n as i64)));
                        Val::C(n as i64)
                    }
                }
            }
            12 => {
                // from the past or right now
                let back = match r.below(3) {
                    0 => Duration::ZERO,
                    1 => Duration::from_nanos(r.below(1 << 40)),
                    _ => Duration::from_nanos(r.next() >> (2 + r.below(62))),
                };
                let from = before.checked_sub(back).unwrap_or(before);
                measured = Some(from);
                fixed = false;
                tx.measure_time(l, from);
                Val::One
            }
            _ => {
                // from the future: nothing
                let from = before + Duration::from_nanos(1_000_000 + (r.next() >> (4 + r.below(60))));
                tx.measure_time(l, from);
                continue;
            }
        };
        let after = Instant::now();
        let (lo, hi) = if fixed { (ts, ts) } else { (before, after) };
        if let Some(from) = measured {
            let (dlo, dhi) = ((before - from).as_nanos() as u64, (after - from).as_nanos() as u64);
            p.process(1_000, ALL);
            let got = log.lock().unwrap().last().cloned();
            match got {
                Some(Ob { val: Val::D(x, 0), ts, .. }) if x >= dlo && x <= dhi => {
                    // the timestamp is the end of what was measured
                    c.check(ts - from == Duration::from_nanos(x), || format!("measured {} ns until {:?} after {:?}", x, ts, from));
                    want.push((l, Val::D(x, 0), lo, hi));
                }
                o => c.fail(format!("measure_time gave {:?}, expected between {} and {} ns", o, dlo, dhi)),
            }
        } else {
            want.push((l, val, lo, hi));
        }
    }
    p.process(1_000, ALL);
    let got = log.lock().unwrap().clone();
    c.eq(got.len(), want.len(), || format!("number of observations after {}", trace));
    for (g, w) in got.iter().zip(&want) {
        c.check(g.label == w.0 && g.val == w.1 && g.ts >= w.2 && g.ts <= w.3, || format!("observed {:?}, expected {:?} after {}", g, w, trace));
        let o = g.to();
        let lu = metrix::instruments::LabelAndUpdate::from(g.to());
        let bu = metrix::instruments::BorrowedLabelAndUpdate::from(&o);
        for (label, u) in [(lu.0, &lu.1), (*bu.0, &bu.1)] {
            let ts = match u {
                Update::Observation(t) | Update::Observations(_, t) | Update::ObservationWithValue(_, t) => *t,
            };
            c.check(label == g.label && Val::of_update(u) == g.val && ts == g.ts, || format!("{:?} as an update is {:?}", g, u));
            let value = u.observed_value().map(Val::of_value);
            c.check(value == if g.val.value().is_some() { Some(g.val) } else { None }, || format!("observed value of {:?} is {:?}", u, value));
        }
        let like: &dyn metrix::ObservationLike = &o;
        c.check(like.is_delta() == g.val.is_delta() && like.timestamp() == g.ts && o.timestamp() == g.ts && *o.label() == g.label, || format!("{:?}", o));
    }
    count("observations", got.len() as u64);
    c.sig(&trace);
    c.sample(|| trace.clone());
}
