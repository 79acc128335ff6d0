//! The exploration engine: exhaustive index spaces over worker threads, guarded calls of the parser,
//! a watchdog, violations with replays, known findings and evidence.
use crate::alloc;
use crate::clock;
use crate::obs::{self, Out};
use nmea_parser::NmeaParser;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::Instant;

pub const VERIF: &str = env!("CARGO_MANIFEST_DIR");
pub fn verif_dir() -> std::path::PathBuf { std::path::Path::new(VERIF).parent().unwrap().to_path_buf() }

// ------------------------------------------------------------------------------------ call slots

pub const SLOTS: usize = 64;
pub const SLOT_SIZE: usize = 8192;
const HDR: usize = 24;
static SLOT_BASE: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Maps the shared slot file: what every thread is doing survives the death of the process.
pub fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slot file");
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT_SIZE, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize > 0, "mmap");
    SLOT_BASE.store(p as u64, SeqCst);
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
}
static NEXT_SLOT: AtomicU64 = AtomicU64::new(0);

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, SeqCst) as usize % SLOTS);
        }
        s.get()
    })
}

fn enter(s: &str) {
    let b = SLOT_BASE.load(Relaxed);
    if b != 0 {
        let base = b as usize + slot() * SLOT_SIZE;
        unsafe {
            let n = s.len().min(SLOT_SIZE - HDR);
            std::ptr::copy_nonoverlapping(s.as_ptr(), (base + HDR) as *mut u8, n);
            let h = base as *mut u64;
            h.add(1).write_volatile(h.add(1).read_volatile() + 1);
            h.add(2).write_volatile(s.len() as u64);
            h.write_volatile(1);
        }
    }
    IN_CALL.with(|c| c.set(true));
    alloc::enter();
}
fn leave() {
    alloc::leave();
    IN_CALL.with(|c| c.set(false));
    let b = SLOT_BASE.load(Relaxed);
    if b != 0 {
        unsafe { ((b as usize + slot() * SLOT_SIZE) as *mut u64).write_volatile(0) }
    }
}

/// What each thread that is inside the code under test is parsing: (slot, call number, sentence).
pub fn in_flight(mem: &[u8]) -> Vec<(usize, u64, String)> {
    let mut v = vec![];
    for i in 0..SLOTS {
        let m = &mem[i * SLOT_SIZE..(i + 1) * SLOT_SIZE];
        let w = |k: usize| u64::from_le_bytes(m[k * 8..k * 8 + 8].try_into().unwrap());
        if w(0) == 1 {
            let n = (w(2) as usize).min(SLOT_SIZE - HDR);
            v.push((i, w(1), String::from_utf8_lossy(&m[HDR..HDR + n]).to_string()));
        }
    }
    v
}

/// One guarded call of the code under test, including the public accessors and the drop of the result.
pub fn feed(p: &mut NmeaParser, s: &str) -> Out {
    guarded(s, || obs::flatten_result(p.parse_sentence(s)))
}
/// As `feed`, but only the class of the outcome (no flattening cost).
pub fn feed_class(p: &mut NmeaParser, s: &str) -> u8 {
    let r = {
        enter(s);
        let r = catch_unwind(AssertUnwindSafe(|| match p.parse_sentence(s) {
            Ok(nmea_parser::ParsedSentence::Incomplete) => 1u8,
            Ok(_) => 2,
            Err(_) => 0,
        }));
        leave();
        r
    };
    r.unwrap_or(9)
}
pub fn guarded(s: &str, f: impl FnOnce() -> Out) -> Out {
    enter(s);
    let r = catch_unwind(AssertUnwindSafe(f));
    leave();
    match r {
        Ok(o) => o,
        Err(e) => Out::Panic(
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default(),
        ),
    }
}

pub fn fresh(s: &str) -> Out { feed(&mut NmeaParser::new(), s) }

pub fn silence_panics() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_CALL.with(|c| c.get()) { def(i) }
    }));
}

/// Reports a call that does not return (a hang) and ends the process.
pub fn start_watchdog(id: String, secs: u64) {
    std::thread::spawn(move || {
        let b = SLOT_BASE.load(SeqCst) as usize;
        if b == 0 { return; }
        let mut last = vec![(0u64, 0u64); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for i in 0..SLOTS {
                let h = (b + i * SLOT_SIZE) as *const u64;
                let (on, n, len) = unsafe { (h.read_volatile(), h.add(1).read_volatile(), h.add(2).read_volatile()) };
                if on == 1 && n == last[i].0 {
                    last[i].1 += 1;
                    if last[i].1 >= secs {
                        let l = (len as usize).min(SLOT_SIZE - HDR);
                        let s = unsafe { std::slice::from_raw_parts((b + i * SLOT_SIZE + HDR) as *const u8, l) };
                        let s = String::from_utf8_lossy(s).to_string();
                        let v = Viol { label: "hang".into(), idx: 0, steps: vec![Step::new(&s)],
                            expected: "an answer".into(), observed: format!("no answer within {} s", secs),
                            note: "the last sentence of the history; a call did not return".into() };
                        let path = write_replay(&id, &v);
                        println!("VIOLATION property={} replay={}", id, path);
                        std::process::exit(1);
                    }
                } else {
                    last[i] = (n, 0);
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------ violations

#[derive(Clone, Debug)]
pub struct Step { pub parser: u8, pub clock: Option<i64>, pub s: String }
impl Step {
    pub fn new(s: &str) -> Step { Step { parser: 0, clock: None, s: s.to_string() } }
    pub fn at(s: &str, clock: Option<i64>) -> Step { Step { parser: 0, clock, s: s.to_string() } }
}
#[derive(Clone, Debug)]
pub struct Viol { pub label: String, pub idx: u64, pub steps: Vec<Step>, pub expected: String, pub observed: String, pub note: String }

fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }

pub fn write_replay(id: &str, v: &Viol) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let name: String = v.label.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(60).collect();
    let path = dir.join(format!("{}-{}.txt", id, name));
    let mut t = format!("# property {}\n# label {}\n# expected {}\n# observed {}\n# note {}\n# run: harness/target/release/mc replay {}\n",
        id, v.label, one_line(&v.expected), one_line(&v.observed), one_line(&v.note), path.display());
    for s in &v.steps {
        t.push_str(&format!("# {:?}\nstep {} {} {}\n", clip(&s.s, 400), s.parser, s.clock.map_or("-".into(), |c| c.to_string()), hex(&s.s)));
    }
    let _ = std::fs::write(&path, t);
    path.display().to_string()
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n { s.chars().take(n).collect::<String>() + "..." } else { s.to_string() }
}
fn one_line(s: &str) -> String { clip(&s.replace('\n', " "), 3000) }

pub fn replay(path: &str) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut ps: Vec<NmeaParser> = (0..4).map(|_| NmeaParser::new()).collect();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("step ") {
            let w: Vec<&str> = r.split(' ').collect();
            let p: usize = w[0].parse().unwrap();
            clock::set(w[1].parse().ok());
            let h = w.get(2).copied().unwrap_or("");
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            let s = String::from_utf8(b).unwrap();
            let o = feed(&mut ps[p], &s);
            println!("parser {} clock {} <- {:?}\n    {}", p, w[1], clip(&s, 400), o.short());
        } else if l.starts_with('#') && !l.starts_with("# \"") {
            println!("{}", l);
        }
    }
}

// ------------------------------------------------------------------------------------ known findings

/// Keys of `known:` lines: (property, key).
pub fn load_known() -> BTreeSet<(String, String)> {
    let mut s = BTreeSet::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut p = None;
                let mut k = None;
                for w in r.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") { p = Some(x.to_string()) }
                    if let Some(x) = w.strip_prefix("key=") { k = Some(x.to_string()) }
                }
                if let (Some(p), Some(k)) = (p, k) { s.insert((p, k)); }
            }
        }
    }
    s
}

// ------------------------------------------------------------------------------------ run

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub all: bool,
    pub t0: Instant,
    pub known: BTreeSet<(String, String)>,
    pub evals: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub calls: u64,
    pub distinct: Vec<u64>,
    pub distinct_n: u64,
    pub viols: BTreeMap<String, Viol>,
    pub known_hits: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
    pub sections: Vec<(String, u64, f64)>,
    pub outs: [u64; 4],
    pub notes: Vec<String>,
}

pub struct Ctx<'a> {
    pub run: &'a Run,
    pub idx: u64,
    pub evals: u64,
    pub transitions: u64,
    pub traces: u64,
    pub calls: u64,
    distinct: Vec<u64>,
    pub distinct_n: u64,
    pub viols: BTreeMap<String, Viol>,
    pub known_hits: BTreeMap<String, (u64, String)>,
    pub samples: Vec<(u64, String)>,
    pub outs: [u64; 4],
    bad: bool,
    pub base: Option<i64>,
}

const DISTINCT_CAP: usize = 24_000_000;

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(x) ^ (c.len() as u64) << 56).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}

impl<'a> Ctx<'a> {
    fn new(run: &'a Run) -> Ctx<'a> {
        Ctx { run, idx: 0, base: None, evals: 0, transitions: 0, traces: 0, calls: 0, distinct: vec![], distinct_n: 0,
            viols: BTreeMap::new(), known_hits: BTreeMap::new(), samples: vec![], outs: [0; 4], bad: false }
    }
    /// Counts one case whose identity is `key` (for the number of distinct non-trivial cases).
    pub fn case(&mut self, nontrivial: bool, key: &[&str]) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < DISTINCT_CAP / 8 {
            let mut h = 0x1234567;
            for k in key { h = hash_bytes(h, k.as_bytes()); h = h.wrapping_add(1); }
            self.distinct.push(h);
        }
    }
    pub fn case_at(&mut self, nontrivial: bool, key: &[&str], now: i64) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < DISTINCT_CAP / 8 {
            let mut h = hash_bytes(0x1234567, &now.to_le_bytes());
            for k in key { h = hash_bytes(h, k.as_bytes()); h = h.wrapping_add(1); }
            self.distinct.push(h);
        }
    }
    pub fn tally(&mut self, o: &Out) {
        self.outs[match o { Out::Panic(_) => 0, Out::Err(_) => 1, Out::Incomplete => 2, Out::Data(_) => 3 }] += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 1 { let i = self.idx; self.samples.push((i, f())); }
    }
    pub fn violate(&mut self, label: &str, steps: Vec<Step>, expected: String, observed: String, note: String) {
        self.bad = true;
        let idx = self.idx;
        self.viols.entry(label.to_string()).or_insert_with(|| Viol { label: label.to_string(), idx, steps, expected, observed, note });
    }
    /// A mismatch that equals the listed faulty behaviour `key` is a known finding, not a violation.
    pub fn known(&mut self, key: &str, text: impl FnOnce() -> String) -> bool {
        if self.run.known.contains(&(self.run.id.clone(), key.to_string())) {
            match self.known_hits.get_mut(key) {
                Some(e) => e.0 += 1,
                None => { self.known_hits.insert(key.to_string(), (1, text())); }
            }
            true
        } else {
            false
        }
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16)
}

impl Run {
    pub fn new(id: &str, thorough: bool, seed: u64) -> Run {
        Run { id: id.into(), thorough, seed, all: std::env::var("MC_ALL").is_ok(), t0: Instant::now(), known: load_known(),
            evals: 0, states: 0, transitions: 0, traces: 0, calls: 0, distinct: vec![], distinct_n: 0, viols: BTreeMap::new(),
            known_hits: BTreeMap::new(), samples: vec![], sections: vec![], outs: [0; 4], notes: vec![] }
    }
    pub fn stop(&self) -> bool { !self.all && !self.viols.is_empty() }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }

    /// Runs f for every index below n, on all cores; the smallest violating index wins.
    pub fn par(&mut self, name: &str, n: u64, f: impl Fn(&mut Ctx, u64) + Sync) {
        if self.stop() || n == 0 { return; }
        let t = Instant::now();
        let nt = threads();
        let next = AtomicU64::new(0);
        let minv = AtomicU64::new(u64::MAX);
        let chunk = (n / (nt as u64 * 32)).clamp(1, 2048);
        let run: &Run = self;
        let quit = AtomicBool::new(false);
        let ctxs: Vec<Ctx> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nt).map(|_| {
                sc.spawn(|| {
                    let mut ctx = Ctx::new(run);
                    'o: loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n || quit.load(Relaxed) || a > minv.load(Relaxed) { break; }
                        for i in a..(a + chunk).min(n) {
                            ctx.idx = i;
                            f(&mut ctx, i);
                            if ctx.bad && !run.all {
                                minv.fetch_min(i, Relaxed);
                                break 'o;
                            }
                        }
                    }
                    ctx
                })
            }).collect();
            hs.into_iter().map(|h| match h.join() { Ok(c) => c, Err(_) => { eprintln!("engine thread failed"); std::process::exit(2) } }).collect()
        });
        let mut parts = vec![];
        for c in ctxs {
            parts.push((c.evals, c.transitions, c.traces, c.calls, c.distinct, c.distinct_n, c.viols, c.known_hits, c.samples, c.outs));
        }
        let mut ev = 0;
        let mut samples = vec![];
        for (e, tr, tc, ca, d, dn, v, k, s, o) in parts {
            ev += e;
            self.transitions += tr;
            self.traces += tc;
            self.calls += ca;
            self.distinct_n += dn;
            if self.distinct.len() < DISTINCT_CAP { self.distinct.extend(d); }
            for (l, x) in v {
                match self.viols.get(&l) {
                    Some(y) if y.idx <= x.idx => {}
                    _ => { self.viols.insert(l, x); }
                }
            }
            for (l, x) in k {
                let e = self.known_hits.entry(l).or_insert((0, x.1));
                e.0 += x.0;
            }
            samples.extend(s);
            for i in 0..4 { self.outs[i] += o[i]; }
        }
        samples.sort();
        if let Some(s) = samples.into_iter().next() { if self.samples.len() < 12 { self.samples.push(format!("{}: {}", name, s.1)); } }
        self.evals += ev;
        self.sections.push((name.to_string(), ev, t.elapsed().as_secs_f64()));
        if !self.all && self.viols.len() > 1 {
            let best = self.viols.values().min_by_key(|v| v.idx).unwrap().clone();
            self.viols.clear();
            self.viols.insert(best.label.clone(), best);
        }
    }
}

// ------------------------------------------------------------------------------------ evidence

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Meta { pub level: &'static str, pub rule: &'static str, pub assumptions: &'static [&'static str], pub exhaustive: bool }

impl Run {
    pub fn finish(mut self, meta: &Meta) -> i32 {
        self.distinct.sort_unstable();
        self.distinct.dedup();
        let distinct = self.distinct.len() as u64 + self.distinct_n;
        let mut c: Vec<String> = vec![];
        if meta.level == "model_checking" {
            c.push(format!("\"states\": {}", self.states));
            c.push(format!("\"transitions\": {}", self.transitions));
            c.push(format!("\"traces_validated_against_impl\": {}", self.traces));
        }
        c.push(format!("\"evaluations\": {}", self.evals));
        c.push(format!("\"distinct_nontrivial\": {}", distinct));
        c.push(format!("\"rule\": {}", jstr(meta.rule)));
        c.push(format!("\"exhaustive\": {}", meta.exhaustive && self.viols.is_empty()));
        c.push(format!("\"outcomes\": {{\"panic\": {}, \"error\": {}, \"incomplete\": {}, \"data\": {}}}", self.outs[0], self.outs[1], self.outs[2], self.outs[3]));
        c.push(format!("\"sections\": [{}]", self.sections.iter().map(|(n, e, t)| format!("{{\"name\": {}, \"evaluations\": {}, \"wall_s\": {:.3}}}", jstr(n), e, t)).collect::<Vec<_>>().join(", ")));
        c.push(format!("\"samples\": [{}]", self.samples.iter().map(|s| jstr(&clip(s, 600))).collect::<Vec<_>>().join(", ")));
        if !self.notes.is_empty() {
            c.push(format!("\"notes\": [{}]", self.notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
        }
        if !self.known_hits.is_empty() {
            c.push(format!("\"known_findings_met\": [{}]", self.known_hits.iter().map(|(k, v)| format!("{{\"key\": {}, \"cases\": {}, \"example\": {}}}", jstr(k), v.0, jstr(&v.1))).collect::<Vec<_>>().join(", ")));
        }
        let j = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            jstr(&self.id), jstr(if self.thorough { "thorough" } else { "quick" }), self.seed, jstr(meta.level), c.join(",\n  "),
            meta.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "), self.t0.elapsed().as_secs_f64(), self.viols.len());
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), j).expect("evidence");
        for (n, e, t) in &self.sections { println!("  {:<44} {:>12} cases {:>8.2} s", n, e, t); }
        if meta.level == "model_checking" {
            println!("  states {} transitions {} traces {}", self.states, self.transitions, self.traces);
        }
        println!("  evaluations {} distinct {} wall {:.1} s", self.evals, distinct, self.t0.elapsed().as_secs_f64());
        for (k, v) in &self.known_hits {
            println!("KNOWN-FINDING: property={} {} ({} cases, e.g. {})", self.id, k, v.0, v.1);
        }
        let mut rc = 0;
        for v in self.viols.values() {
            let path = write_replay(&self.id, v);
            println!("  [{}] expected {} observed {} {}", v.label, clip(&v.expected, 300), clip(&v.observed, 300), clip(&v.note, 200));
            for s in v.steps.iter().rev().take(4).collect::<Vec<_>>().into_iter().rev() { println!("      {:?} clock {:?}", clip(&s.s, 200), s.clock); }
            println!("VIOLATION property={} replay={}", self.id, path);
            rc = 1;
        }
        if rc == 0 { println!("OK property={}", self.id); }
        rc
    }
}
