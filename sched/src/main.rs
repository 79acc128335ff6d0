//! Controlled scheduler: all interleavings, up to a preemption bound, of two calls of the real parser on two
//! threads. The crate under test is compiled so that every control-flow edge and every load and store of
//! static memory calls back here; each callback is a point at which the scheduler may switch threads.
//! Static memory that is only read makes calls of different parsers independent: then one schedule per pair would
//! do, all others are equivalent to it. That it is only read is observed, but all schedules with one preemption are
//! run anyway (lock operations and heap memory behind statics are not observed as stores).
//! First use: the same in processes forked before anything was parsed, one per schedule, so that what is set up at the
//! first call (lazily, once per process) is set up in the schedule itself (`sched fresh`).
//! Work: `sched work` counts the edges one call executes (sentences from standard input, see `work`).
//! `sched one A B I J` repeats one schedule, `sched fresh A B I J` one of a new process. `sched [0|1]` prints `key value` lines for the checker, and for a wrong answer
//! `bad <tab>label<tab>expected<tab>observed<tab>note<tab>thread sentence...`.
#[path = "../../harness/src/clock.rs"]
mod clock;
use nmea_parser::NmeaParser;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const NOW: i64 = 1_605_788_686;
/// More edges than this in one call (in one that only piles up parts: WAITING) are taken for a call that does not end.
const RUNAWAY: u64 = 60_000_000;
const WAITING: u64 = 4_000_000;

// ------------------------------------------------------------------------------------ points

#[derive(Clone, Copy, PartialEq)]
enum Mode { Off, Count, Run, Work }

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static N: Cell<u64> = const { Cell::new(0) };
    static TARGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static PAIR: Cell<*const Pair> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<u32> = const { Cell::new(0) };
    /// Only these accesses are points: (edges and all static accesses, static stores seen, static loads seen)
    static SEEN: Cell<(u64, u64, u64)> = const { Cell::new((0, 0, 0)) };
}

extern "C" { static __data_start: u8; static _end: u8; }
#[inline]
fn is_static(a: usize) -> bool {
    let (s, e) = unsafe { (&__data_start as *const u8 as usize, &_end as *const u8 as usize) };
    a >= s && a < e
}

#[inline]
fn point() {
    let n = N.with(|c| { let n = c.get(); c.set(n + 1); n });
    if n == TARGET.with(|t| t.get()) {
        MODE.with(|m| m.set(Mode::Off));
        let p = unsafe { &*PAIR.with(|p| p.get()) };
        let me = ME.with(|m| m.get());
        p.switches.fetch_add(1, Relaxed);
        p.turn.store(1 - me, SeqCst);
        p.wait(me);
        MODE.with(|m| m.set(Mode::Run));
    }
}
#[inline]
fn access(addr: usize, store: bool) {
    let mode = match MODE.try_with(|m| m.get()) { Ok(m) => m, Err(_) => return };
    if mode == Mode::Off || mode == Mode::Work || !is_static(addr) { return; }
    if mode == Mode::Count { SEEN.with(|s| { let mut v = s.get(); if store { v.1 += 1 } else { v.2 += 1 } s.set(v) }); }
    point();
}
macro_rules! callbacks { ($($n:ident $store:expr),*) => { $(#[no_mangle] pub extern "C" fn $n(a: *const u8) { access(a as usize, $store) })* } }
callbacks!(__sanitizer_cov_load1 false, __sanitizer_cov_load2 false, __sanitizer_cov_load4 false, __sanitizer_cov_load8 false, __sanitizer_cov_load16 false,
    __sanitizer_cov_store1 true, __sanitizer_cov_store2 true, __sanitizer_cov_store4 true, __sanitizer_cov_store8 true, __sanitizer_cov_store16 true);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    if let Ok(m) = MODE.try_with(|m| m.get()) {
        if m == Mode::Work {
            let n = N.with(|c| { let n = c.get() + 1; c.set(n); n });
            if n > TARGET.with(|t| t.get()) { println!("runaway"); std::process::exit(0); }
            return;
        }
        if m == Mode::Count { SEEN.with(|s| { let mut v = s.get(); v.0 += 1; s.set(v) }); }
        if m != Mode::Off { point() }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

// ------------------------------------------------------------------------------------ two threads

struct Job { prefix: Vec<String>, call: String, rest: Vec<String>, target: u64 }

struct Pair {
    turn: AtomicU32,
    /// The other thread is blocked inside its call: both run on, uncontrolled.
    free: AtomicBool,
    done: AtomicBool,
    quit: AtomicBool,
    switches: AtomicU64,
    blocked: AtomicU64,
    job: Mutex<Option<Job>>,
    out: Mutex<Option<(Vec<String>, u64)>>,
}
impl Pair {
    /// Waits for the turn. If it does not come the other thread waits for something this one holds: both run on.
    fn wait(&self, me: u32) {
        let mut k = 0u32;
        let t = Instant::now();
        while self.turn.load(SeqCst) != me && !self.free.load(SeqCst) {
            k += 1;
            if k < 200 { std::hint::spin_loop() } else { std::thread::yield_now() }
            if k % 256 == 0 && t.elapsed() > Duration::from_millis(10) {
                self.blocked.fetch_add(1, Relaxed);
                self.free.store(true, SeqCst);
            }
        }
    }
}

fn call(p: &mut NmeaParser, s: &str) -> String {
    match catch_unwind(AssertUnwindSafe(|| p.parse_sentence(s))) {
        Ok(Ok(r)) => format!("{:?}", r),
        Ok(Err(_)) => "error".into(),
        Err(_) => "PANIC".into(),
    }
}
/// The observed call, with points; its answer and the number of points passed.
fn observed(p: &mut NmeaParser, s: &str, mode: Mode, target: u64) -> (String, u64) {
    N.with(|n| n.set(0));
    TARGET.with(|t| t.set(target));
    let r = {
        MODE.with(|m| m.set(mode));
        let r = catch_unwind(AssertUnwindSafe(|| p.parse_sentence(s)));
        MODE.with(|m| m.set(Mode::Off));
        r
    };
    let o = match r { Ok(Ok(r)) => format!("{:?}", r), Ok(Err(_)) => "error".into(), Err(_) => "PANIC".into() };
    (o, N.with(|n| n.get()))
}

fn partner(p: Arc<Pair>) {
    clock::set(Some(NOW));
    PAIR.with(|c| c.set(&*p));
    ME.with(|m| m.set(1));
    loop {
        while p.turn.load(SeqCst) != 1 || p.done.load(SeqCst) {
            if p.quit.load(SeqCst) { return; }
            for _ in 0..50 { std::hint::spin_loop() }
            if p.turn.load(SeqCst) != 1 { std::thread::yield_now(); }
        }
        let Some(j) = p.job.lock().unwrap().take() else { std::thread::yield_now(); continue };
        let mut q = NmeaParser::new();
        let mut v: Vec<String> = j.prefix.iter().map(|s| call(&mut q, s)).collect();
        let (o, n) = observed(&mut q, &j.call, Mode::Run, j.target);
        v.push(o);
        v.extend(j.rest.iter().map(|s| call(&mut q, s)));
        *p.out.lock().unwrap() = Some((v, n));
        p.done.store(true, SeqCst);
        p.turn.store(0, SeqCst);
    }
}
/// One schedule: thread 0 is preempted at its point i, thread 1 at its point j.
/// Answers of both and whether both points were reached.
fn schedule(p: &Pair, a: &Case, b: &Case, i: u64, j: u64) -> ([Vec<String>; 2], bool) {
    p.free.store(false, SeqCst);
    p.done.store(false, SeqCst);
    *p.out.lock().unwrap() = None;
    *p.job.lock().unwrap() = Some(Job { prefix: b.prefix.clone(), call: b.call.clone(), rest: b.rest.clone(), target: j });
    let mut q = NmeaParser::new();
    let mut v: Vec<String> = a.prefix.iter().map(|s| call(&mut q, s)).collect();
    let (o, n) = observed(&mut q, &a.call, Mode::Run, i);
    v.push(o);
    if !p.done.load(SeqCst) {
        p.turn.store(1, SeqCst);
        let t = Instant::now();
        let mut k = 0u32;
        while !p.done.load(SeqCst) {
            // the partner may hand back at its own point after this call ended
            if p.turn.load(SeqCst) == 0 && !p.done.load(SeqCst) { p.turn.store(1, SeqCst); }
            k += 1;
            if k > 200 { std::thread::yield_now(); } else { std::hint::spin_loop() }
            if k % 4096 == 0 && t.elapsed() > Duration::from_secs(20) { return ([vec!["no answer within 20 s".into()], vec![]], false); }
        }
    }
    v.extend(a.rest.iter().map(|s| call(&mut q, s)));
    let (w, m) = p.out.lock().unwrap().take().unwrap_or_default();
    p.turn.store(0, SeqCst);
    ([v, w], n > i && (j == u64::MAX || m > j))
}

// ------------------------------------------------------------------------------------ histories

#[derive(Clone)]
struct Case { name: &'static str, prefix: Vec<String>, call: String, rest: Vec<String> }

fn with_checksum(s: &str) -> String { format!("{}*{:02X}", s, s.bytes().skip(1).fold(0u8, |a, b| a ^ b)) }

/// The same shapes with two contents, one for each thread.
fn cases(t: usize) -> Vec<Case> {
    let pick = |a: &[&str; 2]| a[t].to_string();
    let mut v = vec![];
    let mut one = |name: &'static str, s: [&str; 2]| v.push(Case { name, prefix: vec![], call: with_checksum(&pick(&s)), rest: vec![] });
    one("t1", ["!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "!BSVDM,1,1,,B,38Id705000rRVJhE7cl9n;160000,0"]);
    one("t4", ["!AIVDM,1,1,,A,402=481uaUcf;OQ55JS9ITi025Jp,0", "!ABVDO,1,1,,B,402R3WiuH;b?;ri2Uo:Wcl?02<1d,0"]);
    one("t5", ["!AIVDM,1,1,1,A,55P5TL01VIaAL@7WKO@mBplU@<PDhh000000001S;AJ::4A80?4i@E531@0000000000000,2", "!AIVDO,1,1,4,B,53nFBv01SJ<thHp6220H4heHTf2222222222221?50:454o<`9QSlUDp088888888888880,2"]);
    one("t6", ["!AIVDM,1,1,4,B,6B?n;be:cbapalgc;i6?Ow4,2", "!AIVDM,1,1,4,A,6>jR0600V:C0>da4P106P00,2"]);
    one("t9", ["!AIVDM,1,1,,B,91b55wi;hbOS@OdQAC062Ch2089h,0", "!AIVDM,1,1,,A,91b77=h3h00nHt0Q3r@@07000<0b,0"]);
    one("t18", ["!AIVDM,1,1,,A,B6CdCm0t3`tba35f@V9faHi7kP06,0", "!AIVDO,1,1,,B,B5NJ;PP005l4ot5Isbl03wsUkP06,0"]);
    one("t21", ["!AIVDM,1,1,,B,E>lt;,0", "!AIVDM,1,1,,A,ENk`sR9`92ah97PR9h0W1T@1@@@=MTpS<7GFP00003vP000,2"]);
    one("t27", ["!AIVDM,1,1,,B,K815>P8=5EikdUet,0", "!AIVDM,1,1,,B,KC5E2b@U19PFdLbM,0"]);
    one("GGA", ["$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "$GLGGA,223520,2806.039,S,11032.001,W,2,07,1.9,145.4,M,-6.9,M,3,0120"]);
    one("RMC", ["$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "$GARMC,115447,V,1915.44,S,02312.13,E,100.6,154.8,010221,010.2,W"]);
    one("GSA", ["$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3", "$GLGSA,M,2,1,2,3,,,,,,,,,,2.7,2.0,2.3"]);
    one("VTG", ["$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K", "$BDVTG,154.8,T,134.5,M,015.6,N,110.3,K,A"]);
    one("GLL", ["$GPGLL,4916.45,N,12311.12,W,225444,A,D", "$QZGLL,1917.46,S,02312.13,E,115445,V,N"]);
    one("GSV", ["$GPGSV,1,1,02,11,22,033,44,12,23,034,45", "$GLGSV,1,1,01,77,66,155,33"]);
    // against the same kind with nothing in it, both ways round
    for (name, full, empty) in [("GGA full/empty", "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,4,0120", "$GLGGA,,,,,,0,,,,,,,,"),
        ("RMC full/empty", "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E,A", "$GARMC,,V,,,,,,,,,"),
        ("GSA full/empty", "$GPGSA,A,3,19,28,14,18,27,22,31,39,1,2,3,4,1.7,1.0,1.3", "$GLGSA,A,1,,,,,,,,,,,,,,,"),
        ("VTG full/empty", "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,D", "$BDVTG,,,,,,,,"),
        ("GLL full/empty", "$GPGLL,4916.45,N,12311.12,W,225444,A,D", "$QZGLL,,,,,,V,N"),
        ("GSV full/empty", "$GPGSV,1,1,04,11,22,033,44,12,23,034,45,13,24,035,46,14,25,036,47", "$GLGSV,1,1,00"),
        ("t1 full/empty", "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "!BSVDO,1,1,,B,15RTgt?P00w4TPHDCh00Q?v<0000,0")] {
        one(name, [full, empty]);
        one(name, [empty, full]);
    }
    one("wrong checksum", ["!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "$GPGLL,4916.45,N,12311.12,W,225444,A,D"]);
    one("unsupported", ["$GPZDA,1,2,3", "!AIVDM,1,1,,A,85Mwp`1Kf3aCnsNvBWLi=wQuNhA5t43N`5nCuI=p<IBfVqnMgPGs,0"]);
    one("no checksum", ["$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K", "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0"]);
    let n = v.len();
    v[n - 3].call = format!("{}*00", v[n - 3].call.split('*').next().unwrap());
    v[n - 1].call = v[n - 1].call.split('*').next().unwrap().to_string();
    // multi-part: each sentence of the history is once the one that is interleaved
    let mut multi = |name: &'static str, h: Vec<String>| for k in 0..h.len() {
        v.push(Case { name, prefix: h[..k].to_vec(), call: h[k].clone(), rest: h[k + 1..].to_vec() });
    };
    let p5 = ["55P5TL01VIaAL@7WKO@mBplU@<PDhh000000001S;AJ::4A80?4i@E531@0000000000000", "53nFBv01SJ<thHp6220H4heHTf2222222222221?50:454o<`9QSlUDp088888888888880"][t];
    // the two threads use the same key: what waits in one parser must not be seen by the other
    multi("two parts", vec![format!("!AIVDM,2,1,7,A,{},0", &p5[..30 + t]), format!("!AIVDM,2,2,7,A,{},2", &p5[30 + t..])]);
    multi("two parts reversed", vec![format!("!AIVDM,2,2,7,A,{},2", &p5[33 + t..]), format!("!AIVDM,2,1,7,A,{},0", &p5[..33 + t])]);
    let (a, b) = ([["H42O55i18tMET00000000000000", "H42O55lt0000000D3nink000?0500"], ["H42O55i18tLFU11111110000000", "H42O55lu0000000D3njjk000?0600"]])[t].into();
    multi("t24", vec![format!("!AIVDM,1,1,,A,{},2", a), format!("!AIVDM,1,1,,B,{},2", b)]);
    multi("GSV of 2", (1..=2).map(|k| format!("$GPGSV,2,{},08,{:02},11,222,33,{:02},12,223,34", k, 10 * t + k, 20 + 10 * t + k)).collect());
    v
}

fn explore(deep: usize, part: usize, of: usize, one: Option<(usize, usize, u64, u64)>) {
    std::panic::set_hook(Box::new(|_| {}));
    clock::set(Some(NOW));
    let (ca, cb) = (cases(0), cases(1));
    // Sequential answers, twice (the first run initialises what is lazily initialised), and what static memory is touched
    let mut exp: [Vec<Vec<String>>; 2] = [vec![], vec![]];
    let mut points: [Vec<u64>; 2] = [vec![], vec![]];
    let (mut edges, mut stores, mut loads) = (0, 0, 0);
    for (k, cs) in [&ca, &cb].iter().enumerate() {
        for c in cs.iter() {
            for round in 0..2 {
                let mut q = NmeaParser::new();
                let mut v: Vec<String> = c.prefix.iter().map(|s| call(&mut q, s)).collect();
                SEEN.with(|s| s.set((0, 0, 0)));
                let (o, n) = observed(&mut q, &c.call, Mode::Count, u64::MAX);
                v.push(o);
                v.extend(c.rest.iter().map(|s| call(&mut q, s)));
                let s = SEEN.with(|s| s.get());
                edges += s.0; stores += s.1; loads += s.2;
                if round == 1 { exp[k].push(v); points[k].push(n); }
            }
        }
    }
    println!("calls {}", ca.len() + cb.len());
    println!("edges {}\nstatic_stores {}\nstatic_loads {}", edges / 2, stores, loads / 2);
    println!("points {}", points.iter().flatten().sum::<u64>());
    // The quick tier takes equal shapes and a third of the other pairs, unless static memory is written in calls:
    // then every pair, with two preemptions.
    let nb = cb.len();
    let mut pairs: Vec<(usize, usize)> = (0..ca.len()).flat_map(|a| (0..nb).map(move |b| (a, b))).filter(|(a, b)| deep >= 1 || stores > 0 || a == b || (a + 2 * b) % 5 == 0 && !ca[*a].name.contains('/') && !cb[*b].name.contains('/')).collect();
    pairs.sort_by_key(|(a, b)| (a != b, *a, *b));
    let budget = Duration::from_secs([40, 500][deep.min(1)]);
    let t0 = Instant::now();
    let (mut n1, mut n2, mut cut) = (0u64, 0u64, 0u64);
    let mut bad = String::new();
    let p = Arc::new(Pair { turn: AtomicU32::new(0), free: AtomicBool::new(false), done: AtomicBool::new(true), quit: AtomicBool::new(false),
        switches: AtomicU64::new(0), blocked: AtomicU64::new(0), job: Mutex::new(None), out: Mutex::new(None) });
    let h = { let p = p.clone(); std::thread::spawn(move || partner(p)) };
    PAIR.with(|c| c.set(&*p));
    ME.with(|m| m.set(0));
    if let Some((a, b, i, j)) = one {
        let r = schedule(&p, &ca[a], &cb[b], i, j);
        for (w, c) in [&ca[a], &cb[b]].iter().enumerate() {
            for (k, s) in c.prefix.iter().chain([&c.call]).chain(&c.rest).enumerate() { println!("thread {} {}\n    alone       {}\n    interleaved {}", w, s, exp[w][[a, b][w]][k], r.0[w].get(k).cloned().unwrap_or_default()); }
        }
        std::process::exit(0);
    }
    // one preemption everywhere first, then two
    for bound in 1..=2 {
        for (k, &(a, b)) in pairs.iter().enumerate() {
            if k % of != part || !bad.is_empty() { continue; }
            let mut judge = |r: &([Vec<String>; 2], bool), i: u64, j: u64| -> bool {
                if r.0[0] == exp[0][a] && r.0[1] == exp[1][b] { return true; }
                let w = if r.0[0] == exp[0][a] { 1 } else { 0 };
                let (e, c) = ([&exp[0][a], &exp[1][b]][w], [&ca[a], &cb[b]][w]);
                let at = (0..e.len()).find(|&x| r.0[w].get(x) != Some(&e[x])).unwrap_or(0);
                let mut s: Vec<String> = vec![];
                for (w, c) in [&ca[a], &cb[b]].iter().enumerate() { for x in c.prefix.iter().chain([&c.call]).chain(&c.rest) { s.push(format!("{} {}", w, x)); } }
                bad = format!("bad\t{} against {}\tthread {} alone: {}\t{}\tsched one {} {} {} {}: thread 0 preempted at point {}{}, answer {} of thread {} ({})\t{}", ca[a].name, cb[b].name, w, e[at], r.0[w].get(at).cloned().unwrap_or_default(), a, b, i, j, i,
                    if j == u64::MAX { String::new() } else { format!(", thread 1 at point {}", j) }, at, w, c.name, s.join("\t"));
                false
            };
            let b0 = p.blocked.load(Relaxed);
            if bound == 1 {
                // thread 0 stops at each of its points, thread 1 runs its whole history
                let (mut i, mut skip) = (0, 0);
                loop {
                    if t0.elapsed() > budget || p.blocked.load(Relaxed) - b0 > 40 { cut += 1; break; }
                    let blocked = p.blocked.load(Relaxed);
                    let r = schedule(&p, &ca[a], &cb[b], i, u64::MAX);
                    n1 += 1;
                    if !judge(&r, i, u64::MAX) || !r.1 { break; }
                    i += 1;
                    // Thread 1 waits for something thread 0 holds: it cannot run here. Look again a little further on.
                    if p.blocked.load(Relaxed) > blocked { skip = (skip * 2 + 1).min(127); i += skip; } else { skip = 0; }
                }
                continue;
            }
            // thread 1 hands back at each of its points
            if !(stores > 0 || deep >= 1 && (a + b) % 3 == 0 || (a == b && ["VTG", "GSV", "unsupported"].contains(&ca[a].name))) { continue; }
            let step = if stores > 0 || deep >= 1 { 1 } else { 5 };
            let (mut i, mut iskip) = (0, 0);
            'o: loop {
                let (mut j, mut skip) = (i % step, 0);
                let bi = p.blocked.load(Relaxed);
                loop {
                    if t0.elapsed() > budget || p.blocked.load(Relaxed) - b0 > 100 { cut += 1; break 'o; }
                    let blocked = p.blocked.load(Relaxed);
                    let r = schedule(&p, &ca[a], &cb[b], i, j);
                    n2 += 1;
                    if !judge(&r, i, j) { break 'o; }
                    if !r.1 { break; }
                    j += step;
                    if p.blocked.load(Relaxed) > blocked { skip = (skip * 2 + 1).min(255); j += skip; } else { skip = 0; }
                }
                if j == i % step { break; }
                i += 1;
                if p.blocked.load(Relaxed) > bi { iskip = (iskip * 2 + 1).min(127); i += iskip; } else { iskip = 0; }
            }
        }
    }
    println!("pairs {}\nbound1 {}\nbound2 {}\nswitches {}\nblocked {}\ncut {}", pairs.iter().enumerate().filter(|x| x.0 % of == part).count(), n1, n2, p.switches.load(Relaxed), p.blocked.load(Relaxed), cut);
    if !bad.is_empty() { println!("{}", bad); }
    p.quit.store(true, SeqCst);
    if h.is_finished() || bad.is_empty() { let _ = h.join(); }
    println!("end");
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}
/// Runs f in a forked process; its exit code, or none if it was ended by a signal.
fn forked(f: impl FnOnce() -> i32) -> Option<i32> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        match fork() {
            0 => { let c = f(); let _ = std::io::stdout().flush(); _exit(c) }
            p => { let mut st = 0; waitpid(p, &mut st, 0); if st & 0x7f == 0 { Some(st >> 8 & 0xff) } else { println!("died signal: {}", st & 0x7f); None } }
        }
    }
}
/// A copy of the static memory.
fn image() -> Vec<u8> {
    let (s, e) = unsafe { (&__data_start as *const u8, &_end as *const u8) };
    unsafe { std::slice::from_raw_parts(s, e as usize - s as usize) }.to_vec()
}

/// First calls of a process. No thread may run in this process: every schedule is a fork of it.
fn fresh(deep: usize, part: usize, of: usize, one: Option<(usize, usize, u64, u64)>) {
    std::panic::set_hook(Box::new(|_| {}));
    clock::set(Some(NOW));
    // Libraries detect the processor at their first use: not what is looked for.
    let r = regex::Regex::new(r"^([0-9][0-9])x|[é€]+y").unwrap();
    let _ = (r.captures("12x"), r.find("abcé"), r.replace_all("12x,13x", "$1"));
    let (ca, cb) = (cases(0), cases(1));
    // what a first call answers alone, whether it writes static memory
    let dir = std::env::temp_dir().join(format!("sched-{}", std::process::id()));
    let alone = |c: &Case| -> Option<(Vec<String>, u64)> {
        forked(|| {
            let mut q = NmeaParser::new();
            let mut v: Vec<String> = c.prefix.iter().map(|s| call(&mut q, s)).collect();
            let a = image();
            let (o, _) = observed(&mut q, &c.call, Mode::Count, u64::MAX);
            let b = image();
            v.push(o);
            v.extend(c.rest.iter().map(|s| call(&mut q, s)));
            let d = a.iter().zip(&b).filter(|x| x.0 != x.1).count() as u64 + SEEN.with(|s| s.get()).1;
            (std::fs::write(&dir, format!("{}\n{}", d, v.join("\n"))).is_err()) as i32
        }).filter(|c| *c == 0)?;
        let t = std::fs::read_to_string(&dir).ok()?;
        let mut l = t.split('\n');
        let d = l.next()?.parse().ok()?;
        Some((l.map(String::from).collect(), d))
    };
    let mut exp: [Vec<Vec<String>>; 2] = [vec![], vec![]];
    let mut wrote = 0;
    for (k, cs) in [&ca, &cb].iter().enumerate() {
        for c in cs.iter() { let Some((v, d)) = alone(c) else { println!("end"); return }; wrote += d; exp[k].push(v); }
    }
    let _ = std::fs::remove_file(&dir);
    println!("first_written {}", wrote);
    let budget = Duration::from_secs([30, 250][deep.min(1)]);
    let t0 = Instant::now();
    let try_one = |a: usize, b: usize, i: u64, j: u64, show: bool| -> Option<i32> {
        forked(|| {
            let p = Arc::new(Pair { turn: AtomicU32::new(0), free: AtomicBool::new(false), done: AtomicBool::new(true), quit: AtomicBool::new(false),
                switches: AtomicU64::new(0), blocked: AtomicU64::new(0), job: Mutex::new(None), out: Mutex::new(None) });
            { let p = p.clone(); std::thread::spawn(move || partner(p)); }
            PAIR.with(|c| c.set(&*p));
            ME.with(|m| m.set(0));
            let r = schedule(&p, &ca[a], &cb[b], i, j);
            if r.0[0] == exp[0][a] && r.0[1] == exp[1][b] && !show { return (!r.1) as i32 + if p.blocked.load(Relaxed) > 0 { 4 } else { 0 }; }
            let w = if r.0[0] == exp[0][a] { 1 } else { 0 };
            let (e, c) = ([&exp[0][a], &exp[1][b]][w], [&ca[a], &cb[b]][w]);
            let at = (0..e.len()).find(|&x| r.0[w].get(x) != Some(&e[x])).unwrap_or(0);
            let mut s: Vec<String> = vec![];
            for (w, c) in [&ca[a], &cb[b]].iter().enumerate() { for x in c.prefix.iter().chain([&c.call]).chain(&c.rest) { s.push(format!("{} {}", w, x)); } }
            println!("bad\t{} against {} as the first calls of the process\tthread {} alone: {}\t{}\tsched fresh {} {} {} {}: thread 0 preempted at point {}{}, answer {} of thread {} ({})\t{}", ca[a].name, cb[b].name, w, e[at], r.0[w].get(at).cloned().unwrap_or_default(), a, b, i, j, i,
                if j == u64::MAX { String::new() } else { format!(", thread 1 at point {}", j) }, at, w, c.name, s.join("\t"));
            2
        })
    };
    if let Some((a, b, i, j)) = one { try_one(a, b, i, j, true); return; }
    let (mut n, mut cut) = (0u64, 0u64);
    // If nothing is set up at the first call all first calls are as the later ones: a part of the points will do.
    let step = if wrote > 0 || deep > 0 { 1 } else { 2 };
    let mut pairs: Vec<(usize, usize)> = (0..ca.len()).flat_map(|a| (0..cb.len()).map(move |b| (a, b))).filter(|(a, b)| ca[*a].prefix.is_empty() && cb[*b].prefix.is_empty() && (a == b || wrote > 0 && (a + 2 * b) % 5 == 0)).collect();
    pairs.sort_by_key(|(a, b)| (a != b, *a, *b));
    'all: for bound in 1..=if wrote > 0 { 2 } else { 1 } {
        for (k, &(a, b)) in pairs.iter().enumerate() {
            if k % of != part || bound == 2 && a != b { continue; }
            let mut i = k as u64 % step;
            'i: loop {
                let (mut j, mut any) = (if bound == 1 { u64::MAX } else { i % 3 }, false);
                loop {
                    if t0.elapsed() > budget { cut += 1; break 'all; }
                    let r = try_one(a, b, i, j, false);
                    n += 1;
                    match r {
                        Some(2) | None => break 'all,
                        Some(c) => { let end = c & 1 == 1; if !end { any = true } if bound == 1 || end { break } }
                    }
                    j += 3;
                }
                if !any { break 'i; }
                i += if bound == 1 { step } else { 3 };
            }
        }
    }
    println!("fresh {}\nfresh_cut {}", n, cut);
    println!("end");
}

/// Edges of the crate under test executed by calls: lines of standard input are `r` (a new parser), `f <hex>` (a sentence),
/// `m <hex>` (a sentence, its edges are printed). Ends with `runaway` where a call goes beyond RUNAWAY edges.
fn work() {
    use std::io::BufRead;
    std::panic::set_hook(Box::new(|_| {}));
    clock::set(Some(NOW));
    let mut p = NmeaParser::new();
    let mut out = String::new();
    for (k, l) in std::io::stdin().lock().lines().enumerate() {
        let l = l.expect("line");
        if l == "r" { p = NmeaParser::new(); continue; }
        let h = &l.as_bytes()[2..];
        let s = String::from_utf8(h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()).expect("text");
        if k % 64 == 0 || out.len() > 1 << 16 { print!("{}", out); out.clear(); }
        let (_, n) = observed(&mut p, &s, Mode::Work, if l.starts_with('m') { RUNAWAY } else { WAITING });
        if l.starts_with('m') { out.push_str(&format!("{}\n", n)); }
    }
    println!("{}end", out);
}

/// Runs the parts in processes of their own (static memory must not be shared between the explorations) and adds up.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let deep: usize = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    if a.len() == 2 && a[1] == "work" { return work(); }
    if a.len() == 6 && a[1] == "fresh" { return fresh(0, 0, 1, Some((a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()))); }
    if a.len() == 5 && a[1] == "fresh" { return fresh(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), None); }
    if a.len() == 6 && a[1] == "one" { return explore(0, 0, 1, Some((a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()))); }
    if a.len() > 3 { return explore(deep, a[2].parse().unwrap(), a[3].parse().unwrap(), None); }
    let n = (std::thread::available_parallelism().map_or(4, |n| n.get()) / 2).clamp(1, 8);
    let ch: Vec<_> = (0..2 * n).map(|k| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        if k >= n { c.arg("fresh"); }
        c.args([deep.to_string(), (k % n).to_string(), n.to_string()]).stdout(std::process::Stdio::piped()).spawn().expect("child")
    }).collect();
    let mut sum: Vec<(String, u64)> = vec![];
    let mut bad = vec![];
    for (k, c) in ch.into_iter().enumerate() {
        let o = c.wait_with_output().expect("child");
        let t = String::from_utf8_lossy(&o.stdout).to_string();
        for l in t.lines() {
            if l.starts_with("bad\t") { bad.push(l.to_string()); continue; }
            let Some((x, v)) = l.split_once(' ') else { continue };
            let Ok(v) = v.parse::<u64>() else { continue };
            let fixed = ["calls", "edges", "static_stores", "static_loads", "points", "first_written"].contains(&x);
            match sum.iter_mut().find(|y| y.0 == x) { Some(y) => if !fixed { y.1 += v }, None => sum.push((x.into(), v)) }
        }
        for l in t.lines() { if l.starts_with("died ") { println!("{}", l); } }
        if !t.ends_with("end\n") && !t.contains("\ndied ") && !t.starts_with("died ") { println!("died {} {}", k, o.status); }
    }
    for (k, v) in sum { println!("{} {}", k, v); }
    for b in bad.iter().take(1) { println!("{}", b); }
    println!("end");
}
