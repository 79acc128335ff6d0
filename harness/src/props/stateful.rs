//! The model of the parser's memory (what waits for a counterpart) and its exhaustive exploration:
//! C03, C04, C05, C06, C07. Every transition of every reachable model state is executed on the real
//! parser after several histories that lead to the state, and followed by probe sequences that make
//! the remaining memory visible.
use super::aismisc::{by_name, digits, prod};
use crate::ais::*;
use crate::clock;
use crate::engine::*;
use crate::obs::*;
use nmea_parser::NmeaParser;
use std::collections::HashMap;

// ------------------------------------------------------------------------------------ model

/// Model state: what waits. `frag[k]` = (part, content), `gsv[slot]` = content + 1, `t24[v]` = (half, content).
#[derive(Clone, PartialEq, Eq, Hash, Default, Debug)]
pub struct St { pub frag: Vec<(u8, u16)>, pub gsv: Vec<u16>, pub t24: Vec<(u8, u16)> }

#[derive(Clone, Debug)]
pub enum Act {
    Frag { key: usize, part: u8, content: u16 },
    Gsv { group: usize, part: usize, content: u16 },
    Half { vessel: usize, half: u8, content: u16 },
    /// The same answer in every state, no change.
    Const(Out),
    /// An error, no change.
    Reject,
    /// No result, no change.
    NoData,
}
#[derive(Clone)]
pub struct Ev { pub s: String, pub act: Act }

/// What two combined parts are.
#[derive(Clone, Debug)]
pub enum Fin { Is(Out), Half { vessel: usize, half: u8, content: u16 } }

#[derive(Debug)]
pub enum Expect { Incomplete, Is(Out), Err, NoData, Sats(usize, Vec<u16>), Halves(usize, u16, u16) }

pub struct Group { pub talker: String, pub n: usize, pub base: usize }

pub struct Sys {
    pub evs: Vec<Ev>,
    pub keys: usize,
    pub groups: Vec<Group>,
    pub slots: usize,
    pub vessels: usize,
    /// (key, content of part 1, content of part 2) -> what the message is.
    pub comb: HashMap<(usize, u16, u16), Fin>,
    /// The same message in one sentence.
    pub whole: HashMap<(usize, u16, u16), String>,
    /// Content of satellite sentences: their satellites.
    pub sats: Vec<Vec<[V; 4]>>,
    /// Content of type 24 halves: their bits.
    pub halves: Vec<Bits>,
    pub vdo: Vec<bool>,
    pub t24msg: Msg,
}

impl Sys {
    pub fn new() -> Sys {
        let mut ms = messages();
        let i = ms.iter().position(|m| m.name == "t24").unwrap();
        Sys { evs: vec![], keys: 0, groups: vec![], slots: 0, vessels: 0, comb: HashMap::new(), whole: HashMap::new(), sats: vec![], halves: vec![], vdo: vec![], t24msg: ms.swap_remove(i) }
    }
    pub fn start(&self) -> St { St { frag: vec![(0, 0); self.keys], gsv: vec![0; self.slots], t24: vec![(0, 0); self.vessels] } }
    fn half(&self, st: &mut St, v: usize, half: u8, content: u16) -> Expect {
        let (h, c) = st.t24[v];
        if h != 0 && h != half {
            st.t24[v] = (0, 0);
            if half == 1 { Expect::Halves(v, content, c) } else { Expect::Halves(v, c, content) }
        } else {
            st.t24[v] = (half, content);
            Expect::Incomplete
        }
    }
    pub fn step(&self, st: &mut St, e: usize) -> Expect {
        match &self.evs[e].act {
            Act::Const(o) => Expect::Is(o.clone()),
            Act::Reject => Expect::Err,
            Act::NoData => Expect::NoData,
            Act::Half { vessel, half, content } => self.half(st, *vessel, *half, *content),
            Act::Frag { key, part, content } => {
                let (p, c) = st.frag[*key];
                if p != 0 && p != *part {
                    st.frag[*key] = (0, 0);
                    let k = if *part == 1 { (*key, *content, c) } else { (*key, c, *content) };
                    match &self.comb[&k] {
                        Fin::Is(o) => Expect::Is(o.clone()),
                        Fin::Half { vessel, half, content } => self.half(st, *vessel, *half, *content),
                    }
                } else {
                    st.frag[*key] = (*part, *content);
                    Expect::Incomplete
                }
            }
            Act::Gsv { group, part, content } => {
                let g = &self.groups[*group];
                st.gsv[g.base + part - 1] = content + 1;
                if (0..g.n).all(|i| st.gsv[g.base + i] != 0) {
                    let v = (0..g.n).map(|i| st.gsv[g.base + i] - 1).collect();
                    for i in 0..g.n { st.gsv[g.base + i] = 0; }
                    Expect::Sats(*group, v)
                } else {
                    Expect::Incomplete
                }
            }
        }
    }
    pub fn expected(&self, x: &Expect) -> String {
        match x {
            Expect::Sats(g, v) => format!("{:?}", self.sat_list(*g, v)),
            Expect::Halves(v, a, b) => format!("type 24 report of vessel {} with part A {:?} and part B {:?}", v, armour(&self.halves[*a as usize]), armour(&self.halves[*b as usize])),
            x => format!("{:?}", x),
        }
    }
    fn sat_list(&self, g: usize, v: &[u16]) -> V {
        let src = crate::gnss::system(&self.groups[g].talker);
        V::L(v.iter().flat_map(|c| self.sats[*c as usize].iter()).map(|s| {
            let mut l = vec![V::E(src)];
            l.extend(s.iter().cloned());
            V::L(l)
        }).collect())
    }
    /// Why the answer is wrong, if it is.
    pub fn judge(&self, x: &Expect, o: &Out) -> Option<String> {
        let ok = match x {
            Expect::Incomplete => *o == Out::Incomplete,
            Expect::Is(e) => e == o,
            Expect::Err => o.is_err(),
            Expect::NoData => o.is_err() || *o == Out::Incomplete,
            Expect::Sats(g, v) => match o {
                Out::Data(d) if d.kind == "Gsv" => d.get("sats") == Some(&self.sat_list(*g, v)),
                _ => false,
            },
            Expect::Halves(v, a, b) => match o {
                Out::Data(d) if d.kind == "Static" => {
                    let mut bits = Bits::zeros(2 * T24);
                    for i in 0..T24 { bits.put(i, self.halves[*a as usize].bit(i)); bits.put(T24 + i, self.halves[*b as usize].bit(i)); }
                    let env = Env { now: NOW, vdo: self.vdo[*v], talker: "AI" };
                    let mut bad = None;
                    for f in &self.t24msg.fields {
                        let Some(got) = d.get(f.out) else { continue };
                        let e = (f.dec)(&bits, &env);
                        if *got != e && !f.alt.as_ref().map_or(false, |a| *got == a(&bits, &env)) {
                            bad = Some(format!("{} should be {:?}, not {:?}", f.out, e, got));
                            break;
                        }
                    }
                    if bad.is_some() { return bad; }
                    true
                }
                _ => false,
            },
        };
        if ok { None } else { Some(format!("expected {}", clip(&self.expected(x), 600))) }
    }

    // -------------------------------------------------------------------------------- building

    pub fn add(&mut self, s: String, act: Act) -> usize { self.evs.push(Ev { s, act }); self.evs.len() - 1 }
    pub fn add_half_content(&mut self, b: Bits) -> u16 {
        if let Some(i) = self.halves.iter().position(|x| *x == b) { return i as u16; }
        self.halves.push(b);
        self.halves.len() as u16 - 1
    }
    /// A vessel with `tags` contents for each half, sent whole. Returns the event numbers: A tags, then B tags.
    pub fn vessel(&mut self, mmsi: u64, vdo: bool, contents: &[[Bits; 2]], cks: bool) -> Vec<usize> {
        let v = self.vessels;
        self.vessels += 1;
        self.vdo.push(vdo);
        let p = Pres { vdo, cks, ..P0 };
        let mut r = vec![];
        for h in 0..2 {
            for c in contents {
                let mut b = c[h];
                b.set(8, 30, mmsi);
                let content = self.add_half_content(b);
                let s = sentences_of(&b, &p).remove(0);
                r.push(self.add(s, Act::Half { vessel: v, half: h as u8 + 1, content }));
            }
        }
        r
    }
    /// A fragment key with contents (part 1, part 2) of which every combination is a message.
    pub fn key(&mut self, talker: &'static str, vdo: bool, id: &str, chan: &'static str, parts: &[(String, String)], cks: bool) -> Vec<usize> {
        let k = self.keys;
        self.keys += 1;
        let p = Pres { talker, vdo, chan, cks, ..P0 };
        let mut r = vec![];
        clock::set(Some(NOW));
        for h in 0..2 {
            for (c, x) in parts.iter().enumerate() {
                let s = if h == 0 { vdm(&p, 2, 1, id, &x.0, 0) } else { vdm(&p, 2, 2, id, &x.1, 0) };
                r.push(self.add(s, Act::Frag { key: k, part: h as u8 + 1, content: c as u16 }));
            }
        }
        for (i, a) in parts.iter().enumerate() {
            for (j, b) in parts.iter().enumerate() {
                let pay = format!("{}{}", a.0, b.1);
                let fin = match self.as_half(&pay) {
                    Some((vessel, half, content)) => Fin::Half { vessel, half, content },
                    None => Fin::Is(fresh(&vdm(&p, 1, 1, "", &pay, 0))),
                };
                self.whole.insert((k, i as u16, j as u16), vdm(&p, 1, 1, "", &pay, 0));
                self.comb.insert((k, i as u16, j as u16), fin);
            }
        }
        r
    }
    /// If the payload is a half of a type 24 report of one of the vessels.
    fn as_half(&mut self, pay: &str) -> Option<(usize, u8, u16)> {
        if pay.len() * 6 != T24 { return None; }
        let mut b = Bits::zeros(T24);
        for (i, c) in pay.bytes().enumerate() { let v = if c < 96 { c - 48 } else { c - 56 }; b.set(6 * i, 6, v as u64); }
        if b.get(0, 6) != 24 { return None; }
        let m = b.get(8, 30);
        let v = self.evs.iter().find_map(|e| match e.act { Act::Half { vessel, content, .. } if self.halves[content as usize].get(8, 30) == m => Some(vessel), _ => None })?;
        let h = b.get(38, 2) as u8 + 1;
        let c = self.add_half_content(b);
        Some((v, h, c))
    }
    /// A group of satellite sentences. `tags` contents of different shapes for every part.
    pub fn group(&mut self, talker: &str, n: usize, tags: usize, cks: bool) -> Vec<usize> {
        let g = self.groups.len();
        self.groups.push(Group { talker: talker.into(), n, base: self.slots });
        self.slots += n;
        let mut r = vec![];
        for p in 1..=n {
            for t in 0..tags {
                let (s, v) = gsv_sentence(talker, n, p, t, cks);
                self.sats.push(v);
                let content = self.sats.len() as u16 - 1;
                r.push(self.add(s, Act::Gsv { group: g, part: p, content }));
            }
        }
        r
    }
    /// The answer of a new parser, in every state.
    pub fn constant(&mut self, s: &str) -> usize {
        clock::set(Some(NOW));
        let o = fresh(s);
        self.add(s.to_string(), Act::Const(o))
    }
}

/// A satellite sentence with 1 to 4 satellites and, depending on the tag, absent values.
pub fn gsv_sentence(talker: &str, n: usize, p: usize, tag: usize, cks: bool) -> (String, Vec<[V; 4]>) {
    let cnt = [4, 2, 1, 3][(tag + if p == n { 1 } else { 0 }) % 4];
    let mut s = format!("${}GSV,{},{},{:02}", talker, n, p, (n - 1) * 4 + cnt);
    let mut v = vec![];
    for j in 0..cnt {
        let prn = (1 + (p * 4 + j + tag * 20 + talker.as_bytes()[1] as usize) % 99) as i64;
        let el = (5 + p * 7 + j + tag) as i64 % 91;
        let az = (100 + p * 31 + j * 3 + tag * 101) as i64 % 360;
        let sn = (20 + p + j + tag * 9) as i64 % 100;
        let hide = (j + tag + p) % 5;
        let f = |x: i64, w: usize, k: usize| if hide == k { String::new() } else { format!("{:0w$}", x, w = w) };
        let o = |x: i64, k: usize| if hide == k { V::Non } else { V::I(x) };
        s += &format!(",{:02},{},{},{}", prn, f(el, 2, 0), f(az, 3, 1), f(sn, 2, 2));
        v.push([V::I(prn), o(el, 0), o(az, 1), o(sn, 2)]);
    }
    if tag == 0 && cnt < 4 { for _ in cnt..4 { s += ",,,,"; } }
    (if cks { with_checksum(&s) } else { s }, v)
}

// ------------------------------------------------------------------------------------ execution

fn steps_of(sys: &Sys, seq: &[usize]) -> Vec<Step> { seq.iter().map(|&e| Step::at(&sys.evs[e].s, Some(NOW))).collect() }

/// Runs the events on a new real parser and the model side by side. True if all agree.
pub fn trace(ctx: &mut Ctx, sys: &Sys, label: &str, parts: &[&[usize]]) -> bool {
    clock::set(Some(NOW));
    let mut p = NmeaParser::new();
    let mut st = sys.start();
    ctx.traces += 1;
    let mut n = 0;
    for (pi, part) in parts.iter().enumerate() {
        for (i, &e) in part.iter().enumerate() {
            let x = sys.step(&mut st, e);
            let o = feed(&mut p, &sys.evs[e].s);
            n += 1;
            ctx.calls += 1;
            if let Some(why) = sys.judge(&x, &o) {
                let mut seq: Vec<usize> = parts[..pi].iter().flat_map(|x| x.iter().copied()).collect();
                seq.extend(&part[..=i]);
                ctx.violate(label, steps_of(sys, &seq), why, o.short(), format!("step {} of the history", seq.len()));
                return false;
            }
            if pi + 1 == parts.len() || parts.len() == 1 { ctx.tally(&o); }
        }
    }
    let _ = n;
    true
}

/// As `trace`, with the clock set before every event. Answers that depend on the clock are those of a new
/// parser to the whole sentence at that moment.
pub fn trace_at(ctx: &mut Ctx, sys: &Sys, label: &str, seq: &[(usize, i64)]) -> bool {
    let mut p = NmeaParser::new();
    let mut st = sys.start();
    ctx.traces += 1;
    for (i, &(e, now)) in seq.iter().enumerate() {
        clock::set(Some(now));
        let whole = match &sys.evs[e].act {
            Act::Const(_) => Some(sys.evs[e].s.as_str()),
            Act::Frag { key, part, content } => {
                let (_, c) = st.frag[*key];
                sys.whole.get(&if *part == 1 { (*key, *content, c) } else { (*key, c, *content) }).map(|s| s.as_str())
            }
            _ => None,
        };
        let mut x = sys.step(&mut st, e);
        let o = feed(&mut p, &sys.evs[e].s);
        ctx.calls += 1;
        if let (Expect::Is(y), Some(w)) = (&x, whole) { if *y != o { x = Expect::Is(fresh(w)); } }
        if let Some(why) = sys.judge(&x, &o) {
            ctx.violate(label, seq[..=i].iter().map(|&(e, t)| Step::at(&sys.evs[e].s, Some(t))).collect(), why, o.short(), format!("step {} of the history", i + 1));
            return false;
        }
        if i + 1 == seq.len() { ctx.tally(&o); }
    }
    true
}

/// Moments from which time passes: an ordinary one, and just before the end of a day, a month, a leap February and a year.
pub fn moments() -> Vec<i64> {
    use super::aismisc::at;
    vec![NOW, at(2021, 6, 15, 23, 59, 58), at(2024, 2, 28, 23, 59, 59), at(2022, 12, 31, 23, 59, 59)]
}
pub const GAPS: [i64; 42] = [0, 1, 2, 3, 5, 10, 29, 30, 31, 59, 60, 61, 120, 299, 300, 301, 360, 361, 600, 899, 900, 901, 1800, 3599, 3600, 3601, 7200, 43200, 86399, 86400, 86401, 172_800, 604_800, 2_592_000, 31_536_000, 315_360_000, -1, -60, -3600, -86400, -86401, -31_536_000];

/// Time passes between any two sentences: after every history of `pending`, after one gap every event of `moves`,
/// after another gap (none, the same, the way back) every event of `then`, then a probe.
pub fn time_passes(run: &mut Run, name: &str, sys: &Sys, pending: &[Vec<usize>], moves: &[usize], then: &[usize], probes: &[Vec<usize>]) {
    let ms = moments();
    let rad = [3, probes.len(), ms.len(), then.len() + 1, moves.len(), pending.len(), GAPS.len()];
    run.par(name, prod(&rad), |ctx, i| {
        let [g2, pr, m, b, a, h, g] = digits(i, rad);
        if b == then.len() && g2 > 0 { return; }
        let (t0, t1) = (ms[m], ms[m] + GAPS[g]);
        let t2 = [t1, t1 + GAPS[g], t0][g2];
        let mut seq: Vec<(usize, i64)> = pending[h].iter().map(|&e| (e, t0)).collect();
        seq.push((moves[a], t1));
        if b < then.len() { seq.push((then[b], t2)); }
        seq.extend(probes[pr].iter().map(|&e| (e, t2)));
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace_at(ctx, sys, "time", &seq);
    });
}

/// All reachable model states, by `moves`.
pub struct Graph { pub states: Vec<St>, pub edges: u64, parent: Vec<(u32, u32)>, pub extra: Vec<Vec<(u32, u32)>>, back: Vec<(u32, u32)>, index: HashMap<St, u32> }
impl Graph {
    pub fn new(sys: &Sys, moves: &[usize]) -> Graph {
        let mut index: HashMap<St, u32> = HashMap::new();
        let s0 = sys.start();
        index.insert(s0.clone(), 0);
        let mut g = Graph { states: vec![s0], edges: 0, parent: vec![(u32::MAX, 0)], extra: vec![vec![]], back: vec![], index: HashMap::new() };
        let mut rev: Vec<Vec<(u32, u32)>> = vec![vec![]];
        let mut i = 0;
        while i < g.states.len() {
            for &e in moves {
                let mut t = g.states[i].clone();
                sys.step(&mut t, e);
                g.edges += 1;
                let j = match index.get(&t) {
                    Some(&j) => { if j as usize != i { let x = &mut g.extra[j as usize]; if x.len() < 64 { x.push((i as u32, e as u32)) } } j }
                    None => {
                        let j = g.states.len() as u32;
                        index.insert(t.clone(), j);
                        g.states.push(t);
                        g.parent.push((i as u32, e as u32));
                        g.extra.push(vec![]);
                        rev.push(vec![]);
                        j
                    }
                };
                rev[j as usize].push((i as u32, e as u32));
            }
            i += 1;
        }
        // shortest ways back to the empty state
        g.back = vec![(u32::MAX, 0); g.states.len()];
        let mut q = std::collections::VecDeque::from([0u32]);
        let mut seen = vec![false; g.states.len()];
        seen[0] = true;
        while let Some(j) = q.pop_front() {
            for &(i, e) in &rev[j as usize] { if !seen[i as usize] { seen[i as usize] = true; g.back[i as usize] = (j, e); q.push_back(i); } }
        }
        assert!(seen.iter().all(|x| *x));
        g.index = index;
        g
    }
    pub fn index(&self, s: &St) -> u32 { self.index[s] }
    pub fn shortest(&self, mut s: u32) -> Vec<usize> {
        let mut v = vec![];
        while self.parent[s as usize].0 != u32::MAX { v.push(self.parent[s as usize].1 as usize); s = self.parent[s as usize].0; }
        v.reverse();
        v
    }
    /// Events that deliver everything that waits.
    pub fn drain(&self, mut s: u32) -> Vec<usize> {
        let mut v = vec![];
        while s != 0 { let (j, e) = self.back[s as usize]; v.push(e as usize); s = j; }
        v
    }
}

/// Explores all reachable model states (by `moves`); in each, every event of `tested` is executed after each of
/// up to `k` histories, and followed by each probe sequence.
pub fn explore(run: &mut Run, name: &str, sys: &Sys, moves: &[usize], tested: &[usize], probes: &[Vec<usize>], prefix: &[Vec<usize>], k: usize) {
    if run.stop() { return; }
    let g = Graph::new(sys, moves);
    let (states, extra, edges) = (&g.states, &g.extra, g.edges);
    let shortest = |s: u32| g.shortest(s);
    // Histories: the shortest, the shortest after each prefix, and ones that come from other states
    // (the last found first: they come from the fullest states, by completions and replacements).
    let hist: Vec<Vec<Vec<usize>>> = (0..states.len()).map(|s| {
        let h0 = shortest(s as u32);
        let mut v = vec![h0.clone()];
        for p in prefix { let mut q = p.clone(); q.extend(&h0); v.push(q); }
        let x = &extra[s];
        let mut a = 0;
        while v.len() < k + prefix.len() && a < x.len() {
            let (f, e) = if a % 2 == 0 { x[x.len() - 1 - a / 2] } else { x[a / 2] };
            let mut q = shortest(f);
            q.push(e as usize);
            if !v.contains(&q) { v.push(q); }
            a += 1;
        }
        v
    }).collect();
    let kk = hist.iter().map(|h| h.len()).max().unwrap();
    run.states += states.len() as u64;
    run.transitions += edges;
    let np = probes.len().max(1);
    let rad = [np, tested.len(), kk, states.len()];
    run.par(name, prod(&rad), |ctx, i| {
        let [p, e, h, s] = digits(i, rad);
        let Some(hh) = hist[s].get(h) else { return };
        let none = vec![];
        let pr = probes.get(p).unwrap_or(&none);
        ctx.evals += 1;
        ctx.distinct_n += 1;
        if ctx.samples.is_empty() { ctx.sample(|| format!("{:?} | {:?} | probe of {}", hh.iter().map(|&e| sys.evs[e].s.as_str()).collect::<Vec<_>>(), sys.evs[tested[e]].s, pr.len())); }
        trace(ctx, sys, "history", &[hh, &[tested[e]], pr]);
    });
    run.notes.push(format!("{}: {} model states, {} transitions, histories per state up to {}, {} tested events, {} probe sequences", name, states.len(), edges, kk, tested.len(), np));
}

/// Every sequence of the events up to the depth, from the empty state, unmerged.
pub fn sequences(run: &mut Run, name: &str, sys: &Sys, evs: &[usize], depth: u32, probe: &[usize]) {
    let n = evs.len() as u64;
    run.par(name, n.pow(depth), |ctx, i| {
        let mut r = i;
        let mut seq = [0usize; 16];
        for k in (0..depth as usize).rev() { seq[k] = evs[(r % n) as usize]; r /= n; }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, sys, "sequence", &[&seq[..depth as usize], probe]);
    });
}

/// All orders of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(v: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<usize>>) {
        if k == v.len() { out.push(v.clone()); return; }
        for i in k..v.len() { v.swap(k, i); go(v, k + 1, out); v.swap(k, i); }
    }
    let mut out = vec![];
    go(&mut (0..n).collect(), 0, &mut out);
    out
}

// ------------------------------------------------------------------------------------ C04

/// The payload of a type 5 message that names its tag.
pub fn t5_payload(tag: usize) -> String { t5_of(tag, 230_000_000 + tag as u64 * 1_000_003) }
pub fn t5_of(tag: usize, mmsi: u64) -> String {
    let ms = messages();
    let m = by_name(&ms, "t5");
    let mut b = typical(m);
    b.set(8, 30, mmsi);
    b.set(40, 30, 9_000_000 + tag as u64);
    for k in 0..7 { b.set(70 + 6 * k, 6, 1 + (tag as u64 * 3 + k as u64 * 5) % 26); }
    for k in 0..20 { b.set(112 + 6 * k, 6, 1 + (tag as u64 * 7 + k as u64) % 26); }
    for k in 0..20 { b.set(302 + 6 * k, 6, 1 + (tag as u64 * 11 + k as u64) % 26); }
    b.set(240, 9, 100 + tag as u64);
    armour(&b)
}
pub fn cut(p: &str, at: usize) -> (String, String) { (p[..at].to_string(), p[at..].to_string()) }

fn frag_probe(keys: &[Vec<usize>], first: usize) -> Vec<usize> {
    // first part of every key with the last tag, then the other part
    let mut v = vec![];
    for h in [first, 1 - first] {
        for k in keys { let t = k.len() / 2; v.push(k[h * t + t - 1]); }
    }
    v
}

pub fn fragments(run: &mut Run) {
    let th = run.thorough;
    // Keys that differ from the first in exactly one of talker, type, id, channel (and one in two)
    let mut sys = Sys::new();
    let all: Vec<(&'static str, bool, &'static str, &'static str)> = vec![("AI", false, "1", "A"), ("BS", false, "1", "A"), ("AI", true, "1", "A"), ("AI", false, "2", "A"), ("AI", false, "1", "B"), ("AI", false, "1", "")];
    let mut keys = vec![];
    for (i, k) in all.iter().enumerate() {
        let c: Vec<(String, String)> = (0..2).map(|t| cut(&t5_payload(i * 2 + t), 30 + 5 * t)).collect();
        // different cut points make combinations of the two tags differ in length as well
        keys.push(sys.key(k.0, k.1, k.2, k.3, &c, i % 2 == 0));
    }
    let evs: Vec<usize> = keys.iter().flatten().copied().collect();
    let mut cyc = vec![];
    for k in &keys { cyc.extend([k[0], k[2], k[3], k[1]]); }
    let probes = vec![frag_probe(&keys, 0), frag_probe(&keys, 1)];
    explore(run, "6 keys, 2 contents: every state and event", &sys, &evs, &evs, &probes, &[cyc], if th { 6 } else { 2 });
    // Unmerged sequences
    let small: Vec<usize> = keys[0].iter().chain(&keys[1]).chain(&keys[4][..]).copied().collect();
    sequences(run, "every sequence over 3 keys", &sys, &small, if th { 6 } else { 5 }, &probes[1]);
    let one: Vec<usize> = keys[0].clone();
    sequences(run, "every long sequence over 1 key", &sys, &one, if th { 11 } else { 9 }, &probes[0]);
    let two: Vec<usize> = [keys[3][0], keys[3][2], keys[2][1], keys[2][3]].to_vec();
    sequences(run, "every long sequence over 2 keys", &sys, &two, if th { 11 } else { 9 }, &probes[1]);

    // Every message type at every cut, in both orders, against the single sentence
    let ms = messages();
    let mut pays: Vec<String> = vec![];
    for m in &ms {
        for b in backgrounds(m, run.seed).iter().take(if th { 10 } else { 5 }) {
            if m.name == "t24" { continue; }
            pays.push(armour(b));
        }
    }
    let maxl = pays.iter().map(|p| p.len()).max().unwrap();
    let pres: Vec<(&'static str, bool, &'static str, &'static str)> = vec![("AI", false, "0", "A"), ("AB", true, "9", "B"), ("BS", false, "5", "1"), ("SA", false, "3", "2"), ("AI", false, "7", "")];
    let rad = [2, maxl + 1, pres.len(), pays.len()];
    run.par("every cut of every type in both orders", prod(&rad), |ctx, i| {
        let [ord, at, q, b] = digits(i, rad);
        let pay = &pays[b];
        if at > pay.len() { return; }
        let (t, vdo, id, ch) = pres[q];
        let p = Pres { talker: t, vdo, chan: ch, ..P0 };
        clock::set(Some(NOW));
        let e = fresh(&vdm(&p, 1, 1, "", pay, 0));
        let mut ss = vec![vdm(&p, 2, 1, id, &pay[..at], 0), vdm(&p, 2, 2, id, &pay[at..], 0)];
        if ord == 1 { ss.reverse(); }
        pair(ctx, &ss, &e, "cut");
    });
    // The count of fill bits as senders write it: that of the whole payload, in the second part (or in both)
    let fpays: Vec<(String, usize)> = { let mut v = vec![]; for m in &ms { if m.name != "t24" { for b in backgrounds(m, run.seed).iter().take(if th { 10 } else { 4 }) { v.push((armour(b), crate::ais::fill(b.len))); } } } v };
    let rad = [2, 2, maxl + 1, fpays.len()];
    run.par("fill bits of the parts", prod(&rad), |ctx, i| {
        let [ord, both, at, b] = digits(i, rad);
        let (pay, fill) = &fpays[b];
        if at > pay.len() || *fill == 0 { return; }
        clock::set(Some(NOW));
        let e = fresh(&vdm(&P0, 1, 1, "", pay, *fill));
        if at == 0 { let o = fresh(&vdm(&P0, 1, 1, "", pay, 0)); if o != e { ctx.violate("fill", vec![Step::at(&vdm(&P0, 1, 1, "", pay, *fill), Some(NOW)), Step::at(&vdm(&P0, 1, 1, "", pay, 0), Some(NOW))], o.short(), e.short(), "fill bits are beyond the fields".into()); } }
        let mut ss = vec![vdm(&P0, 2, 1, "6", &pay[..at], if both == 1 { *fill } else { 0 }), vdm(&P0, 2, 2, "6", &pay[at..], *fill)];
        if ord == 1 { ss.reverse(); }
        pair(ctx, &ss, &e, "fill");
    });
    // Parts with the same text
    let rad = [2, 64, 64, if th { 40 } else { 12 }];
    run.par("two parts with the same text", prod(&rad), |ctx, i| {
        let [ord, t, c, l] = digits(i, rad);
        let q: String = [armour_char(t as u64)].into_iter().chain((0..[6, 13, 14, 20, 27, 28, 30, 35, 36, 56, 60, 84].get(l).copied().unwrap_or(l)).map(|k| if k % 3 == 0 { armour_char(c as u64) } else { '0' })).collect();
        clock::set(Some(NOW));
        let e = fresh(&vdm(&P0, 1, 1, "", &format!("{}{}", q, q), 0));
        if e == Out::Incomplete { return; }
        let mut ss = vec![vdm(&P0, 2, 1, "6", &q, 0), vdm(&P0, 2, 2, "6", &q, 0)];
        if ord == 1 { ss.reverse(); }
        pair(ctx, &ss, &e, "same-text");
    });
    // A repeated part whose payload is akin to the one it replaces: the later counts, whatever the two share
    {
        let base = t5_payload(3);
        let swap = |p: &str, at: usize| -> String { let c = p.as_bytes()[at]; format!("{}{}{}", &p[..at], if c == b'0' { '1' } else { '0' }, &p[at + 1..]) };
        let forms = |p: &str, q: &str, other: &str| -> Vec<String> { vec![p.to_string(), swap(p, p.len() - 1), swap(p, p.len() / 2), p[..p.len() - 1].to_string(), p[..p.len() / 2].to_string(), p[..1].to_string(), format!("{}0", p), format!("{}w", p), format!("{}{}", p, p), format!("{}{}", p, q), p.chars().rev().collect(), other.to_string(), format!("{}{}", &p[p.len() / 2..], &p[..p.len() / 2]), "0".repeat(p.len())] };
        let (a, b) = cut(&base, 33);
        let (c, d) = cut(&t5_payload(4), 33);
        // first parts begin with the message type all the same
        let f1: Vec<String> = forms(&a[1..], &b, &c[1..]).into_iter().map(|p| format!("{}{}", &a[..1], p)).collect();
        let f2 = forms(&b, &a, &d);
        let nf = f1.len();
        let rad = [2, 2, 2, nf, nf, nf];
        run.par("repeated parts with related payloads", prod(&rad), |ctx, i| {
            let [part, late, cks, x, y, z] = digits(i, rad);
            let p = Pres { cks: cks == 1, ..P0 };
            let f = if part == 0 { &f1 } else { &f2 };
            let mate = if part == 0 { &f2[(x + z) % nf] } else { &f1[(x + z) % nf] };
            clock::set(Some(NOW));
            let mut ss = vec![vdm(&p, 2, part + 1, "6", &f[x], 0), vdm(&p, 2, part + 1, "6", &f[y], 0)];
            if z > 0 { ss.push(vdm(&p, 2, part + 1, "6", &f[z], 0)); }
            let last = if z > 0 { &f[z] } else { &f[y] };
            let whole = if part == 0 { format!("{}{}", last, mate) } else { format!("{}{}", mate, last) };
            let e = fresh(&vdm(&p, 1, 1, "", &whole, 0));
            if e == Out::Incomplete { return; }
            // another message waits as well
            let other = [vdm(&P0, 2, 1, "7", &c, 0), vdm(&P0, 2, 2, "7", &d, 0)];
            let eo = fresh(&vdm(&P0, 1, 1, "", &t5_payload(4), 0));
            let fin = vdm(&p, 2, 2 - part, "6", mate, 0);
            let mut seq: Vec<(&String, Option<&Out>)> = vec![];
            if late == 0 { seq.push((&other[part], None)); }
            for s in &ss { seq.push((s, None)); }
            if late == 1 { seq.push((&other[1 - part], None)); }
            seq.push((&fin, Some(&e)));
            seq.push((if late == 0 { &other[1 - part] } else { &other[part] }, Some(&eo)));
            let mut q = NmeaParser::new();
            ctx.traces += 1;
            ctx.evals += 1;
            ctx.distinct_n += 1;
            for (k, (s, e)) in seq.iter().enumerate() {
                let o = feed(&mut q, s);
                ctx.calls += 1;
                if e.is_some() { ctx.tally(&o); }
                let e = e.unwrap_or(&Out::Incomplete);
                if o != *e { return ctx.violate("akin", seq[..=k].iter().map(|(s, _)| Step::at(s, Some(NOW))).collect(), e.short(), o.short(), "the later copy of a part counts".into()); }
            }
        });
    }
    // Every id, channel, talker and type pair: agreement combines, disagreement in one component does not
    let ids: Vec<u64> = (0..=(if th { 999 } else { 120 })).chain([255, 256, 257, 65535, 65536, 65537, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, u64::MAX - 1, u64::MAX]).collect();
    let ids: Vec<String> = { let mut v = ids; v.sort(); v.dedup(); v.iter().map(|x| x.to_string()).collect() };
    let rad = [2, ids.len(), ids.len()];
    let (pa, pb) = (t5_payload(20), t5_payload(21));
    let dis = |ctx: &mut Ctx, a: &Pres, ia: &str, b: &Pres, ib: &str, ord: usize| {
        // part 1 of message a, part 2 of message b: combine only if the keys agree
        let same = (a.talker, a.vdo, a.chan, ia) == (b.talker, b.vdo, b.chan, ib);
        let (x, y) = (cut(&pa, 33), cut(if same { &pa } else { &pb }, 33));
        let mut ss = vec![vdm(a, 2, 1, ia, &x.0, 0), vdm(b, 2, 2, ib, &y.1, 0)];
        if ord == 1 { ss.reverse(); }
        clock::set(Some(NOW));
        if same {
            let e = fresh(&vdm(a, 1, 1, "", &pa, 0));
            return pair(ctx, &ss, &e, "agreeing");
        }
        let mut p = NmeaParser::new();
        ctx.traces += 1;
        ctx.case(true, &[&ss[0], &ss[1]]);
        // both wait, then each is completed by its own mate
        let rest = [vdm(a, 2, 2, ia, &x.1, 0), vdm(b, 2, 1, ib, &y.0, 0)];
        let ea = fresh(&vdm(a, 1, 1, "", &pa, 0));
        let eb = fresh(&vdm(b, 1, 1, "", &pb, 0));
        let exp = [Out::Incomplete, Out::Incomplete, ea, eb];
        let seq: Vec<&String> = ss.iter().chain(rest.iter()).collect();
        for (i, s) in seq.iter().enumerate() {
            let o = feed(&mut p, s);
            ctx.calls += 1;
            if i > 1 { ctx.tally(&o); }
            if o != exp[i] {
                ctx.violate("disagreeing", seq[..=i].iter().map(|s| Step::at(s, Some(NOW))).collect(), exp[i].short(), o.short(), "parts of different messages".into());
                return;
            }
        }
    };
    run.par("every pair of message ids", prod(&rad), |ctx, i| {
        let [ord, x, y] = digits(i, rad);
        dis(ctx, &P0, &ids[x], &P0, &ids[y], ord);
    });
    let mut kinds: Vec<Pres> = vec![];
    for t in ["AI", "AB", "AD", "AN", "AR", "AS", "AT", "AX", "BS", "SA"] {
        for vdo in [false, true] { for c in ["A", "B", "1", "2", ""] { kinds.push(Pres { talker: t, vdo, chan: c, ..P0 }); } }
    }
    let rad = [2, 4, kinds.len(), kinds.len()];
    run.par("every pair of talker, type and channel", prod(&rad), |ctx, i| {
        let [ord, d, x, y] = digits(i, rad);
        let idp = [("1", "1"), ("1", "2"), ("1", "11"), ("0", "0")][d];
        dis(ctx, &kinds[x], idp.0, &kinds[y], idp.1, ord);
    });
    // Every pair of channels that are a letter or a digit
    const CHANS: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    let n = CHANS.len();
    let rad = [2, n, n];
    run.par("every pair of channels", prod(&rad), |ctx, i| {
        let [ord, x, y] = digits(i, rad);
        dis(ctx, &Pres { chan: &CHANS[x..x + 1], ..P0 }, "3", &Pres { chan: &CHANS[y..y + 1], ..P0 }, "3", ord);
    });
    // Every pair of talkers of letters (the quick tier: those that share a letter, or swap them)
    let tk: Vec<String> = (0..676).map(|i| format!("{}{}", (b'A' + (i / 26) as u8) as char, (b'A' + (i % 26) as u8) as char)).collect();
    let tk: &'static Vec<String> = Box::leak(Box::new(tk));
    let rad = [2, 676, 676];
    run.par("every pair of talkers", prod(&rad), |ctx, i| {
        let [ord, x, y] = digits(i, rad);
        let (a, b) = (tk[x].as_bytes(), tk[y].as_bytes());
        if !th && !(a[0] == b[0] || a[1] == b[1] || (a[0], a[1]) == (b[1], b[0])) { return; }
        dis(ctx, &Pres { talker: &tk[x], ..P0 }, "3", &Pres { talker: &tk[y], vdo: x % 5 == 0 && y % 5 == 0, ..P0 }, "3", ord);
    });
    // Many pending messages
    many(run, th);
    {
        let k = &keys;
        endurance(run, &sys, &[
            (vec![k[0][0], k[0][2], k[0][3], k[0][1]], vec![k[1][0], k[2][3]], vec![k[1][3], k[2][0]]),
            (vec![k[3][2], k[3][1], k[4][1], k[4][2]], vec![k[0][2], k[5][1]], vec![k[0][0], k[5][2]]),
            (vec![k[0][0], k[0][1]], vec![k[1][2]], vec![k[1][1], k[0][2]]),
        ]);
    }
    // Clock: any time may pass between the parts, and anything may be sent meanwhile
    {
        let pend: Vec<Vec<usize>> = vec![vec![], keys.iter().map(|k| k[0]).collect(), keys.iter().map(|k| k[3]).collect(), keys.iter().enumerate().map(|(i, k)| k[i % 4]).collect()];
        let then: Vec<usize> = keys[0].iter().chain(&keys[3]).copied().collect();
        time_passes(run, "time between any two sentences", &sys, &pend, &evs, if th { &evs } else { &then }, &probes);
    }
    let gaps: Vec<i64> = vec![1, 2, 5, 10, 30, 59, 60, 61, 120, 300, 600, 899, 900, 901, 3599, 3600, 3601, 7200, 43200, 86399, 86400, 86401, 604800, 2_592_000, 31_536_000, 315_360_000, -1, -60, -3600, -86400, -31_536_000];
    let rad = [2, 3, gaps.len()];
    run.par("time between the parts", prod(&rad), |ctx, i| {
        let [ord, t, g] = digits(i, rad);
        let pay = t5_payload(t);
        let p = Pres { chan: "A", ..P0 };
        let now = NOW + gaps[g];
        clock::set(Some(now));
        let e = fresh(&vdm(&p, 1, 1, "", &pay, 0));
        let mut ss = vec![vdm(&p, 2, 1, "4", &pay[..40], 0), vdm(&p, 2, 2, "4", &pay[40..], 0)];
        if ord == 1 { ss.reverse(); }
        clock::set(Some(NOW));
        let mut q = NmeaParser::new();
        let o1 = feed(&mut q, &ss[0]);
        clock::set(Some(now));
        let o2 = feed(&mut q, &ss[1]);
        ctx.case_at(true, &[&ss[0], &ss[1]], now);
        ctx.traces += 1;
        ctx.calls += 2;
        ctx.tally(&o2);
        if o1 != Out::Incomplete || o2 != e { ctx.violate("time", vec![Step::at(&ss[0], Some(NOW)), Step::at(&ss[1], Some(now))], e.short(), format!("{} {}", o1.short(), o2.short()), String::new()); }
    });
}

/// Very long histories of one parser: `cycle` over and over, with `wait` pending all the time and completed
/// by `fin` at the end. Nothing wears out, wraps round or is cleared on the way.
fn endurance(run: &mut Run, sys: &Sys, cases: &[(Vec<usize>, Vec<usize>, Vec<usize>)]) {
    let ns: Vec<usize> = if run.thorough { vec![300, 1030, 4100, 17_000, 66_000, 140_000, 1_100_000] } else { vec![300, 1030, 4100, 17_000, 66_000] };
    let rad = [cases.len(), ns.len()];
    run.par("long histories of one parser", prod(&rad), |ctx, i| {
        let [c, k] = digits(i, rad);
        let (cyc, wait, fin) = &cases[c];
        let mut seq = wait.clone();
        for _ in 0..ns[k] { seq.extend(cyc); }
        seq.extend(fin);
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, sys, "long-history", &[&seq]);
    });
}

/// With 0 to many messages of each kind waiting: any complete sentence, also of a vessel or with the identifiers of
/// one of those that wait, then everything is completed. `kinds`: weights of fragments, groups and halves.
pub fn crowded(run: &mut Run, name: &str, kinds: &[usize; 3]) {
    let ns: Vec<usize> = if run.thorough { (1..=20).chain([31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200]).collect() } else { (1..=9).chain([15, 16, 17, 32, 33, 64, 65, 100]).collect() };
    let ms = messages();
    let names: Vec<usize> = (0..ms.len()).filter(|&i| ms[i].name != "t24").collect();
    let gnss = ["$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "$GPGSV,1,1,01,11,22,033,44", "$GPXYZ,1", "!AIVDM,1,1,,A,80000000000,0", "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0*00", "!AIVDM,3,1,1,A,15RTgt,0", "!AIVDM,2,3,1,A,15RTgt,0", "$GPGSV,2,3,01,11,22,033,44"];
    let m = names.len() * 2 + gnss.len() * 2;
    let rad = [2, 3, m, ns.len()];
    let kinds = *kinds;
    let (ms, names) = (&ms, &names);
    run.par(name, prod(&rad), |ctx, i| {
        let [ord, who, x, k] = digits(i, rad);
        let n = ns[k];
        let target = [0, n / 2, n - 1][who];
        if who > 0 && n == 1 || who == 1 && n == 2 { return; }
        let mut sys = Sys::new();
        let mut parts: Vec<Vec<usize>> = vec![];
        let ids: Vec<String> = (0..n).map(|j| (j % 10 + j / 40 * 10).to_string()).collect();
        for j in 0..n {
            if kinds[2] > 0 { parts.push(sys.vessel(230_000_000 + 17 * j as u64, false, &[halves(j % 5, false)], j % 2 == 0)); }
            if kinds[0] > 0 { let c = cut(&t5_of(j % 20, 230_000_000 + 17 * j as u64), 33); parts.push(sys.key(["AI", "BS"][j / 20 % 2], false, &ids[j], ["A", "B"][j / 10 % 2], &[c], true)); }
            if kinds[1] > 0 { parts.push(sys.group(&format!("{}{}", (b'A' + (j / 26 + 6) as u8 % 9) as char, (b'A' + (j % 26) as u8) as char), 2, 1, true)); }
        }
        let s = if x < names.len() * 2 {
            let mut b = typical(&ms[names[x / 2]]);
            b.set(8, 30, 230_000_000 + 17 * target as u64);
            let p = Pres { vdo: x % 2 == 1, chan: ["A", "B"][target / 10 % 2], ..P0 };
            vdm(&p, 1, 1, if x % 2 == 1 { &ids[target] } else { "" }, &armour(&b), 0)
        } else {
            let y = x - names.len() * 2;
            if y % 2 == 1 && gnss[y / 2].ends_with("*00") { return; }
            if y % 2 == 0 { gnss[y / 2].to_string() } else { with_checksum(gnss[y / 2]) }
        };
        let e = sys.constant(&s);
        let mut q: Vec<usize> = parts.iter().map(|v| v[ord]).collect();
        q.push(e);
        if who == 1 { q.push(e); }
        if ord == 0 { q.extend(parts.iter().map(|v| v[1])); } else { q.extend(parts.iter().rev().map(|v| v[0])); }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, &sys, "crowded", &[&q]);
    });
}

/// Two parts on a new parser: the first waits, the second gives e; a repetition of the second then waits again.
fn pair(ctx: &mut Ctx, ss: &[String], e: &Out, label: &str) {
    let mut p = NmeaParser::new();
    ctx.traces += 1;
    ctx.case(true, &[&ss[0], &ss[1]]);
    let exp = [&Out::Incomplete, e, &Out::Incomplete, e];
    for (i, s) in [&ss[0], &ss[1], &ss[1], &ss[0]].iter().enumerate() {
        let o = feed(&mut p, s);
        ctx.calls += 1;
        if i % 2 == 1 { ctx.tally(&o); }
        if o != *exp[i] {
            let st = [&ss[0], &ss[1], &ss[1], &ss[0]][..=i].iter().map(|s| Step::at(s, Some(NOW))).collect();
            ctx.violate(label, st, exp[i].short(), o.short(), String::new());
            return;
        }
    }
    if ctx.samples.is_empty() { ctx.sample(|| format!("{:?} -> {}", ss, clip(&e.short(), 200))); }
}

/// n messages pending at once, completed in several orders.
fn many(run: &mut Run, th: bool) {
    let ns: Vec<usize> = (1..=40).chain([50, 63, 64, 65, 100, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 400, 511, 512, 513, 640]).chain(if th { vec![800, 1000, 1023, 1024, 1025, 2000, 2048, 3000, 4096, 4097, 5000, 10000, 16385, 32769, 65537] } else { vec![1000, 1025, 2000, 4097, 10001] }).collect();
    let talk = ["AI", "AB", "AD", "AN", "AR", "AS", "AT", "BS"];
    let chans = ["A", "B", "1", "2"];
    // number -> key: realistic ids first, then larger ones
    let key = move |i: usize| -> (Pres, String) {
        let p = Pres { talker: talk[i / 10 % 8], vdo: i / 80 % 2 == 1, chan: chans[i / 160 % 4], ..P0 };
        (p, (i % 10 + i / 640 * 10).to_string())
    };
    let rad = [4, 2, ns.len()];
    run.par("many messages pending at once", prod(&rad), |ctx, i| {
        let [ord, first, k] = digits(i, rad);
        let n = ns[k];
        let m = messages();
        let mm = by_name(&m, "t5");
        let base = typical(mm);
        clock::set(Some(NOW));
        let mut q = NmeaParser::new();
        let mut steps: Vec<Step> = vec![];
        let pay = |i: usize| { let mut b = base; b.set(8, 30, 200_000_000 + i as u64); b.set(40, 30, 1 + i as u64); armour(&b) };
        ctx.case(true, &[&format!("{} {} {}", ord, first, n)]);
        ctx.traces += 1;
        for j in 0..n {
            let (p, id) = key(j);
            let pay = pay(j);
            let s = if first == 0 { vdm(&p, 2, 1, &id, &pay[..35], 0) } else { vdm(&p, 2, 2, &id, &pay[35..], 0) };
            let o = feed(&mut q, &s);
            steps.push(Step::at(&s, Some(NOW)));
            ctx.calls += 1;
            if o != Out::Incomplete { return ctx.violate("pending", steps, "Incomplete".into(), o.short(), format!("{} pending", j)); }
        }
        for j in 0..n {
            let t = match ord { 0 => j, 1 => n - 1 - j, 2 => if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 }, _ => (j * 7 + 3) % n };
            if ord == 3 && n % 7 == 0 { continue; }
            let (p, id) = key(t);
            let pay = pay(t);
            let s = if first == 1 { vdm(&p, 2, 1, &id, &pay[..35], 0) } else { vdm(&p, 2, 2, &id, &pay[35..], 0) };
            let e = fresh(&vdm(&p, 1, 1, "", &pay, 0));
            let o = feed(&mut q, &s);
            steps.push(Step::at(&s, Some(NOW)));
            ctx.calls += 2;
            ctx.tally(&o);
            if o != e { return ctx.violate("pending", steps, e.short(), o.short(), format!("{} messages were pending", n)); }
        }
    });
}

// ------------------------------------------------------------------------------------ C05

pub fn satellites(run: &mut Run) {
    let th = run.thorough;
    // Two talkers, groups of 1, 2 and 3 parts, two contents each
    for (name, ta, tb) in [("GP and GL, groups of 1-3: every state and event", "GP", "GL"), ("two unknown talkers, groups of 1-3", "XA", "II")] {
        let mut sys = Sys::new();
        let mut gs = vec![];
        for t in [ta, tb] { for n in 1..=3 { gs.push((n, sys.group(t, n, 2, n != 2))); } }
        let evs: Vec<usize> = gs.iter().flat_map(|g| g.1.iter().copied()).collect();
        let tag = |rev: bool| -> Vec<usize> {
            let mut v = vec![];
            // first one part of every group, so that groups are open at the same time
            for r in 0..3 { for (n, g) in &gs { if r < *n { let k = if rev { n - 1 - r } else { r }; v.push(g[2 * k + rev as usize]); } } }
            v
        };
        let probes = vec![tag(false), tag(true)];
        let cyc: Vec<usize> = gs.iter().flat_map(|(n, g)| (0..*n).map(move |k| g[2 * k + 1])).chain(gs.iter().flat_map(|(n, g)| (0..*n).rev().map(move |k| g[2 * k]))).collect();
        explore(run, name, &sys, &evs, &evs, &probes, &[cyc], if th { 6 } else { 1 });
        let few: Vec<usize> = gs[1].1.iter().chain(&gs[2].1).chain(&gs[4].1[..2]).copied().collect();
        sequences(run, "every sequence over groups of 2 and 3", &sys, &few, if th { 6 } else { 5 }, &probes[1]);
    }
    {
        let mut sys = Sys::new();
        let a = sys.group("GA", 4, 2, true);
        let b = sys.group("GA", 5, 1, true);
        let evs: Vec<usize> = a.iter().chain(&b).copied().collect();
        let pr = vec![vec![a[0], b[0], a[2], b[1], a[4], b[2], a[6], b[3], b[4]], vec![b[4], a[7], b[3], a[5], b[2], a[3], b[1], a[1], b[0]]];
        explore(run, "groups of 4 and 5", &sys, &evs, &evs, &pr, &[a.clone()], if th { 8 } else { 4 });
        sequences(run, "every sequence over a group of 4", &sys, &a[..], if th { 8 } else { 6 }, &pr[0]);
    }
    // All arrival orders, with and without a repetition of one part
    let maxn = if th { 7 } else { 5 };
    for n in 2..=maxn {
        let mut sys = Sys::new();
        let g = sys.group("GB", n, 2, true);
        let perms = permutations(n);
        let rad = [n + 1, n + 1, perms.len()];
        run.par(&format!("all orders of {} parts", n), prod(&rad), |ctx, i| {
            let [rep, pos, k] = digits(i, rad);
            let mut seq: Vec<usize> = perms[k].iter().map(|&x| g[2 * x]).collect();
            // the part `rep` once more, with other content, before position `pos`
            if rep < n { if pos > n { return; } seq.insert(pos, g[2 * rep + 1]); } else if pos > 0 { return; }
            let tail: Vec<usize> = (0..n).map(|x| g[2 * x + 1]).collect();
            ctx.evals += 1;
            ctx.distinct_n += 1;
            trace(ctx, &sys, "order", &[&seq, &tail]);
        });
    }
    // Group sizes up to 255
    let rad = [4, 255];
    run.par("group sizes to 255", prod(&rad), |ctx, i| {
        let [ord, k] = digits(i, rad);
        let n = k + 1;
        if ord > 1 && n > 64 && !(th || n % 16 == 0 || n > 250) { return; }
        let mut sys = Sys::new();
        let g = sys.group("GP", n, 1, true);
        let o = sys.group("GL", n, 1, true);
        let seq: Vec<usize> = (0..n).map(|j| match ord { 0 => j, 1 => n - 1 - j, 2 => if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 }, _ => (j + n / 2) % n }).collect();
        let mut q = vec![];
        for &j in &seq { q.push(g[j]); if ord == 2 && n < 100 { q.push(o[j]); } }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        let again: Vec<usize> = if n <= 40 { q.clone() } else { vec![] };
        trace(ctx, &sys, "size", &[&q, &again]);
    });
    // Two groups of one talker whose sizes differ, open at the same time
    let szs: Vec<usize> = (1..=if th { 40 } else { 18 }).chain([20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 254, 255]).collect();
    let szs: Vec<usize> = { let mut v = szs; v.sort(); v.dedup(); v };
    let rad = [3, szs.len(), szs.len()];
    run.par("two sizes of one talker open at once", prod(&rad), |ctx, i| {
        let [ord, x, y] = digits(i, rad);
        let (n, m) = (szs[x], szs[y]);
        if n == m || (!th && n + m > 150 && ord > 0) { return; }
        let mut sys = Sys::new();
        let a = sys.group("GP", n, 1, false);
        let b = sys.group("GP", m, 1, true);
        let mut q = vec![];
        match ord {
            // all but the last of both, then the last ones
            0 => { q.extend(&a[..n - 1]); q.extend(&b[..m - 1]); q.push(a[n - 1]); q.push(b[m - 1]); }
            // all but the first of both
            1 => { q.extend(a[1..].iter().rev()); q.extend(b[1..].iter().rev()); q.push(b[0]); q.push(a[0]); }
            // alternating
            _ => for k in 0..n.max(m) { if k < n { q.push(a[k]); } if k < m { q.push(b[m - 1 - k]); } },
        }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, &sys, "two-sizes", &[&q]);
    });
    // Part numbers and group sizes: 0 or above N is rejected and leaves no trace
    let rad = [256, 256, 3];
    run.par("every part number and group size", prod(&rad), |ctx, i| {
        let [n, k, t] = digits(i, rad);
        if !th && n > 20 && k > 20 && !(n >= 250 || k >= 250 || n % 10 == 7) { return; }
        let talker = ["GP", "GL", "XX"][t];
        let mut sys = Sys::new();
        let g = sys.group(talker, 2, 1, true);
        let s = with_checksum(&format!("${}GSV,{},{},04,05,11,222,33,06,12,223,34", talker, n, k));
        let act = if n == 2 && (k == 1 || k == 2) { return; } else if k == 0 || k > n { Act::Reject } else if n == 1 {
            sys.sats.push(vec![[V::I(5), V::I(11), V::I(222), V::I(33)], [V::I(6), V::I(12), V::I(223), V::I(34)]]);
            sys.groups.push(Group { talker: talker.into(), n: 1, base: 2 });
            sys.slots += 1;
            Act::Gsv { group: 1, part: 1, content: sys.sats.len() as u16 - 1 }
        } else { Act::Const(Out::Incomplete) };
        let e = sys.add(s, act);
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, &sys, "numbers", &[&[g[0], e, g[1], e, g[1], g[0]]]);
    });
    // Satellite values: every value, absent, unreadable
    let mut vals: Vec<(String, [V; 3])> = vec![];
    let num = |s: &str| -> [V; 3] {
        // elevation (u8), azimuth (u16), snr (u8)
        let f = |max: i64| s.parse::<i64>().ok().filter(|v| (0..=max).contains(v)).map_or(V::Non, V::I);
        [f(255), f(65535), f(255)]
    };
    for v in 0..=(if th { 999 } else { 400 }) { for w in 1..=3 { let s = format!("{:0w$}", v, w = w); if !vals.iter().any(|x| x.0 == s) { vals.push((s.clone(), num(&s))); } } }
    for s in ["", "x", "4x", "-1", "1.5", "0x1F", "é", "--", "65535", "65536", "99999", "4294967296", "18446744073709551616"] { vals.push((s.into(), num(s))); }
    let rad = [3, 4, 4, vals.len()];
    run.par("every satellite value in every place", prod(&rad), |ctx, i| {
        let [f, j, cnt, v] = digits(i, rad);
        let cnt = cnt + 1;
        if j >= cnt { return; }
        let mut s = format!("$GPGSV,1,1,{:02}", cnt);
        let mut l = vec![];
        for k in 0..cnt {
            let mut w = ["41".to_string(), "203".to_string(), "35".to_string()];
            let mut o = [V::I(41), V::I(203), V::I(35)];
            if k == j { w[f] = vals[v].0.clone(); o[f] = vals[v].1[f].clone(); }
            s += &format!(",{:02},{},{},{}", 3 + k, w[0], w[1], w[2]);
            let [a, b, c] = o;
            l.push([V::I(3 + k as i64), a, b, c]);
        }
        let mut sys = Sys::new();
        sys.groups.push(Group { talker: "GP".into(), n: 1, base: 0 });
        sys.slots = 1;
        sys.sats.push(l);
        let e = sys.add(s.clone(), Act::Gsv { group: 0, part: 1, content: 0 });
        ctx.case(true, &[&s]);
        trace(ctx, &sys, "value", &[&[e]]);
    });
    // The number of satellites in view says nothing about those listed
    let mut iv: Vec<String> = (0..=255).map(|x| format!("{:02}", x)).collect();
    iv.extend(["", "0", "1", "2", "3", "4", "9", "001", "003", "007"].map(String::from));
    let rad = [iv.len(), iv.len(), 4, 4, 3];
    run.par("every number of satellites in view over every number listed", prod(&rad), |ctx, i| {
        let [v, u, c, d, kind] = digits(i, rad);
        // one sentence; two that agree; two that differ
        if kind < 2 && u > 0 || kind == 0 && d > 0 { return; }
        if kind == 2 && !th && (u % 16 > 5 || (u + v) % 8 != 0) { return; }
        let n = if kind == 0 { 1 } else { 2 };
        let mut sys = Sys::new();
        sys.groups.push(Group { talker: "GP".into(), n, base: 0 });
        sys.slots = n;
        let mut g = vec![];
        for p in 0..n {
            let mut s = format!("$GPGSV,{},{},{}", n, p + 1, iv[if p == 1 && kind == 2 { u } else { v }]);
            let mut l = vec![];
            for k in 0..=[c, d][p] { let q = 3 + 4 * p + k; s += &format!(",{:02},{:02},{:03},{:02}", q, 40 + q, 100 + q, 20 + q); l.push([V::I(q as i64), V::I(40 + q as i64), V::I(100 + q as i64), V::I(20 + q as i64)]); }
            sys.sats.push(l);
            g.push(sys.add(if v % 2 == 0 { with_checksum(&s) } else { s }, Act::Gsv { group: 0, part: p + 1, content: p as u16 }));
        }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        let r: Vec<usize> = g.iter().rev().copied().collect();
        trace(ctx, &sys, "in-view", &[&g, &r]);
    });
    // A repeated part whose content is akin to the one it replaces: the later counts, whatever the two share
    let full: [[i64; 4]; 4] = [[3, 41, 203, 35], [4, 42, 204, 36], [5, 43, 205, 37], [6, 44, 206, 38]];
    // (satellites by number, change of a value, written number in view, absent values, with a checksum, wide numbers)
    let akin: Vec<(Vec<usize>, Option<(usize, usize, i64)>, &str, u16, bool, bool)> = vec![
        (vec![0, 1, 2, 3], None, "08", 0, false, false),
        (vec![0, 1, 2, 3], None, "08", 0, true, false),
        (vec![0, 1, 2], None, "08", 0, false, false),
        (vec![0, 1], None, "08", 0, true, false),
        (vec![0], None, "08", 0, false, false),
        (vec![], None, "08", 0, false, false),
        (vec![3, 2, 1, 0], None, "08", 0, false, false),
        (vec![1, 0, 2, 3], None, "08", 0, true, false),
        (vec![1, 2, 3], None, "08", 0, false, false),
        (vec![0, 1, 2, 3], None, "09", 0, false, false),
        (vec![0, 1, 2, 3], None, "", 0, true, false),
        (vec![0, 1, 2, 3], None, "08", 0, false, true),
        (vec![0, 1, 2, 3], Some((3, 3, 39)), "08", 0, false, false),
        (vec![0, 1, 2, 3], Some((0, 1, 40)), "08", 0, false, false),
        (vec![0, 1, 2, 3], Some((0, 0, 7)), "08", 0, true, false),
        (vec![0, 1, 2, 3], Some((1, 2, 359)), "08", 0, false, false),
        (vec![0, 1, 2, 3], None, "08", 0b100_100_100_100, false, false),
        (vec![0, 1, 2, 3], None, "08", 0b100_000_000_000, false, false),
        (vec![0, 1, 2, 3], None, "08", 0b111_111_111_111, true, false),
        (vec![0, 0, 0, 0], None, "08", 0, false, false),
    ];
    let gsv_akin = |talker: &str, n: usize, p: usize, k: usize| -> (String, Vec<[V; 4]>) {
        let (who, ch, iv, no, cks, wide) = &akin[k];
        let mut s = format!("${}GSV,{},{},{}", talker, n, p, iv);
        let mut l = vec![];
        for (at, &w) in who.iter().enumerate() {
            let mut x = full[w];
            if let Some((a, f, v)) = ch { if *a == at { x[*f] = *v; } }
            x[0] += 10 * (p as i64 - 1);
            let mut o = [V::I(x[0]), V::Non, V::Non, V::Non];
            s += &if *wide { format!(",{:03}", x[0]) } else { format!(",{:02}", x[0]) };
            for f in 1..4 {
                if no >> (3 * at + f - 1) & 1 == 1 { s.push(','); continue; }
                s += &if *wide { format!(",{:04}", x[f]) } else { format!(",{:02}", x[f]) };
                o[f] = V::I(x[f]);
            }
            l.push(o);
        }
        (if *cks { with_checksum(&s) } else { s }, l)
    };
    let na = akin.len();
    let rad = [2, 3, na, na, na];
    run.par("repeated parts with related contents", prod(&rad), |ctx, i| {
        let [n, p, x, y, z] = digits(i, rad);
        let n = n + 2;
        // one or two replacements
        if p >= n || !th && z > 0 && (x + y + z) % 3 != 0 { return; }
        let mut sys = Sys::new();
        sys.groups.push(Group { talker: "GP".into(), n, base: 0 });
        sys.slots = n;
        let mut put = |sys: &mut Sys, q: usize, k: usize| { let (s, l) = gsv_akin("GP", n, q + 1, k); sys.sats.push(l); let c = sys.sats.len() as u16 - 1; sys.add(s, Act::Gsv { group: 0, part: q + 1, content: c }) };
        let (a, b) = (put(&mut sys, p, x), put(&mut sys, p, y));
        let c = if z > 0 { Some(put(&mut sys, p, z)) } else { None };
        // the others have the contents that come first and second here
        let others: Vec<usize> = (0..n).filter(|&q| q != p).enumerate().map(|(j, q)| put(&mut sys, q, if j == 0 { x } else { y })).collect();
        let mut seq = vec![a, b];
        seq.extend(c);
        let mut late = others[..others.len() - 1].to_vec();
        late.extend(&seq);
        late.push(others[others.len() - 1]);
        seq.extend(&others);
        ctx.evals += 1;
        ctx.distinct_n += 1;
        // at the start, between the others, and twice
        trace(ctx, &sys, "akin", &[&seq, &late, &seq]);
    });
    // Every pattern of absent values, and the sentence ended after any of its fields
    let rad = [2, 17, 4096, 4];
    run.par("absent values and omitted trailing fields", prod(&rad), |ctx, i| {
        let [two, cutat, mask, cnt] = digits(i, rad);
        let cnt = cnt + 1;
        if mask >= 1 << (3 * cnt) || cutat > 4 * cnt { return; }
        if !th && two == 1 && (mask + cutat) % 3 != 0 { return; }
        // the sentence keeps `keep` of its satellite fields (cutat = 0: all)
        let keep = if cutat == 0 { 4 * cnt } else { cutat - 1 };
        let mut l = vec![];
        let mut f: Vec<String> = vec![];
        for k in 0..cnt {
            let full = [7 + k as i64, 21 + k as i64, 101 + k as i64, 31 + k as i64];
            let mut o: [V; 4] = [V::I(full[0]), V::Non, V::Non, V::Non];
            for q in 0..4 {
                if f.len() >= keep { break; }
                if q > 0 && mask >> (3 * k + q - 1) & 1 == 1 { f.push(String::new()); continue; }
                f.push(format!("{:02}", full[q]));
                o[q] = V::I(full[q]);
            }
            if 4 * k < keep { l.push(o); }
        }
        if cutat > 0 && f.len() == 4 * cnt { return; }
        let tail = if f.is_empty() { String::new() } else { format!(",{}", f.join(",")) };
        let mut sys = Sys::new();
        sys.groups.push(Group { talker: "GP".into(), n: two + 1, base: 0 });
        sys.slots = two + 1;
        sys.sats.push(l);
        let e = sys.add(format!("$GPGSV,{},1,{:02}{}", two + 1, cnt, tail), Act::Gsv { group: 0, part: 1, content: 0 });
        ctx.case(true, &[&sys.evs[e].s]);
        if two == 0 { trace(ctx, &sys, "absent", &[&[e]]); return; }
        sys.sats.push(vec![[V::I(44), V::I(5), V::Non, V::I(6)]]);
        let g = sys.add("$GPGSV,2,2,05,44,05,,06".into(), Act::Gsv { group: 0, part: 2, content: 1 });
        trace(ctx, &sys, "absent", &[&[g, e]]);
        trace(ctx, &sys, "absent", &[&[e, g]]);
    });
    // The same numbers written with leading zeros, each sentence in its own way
    let ways = |x: usize| -> Vec<String> { vec![x.to_string(), format!("{:02}", x), format!("{:03}", x), format!("{:05}", x)] };
    for n in 1..=(if th { 4 } else { 3 }) {
        let perms = permutations(n);
        let rad = [perms.len(), 3, 16usize.pow(n as u32)];
        run.par(&format!("numbers written with leading zeros, {} parts", n), prod(&rad), |ctx, i| {
            let [o, inview, w] = digits(i, rad);
            let mut sys = Sys::new();
            let g = sys.group("GP", n, 1, false);
            for k in 0..n {
                let x = w / 16usize.pow(k as u32) % 16;
                let f: Vec<String> = sys.evs[g[k]].s.split(',').map(String::from).collect();
                let v: usize = f[3].parse().unwrap();
                let s = [&[f[0].clone(), ways(n)[x % 4].clone(), ways(k + 1)[x / 4].clone(), [v.to_string(), format!("{:03}", v), f[3].clone()][inview].clone()], &f[4..]].concat().join(",");
                sys.evs[g[k]].s = if k % 2 == 0 { with_checksum(&s) } else { s };
            }
            let seq: Vec<usize> = perms[o].iter().map(|&k| g[k]).collect();
            ctx.evals += 1;
            ctx.distinct_n += 1;
            trace(ctx, &sys, "zeros", &[&seq, &seq]);
        });
    }
    // PRN numbers and the system of every talker
    let rad = [256, 4, 12];
    run.par("every satellite number and talker", prod(&rad), |ctx, i| {
        let [prn, j, t] = digits(i, rad);
        let talker = ["GP", "GL", "GA", "BD", "GI", "QZ", "GN", "GB", "II", "IN", "XX", "PQ"][t];
        let mut s = format!("${}GSV,1,1,04", talker);
        let mut l = vec![];
        for k in 0..4 {
            let n = if k == j { prn } else { 60 + k };
            s += &format!(",{:02},41,203,35", n);
            l.push([V::I(n as i64), V::I(41), V::I(203), V::I(35)]);
        }
        let mut sys = Sys::new();
        sys.groups.push(Group { talker: talker.into(), n: 1, base: 0 });
        sys.slots = 1;
        sys.sats.push(l);
        let e = sys.add(s.clone(), Act::Gsv { group: 0, part: 1, content: 0 });
        ctx.case(true, &[&s]);
        trace(ctx, &sys, "number", &[&[e, e]]);
    });
    {
        let mut sys = Sys::new();
        let (a, b, c) = (sys.group("GP", 2, 2, true), sys.group("GL", 3, 1, true), sys.group("GP", 3, 1, false));
        let d = sys.group("GA", 1, 1, true);
        endurance(run, &sys, &[
            (vec![a[0], a[2], a[3], a[1]], vec![b[0], c[2]], vec![b[2], b[1], c[0], c[1]]),
            (vec![b[2], b[0], b[1], d[0]], vec![a[1], c[1]], vec![c[0], c[2], a[2]]),
            (vec![a[0], a[1]], vec![b[1], c[0]], vec![a[3], b[0], b[2], c[2], c[1]]),
        ]);
    }
    // Time between the parts
    {
        let mut sys = Sys::new();
        let gs = [sys.group("GP", 2, 2, true), sys.group("GL", 3, 2, false), sys.group("GP", 3, 1, true)];
        let all: Vec<usize> = gs.iter().flatten().copied().collect();
        let pend = vec![vec![], vec![gs[0][0], gs[1][0], gs[1][2], gs[2][0], gs[2][1]], vec![gs[0][3], gs[1][5], gs[1][3], gs[2][2], gs[2][1]], vec![gs[1][5], gs[2][0]]];
        let probes = vec![vec![gs[0][2], gs[1][4], gs[2][2], gs[0][0], gs[1][0], gs[2][1]], vec![gs[2][1], gs[1][3], gs[0][1], gs[2][0], gs[1][1], gs[0][2]]];
        time_passes(run, "time between any two sentences", &sys, &pend, &all, &all, &probes);
    }
    let gaps: Vec<i64> = vec![1, 2, 3, 5, 10, 30, 59, 60, 61, 120, 300, 600, 899, 900, 901, 3599, 3600, 3601, 7200, 43200, 86399, 86400, 86401, 604800, 31_536_000, -1, -60, -3600, -86400, -31_536_000];
    let rad = [2, 3, gaps.len()];
    run.par("time between the parts", prod(&rad), |ctx, i| {
        let [ord, n, g] = digits(i, rad);
        let n = n + 2;
        let mut sys = Sys::new();
        let x = sys.group("GP", n, 1, false);
        clock::set(Some(NOW));
        let mut p = NmeaParser::new();
        let mut st = sys.start();
        let mut steps = vec![];
        ctx.evals += 1;
        ctx.distinct_n += 1;
        ctx.traces += 1;
        for k in 0..n {
            let e = x[if ord == 0 { k } else { n - 1 - k }];
            let now = NOW + gaps[g] * k as i64;
            clock::set(Some(now));
            steps.push(Step::at(&sys.evs[e].s, Some(now)));
            let ex = sys.step(&mut st, e);
            let o = feed(&mut p, &sys.evs[e].s);
            ctx.calls += 1;
            ctx.tally(&o);
            if let Some(w) = sys.judge(&ex, &o) { return ctx.violate("time", steps, w, o.short(), String::new()); }
        }
    });
    // Many groups open at once
    let ns: Vec<usize> = if th { vec![1, 2, 10, 50, 100, 200, 400, 676] } else { vec![1, 2, 10, 50, 100, 200, 400] };
    let rad = [2, 2, ns.len()];
    run.par("many groups open at once", prod(&rad), |ctx, i| {
        let [ord, sz, k] = digits(i, rad);
        let mut sys = Sys::new();
        let parts = 2 + sz;
        let mut gs = vec![];
        for t in 0..ns[k] {
            let talker = format!("{}{}", (b'A' + (t / 26 + 6) as u8 % 26) as char, (b'A' + (t % 26) as u8) as char);
            if talker.starts_with('P') { continue; }
            gs.push(sys.group(&talker, parts, 1, t % 2 == 0));
        }
        let mut q = vec![];
        for p in 0..parts { for g in 0..gs.len() { let g = if p + 1 == parts && ord == 1 { gs.len() - 1 - g } else { g }; q.push(gs[g][if ord == 1 { parts - 1 - p } else { p }]); } }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, &sys, "open", &[&q, &q]);
    });
}

// ------------------------------------------------------------------------------------ C06

/// Contents of the two halves of a type 24 report.
pub fn halves(tag: usize, aux: bool) -> [Bits; 2] {
    let ms = messages();
    let m = by_name(&ms, "t24");
    let mut b = typical(m);
    let t = tag as u64;
    let mut a = b.slice(0, T24);
    for k in 0..20 { a.set(40 + 6 * k, 6, if k < 6 + tag { 1 + (t * 7 + k as u64) % 26 } else { 0 }); }
    b.set(T24 + 40, 8, [37, 71, 0, 36, 89][tag % 5]);
    for k in 0..3 { b.set(T24 + 48 + 6 * k, 6, 1 + (t * 5 + k as u64) % 26); }
    b.set(T24 + 66, 4, (3 + t * 5) & 15);
    b.set(T24 + 70, 20, 0x12345 + t * 0x1111);
    for k in 0..7 { b.set(T24 + 90 + 6 * k as usize, 6, 1 + (t * 3 + k * 5) % 26); }
    b.set(T24 + 132, 30, if aux { 230_000_001 + t } else { (17 + t) << 21 | (33 + t) << 12 | (5 + t) << 6 | (9 + t) });
    [a, b.slice(T24, T24)]
}
/// Halves in which everything that can be empty is empty.
pub fn empty_halves() -> [Bits; 2] {
    let ms = messages();
    let m = by_name(&ms, "t24");
    let mut b = Bits::zeros(m.nbits);
    m.fix(&mut b);
    [b.slice(0, T24), b.slice(T24, T24)]
}

pub fn static_reports(run: &mut Run) {
    let th = run.thorough;
    let drain = |vs: &[Vec<usize>], first: usize| -> Vec<usize> {
        let mut v = vec![];
        for h in [first, 1 - first] { for k in vs { let t = k.len() / 2; v.push(k[h * t + t - 1]); } }
        v
    };
    // Three vessels (one auxiliary craft, one own vessel), three contents, one of them empty
    {
        let mut sys = Sys::new();
        let mut vs = vec![];
        for (i, (m, vdo)) in [(230_123_450u64, false), (982_301_234, false), (230_123_451, true)].iter().enumerate() {
            let aux = *m / 10_000_000 == 98;
            vs.push(sys.vessel(*m, *vdo, &[halves(i * 3, aux), empty_halves(), halves(i * 3 + 1, aux)], i != 1));
        }
        let bad: Vec<usize> = [2u64, 3].iter().flat_map(|&p| [230_123_450u64, 982_301_234, 999_999_999].iter().map(move |&m| (p, m)).collect::<Vec<_>>()).map(|(p, m)| {
            let mut b = halves(8, false)[p as usize - 2];
            b.set(8, 30, m);
            b.set(38, 2, p);
            let s = sentences_of(&b, &P0).remove(0);
            sys.add(s, Act::Reject)
        }).collect();
        let evs: Vec<usize> = vs.iter().flatten().copied().collect();
        let tested: Vec<usize> = evs.iter().chain(&bad).copied().collect();
        let probes = vec![drain(&vs, 0), drain(&vs, 1)];
        let cyc: Vec<usize> = vs.iter().flat_map(|v| [v[0], v[3], v[5], v[2]]).collect();
        explore(run, "3 vessels, 3 contents: every state and event", &sys, &evs, &tested, &probes, &[cyc], if th { 32 } else { 12 });
        let few: Vec<usize> = vs[0].iter().chain(&vs[2][1..5]).chain(&bad[..1]).copied().collect();
        sequences(run, "every sequence over 2 vessels", &sys, &few, if th { 6 } else { 5 }, &probes[1]);
        sequences(run, "every long sequence over 1 vessel", &sys, &vs[1], if th { 9 } else { 7 }, &probes[0]);
    }
    // Halves that arrive whole and in two parts, all mixed
    {
        let mut sys = Sys::new();
        let m = [230_123_450u64, 230_123_451];
        let mut vs = vec![];
        for i in 0..2 { vs.push(sys.vessel(m[i], false, &[halves(i * 2, false), halves(i * 2 + 1, false)], true)); }
        let mut ks = vec![];
        let pays = |sys: &Sys, i: usize, cutat: usize| -> Vec<(String, String)> { vs[i].iter().map(|&e| match sys.evs[e].act { Act::Half { content, .. } => cut(&armour(&sys.halves[content as usize]), cutat), _ => unreachable!() }).collect() };
        let mut p0 = pays(&sys, 0, 14);
        let p1 = pays(&sys, 1, 14);
        p0.extend(p1.into_iter().take(1).chain([]));
        let p0: Vec<(String, String)> = vec![p0[0].clone(), p0[2].clone(), p0[4].clone()];
        ks.push(sys.key("AI", false, "1", "A", &p0, true));
        let p2: Vec<(String, String)> = { let v = pays(&sys, 1, 9); vec![v[1].clone(), v[3].clone()] };
        ks.push(sys.key("AI", false, "2", "B", &p2, false));
        let evs: Vec<usize> = vs.iter().chain(&ks).flatten().copied().collect();
        let probes = vec![[drain(&ks, 0), drain(&vs, 0)].concat(), [drain(&ks, 1), drain(&vs, 1)].concat()];
        explore(run, "whole and split halves mixed", &sys, &evs, &evs, &probes, &[], if th { 8 } else { 1 });
    }
    // Related contents: name, call sign, vendor and ship type from small menus, in both orders, and both orders after one another
    {
        let words: [&[u64]; 7] = [&[], &[1, 2, 3], &[1, 2, 3, 4, 5, 6, 7], &[32, 32], &[1, 2, 32, 3], &[32, 1, 2], &[49, 50, 51]];
        let types = [0u64, 30, 36, 37, 71, 80, 99, 100, 255];
        let n7 = words.len();
        let rad = [2, 5, types.len(), n7, n7, n7, 4];
        run.par("related names, call signs, vendors and types", prod(&rad), |ctx, i| {
            let [ord, dim, ty, vn, cs, nm, who] = digits(i, rad);
            let mmsi = [230_123_450u64, 982_301_234, 230_123_451, 980_000_000][who];
            let mut h = [halves(0, who % 2 == 1), halves(1, who % 2 == 1)];
            let put = |b: &mut Bits, off: usize, n: usize, w: &[u64]| for k in 0..n { b.set(off + 6 * k, 6, w.get(k).copied().unwrap_or(0)); };
            let (mut a, mut b) = (h[0][0], h[0][1]);
            put(&mut a, 40, 20, words[nm]);
            b.set(40, 8, types[ty]);
            put(&mut b, 48, 3, words[vn]);
            put(&mut b, 90, 7, words[cs]);
            let mid = if who % 2 == 1 { 1 } else { 0 };
            match dim { 0 => b.set(132, 30, 0), 1 => b.set(132, 30, if mid == 1 { mmsi } else { (1 << 30) - 1 }), 2 => b.set(132, 30, if mid == 1 { 230_123_450 } else { 5 << 21 | 5 << 12 | 5 << 6 | 5 }), 3 => { b.set(66, 4, 0); b.set(70, 20, 0) } _ => { b.set(66, 4, 15); b.set(70, 20, 0xfffff) } }
            h[0] = [a, b];
            let mut sys = Sys::new();
            let x = sys.vessel(mmsi, false, &h, ord == 0);
            // this content in both orders, then with the halves of another content
            let seq = if ord == 0 { [x[0], x[2], x[2], x[0], x[1], x[2], x[0], x[3]] } else { [x[2], x[0], x[0], x[2], x[3], x[0], x[2], x[1]] };
            ctx.evals += 1;
            ctx.distinct_n += 1;
            trace(ctx, &sys, "related", &[&seq]);
        });
    }
    // Every bit of either half, and every value of its first fields, beside other waiting vessels; also as the later
    // copy of a half
    {
        let ns = [0usize, 1, 3, 17, 130];
        // bits outside type, vessel and part number; then the repeat indicator's values
        let free: Vec<usize> = (6..8).chain(40..T24).collect();
        let rad = [2, 2, 2, ns.len(), 2, free.len() + 4];
        run.par("halves with any other bit, beside waiting vessels", prod(&rad), |ctx, i| {
            let [half, ord, again, w, bg, k] = digits(i, rad);
            let bit = |b: &mut Bits| if k < free.len() { let v = b.get(free[k], 1); b.set(free[k], 1, 1 - v) } else { b.set(6, 2, (k - free.len()) as u64) };
            let who = [230_123_450u64, 982_301_234][bg];
            let mut sys = Sys::new();
            let mut h = [halves(0, bg == 1), halves(1, bg == 1)];
            h[0] = if bg == 0 { h[0] } else { let mut e = empty_halves(); e[0].set(38, 2, 0); e[1].set(38, 2, 1); e };
            bit(&mut h[0][half]);
            let x = sys.vessel(who, false, &h, ord == 0);
            let mut seq = vec![];
            for j in 0..ns[w] {
                let v = sys.vessels;
                sys.vessels += 1;
                sys.vdo.push(false);
                let mut b = halves(j % 3 + 2, false)[j % 2];
                b.set(8, 30, 210_000_000 + 7 * j as u64);
                sys.halves.push(b);
                let content = sys.halves.len() as u16 - 1;
                let s = sentences_of(&b, &P0).remove(0);
                seq.push(sys.add(s, Act::Half { vessel: v, half: (j % 2) as u8 + 1, content }));
            }
            // x: A, A', B, B'; the primed have the other content
            let (own, mate) = (x[2 * half], x[2 - 2 * half]);
            if again == 1 { seq.push(x[2 * half + 1]); }
            seq.extend(if ord == 0 { [own, mate] } else { [mate, own] });
            // both once more
            seq.extend([mate, own]);
            ctx.evals += 1;
            ctx.distinct_n += 1;
            trace(ctx, &sys, "any-bit", &[&seq]);
        });
    }
    // Every vessel number: neighbours and numbers that agree in the low bits do not mix
    let mm: Vec<u64> = {
        let mut v: Vec<u64> = vec![0, 1, 2, 9_999_999, 10_000_000, 979_999_999, 980_000_000, 980_000_001, 989_999_999, 990_000_000, 999_999_999, (1 << 30) - 1, (1 << 30) - 2];
        for k in 0..30 { v.push(230_123_450 ^ (1 << k)); v.push(982_301_234 ^ (1 << k)); v.push(1 << k); }
        v.extend([230_123_450, 982_301_234, 230_123_450 % 65536, 230_123_450 % 1_000_000, 230_123_450 % 256, 1_073_741_823 - 230_123_450]);
        v.sort();
        v.dedup();
        v
    };
    let rad = [2, mm.len(), mm.len()];
    run.par("every pair of vessel numbers", prod(&rad), |ctx, i| {
        let [ord, a, b] = digits(i, rad);
        if a == b { return; }
        let mut sys = Sys::new();
        let x = sys.vessel(mm[a], false, &[halves(0, mm[a] / 10_000_000 == 98)], true);
        let y = sys.vessel(mm[b], false, &[halves(1, mm[b] / 10_000_000 == 98)], true);
        let seq = if ord == 0 { [x[0], y[1], y[0], x[1], y[0]] } else { [x[1], y[0], y[1], x[0], y[1]] };
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, &sys, "vessels", &[&seq]);
    });
    // Many vessels waiting at once
    let ns: Vec<usize> = (1..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 1025, 2000, 4097, 10001]).chain(if th { vec![4096, 5000, 10000, 20000, 32000] } else { vec![] }).collect();
    let rad = [2, 3, ns.len()];
    run.par("many vessels waiting at once", prod(&rad), |ctx, i| {
        let [first, ord, k] = digits(i, rad);
        let n = ns[k];
        let mut sys = Sys::new();
        let (ha, hb) = (halves(0, false), halves(1, false));
        let mut q = vec![];
        sys.halves.reserve(2 * n);
        let mut vs = vec![];
        for j in 0..n {
            // contents are looked up linearly: keep the model small by hand
            let mmsi = 200_000_000 + j as u64 * 7;
            let v = sys.vessels;
            sys.vessels += 1;
            sys.vdo.push(false);
            let h = if j % 2 == 0 { ha } else { hb };
            let mut e = [0; 2];
            for s in 0..2 {
                let mut b = h[s];
                b.set(8, 30, mmsi);
                sys.halves.push(b);
                let content = (sys.halves.len() - 1) as u16;
                let t = sentences_of(&b, &P0).remove(0);
                e[s] = sys.add(t, Act::Half { vessel: v, half: s as u8 + 1, content });
            }
            vs.push(e);
        }
        for j in 0..n { q.push(vs[j][first]); }
        for j in 0..n { q.push(vs[match ord { 0 => j, 1 => n - 1 - j, _ => if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 } }][1 - first]); }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, &sys, "many", &[&q]);
    });
    crowded(run, "other messages of a vessel whose report waits among many", &[0, 0, 1]);
    {
        let mut sys = Sys::new();
        let mut v = vec![];
        for (i, m) in [230_123_450u64, 982_301_234, 230_123_451].iter().enumerate() { v.push(sys.vessel(*m, false, &[halves(i * 2, i == 1), halves(i * 2 + 1, i == 1)], true)); }
        endurance(run, &sys, &[
            (vec![v[0][0], v[0][2], v[0][3], v[0][1]], vec![v[1][0], v[2][3]], vec![v[1][3], v[2][0]]),
            (vec![v[1][2], v[1][1], v[2][0], v[2][3]], vec![v[0][2]], vec![v[0][0]]),
            (vec![v[2][0], v[2][1]], vec![v[0][0], v[1][3]], vec![v[0][3], v[1][0], v[2][2]]),
        ]);
    }
    // Time between the halves
    {
        let mut sys = Sys::new();
        let mut v = vec![];
        for (i, m) in [230_123_450u64, 982_301_234, 230_123_451].iter().enumerate() { v.push(sys.vessel(*m, i == 2, &[halves(i * 2, i == 1), halves(i * 2 + 1, i == 1)], i == 0)); }
        let all: Vec<usize> = v.iter().flatten().copied().collect();
        let pend = vec![vec![], v.iter().map(|k| k[0]).collect(), v.iter().map(|k| k[3]).collect(), vec![v[0][1], v[1][2], v[2][0]], vec![v[1][1]]];
        let probes = vec![drain(&v, 0), drain(&v, 1)];
        time_passes(run, "time between any two sentences", &sys, &pend, &all, &all, &probes);
    }
    let gaps: Vec<i64> = vec![1, 10, 59, 60, 61, 299, 300, 360, 361, 600, 900, 3599, 3600, 3601, 86399, 86400, 86401, 604800, 31_536_000, -1, -3600, -31_536_000];
    let rad = [2, gaps.len()];
    run.par("time between the halves", prod(&rad), |ctx, i| {
        let [ord, g] = digits(i, rad);
        let mut sys = Sys::new();
        let x = sys.vessel(230_123_450, false, &[halves(0, false)], true);
        clock::set(Some(NOW));
        let mut p = NmeaParser::new();
        let mut st = sys.start();
        let mut steps = vec![];
        ctx.evals += 1;
        ctx.distinct_n += 1;
        ctx.traces += 1;
        for (k, &e) in (if ord == 0 { [x[0], x[1]] } else { [x[1], x[0]] }).iter().enumerate() {
            let now = NOW + if k == 1 { gaps[g] } else { 0 };
            clock::set(Some(now));
            steps.push(Step::at(&sys.evs[e].s, Some(now)));
            let ex = sys.step(&mut st, e);
            let o = feed(&mut p, &sys.evs[e].s);
            ctx.calls += 1;
            ctx.tally(&o);
            if let Some(w) = sys.judge(&ex, &o) { return ctx.violate("time", steps, w, o.short(), String::new()); }
        }
    });
}
