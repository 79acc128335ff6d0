//! C03 (rejected sentences), C07 (unrelated traffic), C08 (independence) on the composite model, and C22 (retention).
use super::aismisc::{digits, prod};
use super::misc::corpus;
use super::stateful::*;
use crate::ais::*;
use crate::alloc;
use crate::clock;
use crate::engine::*;
use crate::obs::*;
use nmea_parser::NmeaParser;

/// A model with something of every kind of pending state.
pub struct World { pub sys: Sys, pub keys: Vec<Vec<usize>>, pub groups: Vec<Vec<usize>>, pub vessels: Vec<Vec<usize>> }
impl World {
    pub fn moves(&self) -> Vec<usize> { self.keys.iter().chain(&self.groups).chain(&self.vessels).flatten().copied().collect() }
    /// Everything completed once, `rev`: in the other order.
    pub fn probe(&self, rev: bool) -> Vec<usize> {
        let mut v = vec![];
        for h in [rev as usize, 1 - rev as usize] {
            for k in self.keys.iter().chain(&self.vessels) { let t = k.len() / 2; v.push(k[h * t + t - 1]); }
        }
        for g in &self.groups { if rev { v.extend(g.iter().rev()) } else { v.extend(g) } }
        v
    }
}
pub fn world(nkeys: usize, groups: &[(&str, usize)], vessels: usize, tags: usize) -> World {
    let mut sys = Sys::new();
    let mut w = World { sys: Sys::new(), keys: vec![], groups: vec![], vessels: vec![] };
    for i in 0..vessels {
        let m = [230_123_450, 982_301_234][i];
        let c: Vec<[Bits; 2]> = (0..tags).map(|t| halves(i * 2 + t, i == 1)).collect();
        w.vessels.push(sys.vessel(m, false, &c, true));
    }
    let ks: [(&'static str, bool, &str, &'static str); 3] = [("AI", false, "1", "A"), ("BS", true, "3", "B"), ("AI", false, "2", "A")];
    for i in 0..nkeys {
        let c: Vec<(String, String)> = (0..tags).map(|t| cut(&t5_of(i * 2 + t, [230_123_450, 982_301_234, 230_000_077][i]), 30 + 5 * t)).collect();
        let k = ks[i];
        w.keys.push(sys.key(k.0, k.1, k.2, k.3, &c, i == 0));
    }
    for (t, n) in groups { w.groups.push(sys.group(t, *n, tags, *n != 2)); }
    w.sys = sys;
    w
}

// ------------------------------------------------------------------------------------ rejects

fn corrupt(s: &str, how: usize) -> String {
    let body = match s.rfind('*') { Some(p) => &s[..p], None => s };
    let x = body.bytes().skip(1).fold(0u8, |a, b| a ^ b);
    format!("{}*{:02X}", body, x ^ [1, 0x10, 0x80, 0xFF][how])
}

/// Sentences that must be rejected on their own account.
pub fn rejects(w: &World) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    // Wrong checksums under every sentence that would change the state, also with foreign content
    let evil = world(3, &[("GP", 2), ("GL", 3), ("GA", 1)], 2, 2);
    let mut base: Vec<String> = w.sys.evs.iter().chain(&evil.sys.evs).map(|e| e.s.clone()).collect();
    for (a, b) in [(40, 41), (42, 43)] {
        for (t, o, id, ch) in [("AI", "VDM", "1", "A"), ("BS", "VDO", "3", "B"), ("AI", "VDM", "2", "A")] {
            base.push(format!("!{}{},2,1,{},{},{},0", t, o, id, ch, &t5_payload(a)[..33]));
            base.push(format!("!{}{},2,2,{},{},{},2", t, o, id, ch, &t5_payload(b)[33..]));
        }
    }
    for s in base.iter() { for k in 0..4 { v.push(corrupt(s, k)); } v.push(format!("{}*ZZ", s.split('*').next().unwrap())); v.push(format!("{}*0", s.split('*').next().unwrap())); }
    for s in corpus() { if s.contains(',') { v.push(corrupt(s, 1)); } }
    // Malformed counts and numbers in front of content that would match
    let frag = |o: &str, n: &str, k: &str, id: &str, ch: &str, pay: &str| format!("!AI{},{},{},{},{},{},0", o, n, k, id, ch, pay);
    let p = t5_payload(44);
    for bad in ["", "x", "2x", "-1", "1.0", "256", "258", "4294967298", "18446744073709551618", " 2", "2 ", "é", "²", "0x2", "A"] {
        for k in ["1", "2"] {
            v.push(frag("VDM", bad, k, "1", "A", &p[..33]));
            v.push(frag("VDM", bad, k, "2", "A", &p[33..]));
            v.push(frag("VDM", "2", bad, "1", "A", if k == "1" { &p[..33] } else { &p[33..] }));
            v.push(frag("VDO", "2", bad, "3", "B", if k == "1" { &p[..33] } else { &p[33..] }));
        }
        v.push(frag("VDM", "1", bad, "", "A", &p));
        for t in ["GP", "GL"] {
            if bad.is_empty() { continue; }
            v.push(format!("${}GSV,{},1,08,11,22,033,44", t, bad));
            v.push(format!("${}GSV,2,{},08,11,22,033,44", t, bad));
            v.push(format!("${}GSV,3,{},08,11,22,033,44", t, bad));
        }
    }
    for t in ["GP", "GL"] {
        for (n, k) in [("2", "0"), ("2", "3"), ("3", "0"), ("3", "4"), ("0", "0"), ("0", "1"), ("1", "2"), ("1", "0"), ("255", "0"), ("2", "255"), ("", ""), ("", "1"), ("2", ""), ("3", "")] {
            v.push(format!("${}GSV,{},{},08,11,22,033,44,12,23,034,45", t, n, k));
        }
        for s in [format!("${}GSV", t), format!("${}GSV,", t), format!("${}GSV,2", t), format!("${}GSV,,", t)] { v.push(s); }
    }
    v.push("!AIVDM".into());
    for h in ["!AIVDM,", "!AIVDM,2,", "!AIVDM,,,,,,", "!AIVDM,2,,1,A,", "!AIVDM,,1,1,A,"] { v.push(h.into()); }
    // Malformed headers around sentences that would match
    for s in [&base[..], &[frag("VDM", "2", "1", "1", "A", &p[..33]), frag("VDM", "2", "2", "1", "A", &p[33..])]].concat() {
        let body = s.split('*').next().unwrap();
        let (h, rest) = body.split_once(',').unwrap();
        for nh in [format!("{}X", h), format!("X{}", h), h[..h.len() - 1].to_string(), h[..1].to_string() + &h[2..], format!("{} ", h), h.replace('!', "$").replace("GSV", "GSX"), h[..3].to_string() + "ZZZ", h[1..].to_string(), h.to_lowercase(), h[..1].to_string(), String::new()] {
            if !["!", "$"].iter().any(|c| nh.starts_with(c)) || nh.len() != 6 || !["VDM", "VDO", "GSV", "GGA", "RMC", "GSA", "VTG", "GLL"].contains(&&nh[3..]) { v.push(format!("{},{}", nh, rest)); }
        }
        v.push(body.replace(',', ";"));
    }
    // Unsupported sentence and message types
    for f in ["ALM", "HDT", "TRF", "STN", "VBW", "XTC", "XTE", "ZDA", "BOD", "RMA", "ABC", "DBT"] { v.push(format!("$GP{},2,1,08,11,22,033,44", f)); v.push(format!("!AI{},2,1,1,A,{},0", f, &p[..33])); }
    for m in 0..64u64 {
        if super::aismisc::kind_of(m).is_some() || m == 24 { continue; }
        let mut b = Bits::zeros(168);
        b.set(0, 6, m);
        b.set(8, 30, 230_123_450);
        v.push(sentences_of(&b, &P0).remove(0));
    }
    for part in 2..4u64 {
        for m in [230_123_450u64, 982_301_234, 1] {
            for h in halves(9, false) { let mut b = h; b.set(8, 30, m); b.set(38, 2, part); v.push(sentences_of(&b, &P0).remove(0)); }
        }
    }
    // Invalid payload characters in a single-part message, whose header would match otherwise
    for e in w.vessels.iter().flatten() {
        let s = w.sys.evs[*e].s.split('*').next().unwrap().to_string();
        let f: Vec<&str> = s.split(',').collect();
        for pos in [0usize, 1, 6, 7, 13, 20, 27] {
            for c in ["Y", "Z", "[", "_", "^", "\\", "]", "x", "y", "z", "{", "~", " ", "/", "!", "é", "€"] {
                let mut q: String = f[5][..pos].to_string();
                q += c;
                q += &f[5][pos + 1..];
                let mut g: Vec<&str> = f.clone();
                g[5] = &q;
                v.push(g.join(","));
            }
        }
    }
    for c in ["X", "_", "~", "é"] { v.push(frag("VDM", "1", "1", "", "A", &format!("{}{}", &p[..70], c))); v.push(frag("VDM", "1", "1", "1", "A", &format!("{}{}", c, &p[1..]))); }
    // Malformed numeric, time and position fields
    for s in ["$GPGGA,123519,4807.038,N,01131.000,E,x,08,0.9,545.4,M,46.9,M,,", "$GPGGA,123519,4807.038,N,01131.000,E,1,xx,0.9,545.4,M,46.9,M,,", "$GPGGA,123519,4807.038,N,01131.000,E,1,08,x,545.4,M,46.9,M,,",
        "$GPGGA,12x519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "$GPGGA,123519,48x7.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "$GPGGA,123519,4807.038,N,0x131.000,E,1,08,0.9,545.4,M,46.9,M,,",
        "$GPRMC,225x46,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "$GPRMC,225446,A,4916.45,N,12311.12,W,x,054.7,191120,020.3,E", "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,y,191120,020.3,E", "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191x20,020.3,E",
        "$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,x,1.0,1.3", "$GPVTG,x,T,034.4,M,005.5,N,010.2,K", "$GPVTG,054.7,T,034.4,M,x,N,010.2,K", "$GPGLL,49x6.45,N,12311.12,W,225444,A", "$GPGLL,4916.45,N,12311.12,W,2x5444,A"] {
        // which of these are errors is C18's and C19's business: the ones that are must not leave a trace
        clock::set(Some(NOW));
        if fresh(s).is_err() { v.push(s.into()); v.push(with_checksum(s)); }
    }
    // No sentence at all
    for s in ["", " ", "x", "*", "**", "!", "$", "!*", "$*00", "AIVDM,2,1,1,A,", "#GPGSV,2,1,08", "é", "!éé,", "$GPGSV", "!AIVDM", "\u{0}", "\u{0},", "GPGSV,2,1,08,11,22,033,44"] { v.push(s.into()); }
    v.sort();
    v.dedup();
    // An accidentally valid line (a corrupted one that reads like another sentence) is no reject: decided by construction above
    v
}
/// Sentences that cannot be a result and must not leave a trace, but need not be errors.
pub fn no_data() -> Vec<String> {
    let p = t5_payload(45);
    let mut v = vec!["!AIVDM,2".to_string()];
    for (o, id, ch) in [("AIVDM", "1", "A"), ("BSVDO", "3", "B")] {
        for (n, k) in [("2", "0"), ("2", "3"), ("2", "255"), ("0", "0"), ("0", "1"), ("0", "2")] {
            v.push(format!("!{},{},{},{},{},{},0", o, n, k, id, ch, &p[..33]));
            v.push(format!("!{},{},{},{},{},{},0", o, n, k, id, ch, &p[33..]));
        }
    }
    v
}

/// Sentences with every odd content in every field, among them ones whose other fields match what is pending
/// in `world(2, [GP 2, GL 3], 1, 1)`. Split into those a new parser rejects and those it answers at once.
fn odd_fields(pairs: bool) -> (Vec<String>, Vec<String>) {
    let n = super::total::nasty();
    let p = t5_payload(46);
    let mut bases: Vec<String> = vec!["$GPGSV,2,1,08,11,22,033,44,12,23,034,45,13,,,", "$GPGSV,2,2,08,11,22,033,44", "$GLGSV,3,1,11,61,22,033,44", "$GLGSV,3,2,11,,,,", "$GLGSV,3,3,11,61,22,033,44,62,23,034,", "$GPGSV,1,1,01,61,22,033,44",
        "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3", "$GLVTG,054.7,T,034.4,M,005.5,N,010.2,K,D", "$GPGLL,4916.45,N,12311.12,W,225444,A,D", "$GPZDA,160012.71,11,03,2004,-1,00"].iter().map(|s| s.to_string()).collect();
    for (h, id, ch) in [("!AIVDM", "1", "A"), ("!BSVDO", "3", "B")] {
        bases.push(format!("{},2,1,{},{},{},0", h, id, ch, &p[..33]));
        bases.push(format!("{},2,2,{},{},{},2", h, id, ch, &p[33..]));
        bases.push(format!("{},1,1,{},{},{},2", h, id, ch, p));
        for x in halves(9, false) { let mut b = x; b.set(8, 30, 230_123_450); bases.push(format!("{},1,1,{},{},{},0", h, id, ch, armour(&b))); }
    }
    let mut all: Vec<String> = vec![];
    for b in &bases {
        let f: Vec<&str> = b.split(',').collect();
        for i in 0..f.len() + 1 {
            for x in &n {
                if x.len() > 64 { continue; }
                let mut g = f.clone();
                if i < f.len() { g[i] = x; } else { g.push(x); }
                let s = g.join(",");
                if s.is_ascii() && i % 2 == 0 { all.push(with_checksum(&s)); } else { all.push(s); }
            }
            // a field missing, and nothing after it
            let mut g = f.clone();
            if i < f.len() { g.remove(i); all.push(g.join(",")); all.push(f[..i].join(",")); }
        }
        if pairs {
            for i in 1..f.len() { for j in i + 1..f.len() { for (x, y) in [("x", "x"), ("", "x"), ("x", ""), ("999", "x"), ("é", "-1")] { let mut g = f.clone(); g[i] = x; g[j] = y; all.push(g.join(",")); } } }
        }
    }
    all.sort();
    all.dedup();
    clock::set(Some(NOW));
    let (mut bad, mut good) = (vec![], vec![]);
    for s in all { match fresh(&s) { Out::Err(_) => bad.push(s), Out::Data(_) => good.push(s), _ => {} } }
    (bad, good)
}
/// Histories that leave parts of everything pending: none, first parts, second parts, both ways half and half.
fn pending(w: &World) -> Vec<Vec<usize>> {
    let pick = |f: &dyn Fn(usize) -> usize| -> Vec<usize> { w.keys.iter().chain(&w.vessels).enumerate().map(|(i, k)| k[f(i) * k.len() / 2]).collect() };
    let gs = |last: bool| -> Vec<usize> { w.groups.iter().flat_map(|g| if last { g[1..].to_vec() } else { g[..g.len() - 1].to_vec() }).collect() };
    vec![vec![], [pick(&|_| 0), gs(false)].concat(), [pick(&|_| 1), gs(true)].concat(), [pick(&|i| i % 2), gs(false)].concat()]
}
fn odd_in_states(run: &mut Run, name: &str, w: &World, evs: &[usize], every: usize) {
    let st = pending(w);
    let probes = [w.probe(false), w.probe(true)];
    let rad = [evs.len(), st.len(), 2];
    run.par(name, prod(&rad), |ctx, i| {
        let [e, z, p] = digits(i, rad);
        if (e + z * 2 + p) % every != 0 { return; }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        ctx.transitions += 1;
        trace(ctx, &w.sys, "odd-field", &[&st[z], &[evs[e], evs[e]], &probes[p][..]]);
    });
}

pub fn rejected(run: &mut Run) {
    let th = run.thorough;
    // Whatever a new parser rejects must leave no trace
    {
        let mut w = world(2, &[("GP", 2), ("GL", 3)], 1, 1);
        let (bad, _) = odd_fields(true);
        let evs: Vec<usize> = bad.into_iter().map(|s| w.sys.add(s, Act::Reject)).collect();
        run.notes.push(format!("{} sentences with odd fields that a new parser rejects", evs.len()));
        odd_in_states(run, "every rejected odd field in states with everything pending", &w, &evs, if th { 1 } else { 3 });
    }
    let mut w = world(2, &[("GP", 2), ("GL", 3)], 1, 1);
    let rj = rejects(&w);
    let moves = w.moves();
    let probes = vec![w.probe(false), w.probe(true)];
    let mut tested = vec![];
    for s in rj { tested.push(w.sys.add(s, Act::Reject)); }
    for s in no_data() { tested.push(w.sys.add(s, Act::NoData)); }
    run.notes.push(format!("{} rejected sentences", tested.len()));
    explore(run, "every rejected sentence in every state", &w.sys, &moves, &tested, &probes, &[], if th { 3 } else { 1 });
    // Two in a row, and between all steps of an assembly
    let pairs: Vec<usize> = (0..tested.len()).step_by(if th { 3 } else { 11 }).map(|i| tested[i]).collect();
    let rad = [pairs.len(), pairs.len(), 2];
    run.par("two rejected sentences in a row", prod(&rad), |ctx, i| {
        let [a, b, p] = digits(i, rad);
        ctx.evals += 1;
        ctx.distinct_n += 1;
        let pr = &probes[p];
        let h = pr.len() / 3;
        trace(ctx, &w.sys, "two-rejects", &[&pr[..h], &[pairs[a]], &pr[h..h + 1], &[pairs[b], pairs[a]], &pr[h + 1..], &pr[..]]);
    });
    // Repeated many times: nothing adds up
    let rad = [tested.len(), if th { 4 } else { 2 }];
    run.par("a rejected sentence many times", prod(&rad), |ctx, i| {
        let [a, k] = digits(i, rad);
        let n = [3, 40, 300, 1100][k];
        ctx.evals += 1;
        ctx.distinct_n += 1;
        let pr = &probes[0];
        trace(ctx, &w.sys, "repeated-reject", &[&pr[..2], &vec![tested[a]; n], &pr[2..]]);
    });
    // Some of them very many times, and all of them in turn for long
    let some: Vec<usize> = (0..tested.len()).step_by(if th { 9 } else { 101 }).map(|i| tested[i]).collect();
    let ns: &[usize] = if th { &[2050, 5000, 10_001, 66_000, 140_000] } else { &[5000, 10_001, 66_000] };
    let rad = [some.len() + 3, 2, ns.len()];
    run.par("rejected sentences for very long", prod(&rad), |ctx, i| {
        let [a, p, k] = digits(i, rad);
        if !th && ns[k] > 60_000 && (a + p) % 4 != 0 && a < some.len() { return; }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        let pr = &probes[p];
        let h = [2, pr.len() / 2][p];
        let mid: Vec<usize> = if a < some.len() { vec![some[a]; ns[k]] } else { (0..ns[k]).map(|j| tested[j * [1, 7, 1009][a - some.len()] % tested.len()]).collect() };
        trace(ctx, &w.sys, "long-reject", &[&pr[..h], &mid, &pr[h..]]);
    });
    // Content longer than anything else, and the same reject while many messages are pending
    let two = world(3, &[("GP", 2), ("GL", 3), ("GP", 3)], 2, 2);
    let mut two = two;
    let mv = two.moves();
    let probes2 = [two.probe(false), two.probe(true)];
    let mut t2 = vec![];
    for &e in &mv { let s = corrupt(&two.sys.evs[e].s.clone(), 0); t2.push(two.sys.add(s, Act::Reject)); }
    for part in 2..4u64 { for m in [230_123_450u64, 982_301_234] { let mut b = halves(9, false)[0]; b.set(8, 30, m); b.set(38, 2, part); let s = sentences_of(&b, &P0).remove(0); t2.push(two.sys.add(s, Act::Reject)); } }
    for t in ["GP", "GL"] { for (n, k) in [(2, 0), (2, 3), (3, 0), (3, 4), (0, 0)] { t2.push(two.sys.add(format!("${}GSV,{},{},08,11,22,033,44", t, n, k), Act::Reject)); } }
    // every pair (accepted, rejected, accepted) of a richer world
    let rad = [mv.len(), mv.len(), t2.len(), 2];
    run.par("rejected between any two accepted sentences", prod(&rad), |ctx, i| {
        let [a, b, r, p] = digits(i, rad);
        ctx.evals += 1;
        ctx.distinct_n += 1;
        trace(ctx, &two.sys, "between", &[&[mv[a], t2[r], mv[b], t2[r]], &probes2[p][..]]);
    });
}

// ------------------------------------------------------------------------------------ C07

/// Sentences that are complete messages, of every kind, full and empty.
pub fn singles() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let ms = messages();
    for m in &ms {
        if m.name == "t24" { continue; }
        let ps = presentations();
        v.push(sentences_of(&typical(m), &P0).remove(0));
        v.push(sentences_of(&not_available(m), &Pres { split: 0, ..ps[1] }).remove(0));
        // from and to the vessels whose reports are pending
        for (k, mmsi) in [230_123_450u64, 982_301_234].iter().enumerate() {
            let mut b = typical(m);
            b.set(8, 30, *mmsi);
            if m.name == "t6" || m.name == "t10" { b.set(40, 30, *mmsi); }
            v.push(sentences_of(&b, &Pres { vdo: k == 1, ..P0 }).remove(0));
        }
    }
    for s in ["$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "$GPGGA,,,,,,0,,,,,,,,", "$GLRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "$GPRMC,225446,V,,,,,,,191120,,",
        "$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3", "$GAGSA,M,1,,,,,,,,,,,,,,,", "$BDVTG,054.7,T,034.4,M,005.5,N,010.2,K,D", "$GPVTG,,,,,,,,", "$GAGLL,4916.45,N,12311.12,W,225444,A,D", "$GPGLL,,,,,,V,N",
        "$GPGSV,1,1,02,11,22,033,44,12,23,034,45", "$GLGSV,1,1,00", "$XXGSV,1,1,01,07,,,"] { v.push(s.into()); v.push(with_checksum(s)); }
    v
}
fn wrongs() -> Vec<String> {
    vec!["$GPALM,1,1,15,1159,00,441D,4E,16BE,FD5E,A10C9F,4A2DA4,686E81,58CBE1,0A4,001".into(), "$GPXYZ,1".into(), "garbage".into(), "".into(), "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0*00".into(), "$GPGGA,1x3519,,,,,,,,,,,,,".into(),
        "!AIVDM,1,1,,A,8000000000000000,0".into(), "$GPGSV,3,7,01".into()]
}

pub fn unrelated(run: &mut Run) {
    let th = run.thorough;
    // A complete message in every state
    let mut w = world(2, &[("GP", 2), ("GL", 3)], 2, 1);
    let moves = w.moves();
    let probes = [w.probe(false), w.probe(true)];
    let s: Vec<String> = singles();
    let mut tested = vec![];
    for x in s.iter().chain(&wrongs()) { tested.push(w.sys.constant(x)); }
    let ok = tested[..s.len()].iter().filter(|&&e| matches!(w.sys.evs[e].act, Act::Const(Out::Data(_)))).count();
    run.notes.push(format!("{} complete sentences, {} of them with a result", tested.len(), ok));
    if ok != s.len() {
        let bad = tested.iter().find(|&&e| !matches!(w.sys.evs[e].act, Act::Const(Out::Data(_)))).copied().unwrap();
        let e = w.sys.evs[bad].clone();
        run.par("complete sentences are answered at once", 1, |ctx, _| {
            ctx.evals += 1;
            ctx.violate("single", vec![Step::at(&e.s, Some(NOW))], "a result".into(), format!("{:?}", e.act), String::new());
        });
        return;
    }
    let all: Vec<usize> = tested.iter().chain(&moves).copied().collect();
    explore(run, "every complete sentence in every state", &w.sys, &moves, &all, &probes[..if th { 2 } else { 1 }], &[], if th { 4 } else { 1 });
    // Odd contents in every field: answered as by a new parser, and nothing pending is touched
    {
        let mut w = world(2, &[("GP", 2), ("GL", 3)], 1, 1);
        let (bad, good) = odd_fields(false);
        let n = good.len();
        let evs: Vec<usize> = good.iter().chain(&bad).map(|s| w.sys.constant(s)).collect();
        run.notes.push(format!("{} complete sentences with odd fields, {} with a result", evs.len(), n));
        odd_in_states(run, "every complete sentence with an odd field in states with everything pending", &w, &evs, if th { 1 } else { 4 });
    }
    // Messages of the vessels that wait, with any one field blank or all but one: nothing is filled in from what waits
    {
        let mut w = world(2, &[("GP", 2), ("GL", 3)], 2, 1);
        let mut seen = std::collections::BTreeSet::new();
        for m in messages().iter().filter(|m| m.name != "t24") {
            let (ty, na) = (typical(m), not_available(m));
            let mut bs = vec![ty.clone(), na.clone()];
            for f in &m.fields { for (base, from) in [(&ty, &na), (&na, &ty)] { let mut b = base.clone(); for k in f.off..f.off + f.len { b.put(k, from.bit(k)); } bs.push(b); } }
            for mmsi in [230_123_450u64, 982_301_234, 230_000_077] { for b in &bs {
                let mut b = b.clone();
                b.set(8, 30, mmsi);
                let k = seen.len() % 4;
                seen.insert(sentences_of(&b, &Pres { vdo: k == 1, chan: if k == 2 { "B" } else { "A" }, ..P0 }).remove(0));
            } }
        }
        let evs: Vec<usize> = seen.iter().filter(|s| matches!(fresh(s), Out::Data(_))).map(|s| w.sys.constant(s)).collect();
        run.notes.push(format!("{} messages of waiting vessels", evs.len()));
        odd_in_states(run, "messages of waiting vessels with fields left out", &w, &evs, 1);
    }
    // All sequences of complete sentences: nothing one leaves changes another's result
    let st: Vec<usize> = tested.clone();
    sequences(run, "every sequence of complete sentences", &w.sys, &st, if th { 4 } else { 3 }, &probes[0][..2]);
    crowded(run, "many messages of each kind waiting", &[1, 1, 1]);
    // Messages that can't be assembled, with the identifiers of those that wait: no result, and nothing is touched
    {
        let mut w = world(2, &[("GP", 2), ("GL", 3)], 1, 1);
        let mv = w.moves();
        let p = t5_payload(47);
        let mut evs = vec![];
        let ns: Vec<usize> = (3..=12).chain([99, 128, 200, 254, 255]).collect();
        for (h, id, ch) in [("!AIVDM", "1", "A"), ("!BSVDO", "3", "B")] {
            for &n in &ns { for k in [0usize, 1, 2, 3, n - 1, n, n + 1] { for x in [&p[..33], &p[33..], ""] { if n != 255 || k != 256 { evs.push(w.sys.add(format!("{},{},{},{},{},{},0", h, n, k, id, ch, x), Act::NoData)); } } } }
        }
        let pr = [w.probe(false), w.probe(true)];
        explore(run, "parts of messages of more parts in every state", &w.sys, &mv, &evs, &pr, &[], if th { 3 } else { 1 });
    }
    // Sequences of two, each message type twice with different content (full after empty and the reverse)
    let mut m = World { sys: Sys::new(), keys: vec![], groups: vec![], vessels: vec![] };
    let mut v = vec![];
    for x in messages().iter() {
        if x.name == "t24" { continue; }
        for b in backgrounds(x, run.seed) { for vdo in [false, true] { v.push(m.sys.constant(&sentences_of(&b, &Pres { vdo, ..P0 })[0])); } }
    }
    sequences(run, "every pair of AIS messages of any content", &m.sys, &v, 2, &[]);
    // Sentences with dates and times around the present, after one another while time passes or not
    {
        let gaps: &[i64] = if th { &[0, 1, 2, 59, 60, 61, 3600, 86400, 31_536_000, -1, -60, -86400] } else { &[0, 1, 86400, -1] };
        let t = Dated::new(&dated_moments(), gaps);
        run.notes.push(format!("{} sentences with dates around {} moments", t.ss[0].len(), t.ss.len()));
        let rad = [t.ss[0].len(), t.ss[0].len(), gaps.len(), t.ss.len()];
        run.par("every pair with dates around the present", prod(&rad), |ctx, i| {
            let [a, b, g, m] = digits(i, rad);
            let o = std::thread::scope(|sc| sc.spawn(|| {
                clock::set(Some(t.ms[m]));
                let mut p = NmeaParser::new();
                let x = feed(&mut p, &t.ss[m][a]);
                clock::set(Some(t.ms[m] + gaps[g]));
                let y = feed(&mut p, &t.ss[m][b]);
                [x, y]
            }).join().unwrap());
            ctx.evals += 1;
            ctx.distinct_n += 1;
            ctx.traces += 1;
            ctx.calls += 2;
            ctx.tally(&o[1]);
            let (ea, eb) = (t.at(m, None, a), t.at(m, Some(g), b));
            let st = || vec![Step::at(&t.ss[m][a], Some(t.ms[m])), Step::at(&t.ss[m][b], Some(t.ms[m] + gaps[g]))];
            if o[0] != *ea { return ctx.violate("dated", st()[..1].to_vec(), ea.short(), o[0].short(), String::new()); }
            if o[1] != *eb { ctx.violate("dated", st(), eb.short(), o[1].short(), "the second answer".into()); }
        });
    }
    // GNSS: every sentence of every talker after every other
    let mut g = World { sys: Sys::new(), keys: vec![], groups: vec![], vessels: vec![] };
    let mut v = vec![];
    for t in ["GP", "GL", "GA", "BD", "GI", "QZ", "GN", "II"] {
        for s in singles().iter().filter(|s| s.starts_with('$') && !s.contains('*')) { v.push(g.sys.constant(&format!("${}{}", t, &s[3..]))); }
    }
    sequences(run, "every pair of GNSS sentences of any talker", &g.sys, &v, 2, &[]);
    // After every sentence one with any field left out: nothing is filled in from before
    {
        let mut g = World { sys: Sys::new(), keys: vec![], groups: vec![], vessels: vec![] };
        let (mut full, mut part) = (vec![], vec![]);
        let bases = ["$GPGGA,123519,4807.038,S,01131.000,W,2,08,0.9,-545.4,M,-46.9,M,3,0120", "$GPGGA,235958,4916.450,N,12311.120,E,1,12,1.9,5.4,M,6.9,M,,", "$GPRMC,225446,A,4916.45,S,12311.12,W,000.5,054.7,191120,020.3,W,D", "$GPRMC,010203,V,4807.038,N,01131.000,E,022.5,154.7,290224,003.1,E,A",
            "$GPGSA,A,3,19,28,14,18,27,22,31,39,04,05,06,07,1.7,1.0,1.3", "$GPGSA,M,2,01,02,03,,,,,,,,,,2.7,2.0,2.3", "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,D", "$GPVTG,154.7,T,134.4,M,105.5,N,110.2,K,A", "$GPGLL,4916.45,S,12311.12,W,225444,A,D", "$GPGLL,4807.038,N,01131.000,E,010203,V,A", "$GPGSV,1,1,04,11,22,033,44,12,23,034,45,13,24,035,46,14,25,036,47"];
        for b in bases {
            let f: Vec<&str> = b.split(',').collect();
            full.push(g.sys.constant(b));
            for i in 1..f.len() {
                let mut h = f.clone();
                h[i] = "";
                part.push(g.sys.constant(&h.join(",")));
                part.push(g.sys.constant(&f[..i].join(",")));
                for j in i + 1..f.len().min(i + 5) { let mut h = h.clone(); h[j] = ""; part.push(g.sys.constant(&h.join(","))); }
            }
            full.push(*part.last().unwrap());
        }
        let ms = messages();
        let mut seen = std::collections::HashSet::new();
        for m in ms.iter().filter(|m| m.name != "t24") {
            let (ty, na) = (typical(m), not_available(m));
            for f in &m.fields {
                for (base, from) in [(ty, na), (na, ty)] {
                    let mut b = base;
                    for k in f.off..f.off + f.len { b.put(k, from.bit(k)); }
                    let s = sentences_of(&b, &P0).remove(0);
                    if seen.insert(s.clone()) { part.push(g.sys.constant(&s)); }
                }
            }
            for b in backgrounds(m, run.seed) { full.push(g.sys.constant(&sentences_of(&b, &P0)[0])); }
        }
        full.extend(&part);
        let rad = [part.len(), full.len()];
        run.notes.push(format!("{} sentences before {} with a field left out", full.len(), part.len()));
        run.par("after every sentence every one with a field left out", prod(&rad), |ctx, i| {
            let [b, a] = digits(i, rad);
            ctx.evals += 1;
            ctx.distinct_n += 1;
            trace(ctx, &g.sys, "left-out", &[&[full[a], part[b]]]);
        });
    }
    // The same message again, and in other clothes: every one answered as by a new parser
    {
        let mut g = World { sys: Sys::new(), keys: vec![], groups: vec![], vessels: vec![] };
        let mut fams: Vec<Vec<usize>> = vec![];
        let ms = messages();
        for (k, m) in ms.iter().enumerate() {
            if m.name == "t24" { continue; }
            let mut f = vec![];
            for (j, b) in [typical(m), not_available(m)].iter().enumerate() {
                let p = armour(b);
                for vdo in ["VDM", "VDO"] { for t in ["AI", "BS"] { for ch in ["A", "B", "", "1", "2"] { for id in ["", "1", "7"] {
                    if (t == "BS" || vdo == "VDO") && (id == "7" || ch == "2") || j == 1 && (t == "BS" || id == "7" || ch == "1") { continue; }
                    let s = format!("!{}{},1,1,{},{},{},{}", t, vdo, id, ch, p, (6 - m.nbits % 6) % 6);
                    f.push(g.sys.constant(&if (k + f.len()) % 2 == 0 { with_checksum(&s) } else { s }));
                } } } }
                f.push(g.sys.constant(&format!("!AIVDM,1,1,,A,{}0,0", p)));
                f.push(g.sys.constant(&format!("!AIVDM,1,1,,A,{},0*00", p)));
                f.push(g.sys.constant(&format!("!AIVDM,1,1,,A,{}~,0", p)));
            }
            fams.push(f);
        }
        for s in ["GGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "RMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "GSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3", "VTG,054.7,T,034.4,M,005.5,N,010.2,K,D", "GLL,4916.45,N,12311.12,W,225444,A,D", "GSV,1,1,02,11,22,033,44,12,23,034,45"] {
            let mut f = vec![];
            for t in ["GP", "GL", "GA", "BD", "GI", "QZ", "GN", "GB", "II", "IN"] {
                for c in ["$", "!", ""] { let s = format!("{}{}{}", c, t, s); f.push(g.sys.constant(&s)); if c == "$" { f.push(g.sys.constant(&with_checksum(&s))); f.push(g.sys.constant(&format!("{}*0", s))); f.push(g.sys.constant(&format!("{},", s))); f.push(g.sys.constant(&format!("{},1", s))); } }
            }
            fams.push(f);
        }
        run.notes.push(format!("{} messages in {} presentations", fams.len(), fams.iter().map(|f| f.len()).sum::<usize>()));
        let maxf = fams.iter().map(|f| f.len()).max().unwrap();
        let rad = [maxf, maxf, 5, fams.len()];
        run.par("the same message again in every other presentation", prod(&rad), |ctx, i| {
            let [a, b, how, f] = digits(i, rad);
            let f = &fams[f];
            if a >= f.len() || b >= f.len() { return; }
            let (x, y) = (f[a], f[b]);
            ctx.evals += 1;
            ctx.distinct_n += 1;
            let seq: Vec<usize> = match how { 0 => vec![x, y], 1 => vec![x, y, x], 2 => vec![x, x, y, y], 3 => vec![x, x, x, x, y, x, y, y], _ => vec![x, y, x, y, x, y] };
            trace(ctx, &g.sys, "again", &[&seq]);
        });
        let n = fams.len();
        let step = if th { 1 } else { 5 };
        let rad = [maxf, n, maxf, n];
        run.par("the same message again after another", prod(&rad), |ctx, i| {
            let [a, f, b, h] = digits(i, rad);
            if a >= fams[f].len() || b >= fams[h].len() || f == h || (a + b + f) % step != 0 { return; }
            let (x, y) = (fams[f][a], fams[h][b]);
            let z = fams[f][(a + 7) % fams[f].len()];
            ctx.evals += 1;
            ctx.distinct_n += 1;
            trace(ctx, &g.sys, "again-after", &[&[x, y, x, z, y, y, z]]);
        });
    }
    // Unrelated traffic between the parts: all interleavings of two assemblies, and long stretches of one kind
    let full = world(3, &[("GP", 2), ("GL", 3), ("GL", 2)], 2, 2);
    let mut asm: Vec<Vec<usize>> = vec![];
    for k in &full.keys { asm.push(vec![k[0], k[2]]); asm.push(vec![k[3], k[1]]); asm.push(vec![k[1], k[0], k[3]]); }
    for k in &full.vessels { asm.push(vec![k[0], k[2]]); asm.push(vec![k[3], k[1]]); asm.push(vec![k[1], k[0], k[3]]); }
    for k in &full.groups { let mut a: Vec<usize> = (0..k.len() / 2).map(|x| k[2 * x]).collect(); asm.push(a.clone()); a.reverse(); asm.push(a.clone()); a.insert(1, k[1]); asm.push(a); }
    let n = asm.len();
    // three assemblies at once, all interleavings
    let inter = |l: [usize; 3]| -> Vec<Vec<u8>> {
        fn go(l: [usize; 3], cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
            if l == [0, 0, 0] { out.push(cur.clone()); return; }
            for k in 0..3 { if l[k] > 0 { let mut m = l; m[k] -= 1; cur.push(k as u8); go(m, cur, out); cur.pop(); } }
        }
        let mut out = vec![];
        go(l, &mut vec![], &mut out);
        out
    };
    let mut cache: std::collections::HashMap<[usize; 3], Vec<Vec<u8>>> = Default::default();
    for a in 2..=4 { for b in 2..=4 { for c in 2..=4 { cache.insert([a, b, c], inter([a, b, c])); } } }
    let rad = [n, n, n];
    run.par("all interleavings of three assemblies", prod(&rad), |ctx, i| {
        let [a, b, c] = digits(i, rad);
        if !th && (a + b + c) % 3 != 0 { return; }
        for (k, o) in cache[&[asm[a].len(), asm[b].len(), asm[c].len()]].iter().enumerate() {
            if !th && k % 7 != (a + 2 * b) % 7 { continue; }
            let mut at = [0; 3];
            let seq: Vec<usize> = o.iter().map(|&x| { let l = [&asm[a], &asm[b], &asm[c]][x as usize]; at[x as usize] += 1; l[at[x as usize] - 1] }).collect();
            ctx.evals += 1;
            ctx.distinct_n += 1;
            if !trace(ctx, &full.sys, "interleaved", &[&seq]) { return; }
        }
    });
    // Long stretches between the parts
    let ns: Vec<usize> = (0..=20).chain([31, 32, 33, 49, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097]).chain(if th { vec![8192, 9999, 10000, 10001, 16384, 32768, 65535, 65536, 65537, 140_000] } else { vec![10001, 66_000] }).collect();
    let starts: Vec<Vec<usize>> = vec![full.probe(false), full.probe(true)];
    let mut fs = full;
    let t: Vec<usize> = singles().iter().chain(&wrongs()).map(|x| fs.sys.constant(x)).collect();
    // ever-new content: sentences that differ from one another
    let (t1, hv) = (typical(&messages()[0]), halves(0, false));
    let fresh_traffic = |j: usize, kind: usize| -> String {
        match kind {
            0 => { let mut b = t1; b.set(8, 30, 200_000_000 + j as u64); sentences_of(&b, &P0).remove(0) }
            1 => format!("$GPRMC,{:02}{:02}{:02},A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", j / 3600 % 24, j / 60 % 60, j % 60),
            2 => format!("!AIVDM,2,1,{},B,55P5TL01VIaAL@7WKO@mBplU@<PDhh000000001S;AJ::4A80?4i@E53,0", 10 + j),
            3 => { let mut b = hv[j % 2]; b.set(8, 30, 300_000_000 + j as u64); sentences_of(&b, &P0).remove(0) }
            4 => format!("$GPGSV,9,{},36,01,02,003,04", 1 + j % 8),
            _ => format!("$GPXYZ,{}", j),
        }
    };
    let rad = [t.len() + 6, 2, ns.len()];
    run.par("long stretches of unrelated traffic", prod(&rad), |ctx, i| {
        let [x, p, k] = digits(i, rad);
        let pr = &starts[p];
        let half = pr.len() / 2;
        ctx.evals += 1;
        ctx.distinct_n += 1;
        if ns[k] > 11_000 && !th && p == 1 { return; }
        if x < t.len() { trace(ctx, &fs.sys, "stretch", &[&pr[..half], &vec![t[x]; ns[k]], &pr[half..]]); return; }
        if ns[k] > 11_000 && !th { return; }
        // the traffic is not part of the model: its answers are not judged, only those of the assemblies
        clock::set(Some(NOW));
        let mut q = NmeaParser::new();
        let mut s = fs.sys.start();
        ctx.traces += 1;
        for (j, &e) in pr.iter().enumerate() {
            if j == half { for y in 0..ns[k] { let z = fresh_traffic(y, x - t.len()); feed_class(&mut q, &z); ctx.calls += 1; } }
            let ex = fs.sys.step(&mut s, e);
            let o = feed(&mut q, &fs.sys.evs[e].s);
            if let Some(why) = fs.sys.judge(&ex, &o) {
                let mut st: Vec<Step> = pr[..half].iter().map(|&e| Step::at(&fs.sys.evs[e].s, Some(NOW))).collect();
                for y in 0..ns[k] { st.push(Step::at(&fresh_traffic(y, x - t.len()), Some(NOW))); }
                st.extend(pr[half..=j].iter().map(|&e| Step::at(&fs.sys.evs[e].s, Some(NOW))));
                return ctx.violate("stretch-new", st, why, o.short(), String::new());
            }
        }
    });
    // Time passes, with everything pending and any sentence in between
    {
        let mut v = world(2, &[("GP", 2), ("GL", 3)], 2, 1);
        let mv = v.moves();
        let mut all = mv.clone();
        for x in ["$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "$GPZDA,160012.71,11,03,2004,-1,00", "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "!AIVDM,1,1,,A,403OviQuMGCqWrRO9>E6fE700@GO,0", "$GPXYZ,1"] { all.push(v.sys.constant(x)); }
        let pend = pending(&v);
        let pr = vec![v.probe(false), v.probe(true)];
        time_passes(run, "time between any two sentences", &v.sys, &pend, &all, if th { &all } else { &mv }, &pr);
    }
    // The answer does not depend on what the clock was before
    let times: Vec<i64> = super::aismisc::clocks();
    let rad = [t.len(), t.len(), times.len()];
    run.par("earlier sentences at other times", prod(&rad), |ctx, i| {
        let [a, b, c] = digits(i, rad);
        let (sa, sb) = (&fs.sys.evs[t[a]].s, &fs.sys.evs[t[b]].s);
        clock::set(Some(times[c]));
        let mut q = NmeaParser::new();
        feed(&mut q, sa);
        clock::set(Some(NOW));
        let o = feed(&mut q, sb);
        ctx.evals += 1;
        ctx.distinct_n += 1;
        ctx.calls += 2;
        if let Act::Const(e) = &fs.sys.evs[t[b]].act { if o != *e { ctx.violate("other-time", vec![Step::at(sa, Some(times[c])), Step::at(sb, Some(NOW))], e.short(), o.short(), String::new()); } }
    });
}

/// Sentences with dates and times around moments, and what a new parser on a new thread answers to each at the
/// moment and after each gap.
struct Dated { ms: Vec<i64>, ss: Vec<Vec<String>>, exp: Vec<Vec<Vec<Out>>> }
fn dated_moments() -> Vec<i64> {
    use super::aismisc::at;
    vec![NOW, at(2022, 12, 31, 23, 59, 59), at(2023, 1, 1, 0, 0, 0), at(2024, 2, 28, 23, 59, 59), at(2023, 6, 30, 23, 59, 58), at(2024, 12, 31, 12, 0, 0)]
}
impl Dated {
    fn new(ms: &[i64], gaps: &[i64]) -> Dated {
        let ss: Vec<Vec<String>> = ms.iter().map(|&m| dated(m)).collect();
        let exp = (0..ms.len()).map(|m| (0..=gaps.len()).map(|g| {
            let now = ms[m] + if g == 0 { 0 } else { gaps[g - 1] };
            ss[m].iter().map(|s| std::thread::scope(|sc| sc.spawn(|| { clock::set(Some(now)); fresh(s) }).join().unwrap())).collect()
        }).collect()).collect();
        Dated { ms: ms.to_vec(), ss, exp }
    }
    fn at(&self, m: usize, g: Option<usize>, s: usize) -> &Out { &self.exp[m][g.map_or(0, |g| g + 1)][s] }
}
fn dated(now: i64) -> Vec<String> {
    use crate::ais::civil;
    let ms = messages();
    let c = civil(now);
    let (y, l, n) = (c.0, civil(now - 86400), civil(now + 86400));
    let mut v = vec![];
    let t4 = super::aismisc::by_name(&ms, "t4");
    for (y, mo, d, h, mi, s) in [c, n, l, (y, 12, 31, 23, 59, 59), (y, 1, 1, 0, 0, 0), (y + 1, 1, 1, 0, 0, 0), (y - 1, 12, 31, 23, 59, 59), (y + 1, c.1, c.2, c.3, c.4, c.5), (y - 1, c.1, c.2, c.3, c.4, c.5), (y + 2, 6, 1, 12, 0, 0), (0, 0, 0, 24, 60, 60), (y, c.1, c.2, 24, 60, 60), (9999, 12, 31, 23, 59, 59)] {
        let mut b = typical(t4);
        b.set(38, 14, y as u64); b.set(52, 4, mo as u64); b.set(56, 5, d as u64); b.set(61, 5, h as u64); b.set(66, 6, mi as u64); b.set(72, 6, s as u64);
        v.push(sentences_of(&b, &P0).remove(0));
    }
    let t5 = super::aismisc::by_name(&ms, "t5");
    for (mo, d, h, mi) in [(c.1, c.2, c.3, c.4), (c.1, c.2, c.3, c.4 - 1), (c.1, c.2, 24, 60), (n.1, n.2, 0, 0), (l.1, l.2, 23, 59), (12, 31, 23, 59), (1, 1, 0, 0), (0, 0, 24, 60), (0, c.2, 12, 0), (c.1, 0, 12, 0), (6, 15, 12, 30), (2, 29, 1, 2)] {
        let mut b = typical(t5);
        b.set(274, 4, mo as u64); b.set(278, 5, d as u64); b.set(283, 5, h as u64); b.set(288, 6, mi.max(0) as u64);
        v.push(vdm(&P0, 1, 1, "", &armour(&b), 2));
    }
    for t in [c, n, l, (y, 12, 31, 23, 59, 59), (y + 1, 1, 1, 0, 0, 0), (y - 1, 12, 31, 23, 59, 59), (1999, 12, 31, 12, 0, 0)] { v.push(format!("$GPRMC,{:02}{:02}{:02},A,4916.45,N,12311.12,W,000.5,054.7,{:02}{:02}{:02},020.3,E,A", t.3, t.4, t.5, t.2, t.1, t.0 % 100)); }
    for h in [format!("{:02}{:02}{:02}", c.3, c.4, c.5), "235959".into(), "000000".into(), String::new()] {
        v.push(format!("$GPGGA,{},4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", h));
        v.push(format!("$GPGLL,4916.45,N,12311.12,W,{},A,D", h));
    }
    for n in ["t1", "t9", "t18", "t21"] { v.push(sentences_of(&typical(super::aismisc::by_name(&ms, n)), &P0).remove(0)); }
    v
}

// ------------------------------------------------------------------------------------ C08

struct Movable(NmeaParser);
unsafe impl Send for Movable {}

/// True if the type can be moved between threads (decided by the compiler).
macro_rules! is_send { ($t:ty) => {{
    struct W<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    trait No { const S: bool = false; }
    impl<T> No for W<T> {}
    #[allow(dead_code)]
    impl<T: Send> W<T> { const S: bool = true; }
    <W<$t>>::S
}} }

/// A thread that parses what it is given with the parser it is given.
struct Worker { tx: std::sync::mpsc::Sender<(Movable, String)>, rx: std::sync::mpsc::Receiver<(Movable, Out)> }
fn worker(sc: &std::sync::mpsc::Sender<()>) -> Worker {
    let (tx, r) = std::sync::mpsc::channel::<(Movable, String)>();
    let (t, rx) = std::sync::mpsc::channel();
    let _alive = sc.clone();
    std::thread::spawn(move || {
        let _a = _alive;
        clock::set(Some(NOW));
        for (m, s) in r { let mut m = m; let o = feed(&mut m.0, &s); if t.send((m, o)).is_err() { break; } }
    });
    Worker { tx, rx }
}

/// Interleavings inside calls: explored by the controlled scheduler of ../sched, built from the same tree
/// with a scheduling point at every edge and every access to static memory.
fn schedules(run: &mut Run) {
    let exe = verif_dir().join("sched/target/release/sched");
    let t = std::time::Instant::now();
    let o = match std::process::Command::new(&exe).arg(if run.thorough { "1" } else { "0" }).env("TZ", "IST-5:30").output() {
        Ok(o) => o,
        Err(e) => { eprintln!("{}: {}", exe.display(), e); std::process::exit(2) }
    };
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')).and_then(|r| r.parse::<u64>().ok())).unwrap_or(0);
    let bad: Vec<Vec<String>> = text.lines().filter(|l| l.starts_with("bad\t")).map(|l| l.split('\t').map(String::from).collect()).collect();
    let (n1, n2, nf) = (get("bound1"), get("bound2"), get("fresh"));
    let died = text.lines().find(|l| l.starts_with("died ") && ["signal: 4", "signal: 6", "signal: 7", "signal: 8", "signal: 11"].iter().any(|x| l.contains(x))).map(String::from);
    if !text.ends_with("end\n") || died.is_none() && text.contains("\ndied ") { eprintln!("the scheduler failed: {}", String::from_utf8_lossy(&o.stderr)); std::process::exit(2) }
    run.par("threads preempted inside calls", 1, |ctx, _| {
        if let Some(s) = &died { ctx.violate("preempted-death", vec![], "answers".into(), format!("the process {}", s), "two parsers on two threads, calls interleaved by the controlled scheduler".into()); }
        for b in &bad {
            let steps = b[5..].iter().map(|x| Step { parser: x.as_bytes()[0] - b'0', clock: Some(NOW), s: x[2..].to_string() }).collect();
            ctx.violate("preempted", steps, b[2].clone(), b[3].clone(), format!("{}: to be repeated with sched/target/release/{}", b[1], b[4]));
        }
        ctx.evals += n1 + n2 + nf;
        ctx.distinct_n += n1 + n2 + nf;
        ctx.traces += n1 + n2 + nf;
        ctx.calls += 2 * (n1 + n2 + nf);
    });
    run.transitions += get("switches");
    if let Some(x) = run.sections.last_mut() { x.2 = t.elapsed().as_secs_f64(); }
    run.notes.push(format!("schedules: {} pairs of calls, {} scheduling points in the calls alone ({} edges, {} loads and {} stores of static memory), {} schedules with one preemption, {} with two, {} in processes that had parsed nothing before ({} bytes of static memory written by first calls), {} thread switches, {} schedules in which the other thread was blocked, {} explorations cut short",
        get("pairs"), get("points"), get("edges"), get("static_loads"), get("static_stores"), n1, n2, nf, get("first_written"), get("switches"), get("blocked"), get("cut") + get("fresh_cut")));
}

pub fn independent(run: &mut Run) {
    let th = run.thorough;
    schedules(run);
    let w = world(1, &[("GP", 2)], 1, 1);
    let mut w = w;
    let extra = world(1, &[("GP", 2)], 1, 2);
    // Stream alphabet: both parts of a message, both parts of a group, both halves of a vessel, and complete sentences
    let mut evs = w.moves();
    let cs: Vec<usize> = ["$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "$GPXYZ,1"].iter().map(|s| w.sys.constant(s)).collect();
    evs.push(cs[0]);
    run.par("the parser can be sent to another thread", 1, |ctx, _| {
        ctx.case(true, &["send"]);
        if !is_send!(NmeaParser) { ctx.violate("not-send", vec![], "NmeaParser: Send".into(), "not Send".into(), "decided by the compiler for this build".into()); }
    });
    // The product of two models: every state of both, every event of either
    {
        let moves = w.moves();
        let g = Graph::new(&w.sys, &moves);
        let ns = g.states.len();
        run.states += (ns * ns) as u64;
        run.transitions += (ns * ns * 2 * moves.len()) as u64;
        let probes = [w.probe(false), w.probe(true)];
        let rad = [2, 3, 2, moves.len(), ns, ns];
        let g = &g;
        run.par("two parsers, every joint state and event", prod(&rad), |ctx, i| {
            let [pr, il, who, e, a, b] = digits(i, rad);
            // the two histories one after the other (either first) or alternating
            let h = [g.shortest(a as u32), g.shortest(b as u32)];
            let mut order: Vec<(usize, usize)> = vec![];
            match il { 0 => { order.extend(h[0].iter().map(|&e| (0, e))); order.extend(h[1].iter().map(|&e| (1, e))); } 1 => { order.extend(h[1].iter().map(|&e| (1, e))); order.extend(h[0].iter().map(|&e| (0, e))); }
                _ => for k in 0..h[0].len().max(h[1].len()) { for p in 0..2 { if let Some(&e) = h[p].get(k) { order.push((p, e)); } } } }
            order.push((who, moves[e]));
            for (j, &e) in probes[pr].iter().enumerate() { order.push((j % 2, e)); order.push((1 - j % 2, e)); }
            clock::set(Some(NOW));
            let mut ps = [NmeaParser::new(), NmeaParser::new()];
            let mut st = [w.sys.start(), w.sys.start()];
            ctx.evals += 1;
            ctx.distinct_n += 1;
            ctx.traces += 1;
            for (j, &(k, e)) in order.iter().enumerate() {
                let x = w.sys.step(&mut st[k], e);
                let o = feed(&mut ps[k], &w.sys.evs[e].s);
                ctx.calls += 1;
                if let Some(why) = w.sys.judge(&x, &o) {
                    let s = order[..=j].iter().map(|(k, e)| Step { parser: *k as u8, clock: Some(NOW), s: w.sys.evs[*e].s.clone() }).collect();
                    return ctx.violate("joint", s, why, o.short(), format!("parser {}", k));
                }
            }
        });
    }
    // All pairs of streams of length 3 in all interleavings, on one thread
    let n = evs.len();
    let len = 3;
    let masks: Vec<u32> = (0u32..1 << (2 * len)).filter(|m| m.count_ones() as usize == len).collect();
    let rad = [masks.len(), n, n, n, n, n, n];
    run.par("two parsers, all streams of 3, all interleavings", prod(&rad), |ctx, i| {
        let d = digits(i, rad);
        if !th && (d[1] + d[2] + d[3] + d[4] + d[5] + d[6] + d[0]) % 3 != 0 { return; }
        let streams = [[evs[d[1]], evs[d[2]], evs[d[3]]], [evs[d[4]], evs[d[5]], evs[d[6]]]];
        clock::set(Some(NOW));
        let mut ps = [NmeaParser::new(), NmeaParser::new()];
        let mut st = [w.sys.start(), w.sys.start()];
        let mut at = [0, 0];
        let mut steps: Vec<(u8, usize)> = vec![];
        ctx.evals += 1;
        ctx.distinct_n += 1;
        ctx.traces += 1;
        for b in 0..2 * len {
            let k = (masks[d[0]] >> b & 1) as usize;
            let e = streams[k][at[k]];
            at[k] += 1;
            steps.push((k as u8, e));
            let x = w.sys.step(&mut st[k], e);
            let o = feed(&mut ps[k], &w.sys.evs[e].s);
            ctx.calls += 1;
            if let Some(why) = w.sys.judge(&x, &o) {
                let s = steps.iter().map(|(k, e)| Step { parser: *k, clock: Some(NOW), s: w.sys.evs[*e].s.clone() }).collect();
                return ctx.violate("two-parsers", s, why, o.short(), format!("parser {}", k));
            }
        }
    });
    // One long stream against another with other contents, all interleavings
    let xe = extra.moves();
    let long: Vec<Vec<usize>> = vec![xe.clone(), { let mut v = xe.clone(); v.reverse(); v }, extra.probe(false), [extra.probe(true), extra.probe(false)].concat()];
    let rad = [1 << 8, long.len(), long.len()];
    run.par("two parsers, long streams", prod(&rad), |ctx, i| {
        let [m, a, b] = digits(i, rad);
        clock::set(Some(NOW));
        let mut ps = [NmeaParser::new(), NmeaParser::new()];
        let mut st = [extra.sys.start(), extra.sys.start()];
        let mut at = [0, 0];
        let l = [&long[a], &long[b]];
        let mut steps = vec![];
        ctx.evals += 1;
        ctx.distinct_n += 1;
        ctx.traces += 1;
        let mut t = 0;
        while at[0] < l[0].len() || at[1] < l[1].len() {
            let mut k = m >> (t % 8) & 1;
            t += 1;
            if at[k] >= l[k].len() { k = 1 - k; }
            let e = l[k][at[k]];
            at[k] += 1;
            steps.push((k, e));
            let x = extra.sys.step(&mut st[k], e);
            let o = feed(&mut ps[k], &extra.sys.evs[e].s);
            ctx.calls += 1;
            if let Some(why) = extra.sys.judge(&x, &o) {
                let s = steps.iter().map(|(k, e)| Step { parser: *k as u8, clock: Some(NOW), s: extra.sys.evs[*e].s.clone() }).collect();
                return ctx.violate("two-parsers-long", s, why, o.short(), String::new());
            }
        }
    });
    // Time passes between the calls of two parsers, on one thread and on two
    {
        let gaps: &[i64] = if th { &[0, 1, 2, 30, 59, 60, 61, 3600, 86400, -1, -60, -86400] } else { &[0, 1, 59, -1] };
        let t = Dated::new(&dated_moments(), gaps);
        let rad = [2, t.ss[0].len(), t.ss[0].len(), gaps.len(), t.ss.len()];
        run.par("two parsers while time passes", prod(&rad), |ctx, i| {
            let [two, a, b, g, m] = digits(i, rad);
            let (sa, sb, t0, t1) = (&t.ss[m][a], &t.ss[m][b], t.ms[m], t.ms[m] + gaps[g]);
            // parser, clock, sentence, answer
            let plan = [(0u8, t0, sa, t.at(m, None, a)), (1, t1, sb, t.at(m, Some(g), b)), (0, t1, sb, t.at(m, Some(g), b)), (1, t1, sa, t.at(m, Some(g), a))];
            let o: Vec<Out> = std::thread::scope(|sc| sc.spawn(|| {
                let (mut p, mut q) = (NmeaParser::new(), Movable(NmeaParser::new()));
                plan.iter().map(|&(k, now, s, _)| {
                    clock::set(Some(now));
                    if k == 0 { return feed(&mut p, s); }
                    if two == 0 { return feed(&mut q.0, s); }
                    let q = &mut q;
                    std::thread::scope(|sc| sc.spawn(move || { let q = q; clock::set(Some(now)); feed(&mut q.0, s) }).join().unwrap())
                }).collect()
            }).join().unwrap());
            ctx.evals += 1;
            ctx.distinct_n += 1;
            ctx.traces += 1;
            ctx.calls += 4;
            for (j, (_, _, _, e)) in plan.iter().enumerate() {
                if o[j] != **e { return ctx.violate("time-passes", plan[..=j].iter().map(|&(k, now, s, _)| Step { parser: k, clock: Some(now), s: s.clone() }).collect(), e.short(), o[j].short(), "what a new parser on a new thread answers at that moment is expected".into()); }
            }
        });
    }
    // Every number and name something may wait under: the parts given to two parsers, or to one after another
    {
        #[derive(Clone)]
        enum Under { Id(&'static str, bool, String, &'static str), Sats(String, usize), Vessel(u64, bool) }
        let mut us = vec![];
        let ids: Vec<String> = (0..10).map(|x| x.to_string()).chain(["10", "11", "99", "100", "999", "1000", "9999", "10000", "65535", "65536", "99999", "123456", "1234567", "12345678", "4294967295", "4294967296", "18446744073709551615"].map(String::from)).collect();
        for id in &ids { for (t, vdo) in [("AI", false), ("AI", true), ("BS", false), ("AB", false), ("SA", true), ("QZ", false)] { for ch in ["A", "B", "1", "2", ""] { us.push(Under::Id(t, vdo, id.clone(), ch)); } } }
        for t in ["GP", "GL", "GA", "BD", "GI", "QZ", "GN", "GB", "II", "IN", "XX", "AA", "ZZ"] { for n in (2..=20).chain([31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 254, 255]) { us.push(Under::Sats(t.into(), n)); } }
        for k in 0..30 { for vdo in [false, true] { us.push(Under::Vessel(1 << k, vdo)); us.push(Under::Vessel(230_123_450 ^ 1 << k, vdo)); us.push(Under::Vessel(((1u64 << 30) - 1) >> k, vdo)); us.push(Under::Vessel(980_000_000 + k * 321_123, vdo)); us.push(Under::Vessel([0, 1, 111_232_500, 970_011_111, 992_351_000, 999_999_999, 800_000_000][k as usize % 7] + k, vdo)); } }
        let (p1, p2) = (cut(&t5_payload(3), 31), cut(&t5_payload(8), 44));
        let rad = [8, us.len()];
        run.par("every number and name something waits under, in two parsers", prod(&rad), |ctx, i| {
            let [how, u] = digits(i, rad);
            let mut sys = Sys::new();
            // what comes first, what completes it; the same with other content
            let (a, b, c, d): (Vec<usize>, usize, Vec<usize>, usize) = match us[u].clone() {
                Under::Id(t, vdo, id, ch) => { let k = sys.key(t, vdo, &id, ch, &[p1.clone(), p2.clone()], u % 2 == 0); (vec![k[0]], k[2], vec![k[3]], k[1]) }
                Under::Sats(t, n) => { let g = sys.group(&t, n, 2, u % 2 == 0); ((0..n - 1).map(|x| g[2 * x]).collect(), g[2 * n - 2], (1..n).rev().map(|x| g[2 * x + 1]).collect(), g[1]) }
                Under::Vessel(m, vdo) => { let v = sys.vessel(m, vdo, &[halves(0, m / 10_000_000 == 98), halves(1, m / 10_000_000 == 98)], u % 2 == 0); (vec![v[0]], v[2], vec![v[3]], v[1]) }
            };
            const NEW: usize = usize::MAX;
            let mut o: Vec<(usize, usize)> = vec![];
            let all = |o: &mut Vec<(usize, usize)>, k: usize, l: &[usize]| o.extend(l.iter().map(|&e| (k, e)));
            match how {
                // the first ones here, the last one there
                0 => { all(&mut o, 0, &a); o.push((1, b)); all(&mut o, 1, &a); o.push((0, b)); }
                1 => { all(&mut o, 0, &c); o.push((1, d)); all(&mut o, 1, &c); o.push((0, d)); }
                // both waiting with different content
                2 => { all(&mut o, 0, &a); all(&mut o, 1, &c); o.push((0, b)); o.push((1, d)); o.push((1, b)); o.push((0, d)); }
                3 => { all(&mut o, 0, &c); all(&mut o, 1, &a); o.push((1, b)); o.push((0, d)); }
                // the first parser ends while something waits
                4 => { all(&mut o, 0, &a); o.push((0, NEW)); o.push((0, b)); o.push((1, b)); }
                5 => { all(&mut o, 0, &a); all(&mut o, 1, &c); o.push((0, NEW)); o.push((1, d)); o.push((0, b)); all(&mut o, 0, &a); o.push((0, b)); }
                // one after another, each complete
                6 => { for k in [0, 1, 0, 1] { all(&mut o, k, &a); o.push((k, b)); o.push((1 - k, d)); } }
                // alternating, part by part
                _ => { for j in 0..a.len() { o.push((0, a[j])); o.push((1, a[a.len() - 1 - j])); } o.push((1, b)); o.push((0, b)); }
            }
            clock::set(Some(NOW));
            let mut ps = [NmeaParser::new(), NmeaParser::new()];
            let mut st = [sys.start(), sys.start()];
            ctx.evals += 1;
            ctx.distinct_n += 1;
            ctx.traces += 1;
            for (j, &(k, e)) in o.iter().enumerate() {
                if e == NEW { ps[k] = NmeaParser::new(); st[k] = sys.start(); continue; }
                let x = sys.step(&mut st[k], e);
                let r = feed(&mut ps[k], &sys.evs[e].s);
                ctx.calls += 1;
                if let Some(why) = sys.judge(&x, &r) {
                    // a parser that ended is shown as another one
                    let mut gen = [0u8; 2];
                    let s = o[..=j].iter().filter_map(|&(k, e)| if e == NEW { gen[k] += 2; None } else { Some(Step { parser: k as u8 + gen[k], clock: Some(NOW), s: sys.evs[e].s.clone() }) }).collect();
                    return ctx.violate("waiting-under", s, why, r.short(), format!("parser {}", k));
                }
            }
        });
    }
    // Parsers moved between threads: every assignment of the calls of a history to three threads,
    // with a second parser that lives on them as well
    let hist: Vec<Vec<usize>> = {
        let k = &w.keys[0];
        let v = &w.vessels[0];
        let g = &w.groups[0];
        vec![vec![k[0], k[1], k[1], k[0]], vec![v[0], v[1], v[1], v[0]], vec![g[0], g[1], g[1], g[0]], vec![k[0], v[0], k[1], v[1]], vec![g[0], k[1], g[1], k[0]], vec![v[1], g[1], v[0], g[0]], vec![cs[0], k[0], cs[1], k[1]], vec![k[0], cs[2], v[1], cs[0]]]
    };
    let others: Vec<Vec<usize>> = { let k = &w.keys[0]; let v = &w.vessels[0]; let g = &w.groups[0]; vec![vec![k[1], k[0]], vec![v[1], v[0]], vec![g[1], g[0]], vec![cs[0], cs[1]]] };
    // assignments: 3^4 for the first parser, 3^2 for the second, 15 interleavings
    let masks: Vec<u32> = (0u32..64).filter(|m| m.count_ones() == 2).collect();
    let rad = [masks.len(), 9, 81, others.len(), hist.len()];
    let tot = prod(&rad);
    let block = 9 * masks.len() as u64;
    run.par("every assignment of calls to three threads", tot / block, |ctx, bi| {
        let (alive, _d) = std::sync::mpsc::channel::<()>();
        let ws: Vec<Worker> = (0..3).map(|_| worker(&alive)).collect();
        for i in bi * block..(bi + 1) * block {
            let [m, a2, a1, o, h] = digits(i, rad);
            if !th && (m + a1 + a2) % 4 != 0 { continue; }
            let streams = [&hist[h], &others[o]];
            let mut ps = [Some(Movable(NmeaParser::new())), Some(Movable(NmeaParser::new()))];
            let mut st = [w.sys.start(), w.sys.start()];
            let mut at = [0usize; 2];
            let asg = [a1, a2];
            let mut steps = vec![];
            ctx.evals += 1;
            ctx.distinct_n += 1;
            ctx.traces += 1;
            for b in 0..6 {
                let k = (masks[m] >> b & 1) as usize;
                let e = streams[k][at[k]];
                let t = asg[k] / 3usize.pow(at[k] as u32) % 3;
                at[k] += 1;
                steps.push((k, e, t));
                let x = w.sys.step(&mut st[k], e);
                ws[t].tx.send((ps[k].take().unwrap(), w.sys.evs[e].s.clone())).expect("worker");
                let (p, o) = ws[t].rx.recv().expect("worker");
                ps[k] = Some(p);
                ctx.calls += 1;
                if let Some(why) = w.sys.judge(&x, &o) {
                    let s = steps.iter().map(|(k, e, _)| Step { parser: *k as u8, clock: Some(NOW), s: w.sys.evs[*e].s.clone() }).collect();
                    return ctx.violate("threads", s, why, o.short(), format!("threads of the steps: {:?}", steps.iter().map(|x| x.2).collect::<Vec<_>>()));
                }
            }
        }
    });
    // Determinism: the same stream again gives the same answers, whatever ran before on the thread or in the process
    let big = world(3, &[("GP", 2), ("GL", 3), ("GA", 1)], 2, 2);
    let bm = big.moves();
    let rad = [bm.len(), bm.len(), 3];
    run.par("the same stream again", prod(&rad), |ctx, i| {
        let [a, b, r] = digits(i, rad);
        let mut seq = vec![bm[a], bm[b]];
        seq.extend(&bm);
        seq.extend([bm[b], bm[a]]);
        if r == 1 { seq.extend(bm.iter().rev()); }
        if r == 2 { seq.extend(big.probe(true)); }
        ctx.evals += 1;
        ctx.distinct_n += 1;
        let _ = trace(ctx, &big.sys, "again", &[&seq]) && trace(ctx, &big.sys, "again", &[&seq]);
    });
    // Many parsers alive at once
    let rad = [if th { 300 } else { 130 }, 2];
    run.par("many parsers alive at once", prod(&rad), |ctx, i| {
        let [np, o] = digits(i, rad);
        let np = np + 1;
        clock::set(Some(NOW));
        let seq = w.probe(o == 1);
        let mut ps: Vec<NmeaParser> = (0..np).map(|_| NmeaParser::new()).collect();
        let mut st: Vec<St> = (0..np).map(|_| w.sys.start()).collect();
        ctx.evals += 1;
        ctx.distinct_n += 1;
        ctx.traces += 1;
        for (j, &e) in seq.iter().enumerate() {
            for k in 0..np {
                let x = w.sys.step(&mut st[k], e);
                let o = feed(&mut ps[k], &w.sys.evs[e].s);
                ctx.calls += 1;
                if let Some(why) = w.sys.judge(&x, &o) {
                    return ctx.violate("many-parsers", seq[..=j].iter().map(|&e| Step::at(&w.sys.evs[e].s, Some(NOW))).collect(), why, o.short(), format!("parser {} of {} in lockstep", k, np));
                }
            }
        }
    });
    // The state of a parser that ended is gone
    let rad = [bm.len(), bm.len()];
    run.par("a parser after another ended", prod(&rad), |ctx, i| {
        let [a, b] = digits(i, rad);
        ctx.evals += 1;
        ctx.distinct_n += 1;
        let _ = trace(ctx, &big.sys, "first", &[&[bm[a]]]) && trace(ctx, &big.sys, "second", &[&[bm[b], bm[a]]]);
    });
}

// ------------------------------------------------------------------------------------ C22

/// Bytes retained by a parser at the marks and after its end (results dropped).
fn retained(ctx: &mut Ctx, get: &dyn Fn(usize) -> String, marks: &[usize]) -> Vec<i64> {
    clock::set(Some(NOW));
    let mut v = Vec::with_capacity(marks.len() + 1);
    let base = alloc::live();
    let mut p = NmeaParser::new();
    let mut n = 0;
    for &m in marks {
        while n < m {
            let s = get(n);
            feed_class(&mut p, &s);
            ctx.calls += 1;
            n += 1;
        }
        v.push(alloc::live() - base);
    }
    drop(p);
    v.push(alloc::live() - base);
    v
}

static ALONE: std::sync::RwLock<()> = std::sync::RwLock::new(());
/// Bytes retained at the marks, the last one after the end; what looks wrong is measured again while nothing
/// else runs, since memory that parsers share may be counted for the wrong thread. `get(try, n)`.
fn measured(ctx: &mut Ctx, get: &dyn Fn(usize, usize) -> String, marks: &[usize], wrong: &dyn Fn(&[i64]) -> bool) -> (Vec<i64>, bool) {
    let v = { let _g = ALONE.read().unwrap_or_else(|e| e.into_inner()); retained(ctx, &|n| get(0, n), marks) };
    if !wrong(&v) { return (v, false); }
    let _g = ALONE.write().unwrap_or_else(|e| e.into_inner());
    retained(ctx, &|n| get(1, n), marks);
    let v = retained(ctx, &|n| get(2, n), marks);
    let w = wrong(&v);
    (v, w)
}

/// Unbounded growth: more at every one of four or more doublings. One step up is not growth:
/// the tables of a parser may be rehashed to a larger size once.
fn grows(v: &[i64]) -> bool {
    v.windows(2).all(|w| w[1] > w[0])
}

/// Repetitions doubled three times.
fn doubled(n: usize, reps: usize) -> Vec<usize> {
    (0..4).map(|k| n * reps << k).collect()
}

pub fn retention(run: &mut Run) {
    let th = run.thorough;
    let w = world(2, &[("GP", 2), ("GL", 3)], 1, 2);
    let mut evs: Vec<String> = w.moves().iter().map(|&e| w.sys.evs[e].s.clone()).collect();
    evs.extend(["$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "$GPXYZ,1", "$GPGSV,2,0,08,11,22,033,44", "$GPGSV,2,3,08,11,22,033,44", "!AIVDM,2,3,1,A,15RTgt0P,0", "!AIVDM,2,2,1,A,xyz~,0", "!AIVDM,2,1,3,B,80000000,0", "$GPGSV,1,1,01,07,,,", "!AIVDM,3,1,1,A,15RTgt0P,0", "!AIVDM,2,1,,A,15RTgt0P,0"].map(String::from));
    let bad = corrupt(&evs[0], 0);
    evs.push(bad);
    let evs = &evs;
    let d = if th { 4 } else { 3 };
    let n = evs.len() as u64;
    // What a parser keeps at rest once it has seen some of everything: the measure of "nothing"
    let warm = |ctx: &mut Ctx| -> i64 {
        let mut b = 0;
        for _ in 0..2 { b = retained(ctx, &|j| evs[j % evs.len()].clone(), &[evs.len() * 3])[0]; }
        b
    };
    // Every history up to the depth, repeated: no growth from doubling to doubling
    for depth in 1..=d {
        run.par(&format!("every history of {}, repeated 80 times", depth), n.pow(depth), |ctx, i| {
            if ctx.evals == 0 { warm(ctx); }
            let mut r = i;
            let mut h = vec![];
            for _ in 0..depth { h.push((r % n) as usize); r /= n; }
            if th && depth == 4 && h.iter().zip(&h[1..]).any(|(a, b)| a == b) { return; }
            let (v, wrong) = measured(ctx, &|_, j| evs[h[j % h.len()]].clone(), &doubled(h.len(), 10), &|v| grows(&v[..4]) || v[4] > 6000);
            ctx.evals += 1;
            ctx.distinct_n += 1;
            ctx.traces += 1;
            if ctx.samples.is_empty() { ctx.sample(|| format!("{:?}: {} bytes after 10 rounds, {} after 80, {} after the parser ended", h.iter().map(|&e| evs[e].as_str()).collect::<Vec<_>>(), v[0], v[3], v[4])); }
            if wrong {
                let st = (0..80).flat_map(|_| h.iter()).map(|&e| Step::at(&evs[e], Some(NOW))).collect();
                ctx.violate("growth", st, "no growth over 10, 20, 40 and 80 repetitions, nothing after the parser ended".into(), format!("{:?}", v), "retained bytes after 10, 20, 40, 80 repetitions and after the end".into());
            }
        });
    }
    // Every state of the model, by several histories, and everything delivered again: no growth
    {
        let moves = w.moves();
        let g = Graph::new(&w.sys, &moves);
        let ns = g.states.len();
        run.states += ns as u64;
        run.transitions += g.edges;
        let g = &g;
        let w = &w;
        let rad = [moves.len(), ns];
        run.par("every transition of every state, then all delivered", prod(&rad), |ctx, i| {
            let [e, s] = digits(i, rad);
            if ctx.base.is_none() { ctx.base = Some(warm(ctx)); }
            let base = ctx.base.unwrap();
            let mut h = g.shortest(s as u32);
            h.push(moves[e]);
            let mut st = w.sys.start();
            for &e in &h { w.sys.step(&mut st, e); }
            let t = g.index(&st);
            h.extend(g.drain(t));
            let (v, wrong) = measured(ctx, &|_, j| w.sys.evs[h[j % h.len()]].s.clone(), &doubled(h.len(), 2), &|v| grows(&v[..4]) || v[4] > 6000 || v[3] > base + 8192);
            ctx.evals += 1;
            ctx.distinct_n += 1;
            ctx.traces += 1;
            if wrong {
                let st = (0..16).flat_map(|_| h.iter()).map(|&e| Step::at(&w.sys.evs[e].s, Some(NOW))).collect();
                ctx.violate("drained", st, format!("no growth over 2, 4, 8 and 16 repetitions, less than {} bytes with nothing waiting, nothing after the parser ended", base + 8192), format!("{:?}", v), "retained bytes after 2, 4, 8, 16 repetitions and after the end".into());
            }
        });
    }
    // Streams with ever-new numbers
    let kinds = 32usize + 8 * 14;
    let ms14 = messages();
    let gen = |k: usize, j: usize| -> Vec<String> {
        let j6 = j as u64;
        // messages of every type from ever-new vessels, stations and devices of every class
        if k >= 32 {
            let (c, t) = ((k - 32) % 8, (k - 32) / 8);
            let name = ["t1", "t4", "t5", "t9", "t10", "t11", "t18", "t19", "t21", "t24", "t27", "t6", "t14", "t5"][t];
            let mmsi = [980_000_000, 990_000_000, 970_000_000, 111_000_000, 2_300_000, 800_000_000, 0, 1_000_000_000][c] + j6 % 9_000_000;
            let b = match ms14.iter().find(|m| m.name == name) { Some(m) => { let mut b = if t == 13 { not_available(m) } else { typical(m) }; if t == 13 { b.set(40, 30, j6); } b.set(8, 30, mmsi); b } None => { let mut b = Bits::zeros(168); b.set(0, 6, name[1..].parse().unwrap()); b.set(8, 30, mmsi); b } };
            if name == "t24" { let mut v = vec![]; for h in 0..2 { let mut x = b.slice(h * T24, T24); x.set(0, 6, 24); x.set(8, 30, mmsi); x.set(38, 2, h as u64); v.extend(sentences_of(&x, &P0)); } return v; }
            return sentences_of(&b, &P0);
        }
        let t5 = || { let ms = messages(); let m = super::aismisc::by_name(&ms, "t5"); let mut b = typical(m); b.set(8, 30, 200_000_000 + j6); b.set(40, 30, j6); armour(&b) };
        let half = |h: usize, x: u64| { let mut b = halves(j % 5, false)[h]; b.set(8, 30, 200_000_000 + j6); if x > 1 { b.set(38, 2, x); } b };
        // 650 talkers
        let talker = format!("{}{}", (b'Q' + (j / 26 % 25) as u8 - if j / 26 % 25 > 9 { 26 } else { 0 }) as char, (b'A' + (j % 26) as u8) as char).replace("P", "Q");
        let gsv = |n: usize, p: usize| format!("${}GSV,{},{},04,{:02},11,222,33", talker, n, p, j % 99 + 1);
        match k {
            0 => vec![format!("!AIVDM,1,1,{},A,{},2", j, t5())],
            1 => { let p = t5(); vec![format!("!AIVDM,2,1,{},A,{},0", j, &p[..40]), format!("!AIVDM,2,2,{},A,{},2", j, &p[40..])] }
            2 => { let p = t5(); vec![format!("!AIVDO,2,2,{},B,{},2", j, &p[40..]), format!("!AIVDO,2,1,{},B,{},0", j, &p[..40])] }
            3 => { let p = t5(); vec![format!("!{}VDM,2,1,{},A,{},0", talker, j % 10, &p[..40]), format!("!{}VDM,2,2,{},A,{},2", talker, j % 10, &p[40..])] }
            4 => sentences_of(&half(0, 0), &P0).into_iter().chain(sentences_of(&half(1, 0), &P0)).collect(),
            5 => sentences_of(&half(1, 0), &P0).into_iter().chain(sentences_of(&half(0, 0), &P0)).collect(),
            6 => sentences_of(&half(0, 2), &P0),
            7 => sentences_of(&half(1, 3), &P0),
            8 => vec![gsv(1, 1)],
            9 => vec![gsv(2, 1), gsv(2, 2)],
            10 => vec![gsv(3, 3), gsv(3, 1), gsv(3, 2)],
            11 => vec![gsv(2, 0)],
            12 => vec![gsv(2, 3), gsv(0, 0), gsv(0, 1)],
            13 => vec![format!("$GPGSV,2,{},04,05,11,222,33", 3 + j % 250)],
            14 => vec![format!("!AIVDM,2,1,{},A,{},0*00", j, &t5()[..40]), format!("!AIVDM,2,2,{},A,{},0*01", j, &t5()[40..])].into_iter().filter(|s| { let b = s.split('*').next().unwrap(); !s.ends_with(&format!("{:02X}", b.bytes().skip(1).fold(0u8, |a, c| a ^ c))) }).collect(),
            15 => vec![format!("!AIVDM,2,{},{},A,{},0", 3 + j % 250, j, &t5()[..40])],
            16 => vec![format!("!AIVDM,2,0,{},A,{},0", j, &t5()[..40])],
            17 => { let p = t5(); vec![format!("!AIVDM,2,1,{},A,{}~,0", j, &p[..40]), format!("!AIVDM,2,2,{},A,{},2", j, &p[40..])] }
            18 => { let p = t5(); vec![format!("!AIVDM,2,2,{},A,{}~,0", j, &p[40..]), format!("!AIVDM,2,1,{},A,{},0", j, &p[..40])] }
            19 => vec![format!("!AIVDM,2,1,{},A,80000{},0", j, j), format!("!AIVDM,2,2,{},A,{},0", j, j)],
            20 => { let h = half(0, 2); let p = armour(&h); vec![format!("!AIVDM,2,1,{},A,{},0", j, &p[..12]), format!("!AIVDM,2,2,{},A,{},0", j, &p[12..])] }
            21 => vec![format!("$GP{}X,{}", talker, j), format!("!{}QQQ,{}", talker, j), format!("nothing {}", j)],
            22 => vec![format!("${}RMC,{:02}{:02}{:02},A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", talker, j / 3600 % 24, j / 60 % 60, j % 60), format!("${}GGA,{:02}{:02}{:02},,,,,,,,,,,,", talker, j / 3600 % 24, j / 60 % 60, j % 60)],
            23 => { let mut v = sentences_of(&half(0, 0), &Pres { split: 32, ..P0 }); v.extend(sentences_of(&half(1, 0), &Pres { split: 20, rev: true, ..P0 })); v }
            24 => { let p = t5(); vec![format!("!AIVDM,2,1,{},A,{},0", j, &p[..40]), format!("!AIVDM,2,1,{},A,{},0", j, &p[..39]), format!("!AIVDM,2,2,{},A,{},2", j, &p[40..])] }
            // larger groups: of one size, of all sizes, in all orders, and interrupted by others and by other sizes
            25 => (1..=12).map(|p| gsv(12, p)).collect(),
            26 => (1..=4 + j % 30).rev().map(|p| gsv(4 + j % 30, p)).collect(),
            27 => { let n = 5 + j % 251; (1..=n).map(|p| format!("$GPGSV,{},{},{},{:02},11,222,33", n, p, j, p % 99)).collect() }
            28 => (1..=20).flat_map(|p| if p % 2 == 0 { vec![gsv(20, p), gsv(10, p / 2)] } else { vec![gsv(20, p)] }).collect(),
            29 => (1..=9).flat_map(|p| if p < 9 { vec![gsv(9, p), gsv(9, p)] } else { vec![gsv(9, p)] }).collect(),
            30 => { let mut v = sentences_of(&half(0, 2), &P0); v.extend(sentences_of(&half(1, 0), &P0)); v.extend(sentences_of(&half(0, 3), &P0)); v.extend(sentences_of(&half(0, 0), &P0)); v }
            _ => vec![format!("!AIVDM,1,1,,A,1{:06}~,0", j), format!("!AIVDM,x{},1,{},A,11,0", j, j), format!("$GPGSV,x{},1", j)],
        }
    };
    let rounds = if th { 500 } else { 75 };
    let rad = [kinds, 3];
    run.par("streams with ever-new numbers", prod(&rad), |ctx, i| {
        let [k, pend] = digits(i, rad);
        let base = warm(ctx);
        // with nothing, little and much pending beside them
        let pre: Vec<String> = (0..[0, 3, 40][pend]).flat_map(|j| vec![format!("!AIVDM,2,1,{},1,{},0", 100_000 + j, &t5_payload(1)[..30]), { let mut b = halves(1, false)[0]; b.set(8, 30, 500_000_000 + j); sentences_of(&b, &P0).remove(0) }]).collect();
        let per = (1000..1400).map(|j| gen(k, j).len()).max().unwrap();
        let marks: Vec<usize> = doubled(per, rounds).iter().map(|m| pre.len() + m).collect();
        let mut all: [Vec<String>; 3] = Default::default();
        // other numbers every time
        let mut make = |t: usize| all[t] = (0..8 * rounds).flat_map(|j| { let mut v = gen(k, 1000 + t * 100_000 + j); v.resize(per, "x".into()); v }).collect();
        make(0);
        if th || k < 24 { make(1); make(2); }
        let get = |t: usize, j: usize| -> String { if j < pre.len() { pre[j].clone() } else { let t = if all[t].is_empty() { 0 } else { t }; all[t][j - pre.len()].clone() } };
        let (v, wrong) = measured(ctx, &get, &marks, &|v| grows(&v[..4]) || v[4] > 6000 || (pend == 0 && v[3] > base + 16384 + per as i64 * 150));
        ctx.case(true, &[&format!("{} {}", k, pend)]);
        ctx.traces += 1;
        if ctx.samples.is_empty() { ctx.sample(|| format!("{:?}...: {} bytes after {} rounds, {} after {}", gen(k, 1000), v[0], rounds, v[3], 8 * rounds)); }
        if wrong {
            ctx.violate("stream", (0..40).flat_map(|j| gen(k, 1000 + j)).map(|s| Step::at(&s, Some(NOW))).collect(), format!("no growth over {0}, 2*{0}, 4*{0} and 8*{0} rounds, none after the end", rounds), format!("{:?}", v), "the first rounds of the stream; retained bytes at the marks and after the end of the parser".into());
        }
    });
    // Every kind of sentence, however it is answered, again and again
    {
        let wr = world(2, &[("GP", 2), ("GL", 3)], 1, 1);
        let mut ss: Vec<Vec<String>> = vec![];
        let mut one = |s: String| ss.push(vec![s]);
        for s in rejects(&wr) { one(s); }
        for s in no_data() { one(s); }
        for s in singles() { one(s); }
        for s in wrongs() { one(s); }
        let (good, bad) = odd_fields(false);
        for s in good.into_iter().chain(bad) { one(s); }
        for t in 0..64u8 {
            let c = if t < 40 { t + 48 } else { t + 56 } as char;
            for n in [0usize, 1, 6, 12, 27, 40, 59, 70, 120] {
                let pay = format!("{}{}", c, "5RTgt0PAso;90TKcjM8h6g208CQ".chars().cycle().take(n).collect::<String>());
                ss.push(vec![vdm(&P0, 1, 1, "", &pay, 0)]);
                ss.push(vec![vdm(&Pres { vdo: true, ..P0 }, 1, 1, "", &format!("{}~", pay), 0)]);
                let (a, b) = cut(&pay, (n + 1) / 2);
                ss.push(vec![vdm(&P0, 2, 1, "3", &a, 0), vdm(&P0, 2, 2, "3", &b, 0)]);
                ss.push(vec![vdm(&P0, 2, 2, "3", &b, 0), vdm(&P0, 2, 1, "3", &a, 0)]);
                ss.push(vec![vdm(&P0, 2, 1, "3", &a, 0), vdm(&P0, 2, 2, "3", &format!("{}~", b), 0)]);
            }
        }
        let reps = if th { 400 } else { 40 };
        let ss = &ss;
        run.par("every kind of sentence, repeated", ss.len() as u64, |ctx, i| {
            if ctx.base.is_none() { ctx.base = Some(warm(ctx)); }
            let h = &ss[i as usize];
            let (v, wrong) = measured(ctx, &|_, j| h[j % h.len()].clone(), &doubled(h.len(), reps), &|v| grows(&v[..4]) || v[4] > 6000);
            ctx.evals += 1;
            ctx.distinct_n += 1;
            ctx.traces += 1;
            if wrong {
                ctx.violate("repeated", (0..80).flat_map(|_| h.iter()).map(|s| Step::at(s, Some(NOW))).collect(), format!("no growth over {0}, 2*{0}, 4*{0} and 8*{0} repetitions, nothing after the parser ended", reps), format!("{:?}", v), "retained bytes at the marks and after the end".into());
            }
        });
    }
    // Big messages: after they were delivered or rejected nothing of their size is kept
    let big = if th { 1_000_000 } else { 100_000 };
    let pad = "0".repeat(big);
    let txt = "7".repeat(big);
    let cases: Vec<(&str, Vec<String>)> = vec![
        ("single", vec![format!("!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ{},0", pad)]),
        ("single after checksum", vec![with_checksum(&format!("!AIVDM,1,1,,A,402=481uaUcf;OQ55JS9ITi025Jp{},0", pad))]),
        ("two parts", vec![format!("!AIVDM,2,1,1,A,55P5TL01VIaAL@7WKO@mBplU@<PDhh000000001S;AJ::4A80?4i@E53{},0", pad), format!("!AIVDM,2,2,1,A,1@0000000000000{},2", pad)]),
        ("two parts reversed", vec![format!("!AIVDM,2,2,1,A,1@0000000000000{},2", pad), format!("!AIVDM,2,1,1,A,55P5TL01VIaAL@7WKO@mBplU@<PDhh000000001S;AJ::4A80?4i@E53{},0", pad)]),
        ("two parts, unsupported", vec![format!("!AIVDM,2,1,1,A,8{},0", pad), format!("!AIVDM,2,2,1,A,1{},2", pad)]),
        ("two parts, invalid", vec![format!("!AIVDM,2,1,1,A,1{},0", pad), format!("!AIVDM,2,2,1,A,1~{},2", pad)]),
        ("two parts, invalid reversed", vec![format!("!AIVDM,2,2,1,A,1{},0", pad), format!("!AIVDM,2,1,1,A,1~{},2", pad)]),
        ("invalid", vec![format!("!AIVDM,1,1,,A,1{}~,0", pad)]),
        ("wrong checksum", vec![format!("!AIVDM,2,1,1,A,1{},0*7", pad)]),
        ("bad count", vec![format!("!AIVDM,{},1,1,A,1,0", txt), format!("!AIVDM,2,{},1,A,1,0", txt)]),
        ("bad part", vec![format!("!AIVDM,2,3,1,A,1{},0", pad), format!("!AIVDM,2,0,1,A,1{},0", pad)]),
        ("long id", vec![format!("!AIVDM,1,1,{},A,15RTgt0PAso;90TKcjM8h6g208CQ,0", txt)]),
        ("long channel", vec![format!("!AIVDM,2,1,1,{},15RTgt0PAso;90T,0", txt), format!("!AIVDM,2,2,1,{},KcjM8h6g208CQ,0", txt)]),
        ("GSV 1", vec![format!("$GPGSV,1,1,04,05,11,222,33,{}", txt)]),
        ("GSV 2", vec![format!("$GPGSV,2,1,04,05,11,222,33,{}", txt), format!("$GPGSV,2,2,04,05,11,222,33,{}", txt)]),
        ("GSV 2 reversed", vec![format!("$GPGSV,2,2,04,05,11,222,33,{}", txt), format!("$GPGSV,2,1,04,05,11,222,33,{}", txt)]),
        ("GSV replaced", vec![format!("$GPGSV,2,2,04,05,11,222,33,{}", txt), "$GPGSV,2,2,04,05,11,222,33".into()]),
        ("part replaced", vec![format!("!AIVDM,2,1,1,A,1{},0", pad), "!AIVDM,2,1,1,A,1,0".into()]),
        ("GSV bad", vec![format!("$GPGSV,2,0,04,05,11,222,33,{}", txt), format!("$GPGSV,2,3,04,{}", txt), format!("$GPGSV,0,0,{}", txt), format!("$GPGSV,x{},1", txt)]),
        ("unknown", vec![format!("$GPXYZ,{}", txt), format!("!AIXYZ,{}", txt), format!("${},1", txt), format!("!{},1", txt), txt.clone()]),
        ("GGA", vec![format!("$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,{}", txt)]),
        ("GGA bad", vec![format!("$GPGGA,123519,4807.038,N,01131.000,E,1,x{},0.9,545.4,M,46.9,M,,", txt)]),
        ("t24 bad part", { let mut b = halves(0, false)[0]; b.set(38, 2, 3); vec![format!("!AIVDM,1,1,,A,{}{},0", armour(&b), pad)] }),
        ("t24 whole", { let h = halves(0, false); vec![format!("!AIVDM,1,1,,A,{}{},0", armour(&h[0]), pad), format!("!AIVDM,1,1,,A,{}{},0", armour(&h[1]), pad)] }),
        ("t24 half", { let h = halves(0, false); vec![format!("!AIVDM,1,1,,A,{}{},0", armour(&h[0]), pad)] }),
        ("t24 other half", { let h = halves(0, false); vec![format!("!AIVDM,1,1,,A,{}{},0", armour(&h[1]), pad)] }),
    ];
    let rad = [3, cases.len()];
    run.par("big messages", prod(&rad), |ctx, i| {
        let [rep, k] = digits(i, rad);
        let base = warm(ctx);
        ctx.case(true, &[cases[k].0, &rep.to_string()]);
        ctx.traces += 1;
        let src = &cases[k].1;
        let (v, wrong) = measured(ctx, &|_, j| src[j % src.len()].clone(), &[src.len() * (rep + 1)], &|v| v[0] > base + 6000 || v[1] > 6000);
        if wrong {
            ctx.violate(&format!("big {}", cases[k].0), cases[k].1.iter().map(|s| Step::at(s, Some(NOW))).collect(), format!("less than {} bytes retained", base + 6000), format!("{:?}", v), "retained bytes after the message and after the end of the parser".into());
        }
    });
    // What waits is kept once, in proportion to its size
    let ns = [1usize, 2, 5, 10, 50, 100, 300, 1000];
    let sizes = [0usize, 1, 20, 60, 200, 1000];
    let rad = [6, sizes.len(), ns.len()];
    run.par("memory of what waits", prod(&rad), |ctx, i| {
        let [kind, sz, k] = digits(i, rad);
        let base = warm(ctx);
        let (n, z) = (ns[k], sizes[sz]);
        let pay = "0".repeat(z);
        let mk = |j: usize| -> String {
            match kind {
                0 => format!("!AIVDM,2,1,{},A,1{},0", j, pay),
                1 => format!("!AIVDM,2,2,{},A,1{},0", j, pay),
                2 => format!("${}{}GSV,2,1,04,05,11,222,33,{}", (b'Q' + (j / 26 % 10) as u8) as char, (b'A' + (j % 26) as u8) as char, pay),
                3 => format!("$GPGSV,255,{},04,05,11,222,33,{}", j % 254 + 1, pay),
                4 | _ => { let mut b = halves(0, false)[kind % 2]; b.set(8, 30, 200_000_000 + j as u64); format!("!AIVDM,1,1,,A,{}{},0", armour(&b), pay) }
            }
        };
        let distinct = match kind { 2 => n.min(260), 3 => n.min(254), _ => n };
        let bound = base + 4096 + distinct as i64 * (4 * (mk(0).len() as i64) + 2000);
        let (v, wrong) = measured(ctx, &|_, j| mk(j % n), &doubled(n, 1), &|v| v[0] > bound || grows(&v[..4]) || v[4] > 6000);
        ctx.case(true, &[&format!("{} {} {}", kind, z, n)]);
        ctx.traces += 1;
        if wrong {
            ctx.violate("waiting", (0..n.min(50)).map(|j| Step::at(&mk(j), Some(NOW))).collect(), format!("at most {} bytes for {} waiting parts, no growth when all are repeated, none at the end", bound, distinct), format!("{:?}", v), String::new());
        }
    });
}
