//! Reference model of the GNSS sentences: text fields to values, independent of the code under test.
use crate::ais::{civil, days, moment};
use crate::engine::*;
use crate::obs::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum GC { Pos, Time, Val, Src }

#[derive(Clone, Debug)]
pub enum Ex { Is(V), OneOf(Vec<V>), Any }
impl Ex {
    pub fn ok(&self, v: &V) -> bool { match self { Ex::Is(x) => x == v, Ex::OneOf(l) => l.contains(v), Ex::Any => true } }
}
#[derive(Clone, Debug)]
pub enum Exp { Err, Data(&'static str, Vec<(&'static str, GC, Ex)>) }

/// A field whose meaning the documentation leaves open: nothing is expected of the whole sentence.
pub struct Open;

pub enum Num { Empty, Val(f64), Bad }
/// Plain decimal numbers; '+', ".5", "5." and "-0..." spellings of integers are left open.
pub fn number(s: &str) -> Result<Num, Open> {
    if s.is_empty() { return Ok(Num::Empty); }
    let (plus, t) = match s.strip_prefix('+') { Some(t) => (true, t), None => (false, s.strip_prefix('-').unwrap_or(s)) };
    let p: Vec<&str> = t.split('.').collect();
    if p.len() > 2 || !t.bytes().all(|c| c.is_ascii_digit() || c == b'.') || !t.bytes().any(|c| c.is_ascii_digit()) { return Ok(Num::Bad); }
    if plus || p.iter().any(|x| x.is_empty()) || s.len() > 300 { return Err(Open); }
    Ok(Num::Val(exact(s)))
}
/// Value of a plain decimal by integer arithmetic.
fn exact(s: &str) -> f64 {
    let (neg, t) = match s.strip_prefix('-') { Some(t) => (true, t), None => (false, s) };
    let mut m = 0f64;
    let mut scale = 1f64;
    let mut frac = false;
    for c in t.bytes() {
        if c == b'.' { frac = true; continue; }
        m = m * 10.0 + (c - b'0') as f64;
        if frac { scale *= 10.0; }
        if m > 1e15 && frac { break; }
    }
    let v = m / scale;
    if neg { -v } else { v }
}
enum Int { Empty, Val(i64), Bad }
fn integer(s: &str, max: i64) -> Result<Int, Open> {
    if s.is_empty() { return Ok(Int::Empty); }
    if s.bytes().all(|c| c.is_ascii_digit()) {
        let t = s.trim_start_matches('0');
        if t.len() > 10 { return Ok(Int::Bad); }
        let v = if t.is_empty() { 0 } else { t.parse().unwrap() };
        return Ok(if v > max { Int::Bad } else { Int::Val(v) });
    }
    if s.starts_with('+') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) { return Err(Open); }
    if s.starts_with('-') && s.len() > 1 && s[1..].bytes().all(|c| c == b'0') { return Err(Open); }
    Ok(Int::Bad)
}
/// (degrees) of a position field; None = absent; Err(()) = rejected
fn coordinate(s: &str, hemi: &str, dd: usize, lim: f64, pos: &str, neg: &str) -> Result<Result<V, ()>, Open> {
    if s.is_empty() { return Ok(Ok(V::Non)); }
    let b = s.as_bytes();
    let n = dd + 2;
    if b.len() < n + 2 || !b[..n].iter().all(|c| c.is_ascii_digit()) || b[n] != b'.' || !b[n + 1].is_ascii_digit() { return Ok(Err(())); }
    if !b[n + 1..].iter().all(|c| c.is_ascii_digit()) { return Err(Open); }
    let d = exact(&s[..dd]);
    let m = exact(&s[dd..]);
    if m >= 60.0 || d + m / 60.0 > lim { return Err(Open); }
    let v = d + m / 60.0;
    if hemi == pos { Ok(Ok(V::F(v))) } else if hemi == neg { Ok(Ok(V::F(-v))) } else { Err(Open) }
}
fn two(b: &[u8], i: usize) -> Option<i64> {
    if i + 2 <= b.len() && b[i].is_ascii_digit() && b[i + 1].is_ascii_digit() { Some(((b[i] - 48) * 10 + b[i + 1] - 48) as i64) } else { None }
}
/// Hours, minutes and seconds of HHMMSS with an optional fraction.
fn hms(s: &str) -> Result<Option<(i64, i64, i64)>, Open> {
    let b = s.as_bytes();
    let r = match (two(b, 0), two(b, 2), two(b, 4)) { (Some(h), Some(m), Some(x)) => (h, m, x), _ => return Ok(None) };
    if b.len() > 6 && !(b[6] == b'.' && b.len() > 7 && b[7..].iter().all(|c| c.is_ascii_digit())) { return Err(Open); }
    Ok(Some(r))
}
fn time_today(s: &str, now: i64) -> Result<Ex, Open> {
    let (h, m, x) = match hms(s)? { Some(r) => r, None => return Ok(Ex::Is(V::Non)) };
    let n = civil(now);
    if x == 60 { return Ok(Ex::Any); }
    Ok(Ex::Is(moment(n.0, n.1, n.2, h, m, x).map_or(V::Non, |t| V::T(t, 0))))
}
fn time_on(date: &str, time: &str, now: i64) -> Result<Ex, Open> {
    let db = date.as_bytes();
    let t = hms(time)?;
    let (d, mo, y) = match (two(db, 0), two(db, 2), two(db, 4)) { (Some(d), Some(m), Some(y)) => (d, m, y), _ => return Ok(Ex::Is(V::Non)) };
    if db.len() > 6 { return Err(Open); }
    let (h, m, x) = match t { Some(r) => r, None => return Ok(Ex::Is(V::Non)) };
    if x == 60 { return Ok(Ex::Any); }
    let c = civil(now).0 / 100 * 100;
    Ok(Ex::Is(moment(c + y, mo, d, h, m, x).map_or(V::Non, |t| V::T(t, 0))))
}

pub fn system(talker: &str) -> &'static str {
    match talker {
        "GN" => "Combination", "GP" => "Gps", "GL" => "Glonass", "GA" => "Galileo", "BD" => "Beidou", "GI" => "Navic", "QZ" => "Qzss", _ => "Other",
    }
}
const QUALITY: [&str; 9] = ["Invalid", "GpsFix", "DGpsFix", "PpsFix", "RealTimeKinematic", "RealTimeKinematicFloat", "DeadReckoning", "ManualInputMode", "SimulationMode"];
fn faa_of(s: &str) -> V {
    match s { "A" => V::E("Autonomous"), "D" => V::E("Differential"), "E" => V::E("Estimated"), "N" => V::E("NotValid"), "S" => V::E("Simulator"), _ => V::Non }
}

/// What the sentence (without checksum) must give, or Open.
pub fn reference(body: &str, now: i64) -> Result<Exp, Open> {
    let f: Vec<&str> = body.split(',').collect();
    let g = |i: usize| -> &str { f.get(i).copied().unwrap_or("") };
    let head = f[0];
    let talker = &head[1..3];
    let mut o: Vec<(&'static str, GC, Ex)> = vec![("source", GC::Src, Ex::Is(V::E(system(talker))))];
    let mut bad = false;
    macro_rules! num { ($n:expr, $i:expr) => { match number(g($i))? { Num::Empty => o.push(($n, GC::Val, Ex::Is(V::Non))), Num::Val(v) => o.push(($n, GC::Val, Ex::Is(V::F(v)))), Num::Bad => bad = true } } }
    macro_rules! int { ($n:expr, $i:expr, $m:expr) => { match integer(g($i), $m)? { Int::Empty => o.push(($n, GC::Val, Ex::Is(V::Non))), Int::Val(v) => o.push(($n, GC::Val, Ex::Is(V::I(v)))), Int::Bad => bad = true } } }
    macro_rules! pos { ($a:expr, $b:expr, $n:expr, $m:expr, $dd:expr, $lim:expr, $p:expr, $q:expr) => { match coordinate(g($a), g($b), $dd, $lim, $p, $q)? {
        Ok(v) => { o.push(($n, GC::Pos, Ex::Is(v.clone()))); o.push(($m, GC::Pos, Ex::Is(v))) } Err(()) => bad = true } } }
    macro_rules! latlon { ($i:expr) => {
        pos!($i, $i + 1, "latitude", "acc_latitude", 2, 90.0, "N", "S");
        pos!($i + 2, $i + 3, "longitude", "acc_longitude", 3, 180.0, "E", "W");
    } }
    let kind = match &head[3..] {
        "GGA" => {
            o.push(("timestamp", GC::Time, time_today(g(1), now)?));
            latlon!(2);
            match integer(g(6), 255)? {
                Int::Empty => o.push(("quality", GC::Val, Ex::Is(V::E("Invalid")))),
                Int::Val(v) => o.push(("quality", GC::Val, Ex::Is(V::E(QUALITY.get(v as usize).copied().unwrap_or("Invalid"))))),
                Int::Bad => bad = true,
            }
            int!("satellite_count", 7, 255);
            num!("hdop", 8);
            num!("altitude", 9);
            num!("geoid_separation", 11);
            num!("age_of_dgps", 13);
            int!("ref_station_id", 14, 65535);
            "Gga"
        }
        "RMC" => {
            o.push(("timestamp", GC::Time, time_on(g(9), g(1), now)?));
            match g(2) { "A" => o.push(("status_active", GC::Val, Ex::Is(V::B(true)))), "V" => o.push(("status_active", GC::Val, Ex::Is(V::B(false)))), "" => o.push(("status_active", GC::Val, Ex::Is(V::Non))), _ => bad = true }
            latlon!(3);
            num!("sog_knots", 7);
            num!("bearing", 8);
            match number(g(10))? {
                Num::Empty => o.push(("variation", GC::Val, Ex::Is(V::Non))),
                Num::Bad => bad = true,
                Num::Val(v) => match g(11) { "E" => o.push(("variation", GC::Val, Ex::Is(V::F(v)))), "W" => o.push(("variation", GC::Val, Ex::Is(V::F(-v)))), _ => return Err(Open) },
            }
            "Rmc"
        }
        "GSA" => {
            match g(1) { "A" => o.push(("mode1_automatic", GC::Val, Ex::Is(V::B(true)))), "M" => o.push(("mode1_automatic", GC::Val, Ex::Is(V::B(false)))), "" => o.push(("mode1_automatic", GC::Val, Ex::Is(V::Non))), _ => bad = true }
            match g(2) { "1" => o.push(("mode2_3d", GC::Val, Ex::Is(V::E("NotAvailable")))), "2" => o.push(("mode2_3d", GC::Val, Ex::Is(V::E("Fix2D")))), "3" => o.push(("mode2_3d", GC::Val, Ex::Is(V::E("Fix3D")))), "" => o.push(("mode2_3d", GC::Val, Ex::Is(V::Non))), _ => bad = true }
            let mut l = vec![];
            for i in 3..15 { match integer(g(i), 255)? { Int::Empty => {} Int::Val(v) => l.push(V::I(v)), Int::Bad => bad = true } }
            o.push(("prn_numbers", GC::Val, Ex::Is(V::L(l))));
            num!("pdop", 15);
            num!("hdop", 16);
            num!("vdop", 17);
            "Gsa"
        }
        "VTG" => {
            for (n, i) in [("cog_true", 1), ("cog_magnetic", 3), ("sog_knots", 5), ("sog_kph", 7)] {
                let e = match number(g(i)) { Ok(Num::Val(v)) => Ex::Is(V::F(v)), Ok(_) => Ex::Is(V::Non), Err(Open) => Ex::Any };
                o.push((n, GC::Val, e));
            }
            o.push(("faa_mode", GC::Val, Ex::Is(faa_of(g(9)))));
            "Vtg"
        }
        "GLL" => {
            latlon!(1);
            o.push(("timestamp", GC::Time, time_today(g(5), now)?));
            o.push(("data_valid", GC::Val, Ex::Is(match g(6) { "A" => V::B(true), "V" => V::B(false), _ => V::Non })));
            o.push(("faa_mode", GC::Val, Ex::Is(faa_of(g(7)))));
            "Gll"
        }
        _ => return Err(Open),
    };
    let _ = days;
    Ok(if bad { Exp::Err } else { Exp::Data(kind, o) })
}

/// Feeds one sentence to a new parser and compares the selected fields.
pub fn check(ctx: &mut Ctx, body: &str, cks: bool, now: i64, cats: &[GC]) {
    let exp = match reference(body, now) { Ok(e) => e, Err(Open) => return };
    let s = if cks { crate::ais::with_checksum(body) } else { body.to_string() };
    crate::clock::set(Some(now));
    let o = fresh(&s);
    ctx.calls += 1;
    ctx.case_at(true, &[&s], now);
    ctx.tally(&o);
    if ctx.samples.is_empty() { ctx.sample(|| format!("{:?} at {} -> {}", s, now, clip(&o.short(), 300))); }
    verdict(ctx, &s, now, &exp, &o, cats);
}

pub fn verdict(ctx: &mut Ctx, s: &str, now: i64, exp: &Exp, o: &Out, cats: &[GC]) {
    let form = &s[3..6.min(s.len())];
    match (exp, o) {
        (Exp::Err, Out::Err(EK::Invalid)) | (Exp::Err, Out::Err(EK::Unsupported)) => {}
        (Exp::Data(k, fs), Out::Data(d)) if d.kind == *k => {
            for (n, c, e) in fs {
                if !cats.contains(c) { continue; }
                match d.get(n) {
                    Some(v) if e.ok(v) => {}
                    v => ctx.violate(&format!("{}.{}", form, n), vec![Step::at(s, Some(now))], format!("{} = {:?}", n, e), format!("{} = {:?}", n, v), o.short()),
                }
            }
        }
        (e, o) => ctx.violate(&format!("{}.outcome", form), vec![Step::at(s, Some(now))], match e { Exp::Err => "an error".to_string(), Exp::Data(k, _) => format!("{} data", k) }, o.short(), String::new()),
    }
}
