//! C17 (positions), C18 (fields), C19 (times), C20 (headers) of the GNSS sentences.
use super::aismisc::{at, digits, prod};
use crate::ais::{with_checksum, NOW};
use crate::engine::*;
use crate::gnss::*;
use crate::obs::*;
use nmea_parser::NmeaParser;

/// Kinds of text fields.
#[derive(Clone, Copy, PartialEq)]
pub enum FK { Time, Date, Lat, NS, Lon, EW, Float, Small, Word, Qual, Rmc, Mode, Fix, Unit, Faa, GllS, Side }
use FK::*;

pub fn layouts() -> Vec<(&'static str, Vec<FK>)> {
    let mut gsa = vec![Mode, Fix];
    gsa.extend([Small; 12]);
    gsa.extend([Float, Float, Float]);
    vec![
        ("GGA", vec![Time, Lat, NS, Lon, EW, Qual, Small, Float, Float, Unit, Float, Unit, Float, Word]),
        ("RMC", vec![Time, FK::Rmc, Lat, NS, Lon, EW, Float, Float, Date, Float, Side]),
        ("GSA", gsa),
        ("VTG", vec![Float, Unit, Float, Unit, Float, Unit, Float, Unit, Faa]),
        ("GLL", vec![Lat, NS, Lon, EW, Time, GllS, Faa]),
    ]
}

/// Contents of a field, ordered: usual, empty, boundary, malformed.
pub fn menu(k: FK) -> Vec<&'static str> {
    match k {
        Time => vec!["123519", "", "000000", "235959", "123519.5", "123519.00", "240000", "126000", "12351", "1", "abcdef", "12 519", "-12351", "+12519", "12a519", "1235é9", "99.9999", "225446.999", "0", "125960"],
        Date => vec!["191120", "", "010100", "311299", "290224", "290223", "000000", "320120", "011320", "1911", "19112", "abcdef", "-91120", "+91120", "19é20", "310420", "300220"],
        Lat => vec!["4807.038", "", "0000.0", "8959.9999", "4916.45", "0000.000001", "9000.0", "480.38", "4807", "48.07038", "A807.038", "-807.038", "04807.038", " 4807.038", "4807.", "é807.038", ".", "+4807.038", "4807,038", "0307.5"],
        NS => vec!["N", "S", "", "n", "X", "E"],
        Lon => vec!["01131.000", "", "00000.0", "17959.9999", "12311.12", "00000.000001", "18000.0", "1131.000", "01131", "113.1000", "A1131.000", "-1131.000", "001131.000", " 01131.000", "01131.", "é1131.000", ".", "+01131.000", "00907.5"],
        EW => vec!["E", "W", "", "e", "X", "N"],
        Float => vec!["0.9", "", "545.4", "0", "0.0", "-46.9", "000.5", "359.99", "123456789.125", "1", "0.001", "99999", "-0.5", "nan", "NaN", "inf", "-inf", "infinity", "1e3", "1E3", "0x10", "abc", "1.2.3", "--1", "1-", " 1", "1 ", ".", "-", "e", "é", "1,5", "٣", "1_000", "5-3", "1f", "i", "0.0.", "1.7976931348623157"],
        Small => vec!["08", "", "0", "1", "00", "9", "12", "99", "100", "255", "256", "999", "1000", "65536", "-1", "-8", "8.0", "a", "8a", " 8", "0x8", "1e1", "é", "007", "4294967304", "18446744073709551624"],
        Word => vec!["0120", "", "0", "1023", "4095", "255", "256", "65535", "65536", "70000", "-1", "1.0", "a", "0000", "1e2", "é", "4294967296"],
        Qual => vec!["1", "", "0", "2", "3", "4", "5", "6", "7", "8", "9", "10", "255", "256", "01", "08", "-1", "a", "1.0", "A", "é", " 1"],
        FK::Rmc => vec!["A", "V", "", "a", "v", "X", "N", "AV", " A", "1", "é", "D"],
        Mode => vec!["A", "M", "", "a", "m", "X", "AM", " A", "1", "é", "V"],
        Fix => vec!["3", "1", "2", "", "0", "4", "03", "A", "é", " 3", "33"],
        Unit => vec!["M", "", "T", "N", "K", "x", "5", "é"],
        Faa => vec!["A", "D", "E", "N", "S", "", "a", "d", "M", "P", "R", "F", "X", "AD", " A", "é", "1"],
        GllS => vec!["A", "V", "", "a", "v", "X", "D", "N", "AV", " A", "é", "1"],
        Side => vec!["E", "W", "", "e", "w", "N", "X", "EW", "é"],
    }
}

fn body(head: &str, fs: &[&str]) -> String {
    let mut s = head.to_string();
    for f in fs { s.push(','); s.push_str(f); }
    s
}
fn bases(l: &[FK]) -> Vec<Vec<&'static str>> {
    vec![
        l.iter().map(|&k| menu(k)[0]).collect(),
        l.iter().map(|_| "").collect(),
        l.iter().enumerate().map(|(i, &k)| match k { Float => ["12.5", "-3.25", "0.125"][i % 3], Lat => "3352.1289", NS => "S", Lon => "15112.6102", EW => "W", Small => ["11", "22", "33", "44", "55", "66", "77"][i % 7], Side => "W", _ => menu(k)[if menu(k).len() > 3 { 2 } else { 1 }] }).collect(),
        // without coordinates (cheap)
        l.iter().map(|&k| if matches!(k, Lat | NS | Lon | EW) { "" } else { menu(k)[0] }).collect(),
    ]
}
fn pick_menu(m: &[&'static str], n: usize) -> Vec<&'static str> {
    if m.len() <= n { m.to_vec() } else { (0..n).map(|i| m[i * (m.len() - 1) / (n - 1)]).collect() }
}

/// Field menus one at a time, in pairs and in triples, and every truncation, for fields of interest.
fn menus(run: &mut Run, cats: &[GC], interest: impl Fn(FK) -> bool + Sync, heads: &[&str], now: i64) {
    let th = run.thorough;
    for (form, l) in layouts() {
        if !l.iter().any(|&k| interest(k)) { continue; }
        let n = l.len();
        let bs = bases(&l);
        // singles x truncations
        let mut one: Vec<(usize, &'static str)> = vec![];
        for (i, &k) in l.iter().enumerate() { for v in menu(k) { one.push((i, v)); } }
        let rad = [one.len(), bs.len(), n + 3, heads.len(), 2];
        run.par(&format!("{}: every field content, every length", form), prod(&rad), |ctx, i| {
            let [o, b, t, h, c] = digits(i, rad);
            let (p, v) = one[o];
            if t == 0 || t < n && p >= t && o > 0 { return; }
            let mut f = bs[b].clone();
            f[p] = v;
            let mut f: Vec<&str> = f[..t.min(n)].to_vec();
            for k in 0..t.saturating_sub(n) { f.push(["7", "X"][k]); }
            let s = body(&format!("${}{}", heads[h], form), &f);
            if c == 1 && !s.is_ascii() { return; }
            check(ctx, &s, c == 1, now, cats);
        });
        // pairs
        let mut pairs = vec![];
        for a in 0..n { for b in a + 1..n { if interest(l[a]) || interest(l[b]) { for x in menu(l[a]) { for y in menu(l[b]) { pairs.push((a, x, b, y)); } } } } }
        let rad = [pairs.len(), if th { 4 } else { 1 }];
        run.par(&format!("{}: every pair of field contents", form), prod(&rad), |ctx, i| {
            let [q, b] = digits(i, rad);
            let (a, x, c, y) = pairs[q];
            let mut f = bs[if th { b } else if q % 8 == 0 { 0 } else { 3 }].clone();
            f[a] = x;
            f[c] = y;
            let s = body(&format!("${}{}", heads[0], form), &f);
            check(ctx, &s, false, now, cats);
        });
        // triples of fewer contents
        let m = if th { 6 } else { 4 };
        let mut tri = vec![];
        for a in 0..n { for b in a + 1..n { for c in b + 1..n { if interest(l[a]) || interest(l[b]) || interest(l[c]) { tri.push((a, b, c)); } } } }
        let ms: Vec<Vec<&str>> = l.iter().map(|&k| pick_menu(&menu(k), m)).collect();
        let rad = [m, m, m, tri.len()];
        run.par(&format!("{}: triples of field contents", form), prod(&rad), |ctx, i| {
            let [x, y, z, t] = digits(i, rad);
            let (a, b, c) = tri[t];
            if x >= ms[a].len() || y >= ms[b].len() || z >= ms[c].len() { return; }
            let mut f = bs[if th { t % 4 } else { 3 }].clone();
            f[a] = ms[a][x];
            f[b] = ms[b][y];
            f[c] = ms[c][z];
            check(ctx, &body(&format!("${}{}", heads[0], form), &f), false, now, cats);
        });
    }
}

/// All strings over an alphabet, up to a length.
pub struct Words { pub al: Vec<char>, pub max: usize, ends: Vec<u64> }
impl Words {
    pub fn new(al: &str, max: usize) -> Words {
        let al: Vec<char> = al.chars().collect();
        let mut ends = vec![];
        let mut t = 0;
        for l in 0..=max { t += (al.len() as u64).pow(l as u32); ends.push(t); }
        Words { al, max, ends }
    }
    pub fn len(&self) -> u64 { *self.ends.last().unwrap() }
    pub fn get(&self, i: u64) -> String {
        let l = self.ends.partition_point(|&e| e <= i);
        let mut r = i - if l == 0 { 0 } else { self.ends[l - 1] };
        let mut s = String::new();
        for _ in 0..l { s.push(self.al[(r % self.al.len() as u64) as usize]); r /= self.al.len() as u64; }
        s
    }
}

// ------------------------------------------------------------------------------------ C17

pub fn positions(run: &mut Run) {
    let th = run.thorough;
    let cats = [GC::Pos];
    let forms: [(&str, &str, &str); 3] = [("GGA,123519", "1,08,0.9,545.4,M,46.9,M,,", "a"), ("RMC,225446,A", "000.5,054.7,191120,020.3,E", "b"), ("GLL", "225444,A,D", "c")];
    let sent = |f: usize, la: &str, ns: &str, lo: &str, ew: &str| format!("$GP{},{},{},{},{},{}", forms[f].0, la, ns, lo, ew, forms[f].1);
    let decs: Vec<&str> = if th { vec!["0", "5", "038", "9999", "0001", "45", "99999999", "123456789012", "00000001", "12345678901234567890"] } else { vec!["0", "038", "99999", "123456789012"] };
    let rad = [60, 91, decs.len(), 3, 2];
    run.par("every latitude in degrees and minutes", prod(&rad), |ctx, i| {
        let [m, d, x, f, h] = digits(i, rad);
        check(ctx, &sent(f, &format!("{:02}{:02}.{}", d, m, decs[x]), ["N", "S"][h], "", ""), false, NOW, &cats);
    });
    let rad = [60, 181, decs.len(), 3, 2];
    run.par("every longitude in degrees and minutes", prod(&rad), |ctx, i| {
        let [m, d, x, f, h] = digits(i, rad);
        check(ctx, &sent(f, "", "", &format!("{:03}{:02}.{}", d, m, decs[x]), ["E", "W"][h]), false, NOW, &cats);
    });
    let nd = if th { 5 } else { 4 };
    let total: u64 = (1..=nd).map(|k| 10u64.pow(k as u32)).sum();
    let rad = [total as usize, if th { 6 } else { 2 }];
    run.par("every fraction of a minute", prod(&rad), |ctx, i| {
        let [mut v, k] = digits(i, rad);
        let mut n = 1;
        while v as u64 >= 10u64.pow(n) { v -= 10usize.pow(n); n += 1; }
        let fr = format!("{:0w$}", v, w = n as usize);
        let s = if k % 2 == 0 { sent(k / 2, &format!("4807.{}", fr), "S", "", "") } else { sent(k / 2, "", "", &format!("12359.{}", fr), "W") };
        check(ctx, &s, false, NOW, &cats);
    });
    // Both coordinates, all hemispheres
    let las = ["", "0000.0", "0000.0001", "4807.038", "8959.9999", "9000.0", "0959.5", "4500.0", "480.38", "x", "4807"];
    let los = ["", "00000.0", "00000.0001", "01131.000", "17959.9999", "18000.0", "09959.5", "12311.12", "1131.0", "x", "01131"];
    let ns = ["N", "S", ""];
    let ew = ["E", "W", ""];
    let rad = [las.len(), los.len(), 3, 3, 3, 2];
    run.par("both coordinates", prod(&rad), |ctx, i| {
        let [a, b, n, e, f, c] = digits(i, rad);
        check(ctx, &sent(f, las[a], ns[n], los[b], ew[e]), c == 1, NOW, &cats);
    });
    // Positions in the context of every pair and triple of contents of all the other fields
    for (form, l) in layouts() {
        let n = l.len();
        if !l.contains(&Lat) { continue; }
        let others: Vec<usize> = (0..n).filter(|&i| !matches!(l[i], Lat | NS | Lon | EW)).collect();
        let m = if th { 12 } else { 7 };
        let bs = bases(&l);
        let ms: Vec<Vec<&str>> = l.iter().map(|&k| menu(k).into_iter().take(m).collect()).collect();
        let q = others.len();
        let rad = [m, m, m, q, q, q, 2];
        run.par(&format!("{}: positions with every three other fields", form), prod(&rad), |ctx, i| {
            let [x, y, z, a, b, c, s] = digits(i, rad);
            if !(a < b && b < c || a < b && b == c && z == 0) { return; }
            if x >= ms[others[a]].len() || y >= ms[others[b]].len() || z >= ms[others[c]].len() { return; }
            if !th && b != c && (x > 3 || y > 3 || z > 3) { return; }
            let mut f = bs[s * 2].clone();
            if b != c { f[others[c]] = ms[others[c]][z]; }
            f[others[a]] = ms[others[a]][x];
            f[others[b]] = ms[others[b]][y];
            check(ctx, &body(&format!("$GP{}", form), &f), false, NOW, &cats);
        });
        // ... and when all the others are empty but for two
        run.par(&format!("{}: positions with all other fields empty but two", form), prod(&rad[..]), |ctx, i| {
            let [x, y, z, a, b, c, s] = digits(i, rad);
            if z > 0 || c > 0 || a > b { return; }
            if x >= ms[others[a]].len() || y >= ms[others[b]].len() { return; }
            let mut f = bs[s * 2].clone();
            for &o in &others { f[o] = ""; }
            f[others[a]] = ms[others[a]][x];
            f[others[b]] = ms[others[b]][y];
            check(ctx, &body(&format!("$GP{}", form), &f), false, NOW, &cats);
        });
    }
    // Edits of a well-formed field
    let al: Vec<char> = "059.-+ NaeX_é٣".chars().collect();
    for (nm, base, lat) in [("latitude", "4807.038", true), ("longitude", "01131.056", false)] {
        let bc: Vec<char> = base.chars().collect();
        let ne = 3 * (bc.len() + 1) * al.len();
        let edit = |s: &[char], e: usize| -> Option<Vec<char>> {
            let (k, r) = (e % 3, e / 3);
            let (p, c) = (r % (bc.len() + 1), al[r / (bc.len() + 1)]);
            let mut v = s.to_vec();
            match k {
                0 => { if p >= v.len() { return None; } v[p] = c; }
                1 => { if p > v.len() { return None; } v.insert(p, c); }
                _ => { if p >= v.len() || c != al[0] { return None; } v.remove(p); }
            }
            Some(v)
        };
        let two = |i: u64| -> Option<String> {
            let a = edit(&bc, (i % ne as u64) as usize)?;
            let j = (i / ne as u64) as usize;
            if j == 0 { return Some(a.into_iter().collect()); }
            if !th && (j - 1) % 3 != 2 && (i % 3 == 1) { return None; }
            edit(&a, j - 1).map(|v| v.into_iter().collect())
        };
        run.par(&format!("{}: one and two edits of the field", nm), ne as u64 * (1 + ne as u64) * if th { 3 } else { 1 }, |ctx, i| {
            let f = (i / (ne as u64 * (1 + ne as u64))) as usize;
            let f = if th { f } else { (i % 3) as usize };
            if let Some(s) = two(i % (ne as u64 * (1 + ne as u64))) {
                if !th && i >= ne as u64 && (i * 2654435761 >> 5) % 3 != 0 { return; }
                let t = if lat { sent(f, &s, "N", "", "") } else { sent(f, "", "", &s, "W") };
                check(ctx, &t, false, NOW, &cats);
            }
        });
    }
    let w = Words::new("019.", if th { 7 } else { 5 });
    run.par("short strings as coordinates", w.len() * 2, |ctx, i| {
        let s = w.get(i / 2);
        check(ctx, &(if i % 2 == 0 { sent(2, &s, "N", "", "") } else { sent(2, "", "", &s, "E") }), false, NOW, &cats);
    });
    menus(run, &cats, |k| matches!(k, Lat | NS | Lon | EW), &["GP", "GN"], NOW);
}

// ------------------------------------------------------------------------------------ C18

pub fn fields(run: &mut Run) {
    let th = run.thorough;
    let cats = [GC::Val, GC::Src];
    menus(run, &cats, |_| true, &["GP", "GN", "GL", "XX"], NOW);
    // Short strings in every field that is not a coordinate or a time
    let mut slots = vec![];
    for (li, (_, l)) in layouts().iter().enumerate() { for (i, &k) in l.iter().enumerate() { if !matches!(k, Lat | NS | Lon | EW | Time | Date | Unit) { slots.push((li, i)); } } }
    let ls = layouts();
    let w = Words::new(if th { "0192.-+eEnaifN x٣" } else { "0192.-+enaif " }, if th { 4 } else { 3 });
    let rad = [slots.len(), w.len() as usize];
    run.par("every short string in every field", prod(&rad), |ctx, i| {
        let [s, k] = digits(i, rad);
        let (li, p) = slots[s];
        let (form, l) = &ls[li];
        let v = w.get(k as u64);
        let mut f = bases(l)[1].clone();
        let t: &str = &v;
        if *form == "RMC" && p == 9 { f[10] = "W"; }
        let mut g: Vec<&str> = f.clone();
        g[p] = t;
        check(ctx, &body(&format!("$GP{}", form), &g), false, NOW, &cats);
    });
    let w2 = Words::new("0159.-", if th { 7 } else { 5 });
    let rad = [slots.len(), w2.len() as usize];
    run.par("number-like strings in every field", prod(&rad), |ctx, i| {
        let [s, k] = digits(i, rad);
        let (li, p) = slots[s];
        let (form, l) = &ls[li];
        let v = w2.get(k as u64);
        let mut f = bases(l)[1].clone();
        if *form == "RMC" && p == 9 { f[10] = "E"; }
        let mut g: Vec<&str> = f.clone();
        g[p] = &v;
        check(ctx, &body(&format!("$GP{}", form), &g), false, NOW, &cats);
    });
    // All whole numbers to 70000 and all hundredths to 400 in every field
    let rad = [slots.len(), if th { 70_000 } else { 1_100 }, 2];
    run.par("every number in every field", prod(&rad), |ctx, i| {
        let [s, k, c] = digits(i, rad);
        let (li, p) = slots[s];
        let (form, l) = &ls[li];
        let v = if c == 0 { format!("{}", k) } else { format!("{}.{:02}", k / 100, k % 100) };
        let mut f = bases(l)[1].clone();
        if *form == "RMC" && p == 9 { f[10] = "W"; }
        let mut g: Vec<&str> = f.clone();
        g[p] = &v;
        check(ctx, &body(&format!("$GP{}", form), &g), false, NOW, &cats);
    });
    // Every character and pair of characters in every status field
    let all: Vec<(usize, usize)> = ls.iter().enumerate().flat_map(|(li, (_, l))| (0..l.len()).map(move |i| (li, i))).collect();
    let st: Vec<(usize, usize)> = all.iter().copied().filter(|&(li, i)| matches!(ls[li].1[i], FK::Rmc | Mode | Fix | Faa | GllS | Qual | Unit | Side | NS | EW)).collect();
    let chars: Vec<char> = (1u8..127).map(|b| b as char).filter(|c| *c != ',' && *c != '*').chain("éàÅ\u{141}\u{4e41}\u{ff21}".chars()).collect();
    let rad = [st.len(), chars.len(), chars.len() + 1];
    run.par("every one or two characters in status, side and unit fields", prod(&rad), |ctx, i| {
        let [s, a, b] = digits(i, rad);
        let (li, p) = st[s];
        let (form, l) = &ls[li];
        let mut v = chars[a].to_string();
        if b > 0 { v.push(chars[b - 1]); }
        if !th && b > 0 && !chars[b - 1].is_ascii_alphanumeric() && !chars[a].is_ascii_alphanumeric() { return; }
        let f = bases(l)[3].clone();
        let mut g: Vec<&str> = f.clone();
        g[p] = &v;
        check(ctx, &body(&format!("$GP{}", form), &g), false, NOW, &cats);
    });
    // Active satellites: which of the twelve are present, and their order
    let rad = [4096, 4];
    run.par("GSA: every subset of satellite fields", prod(&rad), |ctx, i| {
        let [m, o] = digits(i, rad);
        let mut g: Vec<String> = vec!["A".into(), "3".into()];
        for k in 0..12 { g.push(if m >> k & 1 == 1 { match o { 0 => (k + 1).to_string(), 1 => (255 - k).to_string(), 2 => "07".into(), _ => ((k * 37) % 100).to_string() } } else { String::new() }); }
        g.extend(["1.7".into(), "1.0".into(), "1.3".into()]);
        let r: Vec<&str> = g.iter().map(|s| s.as_str()).collect();
        check(ctx, &body("$GNGSA", &r), true, NOW, &cats);
    });
    let rad = [12, 12, 260, 2];
    run.par("GSA: satellite numbers in two fields", prod(&rad), |ctx, i| {
        let [a, b, v, w] = digits(i, rad);
        if a >= b { return; }
        let mut g: Vec<String> = vec!["M".into(), "2".into()];
        for k in 0..12 { g.push(if k == a { v.to_string() } else if k == b { (if w == 0 { 259 - v } else { 5 }).to_string() } else { String::new() }); }
        g.extend(["".into(), "1.0".into(), "".into()]);
        let r: Vec<&str> = g.iter().map(|s| s.as_str()).collect();
        check(ctx, &body("$GLGSA", &r), false, NOW, &cats);
    });
}

// ------------------------------------------------------------------------------------ C19

pub fn times(run: &mut Run) {
    let th = run.thorough;
    let cats = [GC::Time, GC::Val];
    let cl: Vec<i64> = vec![at(2024, 2, 29, 12, 30, 15), at(2023, 12, 31, 23, 59, 59), at(2025, 1, 1, 0, 0, 0), at(1999, 12, 31, 23, 59, 59), at(2000, 1, 1, 0, 0, 0),
        at(2099, 12, 31, 12, 0, 0), at(2100, 3, 1, 0, 0, 0), at(2023, 2, 28, 23, 59, 59), at(1970, 1, 1, 0, 0, 0), at(2026, 6, 15, 6, 7, 8)];
    let nc = if th { cl.len() } else { 2 };
    let sent = |f: usize, t: &str, d: &str| match f {
        0 => format!("$GPGGA,{},,,,,1,08,0.9,545.4,M,46.9,M,,", t),
        1 => format!("$GPGLL,,,,,{},A,D", t),
        _ => format!("$GPRMC,{},A,,,,,000.5,054.7,{},020.3,E", t, d),
    };
    let rad = [1_000_000, 3, nc];
    run.par("every six-digit time", prod(&rad), |ctx, i| {
        let [t, f, c] = digits(i, rad);
        if !th && c == 1 && t % 7 != 0 { return; }
        check(ctx, &sent(f, &format!("{:06}", t), "191120"), false, cl[c], &cats);
    });
    let rad = [1_000_000, nc + 1, 2];
    run.par("every six-digit date", prod(&rad), |ctx, i| {
        let [d, c, t] = digits(i, rad);
        if !th && c > 0 && d % 5 != 0 { return; }
        check(ctx, &sent(2, ["225446", "235959.99"][t], &format!("{:06}", d)), false, cl[(c * 3) % cl.len()], &cats);
    });
    // Every real date of two centuries at every clock, every hour
    let rad = [12, 31, 100, cl.len()];
    run.par("every date of the century at every clock", prod(&rad), |ctx, i| {
        let [m, d, y, c] = digits(i, rad);
        check(ctx, &sent(2, "000000", &format!("{:02}{:02}{:02}", d + 1, m + 1, y)), false, cl[c], &cats);
    });
    let mut clocks = cl.clone();
    for k in 0..if th { 3000 } else { 400 } { clocks.push(at(2023, 1, 1, 0, 0, 0) + k * 86400 * if th { 1 } else { 5 } + (k * 7919) % 86400); }
    let ts = ["000000", "235959", "123519.99", "120000", "240000", ""];
    let rad = [clocks.len(), ts.len(), 3];
    run.par("times at many clock readings", prod(&rad), |ctx, i| {
        let [c, t, f] = digits(i, rad);
        check(ctx, &sent(f, ts[t], "290224"), false, clocks[c], &cats);
    });
    let w = Words::new("0129.-+ Aé", if th { 6 } else { 5 });
    run.par("short strings as times", w.len() * 3, |ctx, i| {
        check(ctx, &sent((i % 3) as usize, &w.get(i / 3), "191120"), false, cl[0], &cats);
    });
    run.par("short strings as dates", w.len(), |ctx, i| check(ctx, &sent(2, "123519", &w.get(i)), false, cl[0], &cats));
    let al = if th { "025-+. xé" } else { "02-+.é" };
    let n = al.chars().count();
    let rad = [n, n, n, n, n, n, 4];
    run.par("six characters as time or date", prod(&rad), |ctx, i| {
        let d = digits(i, rad);
        let cs: Vec<char> = al.chars().collect();
        let s: String = d[..6].iter().map(|&k| cs[k]).collect();
        check(ctx, &(if d[6] == 3 { sent(2, "123519", &s) } else { sent(d[6], &s, "191120") }), false, cl[0], &cats);
    });
    // Every character in every place of a time and a date, inserted and replaced
    let chars: Vec<char> = (1u8..127).map(|b| b as char).filter(|c| *c != ',' && *c != '*').chain("éàÅ\u{660}\u{663}\u{ff11}\u{1d7ce}\u{141}".chars()).collect();
    let rad = [chars.len(), 11, 2, 4, 3];
    run.par("every character in every place", prod(&rad), |ctx, i| {
        let [c, p, ins, f, b] = digits(i, rad);
        let base = if f == 3 { ["191120", "010203", "311299"][b] } else { ["123519.123", "000000", "225446.5"][b] };
        let mut s: Vec<char> = base.chars().collect();
        if p > s.len() || (ins == 0 && p == s.len()) { return; }
        if ins == 0 { s[p] = chars[c] } else { s.insert(p, chars[c]) }
        let s: String = s.into_iter().collect();
        check(ctx, &(if f == 3 { sent(2, "123519", &s) } else { sent(f, &s, "191120") }), false, cl[0], &cats);
    });
    menus(run, &cats, |k| matches!(k, Time | Date), &["GP", "GN"], cl[0]);
}

// ------------------------------------------------------------------------------------ C20

const GN: [&str; 6] = ["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"];
const TAIL: [&str; 8] = [
    ",123519,,,,,1,08,0.9,545.4,M,46.9,M,,", ",225446,A,,,,,000.5,054.7,191120,020.3,E", ",A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3", ",1,1,02,14,25,170,00,16,57,208,39",
    ",054.7,T,034.4,M,005.5,N,010.2,K,D", ",4916.45,N,12311.12,W,225444,A,D", ",1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", ",1,1,,B,H42O55i18tMET00000000000000,0",
];
/// What a header must be: a kind of result, an error, or left open.
enum H { Kind(&'static str, bool), Err, Open }
fn header(h: &str) -> H {
    let b: Vec<char> = h.chars().collect();
    // one two-byte character in place of the talker is left open like other non-letter talkers
    if b.len() == 5 && h.len() == 6 && !b[1].is_ascii() { return H::Open; }
    if b.len() != 6 || (b[0] != '$' && b[0] != '!') { return H::Err; }
    let form: String = b[3..].iter().collect();
    let known = match (b[0], form.as_str()) {
        ('$', "GGA") => "Gga", ('$', "RMC") => "Rmc", ('$', "GSA") => "Gsa", ('$', "GSV") => "Gsv", ('$', "VTG") => "Vtg", ('$', "GLL") => "Gll",
        ('!', "VDM") | ('!', "VDO") => "Ais", _ => return H::Err,
    };
    // Proprietary ('P') and non-letter talkers in front of a known formatter are left open.
    if !b[1].is_ascii_uppercase() || !b[2].is_ascii_uppercase() || b[1] == 'P' { return H::Open; }
    H::Kind(known, b[0] == '!')
}

fn try_header(ctx: &mut Ctx, h: &str, tail: &str, cks: bool) {
    let s = format!("{}{}", h, tail);
    let s = if cks && s.is_ascii() { with_checksum(&s) } else { s };
    if h.contains(',') || h.contains('*') { return; }
    let exp = header(h);
    crate::clock::set(Some(NOW));
    let o = fresh(&s);
    ctx.calls += 1;
    ctx.case(true, &[&s]);
    ctx.tally(&o);
    let bad = |ctx: &mut Ctx, e: String| ctx.violate("header", vec![Step::at(&s, Some(NOW))], e, o.short(), String::new());
    match (&exp, &o) {
        (_, Out::Panic(_)) => bad(ctx, "an answer".into()),
        (H::Open, _) => {}
        (H::Err, Out::Err(EK::Corrupted)) => bad(ctx, "an error about the header".into()),
        (H::Err, Out::Err(_)) => {}
        (H::Err, _) => bad(ctx, "an error".into()),
        (H::Kind(k, ais), o) => {
            match o {
                Out::Data(d) => {
                    if *ais {
                        if !matches!(d.kind, "Dynamic" | "Static") { return bad(ctx, "AIS data".into()); }
                        if let Some(v) = d.get("station") { if *v != V::E(crate::ais::station_of(&h[1..3])) { return bad(ctx, "station of the talker".into()); } }
                        if d.get("own_vessel") != Some(&V::B(h.ends_with("VDO"))) { return bad(ctx, "own vessel for VDO".into()); }
                    } else {
                        if d.kind != *k { return bad(ctx, k.to_string()); }
                        let src = V::E(system(&h[1..3]));
                        let ok = if *k == "Gsv" { matches!(d.get("sats"), Some(V::L(l)) if (!l.is_empty() || tail_for(h)[0] != tail) && l.iter().all(|x| matches!(x, V::L(y) if y[0] == src))) } else { d.get("source") == Some(&src) };
                        if !ok { return bad(ctx, format!("source {:?}", src)); }
                    }
                }
                Out::Incomplete if *ais && tail == TAIL[7] => {}
                // an edited header may name a sentence the rest does not fit
                Out::Err(EK::Invalid) | Out::Incomplete if tail_for(h)[0] != tail => {}
                _ => bad(ctx, format!("{} data", k)),
            }
        }
    }
}

/// The tail that fits the formatter of the header, if there is one.
fn tail_for(h: &str) -> Vec<&'static str> {
    let f: String = { let c: Vec<char> = h.chars().collect(); if c.len() >= 3 { c[c.len() - 3..].iter().collect() } else { String::new() } };
    match GN.iter().position(|g| *g == f) {
        Some(i) => vec![TAIL[i]],
        None if f == "VDM" || f == "VDO" => vec![TAIL[6]],
        None => vec![TAIL[3], TAIL[6]],
    }
}

pub fn headers(run: &mut Run) {
    let th = run.thorough;
    let all: Vec<&str> = GN.iter().copied().chain(["VDM", "VDO"]).collect();
    // every talker with every formatter and both delimiters
    let rad = [26, 26, 8, 2, 2];
    run.par("every talker", prod(&rad), |ctx, i| {
        let [a, b, f, d, c] = digits(i, rad);
        let h = format!("{}{}{}{}", ['$', '!'][d], (b'A' + a as u8) as char, (b'A' + b as u8) as char, all[f]);
        for t in tail_for(&h) { try_header(ctx, &h, t, c == 1); }
    });
    // every three-letter formatter
    let ts = ["GP", "AI", "GN", "BS"];
    let rad = [26, 26, 26, 2, ts.len()];
    run.par("every formatter", prod(&rad), |ctx, i| {
        let [a, b, c, d, t] = digits(i, rad);
        if !th && t > 1 { return; }
        let h = format!("{}{}{}{}{}", ['$', '!'][d], ts[t], (b'A' + a as u8) as char, (b'A' + b as u8) as char, (b'A' + c as u8) as char);
        for t in tail_for(&h) { try_header(ctx, &h, t, false); }
    });
    // what follows the header may look like anything: a formatter, a talker, another sentence
    let mut fol: Vec<String> = vec![];
    for g in &all { let t = tail_for(&format!("$GP{}", g))[0]; for x in [g.to_string(), format!("GP{}", g), format!("$GP{}", g), format!("!AI{}", g), g[..2].to_string(), g.to_lowercase()] { fol.push(format!(",{}{}", x, t)); fol.push(format!(",{}", x)); fol.push(format!(",,{}{}", x, t)); fol.push(format!("{},{}", t, x)); } }
    for t in TAIL { fol.push(t[1..].replacen(',', ",,", 1)); fol.push(format!(",{}", t)); fol.push(format!("{}{}", t, t)); }
    fol.retain(|f| f.starts_with(','));
    let rad = [26, 26, 26, fol.len(), if th { 3 } else { 1 }];
    run.par("every formatter before other contents", prod(&rad), |ctx, i| {
        let [a, b, c, f, t] = digits(i, rad);
        // the quick tier: two letters at least of a known formatter, or a usual last letter
        let h = format!("{}{}{}{}", ["$CC", "$GP", "!AI"][t], (b'A' + a as u8) as char, (b'A' + b as u8) as char, (b'A' + c as u8) as char);
        if !th && !(all.iter().any(|g| g.bytes().zip(h.bytes().skip(3)).filter(|(x, y)| x == y).count() >= 2) || c == 16 && (f + a + b) % 2 == 0 || (a * 7 + b * 3 + c + f) % 16 == 0) { return; }
        if let H::Err = header(&h) { try_header(ctx, &h, &fol[f], false); }
    });
    // one edit (two in the thorough tier) of a proper header
    let chars: Vec<char> = (1u8..127).map(|b| b as char).filter(|c| *c != ',' && *c != '*').chain("é€\u{1F6A2}\u{0}".chars()).collect();
    let heads: Vec<String> = GN.iter().map(|g| format!("$GP{}", g)).chain(["!AIVDM".to_string(), "!BSVDO".to_string(), "$GNGSV".to_string()]).collect();
    let edit = |s: &[char], k: usize, p: usize, c: char| -> Option<Vec<char>> {
        let mut v = s.to_vec();
        match k { 0 if p < v.len() => v[p] = c, 1 if p <= v.len() => v.insert(p, c), 2 if p < v.len() => { v.remove(p); } 3 => v.truncate(p), 4 if p <= v.len() => { v.drain(..p); } _ => return None }
        Some(v)
    };
    let rad = [chars.len(), 7, 5, heads.len()];
    run.par("one edit of a header", prod(&rad), |ctx, i| {
        let [c, p, k, h] = digits(i, rad);
        let hc: Vec<char> = heads[h].chars().collect();
        if k >= 2 && c > 0 { return; }
        if let Some(v) = edit(&hc, k, p, chars[c]) { let s: String = v.into_iter().collect(); for t in TAIL { if tail_for(&heads[h])[0] == t || k > 1 { try_header(ctx, &s, t, false); try_header(ctx, &s, t, true); } } }
    });
    let few: Vec<char> = if th { "$!GPAIVDMORXp 0é\\~".chars().collect() } else { "$!GAVDX é".chars().collect() };
    let n1 = few.len() * 7 * 3;
    let rad = [n1, n1, heads.len()];
    run.par("two edits of a header", prod(&rad), |ctx, i| {
        let [a, b, h] = digits(i, rad);
        let hc: Vec<char> = heads[h].chars().collect();
        let d = |x: usize| (x % 3, x / 3 % 7, few[x / 21]);
        let (k, p, c) = d(a);
        if let Some(v) = edit(&hc, k, p, c) {
            let (k, p, c) = d(b);
            if let Some(w) = edit(&v, k, p, c) { let s: String = w.into_iter().collect(); try_header(ctx, &s, tail_for(&heads[h])[0], false); }
        }
    });
    // short headers
    let w = Words::new(if th { "$!GPVDMAé " } else { "$!GVDAé" }, 6);
    run.par("short headers", w.len(), |ctx, i| { let h = w.get(i); for t in tail_for(&h) { try_header(ctx, &h, t, false); } });
    // no comma: invalid
    let mut nc: Vec<String> = vec!["".into(), "$".into(), "!".into(), "*".into(), "é".into()];
    for h in &heads { for t in TAIL { for sep in ["", " ", ";", "."] { let s = format!("{}{}", h, t.replace(',', sep)); for k in 0..=s.len() { nc.push(s[..k].to_string()); } nc.push(with_checksum(&s)); } } }
    let w2 = Words::new("$!GPGA ;é", if th { 5 } else { 4 });
    for i in 0..w2.len() { nc.push(w2.get(i)); }
    nc.sort();
    nc.dedup();
    run.par("sentences without a comma", nc.len() as u64, |ctx, i| {
        let s = &nc[i as usize];
        if s.contains('*') && !s[s.rfind('*').unwrap()..].len() == 3 { return; }
        let o = fresh(s);
        ctx.calls += 1;
        ctx.case(true, &[s]);
        ctx.tally(&o);
        let ok = if s.contains('*') && with_checksum(&s[..s.rfind('*').unwrap()]) != *s { matches!(o, Out::Err(_)) } else { o == Out::Err(EK::Invalid) };
        if !ok { ctx.violate("no-comma", vec![Step::new(s)], "the invalid-sentence error".into(), o.short(), String::new()); }
    });
    // the talker changes nothing else: every talker with many bodies against GP
    let mut bodies: Vec<(String, String)> = vec![];
    for (form, l) in layouts() {
        for b in bases(&l) { bodies.push((form.to_string(), body("", &b))); }
        for (i, &k) in l.iter().enumerate() { for v in pick_menu(&menu(k), if th { 9 } else { 4 }) { let mut b = bases(&l)[3].clone(); b[i] = v; bodies.push((form.to_string(), body("", &b))); } }
    }
    for t in [",1,1,02,14,25,170,00,16,57,208,39", ",2,1,08,14,25,170,00,16,57,208,39", ",0,0,,", ",1,2,,1,2,3,4", ",1,1,x", ",a,1,00", ",1,1,00,01,,,42"] { bodies.push(("GSV".into(), t.into())); }
    // every satellite number with every talker
    for k in 0..64 { bodies.push(("GSV".into(), format!(",1,1,04,{:02},41,203,35,{:02},,,,{:02},1,2,3,{},4,5,6", k * 4, k * 4 + 1, k * 4 + 2, k * 4 + 3))); }
    // much longer than NMEA allows
    for n in [70, 82, 83, 100, 128, 256, 300, 1000] { for (form, l) in layouts() { let b = body("", &bases(&l)[3]); if b.len() < n { bodies.push((form.to_string(), format!("{}{}", b, ",".repeat(n - b.len())))); bodies.push((form.to_string(), format!("{}{}", b, ",1".repeat((n - b.len()) / 2)))); } } bodies.push(("GSV".into(), format!(",1,1,02,14,25,170,00,16,57,208,39,,,,,,,,{}", ",".repeat(n)))); }
    for k in 0..22 { bodies.push(("GSA".into(), format!(",A,3,{},1.7,1.0,1.3", (0..12).map(|j| format!("{:02}", k * 12 + j)).collect::<Vec<_>>().join(",")).replace(",256", ",").replace(",257", ",").replace(",258", ",").replace(",259", ",").replace(",26", ","))); }
    let tk: Vec<String> = (0..676).map(|i| format!("{}{}", (b'A' + (i / 26) as u8) as char, (b'A' + (i % 26) as u8) as char)).filter(|t| !t.starts_with('P')).collect();
    let tk: Vec<String> = if th { tk } else { tk.into_iter().enumerate().filter(|(i, t)| i % 13 == 0 || system(t) != "Other" || t.starts_with('G') || t.starts_with("B")).map(|x| x.1).collect() };
    let rad = [tk.len(), bodies.len()];
    run.par("the talker changes nothing but the system", prod(&rad), |ctx, i| {
        let [t, b] = digits(i, rad);
        let (f, r) = &bodies[b];
        crate::clock::set(Some(NOW));
        let (s0, s1) = (format!("$GP{}{}", f, r), format!("${}{}{}", tk[t], f, r));
        let a = fresh(&s0);
        let o = fresh(&s1);
        ctx.calls += 2;
        ctx.case(true, &[&s1]);
        ctx.tally(&o);
        // the system is that of the talker, in every satellite as well
        let src = V::E(system(&tk[t]));
        if let Out::Data(d) = &o {
            let all = match d.get("sats") { Some(V::L(l)) => l.iter().all(|x| matches!(x, V::L(y) if y[0] == src)), _ => d.get("source") == Some(&src) };
            if !all { ctx.violate("system", vec![Step::at(&s1, Some(NOW))], format!("source {}", system(&tk[t])), o.short(), String::new()); }
        }
        let strip = |o: &Out| match o { Out::Data(d) => { let mut d = d.clone(); d.f.retain(|x| x.0 != "source"); for x in d.f.iter_mut() { if let (n, V::L(l)) = x { if *n == "sats" { for y in l { if let V::L(z) = y { z[0] = V::Non; } } } } } Out::Data(d) } o => o.clone() };
        if strip(&a) != strip(&o) { ctx.violate("talker", vec![Step::at(&s0, Some(NOW)), Step { parser: 1, clock: Some(NOW), s: s1 }], a.short(), o.short(), String::new()); }
    });
    let _ = NmeaParser::new;
}
