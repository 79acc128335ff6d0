//! C01: every input, in every state, is answered, within work bounded by what was given.
use super::aismisc::{at, bad_chars, clocks, digits, prod};
use super::gnssprops::{layouts, menu, Words};
use super::misc::corpus;
use super::stateful::*;
use super::traffic::{world, World};
use crate::ais::*;
use crate::alloc;
use crate::clock;
use crate::engine::*;
use crate::obs::*;
use nmea_parser::NmeaParser;

/// A logger that formats everything and keeps nothing: log arguments are evaluated as well.
struct Sink;
struct Null;
impl std::fmt::Write for Null { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = std::fmt::write(&mut Null, *r.args()); }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

/// Feeds the sentences to one new parser: every one is answered within the memory and allocation bounds.
fn total(ctx: &mut Ctx, label: &str, pre: &[&str], ss: &[&str], now: i64) -> bool {
    clock::set(Some(now));
    let mut p = NmeaParser::new();
    let mut given = 0usize;
    for s in pre { feed_class(&mut p, s); given += s.len(); }
    match pre.len() {
        0 => ctx.case_at(true, ss, now),
        _ => { let k: Vec<&str> = pre.iter().chain(ss).copied().collect(); ctx.case_at(true, &k, now) }
    }
    for (i, s) in ss.iter().enumerate() {
        given += s.len();
        let (l0, c0) = (alloc::live(), alloc::calls());
        alloc::reset_peak();
        let o = feed(&mut p, s);
        let (mem, calls) = (alloc::peak() - l0, alloc::calls() - c0);
        ctx.calls += 1;
        ctx.tally(&o);
        let steps = || pre.iter().chain(&ss[..=i]).map(|s| Step::at(s, Some(now))).collect::<Vec<_>>();
        if let Out::Panic(m) = &o {
            ctx.violate(label, steps(), "a result or an error".into(), format!("panic: {}", m), String::new());
            return false;
        }
        let bm = 128 * given as i64 + (64 << 10);
        let bc = 40 * given as u64 + 6000;
        if mem > bm || calls > bc {
            ctx.violate(&format!("{}-work", label), steps(), format!("at most {} bytes and {} allocations for {} bytes of input", bm, bc, given), format!("{} bytes, {} allocations", mem, calls), String::new());
            return false;
        }
    }
    true
}

/// Histories that leave something of every kind pending.
fn states(w: &World) -> Vec<Vec<String>> {
    let t = |v: Vec<usize>| -> Vec<String> { v.iter().map(|&e| w.sys.evs[e].s.clone()).collect() };
    let first: Vec<usize> = w.keys.iter().chain(&w.vessels).map(|k| k[0]).collect();
    let second: Vec<usize> = w.keys.iter().chain(&w.vessels).map(|k| k[1]).collect();
    let ga: Vec<usize> = w.groups.iter().flat_map(|g| g[..g.len() - 1].to_vec()).collect();
    let gb: Vec<usize> = w.groups.iter().flat_map(|g| g[1..].to_vec()).collect();
    vec![vec![], t([first, ga].concat()), t([second, gb].concat())]
}

const ODD: &str = "!$*,.-+0129 AGNSVDMEWPXafwx_~@`\\\0\n\té€\u{1F6A2}";

/// The sentences whose edits are explored: those of the corpus, and parts that have counterparts in the states.
fn stems(w: &World) -> Vec<String> {
    let mut v: Vec<String> = corpus().iter().map(|s| s.to_string()).collect();
    for e in w.moves() { v.push(w.sys.evs[e].s.split('*').next().unwrap().to_string()); }
    for s in ["$GPRMC,225446.33,V,4916.45,S,12311.12,E,000.5,054.7,311299,020.3,W,A", "$GNGGA,235959.99,0000.00,S,17959.9999,W,2,12,99.99,-12.5,M,-46.9,M,12.0,1023", "$GPGLL,,,,,,,", "$GPVTG,,,,,,,,", "!AIVDM,1,1,,,14eG;o@034o8sd<L9i:a;WF>062D,0*7D"] { v.push(s.into()); }
    v.dedup();
    v
}

/// Odd contents of a field.
pub fn nasty() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "-", "+", ".", "-.", "..", "0", "00", "-0", "1", "9", "99", "255", "256", "999", "1000", "65535", "65536", "99999", "100000", "1000000", "16777216", "999999999", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456",
        "-1", "-255", "-32768", "-2147483648", "-9223372036854775808", "1.5", "-1.5", "1e5", "1e308", "1e309", "-1e309", "1e-400", "1e2147483648", "nan", "NaN", "inf", "-inf", "infinity", "0x10", "1_0", "A", "N", "é", "é1", "1é", "12é", "123é", "1234é", "12345é", "éé", "ééé", "€", "1€", "12€", "€€", "\u{1F6A2}", "1\u{1F6A2}", "12\u{1F6A2}", "123\u{1F6A2}", "٣", "۱۲۳۴۵۶", "\0", "\n", "\u{FEFF}", "a\u{301}",
        "000000", "235959", "240000", "236000", "235960", "999999", "-12345", "+12345", "12 345", "12:34:56", "123456.", "123456.9", "123456.999999999", "123456.9999999999999", "123456.-1", "123456.é", ".123456", "310299", "290223", "000000", "010100", "4807.038", "9000.0", "9060.0", "9999.999", "99999.999", "4807.", "4807.é", "é807.038", "48é7.038", "480é.038", "4é07.038", "48€7.038", "01131.000", "0113é.000", "01é31.0", "011€1.0", "18000.0", "99999.9999999999", "4807.0380000000000000000000000000000000000001", "-4807.038", "0.0", "00.0", "000.0", "0000.0", "00000.0"].iter().map(|s| s.to_string()).collect();
    v.push("9".repeat(40)); v.push("9".repeat(400)); v.push("0".repeat(400)); v.push(format!("0.{}", "3".repeat(400))); v.push(format!("{}.5", "1".repeat(310))); v.push("é".repeat(100)); v.push("A".repeat(300));
    v
}

pub fn totality(run: &mut Run) {
    let th = run.thorough;
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
    let w = world(2, &[("GP", 2), ("GL", 3)], 1, 1);
    let sts = states(&w);
    let pre = |k: usize| -> Vec<&str> { sts[k].iter().map(|s| s.as_str()).collect() };

    // What one call does, counted: edges of the crate's code executed
    let st = stems(&w);
    work(run, &st, &sts, &nasty());
    if !run.viols.is_empty() { return; }
    // All short strings
    let wd = Words::new("!$*,-.+019 AGVDMSPXx~\0\né€\u{1F6A2}", if th { 5 } else { 4 });
    run.par("all short strings", wd.len(), |ctx, i| {
        let s = wd.get(i);
        total(ctx, "short", &[], &[&s], NOW);
    });
    // Headers of all characters
    let hd = Words::new("AVDMé€\u{1F6A2},", if th { 7 } else { 6 });
    let hrad = [4, 3, hd.len() as usize];
    run.par("all headers of 8 characters", prod(&hrad), |ctx, i| {
        let [a, t, h] = digits(i, hrad);
        if a > 1 && t > 0 { return; }
        let s = format!("{}{}{}", ["!", "$", "", "é"][a], hd.get(h as u64), [",", "", ",1,1,,A,15RTgt0P,0"][t]);
        total(ctx, "header", &[], &[&s], NOW);
    });
    let hd2 = Words::new("GPSVéA", 6);
    let hrad2 = [2, 2, hd2.len() as usize];
    run.par("more headers", prod(&hrad2), |ctx, i| {
        let [a, t, h] = digits(i, hrad2);
        let s = format!("{}{}{}", ["$", "!"][a], hd2.get(h as u64), [",1,1,1,1", ",2,1,01,é"][t]);
        total(ctx, "header", &[], &[&s], NOW);
    });
    // Every prefix and suffix, every single edit, in every listed state
    let odd: Vec<char> = ODD.chars().collect();
    let maxl = st.iter().map(|s| s.chars().count()).max().unwrap();
    let rad = [maxl + 1, 3, 2, sts.len(), st.len()];
    run.par("every prefix and suffix", prod(&rad), |ctx, i| {
        let [p, k, c, z, b] = digits(i, rad);
        let ch: Vec<char> = st[b].chars().collect();
        if p > ch.len() { return; }
        let s: String = match k { 0 => ch[..p].iter().collect(), 1 => ch[p..].iter().collect(), _ => ch[..p].iter().chain(['*', '0', '0'].iter()).collect() };
        let s = if c == 1 && k < 2 { with_checksum_any(&s) } else { s };
        total(ctx, "cut", &pre(z), &[&s, &st[b]], NOW);
    });
    let rad = [odd.len() + 1, 2, maxl + 1, sts.len(), st.len()];
    run.par("every single edit", prod(&rad), |ctx, i| {
        let [o, k, p, z, b] = digits(i, rad);
        let mut ch: Vec<char> = st[b].chars().collect();
        if p > ch.len() { return; }
        match (o < odd.len(), k) {
            (true, 0) => { if p == ch.len() { return; } ch[p] = odd[o]; }
            (true, _) => ch.insert(p, odd[o]),
            (false, 0) => { if p == ch.len() { return; } ch.remove(p); }
            (false, _) => { if p == ch.len() { return; } let c = ch[p]; ch.insert(p, c); }
        }
        let s: String = ch.into_iter().collect();
        if !th && z == 1 && o % 2 == 1 { return; }
        total(ctx, "edit", &pre(z), &[&s, &st[b]], NOW);
    });
    // Pairs of edits
    let few: Vec<char> = if th { ",*-.9é€ AX0".chars().collect() } else { ",*-é9X".chars().collect() };
    let rad = [few.len() + 1, few.len() + 1, maxl, maxl, st.len()];
    let span = if th { usize::MAX } else { 6 };
    run.par("pairs of edits", prod(&rad), |ctx, i| {
        let [x, y, p, q, b] = digits(i, rad);
        let ch: Vec<char> = st[b].chars().collect();
        if p >= q || q >= ch.len() || q - p > span { return; }
        let mut s = String::with_capacity(ch.len() * 2);
        for (k, c) in ch.iter().enumerate() {
            if k == p { if x < few.len() { s.push(few[x]); } } else if k == q { if y < few.len() { s.push(few[y]); } } else { s.push(*c); }
        }
        total(ctx, "edits", &[], &[&s], NOW);
    });
    // Fields: everything in every place, and pairs
    let nasty = nasty();
    let mut heads: Vec<(String, usize)> = layouts().iter().map(|(f, l)| (format!("$GP{}", f), l.len())).collect();
    heads.push(("$GPGSV".into(), 19));
    heads.push(("!AIVDM".into(), 6));
    heads.push(("!BSVDO".into(), 6));
    heads.push(("$GPZDA".into(), 6));
    let std_fields = |h: &str| -> Vec<Vec<String>> {
        let f = &h[3..];
        let mut l: Vec<Vec<String>> = vec![];
        if let Some((_, ks)) = layouts().into_iter().find(|(n, _)| *n == f) { l.push(ks.iter().map(|&k| menu(k)[0].to_string()).collect()); l.push(ks.iter().map(|_| String::new()).collect()); }
        else if f == "GSV" { l.push("2,1,08,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00".split(',').map(String::from).collect()); l.push("1,1,03,03,03,111,00,04,15,270,00,06,01,010,00,,,,".split(',').map(String::from).collect()); l.push("255,255,,,,,,,,,,,,,,,,,".split(',').map(String::from).collect());
            // ways that end early
            for t in ["2,3,08,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00", "0,0,08,03,03,111,00,04,15,270,00", "x,1,08,03,03,111,00,04,15,270,00"] { l.push(t.split(',').map(String::from).collect()); } }
        else { l.push("1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0".split(',').map(String::from).collect()); l.push("2,1,1,A,55P5TL01VIaAL@7WKO@mBplU@<PDhh000000001S;AJ::4A80?4i@E53,0".split(',').map(String::from).collect()); l.push("2,2,1,A,1@0000000000000,2".split(',').map(String::from).collect());
            // ways that end early: part numbers and counts out of range, no message id, an unsupported message, a reserved part number
            for t in ["2,3,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "2,0,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "3,1,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "3,4,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "2,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "0,0,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "1,9,1,A,75RTgt0PAso;90TKcjM8h6g208CQ,0", "1,1,1,A,w5RTgt0PAso;90TKcjM8h6g208CQ,0", "1,1,1,A,H42O55l<8tMET00000000000000,2", "x,1,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "1,x,1,A,15RTgt0PAso;90TKcjM8h6g208CQ,0"] { l.push(t.split(',').map(String::from).collect()); } }
        l
    };
    let lists: Vec<Vec<Vec<String>>> = heads.iter().map(|h| std_fields(&h.0)).collect();
    let most = lists.iter().map(|l| l.len()).max().unwrap();
    let rad = [nasty.len(), 20, most, sts.len(), heads.len()];
    run.par("every odd content in every field", prod(&rad), |ctx, i| {
        let [v, p, b, z, h] = digits(i, rad);
        if p > heads[h].1 || b >= lists[h].len() || (!th && b > 2 && z > 0 && (v + p) % 3 != 0) { return; }
        let mut f = lists[h][b].clone();
        if p < f.len() { f[p] = nasty[v].clone(); } else { f.push(nasty[v].clone()); }
        let s = format!("{},{}", heads[h].0, f.join(","));
        let t = with_checksum_any(&s);
        total(ctx, "field", &pre(z), &[&s, &t], NOW);
    });
    let rad = [nasty.len(), nasty.len(), 19, 19, heads.len()];
    let step = if th { 1 } else { 9 };
    run.par("pairs of odd contents", prod(&rad), |ctx, i| {
        let [v, u, p, q, h] = digits(i, rad);
        if p >= q || q >= heads[h].1 || (v + u + p) % step != 0 { return; }
        let mut f = lists[h][(v + u) % lists[h].len()].clone();
        if q >= f.len() { return; }
        f[p] = nasty[v].clone();
        f[q] = nasty[u].clone();
        let s = format!("{},{}", heads[h].0, f.join(","));
        total(ctx, "fields", &[], &[&s], NOW);
    });
    // Characters of several bytes at every offset of fields and sentences
    let stems2 = ["", "0", "4807.038", "01131.000", "4916.4512345678", "123519", "123519.00", "191120", "-", "1.", "A", "15RTgt0PAso;90TKcjM8h6g208CQ"];
    let wide = ["é", "€", "\u{1F6A2}", "éé", "€é\u{1F6A2}"];
    let span2 = if th { 300 } else { 130 };
    let rad = [span2, wide.len(), stems2.len(), 20, heads.len(), most];
    run.par("wide characters at every offset of every field", prod(&rad), |ctx, i| {
        let [n, x, t, p, h, b] = digits(i, rad);
        if p > heads[h].1 || b >= lists[h].len() || (!th && (x + t + p + b) % 2 == 1 && n > 24) || (b > 0 && (n > if th { 80 } else { 36 } || (t > 3 && t < 10))) { return; }
        let mut f = lists[h][b].clone();
        let pad = if t == 11 { "0" } else { ["0", "9", "1"][n % 3] };
        let v = format!("{}{}{}", stems2[t], pad.repeat(n), wide[x]);
        if p < f.len() { f[p] = v; } else { f.push(v); }
        let s = format!("{},{}", heads[h].0, f.join(","));
        total(ctx, "wide", &[], &[&s], NOW);
    });
    // The same in parts: the text is put together from two sentences
    let rad = [if th { 700 } else { 260 }, 3, 3, 2, 3];
    run.par("wide characters at every offset of two parts", prod(&rad), |ctx, i| {
        let [n, x, o, r, k] = digits(i, rad);
        let k = [1, 100, 165][k];
        let (l, z) = ("0".repeat(n), "0".repeat(k));
        let (p1, p2) = match o { 0 => (z, format!("{}{}{}", l, wide[x], "0".repeat(20))), 1 => (format!("{}{}", l, wide[x]), z), _ => (format!("{}{}", wide[x], l), format!("{}{}", wide[2 - x], z)) };
        let (a, b) = (format!("!AIVDM,2,1,1,A,5{},0", p1), format!("!AIVDM,2,2,1,A,{},0", p2));
        if r == 0 { total(ctx, "wide-parts", &[], &[&a, &b], NOW) } else { total(ctx, "wide-parts", &[], &[&b, &a], NOW) };
    });
    // One character very often in one field: nothing may be as deep as a field is long
    let often = ["+", "-", ".", "0", "9", "A", "é", "*", " ", "!", "$", "+-", "0.", "w", "@"];
    let rad = [often.len(), 20, 2, heads.len()];
    run.par("very long fields", prod(&rad), |ctx, i| {
        let [x, p, b, h] = digits(i, rad);
        if p > heads[h].1 || b >= lists[h].len() || (!th && (x + p + b) % 2 == 1) { return; }
        let mut f = lists[h][b].clone();
        let v = often[x].repeat(if th { 1_000_000 } else { 120_000 });
        if p < f.len() { f[p] = v; } else { f.push(v); }
        let s = format!("{},{}", heads[h].0, f.join(","));
        let t = cpu_time();
        if !total(ctx, "long-field", &[], &[&s], NOW) { return; }
        let t = cpu_time() - t;
        if t > 10.0 { ctx.violate("long-field-time", vec![Step::at(&clip(&s, 3000), Some(NOW))], "time in proportion to the size".into(), format!("{:.1} s of processor time for {} bytes", t, s.len()), format!("{:?} repeated in field {} of {}", often[x], p + 1, heads[h].0)); }
    });
    // Number of fields
    let rad = [300, 4, heads.len()];
    run.par("every number of fields", prod(&rad), |ctx, i| {
        let [n, v, h] = digits(i, rad);
        let s = format!("{}{}", heads[h].0, [",", ",1", ",é", ",-9999999999"][v].repeat(n));
        total(ctx, "count", &[], &[&s, &s], NOW);
    });
    // Checksums: anything after a '*' anywhere
    let cw = Words::new("*09AFfGZ é€,-", 3);
    let rad = [cw.len() as usize, 20, st.len()];
    run.par("anything as a checksum", prod(&rad), |ctx, i| {
        let [c, p, b] = digits(i, rad);
        let n = st[b].chars().count();
        if p > n { return; }
        // the last 12 places and the first 8
        let at = if p < 12 { n - p.min(n) } else { p - 12 };
        let s: String = st[b].chars().take(at).chain("*".chars()).chain(cw.get(c as u64).chars()).collect();
        total(ctx, "checksum", &[], &[&s], NOW);
    });
    // Payloads: every type, every length, several contents, whole and in two parts
    let pats: Vec<&str> = vec!["0", "w", "W", "`", "5", "P0", "0w", "w0", "E>kb9", "1@J", "h", "8", "000w", "VS<HU"];
    let rad = [90, pats.len(), 64, 3];
    run.par("every type, every payload length", prod(&rad), |ctx, i| {
        let [l, p, t, z] = digits(i, rad);
        let mut s: String = pats[p].chars().cycle().take(l).collect();
        if l > 0 { s.replace_range(0..1, &armour_char(t as u64).to_string()); }
        match z {
            0 => { let a = format!("!AIVDM,1,1,,A,{},0", s); total(ctx, "payload", &[], &[&a], NOW) }
            1 => { let a = format!("!AIVDM,1,1,,A,{},{}", s, l % 7); total(ctx, "payload", &pre(1), &[&a, &a], NOW) }
            _ => { let k = l / 2; let (a, b) = (format!("!AIVDM,2,1,1,A,{},0", &s[..k]), format!("!AIVDM,2,2,1,A,{},0", &s[k..])); if l % 2 == 0 { total(ctx, "payload", &[], &[&a, &b], NOW) } else { total(ctx, "payload", &[], &[&b, &a], NOW) } }
        };
    });
    // Every bit length of every modelled message, every background
    let ms = messages();
    let mut pays: Vec<String> = vec![];
    for m in &ms { for b in backgrounds(m, run.seed) { if m.name == "t24" { pays.push(armour(&b.slice(0, T24))); pays.push(armour(&b.slice(T24, T24))); } else { pays.push(armour(&b)); } } }
    pays.sort();
    pays.dedup();
    let maxp = pays.iter().map(|p| p.len()).max().unwrap();
    let rad = [64, maxp, pays.len()];
    run.par("every character in every place of every payload", prod(&rad), |ctx, i| {
        let [c, p, b] = digits(i, rad);
        if p >= pays[b].len() || (!th && (b + c) % 3 != 0) { return; }
        let mut s = pays[b].clone();
        s.replace_range(p..p + 1, &armour_char(c as u64).to_string());
        let a = format!("!AIVDM,1,1,,A,{},0", s);
        total(ctx, "payload-char", &[], &[&a], NOW);
    });
    let rad = [maxp + 1, 2, 3, pays.len()];
    run.par("every prefix and suffix of every payload", prod(&rad), |ctx, i| {
        let [p, k, z, b] = digits(i, rad);
        if p > pays[b].len() { return; }
        let s = if k == 0 { &pays[b][..p] } else { &pays[b][p..] };
        let a = format!("!AIVDM,1,1,,A,{},0", s);
        let (x, y) = (format!("!AIVDM,2,1,1,A,{},0", s), format!("!AIVDM,2,2,1,A,{},0", &pays[b][p..]));
        if z == 0 { total(ctx, "payload-cut", &[], &[&a, &a], NOW); } else { total(ctx, "payload-cut", &pre(z), &[&x, &a, &y, &a], NOW); }
    });
    let bad = bad_chars();
    let rad = [bad.len(), maxp, pays.len()];
    run.par("no payload character in any place", prod(&rad), |ctx, i| {
        let [c, p, b] = digits(i, rad);
        if p > pays[b].len() || (p > 8 && (p + c) % 7 != 0) || (!th && b % 5 != 0) { return; }
        let s: String = pays[b].chars().take(p).chain([bad[c]]).chain(pays[b].chars().skip(p + 1)).collect();
        let (a, x, y) = (format!("!AIVDM,1,1,,A,{},0", s), format!("!AIVDM,2,1,1,A,{},0", s), format!("!AIVDM,2,2,1,A,{},0", s));
        total(ctx, "bad-char", &[], &[&a, &x, &y], NOW);
    });
    // Whole groups and messages of any number of parts
    let rad = [3, 2, 300];
    run.par("whole groups of any size", prod(&rad), |ctx, i| {
        let [ord, ais, n] = digits(i, rad);
        let mut v: Vec<String> = (1..=n).map(|k| if ais == 0 { format!("$GPGSV,{},{},{},01,02,003,04,,,,,05,06,007,08,99,90,359,99", n, k, 4 * n) } else { format!("!AIVDM,{},{},1,A,55P5TL01VIaAL@7WKO@mBplU,0", n, k) }).collect();
        match ord { 1 => v.reverse(), 2 => { let h = v.len() / 2; v.rotate_left(h); } _ => {} }
        v.push(v.first().cloned().unwrap_or_default());
        let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        total(ctx, "group", &[], &v, NOW);
    });
    // Times and dates at critical clock readings
    let mut cl = clocks();
    cl.extend([0, 1, 86399, at(1970, 2, 28, 23, 59, 59), at(2038, 1, 19, 3, 14, 7), at(2100, 2, 28, 1, 1, 1), at(2400, 2, 29, 0, 0, 0), at(9999, 12, 31, 23, 59, 59), at(10000, 1, 1, 0, 0, 0), 1 << 32, (1 << 32) - 1]);
    let n = 1_000_000u64;
    run.par("every six digits as a time and as a date", n * 2, |ctx, i| {
        let (d, k) = (i / 2, i % 2);
        let now = cl[(d % cl.len() as u64) as usize];
        let s = if k == 0 { format!("$GPGLL,,,,,{:06},A", d) } else { format!("$GPRMC,{:06},A,,,,,,,{:06},,", (d * 7919) % n, d) };
        total(ctx, "six-digits", &[], &[&s], now);
    });
    let tw = Words::new("0129.-é:", if th { 7 } else { 6 });
    run.par("times and dates of odd characters", tw.len() * 3, |ctx, i| {
        let (j, k) = (i / 3, i % 3);
        let t = tw.get(j);
        let s = match k { 0 => format!("$GPGGA,{},,,,,,,,,,,,,", t), 1 => format!("$GPRMC,123519,A,,,,,,,{},,", t), _ => format!("$GPRMC,{},A,,,,,,,191120,,", t) };
        total(ctx, "odd-time", &[], &[&s], NOW);
    });
    let pw = Words::new("0459.-éN", if th { 7 } else { 6 });
    run.par("positions of odd characters", pw.len() * 2, |ctx, i| {
        let (j, k) = (i / 2, i % 2);
        let t = pw.get(j);
        let s = if k == 0 { format!("$GPGLL,{},N,,,,A", t) } else { format!("$GPGLL,,,{},W,,A", t) };
        total(ctx, "odd-position", &[], &[&s], NOW);
    });
    let m5 = super::aismisc::by_name(&ms, "t5");
    let m4 = super::aismisc::by_name(&ms, "t4");
    let nc = if th { cl.len() } else { 3 };
    run.par("every ETA code", (1 << 20) * nc as u64, |ctx, i| {
        let now = if th { cl[(i >> 20) as usize] } else { [cl[0], cl[1], at(2400, 2, 29, 0, 0, 0)][(i >> 20) as usize] };
        let mut b = typical(m5);
        b.set(274, 20, i & 0xFFFFF);
        let s = format!("!AIVDM,1,1,,A,{},2", armour(&b));
        total(ctx, "eta", &[], &[&s], now);
    });
    let years = [0u64, 1, 1970, 1999, 2000, 2023, 2024, 2100, 9999, 10000, 16383];
    let rad = [32, 16, 16, 8, years.len()];
    run.par("base station times", prod(&rad), |ctx, i| {
        let [d, mo, h, ms, y] = digits(i, rad);
        let h = if h < 8 { h } else { h + 16 };
        let (mi, s) = [(0, 0), (59, 59), (60, 0), (0, 60), (63, 63), (59, 60), (60, 60), (61, 61)][ms];
        let mut b = typical(m4);
        b.set(38, 40, ((((years[y] << 4 | mo as u64) << 5 | d as u64) << 5 | h as u64) << 6 | mi) << 6 | s);
        let t = format!("!AIVDM,1,1,,A,{},0", armour(&b));
        total(ctx, "t4", &[], &[&t], NOW);
    });
    // Satellite groups of every claimed size, with and without a group open
    let nums: Vec<u64> = (0..=255).chain([256, 257, 300, 511, 512, 999, 1000, 9999, 65535, 65536, 99999, 1_000_000, 16_777_216, 4_294_967_295, 4_294_967_296, u64::MAX]).collect();
    let rad = [nums.len(), nums.len(), sts.len()];
    run.par("every group size and part number", prod(&rad), |ctx, i| {
        let [a, b, z] = digits(i, rad);
        if !th && (a * 3 + b) % 5 != 0 && a != b && a < 250 && b > 3 { return; }
        let s = format!("$GPGSV,{},{},04,05,11,222,33", nums[a], nums[b]);
        total(ctx, "group", &pre(z), &[&s, &s], NOW);
    });
    let rad = [nums.len(), nums.len(), 4];
    run.par("every fragment count and number", prod(&rad), |ctx, i| {
        let [a, b, z] = digits(i, rad);
        if !th && a > 6 && b > 6 && (a * 3 + b) % 5 != 0 { return; }
        let s = format!("!AIVDM,{},{},{},A,{},0", nums[a], nums[b], ["1", "", "18446744073709551616", "-1"][z], "15RTgt0PAso;90TKcjM8h6g208CQ");
        total(ctx, "fragment", &pre(1), &[&s, &s], NOW);
    });
    // Three sentences of any kind in a row
    let l: Vec<&str> = st.iter().map(|s| s.as_str()).collect();
    let m = if th { l.len() } else { l.len().min(45) };
    let rad = [m, m, m];
    run.par("every three sentences in a row", prod(&rad), |ctx, i| {
        let [a, b, c] = digits(i, rad);
        total(ctx, "sequence", &[], &[l[a], l[b], l[c]], NOW);
    });
    // The same sentences of other talkers, about the own vessel, and in other letters, after those of the corpus
    let turned: Vec<String> = st.iter().chain(w.moves().iter().map(|&e| &w.sys.evs[e].s)).flat_map(|s| {
        let s = s.split('*').next().unwrap();
        let mut v = vec![s.to_string()];
        if let Some(r) = s.get(6..) { for h in if s.starts_with('!') { ["!AIVDM", "!AIVDO", "!BSVDM", "!BSVDO", "!ABVDO"] } else { ["$GN", "$GP", "$GL", "$XX", "$BD"] } { v.push(if s.starts_with('!') { format!("{}{}", h, r) } else { format!("{}{}", h, &s[3..]) }); } }
        v
    }).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let rad = [turned.len(), turned.len(), 2];
    run.par("every two sentences of other talkers", prod(&rad), |ctx, i| {
        let [a, b, z] = digits(i, rad);
        if z == 1 && (a + b) % (if th { 2 } else { 7 }) != 0 { return; }
        total(ctx, "talkers", &pre(z), &[&turned[a], &turned[b]], NOW);
    });
    // Large inputs: time in proportion to the size
    let big = BIG;
    let rad = [2, big.len()];
    run.par("large inputs", prod(&rad), |ctx, i| {
        let [c, b] = digits(i, rad);
        let mk = |n: usize| { let s = format!("{}{}{}", big[b].0, big[b].1.repeat(n / big[b].1.len()), big[b].2); if c == 1 { with_checksum_any(&s) } else { s } };
        let cpu = |s: &str| -> f64 { (0..3).map(|_| { let mut p = NmeaParser::new(); let t = cpu_time(); feed_class(&mut p, s); cpu_time() - t }).fold(f64::MAX, f64::min) };
        let (s, l) = (mk(60_000), mk(1_200_000));
        if !total(ctx, "large", &[], &[&s], NOW) || !total(ctx, "large", &[], &[&l], NOW) { return; }
        let (a, z) = (cpu(&s), cpu(&l));
        // 20 times the size: linear work takes about 20 times as long, quadratic work 400 times
        if z > 0.5 && z > 120.0 * a.max(1e-4) { ctx.violate("large-time", vec![Step::at(&clip(&s, 3000), Some(NOW))], "time in proportion to the size".into(), format!("{:.4} s for 60 kB, {:.4} s for 1.2 MB", a, z), format!("{:?} repeated between {:?} and {:?}", big[b].1, big[b].0, big[b].2)); }
    });
    // Many things pending: the work of one call does not grow with them
    let ns: [usize; 3] = [0, 2000, if th { 60_000 } else { 20_000 }];
    let rad = [3, st.len()];
    run.par("work beside many pending parts", 3, |ctx, k| {
        let n = ns[k as usize];
        clock::set(Some(NOW));
        let mut p = NmeaParser::new();
        for j in 0..n {
            let s = waiting(j);
            feed_class(&mut p, &s);
            ctx.calls += 1;
        }
        for s in &st {
            let (l0, c0) = (alloc::live(), alloc::calls());
            alloc::reset_peak();
            let o = feed(&mut p, s);
            let (mem, calls) = (alloc::peak() - l0, alloc::calls() - c0);
            ctx.evals += 1;
                ctx.tally(&o);
            // the table itself may grow by doubling when one more part waits
            if calls > 2500 || mem > 30_000_000 || matches!(o, Out::Panic(_)) { return ctx.violate("beside-pending", vec![Step::at(s, Some(NOW))], "an answer with the work of its own message".into(), format!("{} bytes, {} allocations, {}", mem, calls, o.short()), format!("{} parts pending", n)); }
        }
    });
    let _ = rad;
    log::set_max_level(log::LevelFilter::Off);
}

/// Texts repeated in large inputs: before, repeated, after.
const BIG: [(&str, &str, &str); 20] = [("!AIVDM,1,1,,A,5", "0", ",0"), ("!AIVDM,1,1,,A,1", "w", "~,0"), ("!AIVDM,1,1,,A,>", "w", ",0"), ("$GPGSV,1,1,04", ",1", ""), ("$GPGGA,123519", ",", ""), ("$GPRMC,", "1", ""), ("$GPRMC,225446,A,4916.45,N,12311.12,W,0.", "3", ",054.7,191120,020.3,E"), ("$GPGLL,4916.4", "5", ",N,12311.12,W,225444,A"), ("$GPGSA,A,3,", "é", ""), ("", "*", ""), ("", "é", ","), ("", ",", ""), ("!", "A", ","), ("$", "€", ",1"), ("!AIVDM,1,1,", "9", ",A,1,0"), ("!AIVDM,2,1,1,A,5", "0", ",0"), ("$GPVTG,", "054.7,T,", ""), ("$GPGGA,", "123519,4807.038,N,", "*47"), ("!AIVDM,1,1,,A,", "H42O55i18tMET00000000000000", ",0"), ("!AIVDM,1,1,,", "A", ",15RTgt0P,0")];

/// Work of one call, as the number of control-flow edges of the crate's own code executed (counted by ../sched, built from
/// the same tree): it does not depend on what else is pending nor on numbers in the sentence, and grows with the size of the input.
fn work(run: &mut Run, st: &[String], sts: &[Vec<String>], nasty: &[String]) {
    use std::io::Write;
    let t0 = std::time::Instant::now();
    let hex = |s: &str| -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() };
    // (what it is measured for, sentences before, sentence)
    enum M { Pending(usize, usize, usize), Size(usize, usize), Content }
    let mut lines = String::new();
    let mut ms: Vec<(M, String)> = vec![];
    let mut feed = |l: &mut String, s: &str| { l.push_str("f "); l.push_str(&hex(s)); l.push('\n'); };
    let mut measure = |l: &mut String, m: M, s: &str| { l.push_str("m "); l.push_str(&hex(s)); l.push('\n'); ms.push((m, s.to_string())); };
    let ns: Vec<usize> = if run.thorough { vec![0, 2000, 20_000, 60_000] } else { vec![0, 2000, 20_000] };
    for (k, &n) in ns.iter().enumerate() {
        for z in 0..sts.len() {
            if n > 2000 && z > 0 { continue; }
            lines.push_str("r\n");
            for j in 0..n { feed(&mut lines, &waiting(j)); }
            // three rounds, the least counts: a table may grow once in a while
            for _ in 0..3 { for s in &sts[z] { feed(&mut lines, s); } for (i, s) in st.iter().enumerate() { measure(&mut lines, M::Pending(k, z, i), s); } }
        }
    }
    for (i, (a, b, c)) in BIG.iter().enumerate() {
        for (k, n) in [3000, 12_000].into_iter().enumerate() { lines.push_str("r\n"); measure(&mut lines, M::Size(i, k), &format!("{}{}{}", a, b.repeat(n / b.len()), c)); }
    }
    for s in st {
        let f: Vec<&str> = s.split('*').next().unwrap().split(',').collect();
        for p in 1..f.len() { for x in nasty {
            if x.len() > 60 { continue; }
            let mut g = f.clone();
            g[p] = x;
            lines.push_str("r\n");
            measure(&mut lines, M::Content, &g.join(","));
        } }
    }
    let exe = verif_dir().join("sched/target/release/sched");
    let mut c = match std::process::Command::new(&exe).arg("work").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => { eprintln!("{}: {}", exe.display(), e); std::process::exit(2) }
    };
    let mut inp = c.stdin.take().unwrap();
    let h = std::thread::spawn(move || { let _ = inp.write_all(lines.as_bytes()); });
    let out = c.wait_with_output().expect("sched work");
    let _ = h.join();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let got: Vec<u64> = text.lines().map_while(|l| l.parse().ok()).collect();
    let runaway = text.ends_with("runaway\n");
    if !runaway && (!text.ends_with("end\n") || got.len() != ms.len()) && out.status.code().is_some() { eprintln!("the work counter failed: {}", String::from_utf8_lossy(&out.stderr)); std::process::exit(2) }
    let mut least: std::collections::BTreeMap<(usize, usize, usize), u64> = Default::default();
    for (m, &n) in ms.iter().zip(&got) { if let M::Pending(k, z, i) = m.0 { let e = least.entry((k, z, i)).or_insert(u64::MAX); *e = (*e).min(n); } }
    let most = got.iter().copied().max().unwrap_or(0);
    let calls = got.len() as u64;
    run.par("work of one call, in edges", 1, |ctx, _| {
        ctx.evals += calls;
        ctx.distinct_n += calls;
        ctx.calls += calls;
        if runaway { return ctx.violate("runaway", ms.get(got.len()).map(|m| Step::at(&clip(&m.1, 3000), Some(NOW))).into_iter().collect(), "an answer".into(), "a call executed more than 60 million edges of the crate's code".into(), "the sentence shown, or one given before it while parts were being piled up".into()); }
        if got.len() < ms.len() { return ctx.violate("work-death", ms.get(got.len()).map(|m| Step::at(&clip(&m.1, 3000), Some(NOW))).into_iter().collect(), "an answer".into(), format!("the process ended: {}", out.status), String::new()); }
        for (&(k, z, i), &n) in &least {
            let base = least[&(0, z, i)];
            if k > 0 && n > 2 * base + 1500 { return ctx.violate("work-pending", vec![Step::at(&st[i], Some(NOW))], format!("about the {} edges it takes with nothing else pending", base), format!("{} edges", n), format!("{} unrelated parts pending", ns[k])); }
        }
        for w in ms.iter().zip(&got).collect::<Vec<_>>().windows(2) {
            if let ((M::Size(a, 0), _), (M::Size(b, 1), s)) = (w[0].0, w[1].0) {
                if a == b && *w[1].1 > 6 * w[0].1 + 20_000 { return ctx.violate("work-size", vec![Step::at(&clip(s, 3000), Some(NOW))], format!("about 4 times the {} edges of a sentence of 3000 bytes", w[0].1), format!("{} edges for 12000 bytes", w[1].1), String::new()); }
            }
        }
        for (m, &n) in ms.iter().zip(&got) {
            if let M::Content = m.0 { if n > 400_000 { return ctx.violate("work-content", vec![Step::at(&m.1, Some(NOW))], "work by the size of the sentence".into(), format!("{} edges", n), String::new()); } }
        }
    });
    if let Some(x) = run.sections.last_mut() { x.2 = t0.elapsed().as_secs_f64(); }
    let most_of = |f: &dyn Fn(&M) -> bool| -> u64 { ms.iter().zip(&got).filter(|w| f(&w.0 .0)).map(|w| *w.1).max().unwrap_or(0) };
    run.notes.push(format!("work: {} calls measured, the largest executed {} edges of the crate's code ({} beside pending parts, {} of odd contents)", calls, most, most_of(&|m| matches!(m, M::Pending(..))), most_of(&|m| matches!(m, M::Content))));
}
/// A sentence that leaves its own part pending.
fn waiting(j: usize) -> String {
    match j % 3 { 0 => format!("!AIVDM,2,1,{},A,{},0", 1000 + j, "15RTgt0PAso;90TK"), 1 => { let mut b = halves(0, false)[0].clone(); b.set(8, 30, 300_000_000 + j as u64); sentences_of(&b, &P0).remove(0) } _ => format!("${}{}GSV,{},1,04,05,11,222,33", (b'Q' + (j / 26 % 10) as u8) as char, (b'A' + (j % 26) as u8) as char, 2 + j / 260 % 200) }
}

/// A checksum also for text that is not ASCII (its value does not matter here).
fn with_checksum_any(s: &str) -> String {
    let x = s.chars().skip(1).fold(0u8, |a, c| a ^ c as u8);
    format!("{}*{:02X}", s, x)
}

#[repr(C)]
struct Ts { s: i64, n: i64 }
extern "C" { #[link_name = "clock_gettime"] fn cgt(c: i32, t: *mut Ts) -> i32; }
fn cpu_time() -> f64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { cgt(3, &mut t) };
    t.s as f64 + t.n as f64 / 1e9
}
