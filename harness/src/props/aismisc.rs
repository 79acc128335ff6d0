//! C09 (armouring), C12 (routing), C13 (texts), C16 (dates and times): spaces beyond the field windows.
use crate::ais::*;
use crate::clock;
use crate::engine::*;
use crate::obs::*;
use nmea_parser::NmeaParser;

/// Mixed-radix digits of an index.
pub fn digits<const N: usize>(mut i: u64, radix: [usize; N]) -> [usize; N] {
    let mut r = [0; N];
    for k in 0..N { r[k] = (i % radix[k] as u64) as usize; i /= radix[k] as u64; }
    r
}
pub fn prod(radix: &[usize]) -> u64 { radix.iter().map(|&x| x as u64).product() }
pub fn by_name<'a>(ms: &'a [Msg], n: &str) -> &'a Msg { ms.iter().find(|m| m.name == n).unwrap() }
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }

// ------------------------------------------------------------------------------------ C12 routing

pub fn kind_of(ty: u64) -> Option<&'static str> {
    match ty {
        1 | 2 | 3 | 18 | 27 => Some("Dynamic"), 5 | 24 => Some("Static"), 4 => Some("Base"), 6 => Some("Binary"),
        9 => Some("Sar"), 10 => Some("Utc"), 21 => Some("Aton"), _ => None,
    }
}

pub fn routing(run: &mut Run) {
    let ms = messages();
    let talkers: Vec<&'static str> = (0..26 * 26).map(|i| leak(format!("{}{}", (b'A' + (i / 26) as u8) as char, (b'A' + (i % 26) as u8) as char))).collect();
    // Every type number in every presentation, over several contents and lengths.
    let pr = presentations();
    let lens = [168usize, 424, 96, 312, 1008];
    let pats = [0u64, u64::MAX, 0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA, 0x0123_4567_89AB_CDEF];
    let rad = [64, pr.len(), lens.len(), pats.len()];
    run.par("every message type number", prod(&rad), |ctx, i| {
        let [ty, p, l, pa] = digits(i, rad);
        let len = lens[l];
        if [5u64, 21, 6].contains(&(ty as u64)) && len < 424 && kind_of(ty as u64).is_some() && !(ty == 6 && len >= 168) && !(ty == 21 && len >= 312) { return; }
        if len < 168 && ty != 27 { return; }
        let mut s = String::new();
        let mut x = Bits::zeros(60);
        for k in 0..len / 6 {
            if k == 0 { s.push(armour_char(ty as u64)); continue; }
            let w = pats[pa];
            x.w[0] = w.rotate_left((6 * k % 60) as u32);
            let mut c = x.get(0, 6);
            // part number A in bits 38 and 39 of type 24
            if ty == 24 && k == 6 { c &= 0b110011; }
            s.push(armour_char(c));
        }
        let ps = &pr[p];
        let ss = if ps.split == 0 { vec![vdm(ps, 1, 1, "", &s, 0)] } else {
            let k = (s.len() * ps.split / 64).clamp(1, s.len() - 1);
            let mut v = vec![vdm(ps, 2, 1, &ps.mid.to_string(), &s[..k], 0), vdm(ps, 2, 2, &ps.mid.to_string(), &s[k..], 0)];
            if ps.rev { v.reverse(); }
            v
        };
        clock::set(Some(NOW));
        let mut parser = NmeaParser::new();
        let mut last = Out::Incomplete;
        for s in &ss { last = feed(&mut parser, s); ctx.calls += 1; }
        ctx.case(true, &ss.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        ctx.tally(&last);
        if i % 977 == 3 { ctx.sample(|| format!("{:?} -> {}", ss, clip(&last.short(), 80))); }
        let exp = kind_of(ty as u64);
        let ok = match (&last, exp) {
            (Out::Incomplete, Some(_)) => ty == 24,
            (Out::Data(d), Some(k)) => ty != 24 && d.kind == k,
            (Out::Err(e), None) => *e == EK::Unsupported,
            _ => false,
        };
        if !ok {
            ctx.violate(&format!("type{}", ty), ss.iter().map(|s| Step::at(s, Some(NOW))).collect(), exp.unwrap_or("unsupported error").into(), last.short(), String::new());
        }
    });
    // Every two-letter talker, own and other vessels, one and two parts, every message.
    let rad = [ms.len(), talkers.len(), 2, 3];
    run.par("every talker", prod(&rad), |ctx, i| {
        let [m, t, vdo, sp] = digits(i, rad);
        let p = Pres { talker: talkers[t], vdo: vdo == 1, split: [0, 30, 50][sp], rev: sp == 2, ..P0 };
        check(ctx, &ms[m], &typical(&ms[m]), &p, NOW, &|f| f.cat == Cat::Id);
    });
}

// ------------------------------------------------------------------------------------ C13 texts

/// (message, output, positions of the characters)
fn text_fields() -> Vec<(&'static str, &'static str, Vec<usize>)> {
    let at = |o: usize, n: usize| (0..n).map(|k| o + 6 * k).collect::<Vec<_>>();
    let mut aton = at(43, 20);
    aton.extend(at(272, 14));
    vec![
        ("t5", "call_sign", at(70, 7)), ("t5", "name", at(112, 20)), ("t5", "destination", at(302, 20)), ("t21", "name", aton),
        ("t24", "name", at(40, 20)), ("t24", "equipment_vendor_id", at(T24 + 48, 3)), ("t24", "call_sign", at(T24 + 90, 7)),
    ]
}
const SYM: [u64; 6] = [0, 32, 1, 49, 63, 31];

fn write_codes(b: &mut Bits, pos: &[usize], codes: impl Fn(usize) -> u64) {
    for (k, &p) in pos.iter().enumerate() { b.set(p, 6, codes(k)); }
}

pub fn texts(run: &mut Run) {
    let ms = messages();
    let fs = text_fields();
    let th = run.thorough;
    let sel = |f: &Field| f.cat == Cat::Text;
    // Contents a single character or a pair is put into.
    let base = |k: usize, n: usize, which: usize| -> u64 {
        match which {
            0 => 1 + (k as u64 % 26),
            1 => 32,
            2 => 0,
            3 => if k + 3 >= n { 32 } else { 1 + (k as u64 * 7 % 26) },
            4 => if k < 2 { 32 } else if k % 5 == 4 { 32 } else { 48 + (k as u64 % 10) },
            _ => if k * 2 >= n { 0 } else { 33 + (k as u64 * 5 % 31) },
        }
    };
    for (mn, on, pos) in &fs {
        let m = by_name(&ms, mn);
        let n = pos.len();
        let bgs: Vec<Bits> = { let mut v = vec![typical(m)]; let b = backgrounds(m, run.seed); v.push(b[3]); v.push(b[2]); if th { v.extend(b); } v };
        let what = format!("{} {}", mn, on);
        let rad = [64, n, 6, bgs.len()];
        run.par(&format!("{}: every code at every position", what), prod(&rad), |ctx, i| {
            let [c, p, w, g] = digits(i, rad);
            let mut b = bgs[g];
            write_codes(&mut b, pos, |k| if k == p { c as u64 } else { base(k, n, w) });
            check(ctx, m, &b, &P0, NOW, &sel);
        });
        let nb = if th { bgs.len() } else { 1 };
        let rad = [64, 64, n - 1, nb];
        run.par(&format!("{}: every pair of neighbours", what), prod(&rad), |ctx, i| {
            let [c, d, p, g] = digits(i, rad);
            let mut b = bgs[g];
            write_codes(&mut b, pos, |k| if k == p { c as u64 } else if k == p + 1 { d as u64 } else { base(k, n, 0) });
            check(ctx, m, &b, &P0, NOW, &sel);
        });
        if n == 3 {
            run.par(&format!("{}: every word", what), 64 * 64 * 64 * nb as u64, |ctx, i| {
                let [a, c, d, g] = digits(i, [64, 64, 64, nb]);
                let mut b = bgs[g];
                write_codes(&mut b, pos, |k| [a, c, d][k] as u64);
                check(ctx, m, &b, &P0, NOW, &sel);
            });
        }
        if n == 7 {
            let r = if th { 6 } else { 4 };
            run.par(&format!("{}: every word over {} symbols", what, r), (r as u64).pow(7) * 2, |ctx, i| {
                let d = digits(i, [r, r, r, r, r, r, r, 2]);
                let mut b = bgs[d[7]];
                write_codes(&mut b, pos, |k| SYM[d[k]]);
                check(ctx, m, &b, &P0, NOW, &sel);
            });
        }
        // Up to four runs of equal symbols.
        let mut cuts = vec![];
        for a in 0..=n { for b in a..=n { for c in b..=n { cuts.push((a, b, c)); } } }
        let rad = [4, 4, 4, 4, cuts.len(), if th { 2 } else { 1 }];
        run.par(&format!("{}: runs of symbols", what), prod(&rad), |ctx, i| {
            let [s0, s1, s2, s3, c, g] = digits(i, rad);
            let (x, y, z) = cuts[c];
            if (x == y && s1 > 0) || (y == z && s2 > 0) || (z == n && s3 > 0) || (x == 0 && s0 > 0) { return; }
            let mut b = bgs[g];
            write_codes(&mut b, pos, |k| SYM[if k < x { s0 } else if k < y { s1 } else if k < z { s2 } else { s3 }]);
            check(ctx, m, &b, &P0, NOW, &sel);
        });
        // Three deviations from uniform words.
        let mut tri = vec![];
        for a in 0..n { for b in a + 1..n { for c in b + 1..n { tri.push((a, b, c)); } } }
        let rad = [4, 4, 4, tri.len(), 4];
        if n > 7 {
            run.par(&format!("{}: three deviations", what), prod(&rad), |ctx, i| {
                let [s0, s1, s2, t, u] = digits(i, rad);
                if !th && t % 3 != 0 && n > 20 { return; }
                let (x, y, z) = tri[t];
                let mut b = bgs[0];
                write_codes(&mut b, pos, |k| SYM[if k == x { s0 } else if k == y { s1 } else if k == z { s2 } else { u }]);
                check(ctx, m, &b, &P0, NOW, &sel);
            });
        }
    }
    // All single flips and pairs of flips of the whole message.
    let mut items = vec![];
    for (mi, m) in ms.iter().enumerate() {
        if !["t5", "t21", "t24"].contains(&m.name) { continue; }
        for (bi, bg) in backgrounds(m, run.seed).iter().enumerate() {
            items.push(super::aisfields::Item { msg: mi, bg: *bg, kind: super::aisfields::Kind::Flip { off: 0, len: 0, menu: vec![0] } });
            items.push(super::aisfields::Item { msg: mi, bg: *bg, kind: super::aisfields::Kind::Present { off: 0, len: 0, vals: vec![0] } });
            if th || bi < 2 { items.push(super::aisfields::Item { msg: mi, bg: *bg, kind: super::aisfields::Kind::Flip2 { off: 0, len: 0, val: 0 } }); }
        }
    }
    super::aisfields::run_items(run, "flips of all bits, presentations", &ms, &items, &[Cat::Text], NOW);
    // Related texts: two fields of a message with the same or nearly the same words
    let word = |w: usize, k: usize| -> u64 { match w { 0 => [1, 2, 3][k.min(2)] * (k < 3) as u64, 1 => 1 + k as u64 % 26, 2 => 48 + k as u64 % 10, 3 => if k % 3 == 2 { 32 } else { 19 }, 4 => [32, 32, 8, 9, 0][k.min(4)], 5 => [63, 48, 45, 16, 31, 33, 0][k.min(6)], _ => if k < w { 20 } else { 0 } } };
    for (x, (mn, on, pa)) in fs.iter().enumerate() {
        for (y, (mn2, on2, pb)) in fs.iter().enumerate() {
            if x == y || mn != mn2 { continue; }
            let m = by_name(&ms, mn);
            let bgs: Vec<Bits> = backgrounds(m, run.seed);
            let rad = [9, 16, 40, bgs.len()];
            run.par(&format!("{}: {} like {}", mn, on2, on), prod(&rad), |ctx, i| {
                let [w, how, arg, g] = digits(i, rad);
                let code = |k: i64| -> u64 { if k < 0 || k as usize >= pa.len() { 0 } else { word(w, k as usize) } };
                let wl = (0..pa.len()).rposition(|k| word(w, k) != 0 && word(w, k) != 32).map_or(0, |k| k + 1);
                // the same; shifted; one character different; shorter; longer; with blanks before or behind; twice; in reverse
                let b2: Vec<u64> = (0..pb.len() as i64).map(|k| match how {
                    0 => code(k),
                    1 => code(k + arg as i64),
                    2 => code(k - arg as i64),
                    3 => if k == arg as i64 { code(k) ^ 1 } else { code(k) },
                    4 => if k >= arg as i64 { 0 } else { code(k) },
                    5 => if k >= arg as i64 { 32 } else { code(k) },
                    6 => if k as usize >= wl && (k as usize) < wl + arg { 32 } else { code(k) },
                    7 => if (k as usize) < arg { 32 } else { code(k - arg as i64) },
                    8 => if wl == 0 { 0 } else { code(k % wl as i64) },
                    9 => code(wl as i64 - 1 - k),
                    10 => if k as usize == wl { arg as u64 + 1 } else { code(k) },
                    11 => if k as usize == wl { arg as u64 + 24 } else { code(k) },
                    12 => if k == 0 { arg as u64 } else { code(k - 1) },
                    13 => if k == 0 { arg as u64 + 24 } else { code(k - 1) },
                    14 => if (k as usize) < wl { code(k) } else { 20 },
                    _ => if code(k) > 0 && code(k) < 27 { code(k) + 32 } else { code(k) },
                }).collect();
                if matches!(how, 0 | 8 | 9 | 14 | 15) && arg > 0 || arg >= 20 && !matches!(how, 10..=13) { return; }
                let mut b = bgs[g];
                write_codes(&mut b, pa, |k| code(k as i64));
                write_codes(&mut b, pb, |k| b2[k]);
                check(ctx, m, &b, &P0, NOW, &sel);
            });
        }
    }
    // Aid-to-navigation names with every length of the extension, and data after the name.
    let m = by_name(&ms, "t21");
    let pr = presentations();
    let rad = [15, 6, 6, 8, pr.len()];
    run.par("t21 name: every length of the extension", prod(&rad), |ctx, i| {
        let [e, w, v, tail, p] = digits(i, rad);
        let mut b = typical(m);
        let pos = &fs[3].2;
        write_codes(&mut b, pos, |k| if k < 20 { base(k, 20, w) } else { base(k - 20, e.max(1), v) });
        let mut x = b.slice(0, 272 + 6 * e);
        if e == 14 && tail > 0 {
            // whatever follows is not part of the name
            let mut y = Bits::zeros(356 + 6 * tail);
            for k in 0..356 { y.put(k, x.bit(k)); }
            for k in 356..y.len { y.put(k, 1); }
            x = y;
        } else if tail > 0 { return; }
        check(ctx, m, &x, &pr[p], NOW, &|f: &Field| f.cat == Cat::Text);
    });
    // Longer payloads than the message needs (reference reads only its own bits).
    let rad = [6, 3, 12, pr.len()];
    run.par("texts: data after the message", prod(&rad), |ctx, i| {
        let [w, which, tail, p] = digits(i, rad);
        let m = by_name(&ms, ["t5", "t24", "t24"][which]);
        let mut b = typical(m);
        for f in fs.iter().filter(|f| f.0 == m.name) { write_codes(&mut b, &f.2, |k| base(k, f.2.len(), w)); }
        let extend = |x: &Bits| { let mut y = Bits::zeros(x.len + 6 * tail); y.w = x.w; for k in x.len..y.len { y.put(k, 1); } y };
        clock::set(Some(NOW));
        let mut ss = vec![];
        if m.name == "t24" {
            // part A is 160 or 168 bits long
            let a = if which == 1 { b.slice(0, 160) } else { extend(&b.slice(0, T24)) };
            let bb = extend(&b.slice(T24, T24));
            ss.extend(sentences_of(&a, &pr[p]));
            ss.extend(sentences_of(&bb, &pr[p]));
        } else {
            ss = sentences_of(&extend(&b), &pr[p]);
        }
        let mut parser = NmeaParser::new();
        let mut last = Out::Incomplete;
        for s in &ss { last = feed(&mut parser, s); ctx.calls += 1; }
        ctx.case(true, &ss.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        ctx.tally(&last);
        compare(ctx, m, &b, &Env { now: NOW, vdo: pr[p].vdo, talker: pr[p].talker }, &last, &|f: &Field| f.cat == Cat::Text, &|| ss.iter().map(|s| Step::at(s, Some(NOW))).collect());
    });
}

// ------------------------------------------------------------------------------------ C16 dates and times

pub fn at(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 { moment(y, mo, d, h, mi, s).unwrap() }

/// Clock readings that make a difference.
pub fn clocks() -> Vec<i64> {
    vec![
        at(2024, 2, 29, 12, 30, 0), at(2023, 12, 31, 23, 59, 59), at(2023, 2, 28, 23, 59, 30), at(2024, 12, 31, 23, 59, 0),
        at(2025, 1, 1, 0, 0, 0), at(2023, 5, 14, 20, 10, 0), at(2026, 6, 30, 5, 7, 13), at(2027, 3, 1, 0, 0, 1),
        at(2099, 12, 31, 12, 0, 0), at(2000, 2, 29, 0, 0, 0), at(2023, 10, 31, 1, 2, 3), at(1999, 2, 28, 12, 0, 0),
    ]
}

pub fn times(run: &mut Run) {
    let ms = messages();
    let th = run.thorough;
    let sel = |f: &Field| f.cat == Cat::Time;
    let m4 = by_name(&ms, "t4");
    let m5 = by_name(&ms, "t5");
    let ts = |y: u64, mo: u64, d: u64, h: u64, mi: u64, s: u64| ((((y << 4 | mo) << 5 | d) << 5 | h) << 6 | mi) << 6 | s;
    let cl = clocks();
    // Base station report
    let years: Vec<u64> = vec![0, 1, 2, 4, 100, 400, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2020, 2023, 2024, 2025, 2037, 2038, 2039, 2096, 2100, 2400, 4000, 8191, 8192, 9999, 10000, 12000, 16383];
    let hms = [(0, 0, 0), (23, 59, 59), (24, 0, 0), (12, 60, 0), (12, 0, 60), (31, 63, 63), (24, 60, 60)];
    let rad = [16, 32, years.len(), hms.len()];
    run.par("type 4: every month and day", prod(&rad), |ctx, i| {
        let [mo, d, y, h] = digits(i, rad);
        let mut b = typical(m4);
        b.set(38, 40, ts(years[y], mo as u64, d as u64, hms[h].0, hms[h].1, hms[h].2));
        check(ctx, m4, &b, &P0, cl[(i % cl.len() as u64) as usize], &sel);
    });
    let days = [(1, 1), (2, 28), (2, 29), (2, 30), (12, 31), (11, 31), (0, 0), (0, 1), (13, 1)];
    let rad = [16384, days.len(), 2];
    run.par("type 4: every year", prod(&rad), |ctx, i| {
        let [y, d, h] = digits(i, rad);
        let mut b = typical(m4);
        b.set(38, 40, ts(y as u64, days[d].0, days[d].1, [0, 23][h], [0, 59][h], [0, 59][h]));
        check(ctx, m4, &b, &P0, NOW, &sel);
    });
    let dd = [(2023, 11, 14), (2024, 2, 29), (2023, 2, 29), (0, 0, 0), (2016, 12, 31)];
    let nd = if th { 5 } else { 3 };
    let rad = [64, 64, 32, nd];
    run.par("type 4: every hour, minute and second", prod(&rad), |ctx, i| {
        let [s, mi, h, d] = digits(i, rad);
        let mut b = typical(m4);
        b.set(38, 40, ts(dd[d].0, dd[d].1, dd[d].2, h as u64, mi as u64, s as u64));
        check(ctx, m4, &b, &P0, NOW, &sel);
    });
    // ETA: all codes
    let mut bg = typical(m5);
    bg.set(294, 8, 0);
    let mut all = cl.clone();
    if th {
        for d in 0..200 { all.push(at(2023, 1, 1, 0, 0, 0) + d * 86400 * 9 + d * 3607); }
    }
    let rad = [1 << 20, all.len()];
    run.par("ETA: every code at every listed clock reading", prod(&rad), |ctx, i| {
        let [c, k] = digits(i, rad);
        let mut b = bg;
        b.set(274, 20, c as u64);
        check(ctx, m5, &b, &P0, all[k], &sel);
    });
    // ETA: dates x clocks on every day of a leap cycle, hours and minutes of a menu, also just around the moment itself
    let hm: Vec<(u64, u64)> = [0u64, 1, 12, 22, 23, 24, 25, 31].iter().flat_map(|&h| [0u64, 1, 30, 58, 59, 60, 61, 63].iter().map(move |&m| (h, m))).collect();
    let step = if th { 1 } else { 23 };
    let nclk = 1826 / step;
    let rad = [16, 32, hm.len(), nclk];
    run.par("ETA: dates by clock days", prod(&rad), |ctx, i| {
        let [mo, d, x, k] = digits(i, rad);
        if !th && (i / 7) % 4 != (k % 4) as u64 && hm[x].0 < 24 && hm[x].1 < 60 { return; }
        let day = at(2023, 1, 1, 0, 0, 0) + (k * step) as i64 * 86400;
        let now = day + [0, 86399, 43200, 3599][k % 4];
        let mut b = bg;
        b.set(274, 20, ((mo as u64) << 5 | d as u64) << 11 | hm[x].0 << 6 | hm[x].1);
        check(ctx, m5, &b, &P0, now, &sel);
    });
    let offs = [-61i64, -60, -59, -1, 0, 1, 59, 60, 3600, -3600, 86400, -86400];
    let rad = [12, 31, 5, 5, offs.len(), 3];
    run.par("ETA: clock around the transmitted moment", prod(&rad), |ctx, i| {
        let [mo, d, h, mi, o, y] = digits(i, rad);
        let h = [0, 12, 23, 1, 24][h];
        let mi = [0, 30, 59, 1, 60][mi];
        let (hh, mm, s) = if h == 24 { (23, 59, 59) } else if mi == 60 { (h, 59, 59) } else { (h, mi, 0) };
        let t = match moment([2023, 2024, 2027][y], mo as i64 + 1, d as i64 + 1, hh, mm, s) { Some(t) => t, None => return };
        let mut b = bg;
        b.set(274, 20, ((mo as u64 + 1) << 5 | (d as u64 + 1)) << 11 | (h as u64) << 6 | mi as u64);
        check(ctx, m5, &b, &P0, t + offs[o], &sel);
    });
}

// ------------------------------------------------------------------------------------ C09 armouring

/// Fields that are plain copies of their bits: what the payload characters stand for shows in them.
fn plain(f: &Field) -> bool {
    matches!(f.out, "mmsi" | "imo_number" | "call_sign" | "name" | "destination" | "equipment_serial_number" | "radio_status" | "dac" | "fid"
        | "dimension_to_bow" | "dimension_to_stern" | "dimension_to_port" | "dimension_to_starboard" | "regional" | "draught10" | "timestamp_seconds"
        | "mothership_mmsi" | "destination_mmsi" | "sequence_number" | "raim_flag")
}

/// Characters that stand for nothing in a payload.
pub fn bad_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|b| b as char).filter(|c| !matches!(c, '0'..='W' | '`'..='w' | ',')).collect();
    for u in 0x80u32..0x180 { v.extend(char::from_u32(u)); }
    for hi in [0x0200u32, 0x0400, 0x0600, 0x1E00, 0x2100, 0x3000, 0xFF00, 0x1_0000, 0x1_F600, 0xE0000] {
        for lo in [0x00u32, 0x2F, 0x30, 0x31, 0x40, 0x41, 0x56, 0x57, 0x58, 0x5F, 0x60, 0x61, 0x76, 0x77, 0x78, 0x7F, 0x80, 0xB0, 0xF7, 0xFF] { v.extend(char::from_u32(hi + lo)); }
    }
    v.extend(['\u{FFFD}', '\u{10FFFF}', '\u{D7FF}', '\u{E000}', '\u{FEFF}']);
    v.sort();
    v.dedup();
    v
}

pub fn armouring(run: &mut Run) {
    let ms = messages();
    let th = run.thorough;
    let names = ["t1", "t5", "t6", "t9", "t18", "t21", "t24"];
    let pr = presentations();
    // Every symbol at every position.
    for n in names {
        let m = by_name(&ms, n);
        let bgs = backgrounds(m, run.seed);
        let nc = (m.nbits + 5) / 6;
        let rad = [64, nc, bgs.len(), pr.len()];
        run.par(&format!("{}: every symbol at every position", n), prod(&rad), |ctx, i| {
            let [c, p, g, q] = digits(i, rad);
            let mut b = bgs[g];
            for k in 0..6 { if p * 6 + k < m.nbits { b.put(p * 6 + k, (c as u64) >> (5 - k)); } }
            m.fix(&mut b);
            check(ctx, m, &b, &pr[q], NOW, &plain);
        });
        let rad = [64, 64, nc - 1, if th { 4 } else { 1 }];
        run.par(&format!("{}: every pair of neighbours", n), prod(&rad), |ctx, i| {
            let [c, d, p, g] = digits(i, rad);
            let mut b = bgs[g];
            for k in 0..6 {
                b.put(p * 6 + k, (c as u64) >> (5 - k));
                if p * 6 + 6 + k < m.nbits { b.put(p * 6 + 6 + k, (d as u64) >> (5 - k)); }
            }
            m.fix(&mut b);
            check(ctx, m, &b, &P0, NOW, &plain);
        });
    }
    // Data after the message does not matter.
    let tails: Vec<usize> = (0..if th { 400 } else { 80 }).collect();
    let fs = [("t1", 168), ("t5", 424), ("t18", 168), ("t21", 356), ("t9", 168), ("t6", 168)];
    let rad = [fs.len(), tails.len(), 64, 2];
    run.par("symbols after the message", prod(&rad), |ctx, i| {
        let [f, t, c, two] = digits(i, rad);
        let m = by_name(&ms, fs[f].0);
        let b = typical(m);
        let mut pay = armour(&b);
        for k in 0..tails[t] { pay.push(armour_char(((c + k * 5) % 64) as u64)); }
        // the last character of the message itself carries fill bits that are transmitted as zero
        let ss = if two == 0 { vec![vdm(&P0, 1, 1, "", &pay, 0)] } else { vec![vdm(&P0, 2, 1, "4", &pay[..20], 0), vdm(&P0, 2, 2, "4", &pay[20..], 0)] };
        clock::set(Some(NOW));
        let mut parser = NmeaParser::new();
        let mut last = Out::Incomplete;
        for s in &ss { last = feed(&mut parser, s); ctx.calls += 1; }
        ctx.case(true, &ss.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        ctx.tally(&last);
        compare(ctx, m, &b, &Env { now: NOW, vdo: false, talker: "AI" }, &last, &plain, &|| ss.iter().map(|s| Step::at(s, Some(NOW))).collect());
    });
    // Every other character at every position of a complete payload is an error.
    let bad = bad_chars();
    let mut pays: Vec<String> = names.iter().map(|n| armour(&{ let m = by_name(&ms, n); if *n == "t24" { typical(m).slice(0, T24) } else { typical(m) } })).collect();
    { let m = by_name(&ms, "t24"); pays.push(armour(&typical(m).slice(T24, T24))); }
    pays.push("K3KMWh1@rLTIlP=D".into());
    pays.push("0".into());
    pays.push("w".into());
    pays.push(armour_char(8).to_string() + &"w".repeat(60));
    let maxlen = pays.iter().map(|p| p.len()).max().unwrap();
    let rad = [bad.len(), maxlen + 1, pays.len(), 2, 8];
    run.par("every other character at every position", prod(&rad), |ctx, i| {
        let [c, p, q, ins, mode] = digits(i, rad);
        let pay = &pays[q];
        let ch = bad[c];
        if p > pay.len() || (ins == 0 && p == pay.len()) { return; }
        // single sentence with and without checksum, VDO; two parts split around the character in both orders
        let mut s: Vec<char> = pay.chars().collect();
        if ins == 0 { s[p] = ch } else { s.insert(p, ch) }
        let ascii = ch.is_ascii();
        let whole: String = s.iter().collect();
        let ps = Pres { cks: ascii && mode % 2 == 1, vdo: mode == 2, ..P0 };
        if mode == 2 && !ascii { return; }
        if !th && mode >= 4 && q > 4 { return; }
        let ss = if mode < 3 { vec![vdm(&ps, 1, 1, "", &whole, 0)] } else {
            if s.len() < 2 { return; }
            let k = match mode { 3 => s.len() / 2, 4 => p.max(1), 5 => (p + 1).min(s.len() - 1), 6 => 1, _ => s.len() - 1 };
            if k == 0 || k >= s.len() { return; }
            let (a, b): (String, String) = (s[..k].iter().collect(), s[k..].iter().collect());
            let mut v = vec![vdm(&ps, 2, 1, "7", &a, 0), vdm(&ps, 2, 2, "7", &b, 0)];
            if mode % 2 == 0 { v.reverse(); }
            v
        };
        if ch == '*' && !ps.cks { return; }
        clock::set(Some(NOW));
        let mut parser = NmeaParser::new();
        let n = ss.len();
        ctx.case(true, &ss.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        for (k, s) in ss.iter().enumerate() {
            let o = feed(&mut parser, s);
            ctx.calls += 1;
            let ok = match o { Out::Err(_) => true, Out::Incomplete => k + 1 < n, _ => false };
            if k + 1 == n { ctx.tally(&o); if i % 1009 == 5 { ctx.sample(|| format!("{:?} -> {}", ss, o.short())); } }
            if !ok {
                ctx.violate("bad-character", ss[..=k].iter().map(|s| Step::at(s, Some(NOW))).collect(), "an error".into(), o.short(), format!("character {:?} at {}", ch, p));
                return;
            }
            // A first part refused at once: whether the second is then incomplete or refused is open, data is wrong.
            if n == 2 && k == 0 && matches!(o, Out::Err(_)) {
                let o2 = feed(&mut parser, &ss[1]);
                if matches!(o2, Out::Data(_) | Out::Panic(_)) {
                    ctx.violate("bad-character", ss.iter().map(|s| Step::at(s, Some(NOW))).collect(), "no data".into(), o2.short(), String::new());
                }
                return;
            }
        }
    });
    // Two bad characters
    let few: Vec<char> = [' ', '/', 'X', '_', 'x', '~', '\u{7f}', '\u{80}', 'é', '\u{130}', '\u{2130}', '*'].to_vec();
    let rad = [few.len(), few.len(), 28, 28];
    run.par("two other characters", prod(&rad), |ctx, i| {
        let [a, b, p, q] = digits(i, rad);
        if p >= q { return; }
        let mut s: Vec<char> = pays[0].chars().collect();
        s[p] = few[a];
        s[q] = few[b];
        let w: String = s.iter().collect();
        let cks = w.contains('*');
        if cks && !w.is_ascii() { return; }
        let t = vdm(&Pres { cks, ..P0 }, 1, 1, "", &w, 0);
        let o = fresh(&t);
        ctx.calls += 1;
        ctx.case(true, &[&t]);
        ctx.tally(&o);
        if !o.is_err() { ctx.violate("bad-characters", vec![Step::new(&t)], "an error".into(), o.short(), String::new()); }
    });
    // Long payloads: one other character far behind the message
    let lens: Vec<usize> = vec![60, 64, 100, 127, 128, 129, 170, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4096, 4097, 8192, 10_000, 16_384, 32_768, 65_535, 65_536, 65_537, 70_000, 100_000];
    let heads: Vec<String> = vec![pays[0].clone(), pays[3].clone(), armour(&typical(by_name(&ms, "t5")))];
    let odd: Vec<char> = ['X', '_', 'x', '~', ' ', '\u{80}', 'é', '\u{130}', '\u{2130}'].to_vec();
    let rad = [odd.len(), 3, heads.len(), 64, lens.len()];
    run.par("other characters in long payloads", prod(&rad), |ctx, i| {
        let [c, mode, h, p, l] = digits(i, rad);
        let n = lens[l];
        // 64 places: the first 16 and last 16 behind the message, and 32 in between
        let base = heads[h].len();
        if n <= base { return; }
        let r = n - base;
        let at = base + match p { 0..=15 => p, 16..=31 => r - 1 - (p - 16).min(r - 1), _ => (p - 31) * r / 33 };
        if at >= n || (n > 5000 && !th && (c > 2 || mode == 1)) { return; }
        let mut s: Vec<char> = heads[h].chars().collect();
        while s.len() < n { s.push(armour_char((s.len() * 7 % 64) as u64)); }
        s[at] = odd[c];
        let w = |a: usize, b: usize| -> String { s[a..b].iter().collect() };
        let ss = match mode { 0 => vec![vdm(&P0, 1, 1, "", &w(0, n), 0)], 1 => vec![vdm(&P0, 2, 1, "7", &w(0, n / 2), 0), vdm(&P0, 2, 2, "7", &w(n / 2, n), 0)], _ => vec![vdm(&P0, 2, 2, "7", &w(20, n), 0), vdm(&P0, 2, 1, "7", &w(0, 20), 0)] };
        clock::set(Some(NOW));
        let mut parser = NmeaParser::new();
        let mut ok = false;
        ctx.evals += 1;
        ctx.distinct_n += 1;
        let mut last = Out::Incomplete;
        for s in &ss {
            last = feed(&mut parser, s);
            ctx.calls += 1;
            ctx.tally(&last);
            match last { Out::Err(_) => ok = true, Out::Incomplete => {} _ => { ok = false; break; } }
        }
        if !ok { ctx.violate("bad-character-far", ss.iter().map(|s| Step::at(s, Some(NOW))).collect(), "an error".into(), last.short(), format!("character {:?} at {} of {}", odd[c], at, n)); }
    });
    // ... and long payloads without one give the message
    let rad = [3, heads.len(), lens.len()];
    run.par("long payloads", prod(&rad), |ctx, i| {
        let [mode, h, l] = digits(i, rad);
        let n = lens[l];
        let mut s = heads[h].clone();
        while s.len() < n { s.push(armour_char((s.len() * 7 % 64) as u64)); }
        let ss = match mode { 0 => vec![vdm(&P0, 1, 1, "", &s, 0)], 1 => vec![vdm(&P0, 2, 1, "7", &s[..s.len() / 2], 0), vdm(&P0, 2, 2, "7", &s[s.len() / 2..], 0)], _ => vec![vdm(&P0, 2, 2, "7", &s[20..], 0), vdm(&P0, 2, 1, "7", &s[..20], 0)] };
        clock::set(Some(NOW));
        let mut parser = NmeaParser::new();
        let e = fresh(&vdm(&P0, 1, 1, "", &heads[h], 0));
        let mut o = Out::Incomplete;
        for s in &ss { o = feed(&mut parser, s); ctx.calls += 1; }
        ctx.case(true, &[&ss[0]]);
        ctx.tally(&o);
        if o != e { ctx.violate("long-payload", ss.iter().map(|s| Step::at(s, Some(NOW))).collect(), e.short(), o.short(), format!("{} characters", n)); }
    });
}
