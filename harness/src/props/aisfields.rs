//! C10, C11, C12 (fields), C14, C15, C16 (type 4 and 5 interplay): bounded exhaustive enumeration of
//! AIS messages around every field of a category, compared with the reference model.
use crate::ais::*;
use crate::engine::*;

pub enum Kind {
    /// Every value of a span.
    All { off: usize, len: usize },
    /// Every value of `wid` consecutive bits of a span, the rest of the span at `base`.
    Window { off: usize, len: usize, base: u64, lo: usize, wid: usize },
    /// Listed values of a span.
    Near { off: usize, len: usize, vals: Vec<u64> },
    /// Every step-th value of a span.
    Stride { off: usize, len: usize, step: u64, start: u64 },
    /// Each listed value of a span with each single other bit of the message flipped.
    Flip { off: usize, len: usize, menu: Vec<u64> },
    /// Each listed value of a span with each pair of other bits of the message flipped.
    Flip2 { off: usize, len: usize, val: u64 },
    /// All combinations of listed values of several spans.
    Combo { spans: Vec<(usize, usize, Vec<u64>)> },
    /// Two spans that are related: the second one equal to the first, one more, less, inverted, doubled, halved, extended.
    Related { a: (usize, usize), b: (usize, usize), vals: Vec<u64> },
    /// Every value of two spans.
    Two { a: (usize, usize), b: (usize, usize) },
    /// The background as it is, in `n` presentations, with listed values of a span.
    Present { off: usize, len: usize, vals: Vec<u64> },
}
pub struct Item { pub msg: usize, pub bg: Bits, pub kind: Kind }

impl Item {
    pub fn count(&self, ms: &[Msg], np: usize) -> u64 {
        let n = ms[self.msg].nbits as u64;
        match &self.kind {
            Kind::All { len, .. } => 1 << len,
            Kind::Window { wid, .. } => 1 << wid,
            Kind::Near { vals, .. } => vals.len() as u64,
            Kind::Stride { len, step, start, .. } => ((1u64 << len) - start + step - 1) / step,
            Kind::Flip { menu, .. } => menu.len() as u64 * n,
            Kind::Flip2 { .. } => n * (n - 1) / 2,
            Kind::Combo { spans } => spans.iter().map(|s| s.2.len() as u64).product(),
            Kind::Related { vals, .. } => vals.len() as u64 * 8,
            Kind::Two { a, b } => 1 << (a.1 + b.1),
            Kind::Present { vals, .. } => vals.len() as u64 * np as u64,
        }
    }
    pub fn make(&self, ms: &[Msg], i: u64) -> (Bits, usize) {
        let m = &ms[self.msg];
        let mut b = self.bg;
        let mut pres = 0;
        match &self.kind {
            Kind::All { off, len } => b.set(*off, *len, i),
            Kind::Window { off, len, base, lo, wid } => {
                let mask = ((1u64 << wid) - 1) << lo;
                b.set(*off, *len, (base & !mask) | i << lo)
            }
            Kind::Near { off, len, vals } => b.set(*off, *len, vals[i as usize]),
            Kind::Stride { off, len, step, start } => b.set(*off, *len, start + i * step),
            Kind::Flip { off, len, menu } => {
                let n = m.nbits as u64;
                b.set(*off, *len, menu[(i / n) as usize]);
                let k = (i % n) as usize;
                if !(k >= *off && k < off + len) { b.put(k, 1 - b.bit(k)); }
            }
            Kind::Flip2 { off, len, val } => {
                b.set(*off, *len, *val);
                let (mut r, mut k) = (i, 0u64);
                let n = m.nbits as u64;
                while r >= n - 1 - k { r -= n - 1 - k; k += 1; }
                for q in [k as usize, (k + 1 + r) as usize] {
                    if !(q >= *off && q < off + len) { b.put(q, 1 - b.bit(q)); }
                }
            }
            Kind::Combo { spans } => {
                let mut r = i;
                for (off, len, menu) in spans {
                    b.set(*off, *len, menu[(r % menu.len() as u64) as usize]);
                    r /= menu.len() as u64;
                }
            }
            Kind::Related { a, b: (off, len), vals } => {
                let v = vals[(i / 8) as usize];
                b.set(a.0, a.1, v);
                let x = v & ((1u64 << a.1) - 1);
                let sx = if a.1 < *len && x >> (a.1 - 1) & 1 == 1 { x | !0u64 << a.1 } else if a.1 > *len { x >> (a.1 - len) } else { x.rotate_left(1) };
                let y = match i % 8 { 0 => x, 1 => x.wrapping_add(1), 2 => x.wrapping_sub(1), 3 => !x, 4 => x << 1, 5 => x >> 1, 6 => sx, _ => x.wrapping_neg() };
                b.set(*off, *len, y & ((1u64 << len) - 1));
            }
            Kind::Two { a, b: c } => {
                b.set(a.0, a.1, i & ((1 << a.1) - 1));
                b.set(c.0, c.1, i >> a.1);
            }
            Kind::Present { off, len, vals } => {
                pres = (i % 1000) as usize;
                let _ = pres;
                let n = vals.len() as u64;
                if *len > 0 { b.set(*off, *len, vals[(i % n) as usize]); }
                pres = (i / n) as usize;
            }
        }
        m.fix(&mut b);
        (b, pres)
    }
}

fn near(menu: &[u64], len: usize) -> Vec<u64> {
    let mut v = vec![];
    for &m in menu {
        v.push(m);
        for i in 0..len {
            v.push(m ^ 1 << i);
            for j in 0..i { v.push(m ^ 1 << i ^ 1 << j); }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Runs a list of items through the comparison of the fields of the given categories.
pub fn run_items(run: &mut Run, name: &str, ms: &[Msg], items: &[Item], cats: &[Cat], now: i64) {
    let pr = presentations();
    let mut ends = vec![];
    let mut n = 0;
    for it in items { n += it.count(ms, pr.len()); ends.push(n); }
    run.par(name, n, |ctx, i| {
        let k = ends.partition_point(|&e| e <= i);
        let st = if k == 0 { 0 } else { ends[k - 1] };
        let (b, p) = items[k].make(ms, i - st);
        check(ctx, &ms[items[k].msg], &b, &pr[p], now, &|f| cats.contains(&f.cat));
    });
}


pub fn enumerate(run: &mut Run, cats: &[Cat]) {
    let ms = messages();
    let th = run.thorough;
    let seed = run.seed;
    let allbits = if th { 20 } else { 16 };
    let win = if th { 16 } else { 13 };
    let mut full = vec![];
    let mut wins = vec![];
    let mut flips = vec![];
    let mut combos = vec![];
    let mut pres = vec![];
    let mut related = vec![];
    for (mi, m) in ms.iter().enumerate() {
        let spans = m.spans(cats);
        if spans.is_empty() && !m.fields.iter().any(|f| cats.contains(&f.cat)) { continue; }
        let bgs = backgrounds(m, seed);
        for (off, len, menu) in &spans {
            let (off, len) = (*off, *len);
            if menu.is_empty() { continue; }
            for (bi, bg) in bgs.iter().enumerate() {
                let bg = *bg;
                // wide fields on fewer backgrounds in the quick tier
                let wide = th || bi < 4;
                if len <= allbits {
                    full.push(Item { msg: mi, bg, kind: Kind::All { off, len } });
                } else if wide {
                    wins.push(Item { msg: mi, bg, kind: Kind::Near { off, len, vals: near(menu, len) } });
                    if bi < if th { 99 } else { 3 } && len <= 32 {
                        let step = (if th { 257 } else { 4099 }).max((1u64 << len) >> if th { 22 } else { 15 } | 1);
                        wins.push(Item { msg: mi, bg, kind: Kind::Stride { off, len, step, start: (seed.wrapping_mul(31) + bi as u64) % step } });
                    }
                    let bases: Vec<u64> = if th { menu.clone() } else { vec![0, (1 << len) - 1, menu[menu.len() / 2]] };
                    for base in bases {
                        let mut lo = 0;
                        loop {
                            let w = win.min(len - lo);
                            wins.push(Item { msg: mi, bg, kind: Kind::Window { off, len, base, lo, wid: w } });
                            if lo + w >= len { break; }
                            lo += win / 2;
                        }
                    }
                }
                flips.push(Item { msg: mi, bg, kind: Kind::Flip { off, len, menu: menu.clone() } });
                if th && bi < 4 || bi < 1 { for &v in menu.iter().step_by(if th { 1 } else { 3 }) { flips.push(Item { msg: mi, bg, kind: Kind::Flip2 { off, len, val: v } }); } }
                pres.push(Item { msg: mi, bg, kind: Kind::Present { off, len, vals: menu.clone() } });
            }
        }
        // Fields that must stay constant: every single bit and every pair of bits of the message.
        if m.fields.iter().any(|f| cats.contains(&f.cat) && f.len == 0) {
            for (bi, bg) in bgs.iter().enumerate() {
                flips.push(Item { msg: mi, bg: *bg, kind: Kind::Flip { off: 0, len: 0, menu: vec![0] } });
                if bi < if th { 99 } else { 2 } { flips.push(Item { msg: mi, bg: *bg, kind: Kind::Flip2 { off: 0, len: 0, val: 0 } }); }
                pres.push(Item { msg: mi, bg: *bg, kind: Kind::Present { off: 0, len: 0, vals: vec![0] } });
            }
        }
        // Combinations of boundary values of up to three (four) fields, at least one of them of this category.
        let cut = |m: &Vec<u64>, k: usize| -> Vec<u64> {
            if m.len() <= k { m.clone() } else { (0..k).map(|i| m[i * (m.len() - 1) / (k - 1)]).collect() }
        };
        let allsp: Vec<_> = m.spans(&[Cat::Pos, Cat::Kin, Cat::Id, Cat::Text, Cat::Code, Cat::Bits, Cat::Time]).into_iter().filter(|s| !s.2.is_empty()).collect();
        let k = if th { 14 } else { 10 };
        let nbg = if th { 6 } else { 4 };
        let own: Vec<bool> = allsp.iter().map(|s| spans.iter().any(|x| x.0 == s.0 && x.1 == s.1)).collect();
        for (bi, bg) in bgs.iter().enumerate() {
            for a in 0..allsp.len() {
                for b in a + 1..allsp.len() {
                    for c in b + 1..allsp.len() {
                        // combinations of other fields also must not change a field of this category
                        let mine = own[a] || own[b] || own[c];
                        if !th && (if mine { bi >= nbg } else { bi == 2 || bi == 3 || bi == 1 }) { continue; }
                        let spans = [a, b, c].iter().map(|&x| (allsp[x].0, allsp[x].1, cut(&allsp[x].2, if mine { k } else if allsp[x].1 > 6 { if th { 6 } else { 4 } } else { 24 }))).collect();
                        combos.push(Item { msg: mi, bg: *bg, kind: Kind::Combo { spans } });
                    }
                }
            }
        }
        // Related values of any two fields, and all values of two small ones
        for (bi, bg) in bgs.iter().take(if th { 6 } else { 3 }).enumerate() {
            for a in 0..allsp.len() {
                for b in 0..allsp.len() {
                    if a == b || !(own[a] || own[b]) { continue; }
                    let (x, y) = ((allsp[a].0, allsp[a].1), (allsp[b].0, allsp[b].1));
                    let l = x.1.min(y.1);
                    let vals: Vec<u64> = if x.1 <= if th { 12 } else { 9 } { (0..1 << x.1).collect::<Vec<u64>>() } else {
                        let mut v: Vec<u64> = allsp[a].2.iter().chain(&allsp[b].2).map(|v| v & ((1u64 << x.1) - 1)).collect();
                        let n = if th { 1024 } else { 128 };
                        v.extend((0..n).map(|k| ((1u64 << x.1) - 1) / n * k + k));
                        v.extend((0..n.min(1 << l)).collect::<Vec<_>>());
                        v.sort();
                        v.dedup();
                        v
                    };
                    related.push(Item { msg: mi, bg: *bg, kind: Kind::Related { a: x, b: y, vals } });
                    if a < b && x.1 + y.1 <= if th { 19 } else if bi == 0 { 16 } else { 13 } { related.push(Item { msg: mi, bg: *bg, kind: Kind::Two { a: x, b: y } }); }
                }
            }
        }
        // Combinations of four fields
        for bg in bgs.iter().take(if th { 4 } else { 2 }) {
            for a in 0..allsp.len() {
                for b in a + 1..allsp.len() {
                    for c in b + 1..allsp.len() {
                        for d in c + 1..allsp.len() {
                            if !(own[a] || own[b] || own[c] || own[d]) { continue; }
                            let spans = [a, b, c, d].iter().map(|&x| (allsp[x].0, allsp[x].1, cut(&allsp[x].2, if th { 5 } else { 4 }))).collect();
                            combos.push(Item { msg: mi, bg: *bg, kind: Kind::Combo { spans } });
                        }
                    }
                }
            }
        }
    }
    run_items(run, "every value of every field", &ms, &full, cats, NOW);
    run_items(run, "value windows of wide fields", &ms, &wins, cats, NOW);
    run_items(run, "flips of all other bits", &ms, &flips, cats, NOW);
    run_items(run, "combinations of field values", &ms, &combos, cats, NOW);
    run_items(run, "related values of two fields", &ms, &related, cats, NOW);
    run_items(run, "presentations", &ms, &pres, cats, NOW);
    if th && cats.contains(&Cat::Pos) {
        // Complete value spaces of both coordinates in one message type each.
        let mut items = vec![];
        for (mi, m) in ms.iter().enumerate() {
            for (off, len, _) in m.spans(&[Cat::Pos]) {
                if ["t1", "t18", "t27"].contains(&m.name) { items.push(Item { msg: mi, bg: typical(m), kind: Kind::All { off, len } }); }
            }
        }
        run_items(run, "complete coordinate value spaces", &ms, &items, cats, NOW);
    }
}
