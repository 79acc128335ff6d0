//! C02 (checksums) and C21 (country table).
use super::aismisc::{digits, prod};
use crate::ais::{with_checksum, NOW};
use crate::engine::*;
use crate::obs::*;

/// One sentence of every kind, without checksum.
pub fn corpus() -> Vec<&'static str> {
    vec![
        "!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", "!AIVDM,1,1,,A,402=481uaUcf;OQ55JS9ITi025Jp,0", "!AIVDO,1,1,,B,H42O55i18tMET00000000000000,0",
        "!AIVDM,1,1,,B,E>kb9O9aS@7PUh10dh19@;0Tah2cWrfP:l?M`00003vP100,0", "!AIVDM,1,1,,A,91b77=h3h00nHt0Q3r@@07000<0b,0", "!BSVDM,1,1,,B,:5MlU41GMK6@,0",
        "!AIVDM,2,1,3,B,55P5TL01VIaAL@7WKO@mBplU@<PDhh000000001S;AJ::4A80?4i@E53,0", "!AIVDM,2,2,3,B,1@0000000000000,2", "!AIVDM,1,1,,A,KC5E2b@U19PFdLbMuc5=ROv62<7m,0",
        "!AIVDM,1,1,,A,B52K>;h00Fc>jpUlNV@ikwpUoP06,0", "!AIVDM,1,1,,B,6h00003wwwwww00000000,0", "!AIVDM,1,1,,A,D03Ownh<MI6D0,2", "!AIVDM,1,1,,A,<5MwpVn0AAup=C7P6B?=Pknnqqqoho0,2",
        "$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "$GPGSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3",
        "$GPGSV,3,1,11,03,03,111,00,04,15,270,00,06,01,010,00,13,06,292,00", "$GLGSV,1,1,02,14,25,170,00,16,57,208,39", "$BDVTG,054.7,T,034.4,M,005.5,N,010.2,K,D", "$GAGLL,4916.45,N,12311.12,W,225444,A,D",
        "$GPALM,1,1,15,1159,00,441D,4E,16BE,FD5E,A10C9F,4A2DA4,686E81,58CBE1,0A4,001", "$GPZDA,160012.71,11,03,2004,-1,00", "$GPXXX,1,2", "$PGRME,15.0,M,45.0,M,25.0,M", "!AIVDM,1,1,,A,,0", "$GPGGA,", "$,", ",", "x,",
    ]
}
fn xor(s: &str) -> u8 { s.bytes().skip(1).fold(0, |a, b| a ^ b) }

/// The sentence with two characters after the last '*' against the rule; also against the form without checksum.
fn sealed(ctx: &mut Ctx, body: &str, suffix: &str) {
    let s = format!("{}*{}", body, suffix);
    let right = format!("{:02X}", xor(body));
    crate::clock::set(Some(NOW));
    let o = fresh(&s);
    ctx.calls += 1;
    ctx.case(true, &[&s]);
    ctx.tally(&o);
    if ctx.samples.is_empty() { ctx.sample(|| format!("{:?} -> {}", s, clip(&o.short(), 120))); }
    if suffix == right {
        if o == Out::Err(EK::Corrupted) { return ctx.violate("right-checksum", vec![Step::at(&s, Some(NOW))], "not corrupted".into(), o.short(), String::new()); }
        if !body.contains('*') {
            let p = fresh(body);
            ctx.calls += 1;
            if p != o { ctx.violate("with-and-without", vec![Step::at(&s, Some(NOW)), Step { parser: 1, clock: Some(NOW), s: body.to_string() }], p.short(), o.short(), "result with and without the right checksum".into()); }
        }
    } else if suffix.to_uppercase() != right && o != Out::Err(EK::Corrupted) {
        ctx.violate("wrong-checksum", vec![Step::at(&s, Some(NOW))], "the corrupted-sentence error".into(), o.short(), format!("right checksum {}", right));
    }
}

pub fn checksums(run: &mut Run) {
    let th = run.thorough;
    let co = corpus();
    // Every two printable characters after every sentence
    let rad = [95, 95, co.len()];
    run.par("every pair of checksum characters", prod(&rad), |ctx, i| {
        let [a, b, c] = digits(i, rad);
        let s: String = [a, b].iter().map(|&x| (x as u8 + 32) as char).collect();
        if s.contains('*') { return; }
        sealed(ctx, co[c], &s);
    });
    // Checksums that are not two characters: one, three, four and more
    let hexd = b"0123456789ABCDEFabcdef";
    let rad = [95, co.len()];
    run.par("checksums of one character, and with one more", prod(&rad), |ctx, i| {
        let [a, c] = digits(i, rad);
        let a = (a as u8 + 32) as char;
        if a == '*' || a == ' ' { return; }
        let r = format!("{:02X}", xor(co[c]));
        let (h, l) = (r[..1].to_string(), r[1..].to_string());
        for s in [format!("{}", a), format!("{}{}", r, a), format!("{}{}", a, r), format!("{}{}{}", h, a, l), format!("{}{}{}", r, a, a), format!("{}{}{}", a, a, r), format!("{}{}{}", a, r, a), format!("{}{}", r, a.to_string().repeat(6)), format!("{}{}", a.to_string().repeat(6), r)] { sealed(ctx, co[c], &s); }
    });
    let rad = [hexd.len(), hexd.len(), hexd.len(), co.len()];
    run.par("checksums of three hexadecimal digits", prod(&rad), |ctx, i| {
        let [x, y, z, c] = digits(i, rad);
        sealed(ctx, co[c], &[x, y, z].iter().map(|&k| hexd[k] as char).collect::<String>());
    });
    let rad = [if th { 65536 } else { 4096 }, 4, co.len()];
    run.par("checksums of four and more digits", prod(&rad), |ctx, i| {
        let [x, w, c] = digits(i, rad);
        let v = if th { x } else { x * 16 + x % 16 } as u64;
        let r = xor(co[c]) as u64;
        // all values, all values that end in or begin with the right one, and much longer ones
        match w { 0 => sealed(ctx, co[c], &format!("{:04X}", v)), 1 => sealed(ctx, co[c], &format!("{:04X}", v & 0xff00 | r)), 2 => sealed(ctx, co[c], &format!("{:04X}", r << 8 | v & 255)), _ => for n in [5, 6, 8, 10, 16, 17, 20] { if x < 256 { sealed(ctx, co[c], &format!("{:0n$X}", r ^ x as u64, n = n)); } } }
    });
    // Every edit of the sentence with the checksum of the original
    let maxl = co.iter().map(|c| c.len()).max().unwrap();
    let rad = [95, maxl + 1, 3, co.len()];
    run.par("every single edit under the old checksum", prod(&rad), |ctx, i| {
        let [c, p, k, b] = digits(i, rad);
        let mut s: Vec<u8> = co[b].bytes().collect();
        let ck = format!("{:02X}", xor(co[b]));
        match k { 0 if p < s.len() => s[p] = c as u8 + 32, 1 if p <= s.len() => s.insert(p, c as u8 + 32), 2 if p < s.len() && c == 0 => { s.remove(p); } _ => return }
        sealed(ctx, &String::from_utf8(s).unwrap(), &ck);
    });
    // Pairs of edits: transpositions, duplications, and replacements whose sum may cancel out
    let rad = [maxl, maxl, 3, co.len()];
    run.par("exchanged, doubled and bit-flipped pairs", prod(&rad), |ctx, i| {
        let [p, q, k, b] = digits(i, rad);
        let mut s: Vec<u8> = co[b].bytes().collect();
        if p >= q || q >= s.len() { return; }
        let ck = format!("{:02X}", xor(co[b]));
        match k { 0 => s.swap(p, q), 1 => { s[p] ^= 1; s[q] ^= 1; } _ => { s[p] ^= 1; s[q] ^= 3; } }
        if s.iter().any(|c| !(32..127).contains(c)) { return; }
        sealed(ctx, &String::from_utf8(s).unwrap(), &ck);
    });
    // Every short body with near checksums
    let n = if th { 4 } else { 3 };
    let mut tot = 0u64;
    let mut ends = vec![];
    for l in 0..=n { tot += 95u64.pow(l); ends.push(tot); }
    run.par("every short sentence", tot * 4, |ctx, i| {
        let (j, d) = (i / 4, i % 4);
        let l = ends.partition_point(|&e| e <= j);
        let mut r = j - if l == 0 { 0 } else { ends[l - 1] };
        let mut s = String::new();
        for _ in 0..l { s.push((r % 95) as u8 as char as u32 as u8 as char); r /= 95; }
        let s: String = s.bytes().map(|b| (b + 32) as char).collect();
        let x = xor(&s);
        sealed(ctx, &s, &format!("{:02X}", [x, x ^ 1, x ^ 0x40, x.wrapping_add(0x11)][d as usize]));
    });
    // Every checksum value under bodies that have every possible XOR
    let rad = [128, 256, 6];
    run.par("every checksum under every sum", prod(&rad), |ctx, i| {
        let [x, c, f] = digits(i, rad);
        let base = co[[0, 13, 14, 15, 17, 18][f]];
        // two more characters after a comma bring the sum to x
        let want = xor(base) ^ b',' ^ x as u8;
        for a in 33u8..127 { let b = want ^ a; if (33..127).contains(&b) && ![a, b].contains(&b'*') && ![a, b].contains(&b',') { return sealed(ctx, &format!("{},{}{}", base, a as char, b as char), &format!("{:02X}", c)); } }
    });
    // Sentences of every length, the checksum covers all of it: one character changed anywhere
    let long = |b: usize, n: usize| -> String {
        let fill: String = "04:@w1>X".chars().cycle().take(n).collect();
        match b { 0 => format!("!AIVDM,1,1,,A,{},0", fill), 1 => format!("$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K,D,{}", fill), 2 => format!("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E,{}", fill), 3 => format!("$GPX{},1", fill), _ => fill }
    };
    let ml = if th { 700 } else { 330 };
    let rad = [ml, 5];
    run.par("sentences of every length", prod(&rad), |ctx, i| {
        let [n, b] = digits(i, rad);
        let s = long(b, n);
        let x = xor(&s);
        for d in [0, 1, 0x10, 0x41] { sealed(ctx, &s, &format!("{:02X}", x ^ d)); }
        for k in 1..s.len() { let mut t = s.clone().into_bytes(); t[k] ^= 1; let t = String::from_utf8(t).unwrap(); if t.contains('*') { continue; } sealed(ctx, &t, &format!("{:02X}", x)); if th || k % 16 == n % 16 { sealed(ctx, &t, &format!("{:02X}", x ^ 1)); } }
    });
    let sizes: Vec<usize> = [511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 100_000].into_iter().flat_map(|n| [n - 16, n - 15, n - 1, n, n + 1]).collect();
    let rad = [sizes.len(), 5, 24];
    run.par("long sentences", prod(&rad), |ctx, i| {
        let [n, b, k] = digits(i, rad);
        let s = long(b, sizes[n]);
        let x = xor(&s);
        let mut t = s.clone().into_bytes();
        // nothing, one of the last eleven, or one of twelve places all over the sentence changed
        if k > 0 && k < 12 { let at = t.len() - k; t[at] ^= 1; } else if k >= 12 { let at = 1 + (t.len() - 2) * (k - 12) / 11; t[at] ^= 1; }
        let t = String::from_utf8(t).unwrap();
        if t.contains('*') { return; }
        for d in [0, 1] { sealed(ctx, &t, &format!("{:02X}", x ^ d)); }
    });
    // No '*': never corrupted
    let rad = [95, maxl + 1, 3, co.len()];
    run.par("every single edit without checksum", prod(&rad), |ctx, i| {
        let [c, p, k, b] = digits(i, rad);
        let mut s: Vec<u8> = co[b].bytes().collect();
        match k { 0 if p < s.len() => s[p] = c as u8 + 32, 1 if p <= s.len() => s.insert(p, c as u8 + 32), 2 if p < s.len() && c == 0 => { s.remove(p); } _ => return }
        let s = String::from_utf8(s).unwrap();
        if s.contains('*') { return; }
        let o = fresh(&s);
        ctx.calls += 1;
        ctx.case(true, &[&s]);
        ctx.tally(&o);
        if o == Out::Err(EK::Corrupted) { ctx.violate("no-checksum", vec![Step::new(&s)], "not corrupted".into(), o.short(), String::new()); }
    });
    // Several '*': the last one counts
    let rad = [maxl + 1, maxl + 1, co.len()];
    run.par("stars inside the sentence", prod(&rad), |ctx, i| {
        let [p, q, b] = digits(i, rad);
        let mut s = co[b].to_string();
        if p > s.len() || q > p { return; }
        s.insert(p, '*');
        if q < p { s.insert(q, '*'); }
        let x = xor(&s);
        sealed(ctx, &s, &format!("{:02X}", x));
        sealed(ctx, &s, &format!("{:02X}", x ^ 0x10));
        sealed(ctx, &s, &format!("{:02X}", xor(&s[..s.find('*').unwrap()])));
    });
    let _ = with_checksum;
}

// ------------------------------------------------------------------------------------ C21

/// Identification digits and ISO 3166 codes (ITU Table of Maritime Identification Digits).
pub const MID: &str = "201AL 202AD 203AT 204PT 205BE 206BY 207BG 208VA 209CY 210CY 211DE 212CY 213GE 214MD 215MT 216AM 218DE 219DK 220DK 224ES 225ES \
226FR 227FR 228FR 229MT 230FI 231FO 232GB 233GB 234GB 235GB 236GI 237GR 238HR 239GR 240GR 241GR 242MA 243HU 244NL 245NL 246NL 247IT 248MT 249MT 250IE \
251IS 252LI 253LU 254MC 255PT 256MT 257NO 258NO 259NO 261PL 262ME 263PT 264RO 265SE 266SE 267SK 268SM 269CH 270CZ 271TR 272UA 273RU 274MK 275LV 276EE \
277LT 278SI 279RS 301AI 303US 304AG 305AG 306BQ 307AW 308BS 309BS 310BM 311BS 312BZ 314BB 316CA 319KY 321CR 323CU 325DM 327DO 329GP 330GD 331GL 332GT \
334HN 336HT 338US 339JM 341KN 343LC 345MX 347MQ 348MS 350NI 351PA 352PA 353PA 354PA 355PA 356PA 357PA 358PR 359SV 361PM 362TT 364TC 366US 367US 368US \
369US 370PA 371PA 372PA 373PA 374PA 375VC 376VC 377VC 378VG 379VI 401AF 403SA 405BD 408BH 410BT 412CN 413CN 414CN 416TW 417LK 419IN 422IR 423AZ 425IQ \
428IL 431JP 432JP 434TM 436KZ 437UZ 438JO 440KR 441KR 443PS 445KP 447KW 450LB 451KG 453MO 455MV 457MN 459NP 461OM 463PK 466QA 468SY 470AE 471AE 472TJ \
473YE 475YE 477HK 478BA 501TF 503AU 506MM 508BN 510FM 511PW 512NZ 514KH 515KH 516CX 518CK 520FJ 523CC 525ID 529KI 531LA 533MY 536MP 538MH 540NC 542NU \
544NR 546PF 548PH 550TL 553PG 555PN 557SB 559AS 561WS 563SG 564SG 565SG 566SG 567TH 570TO 572TV 574VN 576VU 577VU 578WF 601ZA 603AO 605DZ 607TF 608SH \
609BI 610BJ 611BW 612CF 613CM 615CG 616KM 617CV 618TF 619CI 620KM 621DJ 622EG 624ET 625ER 626GA 627GH 629GM 630GW 631GQ 632GN 633BF 634KE 635TF 636LR \
637LR 638SS 642LY 644LS 645MU 647MG 649ML 650MZ 654MR 655MW 656NE 657NG 659NA 660RE 661RW 662SD 663SN 664SC 665SH 666SO 667SL 668ST 669SZ 670TD 671TG \
672TN 674TZ 675UG 676CD 677TZ 678ZM 679ZW 701AR 710BR 720BO 725CL 730CO 735EC 740FK 745GF 750GY 755PY 760PE 765SR 770UY 775VE";

pub fn countries(run: &mut Run) {
    let mut table: Vec<Vec<&'static str>> = vec![vec![]; 1000];
    for w in MID.split_whitespace() { table[w[..3].parse::<usize>().unwrap()].push(&w[3..]); }
    // Bonaire, Curaçao and Sint Maarten share 306
    table[306].extend(["CW", "SX"]);
    let name = |m: u32| -> String { format!("mmsi {}", m) };
    let base = nmea_parser::ais::VesselStaticData::default();
    // What a MID that several states share gives is open, but it is one of them for all its numbers
    let first: Vec<Option<&'static str>> = (0..1000u32).map(|k| { let mut v = base.clone(); v.mmsi = k * 1_000_000; std::panic::catch_unwind(|| v.country()).unwrap_or(None) }).collect();
    let one = |ctx: &mut Ctx, v: &mut nmea_parser::ais::VesselStaticData, m: u32| {
        v.mmsi = m;
        let c = v.country();
        let k = (m / 1_000_000) as usize;
        let ok = match c { None => k >= 1000 || table[k].is_empty(), Some(x) => k < 1000 && table[k].contains(&x) } && (k >= 1000 || c == first[k]);
        if !ok {
            let e = if k < 1000 { format!("{:?}", table[k]) } else { "[]".into() };
            ctx.violate("country", vec![Step::new(&name(m))], format!("{} {}", name(m), e), format!("{:?}", c), "country() of a vessel with this MMSI".into());
        }
    };
    const CH: u64 = 1 << 16;
    run.par("all 2^32 numbers", (1 << 32) / CH, |ctx, i| {
        let mut v = base.clone();
        for m in i * CH..(i + 1) * CH { one(ctx, &mut v, m as u32); }
        ctx.evals += CH;
        ctx.distinct_n += CH;
        ctx.calls += CH;
        if i % 999 == 3 { let m = (i * CH) as u32; ctx.sample(|| format!("mmsi {} -> {:?}", m, { v.mmsi = m; v.country() })); }
    });
    // The country of parsed vessels is the one of their MMSI, whatever else the message says
    let ms = crate::ais::messages();
    let m5 = super::aismisc::by_name(&ms, "t5");
    let bgs = crate::ais::backgrounds(m5, run.seed);
    let rad = [1074, 5, bgs.len()];
    run.par("parsed vessels", prod(&rad), |ctx, i| {
        let [k, x, g] = digits(i, rad);
        let m = k as u64 * 1_000_000 + [0, 1, 123_456, 999_999, 500_000][x];
        if m >= 1 << 30 { return; }
        let mut b = bgs[g];
        b.set(8, 30, m);
        let s = crate::ais::sentences(m5, &b, &crate::ais::P0).remove(0);
        crate::clock::set(Some(NOW));
        ctx.calls += 1;
        ctx.case(true, &[&s]);
        let mut c = None;
        let o = guarded(&s, || match nmea_parser::NmeaParser::new().parse_sentence(&s) {
            Ok(nmea_parser::ParsedSentence::VesselStaticData(d)) => { c = d.country(); Out::Incomplete }
            _ => Out::Err(EK::Invalid),
        });
        let ok = o == Out::Incomplete && match c { None => k >= 1000 || table[k].is_empty(), Some(x) => k < 1000 && table[k].contains(&x) };
        if !ok { ctx.violate("parsed-country", vec![Step::at(&s, Some(NOW))], format!("country of MMSI {}", m), format!("{:?} {:?}", o, c), String::new()); }
    });
}
