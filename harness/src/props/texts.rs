//! C23 (display texts of the code lists) and C24 (kinds of errors).
use super::aismisc::{by_name, digits, prod};
use super::gnssprops::{layouts, menu};
use super::misc::corpus;
use crate::ais::*;
use crate::engine::*;
use crate::obs::*;
use crate::{clock, gnss};
use nmea_parser::{NmeaParser, ParseError, ParsedSentence};

// ------------------------------------------------------------------------------------ C23

/// One code list: what a text must say (all of the words), by meaning; the same group may share a text.
struct List { name: &'static str, rows: Vec<(&'static str, &'static [&'static str], u8)> }
fn lists() -> Vec<List> {
    let l = |name, rows: &[(&'static str, &'static [&'static str], u8)]| List { name, rows: rows.to_vec() };
    vec![
        l("ship type", &[("NotAvailable", &["not available"], 0), ("Reserved1", &["reserved"], 1), ("WingInGround", &["wing", "ground"], 0), ("Fishing", &["fishing"], 0), ("Towing", &["towing"], 0), ("TowingLong", &["towing", "long"], 0),
            ("DredgingOrUnderwaterOps", &["dredging", "underwater"], 0), ("DivingOps", &["diving"], 0), ("MilitaryOps", &["military"], 0), ("Sailing", &["sailing"], 0), ("PleasureCraft", &["pleasure"], 0), ("Reserved38", &["reserved"], 1), ("Reserved39", &["reserved"], 1),
            ("HighSpeedCraft", &["high", "speed"], 0), ("Pilot", &["pilot"], 0), ("SearchAndRescue", &["search", "rescue"], 0), ("Tug", &["tug"], 0), ("PortTender", &["port", "tender"], 0), ("AntiPollutionEquipment", &["anti", "pollution"], 0), ("LawEnforcement", &["law", "enforcement"], 0),
            ("SpareLocal56", &["local"], 2), ("SpareLocal57", &["local"], 2), ("MedicalTransport", &["medical"], 0), ("Noncombatant", &["noncombatant"], 0), ("Passenger", &["passenger"], 0), ("Cargo", &["cargo"], 0), ("Tanker", &["tanker"], 0), ("Other", &["other"], 0)]),
        l("cargo type", &[("Undefined", &["undefined"], 0), ("HazardousCategoryA", &["hazardous", " a"], 0), ("HazardousCategoryB", &["hazardous", " b"], 0), ("HazardousCategoryC", &["hazardous", " c"], 0), ("HazardousCategoryD", &["hazardous", " d"], 0),
            ("Reserved5", &["reserved"], 1), ("Reserved6", &["reserved"], 1), ("Reserved7", &["reserved"], 1), ("Reserved8", &["reserved"], 1), ("Reserved9", &["reserved"], 1)]),
        l("position fix type", &[("Undefined", &["undefined"], 0), ("GPS", &["gps"], 0), ("GLONASS", &["glonass"], 0), ("GPSGLONASS", &["gps", "glonass"], 0), ("LoranC", &["loran"], 0), ("Chayka", &["chayka"], 0), ("IntegratedNavigationSystem", &["integrated", "navigation"], 0), ("Surveyed", &["surveyed"], 0), ("Galileo", &["galileo"], 0)]),
        l("aid type", &[("NotSpecified", &["not specified"], 0), ("ReferencePoint", &["reference"], 0), ("Racon", &["racon"], 0), ("FixedStructure", &["fixed", "structure"], 0), ("Reserved4", &["reserved"], 0), ("LightWithoutSectors", &["light", "without", "sector"], 0), ("LightWithSectors", &["light", "with ", "sector"], 0),
            ("LeadingLightFront", &["leading", "front"], 0), ("LeadingLightRear", &["leading", "rear"], 0), ("BeaconCardinalNorth", &["cardinal", "beacon", "north"], 0), ("BeaconCardinalEast", &["cardinal", "beacon", "east"], 0), ("BeaconCardinalSouth", &["cardinal", "beacon", "south"], 0), ("BeaconCardinalWest", &["cardinal", "beacon", "west"], 0),
            ("BeaconLateralPort", &["beacon", "port"], 0), ("BeaconLateralStarboard", &["beacon", "starboard"], 0), ("BeaconLateralPreferredChannelPort", &["beacon", "preferred", "port"], 0), ("BeaconLateralPreferredChannelStarboard", &["beacon", "preferred", "starboard"], 0), ("BeaconIsolatedDanger", &["isolated", "danger", "beacon"], 0),
            ("BeaconSafeWater", &["safe", "water"], 3), ("BeaconSpecialMark", &["special", "mark"], 4), ("CardinalMarkNorth", &["cardinal", "mark", "north"], 0), ("CardinalMarkEast", &["cardinal", "mark", "east"], 0), ("CardinalMarkSouth", &["cardinal", "mark", "south"], 0), ("CardinalMarkWest", &["cardinal", "mark", "west"], 0),
            ("PortHandMark", &["port", "mark"], 0), ("StarboardHandMark", &["starboard", "mark"], 0), ("PreferredChannelPort", &["preferred", "port"], 0), ("PreferredChannelStarboard", &["preferred", "starboard"], 0), ("IsolatedDanger", &["isolated", "danger"], 0), ("SafeWater", &["safe", "water"], 3), ("SpecialMark", &["special", "mark"], 4), ("LightVessel", &["light", "vessel"], 0)]),
        l("positioning system", &[("Operative", &["operative"], 0), ("ManualInputMode", &["manual"], 0), ("DeadReckoningMode", &["dead", "reckoning"], 0), ("Inoperative", &["inoperative"], 0)]),
        l("AIS class", &[("ClassA", &[" a"], 0), ("ClassB", &[" b"], 0)]),
        l("station", &[("BaseStation", &["base"], 0), ("DependentAisBaseStation", &["dependent", "base"], 0), ("MobileStation", &["mobile"], 0), ("AidToNavigationStation", &["aid"], 0), ("AisReceivingStation", &["receiving"], 0), ("LimitedBaseStation", &["limited", "base"], 0), ("AisTransmittingStation", &["transmitting"], 0), ("RepeaterStation", &["repeater"], 0), ("Other", &["other"], 0)]),
        l("navigation system", &[("Combination", &["combination"], 0), ("Gps", &["gps"], 0), ("Glonass", &["glonass"], 0), ("Galileo", &["galileo"], 0), ("Beidou", &["beidou"], 0), ("Navic", &["navic"], 0), ("Qzss", &["qzss"], 0), ("Other", &["other"], 0)]),
        l("quality", &[("Invalid", &["invalid"], 0), ("GpsFix", &["gps"], 0), ("DGpsFix", &["dgps"], 0), ("PpsFix", &["pps"], 0), ("RealTimeKinematic", &["real", "kinematic"], 0), ("RealTimeKinematicFloat", &["real", "kinematic", "float"], 0), ("DeadReckoning", &["dead", "reckoning"], 0), ("ManualInputMode", &["manual"], 0), ("SimulationMode", &["simulation"], 0)]),
        l("fix mode", &[("NotAvailable", &["no", "available"], 0), ("Fix2D", &["2d"], 0), ("Fix3D", &["3d"], 0)]),
        l("FAA mode", &[("Autonomous", &["A"], 0), ("Differential", &["D"], 0), ("Estimated", &["E"], 0), ("NotValid", &["N"], 0), ("Simulator", &["S"], 0)]),
    ]
}

/// Texts of a result by list.
fn texts_of(p: &ParsedSentence) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    match p {
        ParsedSentence::VesselStaticData(d) => {
            v.push(("ship type", d.ship_type.to_string()));
            v.push(("cargo type", d.cargo_type.to_string()));
            v.push(("AIS class", d.ais_type.to_string()));
            if let Some(x) = &d.position_fix_type { v.push(("position fix type", x.to_string())); }
        }
        ParsedSentence::VesselDynamicData(d) => {
            v.push(("AIS class", d.ais_type.to_string()));
            v.push(("station", d.station.to_string()));
            if let Some(x) = &d.positioning_system_meta { v.push(("positioning system", x.to_string())); }
        }
        ParsedSentence::BaseStationReport(d) => {
            v.push(("station", d.station.to_string()));
            if let Some(x) = &d.position_fix_type { v.push(("position fix type", x.to_string())); }
        }
        ParsedSentence::AidToNavigationReport(d) => {
            v.push(("station", d.station.to_string()));
            v.push(("aid type", d.aid_type.to_string()));
            if let Some(x) = &d.position_fix_type { v.push(("position fix type", x.to_string())); }
        }
        ParsedSentence::StandardSarAircraftPositionReport(d) => v.push(("station", d.station.to_string())),
        ParsedSentence::BinaryAddressedMessage(d) => v.push(("station", d.station.to_string())),
        ParsedSentence::UtcDateInquiry(d) => v.push(("station", d.station.to_string())),
        ParsedSentence::Gga(d) => { v.push(("navigation system", d.source.to_string())); v.push(("quality", d.quality.to_string())); }
        ParsedSentence::Rmc(d) => v.push(("navigation system", d.source.to_string())),
        ParsedSentence::Gsa(d) => { v.push(("navigation system", d.source.to_string())); if let Some(x) = &d.mode2_3d { v.push(("fix mode", x.to_string())); } }
        ParsedSentence::Gsv(d) => for s in d { v.push(("navigation system", s.source.to_string())); },
        ParsedSentence::Vtg(d) => { v.push(("navigation system", d.source.to_string())); if let Some(x) = &d.faa_mode { v.push(("FAA mode", x.to_string())); } }
        ParsedSentence::Gll(d) => { v.push(("navigation system", d.source.to_string())); if let Some(x) = &d.faa_mode { v.push(("FAA mode", x.to_string())); } }
        _ => {}
    }
    v
}

/// Feeds the sentences and gives the texts of the last result.
fn shown(ss: &[String]) -> Result<Vec<(&'static str, String)>, String> {
    let mut r = Err("no data".to_string());
    let mut p = NmeaParser::new();
    for s in ss {
        let mut t = Err("no data".to_string());
        let o = guarded(s, || { match p.parse_sentence(s) { Ok(ParsedSentence::Incomplete) => {} Ok(d) => t = Ok(texts_of(&d)), Err(e) => t = Err(e.to_string()) } Out::Incomplete });
        if let Out::Panic(m) = o { return Err(m); }
        r = t;
    }
    r
}

/// One execution: the texts expected by list and meaning.
fn texts_right(ctx: &mut Ctx, ls: &[List], seen: &std::sync::Mutex<std::collections::BTreeMap<(usize, String), (usize, String)>>, ss: Vec<String>, exp: &[(&'static str, &'static str)]) {
    clock::set(Some(NOW));
    ctx.calls += ss.len() as u64;
    ctx.case(true, &ss.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    let got = shown(&ss);
    if ctx.samples.is_empty() { ctx.sample(|| format!("{:?} -> {:?}", ss, got)); }
    let steps = || ss.iter().map(|s| Step::at(s, Some(NOW))).collect::<Vec<_>>();
    let got = match got { Ok(g) => g, Err(e) => return ctx.violate("texts.data", steps(), "data".into(), e, String::new()) };
    for (list, meaning) in exp {
        let li = ls.iter().position(|l| l.name == *list).unwrap();
        let ri = ls[li].rows.iter().position(|r| r.0 == *meaning).unwrap();
        let row = &ls[li].rows[ri];
        for (_, t) in got.iter().filter(|g| g.0 == *list) {
            let low = format!(" {} ", if *list == "FAA mode" { t.clone() } else { t.to_lowercase() });
            let exact = *list == "FAA mode";
            if row.1.iter().any(|w| if exact { t != w } else { !low.contains(w) }) {
                return ctx.violate("texts.words", steps(), format!("{} {}: a text with {:?}", list, meaning, row.1), format!("{:?}", t), String::new());
            }
            let mut m = seen.lock().unwrap();
            let e = m.entry((li, t.clone())).or_insert_with(|| (ri, ss.last().unwrap().clone()));
            let other = &ls[li].rows[e.0];
            if e.0 != ri && (other.2 == 0 || other.2 != row.2) {
                let (a, b) = (other.0, e.1.clone());
                drop(m);
                return ctx.violate("texts.same", steps(), format!("{} {}: a text of its own", list, meaning), format!("{:?}, that of {} ({})", t, a, b), String::new());
            }
        }
        if !got.iter().any(|g| g.0 == *list) { return ctx.violate("texts.absent", steps(), format!("{} {}", list, meaning), format!("{:?}", got), String::new()); }
    }
}

pub fn display(run: &mut Run) {
    let th = run.thorough;
    let ls = lists();
    let seen = std::sync::Mutex::new(std::collections::BTreeMap::new());
    let ms = messages();
    let name = |v: V| -> &'static str { match v { V::E(s) => s, _ => unreachable!() } };
    let np = if th { 6 } else { 2 };
    let pres: Vec<Pres> = presentations().into_iter().take(np).collect();
    // Ship and cargo types in both static reports, with every fix type of type 5
    for (mn, off) in [("t5", 232usize), ("t24", T24 + 40)] {
        let m = by_name(&ms, mn);
        let bgs = backgrounds(m, run.seed);
        let rad = [256, 16, bgs.len(), pres.len()];
        run.par(&format!("{}: every ship and cargo type", mn), prod(&rad), |ctx, i| {
            let [v, e, g, p] = digits(i, rad);
            if mn == "t24" && e > 0 { return; }
            let mut b = bgs[g];
            b.set(off, 8, v as u64);
            let mut exp = vec![("ship type", name(ship_type(v as u64))), ("cargo type", name(cargo_type(v as u64))), ("AIS class", if mn == "t5" { "ClassA" } else { "ClassB" })];
            if mn == "t5" { b.set(270, 4, e as u64); if e > 0 { exp.push(("position fix type", EPFD[e])); } }
            texts_right(ctx, &ls, &seen, sentences(m, &b, &pres[p]), &exp);
        });
    }
    // Fix types and aid types of the stations
    let (m4, m21) = (by_name(&ms, "t4"), by_name(&ms, "t21"));
    for (m, off) in [(m4, 134usize), (m21, 43)] {
        let bgs = backgrounds(m, run.seed);
        let rad = [16, 32, bgs.len(), pres.len()];
        run.par(&format!("{}: every fix type", m.name), prod(&rad), |ctx, i| {
            let [e, a, g, p] = digits(i, rad);
            let mut b = bgs[g];
            let off = if m.name == "t21" { m.fields.iter().find(|f| f.out == "position_fix_type").unwrap().off } else { off };
            b.set(off, 4, e as u64);
            let mut exp = vec![];
            if e > 0 { exp.push(("position fix type", EPFD[e])); }
            if m.name == "t21" { b.set(38, 5, a as u64); exp.push(("aid type", AID[a])); } else if a > 0 { return; }
            texts_right(ctx, &ls, &seen, sentences(m, &b, &pres[p]), &exp);
        });
    }
    // Positioning system of every second, and the class
    for mn in ["t1", "t2", "t3", "t18", "t27"] {
        let m = match ms.iter().find(|m| m.name == mn) { Some(m) => m, None => continue };
        let bgs = backgrounds(m, run.seed);
        let rad = [64, bgs.len(), pres.len()];
        run.par(&format!("{}: every second", mn), prod(&rad), |ctx, i| {
            let [v, g, p] = digits(i, rad);
            let mut b = bgs[g];
            let mut exp = vec![("AIS class", if mn == "t18" { "ClassB" } else { "ClassA" })];
            if mn != "t27" && mn != "t18" { b.set(137, 6, v as u64); match v { 0..=59 => exp.push(("positioning system", "Operative")), 61 => exp.push(("positioning system", "ManualInputMode")), 62 => exp.push(("positioning system", "DeadReckoningMode")), 63 => exp.push(("positioning system", "Inoperative")), _ => {} } }
            texts_right(ctx, &ls, &seen, sentences(m, &b, &pres[p]), &exp);
        });
    }
    // Every talker: station and system
    let kinds: Vec<&str> = vec!["t1", "t4", "t6", "t9", "t10", "t18", "t21", "t27"].into_iter().filter(|k| ms.iter().any(|m| m.name == *k)).collect();
    let rad = [26, 26, kinds.len(), 2];
    run.par("stations of every talker", prod(&rad), |ctx, i| {
        let [a, b, k, o] = digits(i, rad);
        let t = format!("{}{}", (b'A' + a as u8) as char, (b'A' + b as u8) as char);
        if a == 15 { return; }
        let m = by_name(&ms, kinds[k]);
        let t: &'static str = Box::leak(t.into_boxed_str());
        let ss = sentences(m, &typical(m), &Pres { talker: t, vdo: o == 1, ..P0 });
        texts_right(ctx, &ls, &seen, ss, &[("station", station_of(t))]);
    });
    let bodies = ["GGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "RMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E", "GSA,A,3,19,28,14,18,27,22,31,39,,,,,1.7,1.0,1.3", "GSV,1,1,02,14,25,170,00,66,57,208,39", "VTG,054.7,T,034.4,M,005.5,N,010.2,K,D", "GLL,4916.45,N,12311.12,W,225444,A,D"];
    let rad = [26, 26, bodies.len(), 2];
    run.par("systems of every talker", prod(&rad), |ctx, i| {
        let [a, b, k, c] = digits(i, rad);
        if a == 15 { return; }
        let t = format!("{}{}", (b'A' + a as u8) as char, (b'A' + b as u8) as char);
        let s = format!("${}{}", t, bodies[k]);
        texts_right(ctx, &ls, &seen, vec![if c == 1 { with_checksum(&s) } else { s }], &[("navigation system", gnss::system(&t))]);
    });
    // Codes of the GNSS sentences with every talker of a system
    let ts = ["GP", "GN", "GL", "GA", "BD", "GI", "QZ", "XX"];
    let rad = [256, ts.len()];
    run.par("every quality, fix mode and FAA mode", prod(&rad), |ctx, i| {
        let [q, t] = digits(i, rad);
        let t = ts[t];
        let q9 = ["Invalid", "GpsFix", "DGpsFix", "PpsFix", "RealTimeKinematic", "RealTimeKinematicFloat", "DeadReckoning", "ManualInputMode", "SimulationMode"];
        texts_right(ctx, &ls, &seen, vec![format!("${}GGA,123519,,,,,{},08,0.9,545.4,M,46.9,M,,", t, q)], &[("quality", q9.get(q).copied().unwrap_or("Invalid"))]);
        if (1..4).contains(&q) { for md in ["A", "M"] { texts_right(ctx, &ls, &seen, vec![format!("${}GSA,{},{},19,,,,,,,,,,,,1.7,1.0,1.3", t, md, q)], &[("fix mode", ["NotAvailable", "Fix2D", "Fix3D"][q - 1])]); } }
        if q < 5 {
            let (l, n) = [("A", "Autonomous"), ("D", "Differential"), ("E", "Estimated"), ("N", "NotValid"), ("S", "Simulator")][q];
            texts_right(ctx, &ls, &seen, vec![format!("${}VTG,054.7,T,034.4,M,005.5,N,010.2,K,{}", t, l)], &[("FAA mode", n)]);
            for v in ["A", "V"] { texts_right(ctx, &ls, &seen, vec![format!("${}GLL,,,,,225444,{},{}", t, v, l)], &[("FAA mode", n)]); }
        }
    });
    run.notes.push(format!("{} different texts of {} lists", seen.lock().unwrap().len(), ls.len()));
}

// ------------------------------------------------------------------------------------ C24

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why { Corrupted, Unsupported, Invalid, /// an error, of either kind that is not about the checksum
    Some }

/// The sentences must end in an error of the kind, that carries a text which is its string.
fn failing(ctx: &mut Ctx, ss: &[&str], why: Why) {
    clock::set(Some(NOW));
    ctx.calls += ss.len() as u64;
    ctx.case(true, ss);
    let mut p = NmeaParser::new();
    let mut last = (Out::Incomplete, None);
    for s in ss {
        let mut text = None;
        let o = guarded(s, || match p.parse_sentence(s) {
            Ok(ParsedSentence::Incomplete) => Out::Incomplete,
            Ok(d) => flatten(&d),
            Err(e) => {
                let shown = e.to_string();
                let (k, inner) = match &e { ParseError::UnsupportedSentenceType(t) => (EK::Unsupported, t.clone()), ParseError::CorruptedSentence(t) => (EK::Corrupted, t.clone()), ParseError::InvalidSentence(t) => (EK::Invalid, t.clone()), #[allow(unreachable_patterns)] _ => (EK::Invalid, shown.clone()) };
                text = Some((shown, inner));
                Out::Err(k)
            }
        });
        last = (o, text);
    }
    ctx.tally(&last.0);
    if ctx.samples.is_empty() { ctx.sample(|| format!("{:?} -> {:?}", ss, last)); }
    let ok = match (&last.0, why) { (Out::Err(EK::Corrupted), Why::Corrupted) | (Out::Err(EK::Unsupported), Why::Unsupported | Why::Some) | (Out::Err(EK::Invalid), Why::Invalid | Why::Some) => true, _ => false };
    let steps = || ss.iter().map(|s| Step::at(s, Some(NOW))).collect::<Vec<_>>();
    if !ok { return ctx.violate("kind", steps(), format!("an error of kind {:?}", why), last.0.short(), String::new()); }
    if let Some((a, b)) = &last.1 { if a != b || a.trim().is_empty() { ctx.violate("text", steps(), "an error with a text that is its string".into(), format!("{:?} and {:?}", a, b), String::new()); } }
}
fn wrong_sum(s: &str, how: usize) -> String {
    let x = s.bytes().skip(1).fold(0u8, |a, b| a ^ b);
    match how { 0 => format!("{}*{:02X}", s, x ^ 1), 1 => format!("{}*{:02X}", s, x ^ 0x80), _ => format!("{}*ZZ", s) }
}

pub fn errors(run: &mut Run) {
    let th = run.thorough;
    // Every formatter the parser has no support for, behind both delimiters
    let tails = [",", ",1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", ",x,-1,,,~,", ",2,1,08,14,25,170,00"];
    let ts = ["GP", "AI", "GN", "BS", "XX", "HC"];
    let rad = [26, 26, 26, 2, ts.len(), 5];
    run.par("every unknown formatter", prod(&rad), |ctx, i| {
        let [a, b, c, d, t, k] = digits(i, rad);
        if !th && (t + a + b + c) % 3 != 0 { return; }
        let f: String = [a, b, c].iter().map(|&x| (b'A' + x as u8) as char).collect();
        if ["GGA", "RMC", "GSA", "GSV", "VTG", "GLL", "VDM", "VDO"].contains(&f.as_str()) { return; }
        let s = format!("{}{}{}{}", ['$', '!'][d], ts[t], f, tails[k % 4]);
        match k { 4 => { failing(ctx, &[&with_checksum(&s)], Why::Unsupported); failing(ctx, &[&wrong_sum(&s, (a + b) % 3)], Why::Corrupted) } _ => failing(ctx, &[&s], Why::Unsupported) }
    });
    // Every talker
    let fs = ["ALM", "HDT", "TRF", "STN", "VBW", "XTC", "XTE", "ZDA", "BOD", "RMA", "DBT", "ABK", "VSD", "TXT", "AAA"];
    let rad = [26, 26, fs.len(), 2, 3];
    run.par("every talker of an unsupported sentence", prod(&rad), |ctx, i| {
        let [a, b, f, d, k] = digits(i, rad);
        let s = format!("{}{}{}{},1,2,3", ['$', '!'][d], (b'A' + a as u8) as char, (b'A' + b as u8) as char, fs[f]);
        match k { 0 => failing(ctx, &[&s], Why::Unsupported), 1 => failing(ctx, &[&with_checksum(&s)], Why::Unsupported), _ => failing(ctx, &[&wrong_sum(&s, a % 3)], Why::Corrupted) }
    });
    // AIS message types without support, of every length and form; supported ones with what is invalid in them
    let rad = [64, 73, 4, 4, 2];
    run.par("every AIS message type", prod(&rad), |ctx, i| {
        let [ty, len, bg, form, own] = digits(i, rad);
        let mut b = Bits::zeros(6 * len + 6);
        for k in 0..b.len { b.put(k, [0, 1, (k % 3 == 0) as u64, (k * 7 % 11 < 5) as u64][bg]); }
        b.set(0, 6, ty as u64);
        let pay = armour(&b);
        let o = ["VDM", "VDO"][own];
        let known = super::aismisc::kind_of(ty as u64).is_some() || ty == 24;
        if form < 3 {
            if known { return; }
            let k = 1.max(pay.len() / 2);
            if form > 0 && pay.len() < 2 { return; }
            let one = format!("!AI{},1,1,,A,{},0", o, pay);
            let (x, y) = (format!("!AI{},2,1,5,A,{},0", o, &pay[..k]), format!("!AI{},2,2,5,A,{},0", o, &pay[k..]));
            match form { 0 => { failing(ctx, &[&one], Why::Unsupported); failing(ctx, &[&with_checksum(&one)], Why::Unsupported); failing(ctx, &[&wrong_sum(&one, len % 3)], Why::Corrupted); } 1 => failing(ctx, &[&x, &y], Why::Unsupported), _ => failing(ctx, &[&y, &x], Why::Unsupported) }
        } else if known {
            for c in ["X", "_", "~", " ", "é"] {
                for at in [0, pay.len() / 2, pay.len() - 1, pay.len()] {
                    let bad = format!("{}{}{}", &pay[..at], c, &pay[at..]);
                    let one = format!("!AI{},1,1,,A,{},0", o, bad);
                    failing(ctx, &[&one], Why::Invalid);
                    if c == "~" && at > 0 {
                        failing(ctx, &[&with_checksum(&one)], Why::Invalid);
                        failing(ctx, &[&wrong_sum(&one, len % 3)], Why::Corrupted);
                        let (x, y) = (format!("!AI{},2,1,5,A,{},0", o, &bad[..at]), format!("!AI{},2,2,5,A,{},0", o, &bad[at..]));
                        failing(ctx, &[&x, &y], Why::Invalid);
                        failing(ctx, &[&y, &x], Why::Invalid);
                    }
                }
            }
        }
    });
    // Counts and part numbers
    let nums = ["", "x", "1x", "-1", "1.0", "256", "999", "65537", "4294967297", "18446744073709551617", " 1", "1 ", "é", "²", "0x1", "A", "1e0", "٣"];
    let p = "15RTgt0PAso;90TKcjM8h6g208CQ";
    let rad = [nums.len(), nums.len() + 1, 4, 2];
    run.par("malformed counts and part numbers", prod(&rad), |ctx, i| {
        let [a, b, form, c] = digits(i, rad);
        let n1 = nums[a];
        let n2 = if b == 0 { "1" } else { nums[b - 1] };
        let s = match form {
            0 => format!("!AIVDM,{},{},1,A,{},0", n1, n2, p),
            1 => format!("!BSVDO,{},{},1,B,{},0", n2, n1, p),
            2 => format!("$GPGSV,{},{},08,14,25,170,00", n1, n2),
            _ => format!("$GLGSV,{},{},08,14,25,170,00", n2, n1),
        };
        if form == 3 && n1.is_empty() && n2 == "1" && false { return; }
        if c == 1 { if !s.is_ascii() { return; } failing(ctx, &[&with_checksum(&s)], Why::Invalid); failing(ctx, &[&wrong_sum(&s, a % 3)], Why::Corrupted); } else { failing(ctx, &[&s], Why::Invalid); }
    });
    let rad = [260, 260];
    run.par("satellite-view part numbers out of range", prod(&rad), |ctx, i| {
        let [n, k] = digits(i, rad);
        if n < 256 && k >= 1 && k <= n { return; }
        let s = format!("$GPGSV,{},{},08,14,25,170,00", n, k);
        failing(ctx, &[&s], Why::Invalid);
        if k % 16 == n % 16 { failing(ctx, &[&with_checksum(&s)], Why::Invalid); failing(ctx, &[&wrong_sum(&s, n % 3)], Why::Corrupted); }
    });
    // Fields of GNSS sentences that are rejected, alone and in pairs
    for (form, l) in layouts() {
        let n = l.len();
        let usual: Vec<&str> = l.iter().map(|&k| menu(k)[0]).collect();
        let mut one: Vec<(usize, &str)> = vec![];
        for (i, &k) in l.iter().enumerate() { for v in menu(k) { one.push((i, v)); } }
        let rad = [one.len(), one.len() + 1, 2];
        run.par(&format!("{}: rejected fields", form), prod(&rad), |ctx, i| {
            let [a, b, base] = digits(i, rad);
            let mut f = if base == 0 { usual.clone() } else { vec![""; n] };
            f[one[a].0] = one[a].1;
            if b > 0 { if one[b - 1].0 <= one[a].0 || (!th && (a + b) % 4 != 0) { return; } f[one[b - 1].0] = one[b - 1].1; }
            let s = format!("$GP{},{}", form, f.join(","));
            if !matches!(gnss::reference(&s, NOW), Ok(gnss::Exp::Err)) { return; }
            failing(ctx, &[&s], Why::Invalid);
            if s.is_ascii() && b == 0 { failing(ctx, &[&with_checksum(&s)], Why::Invalid); failing(ctx, &[&wrong_sum(&s, a % 3)], Why::Corrupted); }
        });
    }
    // Type 24 part numbers, every vessel of a few, every background
    let rad = [2, 60, 64, 2];
    run.par("static report parts that do not exist", prod(&rad), |ctx, i| {
        let [part, m, bg, own] = digits(i, rad);
        let mut b = Bits::zeros(168);
        for k in 0..168 { b.put(k, (bg >> (k % 6) & 1) as u64); }
        b.set(0, 6, 24);
        b.set(8, 30, [230_123_450, 982_301_234, 0, 1, (1 << 30) - 1][m % 5] ^ (m / 5) as u64);
        b.set(38, 2, part as u64 + 2);
        let ss = sentences_of(&b, &Pres { vdo: own == 1, ..P0 });
        failing(ctx, &ss.iter().map(|s| s.as_str()).collect::<Vec<_>>(), Why::Invalid);
    });
    // No comma
    let co = corpus();
    let rad = [co.len(), 120, 3];
    run.par("nothing with a comma", prod(&rad), |ctx, i| {
        let [c, n, k] = digits(i, rad);
        let s: String = co[c].replace(',', ["", ";", " "][k]).chars().take(n).collect();
        failing(ctx, &[&s], Why::Invalid);
        if s.len() > 1 { failing(ctx, &[&with_checksum(&s)], Why::Invalid); failing(ctx, &[&wrong_sum(&s, n % 3)], Why::Corrupted); }
    });
    // Malformed headers: an error that is not about the checksum
    let heads = ["$", "!", "$G", "$GP", "$GPG", "$GPGG", "!AIVD", "!AI", "$GPGGAX", "!AIVDMX", "GPGGA", "AIVDM", "#GPGGA", "$gpgga", "$GPgga", "!aivdm", "$AIVDM", "!GPGGA", "$éGGA", "!éVDM", "", " ", "$GPGGA ", " $GPGGA", "$PGRME", "$PASHR", "$$GGA"];
    let rad = [heads.len(), co.len()];
    run.par("malformed headers", prod(&rad), |ctx, i| {
        let [h, c] = digits(i, rad);
        let t = match co[c].split_once(',') { Some((_, t)) => t, None => return };
        if heads[h].contains('é') { return; }
        let s = format!("{},{}", heads[h], t);
        failing(ctx, &[&s], Why::Some);
        if s.len() > 1 { failing(ctx, &[&with_checksum(&s)], Why::Some); failing(ctx, &[&wrong_sum(&s, h % 3)], Why::Corrupted); }
    });
}
