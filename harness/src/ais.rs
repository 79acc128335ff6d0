//! Reference model of the AIS messages: bit layouts and meanings of ITU-R M.1371 as the documentation
//! of the crate describes them, written independently of the code under test.
use crate::clock;
use crate::engine::*;
use crate::obs::*;
use nmea_parser::NmeaParser;

// ------------------------------------------------------------------------------------ bits

pub const NW: usize = 10;
#[derive(Clone, Copy, PartialEq)]
pub struct Bits { pub w: [u64; NW], pub len: usize }
impl Bits {
    pub fn zeros(len: usize) -> Bits { assert!(len <= NW * 64); Bits { w: [0; NW], len } }
    #[inline]
    pub fn bit(&self, i: usize) -> u64 { if i < self.len { self.w[i >> 6] >> (63 - (i & 63)) & 1 } else { 0 } }
    #[inline]
    pub fn put(&mut self, i: usize, v: u64) {
        let m = 1u64 << (63 - (i & 63));
        if v & 1 != 0 { self.w[i >> 6] |= m } else { self.w[i >> 6] &= !m }
    }
    pub fn get(&self, off: usize, len: usize) -> u64 {
        let mut r = 0;
        for i in off..off + len { r = r << 1 | self.bit(i); }
        r
    }
    pub fn geti(&self, off: usize, len: usize) -> i64 {
        let u = self.get(off, len) as i64;
        if u >> (len - 1) & 1 != 0 { u - (1i64 << len) } else { u }
    }
    pub fn set(&mut self, off: usize, len: usize, v: u64) {
        for k in 0..len { self.put(off + k, v >> (len - 1 - k)); }
    }
    pub fn slice(&self, off: usize, len: usize) -> Bits {
        let mut b = Bits::zeros(len);
        for i in 0..len { b.put(i, self.bit(off + i)); }
        b
    }
}

pub fn armour_char(v: u64) -> char { (if v < 40 { v as u8 + 48 } else { v as u8 + 56 }) as char }
pub fn armour(b: &Bits) -> String {
    let mut s = String::with_capacity(b.len / 6 + 2);
    let mut i = 0;
    while i < b.len { s.push(armour_char(b.get(i, 6))); i += 6; }
    s
}
/// Fill bits of a payload of `len` bits.
pub fn fill(len: usize) -> usize { (6 - len % 6) % 6 }

pub fn with_checksum(body: &str) -> String {
    let x = body.bytes().skip(1).fold(0u8, |a, b| a ^ b);
    format!("{}*{:02X}", body, x)
}

// ------------------------------------------------------------------------------------ decode

pub const LAT_NA: u64 = 0x3412140;
pub const LON_NA: u64 = 0x6791AC0;

pub fn code_list(list: &'static [&'static str], i: u64) -> V { V::E(list[i as usize]) }
pub const NAV: [&str; 16] = ["UnderWayUsingEngine", "AtAnchor", "NotUnderCommand", "RestrictedManoeuverability",
    "ConstrainedByDraught", "Moored", "Aground", "EngagedInFishing", "UnderWaySailing", "Reserved9", "Reserved10",
    "Reserved11", "Reserved12", "Reserved13", "AisSartIsActive", "NotDefined"];
pub const EPFD: [&str; 16] = ["Undefined", "GPS", "GLONASS", "GPSGLONASS", "LoranC", "Chayka", "IntegratedNavigationSystem",
    "Surveyed", "Galileo", "Undefined", "Undefined", "Undefined", "Undefined", "Undefined", "Undefined", "Undefined"];
pub const AID: [&str; 32] = ["NotSpecified", "ReferencePoint", "Racon", "FixedStructure", "Reserved4", "LightWithoutSectors",
    "LightWithSectors", "LeadingLightFront", "LeadingLightRear", "BeaconCardinalNorth", "BeaconCardinalEast",
    "BeaconCardinalSouth", "BeaconCardinalWest", "BeaconLateralPort", "BeaconLateralStarboard",
    "BeaconLateralPreferredChannelPort", "BeaconLateralPreferredChannelStarboard", "BeaconIsolatedDanger",
    "BeaconSafeWater", "BeaconSpecialMark", "CardinalMarkNorth", "CardinalMarkEast", "CardinalMarkSouth",
    "CardinalMarkWest", "PortHandMark", "StarboardHandMark", "PreferredChannelPort", "PreferredChannelStarboard",
    "IsolatedDanger", "SafeWater", "SpecialMark", "LightVessel"];
pub fn ship_type(v: u64) -> V {
    V::E(match v {
        10..=19 => "Reserved1", 20..=29 => "WingInGround", 30 => "Fishing", 31 => "Towing", 32 => "TowingLong",
        33 => "DredgingOrUnderwaterOps", 34 => "DivingOps", 35 => "MilitaryOps", 36 => "Sailing", 37 => "PleasureCraft",
        38 => "Reserved38", 39 => "Reserved39", 40..=49 => "HighSpeedCraft", 50 => "Pilot", 51 => "SearchAndRescue",
        52 => "Tug", 53 => "PortTender", 54 => "AntiPollutionEquipment", 55 => "LawEnforcement", 56 => "SpareLocal56",
        57 => "SpareLocal57", 58 => "MedicalTransport", 59 => "Noncombatant", 60..=69 => "Passenger", 70..=79 => "Cargo",
        80..=89 => "Tanker", 90..=99 => "Other", _ => "NotAvailable",
    })
}
pub fn cargo_type(v: u64) -> V {
    let has = matches!(v / 10, 1 | 2 | 4 | 6 | 7 | 8 | 9);
    V::E(if !has { "Undefined" } else {
        ["Undefined", "HazardousCategoryA", "HazardousCategoryB", "HazardousCategoryC", "HazardousCategoryD", "Reserved5",
            "Reserved6", "Reserved7", "Reserved8", "Reserved9"][(v % 10) as usize]
    })
}
/// Six-bit text: up to the end mark, without trailing blanks.
pub fn text(b: &Bits, off: usize, chars: usize) -> String {
    let mut s = String::new();
    for k in 0..chars {
        match b.get(off + 6 * k, 6) as u8 {
            0 => break,
            c @ 1..=31 => s.push((b'@' + c) as char),
            c => s.push(c as char),
        }
    }
    s.trim_end_matches(' ').to_string()
}
fn some_text(s: String) -> V { if s.is_empty() { V::Non } else { V::S(s) } }

// ------------------------------------------------------------------------------------ calendar (independent of chrono)

pub fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub fn mdays(y: i64, m: i64) -> i64 { [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize] }
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
/// Seconds since 1970 of a civil UTC moment, or None if it does not exist.
pub fn moment(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> Option<i64> {
    if !(1..=12).contains(&mo) || d < 1 || d > mdays(y, mo) || !(0..24).contains(&h) || !(0..60).contains(&mi) || !(0..60).contains(&s) {
        return None;
    }
    Some(days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s)
}
/// (year, month, day, hour, minute, second) of seconds since 1970.
pub fn civil(t: i64) -> (i64, i64, i64, i64, i64, i64) {
    let dn = t.div_euclid(86400);
    let r = t.rem_euclid(86400);
    let z = dn + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    (y, m, d, r / 3600, r % 3600 / 60, r % 60)
}

/// ETA rule: month/day/hour/minute codes, filled second of the end-of-day/hour rule, now.
/// In the very second that the clock shows, `same` decides (open whether a fraction of a second makes it past).
pub fn eta(mo: u64, d: u64, h: u64, mi: u64, sec: i64, now: i64, same: bool) -> V {
    if mo == 0 && d == 0 && h == 24 && mi == 60 { return V::Non; }
    let n = civil(now);
    let mo = if mo == 0 { n.1 } else { mo as i64 };
    let d = if d == 0 { n.2 } else { d as i64 };
    let (mut h, mut mi, mut s) = (h as i64, mi as i64, sec);
    if h == 24 { h = 23; mi = 59; s = 59; }
    if mi == 60 { mi = 59; s = 59; }
    for y in [n.0, n.0 + 1] {
        if let Some(t) = moment(y, mo, d, h, mi, s) {
            if t > now || t == now && same { return V::T(t, 0); }
            if y > n.0 { return V::T(t, 0); }
        }
    }
    V::Non
}

// ------------------------------------------------------------------------------------ messages

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cat { Pos, Kin, Id, Text, Code, Bits, Time }

#[derive(Clone, Copy)]
pub struct Env { pub now: i64, pub vdo: bool, pub talker: &'static str }

type Dec = Box<dyn Fn(&Bits, &Env) -> V + Sync + Send>;
pub struct Field {
    pub out: &'static str,
    pub cat: Cat,
    pub off: usize,
    pub len: usize,
    pub menu: Vec<u64>,
    pub dec: Dec,
    /// A second accepted value (where the documentation leaves two readings).
    pub alt: Option<Dec>,
    /// Recorded genuine defect: (key of known-findings.txt, the faulty value).
    pub known: Option<(&'static str, Dec)>,
}
pub struct Msg {
    pub name: &'static str,
    pub ty: u64,
    pub nbits: usize,
    pub kind: &'static str,
    pub fields: Vec<Field>,
}

pub fn station_of(t: &str) -> &'static str {
    match t {
        "AB" => "BaseStation", "AD" => "DependentAisBaseStation", "AI" => "MobileStation", "AN" => "AidToNavigationStation",
        "AR" => "AisReceivingStation", "AS" => "LimitedBaseStation", "AT" => "AisTransmittingStation", "AX" => "RepeaterStation",
        _ => "Other",
    }
}

fn default_menu(len: usize) -> Vec<u64> {
    let max = if len == 0 { 0 } else { (1u64 << len) - 1 };
    let mut v = match len {
        0 => vec![],
        1 => vec![0, 1],
        2 => vec![0, 1, 2, 3],
        3..=4 => vec![0, 1, max >> 1, (max >> 1) + 1, max - 1, max],
        _ => vec![0, 1, 2, max >> 1, (max >> 1) + 1, max - 1, max, max / 3, max - max / 3, 100 & max],
    };
    v.sort();
    v.dedup();
    v
}

struct B { f: Vec<Field> }
impl B {
    fn add(&mut self, out: &'static str, cat: Cat, off: usize, len: usize, extra: &[u64], dec: impl Fn(&Bits, &Env) -> V + Sync + Send + 'static) -> &mut B {
        let mut menu = default_menu(len);
        for &e in extra { for x in [e.wrapping_sub(1), e, e + 1] { if len > 0 && x < 1 << len { menu.push(x) } } }
        menu.sort();
        menu.dedup();
        self.f.push(Field { out, cat, off, len, menu, dec: Box::new(dec), alt: None, known: None });
        self
    }
    fn alt(&mut self, dec: impl Fn(&Bits, &Env) -> V + Sync + Send + 'static) -> &mut B {
        self.f.last_mut().unwrap().alt = Some(Box::new(dec));
        self
    }
    fn known(&mut self, key: &'static str, dec: impl Fn(&Bits, &Env) -> V + Sync + Send + 'static) -> &mut B {
        self.f.last_mut().unwrap().known = Some((key, Box::new(dec)));
        self
    }
    fn konst(&mut self, out: &'static str, cat: Cat, v: V) -> &mut B { self.add(out, cat, 0, 0, &[], move |_, _| v.clone()) }
    fn none(&mut self, cat: Cat, outs: &[&'static str]) -> &mut B {
        for o in outs { self.konst(o, cat, V::Non); }
        self
    }
    fn flag(&mut self, out: &'static str, off: usize) -> &mut B { self.add(out, Cat::Bits, off, 1, &[], move |b, _| V::B(b.bit(off) != 0)) }
    fn num(&mut self, out: &'static str, off: usize, len: usize) -> &mut B { self.add(out, Cat::Bits, off, len, &[], move |b, _| V::I(b.get(off, len) as i64)) }
    fn mmsi(&mut self, out: &'static str, off: usize) -> &mut B {
        self.add(out, Cat::Id, off, 30, &[201_000_000, 209_999_999, 271_041_815, 970_000_000, 980_000_000, 981_234_567, 990_000_000, 999_999_999, 1_000_000_000],
            move |b, _| V::I(b.get(off, 30) as i64))
    }
    fn head(&mut self, station: bool, class: Option<&'static str>) -> &mut B {
        self.mmsi("mmsi", 8);
        self.own(station, class)
    }
    fn own(&mut self, station: bool, class: Option<&'static str>) -> &mut B {
        self.add("own_vessel", Cat::Id, 0, 0, &[], |_, e| V::B(e.vdo));
        if station { self.add("station", Cat::Id, 0, 0, &[], |_, e| V::E(station_of(e.talker))); }
        if let Some(c) = class { self.konst("ais_type", Cat::Id, V::E(c)); }
        self
    }
    fn pos(&mut self, lon: usize, lat: usize) -> &mut B {
        for o in ["longitude", "acc_longitude"] {
            self.add(o, Cat::Pos, lon, 28, &[LON_NA, 108_000_000, (1 << 28) - 108_000_000, (1 << 28) - LON_NA, LAT_NA, 54_000_000], move |b, _| {
                let r = b.geti(lon, 28);
                if r == LON_NA as i64 { V::Non } else { V::F(r as f64 / 600000.0) }
            });
        }
        for o in ["latitude", "acc_latitude"] {
            self.add(o, Cat::Pos, lat, 27, &[LAT_NA, 54_000_000, (1 << 27) - 54_000_000, (1 << 27) - LAT_NA], move |b, _| {
                let r = b.geti(lat, 27);
                if r == LAT_NA as i64 { V::Non } else { V::F(r as f64 / 600000.0) }
            });
        }
        self
    }
    fn scaled(&mut self, out: &'static str, off: usize, len: usize, na: u64, scale: f64, extra: &[u64]) -> &mut B {
        let mut e = extra.to_vec();
        e.push(na);
        self.add(out, Cat::Kin, off, len, &e, move |b, _| {
            let r = b.get(off, len);
            if r == na { V::Non } else { V::F(r as f64 * scale) }
        })
    }
    fn kin_int(&mut self, out: &'static str, off: usize, len: usize, na: u64) -> &mut B {
        self.add(out, Cat::Kin, off, len, &[na], move |b, _| {
            let r = b.get(off, len);
            if r == na { V::Non } else { V::I(r as i64) }
        })
    }
    fn txt(&mut self, out: &'static str, off: usize, chars: usize) -> &mut B {
        self.add(out, Cat::Text, off, 6 * chars, &[], move |b, _| some_text(text(b, off, chars)));
        self.f.last_mut().unwrap().menu = text_menu(chars);
        self
    }
    fn ship(&mut self, off: usize) -> &mut B {
        self.add("ship_type", Cat::Code, off, 8, &[10, 29, 39, 50, 79, 89, 99], move |b, _| ship_type(b.get(off, 8)));
        self.add("cargo_type", Cat::Code, off, 8, &[10, 29, 39, 50, 79, 89, 99], move |b, _| cargo_type(b.get(off, 8)))
    }
    fn fix(&mut self, off: usize, none0: bool) -> &mut B {
        self.add("position_fix_type", Cat::Code, off, 4, &[8], move |b, _| {
            let r = b.get(off, 4);
            if r == 0 && none0 { V::Non } else { code_list(&EPFD, r) }
        })
    }
    fn dims(&mut self, o: usize) -> &mut B {
        self.num("dimension_to_bow", o, 9).num("dimension_to_stern", o + 9, 9).num("dimension_to_port", o + 18, 6).num("dimension_to_starboard", o + 24, 6)
    }
}

/// Menus of long text fields are packed codes of their first ten characters (enough for presence and trimming).
fn text_menu(_chars: usize) -> Vec<u64> { vec![] }

fn msg(name: &'static str, ty: u64, nbits: usize, kind: &'static str, b: B) -> Msg { Msg { name, ty, nbits, kind, fields: b.f } }

pub const CLASS_B_FLAGS: [&str; 7] = ["class_b_unit_flag", "class_b_display", "class_b_dsc", "class_b_band_flag", "class_b_msg22_flag", "class_b_mode_flag", "class_b_css_flag"];

/// In the type 24 model part B follows part A: bit 168+i is bit i of part B.
pub const T24: usize = 168;

pub fn messages() -> Vec<Msg> {
    let mut v = vec![];
    for (name, ty) in [("t1", 1), ("t2", 2), ("t3", 3)] {
        let mut b = B { f: vec![] };
        b.head(true, Some("ClassA"));
        b.add("nav_status", Cat::Code, 38, 4, &[], |b, _| code_list(&NAV, b.get(38, 4)));
        b.add("rot", Cat::Kin, 42, 8, &[126, 127, 128, 129, 130], |b, _| {
            let r = b.geti(42, 8);
            if r.abs() <= 126 { let x = r as f64 / 4.733; V::F(if r < 0 { -(x * x) } else { x * x }) } else { V::Non }
        });
        b.add("rot_direction", Cat::Kin, 42, 8, &[], |b, _| {
            let r = b.geti(42, 8);
            if r == -128 { V::Non } else { V::I(if r <= -2 { -1 } else if r >= 2 { 1 } else { 0 }) }
        });
        b.scaled("sog_knots", 50, 10, 1023, 0.1, &[1022]);
        b.flag("high_position_accuracy", 60);
        b.pos(61, 89);
        b.scaled("cog", 116, 12, 3600, 0.1, &[3599]);
        b.scaled("heading_true", 128, 9, 511, 1.0, &[359, 360]);
        b.num("timestamp_seconds", 137, 6);
        b.add("positioning_system_meta", Cat::Code, 137, 6, &[60, 62], |b, _| match b.get(137, 6) {
            60 => V::Non, 61 => V::E("ManualInputMode"), 62 => V::E("DeadReckoningMode"), 63 => V::E("Inoperative"), _ => V::E("Operative"),
        });
        b.add("special_manoeuvre", Cat::Code, 143, 2, &[], |b, _| match b.get(143, 2) { 1 => V::B(false), 2 => V::B(true), _ => V::Non });
        b.flag("raim_flag", 148).num("radio_status", 149, 19);
        b.none(Cat::Bits, &["current_gnss_position"]).none(Cat::Bits, &CLASS_B_FLAGS);
        v.push(msg(name, ty, 168, "Dynamic", b));
    }
    {
        let mut b = B { f: vec![] };
        b.head(true, None);
        b.add("timestamp", Cat::Time, 38, 40, &[], |b, _| {
            let y = b.get(38, 14) as i64;
            match moment(y, b.get(52, 4) as i64, b.get(56, 5) as i64, b.get(61, 5) as i64, b.get(66, 6) as i64, b.get(72, 6) as i64) {
                Some(t) if y > 0 => V::T(t, 0),
                _ => V::Non,
            }
        });
        // Years above 9999 cannot be transmitted legally; absent is fine too.
        b.alt(|b, _| {
            let y = b.get(38, 14) as i64;
            match moment(y, b.get(52, 4) as i64, b.get(56, 5) as i64, b.get(61, 5) as i64, b.get(66, 6) as i64, b.get(72, 6) as i64) {
                Some(t) if y > 0 && y < 10000 => V::T(t, 0),
                _ => V::Non,
            }
        });
        // 2023-11-14 22:13:20 and near misses of a real moment
        b.f.last_mut().unwrap().menu = [(2023, 11, 14, 22, 13, 20), (0, 0, 0, 24, 60, 60), (2024, 2, 29, 0, 0, 0), (2023, 2, 29, 0, 0, 0), (2023, 12, 31, 23, 59, 59), (2023, 6, 31, 1, 1, 1), (1, 1, 1, 0, 0, 0)]
            .iter().map(|&(y, m, d, h, n, s)| (((((y << 4 | m) << 5 | d) << 5 | h) << 6 | n) << 6 | s) as u64).collect();
        b.flag("high_position_accuracy", 78);
        b.pos(79, 107);
        b.fix(134, true);
        b.flag("raim_flag", 148).num("radio_status", 149, 19);
        v.push(msg("t4", 4, 168, "Base", b));
    }
    {
        let mut b = B { f: vec![] };
        b.head(false, Some("ClassA"));
        b.num("ais_version_indicator", 38, 2);
        b.add("imo_number", Cat::Id, 40, 30, &[1_000_000, 9_999_999, 999_999_999], |b, _| { let r = b.get(40, 30); if r == 0 { V::Non } else { V::I(r as i64) } });
        b.txt("call_sign", 70, 7).txt("name", 112, 20);
        b.ship(232).dims(240).fix(270, true);
        b.add("eta", Cat::Time, 274, 20, &[], |b, e| {
            eta(b.get(274, 4), b.get(278, 5), b.get(283, 5), b.get(288, 6), 0, e.now, crate::clock::nanos(e.now) == 0)
        });
        b.alt(|b, e| eta(b.get(274, 4), b.get(278, 5), b.get(283, 5), b.get(288, 6), 0, e.now, true));
        b.known("t5.eta-seconds-from-draught", |b, e| {
            eta(b.get(274, 4), b.get(278, 5), b.get(283, 5), b.get(288, 6), (b.get(294, 6) as i64).min(59), e.now, crate::clock::nanos(e.now) == 0)
        });
        b.f.last_mut().unwrap().menu = [(0, 0, 24, 60), (5, 14, 20, 10), (2, 29, 12, 0), (2, 30, 1, 1), (12, 31, 23, 59), (1, 1, 0, 0), (0, 1, 24, 60), (15, 31, 31, 63)]
            .iter().map(|&(m, d, h, n)| (((m << 5 | d) << 5 | h) << 6 | n) as u64).collect();
        b.num("draught10", 294, 8);
        b.txt("destination", 302, 20);
        b.none(Cat::Text, &["equipment_vendor_id"]).none(Cat::Bits, &["equipment_model", "equipment_serial_number"]).none(Cat::Id, &["mothership_mmsi"]);
        v.push(msg("t5", 5, 424, "Static", b));
    }
    {
        let mut b = B { f: vec![] };
        b.head(true, None);
        b.num("sequence_number", 38, 2);
        b.mmsi("destination_mmsi", 40);
        b.flag("retransmit_flag", 70).num("dac", 72, 10).num("fid", 82, 6);
        b.none(Cat::Pos, &["acc_latitude", "acc_longitude"]);
        v.push(msg("t6", 6, 168, "Binary", b));
    }
    {
        let mut b = B { f: vec![] };
        b.head(true, None);
        b.kin_int("altitude", 38, 12, 4095).kin_int("sog_knots", 50, 10, 1023);
        b.flag("high_position_accuracy", 60);
        b.pos(61, 89);
        b.scaled("cog", 116, 12, 3600, 0.1, &[3599]);
        b.num("timestamp_seconds", 128, 6).num("regional", 134, 8);
        b.add("dte", Cat::Bits, 142, 1, &[], |b, _| V::B(b.bit(142) == 0));
        b.flag("assigned", 146).flag("raim_flag", 147).num("radio_status", 148, 20);
        v.push(msg("t9", 9, 168, "Sar", b));
    }
    {
        let mut b = B { f: vec![] };
        b.mmsi("source_mmsi", 8).mmsi("destination_mmsi", 40).own(true, None);
        v.push(msg("t10", 10, 72, "Utc", b));
    }
    {
        let mut b = B { f: vec![] };
        b.head(true, Some("ClassB"));
        b.konst("nav_status", Cat::Code, V::E("NotDefined"));
        b.none(Cat::Kin, &["rot", "rot_direction"]);
        b.scaled("sog_knots", 46, 10, 1023, 0.1, &[1022]);
        b.flag("high_position_accuracy", 56);
        b.pos(57, 85);
        b.scaled("cog", 112, 12, 3600, 0.1, &[3599]);
        b.scaled("heading_true", 124, 9, 511, 1.0, &[359, 360]);
        b.num("timestamp_seconds", 133, 6);
        b.konst("special_manoeuvre", Cat::Code, V::Non);
        b.none(Cat::Bits, &["current_gnss_position"]);
        // The crate leaves the unit and the communication state selector flag out; the transmitted bit would be right, too.
        b.add("class_b_unit_flag", Cat::Bits, 141, 1, &[], |_, _| V::Non).alt(|b, _| V::B(b.bit(141) != 0));
        b.add("class_b_css_flag", Cat::Bits, 148, 1, &[], |_, _| V::Non).alt(|b, _| V::B(b.bit(148) != 0));
        for (i, n) in ["class_b_display", "class_b_dsc", "class_b_band_flag", "class_b_msg22_flag", "class_b_mode_flag"].iter().enumerate() { b.flag(n, 142 + i); }
        b.flag("raim_flag", 147).num("radio_status", 149, 19);
        v.push(msg("t18", 18, 168, "Dynamic", b));
    }
    {
        let mut b = B { f: vec![] };
        b.head(true, None);
        b.add("aid_type", Cat::Code, 38, 5, &[], |b, _| code_list(&AID, b.get(38, 5)));
        b.add("name", Cat::Text, 43, 120, &[], |b, _| V::S(aton_name(b)));
        b.flag("high_position_accuracy", 163);
        b.pos(164, 192);
        b.dims(219).fix(249, false);
        b.num("timestamp_seconds", 253, 6);
        b.flag("off_position_indicator", 259).num("regional", 260, 8);
        b.flag("raim_flag", 268).flag("virtual_aid_flag", 269).flag("assigned_mode_flag", 270);
        v.push(msg("t21", 21, 356, "Aton", b));
    }
    {
        let mut b = B { f: vec![] };
        let o = T24;
        b.head(false, Some("ClassB"));
        b.konst("ais_version_indicator", Cat::Bits, V::I(0));
        b.none(Cat::Id, &["imo_number"]);
        b.txt("name", 40, 20);
        b.ship(o + 40);
        b.add("equipment_vendor_id", Cat::Text, o + 48, 18, &[], move |b, _| V::S(text(b, o + 48, 3)));
        b.alt(move |b, _| some_text(text(b, o + 48, 3)));
        b.num("equipment_model", o + 66, 4).num("equipment_serial_number", o + 70, 20);
        b.txt("call_sign", o + 90, 7);
        for (n, off, len) in [("dimension_to_bow", 132, 9), ("dimension_to_stern", 141, 9), ("dimension_to_port", 150, 6), ("dimension_to_starboard", 156, 6)] {
            b.add(n, Cat::Bits, o + off, len, &[], move |b, _| if aux(b) { V::Non } else { V::I(b.get(o + off, len) as i64) });
        }
        b.add("mothership_mmsi", Cat::Id, o + 132, 30, &[271_041_815, 999_999_999], move |b, _| if aux(b) { V::I(b.get(o + 132, 30) as i64) } else { V::Non });
        b.none(Cat::Code, &["position_fix_type"]).none(Cat::Time, &["eta"]).none(Cat::Bits, &["draught10"]).none(Cat::Text, &["destination"]);
        v.push(msg("t24", 24, 2 * T24, "Static", b));
    }
    {
        let mut b = B { f: vec![] };
        b.head(true, Some("ClassA"));
        b.add("nav_status", Cat::Code, 40, 4, &[], |b, _| code_list(&NAV, b.get(40, 4)));
        b.none(Cat::Kin, &["rot", "rot_direction", "heading_true"]);
        b.flag("high_position_accuracy", 38).flag("raim_flag", 39);
        for o in ["longitude", "acc_longitude"] {
            b.add(o, Cat::Pos, 44, 18, &[108_600, 108_000, (1 << 18) - 108_000], |b, _| { let r = b.geti(44, 18); if r == 108_600 { V::Non } else { V::F(r as f64 / 600.0) } });
            b.known("t27.longitude", |b, _| V::F(b.geti(62, 17) as f64 / 600.0));
        }
        for o in ["latitude", "acc_latitude"] {
            b.add(o, Cat::Pos, 62, 17, &[54_600, 54_000, (1 << 17) - 54_000], |b, _| { let r = b.geti(62, 17); if r == 54_600 { V::Non } else { V::F(r as f64 / 600.0) } });
            b.known("t27.latitude", |b, _| V::F(b.geti(44, 18) as f64 / 600.0));
        }
        b.scaled("sog_knots", 79, 6, 63, 1.0, &[62]);
        b.known("t27.sog_knots", |b, _| { let r = b.get(62, 6); if r == 63 { V::Non } else { V::F(r as f64) } });
        b.scaled("cog", 85, 9, 511, 1.0, &[359, 360]);
        b.known("t27.cog", |b, _| { let r = b.get(62, 17); if r == 91000 { V::Non } else { V::F(r as f64 * 0.1) } });
        b.add("current_gnss_position", Cat::Bits, 94, 1, &[], |b, _| V::B(b.bit(94) == 0));
        b.none(Cat::Code, &["special_manoeuvre"]).none(Cat::Bits, &CLASS_B_FLAGS).none(Cat::Bits, &["radio_status"]);
        v.push(msg("t27", 27, 96, "Dynamic", b));
    }
    v
}

/// Auxiliary craft (98...) by the MMSI of part B.
pub fn aux(b: &Bits) -> bool { b.get(8, 30) / 10_000_000 == 98 }

pub fn aton_name(b: &Bits) -> String {
    let mut s = String::new();
    for k in 0..34 {
        let off = if k < 20 { 43 + 6 * k } else { 272 + 6 * (k - 20) };
        match b.get(off, 6) as u8 {
            0 => break,
            c @ 1..=31 => s.push((b'@' + c) as char),
            c => s.push(c as char),
        }
    }
    s.trim_end_matches(' ').to_string()
}

impl Msg {
    /// Makes any bit pattern a message of this type.
    pub fn fix(&self, b: &mut Bits) {
        b.set(0, 6, self.ty);
        if self.name == "t24" {
            b.set(38, 2, 0);
            b.set(T24, 6, 24);
            let m = b.get(8, 30);
            b.set(T24 + 8, 30, m);
            b.set(T24 + 38, 2, 1);
        }
    }
    /// Bits that `fix` decides.
    pub fn fixed(&self, i: usize) -> bool {
        i < 6 || (self.name == "t24" && ((38..40).contains(&i) || (T24..T24 + 6).contains(&i) || (T24 + 8..T24 + 40).contains(&i)))
    }
    /// Distinct field spans with their value menus.
    pub fn spans(&self, cats: &[Cat]) -> Vec<(usize, usize, Vec<u64>)> {
        let mut v: Vec<(usize, usize, Vec<u64>)> = vec![];
        for f in &self.fields {
            if f.len == 0 || !cats.contains(&f.cat) { continue; }
            // fields that share their bits share their values
            let mut menu: Vec<u64> = self.fields.iter().filter(|g| g.off == f.off && g.len == f.len).flat_map(|g| g.menu.iter().copied()).collect();
            menu.sort();
            menu.dedup();
            if !v.iter().any(|x| x.0 == f.off && x.1 == f.len) {
                v.push((f.off, f.len, menu));
            }
        }
        v
    }
}

// ------------------------------------------------------------------------------------ presentation

/// How a message is put into sentences.
#[derive(Clone, Copy, Debug)]
pub struct Pres {
    pub talker: &'static str,
    pub vdo: bool,
    pub chan: &'static str,
    pub cks: bool,
    /// Split after this many 64ths of the payload (0: single sentence).
    pub split: usize,
    /// Second part (or part B) first.
    pub rev: bool,
    /// Message id of a split message.
    pub mid: u32,
}
pub const P0: Pres = Pres { talker: "AI", vdo: false, chan: "A", cks: true, split: 0, rev: false, mid: 1 };
pub fn presentations() -> Vec<Pres> {
    vec![
        P0,
        Pres { talker: "BS", chan: "B", cks: false, ..P0 },
        Pres { talker: "AI", vdo: true, chan: "", ..P0 },
        Pres { talker: "AB", chan: "1", split: 32, mid: 3, ..P0 },
        Pres { talker: "AN", chan: "2", split: 48, mid: 9, rev: true, ..P0 },
        Pres { talker: "SA", vdo: true, chan: "A", cks: false, rev: true, ..P0 },
        Pres { talker: "AX", chan: "B", split: 8, mid: 0, rev: true, cks: false, ..P0 },
    ]
}

pub fn vdm(p: &Pres, n: usize, k: usize, mid: &str, payload: &str, fillbits: usize) -> String {
    let body = format!("!{}{},{},{},{},{},{},{}", p.talker, if p.vdo { "VDO" } else { "VDM" }, n, k, mid, p.chan, payload, fillbits);
    if p.cks { with_checksum(&body) } else { body }
}

/// The sentences of one payload.
pub fn sentences_of(b: &Bits, p: &Pres) -> Vec<String> {
    let pay = armour(b);
    let f = fill(b.len);
    if p.split == 0 || pay.len() < 2 {
        return vec![vdm(p, 1, 1, "", &pay, f)];
    }
    let k = (pay.len() * p.split / 64).clamp(1, pay.len() - 1);
    let m = p.mid.to_string();
    let mut v = vec![vdm(p, 2, 1, &m, &pay[..k], 0), vdm(p, 2, 2, &m, &pay[k..], f)];
    if p.rev { v.reverse(); }
    v
}

/// The sentences of a whole modelled message (both halves of a type 24 report).
pub fn sentences(m: &Msg, b: &Bits, p: &Pres) -> Vec<String> {
    if m.name == "t24" {
        let a = sentences_of(&b.slice(0, T24), p);
        let bb = sentences_of(&b.slice(T24, T24), p);
        if p.rev { bb.into_iter().chain(a).collect() } else { a.into_iter().chain(bb).collect() }
    } else {
        sentences_of(b, p)
    }
}

pub const NOW: i64 = 1_700_000_000; // 2023-11-14 22:13:20 UTC

/// Feeds the message to a new parser and compares the fields selected by `sel` with the reference.
pub fn check(ctx: &mut Ctx, m: &Msg, bits: &Bits, p: &Pres, now: i64, sel: &dyn Fn(&Field) -> bool) {
    let ss = sentences(m, bits, p);
    clock::set(Some(now));
    let mut parser = NmeaParser::new();
    let mut last = Out::Incomplete;
    for (i, s) in ss.iter().enumerate() {
        last = feed(&mut parser, s);
        ctx.calls += 1;
        if i + 1 < ss.len() && last != Out::Incomplete {
            ctx.case(true, &[s]);
            ctx.tally(&last);
            let st = ss[..=i].iter().map(|s| Step::at(s, Some(now))).collect();
            ctx.violate(&format!("{}.early", m.name), st, "Incomplete".into(), last.short(), String::new());
            return;
        }
    }
    let keys: Vec<&str> = ss.iter().map(|s| s.as_str()).collect();
    ctx.case_at(true, &keys, now);
    ctx.tally(&last);
    if ctx.samples.is_empty() { ctx.sample(|| format!("{:?} at {} -> {}", ss, now, clip(&last.short(), 300))); }
    compare(ctx, m, bits, &Env { now, vdo: p.vdo, talker: p.talker }, &last, sel, &|| ss.iter().map(|s| Step::at(s, Some(now))).collect());
}

pub fn compare(ctx: &mut Ctx, m: &Msg, bits: &Bits, env: &Env, o: &Out, sel: &dyn Fn(&Field) -> bool, steps: &dyn Fn() -> Vec<Step>) {
    let obs = match o {
        Out::Data(d) if d.kind == m.kind => d,
        _ => {
            ctx.violate(&format!("{}.kind", m.name), steps(), format!("{} data", m.kind), o.short(), String::new());
            return;
        }
    };
    for f in &m.fields {
        if !sel(f) { continue; }
        let got = match obs.get(f.out) { Some(v) => v, None => continue };
        let exp = (f.dec)(bits, env);
        if *got == exp { continue; }
        if let Some(a) = &f.alt { if *got == a(bits, env) { continue; } }
        if let Some((key, k)) = &f.known {
            let kv = k(bits, env);
            if *got == kv && ctx.known(key, || format!("{} {}: expected {:?}, observed {:?} for {:?}", m.name, f.out, exp, got, steps().iter().map(|s| s.s.clone()).collect::<Vec<_>>())) { continue; }
        }
        ctx.violate(&format!("{}.{}", m.name, f.out), steps(), format!("{} = {:?}", f.out, exp), format!("{} = {:?}", f.out, got), o.short());
    }
}

// ------------------------------------------------------------------------------------ backgrounds

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn put_text(b: &mut Bits, off: usize, s: &str) {
    for (k, c) in s.bytes().enumerate() { b.set(off + 6 * k, 6, (c & 63) as u64); }
}

pub fn typical(m: &Msg) -> Bits {
    let mut b = Bits::zeros(m.nbits);
    for f in &m.fields {
        if f.len == 0 { continue; }
        match f.out {
            "mmsi" | "source_mmsi" | "destination_mmsi" | "mothership_mmsi" => b.set(f.off, 30, 230_123_456),
            "imo_number" => b.set(f.off, 30, 9_074_729),
            "longitude" => b.set(f.off, f.len, if m.name == "t27" { 14_962 } else { 14_963_456 }),
            "latitude" => b.set(f.off, f.len, if m.name == "t27" { 36_073 } else { 36_073_456 }),
            "sog_knots" => b.set(f.off, f.len, if f.len == 6 { 12 } else { 123 }),
            "cog" => b.set(f.off, f.len, if f.len == 9 { 213 } else { 2134 }),
            "heading_true" => b.set(f.off, f.len, 214),
            "altitude" => b.set(f.off, f.len, 303),
            "rot" => b.set(f.off, f.len, 236),
            "nav_status" => b.set(f.off, 4, 5),
            "timestamp_seconds" => b.set(f.off, 6, 34),
            "timestamp" => b.set(f.off, 40, f.menu[0]),
            "eta" => b.set(f.off, 20, f.menu[1]),
            "ship_type" => b.set(f.off, 8, 71),
            "position_fix_type" => b.set(f.off, 4, 3),
            "aid_type" => b.set(f.off, 5, 14),
            "name" => put_text(&mut b, f.off, "EVER NAMED 7"),
            "call_sign" => put_text(&mut b, f.off, "OH8XYZ"),
            "destination" => put_text(&mut b, f.off, "HELSINKI - FI"),
            "equipment_vendor_id" => put_text(&mut b, f.off, "SRT"),
            "dimension_to_bow" => b.set(f.off, f.len, 182),
            "dimension_to_stern" => b.set(f.off, f.len, 31),
            "dimension_to_port" => b.set(f.off, f.len, 14),
            "dimension_to_starboard" => b.set(f.off, f.len, 17),
            "radio_status" => b.set(f.off, f.len, 82419),
            "draught10" => b.set(f.off, f.len, 122),
            "dac" => b.set(f.off, f.len, 235),
            "fid" => b.set(f.off, f.len, 10),
            _ => {}
        }
    }
    if m.name == "t24" { b.set(T24 + 132, 30, (182 << 21) | (31 << 12) | (14 << 6) | 17); }
    m.fix(&mut b);
    b
}
/// Every field at its not-available code.
pub fn not_available(m: &Msg) -> Bits {
    let mut b = Bits::zeros(m.nbits);
    for f in &m.fields {
        if f.len == 0 { continue; }
        match f.out {
            "mmsi" | "source_mmsi" => b.set(f.off, 30, 257_000_001),
            "longitude" => b.set(f.off, f.len, if m.name == "t27" { 108_600 } else { LON_NA }),
            "latitude" => b.set(f.off, f.len, if m.name == "t27" { 54_600 } else { LAT_NA }),
            "sog_knots" => b.set(f.off, f.len, u64::MAX),
            "cog" => b.set(f.off, f.len, if f.len == 9 { 511 } else { 3600 }),
            "heading_true" | "altitude" | "nav_status" => b.set(f.off, f.len, u64::MAX),
            "rot" => b.set(f.off, 8, 128),
            "timestamp_seconds" => b.set(f.off, 6, 60),
            "timestamp" => b.set(f.off, 40, f.menu[1]),
            "eta" => b.set(f.off, 20, f.menu[0]),
            _ => {}
        }
    }
    m.fix(&mut b);
    b
}
pub fn backgrounds(m: &Msg, seed: u64) -> Vec<Bits> {
    let mut v = vec![typical(m), not_available(m)];
    for pat in [0u64, u64::MAX, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555] {
        let mut b = Bits::zeros(m.nbits);
        for i in 0..m.nbits { b.put(i, pat >> (63 - (i & 63))); }
        m.fix(&mut b);
        v.push(b);
    }
    // An auxiliary craft, where the type makes a difference
    if m.name == "t24" {
        let mut b = typical(m);
        b.set(8, 30, 982_301_234);
        b.set(T24 + 132, 30, 230_123_456);
        m.fix(&mut b);
        v.push(b);
    }
    let mut x = seed ^ m.ty << 32;
    for _ in 0..3 {
        let mut b = Bits::zeros(m.nbits);
        for i in 0..m.nbits { if i % 64 == 0 { splitmix(&mut x); } b.put(i, x >> (i & 63) ^ x >> ((i * 7) & 63)); }
        if m.name != "t24" { b.set(8, 30, 200_000_000 + (splitmix(&mut x) % 600_000_000)); }
        m.fix(&mut b);
        v.push(b);
    }
    v
}
