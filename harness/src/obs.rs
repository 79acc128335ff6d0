//! Observations: the public answer of the parser flattened to named values.
use nmea_parser::ais::*;
use nmea_parser::gnss::*;
use nmea_parser::*;

#[derive(Clone, Debug)]
pub enum V {
    Non,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    E(&'static str),
    T(i64, u32),
    L(Vec<V>),
}

pub fn feq(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()).max(1.0)
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Non, V::Non) => true,
            (V::B(a), V::B(b)) => a == b,
            (V::I(a), V::I(b)) => a == b,
            (V::F(a), V::F(b)) => feq(*a, *b),
            (V::S(a), V::S(b)) => a == b,
            (V::E(a), V::E(b)) => a == b,
            (V::T(a, x), V::T(b, y)) => a == b && x == y,
            (V::L(a), V::L(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub kind: &'static str,
    pub f: Vec<(&'static str, V)>,
}
impl Obs {
    pub fn get(&self, n: &str) -> Option<&V> {
        self.f.iter().find(|x| x.0 == n).map(|x| &x.1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK { Unsupported, Corrupted, Invalid }

/// Outcome of one call.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Panic(String),
    Err(EK),
    Incomplete,
    Data(Obs),
}
impl Out {
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(_)) }
    pub fn short(&self) -> String {
        let s = format!("{:?}", self);
        if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s }
    }
}

fn of(v: Option<f64>) -> V { v.map_or(V::Non, V::F) }
fn oi<T: Into<i64>>(v: Option<T>) -> V { v.map_or(V::Non, |x| V::I(x.into())) }
fn ob(v: Option<bool>) -> V { v.map_or(V::Non, V::B) }
fn os(v: &Option<String>) -> V { v.as_ref().map_or(V::Non, |x| V::S(x.clone())) }
macro_rules! ot { ($v:expr) => { $v.as_ref().map_or(V::Non, |t| V::T(t.timestamp(), t.timestamp_subsec_nanos())) } }

macro_rules! names { ($fn:ident, $ty:ident, $($v:ident),*) => {
    #[allow(unreachable_patterns)]
    pub fn $fn(x: &$ty) -> &'static str { match x { $($ty::$v => stringify!($v),)* _ => "?" } }
} }
names!(station, Station, BaseStation, DependentAisBaseStation, MobileStation, AidToNavigationStation,
    AisReceivingStation, LimitedBaseStation, AisTransmittingStation, RepeaterStation, Other);
names!(class, AisClass, Unknown, ClassA, ClassB);
names!(navstat, NavigationStatus, UnderWayUsingEngine, AtAnchor, NotUnderCommand, RestrictedManoeuverability,
    ConstrainedByDraught, Moored, Aground, EngagedInFishing, UnderWaySailing, Reserved9, Reserved10,
    Reserved11, Reserved12, Reserved13, AisSartIsActive, NotDefined);
names!(posmeta, PositioningSystemMeta, Operative, ManualInputMode, DeadReckoningMode, Inoperative);
names!(shiptype, ShipType, NotAvailable, Reserved1, WingInGround, Fishing, Towing, TowingLong,
    DredgingOrUnderwaterOps, DivingOps, MilitaryOps, Sailing, PleasureCraft, Reserved38, Reserved39,
    HighSpeedCraft, Pilot, SearchAndRescue, Tug, PortTender, AntiPollutionEquipment, LawEnforcement,
    SpareLocal56, SpareLocal57, MedicalTransport, Noncombatant, Passenger, Cargo, Tanker, Other);
names!(cargo, CargoType, Undefined, HazardousCategoryA, HazardousCategoryB, HazardousCategoryC,
    HazardousCategoryD, Reserved5, Reserved6, Reserved7, Reserved8, Reserved9);
names!(epfd, PositionFixType, Undefined, GPS, GLONASS, GPSGLONASS, LoranC, Chayka,
    IntegratedNavigationSystem, Surveyed, Galileo);
names!(aid, NavAidType, NotSpecified, ReferencePoint, Racon, FixedStructure, Reserved4, LightWithoutSectors,
    LightWithSectors, LeadingLightFront, LeadingLightRear, BeaconCardinalNorth, BeaconCardinalEast,
    BeaconCardinalSouth, BeaconCardinalWest, BeaconLateralPort, BeaconLateralStarboard,
    BeaconLateralPreferredChannelPort, BeaconLateralPreferredChannelStarboard, BeaconIsolatedDanger,
    BeaconSafeWater, BeaconSpecialMark, CardinalMarkNorth, CardinalMarkEast, CardinalMarkSouth,
    CardinalMarkWest, PortHandMark, StarboardHandMark, PreferredChannelPort, PreferredChannelStarboard,
    IsolatedDanger, SafeWater, SpecialMark, LightVessel);
names!(navsys, NavigationSystem, Combination, Gps, Glonass, Galileo, Beidou, Navic, Qzss, Other);
names!(faa, FaaMode, Autonomous, Differential, Estimated, NotValid, Simulator);
names!(quality, GgaQualityIndicator, Invalid, GpsFix, DGpsFix, PpsFix, RealTimeKinematic,
    RealTimeKinematicFloat, DeadReckoning, ManualInputMode, SimulationMode);
names!(fixmode, GsaFixMode, NotAvailable, Fix2D, Fix3D);

fn llpair<T: LatLon>(x: &T, f: &mut Vec<(&'static str, V)>) {
    f.push(("acc_latitude", of(x.latitude())));
    f.push(("acc_longitude", of(x.longitude())));
}

pub fn flatten(ps: &ParsedSentence) -> Out {
    let mut f: Vec<(&'static str, V)> = Vec::with_capacity(32);
    let kind = match ps {
        ParsedSentence::Incomplete => return Out::Incomplete,
        ParsedSentence::VesselDynamicData(d) => {
            f.push(("own_vessel", V::B(d.own_vessel)));
            f.push(("station", V::E(station(&d.station))));
            f.push(("ais_type", V::E(class(&d.ais_type))));
            f.push(("mmsi", V::I(d.mmsi as i64)));
            f.push(("nav_status", V::E(navstat(&d.nav_status))));
            f.push(("rot", of(d.rot)));
            f.push(("rot_direction", oi(d.rot_direction)));
            f.push(("sog_knots", of(d.sog_knots)));
            f.push(("high_position_accuracy", V::B(d.high_position_accuracy)));
            f.push(("latitude", of(d.latitude)));
            f.push(("longitude", of(d.longitude)));
            f.push(("cog", of(d.cog)));
            f.push(("heading_true", of(d.heading_true)));
            f.push(("timestamp_seconds", V::I(d.timestamp_seconds as i64)));
            f.push(("positioning_system_meta", d.positioning_system_meta.as_ref().map_or(V::Non, |x| V::E(posmeta(x)))));
            f.push(("current_gnss_position", ob(d.current_gnss_position)));
            f.push(("special_manoeuvre", ob(d.special_manoeuvre)));
            f.push(("raim_flag", V::B(d.raim_flag)));
            f.push(("class_b_unit_flag", ob(d.class_b_unit_flag)));
            f.push(("class_b_display", ob(d.class_b_display)));
            f.push(("class_b_dsc", ob(d.class_b_dsc)));
            f.push(("class_b_band_flag", ob(d.class_b_band_flag)));
            f.push(("class_b_msg22_flag", ob(d.class_b_msg22_flag)));
            f.push(("class_b_mode_flag", ob(d.class_b_mode_flag)));
            f.push(("class_b_css_flag", ob(d.class_b_css_flag)));
            f.push(("radio_status", oi(d.radio_status)));
            llpair(d, &mut f);
            "Dynamic"
        }
        ParsedSentence::VesselStaticData(d) => {
            f.push(("own_vessel", V::B(d.own_vessel)));
            f.push(("ais_type", V::E(class(&d.ais_type))));
            f.push(("mmsi", V::I(d.mmsi as i64)));
            f.push(("ais_version_indicator", V::I(d.ais_version_indicator as i64)));
            f.push(("imo_number", oi(d.imo_number)));
            f.push(("call_sign", os(&d.call_sign)));
            f.push(("name", os(&d.name)));
            f.push(("ship_type", V::E(shiptype(&d.ship_type))));
            f.push(("cargo_type", V::E(cargo(&d.cargo_type))));
            f.push(("equipment_vendor_id", os(&d.equipment_vendor_id)));
            f.push(("equipment_model", oi(d.equipment_model)));
            f.push(("equipment_serial_number", oi(d.equipment_serial_number)));
            f.push(("dimension_to_bow", oi(d.dimension_to_bow)));
            f.push(("dimension_to_stern", oi(d.dimension_to_stern)));
            f.push(("dimension_to_port", oi(d.dimension_to_port)));
            f.push(("dimension_to_starboard", oi(d.dimension_to_starboard)));
            f.push(("position_fix_type", d.position_fix_type.as_ref().map_or(V::Non, |x| V::E(epfd(x)))));
            f.push(("eta", ot!(d.eta)));
            f.push(("draught10", oi(d.draught10)));
            f.push(("destination", os(&d.destination)));
            f.push(("mothership_mmsi", oi(d.mothership_mmsi)));
            "Static"
        }
        ParsedSentence::BaseStationReport(d) => {
            f.push(("own_vessel", V::B(d.own_vessel)));
            f.push(("station", V::E(station(&d.station))));
            f.push(("mmsi", V::I(d.mmsi as i64)));
            f.push(("timestamp", ot!(d.timestamp)));
            f.push(("high_position_accuracy", V::B(d.high_position_accuracy)));
            f.push(("latitude", of(d.latitude)));
            f.push(("longitude", of(d.longitude)));
            f.push(("position_fix_type", d.position_fix_type.as_ref().map_or(V::Non, |x| V::E(epfd(x)))));
            f.push(("raim_flag", V::B(d.raim_flag)));
            f.push(("radio_status", V::I(d.radio_status as i64)));
            llpair(d, &mut f);
            "Base"
        }
        ParsedSentence::BinaryAddressedMessage(d) => {
            f.push(("own_vessel", V::B(d.own_vessel)));
            f.push(("station", V::E(station(&d.station))));
            f.push(("mmsi", V::I(d.mmsi as i64)));
            f.push(("sequence_number", V::I(d.sequence_number as i64)));
            f.push(("destination_mmsi", V::I(d.destination_mmsi as i64)));
            f.push(("retransmit_flag", V::B(d.retransmit_flag)));
            f.push(("dac", V::I(d.dac as i64)));
            f.push(("fid", V::I(d.fid as i64)));
            llpair(d, &mut f);
            "Binary"
        }
        ParsedSentence::StandardSarAircraftPositionReport(d) => {
            f.push(("own_vessel", V::B(d.own_vessel)));
            f.push(("station", V::E(station(&d.station))));
            f.push(("mmsi", V::I(d.mmsi as i64)));
            f.push(("altitude", oi(d.altitude)));
            f.push(("sog_knots", oi(d.sog_knots)));
            f.push(("high_position_accuracy", V::B(d.high_position_accuracy)));
            f.push(("latitude", of(d.latitude)));
            f.push(("longitude", of(d.longitude)));
            f.push(("cog", of(d.cog)));
            f.push(("timestamp_seconds", V::I(d.timestamp_seconds as i64)));
            f.push(("regional", V::I(d.regional as i64)));
            f.push(("dte", V::B(d.dte)));
            f.push(("assigned", V::B(d.assigned)));
            f.push(("raim_flag", V::B(d.raim_flag)));
            f.push(("radio_status", V::I(d.radio_status as i64)));
            llpair(d, &mut f);
            "Sar"
        }
        ParsedSentence::UtcDateInquiry(d) => {
            f.push(("own_vessel", V::B(d.own_vessel)));
            f.push(("station", V::E(station(&d.station))));
            f.push(("source_mmsi", V::I(d.source_mmsi as i64)));
            f.push(("destination_mmsi", V::I(d.destination_mmsi as i64)));
            "Utc"
        }
        ParsedSentence::AidToNavigationReport(d) => {
            f.push(("own_vessel", V::B(d.own_vessel)));
            f.push(("station", V::E(station(&d.station))));
            f.push(("mmsi", V::I(d.mmsi as i64)));
            f.push(("aid_type", V::E(aid(&d.aid_type))));
            f.push(("name", V::S(d.name.clone())));
            // The accuracy field of this struct is private; its Debug form is the only public view of it.
            let dbg = format!("{:?}", d);
            if dbg.contains("high_position_accuracy: true") {
                f.push(("high_position_accuracy", V::B(true)));
            } else if dbg.contains("high_position_accuracy: false") {
                f.push(("high_position_accuracy", V::B(false)));
            }
            f.push(("latitude", of(d.latitude)));
            f.push(("longitude", of(d.longitude)));
            f.push(("dimension_to_bow", oi(d.dimension_to_bow)));
            f.push(("dimension_to_stern", oi(d.dimension_to_stern)));
            f.push(("dimension_to_port", oi(d.dimension_to_port)));
            f.push(("dimension_to_starboard", oi(d.dimension_to_starboard)));
            f.push(("position_fix_type", d.position_fix_type.as_ref().map_or(V::Non, |x| V::E(epfd(x)))));
            f.push(("timestamp_seconds", V::I(d.timestamp_seconds as i64)));
            f.push(("off_position_indicator", V::B(d.off_position_indicator)));
            f.push(("regional", V::I(d.regional as i64)));
            f.push(("raim_flag", V::B(d.raim_flag)));
            f.push(("virtual_aid_flag", V::B(d.virtual_aid_flag)));
            f.push(("assigned_mode_flag", V::B(d.assigned_mode_flag)));
            llpair(d, &mut f);
            "Aton"
        }
        ParsedSentence::Gga(d) => {
            f.push(("source", V::E(navsys(&d.source))));
            f.push(("timestamp", ot!(d.timestamp)));
            f.push(("latitude", of(d.latitude)));
            f.push(("longitude", of(d.longitude)));
            f.push(("quality", V::E(quality(&d.quality))));
            f.push(("satellite_count", oi(d.satellite_count)));
            f.push(("hdop", of(d.hdop)));
            f.push(("altitude", of(d.altitude)));
            f.push(("geoid_separation", of(d.geoid_separation)));
            f.push(("age_of_dgps", of(d.age_of_dgps)));
            f.push(("ref_station_id", oi(d.ref_station_id)));
            llpair(d, &mut f);
            "Gga"
        }
        ParsedSentence::Rmc(d) => {
            f.push(("source", V::E(navsys(&d.source))));
            f.push(("timestamp", ot!(d.timestamp)));
            f.push(("status_active", ob(d.status_active)));
            f.push(("latitude", of(d.latitude)));
            f.push(("longitude", of(d.longitude)));
            f.push(("sog_knots", of(d.sog_knots)));
            f.push(("bearing", of(d.bearing)));
            f.push(("variation", of(d.variation)));
            llpair(d, &mut f);
            "Rmc"
        }
        ParsedSentence::Gsa(d) => {
            f.push(("source", V::E(navsys(&d.source))));
            f.push(("mode1_automatic", ob(d.mode1_automatic)));
            f.push(("mode2_3d", d.mode2_3d.as_ref().map_or(V::Non, |x| V::E(fixmode(x)))));
            f.push(("prn_numbers", V::L(d.prn_numbers.iter().map(|x| V::I(*x as i64)).collect())));
            f.push(("pdop", of(d.pdop)));
            f.push(("hdop", of(d.hdop)));
            f.push(("vdop", of(d.vdop)));
            "Gsa"
        }
        ParsedSentence::Gsv(v) => {
            f.push(("sats", V::L(v.iter().map(|s| V::L(vec![
                V::E(navsys(&s.source)), V::I(s.prn_number as i64), oi(s.elevation), oi(s.azimuth), oi(s.snr),
            ])).collect())));
            "Gsv"
        }
        ParsedSentence::Vtg(d) => {
            f.push(("source", V::E(navsys(&d.source))));
            f.push(("cog_true", of(d.cog_true)));
            f.push(("cog_magnetic", of(d.cog_magnetic)));
            f.push(("sog_knots", of(d.sog_knots)));
            f.push(("sog_kph", of(d.sog_kph)));
            f.push(("faa_mode", d.faa_mode.as_ref().map_or(V::Non, |x| V::E(faa(x)))));
            "Vtg"
        }
        ParsedSentence::Gll(d) => {
            f.push(("source", V::E(navsys(&d.source))));
            f.push(("latitude", of(d.latitude)));
            f.push(("longitude", of(d.longitude)));
            f.push(("timestamp", ot!(d.timestamp)));
            f.push(("data_valid", ob(d.data_valid)));
            f.push(("faa_mode", d.faa_mode.as_ref().map_or(V::Non, |x| V::E(faa(x)))));
            llpair(d, &mut f);
            "Gll"
        }
        #[allow(unreachable_patterns)]
        _ => "?",
    };
    Out::Data(Obs { kind, f })
}

pub fn flatten_result(r: Result<ParsedSentence, ParseError>) -> Out {
    match r {
        Ok(ps) => flatten(&ps),
        #[allow(unreachable_patterns)]
        Err(e) => { let _ = e.to_string(); Out::Err(match e {
            ParseError::UnsupportedSentenceType(_) => EK::Unsupported,
            ParseError::CorruptedSentence(_) => EK::Corrupted,
            ParseError::InvalidSentence(_) => EK::Invalid,
            _ => EK::Invalid,
        }) }
    }
}
