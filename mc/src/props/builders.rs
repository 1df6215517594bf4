//! P32: objects built through the API.
//!
//! Each type is explored as a state machine: its builders are the operations, a model that assigns
//! the named field directly is the oracle. All sequences of operations up to a depth are run from
//! all starting points; after each one the result has to equal the model, and the object the
//! builder was called on has to be what it was before.
use crate::engine::*;
use crate::ensure;
use crate::samples;
use crate::util::parse_str;
use rinex::antex::{Antenna as AtxAntenna, AntennaSpecific, Calibration, CalibrationMethod, Pcv, RxAntenna};
use rinex::hardware::{Antenna, Receiver, SvAntenna};
use rinex::ionex::{BiasSource, MappingFunction, RefSystem};
use rinex::meteo::Sensor;
use rinex::navigation::*;
use rinex::observation::{ClockObservation, LliFlags, Observations, SignalObservation, SNR};
use rinex::prelude::*;
use rinex::record::Record;
use std::fmt::Debug;
use std::str::FromStr;

type Lib<T> = Box<dyn Fn(&T) -> T + Sync + Send>;
type Model<T> = Box<dyn Fn(&mut T) + Sync + Send>;

struct Op<T> {
    name: String,
    lib: Lib<T>,
    model: Model<T>,
}

fn op<T>(name: impl ToString, lib: impl Fn(&T) -> T + Sync + Send + 'static, model: impl Fn(&mut T) + Sync + Send + 'static) -> Op<T> {
    Op { name: name.to_string(), lib: Box::new(lib), model: Box::new(model) }
}

fn push<T>(ops: &mut Vec<Op<T>>, name: String, lib: impl Fn(&T) -> T + Sync + Send + 'static, model: impl Fn(&mut T) + Sync + Send + 'static) {
    ops.push(op(name, lib, model));
}

fn sequences<T: Clone + Debug + PartialEq + Sync + Send>(ctx: &mut Ctx, name: &str, depth: usize, starts: Vec<T>, ops: Vec<Op<T>>) {
    let (s, o) = (&starts, &ops);
    ctx.explore(name, &format!("{} starting points; all sequences of at most {depth} of {} operations", s.len(), o.len()), |e| {
        let mut state = s[e.choose(s.len())].clone();
        let n = e.choose(depth + 1);
        let mut last = String::new();
        for _ in 0..n {
            let op = &o[e.choose(o.len())];
            e.note(|| op.name.clone());
            last.clone_from(&op.name);
            let before = state.clone();
            let got = no_panic(&op.name, || (op.lib)(&state))?;
            ensure!(state == before, "{} changed what it was called on", op.name);
            (op.model)(&mut state);
            e.step();
            e.evals(1);
            ensure!(got == state, "after {}: {got:?} instead of {state:?}", op.name);
        }
        e.outcome(&(n, last));
        Ok(())
    });
}

fn t(h: u8, ts: TimeScale) -> Epoch {
    Epoch::from_gregorian(2021, 3, 14, h, 15, 30, 0, ts)
}
fn sv(s: &str) -> SV {
    SV::from_str(s).unwrap()
}
fn obs(s: &str) -> Observable {
    Observable::from_str(s).unwrap()
}

const TEXTS: [&str; 3] = ["", "One text", "TWENTY FOUR CHARACTERS 4"];

/// Operations that set one field to each value of a list.
macro_rules! set {
    ($ops:ident, $name:literal, $values:expr, |$s:ident, $v:ident| $call:expr, |$m:ident| $model:expr) => {
        for v in $values {
            let (a, b) = (v.clone(), v.clone());
            push(
                &mut $ops,
                format!("{}({:?})", $name, v),
                move |$s| {
                    let $v = a.clone();
                    $call
                },
                move |$m| {
                    let $v = b.clone();
                    $model
                },
            );
        }
    };
}

fn hardware(ctx: &mut Ctx) {
    let depth = ctx.q(3, 5);
    let mut ops: Vec<Op<Receiver>> = vec![];
    set!(ops, "with_model", TEXTS, |s, v| s.with_model(v), |m| m.model = v.to_string());
    set!(ops, "with_serial_number", TEXTS, |s, v| s.with_serial_number(v), |m| m.sn = v.to_string());
    set!(ops, "with_firmware", TEXTS, |s, v| s.with_firmware(v), |m| m.firmware = v.to_string());
    let full = Receiver { model: "M".into(), sn: "S".into(), firmware: "F".into() };
    sequences(ctx, "Receiver", depth, vec![Receiver::default(), full], ops);

    let depth = ctx.q(3, 4);
    let mut ops: Vec<Op<Antenna>> = vec![];
    set!(ops, "with_model", TEXTS, |s, v| s.with_model(v), |m| m.model = v.to_string());
    set!(ops, "with_serial_number", TEXTS, |s, v| s.with_serial_number(v), |m| m.sn = v.to_string());
    set!(ops, "with_base_coordinates", [(0.0, 0.0, 0.0), (1.5, -2.5, 3.5)], |s, v| s.with_base_coordinates(v), |m| m.coords = Some(v));
    set!(ops, "with_height", [0.0, 1.25], |s, v| s.with_height(v), |m| m.height = Some(v));
    set!(ops, "with_eastern_component", [0.0, -1.25], |s, v| s.with_eastern_component(v), |m| m.eastern = Some(v));
    set!(ops, "with_northern_component", [0.0, 2.75], |s, v| s.with_northern_component(v), |m| m.northern = Some(v));
    let full = Antenna { model: "M".into(), sn: "S".into(), coords: Some((1.0, 2.0, 3.0)), height: Some(4.0), eastern: Some(5.0), northern: Some(6.0) };
    sequences(ctx, "Antenna", depth, vec![Antenna::default(), full], ops);

    let depth = ctx.q(3, 5);
    let mut ops: Vec<Op<SvAntenna>> = vec![];
    set!(ops, "with_sv", [sv("G01"), sv("E36"), sv("R24")], |s, v| s.with_sv(v), |m| m.sv = v);
    set!(ops, "with_model", TEXTS, |s, v| s.with_model(v), |m| m.model = v.to_string());
    set!(ops, "with_cospar", ["2018-080A", "1978-020B", "no number", ""], |s, v| s.with_cospar(v), |m| if let Ok(c) = COSPAR::from_str(v).or(Err(())).and_then(|c| if v.len() == 9 { Ok(c) } else { Err(()) }) {
        m.cospar = Some(c)
    });
    sequences(ctx, "SvAntenna", depth, vec![SvAntenna::default(), SvAntenna { sv: sv("C05"), model: "M".into(), cospar: COSPAR::from_str("2011-036A").ok() }], ops);

    let mut ops: Vec<Op<Sensor>> = vec![];
    set!(ops, "with_model", TEXTS, |s, v| s.with_model(v), |m| m.model = Some(v.to_string()));
    set!(ops, "with_type", TEXTS, |s, v| s.with_type(v), |m| m.sensor_type = Some(v.to_string()));
    set!(ops, "with_observable", [obs("PR"), obs("TD"), obs("HR")], |s, v| s.with_observable(v), |m| m.observable = v);
    set!(ops, "with_position", [(0.0, 0.0, 0.0), (4.0E6, -5.0E5, 1.0)], |s, v| s.with_position(v), |m| m.position = Some(v));
    set!(ops, "with_height", [0.0, 98.5], |s, v| s.with_height(v), |m| m.height = Some(v));
    set!(ops, "with_accuracy", [0.0_f32, 0.5], |s, v| s.with_accuracy(v), |m| m.accuracy = Some(v));
    let starts: Vec<Sensor> = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"].iter().map(|o| Sensor::new(obs(o))).collect();
    for (s, o) in starts.iter().zip(["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"]) {
        assert!(s.observable == obs(o));
    }
    let depth = ctx.q(3, 4);
    sequences(ctx, "Sensor", depth, starts, ops);
}

fn calibrations(ctx: &mut Ctx) {
    use rinex::antex::frequency::{Frequency, Pattern};
    let depth = ctx.q(3, 5);
    let patterns = [Pattern::NonAzimuthDependent(vec![]), Pattern::NonAzimuthDependent(vec![0.5, -1.25]), Pattern::AzimuthDependent((5.0, vec![0.25])), Pattern::AzimuthDependent((360.0, vec![]))];
    let mut ops: Vec<Op<Frequency>> = vec![];
    set!(ops, "with_carrier", [Carrier::L1, Carrier::L5, Carrier::E6], |s, v| s.with_carrier(v), |m| m.carrier = v);
    set!(ops, "with_northern_eccentricity", [0.0, -1.25], |s, v| s.with_northern_eccentricity(v), |m| m.north = v);
    set!(ops, "with_eastern_eccentricity", [0.0, 2.5], |s, v| s.with_eastern_eccentricity(v), |m| m.east = v);
    set!(ops, "with_upper_eccentricity", [0.0, 81.75], |s, v| s.with_upper_eccentricity(v), |m| m.up = v);
    set!(ops, "add_pattern", patterns.clone(), |s, v| s.add_pattern(v.clone()), |m| m.patterns.push(v.clone()));
    let full = Frequency { carrier: Carrier::L2, north: 1.0, east: 2.0, up: 3.0, patterns: patterns[1..3].to_vec() };
    sequences(ctx, "Frequency", depth, vec![Frequency::default(), full], ops);

    ctx.explore("Pattern", "patterns of 0..5 values, at an azimuth or not", |e| {
        let n = e.choose(6);
        let v: Vec<f64> = (0..n).map(|i| i as f64 * 0.25 - 0.5).collect();
        let az = *e.pick(&[None, Some(0.0), Some(5.0), Some(360.0)]);
        let p = match az {
            Some(a) => Pattern::AzimuthDependent((a, v.clone())),
            None => Pattern::NonAzimuthDependent(v.clone()),
        };
        e.step();
        ensure!(p.pattern() == v, "pattern() of {p:?}");
        ensure!(p.is_azimuth_dependent() == az.is_some(), "is_azimuth_dependent() of {p:?}");
        ensure!(p.azimuth_pattern() == az.map(|a| (a, v.clone())), "azimuth_pattern() of {p:?}");
        e.outcome(&(n, az.is_some()));
        Ok(())
    });
}

fn small(ctx: &mut Ctx) {
    let depth = ctx.q(4, 6);
    let mut ops: Vec<Op<Leap>> = vec![];
    set!(ops, "with_delta_tls", [0, 18], |s, v| s.with_delta_tls(v), |m| m.delta_tls = Some(v));
    set!(ops, "with_week", [0, 2185], |s, v| s.with_week(v), |m| m.week = Some(v));
    set!(ops, "with_day", [0, 7], |s, v| s.with_day(v), |m| m.day = Some(v));
    set!(ops, "with_timescale", [TimeScale::GPST, TimeScale::BDT], |s, v| s.with_timescale(v), |m| m.timescale = Some(v));
    sequences(ctx, "Leap", depth, vec![Leap::default(), Leap { leap: 17, delta_tls: Some(1), week: Some(2), day: Some(3), timescale: Some(TimeScale::GST) }], ops);

    let mut ops: Vec<Op<CRINEX>> = vec![];
    set!(ops, "with_version", [Version::new(1, 0), Version::new(3, 0), Version::new(3, 1)], |s, v| s.with_version(v), |m| m.version = v);
    set!(ops, "with_prog", TEXTS, |s, v| s.with_prog(v), |m| m.prog = v.to_string());
    set!(ops, "with_date", [t(0, TimeScale::UTC), t(23, TimeScale::UTC)], |s, v| s.with_date(v), |m| m.date = v);
    sequences(ctx, "CRINEX", depth, vec![CRINEX { version: Version::new(3, 0), prog: "P".into(), date: t(4, TimeScale::UTC) }], ops);

    // a number that does not match the format is not a number of a marker
    const NUMBERS: [(&str, bool); 17] = [
        ("10118M001", true),
        ("99999M999", true),
        ("00001M000", true),
        ("00000M001", true),
        ("10118m001", false),
        ("10118S001", false),
        ("1011M0001", false),
        ("10118M01", false),
        ("10118M0011", false),
        ("", false),
        ("+0118M001", false),
        ("10118M+01", false),
        (" 0118M001", false),
        ("1011xM001", false),
        ("10118M00x", false),
        ("-0118M001", false),
        ("10118M 01", false),
    ];
    ctx.explore("GeodeticMarker", &format!("all sequences of at most {depth} names, numbers (well formed or not) and types"), |e| {
        let mut m = GeodeticMarker::default();
        let (mut name, mut number, mut kind) = (String::new(), None, None);
        let n = e.choose(depth + 1).min(3);
        for _ in 0..n {
            let before = m.clone();
            let next = match e.choose(3) {
                0 => {
                    let v = *e.pick(&TEXTS);
                    name = v.to_string();
                    m.with_name(v)
                },
                1 => {
                    let (v, ok) = *e.pick(&NUMBERS);
                    e.note(|| v.to_string());
                    if ok {
                        number = Some(v.to_string());
                    }
                    no_panic("with_number", || m.with_number(v))?
                },
                _ => {
                    let v = *e.pick(&[MarkerType::Geodetic, MarkerType::Human]);
                    kind = Some(v);
                    let mut next = m.clone();
                    next.marker_type = Some(v);
                    next
                },
            };
            ensure!(m == before, "a builder changed what it was called on");
            m = next;
            e.step();
            e.evals(3);
            ensure!(m.name == name && m.marker_type == kind && m.number() == number, "{m:?} instead of {name:?} {number:?} {kind:?}");
        }
        e.outcome(&format!("{m:?}"));
        Ok(())
    });

    let mut ops: Vec<Op<rinex::antex::HeaderFields>> = vec![];
    let pcvs = [Pcv::Absolute, Pcv::Relative("AOAD/M_T".into()), Pcv::Relative("".into())];
    set!(ops, "with_pcv_type", pcvs.clone(), |s, v| s.with_pcv_type(v), |m| m.pcv_type = v);
    set!(ops, "with_reference_antenna_sn", TEXTS, |s, v| s.with_reference_antenna_sn(v), |m| m.reference_ant_sn = Some(v.to_string()));
    let depth = ctx.q(4, 6);
    sequences(ctx, "ANTEX header", depth, vec![rinex::antex::HeaderFields::default()], ops);

    let mut ops: Vec<Op<Pcv>> = vec![];
    set!(ops, "with_relative_type", TEXTS, |s, v| s.with_relative_type(v), |m| if m.is_relative() {
        *m = Pcv::Relative(v.to_string())
    });
    sequences(ctx, "PCV", depth, pcvs.to_vec(), ops);

    let mut ops: Vec<Op<AtxAntenna>> = vec![];
    let calibration = Calibration {
        method: CalibrationMethod::Robot,
        agency: "Agency".into(),
        date: t(0, TimeScale::UTC),
        number: 4,
        validity_period: None,
    };
    let grid = AtxAntenna::default().zenith_grid;
    let mut other = grid.clone();
    other.end = 90.0;
    other.spacing = 5.0;
    set!(ops, "with_calibration", [Calibration::default(), calibration], |s, v| s.with_calibration(v), |m| m.calibration = v);
    set!(ops, "with_zenith_grid", [grid, other], |s, v| s.with_zenith_grid(v), |m| m.zenith_grid = v);
    set!(ops, "with_validity_period", [(t(0, TimeScale::UTC), t(12, TimeScale::UTC)), (t(1, TimeScale::UTC), t(23, TimeScale::UTC))], |s, v| s.with_validity_period(v.0, v.1), |m| m.calibration.validity_period = Some(v));
    set!(ops, "with_dazi", [0.0, 5.0], |s, v| s.with_dazi(v), |m| m.azi_inc = v);
    let rx = AntennaSpecific::RxAntenna(RxAntenna { igs_type: "JPSLEGANT_E   NONE".into(), serial_number: Some("1".into()) });
    set!(ops, "with_specificities", [AntennaSpecific::default(), rx], |s, v| s.with_specificities(v), |m| m.specific = v);
    let depth = ctx.q(3, 5);
    sequences(ctx, "ANTEX antenna", depth, vec![AtxAntenna::default()], ops);

    let mut ops: Vec<Op<SignalObservation>> = vec![];
    set!(ops, "with_snr", (0..10).map(SNR::from).collect::<Vec<SNR>>(), |s, v| s.with_snr(v), |m| m.snr = Some(v));
    let mut starts = vec![];
    for (s, o, v) in [("G01", "C1C", 0.0), ("R24", "L2P", -1.5), ("E05", "D5Q", 1.0E9)] {
        let made = SignalObservation::new(sv(s), obs(o), v);
        assert!(made == SignalObservation { sv: sv(s), observable: obs(o), value: v, lli: None, snr: None }, "SignalObservation::new");
        starts.push(made.clone());
        starts.push(SignalObservation { lli: Some(LliFlags::LOCK_LOSS), snr: Some(SNR::from(3)), ..made });
    }
    sequences(ctx, "SignalObservation", 2, starts, ops);
}

fn ionex(ctx: &mut Ctx) {
    use rinex::ionex::HeaderFields;
    let mut ops: Vec<Op<HeaderFields>> = vec![];
    let utc = TimeScale::UTC;
    set!(ops, "with_number_of_maps", [0, 13], |s, v| s.with_number_of_maps(v), |m| m.number_of_maps = v);
    set!(ops, "with_epoch_of_first_map", [t(0, utc), t(2, utc)], |s, v| s.with_epoch_of_first_map(v), |m| m.epoch_of_first_map = v);
    set!(ops, "with_epoch_of_last_map", [t(0, utc), t(2, utc)], |s, v| s.with_epoch_of_last_map(v), |m| m.epoch_of_last_map = v);
    set!(ops, "with_reference_system", [RefSystem::GnssConstellation(Constellation::GPS), RefSystem::GnssConstellation(Constellation::Mixed)], |s, v| s.with_reference_system(v), |m| m.reference = v);
    set!(ops, "with_exponent", [-1, 0, 3], |s, v| s.with_exponent(v), |m| m.exponent = v);
    // a description is made of several lines
    set!(ops, "with_description", ["First line", "Second"], |s, v| s.with_description(v), |m| m.description = Some(match &m.description {
        Some(d) => format!("{d} {v}"),
        None => v.to_string(),
    }));
    set!(ops, "with_mapping_function", [MappingFunction::CosZ, MappingFunction::QFac], |s, v| s.with_mapping_function(v), |m| m.mapping = Some(v));
    set!(ops, "with_elevation_cutoff", [0.0_f32, 10.0], |s, v| s.with_elevation_cutoff(v), |m| m.elevation_cutoff = v);
    // no observables: a theoretical model
    set!(ops, "with_observables", ["", "Phases"], |s, v| s.with_observables(v), |m| if !v.is_empty() {
        m.observables = Some(v.to_string())
    });
    set!(ops, "with_nb_stations", [0, 250], |s, v| s.with_nb_stations(v), |m| m.nb_stations = v);
    set!(ops, "with_nb_satellites", [0, 55], |s, v| s.with_nb_satellites(v), |m| m.nb_satellites = v);
    set!(ops, "with_base_radius", [0.0_f32, 6371.0], |s, v| s.with_base_radius(v), |m| m.base_radius = v);
    set!(ops, "with_map_dimension", [2, 3], |s, v| s.with_map_dimension(v), |m| m.map_dimension = v);
    let none = HeaderFields::default().grid.latitude;
    let mut axis = none.clone();
    (axis.start, axis.end, axis.spacing) = (87.5, -87.5, -2.5);
    set!(ops, "with_latitude_grid", [none.clone(), axis.clone()], |s, v| s.with_latitude_grid(v), |m| m.grid.latitude = v);
    set!(ops, "with_longitude_grid", [none.clone(), axis.clone()], |s, v| s.with_longitude_grid(v), |m| m.grid.longitude = v);
    set!(ops, "with_altitude_grid", [none, axis], |s, v| s.with_altitude_grid(v), |m| m.grid.height = v);
    let dcbs = [(BiasSource::SpaceVehicle(sv("G01")), (-1.5, 0.02)), (BiasSource::SpaceVehicle(sv("R01")), (2.5, 0.03)), (BiasSource::SpaceVehicle(sv("G01")), (9.5, 0.09)), (BiasSource::Station("G01".into()), (0.0, 0.0))];
    set!(ops, "with_dcb", dcbs, |s, v| s.with_dcb(v.0, v.1), |m| {
        m.dcbs.insert(v.0, v.1);
    });
    let depth = ctx.q(3, 4);
    sequences(ctx, "IONEX header", depth, vec![HeaderFields::default()], ops);
    ctx.explore("theoretical models", "observables none, empty, some", |e| {
        let o = *e.pick(&[None, Some(""), Some("Phases")]);
        let h = HeaderFields::default();
        let h = match o {
            Some(o) => h.with_observables(o),
            None => h,
        };
        e.evals(1);
        ensure!(h.is_theoretical_model() == (o != Some("Phases")), "observables {o:?}: theoretical {}", h.is_theoretical_model());
        e.outcome(&o);
        Ok(())
    });
}

fn headers(ctx: &mut Ctx) {
    let mut ops: Vec<Op<Header>> = vec![];
    set!(ops, "with_version", [Version::new(2, 11), Version::new(3, 5), Version::new(4, 0)], |s, v| s.with_version(v), |m| m.version = v);
    let types = [
        RinexType::ObservationData,
        RinexType::NavigationData,
        RinexType::MeteoData,
        RinexType::ClockData,
        RinexType::IonosphereMaps,
        RinexType::AntennaData,
        RinexType::DORIS,
    ];
    set!(ops, "with_type", types, |s, v| s.with_type(v), |m| m.rinex_type = v);
    set!(ops, "with_general_information", [("", "", ""), ("program", "run by", "agency")], |s, v| s.with_general_information(v.0, v.1, v.2), |m| {
        m.program = Some(v.0.to_string());
        m.run_by = Some(v.1.to_string());
        m.agency = Some(v.2.to_string());
    });
    set!(ops, "with_receiver", [Receiver::default(), Receiver::default().with_model("M")], |s, v| s.with_receiver(v), |m| m.rcvr = Some(v));
    set!(ops, "with_receiver_antenna", [Antenna::default(), Antenna::default().with_height(1.0)], |s, v| s.with_receiver_antenna(v), |m| m.rcvr_antenna = Some(v));
    set!(ops, "with_constellation", [Constellation::GPS, Constellation::Mixed, Constellation::SBAS], |s, v| s.with_constellation(v), |m| m.constellation = Some(v));
    set!(ops, "with_comment", ["first", "second", ""], |s, v| s.with_comment(v), |m| m.comments.push(v.to_string()));
    set!(ops, "with_comments", [vec![], vec!["a".to_string(), "b".to_string()]], |s, v| s.with_comments(v), |m| m.comments = v);
    let mut fields = rinex::observation::HeaderFields::default();
    fields.codes.insert(Constellation::GPS, vec![obs("C1C")]);
    set!(ops, "with_observation_fields", [rinex::observation::HeaderFields::default(), fields], |s, v| s.with_observation_fields(v), |m| m.obs = Some(v));
    set!(ops, "with_ionex_fields", [rinex::ionex::HeaderFields::default().with_exponent(2)], |s, v| s.with_ionex_fields(v), |m| m.ionex = Some(v));
    let mut starts = vec![Header::default(), Header::basic_nav(), Header::basic_obs(), Header::basic_crinex(), Header::basic_ionex()];
    for sample in samples::all() {
        if let Ok(r) = parse_str(&sample.text()) {
            starts.push(r.header);
        }
    }
    let depth = ctx.q(2, 3);
    sequences(ctx, "Header", depth, starts, ops);

    // the constructors
    ctx.explore("constructors", "Header::basic_*, Rinex::basic_*, Rinex::new", |e| {
        let h = [Header::basic_nav(), Header::basic_obs(), Header::basic_crinex(), Header::basic_ionex()];
        let i = e.choose(4);
        let want = [RinexType::NavigationData, RinexType::ObservationData, RinexType::ObservationData, RinexType::IonosphereMaps][i];
        e.evals(6);
        let name = ["basic_nav", "basic_obs", "basic_crinex", "basic_ionex"][i];
        ensure!(h[i].rinex_type == want, "Header::{name} is {:?}", h[i].rinex_type);
        ensure!(h[i].is_crinex() == (i == 2), "Header::{name}: CRINEX {}", h[i].is_crinex());
        ensure!(h[i].ionex.is_some() == (i == 3), "Header::{name}: IONEX fields {:?}", h[i].ionex);
        if i == 1 || i == 2 {
            ensure!(h[i].obs.is_some(), "Header::{name}: no observation fields");
        }
        if i < 3 {
            ensure!(h[i].constellation == Some(Constellation::Mixed), "Header::{name}: {:?}", h[i].constellation);
            let r = [Rinex::basic_nav(), Rinex::basic_obs(), Rinex::basic_crinex()][i].clone();
            ensure!(r.header.rinex_type == want, "Rinex::{name}: header {:?}", r.header);
            ensure!(r.header.is_crinex() == (i == 2), "Rinex::{name}: CRINEX {}", r.header.is_crinex());
            ensure!(r.comments.is_empty(), "Rinex::{name}: comments");
            ensure!(r.production == ProductionAttributes::default(), "Rinex::{name}: production {:?}", r.production);
            let empty = match &r.record {
                Record::NavRecord(x) => i == 0 && x.is_empty(),
                Record::ObsRecord(x) => i > 0 && x.is_empty(),
                _ => false,
            };
            ensure!(empty, "Rinex::{name}: record {:?}", r.record);
            let (nav, obs) = (r.is_navigation_rinex(), r.is_observation_rinex());
            ensure!(nav == (i == 0) && obs == (i > 0), "Rinex::{name}: navigation {nav}, observation {obs}");
        }
        e.outcome(&i);
        Ok(())
    });
}

#[derive(Clone, Debug)]
struct Whole(Rinex);
impl PartialEq for Whole {
    fn eq(&self, o: &Self) -> bool {
        let (a, b) = (&self.0, &o.0);
        a.header == b.header && a.record == b.record && a.comments == b.comments && a.production == b.production
    }
}

/// Header and record are replaced one by one.
fn files(ctx: &mut Ctx) {
    let mut parts: Vec<(Header, Record)> = vec![];
    let mut starts = vec![Whole(Rinex::basic_nav()), Whole(Rinex::basic_obs()), Whole(Rinex::basic_crinex())];
    for sample in samples::all() {
        if let Ok(mut r) = parse_str(&sample.text()) {
            parts.push((r.header.clone(), r.record.clone()));
            r.production.name = "ESBC00DNK".into();
            r.production.year = 2021;
            r.comments.insert(t(1, TimeScale::GPST), vec!["kept".to_string()]);
            starts.push(Whole(r));
        }
    }
    parts.truncate(6);
    let mut ops: Vec<Op<Whole>> = vec![];
    for (i, (h, r)) in parts.into_iter().enumerate() {
        let (h1, h2, h3, h4) = (h.clone(), h.clone(), h.clone(), h);
        let (r1, r2, r3, r4) = (r.clone(), r.clone(), r.clone(), r);
        ops.push(op(format!("with_header({i})"), move |s: &Whole| Whole(s.0.with_header(h1.clone())), move |m: &mut Whole| m.0.header = h2.clone()));
        ops.push(op(format!("with_record({i})"), move |s: &Whole| Whole(s.0.with_record(r1.clone())), move |m: &mut Whole| m.0.record = r2.clone()));
        ops.push(op(
            format!("replace_header({i})"),
            move |s: &Whole| {
                let mut s = s.clone();
                s.0.replace_header(h3.clone());
                s
            },
            move |m: &mut Whole| m.0.header = h4.clone(),
        ));
        ops.push(op(
            format!("replace_record({i})"),
            move |s: &Whole| {
                let mut s = s.clone();
                s.0.replace_record(r3.clone());
                s
            },
            move |m: &mut Whole| m.0.record = r4.clone(),
        ));
    }
    sequences(ctx, "Rinex", ctx.q(2, 3), starts, ops);
}

/// Positions cross the API in kilometres and are stored in metres.
fn positions(ctx: &mut Ctx) {
    use rinex::prelude::nav::Orbit;
    ctx.explore("positions", "header and sensor positions to and from an orbit", |e| {
        const C: [f64; 7] = [0.0, 1.0, -1.0, 4027893.6719, -5047000.0001, 6378137.0, 0.0001];
        let p = (*e.pick(&C), *e.pick(&C), *e.pick(&C));
        let ts = *e.pick(&[TimeScale::GPST, TimeScale::UTC]);
        let at = t(3, ts);
        let frame = anise::constants::frames::IAU_EARTH_FRAME;
        e.evals(4);
        let mut h = Header::default();
        ensure!(h.rx_orbit(at, frame).is_none(), "rx_orbit of a header without position");
        ensure!(Sensor::new(obs("PR")).rx_orbit(at, frame).is_none(), "rx_orbit of a sensor without position");
        h.rx_position = Some(p);
        for (what, o) in [("Header", h.rx_orbit(at, frame)), ("Sensor", Sensor::new(obs("PR")).with_position(p).rx_orbit(at, frame))] {
            let Some(o) = o else {
                return Err(Fail::from(format!("{what}::rx_orbit of {p:?}: none")));
            };
            ensure!(o.epoch == at && o.epoch.time_scale == ts, "{what}::rx_orbit: epoch {:?} instead of {at:?}", o.epoch);
            let s = o.to_cartesian_pos_vel();
            for (k, want) in [p.0, p.1, p.2].into_iter().enumerate() {
                ensure!((s[k] * 1000.0 - want).abs() < 1.0E-6, "{what}::rx_orbit of {p:?}: {s:?} km");
            }
            for k in 3..6 {
                ensure!(s[k] == 0.0, "{what}::rx_orbit of {p:?} moves: {s:?}");
            }
        }
        let base = Header::basic_nav().with_comment("kept");
        let got = base.with_rx_orbit(Orbit::from_position(p.0 / 1000.0, p.1 / 1000.0, p.2 / 1000.0, at, frame));
        let Some(q) = got.rx_position else {
            return Err(Fail::from(format!("with_rx_orbit({p:?}): no position")));
        };
        for (a, b) in [(q.0, p.0), (q.1, p.1), (q.2, p.2)] {
            ensure!((a - b).abs() < 1.0E-6, "with_rx_orbit({p:?}): {q:?}");
        }
        let mut rest = got;
        rest.rx_position = base.rx_position;
        ensure!(rest == base, "with_rx_orbit changes more than the position: {rest:?}");
        e.outcome(&format!("{p:?}"));
        Ok(())
    });
}

/// The receiver clock: offsets given one after the other.
fn clocks(ctx: &mut Ctx) {
    let depth = ctx.q(4, 5);
    ctx.explore("receiver clock", &format!("histories of {depth} offsets over 5 instants (repeated, backwards) and 4 values"), |e| {
        const AT: [i64; 5] = [0, 1, 30_000, 60_000, 3_600_000];
        const OFFSET: [f64; 4] = [0.0, 1.0E-7, -2.5E-4, 0.125];
        let way = e.choose(3);
        let n = 1 + e.choose(depth);
        let start = Epoch::from_gregorian(2021, 3, 14, 0, 0, 0, 0, TimeScale::GPST);
        let mut clock = ClockObservation::default();
        let signals = vec![SignalObservation::new(sv("G01"), obs("C1C"), 5.0)];
        let mut all = Observations { clock: None, signals: signals.clone() };
        let mut past: Option<(i64, f64)> = None;
        for _ in 0..n {
            let (at, offset) = (*e.pick(&AT), *e.pick(&OFFSET));
            let epoch = start + Duration::from_total_nanoseconds(at as i128 * 1_000_000);
            e.note(|| format!("{offset} at {at} ms"));
            match way {
                0 => clock.set_offset_s(epoch, offset),
                1 => {
                    let before = clock;
                    let next = clock.with_offset_s(epoch, offset);
                    ensure!(clock == before, "with_offset_s changed what it was called on");
                    clock = next;
                },
                _ => {
                    let before = all.clone();
                    let next = all.with_clock_offset_s(epoch, offset);
                    ensure!(all == before, "with_clock_offset_s changed what it was called on");
                    ensure!(next.signals == signals, "with_clock_offset_s changed the signals");
                    ensure!(next.clock.is_some(), "with_clock_offset_s: no clock");
                    clock = next.clock.unwrap();
                    let other = all.with_clock_observation(clock);
                    ensure!(other == next, "with_clock_observation: {other:?} instead of {next:?}");
                    all = next;
                },
            }
            e.step();
            e.evals(2);
            ensure!(clock.offset_s == offset, "offset {} instead of {offset}", clock.offset_s);
            match past {
                None => ensure!(clock.drift_s_s.is_none(), "a drift ({:?}) out of a single offset", clock.drift_s_s),
                Some((t0, o0)) if t0 != at => {
                    let want = (offset - o0) / ((at - t0) as f64 * 1.0E-3);
                    ensure!(clock.drift_s_s.map_or(false, |d| (d - want).abs() <= 1.0E-9 * want.abs()), "drift {:?} instead of {want}", clock.drift_s_s);
                },
                // nothing to tell a drift from
                Some(_) => ensure!(clock.drift_s_s.map_or(true, |d| d.is_finite()), "drift {:?} out of two offsets of one instant", clock.drift_s_s),
            }
            past = Some((at, offset));
        }
        e.outcome(&format!("{clock:?}"));
        Ok(())
    });
}

fn ephemerides(ctx: &mut Ctx) {
    let same = |a: f64, b: f64| (a - b).abs() <= 1.0E-12 * b.abs();
    ctx.explore("orbital elements", "with_kepler, with_perturbations, with_week in every order; each element from a list, others distinct", |e| {
        let order = e.choose(6);
        let which = e.choose(16);
        let special = *e.pick(&[0.0, -0.5, 1.0E-12, 3.25]);
        let v = |k: usize| if k == which && k > 0 { special } else { (k + 1) as f64 * 0.03125 };
        // the types of both are not exported: taken from a message, then filled
        let mut any = Ephemeris::default();
        for key in ["sqrta", "e", "i0", "omega", "omega0", "m0", "toe", "deltaN", "idot", "omegaDot", "cuc", "cus", "cic", "cis", "crc", "crs"] {
            any = any.with_orbit(key, OrbitItem::F64(1.0));
        }
        let (Some(mut kepler), Some(mut p)) = (any.kepler(), any.perturbations()) else {
            return Err(Fail::from("a complete message has no kepler() or no perturbations()".to_string()));
        };
        kepler.a = if which == 0 { 26_559_710.5 } else { 4.2E7 };
        (kepler.e, kepler.i_0, kepler.omega_0, kepler.m_0, kepler.omega, kepler.toe) = (v(1), v(2), v(3), v(4), v(5), v(6));
        (p.dn, p.i_dot, p.omega_dot) = (v(7), v(8), v(9));
        (p.cus, p.cuc, p.cis, p.cic, p.crs, p.crc) = (v(10), v(11), v(12), v(13), v(14), v(15));
        let base = Ephemeris { clock_bias: 1.0, clock_drift: 2.0, clock_drift_rate: 3.0, ..Default::default() };
        ensure!(base.kepler().is_none() && base.perturbations().is_none(), "elements out of nothing");
        let mut eph = base.clone();
        let seq = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
        for s in seq {
            eph = match s {
                0 => eph.with_kepler(kepler.clone()),
                1 => eph.with_perturbations(p.clone()),
                _ => eph.with_week(2185),
            };
            e.step();
        }
        e.evals(16);
        ensure!(eph.sv_clock() == (1.0, 2.0, 3.0), "clock {:?}", eph.sv_clock());
        let Some(k) = eph.kepler() else {
            return Err(Fail::from(format!("no kepler() out of {kepler:?}")));
        };
        for (what, got, want) in [("a", k.a, kepler.a), ("e", k.e, kepler.e), ("i_0", k.i_0, kepler.i_0), ("omega_0", k.omega_0, kepler.omega_0), ("m_0", k.m_0, kepler.m_0), ("omega", k.omega, kepler.omega), ("toe", k.toe, kepler.toe)] {
            ensure!(same(got, want), "{what} is {got} instead of {want}");
        }
        let Some(q) = eph.perturbations() else {
            return Err(Fail::from(format!("no perturbations() out of {p:?}")));
        };
        for (what, got, want) in [
            ("dn", q.dn, p.dn),
            ("i_dot", q.i_dot, p.i_dot),
            ("omega_dot", q.omega_dot, p.omega_dot),
            ("cus", q.cus, p.cus),
            ("cuc", q.cuc, p.cuc),
            ("cis", q.cis, p.cis),
            ("cic", q.cic, p.cic),
            ("crs", q.crs, p.crs),
            ("crc", q.crc, p.crc),
        ] {
            ensure!(same(got, want), "{what} is {got} instead of {want}");
        }
        // the names of the broadcast message, which readers use
        for (key, want) in [
            ("sqrta", kepler.a.sqrt()),
            ("e", kepler.e),
            ("i0", kepler.i_0),
            ("omega", kepler.omega),
            ("omega0", kepler.omega_0),
            ("m0", kepler.m_0),
            ("toe", kepler.toe),
            ("deltaN", p.dn),
            ("idot", p.i_dot),
            ("omegaDot", p.omega_dot),
            ("cuc", p.cuc),
            ("cus", p.cus),
            ("cic", p.cic),
            ("cis", p.cis),
            ("crc", p.crc),
            ("crs", p.crs),
        ] {
            let got = eph.orbits.get(key).and_then(|o| o.as_f64());
            ensure!(got.map_or(false, |g| same(g, want)), "{key} is {got:?} instead of {want}");
            let got = eph.get_orbit_f64(key);
            ensure!(if want == 0.0 { got.is_none() } else { got.map_or(false, |g| same(g, want)) }, "get_orbit_f64({key}) is {got:?} instead of {want}");
        }
        ensure!(eph.orbits.len() == 17, "more elements than given: {:?}", eph.orbits.keys());
        // time of ephemeris
        for ts in [TimeScale::GPST, TimeScale::GST, TimeScale::QZSST, TimeScale::BDT] {
            let origin = if ts == TimeScale::BDT { Epoch::from_gregorian(2006, 1, 1, 0, 0, 0, 0, TimeScale::BDT) } else { Epoch::from_gregorian(1980, 1, 6, 0, 0, 0, 0, TimeScale::GPST) };
            let want = origin + Duration::from_days(2185.0 * 7.0) + Duration::from_seconds(kepler.toe);
            let got = eph.toe(ts);
            ensure!(got.map_or(false, |g| (g - want).abs() < Duration::from_total_nanoseconds(2)), "toe({ts}) is {got:?} instead of {want:?}");
        }
        for ts in [TimeScale::UTC, TimeScale::TAI] {
            ensure!(eph.toe(ts).is_none(), "a time of ephemeris in {ts}");
        }
        ensure!(base.toe(TimeScale::GPST).is_none(), "a time of ephemeris out of nothing");
        e.outcome(&(order, which, special.to_bits()));
        Ok(())
    });

    ctx.explore("orbit items", "every 8 bit value, and lists of others, through every accessor", |e| {
        let kind = e.choose(4);
        let (item, value) = match kind {
            0 => {
                let v = e.choose(256) as u8;
                (OrbitItem::U8(v), v as f64)
            },
            1 => {
                let v = (e.choose(256) as i64 - 128) as i8;
                (OrbitItem::I8(v), v as f64)
            },
            2 => {
                let v = *e.pick(&[0_u32, 1, 127, 128, 255, 256, 300, 65535, 65536, 2185, u32::MAX - 1, u32::MAX]);
                let o = OrbitItem::from(v);
                ensure!(o == OrbitItem::U32(v), "from({v}): {o:?}");
                (o, v as f64)
            },
            _ => {
                let v = *e.pick(&[0.0, 1.0, 2185.0, 255.0, 256.0, -1.0, 4294967295.0, 4294967296.0, 1.0E300, -1.0E300, 0.5E-12, 1.5]);
                let o = OrbitItem::from(v);
                ensure!(o == OrbitItem::F64(v), "from({v}): {o:?}");
                (o, v)
            },
        };
        e.evals(5);
        let f = item.as_f64();
        ensure!(f == Some(value), "{item:?}.as_f64() is {f:?}");
        let whole = value.fract() == 0.0;
        // a fraction has no integer value
        if whole {
            let want = (0.0..=4294967295.0).contains(&value).then(|| value as u32);
            ensure!(item.as_u32() == want, "{item:?}.as_u32() is {:?}", item.as_u32());
            let want = (0.0..=255.0).contains(&value).then(|| value as u8);
            ensure!(item.as_u8() == want, "{item:?}.as_u8() is {:?}", item.as_u8());
        }
        if kind == 1 {
            ensure!(item.as_i8() == Some(value as i8), "{item:?}.as_i8() is {:?}", item.as_i8());
        }
        if let Some(i) = item.as_i8() {
            ensure!(i as f64 == value, "{item:?}.as_i8() is {i}");
        }
        ensure!(
            item.as_gps_health().is_none() && item.as_geo_health().is_none() && item.as_glo_health().is_none() && item.as_gal_health().is_none() && item.as_irnss_health().is_none(),
            "{item:?} is read as a health"
        );
        // through an ephemeris
        let base = Ephemeris::default().with_orbit("other", OrbitItem::F64(7.0));
        let eph = base.with_orbit("tgd", item.clone());
        ensure!(base.orbits.len() == 1, "with_orbit changed what it was called on");
        ensure!(eph.orbits.get("tgd") == Some(&item) && eph.get_orbit_f64("other") == Some(7.0) && eph.orbits.len() == 2, "with_orbit: {:?}", eph.orbits);
        ensure!(eph.get_orbit_f64("tgd") == (value != 0.0).then_some(value), "get_orbit_f64 of {value}: {:?}", eph.get_orbit_f64("tgd"));
        if value.abs() < 1.0E10 {
            let want = (value != 0.0).then(|| Duration::from_seconds(value));
            ensure!(eph.tgd() == want, "tgd of {value} s: {:?}", eph.tgd());
        }
        ensure!(eph.glonass_freq_channel().is_none(), "a channel out of nothing");
        if kind == 1 {
            let c = eph.with_orbit("channel", item.clone()).glonass_freq_channel();
            ensure!(c == Some(value as i8), "channel {value}: {c:?}");
        }
        e.outcome(&format!("{item:?}"));
        Ok(())
    });

    ctx.explore("frames", "every class of message through every accessor, mutable or not", |e| {
        let i = e.choose(4);
        let frames = || {
            [
                NavFrame::EPH(Ephemeris { clock_bias: 1.0, ..Default::default() }),
                NavFrame::EOP(EarthOrientation { x: (1.0, 2.0, 3.0), ..Default::default() }),
                NavFrame::ION(IonosphereModel::Klobuchar(KbModel { alpha: (1.0, 2.0, 3.0, 4.0), ..Default::default() })),
                NavFrame::STO(SystemTime { t_tm: 1, ..Default::default() }),
            ]
        };
        let f = frames()[i].clone();
        let mut m = f.clone();
        e.evals(8);
        let got = [f.as_ephemeris().is_some(), f.as_earth_orientation().is_some(), f.as_ionosphere_model().is_some(), f.as_system_time().is_some()];
        let mutable = [m.as_mut_ephemeris().is_some(), m.as_mut_earth_orientation().is_some(), m.as_mut_ionosphere_model().is_some(), m.as_mut_system_time().is_some()];
        for k in 0..4 {
            ensure!(got[k] == (k == i), "frame {i} through accessor {k}: {}", got[k]);
            ensure!(mutable[k] == (k == i), "frame {i} through mutable accessor {k}: {}", mutable[k]);
        }
        ensure!(m == f, "a mutable accessor changed the frame");
        match i {
            0 => {
                m.as_mut_ephemeris().unwrap().clock_drift = 5.0;
                ensure!(f.as_ephemeris().unwrap().clock_bias == 1.0, "{f:?}");
                ensure!(m == NavFrame::EPH(Ephemeris { clock_bias: 1.0, clock_drift: 5.0, ..Default::default() }), "{m:?}");
            },
            1 => {
                m.as_mut_earth_orientation().unwrap().y = (4.0, 5.0, 6.0);
                ensure!(m == NavFrame::EOP(EarthOrientation { x: (1.0, 2.0, 3.0), y: (4.0, 5.0, 6.0), ..Default::default() }), "{m:?}");
            },
            2 => {
                *m.as_mut_ionosphere_model().unwrap() = IonosphereModel::Bdgim(BdModel::default());
                ensure!(m == NavFrame::ION(IonosphereModel::Bdgim(BdModel::default())), "{m:?}");
            },
            _ => {
                m.as_mut_system_time().unwrap().t_tm = 3;
                ensure!(m == NavFrame::STO(SystemTime { t_tm: 3, ..Default::default() }), "{m:?}");
            },
        }
        e.outcome(&i);
        Ok(())
    });

    ctx.explore("ionosphere models", "every model through every accessor, mutable or not", |e| {
        let i = e.choose(3);
        let model = [IonosphereModel::Klobuchar(KbModel::default()), IonosphereModel::NequickG(NgModel::default()), IonosphereModel::Bdgim(BdModel::default())][i];
        let mut m = model;
        e.evals(6);
        let got = [model.as_klobuchar().is_some(), model.as_nequick_g().is_some(), model.as_bdgim().is_some()];
        let mutable = [m.as_klobuchar_mut().is_some(), i == 1, i == 2];
        for k in 0..3 {
            ensure!(got[k] == (k == i) && mutable[k] == (k == i), "model {i} through accessor {k}: {}, mutable {}", got[k], mutable[k]);
        }
        ensure!(m == model, "a mutable accessor changed the model");
        e.outcome(&i);
        Ok(())
    });
}

pub fn run(ctx: &mut Ctx) {
    hardware(ctx);
    calibrations(ctx);
    small(ctx);
    ionex(ctx);
    headers(ctx);
    files(ctx);
    positions(ctx);
    clocks(ctx);
    ephemerides(ctx);
}
