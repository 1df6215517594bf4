//! P27: observable codes, carriers and tokens.
use crate::engine::*;
use crate::ensure;
use rinex::antex::{CalibrationMethod, Pcv};
use rinex::doris::Station;
use rinex::ionex::{MappingFunction, RefSystem};
use rinex::navigation::{NavFrameType, NavMessageType};
use rinex::prelude::clock::ClockProfileType;
use rinex::prelude::obs::{Carrier, EpochFlag, LliFlags, SNR};
use rinex::prelude::*;
use rinex::types::Type;
use rinex::version::Version;
use std::fmt::{Debug, Display};
use std::str::FromStr;

/// RINEX 3.05 tables 11 to 17: system, band, attributes, carrier
type Row = (&'static str, char, &'static str, Carrier);
const V3: [Row; 32] = [
    ("G", '1', "CSLXPWYM", Carrier::L1),
    ("G", '2', "CDSLXPWYM", Carrier::L2),
    ("G", '5', "IQX", Carrier::L5),
    ("R", '1', "CP", Carrier::G1(None)),
    ("R", '4', "ABX", Carrier::G1a),
    ("R", '2', "CP", Carrier::G2(None)),
    ("R", '6', "ABX", Carrier::G2a),
    ("R", '3', "IQX", Carrier::G3),
    ("E", '1', "ABCXZ", Carrier::E1),
    ("E", '5', "IQX", Carrier::E5a),
    ("E", '7', "IQX", Carrier::E5b),
    ("E", '8', "IQX", Carrier::E5),
    ("E", '6', "ABCXZ", Carrier::E6),
    ("S", '1', "C", Carrier::L1),
    ("S", '5', "IQX", Carrier::L5),
    ("J", '1', "CSLXZEB", Carrier::L1),
    ("J", '2', "SLX", Carrier::L2),
    ("J", '5', "IQXDPZ", Carrier::L5),
    ("J", '6', "SLXEZ", Carrier::L6),
    ("C", '2', "IQX", Carrier::B1I),
    ("C", '1', "DPX", Carrier::B1C),
    ("C", '1', "SLZ", Carrier::B1A),
    ("C", '5', "DPX", Carrier::B2A),
    ("C", '7', "IQX", Carrier::B2I),
    ("C", '7', "DPZ", Carrier::B2B),
    ("C", '8', "DPX", Carrier::B2),
    ("C", '6', "IQX", Carrier::B3),
    ("C", '6', "DPZ", Carrier::B3A),
    ("I", '5', "ABCX", Carrier::L5),
    ("I", '9', "ABCX", Carrier::S),
    // codeless: no pseudo range
    ("G", '1', "N", Carrier::L1),
    ("G", '2', "N", Carrier::L2),
];
/// RINEX 2.11 table A1
const V2: [(&str, &str, Carrier); 12] = [
    ("G", "C1 P1 L1 D1 S1", Carrier::L1),
    ("G", "C2 P2 L2 D2 S2", Carrier::L2),
    ("G", "C5 L5 D5 S5", Carrier::L5),
    ("R", "C1 P1 L1 D1 S1", Carrier::G1(None)),
    ("R", "C2 P2 L2 D2 S2", Carrier::G2(None)),
    ("E", "C1 L1 D1 S1", Carrier::E1),
    ("E", "C5 L5 D5 S5", Carrier::E5a),
    ("E", "C7 L7 D7 S7", Carrier::E5b),
    ("E", "C8 L8 D8 S8", Carrier::E5),
    ("E", "C6 L6 D6 S6", Carrier::E6),
    ("S", "C1 L1 D1 S1", Carrier::L1),
    ("S", "C5 L5 D5 S5", Carrier::L5),
];
const SYSTEMS: [(&str, Constellation); 21] = [
    ("G", Constellation::GPS),
    ("R", Constellation::Glonass),
    ("C", Constellation::BeiDou),
    ("J", Constellation::QZSS),
    ("E", Constellation::Galileo),
    ("I", Constellation::IRNSS),
    ("S", Constellation::WAAS),
    ("S", Constellation::EGNOS),
    ("S", Constellation::MSAS),
    ("S", Constellation::GAGAN),
    ("S", Constellation::BDSBAS),
    ("S", Constellation::KASS),
    ("S", Constellation::SDCM),
    ("S", Constellation::ASBAS),
    ("S", Constellation::SPAN),
    ("S", Constellation::SBAS),
    ("S", Constellation::AusNZ),
    ("M", Constellation::GBAS),
    ("S", Constellation::NSAS),
    ("S", Constellation::ASAL),
    ("M", Constellation::Mixed),
];
/// the carrier that the standard gives
fn carrier(sys: &str, code: &str) -> Option<Carrier> {
    if code.len() == 2 {
        return V2.iter().find(|r| r.0 == sys && r.1.split(' ').any(|c| c == code)).map(|r| r.2);
    }
    let b: Vec<char> = code.chars().collect();
    let r = V3.iter().find(|r| r.0 == sys && r.1 == b[1] && r.2.contains(b[2]))?;
    (b[0] == 'L' || b[0] == 'D' || b[0] == 'S' || (b[0] == 'C' && b[2] != 'N')).then_some(r.3)
}
/// MHz
fn frequency(c: &Carrier) -> f64 {
    match c {
        Carrier::L1 | Carrier::E1 | Carrier::B1A | Carrier::B1C => 1575.42,
        Carrier::L2 => 1227.60,
        Carrier::L5 | Carrier::E5a | Carrier::B2A => 1176.45,
        Carrier::L6 | Carrier::E6 => 1278.75,
        Carrier::G1(k) => 1602.0 + k.unwrap_or(0) as f64 * 9.0 / 16.0,
        Carrier::G2(k) => 1246.0 + k.unwrap_or(0) as f64 * 7.0 / 16.0,
        Carrier::G1a => 1600.995,
        Carrier::G2a => 1248.06,
        Carrier::G3 => 1202.025,
        Carrier::E5 | Carrier::B2 => 1191.795,
        Carrier::E5b | Carrier::B2I | Carrier::B2B => 1207.14,
        Carrier::B1I => 1561.098,
        Carrier::B3 | Carrier::B3A => 1268.52,
        Carrier::S => 2492.028,
        Carrier::S1 => 2036.25,
        Carrier::U2 => 401.25,
    }
}
const CARRIERS: [Carrier; 26] = [
    Carrier::L1,
    Carrier::L2,
    Carrier::L5,
    Carrier::L6,
    Carrier::G1(None),
    Carrier::G1a,
    Carrier::G2(None),
    Carrier::G2a,
    Carrier::G3,
    Carrier::E1,
    Carrier::E5,
    Carrier::E5a,
    Carrier::E5b,
    Carrier::E6,
    Carrier::B1I,
    Carrier::B1A,
    Carrier::B1C,
    Carrier::B2,
    Carrier::B2I,
    Carrier::B2A,
    Carrier::B2B,
    Carrier::B3,
    Carrier::B3A,
    Carrier::S,
    Carrier::S1,
    Carrier::U2,
];
const METEO: [(&str, Observable); 11] = [
    ("PR", Observable::Pressure),
    ("TD", Observable::Temperature),
    ("HR", Observable::HumidityRate),
    ("ZW", Observable::ZenithWetDelay),
    ("ZD", Observable::ZenithDryDelay),
    ("ZT", Observable::ZenithTotalDelay),
    ("WD", Observable::WindDirection),
    ("WS", Observable::WindSpeed),
    ("RI", Observable::RainIncrement),
    ("HI", Observable::HailIndicator),
    ("F", Observable::FrequencyRatio),
];
fn kind(o: &Observable) -> String {
    let d = format!("{o:?}");
    d.split('(').next().unwrap().to_string()
}

/// the text of `v` is `text`; `text`, and every form of `forms`, gives `v` back
fn token<T: FromStr + Display + PartialEq + Debug>(v: T, text: Option<&str>, forms: &[&str]) -> R
where
    T::Err: Debug,
{
    let d = no_panic("Display", || v.to_string())?;
    if let Some(text) = text {
        ensure!(d == text, "{v:?} is displayed as {d:?}, not {text:?}");
    }
    form(&v, &d)?;
    for f in forms {
        form(&v, f)?;
    }
    Ok(())
}
fn form<T: FromStr + PartialEq + Debug>(v: &T, f: &str) -> R
where
    T::Err: Debug,
{
    let p = no_panic("FromStr", || T::from_str(f))?;
    ensure!(p.as_ref().is_ok_and(|p| p == v), "{f:?} gives {p:?}, not {v:?}");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    const ALNUM: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    let deep = ctx.q(false, true);
    ctx.explore("codes", "every text of one to three letters or digits (upper and lower case, padded), read as an observable; its carrier in every constellation", move |e| {
        let a = *e.pick(ALNUM) as char;
        let b = e.choose(ALNUM.len() + 1);
        let tail: Vec<String> = if b == ALNUM.len() {
            vec![String::new()]
        } else {
            let b = ALNUM[b] as char;
            std::iter::once(b.to_string()).chain(ALNUM.iter().map(|c| format!("{b}{}", *c as char))).collect()
        };
        e.note(|| format!("{a}{:?}", tail[0]));
        for t in tail {
            let code = format!("{a}{t}");
            let o = no_panic("Observable::from_str", || Observable::from_str(&code))?;
            e.evals(1);
            let meteo = METEO.iter().find(|m| m.0 == code);
            let short = [("P", 0), ("T", 1), ("H", 2)].iter().find(|s| s.0 == code).map(|s| &METEO[s.1]);
            let exp = match meteo.or(short) {
                Some(m) => Some(m.1.clone()),
                None if code.len() == 1 => None,
                None => match a {
                    'L' => Some(Observable::PhaseRange(code.clone())),
                    'C' | 'P' => Some(Observable::PseudoRange(code.clone())),
                    'D' => Some(Observable::Doppler(code.clone())),
                    'S' => Some(Observable::SSI(code.clone())),
                    'W' => Some(Observable::Power(code.clone())),
                    'X' => Some(Observable::ChannelNumber(code.clone())),
                    _ => None,
                },
            };
            ensure!(o.as_ref().ok() == exp.as_ref(), "{code:?} gives {o:?}, not {exp:?}");
            for v in [code.to_lowercase(), format!(" {code} ")] {
                let w = no_panic("Observable::from_str", || Observable::from_str(&v))?;
                ensure!(w.as_ref().ok() == exp.as_ref(), "{v:?} gives {w:?}, not {exp:?}");
            }
            let Some(o) = exp else {
                continue;
            };
            e.outcome(&code);
            let back = no_panic("Display", || o.to_string())?;
            ensure!(Observable::from_str(&back).as_ref().ok() == Some(&o), "{code:?} is displayed as {back:?}");
            if short.is_none() {
                ensure!(back == code, "{code:?} is displayed as {back:?}");
            }
            let preds = [
                ("PhaseRange", o.is_phase_range_observable()),
                ("PseudoRange", o.is_pseudo_range_observable()),
                ("Doppler", o.is_doppler_observable()),
                ("SSI", o.is_ssi_observable()),
                ("Power", o.is_power_observable()),
                ("ChannelNumber", o.is_channel_number()),
            ];
            for (k, p) in preds {
                ensure!(p == (kind(&o) == k), "{code:?}: the predicate of {k} is {p}");
            }
            let signal = ["PhaseRange", "PseudoRange", "Doppler", "SSI"].contains(&kind(&o).as_str());
            let suffix = (signal && code.len() == 3).then(|| code[1..].to_string());
            ensure!(o.code() == suffix, "{code:?}: code() is {:?}, not {suffix:?}", o.code());
            for (sys, c) in SYSTEMS {
                let got = no_panic("carrier", || o.carrier(c))?;
                no_panic("code_length", || o.code_length(c))?;
                let exp = if signal { carrier(sys, &code) } else { None };
                // two-character codes beyond RINEX 2.11, and the BeiDou codes of
                // RINEX 3.02, are given no meaning here
                // (C5 and the like of Galileo: see the next scope)
                let e5 = sys == "E" && code.len() == 2 && code.ends_with('5');
                let exp = if e5 { None } else { exp };
                let open = code.len() == 2 || (sys == "C" && (code[1..] == *"1I" || code[1..] == *"1Q"));
                if exp.is_some() || !open || sys == "M" || !signal {
                    ensure!(got.as_ref().ok() == exp.as_ref(), "{code:?} of {c:?} is on {got:?}, not {exp:?}");
                }
                let direct = no_panic("from_observable", || Carrier::from_observable(c, &o))?;
                ensure!(format!("{direct:?}") == format!("{got:?}"), "{code:?} of {c:?}: {direct:?} and {got:?}");
            }
        }
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("Galileo E5a of RINEX 2", "C5, L5, D5 and S5 of Galileo: E5a", move |e| {
        let code = *e.pick(&["C5", "L5", "D5", "S5"]);
        e.label("Galileo C5 L5 D5 S5");
        e.note(|| code.to_string());
        let o = Observable::from_str(code).expect("code");
        let got = no_panic("carrier", || o.carrier(Constellation::Galileo))?;
        e.outcome(&code);
        e.step();
        e.validated();
        let exp = carrier("E", code);
        ensure!(got.as_ref().ok() == exp.as_ref(), "{code:?} of Galileo is on {got:?}, not {exp:?}");
        Ok(())
    });
    ctx.explore("same physics", "every ordered triple of kinds of observables: same_physics is reflexive, symmetric, transitive, and is the kind", move |e| {
        let all: Vec<Observable> = ["L1C", "L2", "D1C", "D5", "S1C", "S7Q", "W1", "W2", "C1C", "P2", "X1", "X2"]
            .iter()
            .map(|c| Observable::from_str(c).expect("code"))
            .chain(METEO.iter().map(|m| m.1.clone()))
            .collect();
        let a = e.pick(&all).clone();
        let b = e.pick(&all).clone();
        e.note(|| format!("{a:?} {b:?}"));
        let same = no_panic("same_physics", || a.same_physics(&b))?;
        ensure!(same == (kind(&a) == kind(&b)), "{a:?} and {b:?}: same physics is {same}");
        ensure!((a == b) == (a.cmp(&b) == std::cmp::Ordering::Equal) && a.cmp(&b) == b.cmp(&a).reverse(), "order of {a:?} and {b:?}");
        for c in &all {
            ensure!(!(a <= b && b <= *c) || a <= *c, "order of {a:?} {b:?} {c:?}");
        }
        e.outcome(&(same, kind(&a)));
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("carriers", "every carrier and every GLONASS channel: frequency, wavelength, display and parse", move |e| {
        let mut all: Vec<Carrier> = CARRIERS.to_vec();
        all.extend((-128..=127).flat_map(|k| [Carrier::G1(Some(k as i8)), Carrier::G2(Some(k as i8))]));
        let c = *e.pick(&all);
        e.note(|| format!("{c:?}"));
        let f = no_panic("frequency_mhz", || c.frequency_mhz())?;
        let exp = frequency(&c);
        ensure!((f - exp).abs() < 1e-9, "{c:?} is at {f} MHz, not {exp}");
        ensure!((c.frequency() - exp * 1e6).abs() < 1e-3, "{c:?} is at {} Hz", c.frequency());
        let l = no_panic("wavelength", || c.wavelength())?;
        ensure!((l - 299.792458 / exp).abs() < 1e-12, "wavelength of {c:?} is {l}");
        let d = no_panic("Display", || c.to_string())?;
        let p = no_panic("FromStr", || Carrier::from_str(&d))?;
        ensure!(p.is_ok(), "{c:?} is displayed as {d:?}, which cannot be read");
        ensure!(p.as_ref().unwrap().to_string() == d, "{c:?} is displayed as {d:?}, read as {p:?}");
        if !matches!(c, Carrier::G1(_) | Carrier::G1a | Carrier::G2(_) | Carrier::G2a | Carrier::E5a | Carrier::E5b) {
            ensure!(p.as_ref().ok() == Some(&c), "{c:?} is displayed as {d:?}, read as {p:?}");
        }
        if !matches!(c, Carrier::G1(Some(_)) | Carrier::G2(Some(_))) {
            // the names of the enumeration
            let name = match c {
                Carrier::G1(_) => "G1".to_string(),
                Carrier::G2(_) => "G2".to_string(),
                _ => format!("{c:?}"),
            };
            for n in [name.clone(), name.to_lowercase(), format!(" {name} ")] {
                let p = no_panic("FromStr", || Carrier::from_str(&n))?;
                ensure!(p.as_ref().ok() == Some(&c), "{n:?} is read as {p:?}");
            }
        }
        for k in [-7i8, 0, 6] {
            let g = no_panic("with_glonass_offset", || c.with_glonass_offset(k))?;
            let exp = match c {
                Carrier::L1 | Carrier::G1(_) => Carrier::G1(Some(k)),
                Carrier::L2 | Carrier::G2(_) => Carrier::G2(Some(k)),
                c => c,
            };
            ensure!(g == exp, "{c:?} with channel {k} is {g:?}");
        }
        e.outcome(&d);
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("DORIS", "every DORIS observable of RINEX DORIS 3.0 on its carrier; every frequency shift factor of a station; every station line", move |e| {
        let codes = [("L1", Some(Carrier::S1)), ("L2", Some(Carrier::U2)), ("C1", Some(Carrier::S1)), ("C2", Some(Carrier::U2)), ("W1", Some(Carrier::S1)), ("W2", Some(Carrier::U2)), ("F", None), ("P", None), ("T", None), ("H", None)];
        let (code, exp) = *e.pick(&codes);
        let o = Observable::from_str(code).expect("code");
        let got = no_panic("from_doris_observable", || Carrier::from_doris_observable(&o))?;
        ensure!(got.as_ref().ok() == exp.as_ref(), "{code} is on {got:?}, not {exp:?}");
        let k = e.choose(256) as i64 - 128;
        let gen = *e.pick(&[1u8, 2, 3, 4, 12]);
        let key = *e.pick(&[1u16, 9, 10, 99]);
        let label = *e.pick(&["TLSB", "OWEA"]);
        let site = *e.pick(&["TOULOUSE", "A", "KITAB - TWENTYNINE CHARACTERS"]);
        if !deep && (gen != 3 || key != 1) && (k.abs() > 20 && k % 16 != 0) {
            e.trivial();
            return Ok(());
        }
        // D01  TLSB TOULOUSE                      10003S005  3   0
        let text = format!("D{key:02}  {label} {site:<29} 10003S005 {gen:>2} {k:>3}");
        e.note(|| text.clone());
        if text.len() > 60 || !(-99..=999).contains(&k) {
            e.trivial();
            return Ok(());
        }
        let s = no_panic("Station::from_str", || Station::from_str(&text))?;
        let s = match s {
            Ok(s) => s,
            Err(x) => return Err(Fail::from(format!("{text:?} refused: {x}"))),
        };
        ensure!(s.label == label && s.site == site && s.gen == gen && s.k_factor as i64 == k, "{text:?} is read as {s:?}");
        ensure!(s.domes.to_string() == "10003S005", "{text:?}: DOMES {:?}", s.domes);
        let d = no_panic("Display", || s.to_string())?;
        let b = no_panic("Station::from_str", || Station::from_str(&d))?;
        ensure!(b.as_ref().is_ok_and(|b| *b == s), "{text:?} is displayed as {d:?}, read as {b:?}");
        // 543 F0 (3/4 + 87 k / (5 2^26)), F0 = 5 MHz
        for (n, v, m) in [("S1", s.s1_frequency_shift(), 543.0), ("U2", s.u2_frequency_shift(), 107.0)] {
            let exp = m * 5.0e6 * (0.75 + 87.0 * k as f64 / (5.0 * 67108864.0));
            ensure!((v - exp).abs() < 1e-3, "{n} of a station of factor {k} is {v} Hz, not {exp}");
        }
        e.outcome(&(k, gen));
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("tokens", "every value of every enumeration of tokens: displayed as the standard writes it, and read back; every standard spelling; every other single character refused", move |e| {
        let n = e.choose(12);
        e.note(|| format!("group {n}"));
        match n {
            0 => {
                let all = [EpochFlag::Ok, EpochFlag::PowerFailure, EpochFlag::AntennaBeingMoved, EpochFlag::NewSiteOccupation, EpochFlag::HeaderInformationFollows, EpochFlag::ExternalEvent, EpochFlag::CycleSlip];
                for (i, v) in all.iter().enumerate() {
                    token(*v, Some(&i.to_string()), &[])?;
                    ensure!(v.is_ok() == (i == 0), "is_ok of {v:?}");
                    for w in &all {
                        ensure!((v < w) == (*v as u8 <= *w as u8 && v != w), "order of {v:?} and {w:?}");
                    }
                }
                for b in 0..=255u8 {
                    let s = (b as char).to_string();
                    ensure!(EpochFlag::from_str(&s).is_ok() == (b'0'..=b'6').contains(&b), "flag {s:?}");
                }
            },
            1 => {
                let all = [SNR::DbHz0, SNR::DbHz12, SNR::DbHz12_17, SNR::DbHz18_23, SNR::DbHz24_29, SNR::DbHz30_35, SNR::DbHz36_41, SNR::DbHz42_47, SNR::DbHz48_53, SNR::DbHz54];
                for (i, v) in all.iter().enumerate() {
                    let d = format!("{v:x}");
                    ensure!(d == i.to_string(), "{v:?} is displayed as {d:?}");
                    ensure!(SNR::from_str(&d).ok() == Some(*v), "{d:?} is read as {:?}", SNR::from_str(&d));
                    ensure!(SNR::from(i as u8) == *v, "{i} is {:?}", SNR::from(i as u8));
                    for (j, w) in all.iter().enumerate() {
                        ensure!(v.cmp(w) == i.cmp(&j), "order of {v:?} and {w:?}");
                    }
                    ensure!(v.bad() == (i <= 3) && v.excellent() == (i >= 8), "{v:?}: bad {} excellent {}", v.bad(), v.excellent());
                    ensure!(v.strong() == (i >= 5) && v.weak() == (i < 5), "{v:?}: weak {} strong {}", v.weak(), v.strong());
                }
                // min(max(int(dBHz / 6), 1), 9)
                for tenth in 0..=1200 {
                    let exp = (tenth / 60).clamp(1, 9) as usize;
                    let got = SNR::from(tenth as f64 / 10.0);
                    ensure!(got == all[exp], "{} dBHz is {got:?}, not {:?}", tenth as f64 / 10.0, all[exp]);
                }
                for (s, v) in [("bad", SNR::DbHz18_23), ("weak", SNR::DbHz24_29), ("strong", SNR::DbHz30_35), ("excellent", SNR::DbHz48_53)] {
                    ensure!(SNR::from_str(s) == Ok(v), "{s} is {:?}", SNR::from_str(s));
                }
                for b in 0..=255u8 {
                    let s = (b as char).to_string();
                    ensure!(SNR::from_str(&s).is_ok() == b.is_ascii_digit(), "SNR {s:?}");
                }
            },
            2 => {
                ensure!(LliFlags::LOCK_LOSS.bits() == 1 && LliFlags::HALF_CYCLE_SLIP.bits() == 2 && LliFlags::UNDER_ANTI_SPOOFING.bits() == 4 && LliFlags::OK_OR_UNKNOWN.bits() == 0, "LLI bits");
                for b in 0..=255u8 {
                    ensure!(LliFlags::from_bits(b).is_some() == (b < 8), "LLI {b}");
                }
            },
            3 => {
                use MarkerType::*;
                for (v, t) in [(Geodetic, "GEODETIC"), (NonGeodetic, "NON_GEODETIC"), (NonPhysical, "NON_PHYSICAL"), (Spaceborne, "SPACEBORNE"), (Airborne, "AIRBORNE"), (Watercraft, "WATER_CRAFT"), (Groundcraft, "GROUND_CRAFT"), (FixedBuoy, "FIXED_BUOY"), (FloatingBuoy, "FLOATING_BUOY"), (FloatingIce, "FLOATING_ICE"), (Glacier, "GLACIER"), (Ballistic, "BALLISTIC"), (Animal, "ANIMAL"), (Human, "HUMAN")] {
                    token(v, Some(t), &[&format!("{t:20}"), &t.to_lowercase()])?;
                }
            },
            4 => {
                use NavMessageType::*;
                for (v, t) in [(LNAV, "LNAV"), (FDMA, "FDMA"), (FNAV, "FNAV"), (INAV, "INAV"), (IFNV, "IFNV"), (D1, "D1"), (D2, "D2"), (D1D2, "D1D2"), (SBAS, "SBAS"), (CNAV, "CNAV"), (CNV1, "CNV1"), (CNV2, "CNV2"), (CNV3, "CNV3"), (CNVX, "CNVX")] {
                    token(v, Some(t), &[&format!("{t:4}"), &format!(" {t} ")])?;
                }
            },
            5 => {
                for (v, t) in [(NavFrameType::Ephemeris, "EPH"), (NavFrameType::SystemTimeOffset, "STO"), (NavFrameType::EarthOrientation, "EOP"), (NavFrameType::IonosphereModel, "ION")] {
                    token(v, Some(t), &[&format!(" {t} ")])?;
                }
            },
            6 => {
                use ClockProfileType::*;
                for (v, t) in [(AR, "AR"), (AS, "AS"), (CR, "CR"), (DR, "DR"), (MS, "MS")] {
                    token(v, Some(t), &[&format!(" {t} ")])?;
                }
            },
            7 => {
                let all: [(Type, &[&str]); 7] = [
                    (Type::ObservationData, &["O", "OBSERVATION DATA", "Observation data"]),
                    (Type::NavigationData, &["N", "NAVIGATION DATA", "NAV DATA", "N: GNSS NAV DATA", "N: GPS NAV DATA", "G: GLONASS NAV DATA", "G", "H", "H: SBAS NAV MSG DATA", "NAV MSG DATA"]),
                    (Type::MeteoData, &["M", "METEOROLOGICAL DATA", "M: METEO DATA"]),
                    (Type::ClockData, &["C", "CLOCK DATA", "C: CLOCK DATA"]),
                    (Type::IonosphereMaps, &["IONOSPHERE MAPS"]),
                    (Type::AntennaData, &["ANTEX"]),
                    (Type::DORIS, &["D", "DORIS"]),
                ];
                for (v, f) in all {
                    token(v, None, f)?;
                    for (_, c) in SYSTEMS {
                        let s = no_panic("to_standard_string", || v.to_standard_string(Some(c)))?;
                        form(&v, &s)?;
                    }
                    form(&v, &v.to_standard_string(None))?;
                }
            },
            8 => {
                for t in ["BEN", "ENV", "ERS", "IRI", "MIX", "NNS", "TOP", "GPS", "GLO", "GAL", "BDS", "GNSS"] {
                    let v = no_panic("FromStr", || RefSystem::from_str(t))?;
                    let Ok(v) = v else {
                        return Err(Fail::from(format!("{t:?} is read as {v:?}")));
                    };
                    let d = no_panic("Debug", || format!("{v:?}"))?;
                    let class = match t {
                        "BEN" | "ENV" | "ERS" | "IRI" => "ObservationSystem",
                        "NNS" | "TOP" => "Model",
                        // mixed constellations, or mixed models
                        "MIX" => "",
                        _ => "GnssConstellation",
                    };
                    ensure!(d.starts_with(class), "{t:?} is read as {d}");
                    token(v, None, &[])?;
                }
            },
            9 => {
                for (v, t) in [(MappingFunction::CosZ, "COSZ"), (MappingFunction::QFac, "QFAC")] {
                    token(v, None, &[t, &format!("  {t}")])?;
                }
            },
            10 => {
                use CalibrationMethod::*;
                for (v, t) in [(Unknown, ""), (Chamber, "CHAMBER"), (Field, "FIELD"), (Robot, "ROBOT"), (Copied, "COPIED"), (Converted, "CONVERTED")] {
                    form(&v, t)?;
                    form(&v, &format!("{t:20}"))?;
                }
                let a = no_panic("Pcv", || Pcv::from_str("A"))?;
                let r = no_panic("Pcv", || Pcv::from_str("R"))?;
                ensure!(a.as_ref().is_ok_and(|a| *a == Pcv::Absolute && a.is_absolute() && !a.is_relative()), "A: {a:?}");
                ensure!(r.as_ref().is_ok_and(|r| *r == Pcv::Relative("AOAD/M_T".into()) && r.is_relative() && !r.is_absolute()), "R: {r:?}");
                let w = r.unwrap().with_relative_type("TRM");
                ensure!(w == Pcv::Relative("TRM".into()) && a.unwrap().with_relative_type("TRM") == Pcv::Absolute, "relative type: {w:?}");
            },
            _ => {
                // DOMES like numbers of markers
                for id in [0u32, 1, 9, 10001, 99999] {
                    for m in 0..1000u32 {
                        let t = format!("{id:05}M{m:03}");
                        let k = no_panic("with_number", || GeodeticMarker::default().with_number(&t))?;
                        ensure!(k.number().as_deref() == Some(t.as_str()), "{t:?} is returned as {:?}", k.number());
                        let k = k.with_name("X");
                        ensure!(k.name == "X" && k.number().as_deref() == Some(t.as_str()), "with_name: {k:?}");
                    }
                }
            },
        }
        e.outcome(&n);
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("versions", "every version of two digits (and, in the thorough tier, of up to three): display, parse, order, support, arithmetic", move |e| {
        let top = if deep { 256 } else { 100 };
        let major = e.choose(top) as u8;
        e.note(|| format!("{major}.*"));
        for minor in 0..top {
            let minor = minor as u8;
            let v = Version::new(major, minor);
            ensure!((v.major, v.minor) == (major, minor) && <(u8, u8)>::from(v) == (major, minor), "{v:?}");
            let exp = format!("{major}.{minor}");
            let d = no_panic("Display", || v.to_string())?;
            ensure!(d == exp, "{v:?} is displayed as {d:?}");
            ensure!(Version::from_str(&d).ok() == Some(v), "{d:?} is read as {:?}", Version::from_str(&d));
            // as files write it
            let padded = format!("{major}.{minor:02}");
            ensure!(Version::from_str(&padded).ok() == Some(v), "{padded:?} is read as {:?}", Version::from_str(&padded));
            if minor == 0 {
                let m = major.to_string();
                ensure!(Version::from_str(&m).ok() == Some(v), "{m:?} is read as {:?}", Version::from_str(&m));
            }
            let ok = major < 4 || (major == 4 && minor == 0);
            ensure!(v.is_supported() == ok, "support of {v}: {}", v.is_supported());
            for (a, b) in [(0u8, 0u8), (1, 0), (2, 11), (3, 4), (3, 5), (3, 99), (4, 0), (99, 99)] {
                let w = Version::new(a, b);
                ensure!(v.cmp(&w) == (major, minor).cmp(&(a, b)) && (v == w) == ((major, minor) == (a, b)), "order of {v} and {w}");
                ensure!(v.partial_cmp(&w) == Some(v.cmp(&w)), "partial order of {v} and {w}");
            }
            for k in 0..5u8 {
                if major < 250 {
                    let mut a = v;
                    a += k;
                    ensure!(v + k == Version::new(major + k, minor) && a == v + k, "{v} + {k} is {}", v + k);
                }
                let mut s = v;
                s -= k;
                let exp = Version::new(if k >= major { 1 } else { major - k }, minor);
                ensure!(v - k == exp && s == exp, "{v} - {k} is {}", v - k);
            }
            e.evals(1);
        }
        for bad in ["", ".", "a", "1.a", "a.1", "-1.0", "256.0"] {
            ensure!(no_panic("FromStr", || Version::from_str(bad))?.is_err(), "{bad:?} is read as a version");
        }
        e.outcome(&major);
        e.step();
        e.validated();
        Ok(())
    });
}
