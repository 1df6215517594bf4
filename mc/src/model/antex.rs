//! ANTEX 1.4: model, writer and what a reader returns.
use super::obs::MTime;
use super::{dbl, fixed, hl};
use rinex::antex::{AntennaSpecific, CalibrationMethod};
use rinex::prelude::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ident {
    /// type (16 characters), radome, serial number
    Rx(&'static str, &'static str, &'static str),
    /// type (20 characters), satellite, SVN, COSPAR
    Sv(&'static str, &'static str, &'static str, &'static str),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MFreq {
    pub name: &'static str,
    /// 1/100 mm
    pub neu: [i64; 3],
    pub pattern: Vec<i64>,
    /// an RMS section follows
    pub rms: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MAnt {
    pub id: Ident,
    pub method: &'static str,
    pub agency: &'static str,
    pub number: u16,
    pub date: &'static str,
    /// 1/10 degrees
    pub dazi: i64,
    pub zen: [i64; 3],
    pub from: Option<MTime>,
    pub until: Option<MTime>,
    pub sinex: &'static str,
    pub freqs: Vec<MFreq>,
    pub comments: bool,
}
/// What a reader returns, in comparable form.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub id: String,
    pub method: String,
    pub agency: String,
    pub number: u16,
    pub date: String,
    pub dazi: f64,
    pub zen: [f64; 3],
    pub from: Option<Epoch>,
    pub until: Option<Epoch>,
    pub sinex: String,
    pub freqs: BTreeMap<String, ([f64; 3], Vec<f64>)>,
}
/// name in the file -> carrier (RINEX 3 bands)
pub const FREQS: [(&str, &str); 24] = [
    ("G01", "L1"),
    ("G02", "L2"),
    ("G05", "L5"),
    ("R01", "G1(None)"),
    ("R02", "G2(None)"),
    ("R03", "G3"),
    ("E01", "E1"),
    ("E05", "E5a"),
    ("E06", "E6"),
    ("E07", "E5b"),
    ("E08", "E5"),
    ("C01", "B1C"),
    ("C02", "B1I"),
    ("C05", "B2A"),
    ("C06", "B3"),
    ("C07", "B2B"),
    ("C08", "B2"),
    ("J01", "L1"),
    ("J02", "L2"),
    ("J05", "L5"),
    ("J06", "L6"),
    ("S01", "L1"),
    ("S05", "L5"),
    ("I09", "S"),
];
pub fn carrier(name: &str) -> &'static str {
    FREQS.iter().find(|(n, _)| *n == name).unwrap().1
}
pub fn tm(t: &MTime) -> String {
    format!("{:6}{:6}{:6}{:6}{:6}{:>13}", t.0, t.1, t.2, t.3, t.4, fixed(t.5 as i64, 7))
}
const MONTHS: [&str; 12] = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"];
/// "DD-MMM-YY"
pub fn date_epoch(s: &str) -> Epoch {
    let p: Vec<&str> = s.split('-').collect();
    let y: i32 = p[2].parse().unwrap();
    let m = MONTHS.iter().position(|m| p[1].eq_ignore_ascii_case(m)).unwrap() as u8 + 1;
    Epoch::from_gregorian_utc_at_midnight(if y < 80 { 2000 + y } else { 1900 + y }, m, p[0].parse().unwrap())
}

impl MAnt {
    pub fn rx() -> Self {
        Self {
            id: Ident::Rx("AOAD/M_T", "NONE", ""),
            method: "ROBOT",
            agency: "Geo++ GmbH",
            number: 5,
            date: "20-SEP-20",
            dazi: 0,
            zen: [0, 900, 50],
            from: None,
            until: None,
            sinex: "IGS14_2247",
            freqs: vec![MFreq { name: "G01", neu: [58, -37, 9185], pattern: vec![0, -23, -90], rms: false }],
            comments: false,
        }
    }
    pub fn sv() -> Self {
        Self { id: Ident::Sv("BLOCK IIA", "G01", "G032", "1992-079A"), zen: [0, 170, 10], ..Self::rx() }
    }
    pub fn text(&self) -> String {
        let mut s = hl("", "START OF ANTENNA");
        s += &hl(
            &match &self.id {
                Ident::Rx(t, r, n) => format!("{t:<16}{r:<4}{n:<20}"),
                Ident::Sv(t, p, n, c) => format!("{t:<20}{p:<20}{n:<10}{c:<10}"),
            },
            "TYPE / SERIAL NO",
        );
        s += &hl(&format!("{:<20}{:<20}{:6}{:4}{:<10}", self.method, self.agency, self.number, "", self.date), "METH / BY / # / DATE");
        s += &hl(&format!("  {:>6}", fixed(self.dazi, 1)), "DAZI");
        s += &hl(&format!("  {:>6}{:>6}{:>6}", fixed(self.zen[0], 1), fixed(self.zen[1], 1), fixed(self.zen[2], 1)), "ZEN1 / ZEN2 / DZEN");
        s += &hl(&format!("{:6}", self.freqs.len()), "# OF FREQUENCIES");
        if let Some(t) = &self.from {
            s += &hl(&tm(t), "VALID FROM");
        }
        if let Some(t) = &self.until {
            s += &hl(&tm(t), "VALID UNTIL");
        }
        if !self.sinex.is_empty() {
            s += &hl(self.sinex, "SINEX CODE");
        }
        if self.comments {
            s += &hl("START OF COMMENTS 1 2 3", "COMMENT");
            s += &hl("", "COMMENT");
        }
        for f in &self.freqs {
            let n = |x: &[i64; 3]| x.iter().map(|x| format!("{:>10}", fixed(*x, 2))).collect::<String>();
            let p = |l: &str, x: &[i64], o: i64| format!("{l:>8}{}\n", x.iter().map(|x| format!("{:>8}", fixed(*x + o, 2))).collect::<String>());
            s += &hl(&format!("   {}", f.name), "START OF FREQUENCY");
            s += &hl(&n(&f.neu), "NORTH / EAST / UP");
            if !f.pattern.is_empty() {
                s += &p("NOAZI", &f.pattern, 0);
            }
            if self.dazi != 0 && !f.pattern.is_empty() {
                let mut a = 0;
                while a <= 3600 {
                    s += &p(&fixed(a, 1), &f.pattern, a);
                    a += self.dazi;
                }
            }
            s += &hl(&format!("   {}", f.name), "END OF FREQUENCY");
            if f.rms {
                s += &hl(&format!("   {}", f.name), "START OF FREQ RMS");
                s += &hl(&n(&[777, 888, 999]), "NORTH / EAST / UP");
                if !f.pattern.is_empty() {
                    s += &p("NOAZI", &f.pattern, 77);
                }
                s += &hl(&format!("   {}", f.name), "END OF FREQ RMS");
            }
        }
        s + &hl("", "END OF ANTENNA")
    }
    pub fn expected(&self) -> Seen {
        Seen {
            id: match &self.id {
                Ident::Rx(t, _, n) => format!("rx {t} {:?}", Some(n.to_string()).filter(|n| !n.is_empty())),
                Ident::Sv(t, p, _, c) => format!("sv {t} {p} {c}"),
            },
            method: match self.method {
                "CHAMBER" => "Chamber",
                "FIELD" => "Field",
                "ROBOT" => "Robot",
                "COPIED" => "Copied",
                "CONVERTED" => "Converted",
                _ => "Unknown",
            }
            .to_string(),
            agency: self.agency.to_string(),
            number: self.number,
            date: format!("{}", date_epoch(self.date)),
            dazi: dbl(self.dazi, 1),
            zen: self.zen.map(|z| dbl(z, 1)),
            from: self.from.as_ref().map(|t| t.epoch(TimeScale::UTC)),
            until: self.until.as_ref().map(|t| t.epoch(TimeScale::UTC)),
            sinex: self.sinex.to_string(),
            freqs: self.freqs.iter().map(|f| (carrier(f.name).to_string(), (f.neu.map(|x| dbl(x, 2)), f.pattern.iter().map(|x| dbl(*x, 2)).collect()))).collect(),
        }
    }
    /// Whether it applies at t; None: the ends themselves, when only one is given.
    pub fn valid(&self, t: &Epoch) -> bool {
        self.from.as_ref().map(|f| *t >= f.epoch(TimeScale::UTC)).unwrap_or(true) && self.until.as_ref().map(|f| *t <= f.epoch(TimeScale::UTC)).unwrap_or(true)
    }
}
pub fn header(system: char, pcv: &str, reltype: &str, refsn: &str) -> String {
    hl(&format!("{:>8}{:12}{}", "1.4", "", system), "ANTEX VERSION / SYST") + &hl(&format!("{pcv:<20}{reltype:<20}{refsn:<20}"), "PCV TYPE / REFANT") + &hl("", "END OF HEADER")
}
pub fn text(v: &[MAnt]) -> String {
    header('M', "A", "", "") + &v.iter().map(|a| a.text()).collect::<String>()
}
pub fn observed(rnx: &Rinex) -> Result<Vec<Seen>, String> {
    let rec = rnx.record.as_antex().ok_or("not an antenna record")?;
    Ok(rec
        .iter()
        .map(|(a, f)| Seen {
            id: match &a.specific {
                AntennaSpecific::RxAntenna(r) => format!("rx {} {:?}", r.igs_type, r.serial_number),
                AntennaSpecific::SvAntenna(s) => format!("sv {} {} {}", s.igs_type, s.sv, s.cospar),
            },
            method: match a.calibration.method {
                CalibrationMethod::Unknown => "Unknown",
                CalibrationMethod::Chamber => "Chamber",
                CalibrationMethod::Field => "Field",
                CalibrationMethod::Robot => "Robot",
                CalibrationMethod::Copied => "Copied",
                CalibrationMethod::Converted => "Converted",
            }
            .to_string(),
            agency: a.calibration.agency.clone(),
            number: a.calibration.number,
            date: format!("{}", a.calibration.date),
            dazi: a.azi_inc,
            zen: [a.zenith_grid.start, a.zenith_grid.end, a.zenith_grid.spacing],
            from: a.calibration.validity_period.map(|v| v.0),
            until: a.calibration.validity_period.map(|v| v.1),
            sinex: a.sinex_code.clone(),
            freqs: f
                .iter()
                .map(|(c, d)| {
                    let p = match &d.phase_pattern {
                        rinex::antex::record::AntennaPhasePattern::AzimuthIndependentPattern(p) => p.clone(),
                    };
                    (format!("{c:?}"), ([d.apc_eccentricity.0, d.apc_eccentricity.1, d.apc_eccentricity.2], p))
                })
                .collect(),
        })
        .collect())
}
