//! DORIS RINEX 3: model, writer and the record a reader returns.
use super::obs::MTime;
use super::{dbl, fixed, hl};
use rinex::prelude::*;
use std::collections::BTreeMap;

/// value in thousandths, flags (blank when missing)
pub type Sig = Option<(i64, Option<u8>, Option<u8>)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DEpoch {
    pub t: MTime,
    /// nanoseconds beyond (0..=99)
    pub ns: u8,
    pub flag: u8,
    /// 1e-9
    pub clock: Option<i64>,
    pub extrapolated: Option<bool>,
    /// (station number, observations)
    pub stations: Vec<(u8, Vec<Sig>)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MDoris {
    pub codes: Vec<&'static str>,
    /// numbers in the order of the header lines
    pub stations: Vec<u8>,
    pub epochs: Vec<DEpoch>,
}
pub const DCODES: [&str; 11] = ["L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H", "S1"];
/// epoch, flag -> (clock, extrapolated, (station, code) -> (value, m1, m2))
pub type ExpDoris = BTreeMap<(Epoch, String), (f64, bool, BTreeMap<(String, String), (f64, Option<u8>, Option<u8>)>)>;

pub fn label(n: u8) -> String {
    format!("ST{}B", (b'A' + n % 26) as char)
}
pub fn station_line(n: u8) -> String {
    format!("D{:02}  {} {:<29} {:05}S{:03}  {} {:>3}", n, label(n), format!("SITE {n}"), 10000 + n as u32, n, 3 + n % 2, n as i32 % 37 - 18)
}
impl MDoris {
    pub fn header(&self) -> String {
        let mut h = hl(&format!("{:>9}{:11}{:20}{:20}", "3.00", "", "O", "D"), "RINEX VERSION / TYPE");
        h += &hl("Expert              CNES                20180614 090016 UTC", "PGM / RUN BY / DATE");
        h += &hl("CRYOSAT-2", "SATELLITE NAME");
        h += &hl("2010-013A", "COSPAR NUMBER");
        h += &hl("SPA_BN1_4.7P1       CNES", "OBSERVER / AGENCY");
        h += &hl("CHAIN1              DGXX                1.00", "REC # / TYPE / VERS");
        h += &hl("DORIS               STAREC", "ANT # / TYPE");
        h += &hl(&format!("D{:5}{}", self.codes.len(), self.codes.iter().map(|c| format!(" {c:>3}")).collect::<String>()), "SYS / # / OBS TYPES");
        h += &hl("  2018    06    13    00    00   28.8533161     DOR", "TIME OF FIRST OBS");
        h += &hl("D           2.000", "L2 / L1 DATE OFFSET");
        h += &hl(&format!("{:6}", self.stations.len()), "# OF STATIONS");
        for s in &self.stations {
            h += &hl(&station_line(*s), "STATION REFERENCE");
        }
        h += &hl("     1", "# TIME REF STATIONS");
        h += &hl("D02           1.581          13.840", "TIME REF STATION");
        h += &hl("  2018    06    13    00    00    0.0000000", "TIME REF STAT DATE");
        h + &hl("", "END OF HEADER")
    }
    pub fn epoch_lines(&self, e: &DEpoch) -> Vec<String> {
        let t = &e.t;
        let mut v = vec![format!(
            "> {:4} {:02} {:02} {:02} {:02}{:3}.{:07}{:02}  {}{:3}      {}{}",
            t.0,
            t.1,
            t.2,
            t.3,
            t.4,
            t.5 / 10_000_000,
            t.5 % 10_000_000,
            e.ns,
            e.flag,
            e.stations.len(),
            e.clock.map(|c| format!("{:>13}", fixed(c, 9))).unwrap_or_else(|| " ".repeat(13)),
            e.extrapolated.map(|x| format!(" {}", x as u8)).unwrap_or_default()
        )];
        for (n, obs) in &e.stations {
            for (i, c) in obs.chunks(5).enumerate() {
                let mut l = if i == 0 { format!("D{n:02}") } else { "   ".into() };
                for o in c {
                    let f = |x: Option<u8>| x.map(|x| x.to_string()).unwrap_or(" ".into());
                    l += &match o {
                        Some((x, a, b)) => format!("{:>14}{}{}", fixed(*x, 3), f(*a), f(*b)),
                        None => " ".repeat(16),
                    };
                }
                v.push(l);
            }
        }
        v
    }
    /// trim 0: full fields, 1: blanks trimmed, 2: padded to 83
    pub fn text(&self, trim: usize) -> String {
        let mut t = self.header();
        for e in &self.epochs {
            for l in self.epoch_lines(e) {
                t += &match trim {
                    0 => l,
                    1 => l.trim_end().to_string(),
                    _ => format!("{l:<83}"),
                };
                t.push('\n');
            }
        }
        t
    }
    pub fn expected(&self) -> ExpDoris {
        self.epochs
            .iter()
            .map(|e| {
                let mut m = BTreeMap::new();
                for (n, obs) in e.stations.iter().filter(|(n, _)| self.stations.contains(n)) {
                    for (c, o) in self.codes.iter().zip(obs) {
                        if let Some((x, a, b)) = o {
                            m.insert((station_line(*n).replace(' ', ""), c.to_string()), (dbl(*x, 3), *a, *b));
                        }
                    }
                }
                ((e.t.epoch(TimeScale::TAI) + Duration::from_total_nanoseconds(e.ns as i128), e.flag.to_string()), (e.clock.map(|c| dbl(c, 9)).unwrap_or(0.0), e.extrapolated == Some(true), m))
            })
            .collect()
    }
}
/// Names an observable as in the file.
pub fn code(o: &Observable) -> String {
    match o.to_string().as_str() {
        "PR" => "P".into(),
        "TD" => "T".into(),
        "HR" => "H".into(),
        x => x.to_string(),
    }
}
pub fn observed(rnx: &Rinex) -> Result<ExpDoris, String> {
    let rec = rnx.record.as_doris().ok_or("not a DORIS record")?;
    Ok(rec
        .iter()
        .map(|(k, v)| {
            (
                (k.epoch, k.flag.to_string()),
                (v.clock.offset_s, v.clock_extrapolated, v.signals.iter().map(|(s, o)| ((s.station.to_string().replace(' ', ""), code(&s.observable)), (o.value, o.m1, o.m2))).collect()),
            )
        })
        .collect())
}
pub fn diff(want: &ExpDoris, got: &ExpDoris) -> Option<String> {
    for (k, v) in want {
        let Some(g) = got.get(k) else { return Some(format!("epoch {k:?} is missing")) };
        if g.0 != v.0 || g.1 != v.1 {
            return Some(format!("epoch {k:?}: clock {:?} instead of {:?}", (g.0, g.1), (v.0, v.1)));
        }
        for (s, o) in &v.2 {
            match g.2.get(s) {
                Some(x) if x == o => {},
                x => return Some(format!("epoch {k:?} {s:?}: {x:?} instead of {o:?}")),
            }
        }
        if let Some(s) = g.2.keys().find(|s| !v.2.contains_key(*s)) {
            return Some(format!("epoch {k:?}: unexpected {s:?}"));
        }
    }
    got.keys().find(|k| !want.contains_key(k)).map(|k| format!("unexpected epoch {k:?}"))
}
