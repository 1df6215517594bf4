//! IONEX 1.0: model, writer and the record a reader returns.
use super::obs::MTime;
use super::{fixed, hl};
use rinex::prelude::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Tec,
    Rms,
    Height,
}
/// First value, increment and number of nodes of an axis, in tenths.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Axis(pub i64, pub i64, pub usize);
impl Axis {
    pub fn at(&self, i: usize) -> i64 {
        self.0 + self.1 * i as i64
    }
    pub fn end(&self) -> i64 {
        self.at(self.2 - 1)
    }
    fn spec(&self) -> String {
        format!("{:>6}{:>6}{:>6}", fixed(self.0, 1), fixed(self.end(), 1), fixed(self.1, 1))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MMap {
    pub kind: Kind,
    pub t: MTime,
    /// EXPONENT line of this map: before or after its epoch
    pub exponent: Option<(i8, bool)>,
    /// [height][latitude][longitude]
    pub vals: Vec<Option<i64>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MIonex {
    pub lat: Axis,
    pub lon: Axis,
    pub hgt: Axis,
    pub exponent: Option<i8>,
    pub maps: Vec<MMap>,
}
/// (epoch, lat, lon, height in tenths) -> (TECU, RMS), in 1e-9 TECU
pub type ExpIonex = BTreeMap<(Epoch, i64, i64, i64), (i64, Option<i64>)>;

impl MIonex {
    pub fn header(&self) -> String {
        let mut h = hl(&format!("{:>8}{:12}{:20}{:20}", "1.0", "", "IONOSPHERE MAPS", "GPS"), "IONEX VERSION / TYPE");
        h += &hl("MODEL               CHECKER             20210101 000000 UTC", "PGM / RUN BY / DATE");
        let e = |t: &MTime| format!("{:6}{:6}{:6}{:6}{:6}{:6}", t.0, t.1, t.2, t.3, t.4, t.5 / 10_000_000);
        let tec: Vec<_> = self.maps.iter().filter(|m| m.kind == Kind::Tec).collect();
        if let (Some(a), Some(b)) = (tec.first(), tec.last()) {
            h += &hl(&e(&a.t), "EPOCH OF FIRST MAP");
            h += &hl(&e(&b.t), "EPOCH OF LAST MAP");
        }
        h += &hl("  3600", "INTERVAL");
        h += &hl(&format!("{:6}", tec.len()), "# OF MAPS IN FILE");
        h += &hl("  NONE", "MAPPING FUNCTION");
        h += &hl("    10.0", "ELEVATION CUTOFF");
        h += &hl("", "OBSERVABLES USED");
        h += &hl("  6371.0", "BASE RADIUS");
        h += &hl(&format!("{:6}", if self.hgt.2 > 1 { 3 } else { 2 }), "MAP DIMENSION");
        h += &hl(&format!("  {}", self.hgt.spec()), "HGT1 / HGT2 / DHGT");
        h += &hl(&format!("  {}", self.lat.spec()), "LAT1 / LAT2 / DLAT");
        h += &hl(&format!("  {}", self.lon.spec()), "LON1 / LON2 / DLON");
        if let Some(x) = self.exponent {
            h += &hl(&format!("{x:6}"), "EXPONENT");
        }
        h + &hl("", "END OF HEADER")
    }
    pub fn map_lines(&self, n: usize, m: &MMap) -> Vec<String> {
        let name = match m.kind {
            Kind::Tec => "TEC",
            Kind::Rms => "RMS",
            Kind::Height => "HEIGHT",
        };
        let mut v = vec![hl(&format!("{n:6}"), &format!("START OF {name} MAP"))];
        if let Some((x, true)) = m.exponent {
            v.push(hl(&format!("{x:6}"), "EXPONENT"));
        }
        v.push(hl(&format!("{:6}{:6}{:6}{:6}{:6}{:6}", m.t.0, m.t.1, m.t.2, m.t.3, m.t.4, m.t.5 / 10_000_000), "EPOCH OF CURRENT MAP"));
        if let Some((x, false)) = m.exponent {
            v.push(hl(&format!("{x:6}"), "EXPONENT"));
        }
        let mut it = m.vals.iter();
        for h in 0..self.hgt.2 {
            for la in 0..self.lat.2 {
                v.push(hl(
                    &format!("  {:>6}{}{:>6}", fixed(self.lat.at(la), 1), self.lon.spec(), fixed(self.hgt.at(h), 1)),
                    "LAT/LON1/LON2/DLON/H",
                ));
                let row: Vec<_> = (0..self.lon.2).map(|_| it.next().unwrap()).collect();
                for c in row.chunks(16) {
                    v.push(c.iter().map(|x| format!("{:5}", x.unwrap_or(9999))).collect::<String>() + "\n");
                }
            }
        }
        v.push(hl(&format!("{n:6}"), &format!("END OF {name} MAP")));
        v
    }
    /// pad: lines padded to 80 columns
    pub fn text(&self, pad: bool, eof: bool) -> String {
        let mut t = self.header();
        let mut count = BTreeMap::new();
        for m in &self.maps {
            let n = count.entry(m.kind).or_insert(0);
            *n += 1;
            t += &self.map_lines(*n, m).concat();
        }
        if eof {
            t += &hl("", "END OF FILE");
        }
        if pad {
            t = t.lines().map(|l| format!("{l:<80}\n")).collect();
        }
        t
    }
    /// Known finding: a TEC map that no other TEC map follows is lost.
    pub fn expected_without_last(&self) -> ExpIonex {
        let mut m = self.clone();
        for i in 0..m.maps.len() {
            let last = m.maps.get(i + 1).map(|x| x.kind != Kind::Tec).unwrap_or(true);
            if m.maps[i].kind == Kind::Tec && last {
                m.maps[i].vals.iter_mut().for_each(|x| *x = None);
            }
        }
        m.expected()
    }
    pub fn expected(&self) -> ExpIonex {
        let mut r = ExpIonex::new();
        let mut ex = self.exponent.unwrap_or(-1);
        for m in &self.maps {
            if let Some((x, _)) = m.exponent {
                ex = x;
            }
            let scale = 10i64.pow((9 + ex as i32) as u32);
            let mut it = m.vals.iter();
            for h in 0..self.hgt.2 {
                for la in 0..self.lat.2 {
                    for lo in 0..self.lon.2 {
                        let v = it.next().unwrap();
                        let key = (m.t.epoch(TimeScale::UTC), self.lat.at(la), self.lon.at(lo), self.hgt.at(h));
                        let Some(v) = v else { continue };
                        match m.kind {
                            Kind::Tec => {
                                r.insert(key, (v * scale, None));
                            },
                            Kind::Rms => {
                                if let Some(x) = r.get_mut(&key) {
                                    x.1 = Some(v * scale);
                                }
                            },
                            Kind::Height => {},
                        }
                    }
                }
            }
        }
        r
    }
}

/// The record that was read; an error when a coordinate is not a tenth.
pub fn observed(rnx: &Rinex) -> Result<ExpIonex, String> {
    let tenth = |x: f64| -> Result<i64, String> {
        let y = (x * 10.0).round();
        if (x * 10.0 - y).abs() > 1e-6 {
            return Err(format!("coordinate {x}"));
        }
        Ok(y as i64)
    };
    let nano = |x: f64| (x * 1e9).round() as i64;
    let rec = rnx.record.as_ionex().ok_or("not a map record")?;
    let mut r = ExpIonex::new();
    for (k, v) in rec {
        let key = (k.epoch, tenth(k.coordinates.latitude_ddeg())?, tenth(k.coordinates.longitude_ddeg())?, tenth(k.coordinates.altitude_km())?);
        if r.insert(key, (nano(v.tecu()), v.rms_tec().map(nano))).is_some() {
            return Err(format!("node {key:?} twice"));
        }
    }
    Ok(r)
}
pub fn diff(want: &ExpIonex, got: &ExpIonex) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("node {k:?} is missing ({} nodes instead of {})", got.len(), want.len())),
            Some(g) if g != v => return Some(format!("node {k:?} (epoch, lat, lon, height in tenths): (TEC, RMS) = {g:?} instead of {v:?} (1e-9 TECU)")),
            _ => {},
        }
    }
    got.keys().find(|k| !want.contains_key(k)).map(|k| format!("unexpected node {k:?}"))
}
