//! Clock RINEX: model, writer and the record a reader returns.
use super::hl;
use super::obs::{scale_of, sv, MTime};
use rinex::prelude::clock::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Name {
    Sat(char, u8),
    Sta(&'static str),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MClk {
    pub kind: &'static str,
    pub name: Name,
    pub t: MTime,
    /// 12 digits of mantissa (0.xxx), exponent
    pub vals: Vec<(i64, i32)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MClkFile {
    /// 2.00 3.00 3.02 3.04
    pub version: &'static str,
    pub sys: char,
    /// TIME SYSTEM ID
    pub scale: Option<&'static str>,
    pub entries: Vec<MClk>,
}
pub type ExpClk = BTreeMap<(Epoch, String, String), Vec<f64>>;

pub fn e19(v: (i64, i32)) -> String {
    format!("{}0.{:012}E{}{:02}", if v.0 < 0 { "-" } else { " " }, v.0.abs(), if v.1 < 0 { '-' } else { '+' }, v.1.abs())
}
impl MClkFile {
    pub fn long(&self) -> bool {
        self.version == "3.04"
    }
    pub fn header(&self) -> String {
        let lab = |c: &str, l: &str| if self.long() { format!("{c:<65}{l}\n") } else { hl(c, l) };
        let mut h = if self.long() {
            lab(&format!("{:4}{:17}C{:20}{}", self.version, "", "", self.sys), "RINEX VERSION / TYPE")
        } else {
            lab(&format!("{:>9}{:11}{:20}{}", self.version, "", "CLOCK DATA", self.sys), "RINEX VERSION / TYPE")
        };
        h += &lab("MODEL               CHECKER             20210101 000000 UTC", "PGM / RUN BY / DATE");
        if let Some(s) = self.scale {
            h += &lab(&format!("   {s}"), "TIME SYSTEM ID");
        }
        h += &lab("     2    AR    AS", "# / TYPES OF DATA");
        h + &lab("", "END OF HEADER")
    }
    pub fn lines(&self, c: &MClk) -> Vec<String> {
        let name = match &c.name {
            Name::Sat(s, p) => format!("{s}{p:02}"),
            Name::Sta(n) => n.to_string(),
        };
        let w = if self.long() { 9 } else { 4 };
        let sep = if self.long() { "  " } else { " " };
        let us = c.t.5 / 10;
        let mut l = format!(
            "{:2} {name:w$} {:4} {:02} {:02} {:02} {:02}{:>10}{:3}   ",
            c.kind,
            c.t.0,
            c.t.1,
            c.t.2,
            c.t.3,
            c.t.4,
            format!("{}.{:06}", us / 1_000_000, us % 1_000_000),
            c.vals.len()
        );
        let v: Vec<String> = c.vals.iter().map(|v| e19(*v)).collect();
        l += &v[..v.len().min(2)].join(sep);
        let mut r = vec![l];
        if v.len() > 2 {
            let off = if self.long() { "   " } else { "" };
            r.push(format!("{off}{}", v[2..].join(sep)));
        }
        r
    }
    pub fn text(&self, trim: usize) -> String {
        let mut t = self.header();
        for c in &self.entries {
            for l in self.lines(c) {
                t += &super::obs::fill(&l, trim);
                t.push('\n');
            }
        }
        t
    }
    pub fn ts(&self) -> TimeScale {
        match self.scale {
            Some(s) => TimeScale::from_str(s).expect("scale"),
            None if self.sys == 'M' => TimeScale::GPST,
            None => scale_of(self.sys),
        }
    }
    pub fn expected(&self) -> ExpClk {
        self.entries
            .iter()
            .map(|c| {
                let name = match &c.name {
                    Name::Sat(s, p) => format!("SV {:?}", sv(*s, *p)),
                    Name::Sta(n) => format!("STA {n}"),
                };
                ((c.t.epoch(self.ts()), c.kind.to_string(), name), c.vals.iter().map(|v| e19(*v).trim().parse().unwrap()).collect())
            })
            .collect()
    }
}
pub fn observed(r: &Rinex) -> Result<ExpClk, String> {
    let rec = r.record.as_clock().ok_or("not a clock record")?;
    let mut m = BTreeMap::new();
    for (t, inner) in rec {
        for (k, p) in inner {
            let name = match &k.clock_type {
                ClockType::SV(s) => format!("SV {s:?}"),
                ClockType::Station(n) => format!("STA {n}"),
            };
            let opt = [p.bias_dev, p.drift, p.drift_dev, p.drift_change, p.drift_change_dev];
            let n = opt.iter().take_while(|x| x.is_some()).count();
            if opt[n..].iter().any(|x| x.is_some()) {
                return Err(format!("{name}: hole in {p:?}"));
            }
            let mut v = vec![p.bias];
            v.extend(opt[..n].iter().map(|x| x.unwrap()));
            m.insert((*t, k.profile_type.to_string(), name), v);
        }
    }
    Ok(m)
}
pub fn diff(want: &ExpClk, got: &ExpClk) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("lost: {k:?} = {v:?}; present: {:?}", got.keys().next())),
            Some(g) if g != v => return Some(format!("{k:?}: {g:?} instead of {v:?}")),
            _ => {},
        }
    }
    if let Some((k, v)) = got.iter().find(|(k, _)| !want.contains_key(k)) {
        return Some(format!("invented: {k:?} = {v:?}"));
    }
    want.keys().zip(got.keys()).find(|(a, b)| a.0.time_scale != b.0.time_scale).map(|(a, b)| format!("time scale {} instead of {}", b.0.time_scale, a.0.time_scale))
}
