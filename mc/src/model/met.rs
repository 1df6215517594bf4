//! Meteo RINEX: model, writer, strict reader and the record a reader returns.
use super::obs::MTime;
use super::{dbl, fixed, hl};
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MMet {
    pub version: &'static str,
    pub codes: Vec<&'static str>,
    /// (epoch, tenths per code)
    pub epochs: Vec<(MTime, Vec<Option<i64>>)>,
}
pub type ExpMet = BTreeMap<(Epoch, String), f64>;

pub const MET_CODES: [&str; 10] = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"];

impl MMet {
    pub fn v2(&self) -> bool {
        self.version.trim().starts_with(['1', '2'])
    }
    pub fn header(&self) -> String {
        let mut h = hl(&format!("{:>9}{:11}{:20}", self.version, "", "METEOROLOGICAL DATA"), "RINEX VERSION / TYPE");
        h += &hl("MODEL               CHECKER             20210101 000000 UTC", "PGM / RUN BY / DATE");
        h += &hl("MARK", "MARKER NAME");
        for (i, c) in self.codes.chunks(9).enumerate() {
            let mut l = if i == 0 { format!("{:6}", self.codes.len()) } else { " ".repeat(6) };
            for x in c {
                l += &format!("    {x:2}");
            }
            h += &hl(&l, "# / TYPES OF OBSERV");
        }
        h + &hl("", "END OF HEADER")
    }
    pub fn epoch_lines(&self, t: &MTime, vals: &[Option<i64>]) -> Vec<String> {
        let s = t.5 / 10_000_000;
        let mut l = if self.v2() {
            format!(" {:02} {:2} {:2} {:2} {:2} {:2}", t.0 % 100, t.1, t.2, t.3, t.4, s)
        } else {
            format!(" {:4} {:2} {:2} {:2} {:2} {:2}", t.0, t.1, t.2, t.3, t.4, s)
        };
        let mut v = vec![];
        for (k, x) in vals.iter().enumerate() {
            if k >= 8 && (k - 8) % 10 == 0 {
                v.push(std::mem::replace(&mut l, "    ".into()));
            }
            l += &match x {
                Some(x) => format!("{:>7}", fixed(*x, 1)),
                None => " ".repeat(7),
            };
        }
        v.push(l);
        v
    }
    /// trim 0: full fields, 1: blanks trimmed, 2: padded to 80
    pub fn text(&self, trim: usize) -> String {
        let mut t = self.header();
        for (e, v) in &self.epochs {
            for l in self.epoch_lines(e, v) {
                t += &super::obs::fill(&l, trim);
                t.push('\n');
            }
        }
        t
    }
    pub fn expected(&self) -> ExpMet {
        let mut m = BTreeMap::new();
        for (t, v) in &self.epochs {
            let ep = t.epoch(TimeScale::UTC);
            for (c, x) in self.codes.iter().zip(v) {
                if let Some(x) = x {
                    m.insert((ep, c.to_string()), dbl(*x, 1));
                }
            }
        }
        m
    }
    /// Reads a body strictly by the column table.
    pub fn read(&self, text: &str) -> Result<ExpMet, String> {
        let mut m = BTreeMap::new();
        let mut it = text.split("END OF HEADER").nth(1).ok_or("no end of header")?.lines();
        it.next();
        let w = if self.v2() { 18 } else { 20 };
        while let Some(first) = it.next() {
            if !first.is_ascii() || first.len() < w || !first.starts_with(' ') {
                return Err(format!("epoch line {first:?}"));
            }
            let mut f = vec![];
            let mut p = 1;
            for k in 0..6 {
                let n = if k == 0 && !self.v2() { 4 } else { 2 };
                f.push(first[p..p + n].trim().parse::<i32>().map_err(|x| format!("{x} in {first:?}"))?);
                p += n;
                if p < w && &first[p..p + 1] != " " {
                    return Err(format!("separator at {p} in {first:?}"));
                }
                p += 1;
            }
            if self.v2() {
                f[0] += if f[0] < 80 { 2000 } else { 1900 };
            }
            let ep = Epoch::maybe_from_gregorian(f[0], f[1] as u8, f[2] as u8, f[3] as u8, f[4] as u8, f[5] as u8, 0, TimeScale::UTC)
                .map_err(|x| format!("{x}"))?;
            let mut cols: Vec<String> = vec![];
            let mut take = |l: &str, off: usize, n: usize| -> Result<(), String> {
                let l = format!("{l:<90}");
                for k in 0..n {
                    cols.push(l[off + 7 * k..off + 7 * k + 7].to_string());
                }
                if !l[off + 7 * n..].trim().is_empty() || !l[..off].trim().is_empty() && off == 4 {
                    return Err(format!("text outside of columns in {l:?}"));
                }
                Ok(())
            };
            let n = self.codes.len();
            take(first, w, n.min(8))?;
            let mut done = n.min(8);
            while done < n {
                let l = it.next().ok_or("continuation line missing")?;
                take(l, 4, (n - done).min(10))?;
                done += (n - done).min(10);
            }
            for (c, x) in self.codes.iter().zip(cols) {
                if !x.trim().is_empty() {
                    if x.as_bytes()[5] != b'.' {
                        return Err(format!("field {x:?} is not F7.1"));
                    }
                    m.insert((ep, c.to_string()), f64::from_str(x.trim()).map_err(|e| format!("{e}: {x:?}"))?);
                }
            }
        }
        Ok(m)
    }
}

pub fn observed(r: &Rinex) -> Result<ExpMet, String> {
    let rec = r.record.as_meteo().ok_or("not a meteo record")?;
    let mut m = BTreeMap::new();
    for (k, v) in rec {
        if k.epoch.time_scale != TimeScale::UTC {
            return Err(format!("time scale {}", k.epoch.time_scale));
        }
        m.insert((k.epoch, k.observable.to_string()), *v);
    }
    Ok(m)
}
pub fn diff(want: &ExpMet, got: &ExpMet, tol: f64) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("lost: {k:?} = {v}")),
            Some(g) if (g - v).abs() > tol => return Some(format!("{k:?}: {g} instead of {v}")),
            _ => {},
        }
    }
    got.iter().find(|(k, _)| !want.contains_key(k)).map(|(k, v)| format!("invented: {k:?} = {v}"))
}
