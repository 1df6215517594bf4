//! Observation RINEX: model, writers (RINEX 2, RINEX 3, CRINEX 1, CRINEX 3)
//! and the record a reader has to return.
use super::{dbl, fixed, hl};
use rinex::prelude::obs::*;
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct MObs {
    pub milli: i64,
    pub lli: u8,
    pub ssi: u8,
}
pub const fn mo(milli: i64, lli: u8, ssi: u8) -> Option<MObs> {
    Some(MObs { milli, lli, ssi })
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MSat {
    pub sys: char,
    pub prn: u8,
    pub obs: Vec<Option<MObs>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MEpoch {
    pub t: MTime,
    pub flag: u8,
    /// in units of 1e-9 s (V2) or 1e-12 s (V3)
    pub clock: Option<i64>,
    pub sats: Vec<MSat>,
}
/// year, month, day, hour, minute, 100 ns ticks in the minute
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct MTime(pub i32, pub u8, pub u8, pub u8, pub u8, pub u32);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MFile {
    pub version: &'static str,
    pub sys: char,
    pub codes: Vec<(char, Vec<String>)>,
    pub scale: &'static str,
    pub epochs: Vec<MEpoch>,
}

impl MTime {
    pub fn epoch(&self, ts: TimeScale) -> Epoch {
        let (s, ns) = (self.5 / 10_000_000, (self.5 % 10_000_000) * 100);
        Epoch::from_gregorian(self.0, self.1, self.2, self.3, self.4, s as u8, ns, ts)
    }
    pub fn secs(&self) -> String {
        format!("{:3}.{:07}", self.5 / 10_000_000, self.5 % 10_000_000)
    }
}

pub fn scale_of(sys: char) -> TimeScale {
    match sys {
        'R' => TimeScale::UTC,
        'E' => TimeScale::GST,
        'C' => TimeScale::BDT,
        'J' => TimeScale::QZSST,
        _ => TimeScale::GPST,
    }
}

pub fn sv(sys: char, prn: u8) -> SV {
    SV::from_str(&format!("{sys}{prn:02}")).expect("model: sv")
}

impl MFile {
    pub fn major(&self) -> u8 {
        self.version[..1].parse().unwrap()
    }
    pub fn ts(&self) -> TimeScale {
        if self.sys == 'M' {
            TimeScale::from_str(self.scale).expect("model: scale")
        } else {
            scale_of(self.sys)
        }
    }
    pub fn codes_of(&self, sys: char) -> &Vec<String> {
        if self.major() < 3 {
            &self.codes[0].1
        } else {
            &self.codes.iter().find(|c| c.0 == sys).expect("codes").1
        }
    }
    pub fn header(&self) -> String {
        self.header_with("")
    }
    /// `extra`: complete header lines inserted before END OF HEADER
    pub fn header_with(&self, extra: &str) -> String {
        let mut h = String::new();
        let sysname = match self.sys {
            'M' => "M (MIXED)",
            'G' => "G (GPS)",
            'R' => "R (GLONASS)",
            'E' => "E (GALILEO)",
            'C' => "C (BEIDOU)",
            'S' => "S (SBAS)",
            'J' => "J (QZSS)",
            'I' => "I (NAVIC)",
            _ => unreachable!(),
        };
        h += &hl(
            &format!("{:>9}{:11}{:20}{:20}", self.version, "", "OBSERVATION DATA", sysname),
            "RINEX VERSION / TYPE",
        );
        h += &hl("MODEL               CHECKER             20210101 000000 UTC", "PGM / RUN BY / DATE");
        h += &hl("MARK", "MARKER NAME");
        if self.major() < 3 {
            let c = &self.codes[0].1;
            for (i, chunk) in c.chunks(9).enumerate() {
                let mut l = if i == 0 {
                    format!("{:6}", c.len())
                } else {
                    " ".repeat(6)
                };
                for x in chunk {
                    l += &format!("{x:>6}");
                }
                h += &hl(&l, "# / TYPES OF OBSERV");
            }
        } else {
            for (s, c) in &self.codes {
                for (i, chunk) in c.chunks(13).enumerate() {
                    let mut l = if i == 0 {
                        format!("{s}  {:3}", c.len())
                    } else {
                        " ".repeat(6)
                    };
                    for x in chunk {
                        l += &format!(" {x:3}");
                    }
                    h += &hl(&l, "SYS / # / OBS TYPES");
                }
            }
        }
        if let Some(e) = self.epochs.first() {
            h += &hl(
                &format!(
                    "{:6}{:6}{:6}{:6}{:6}{:5}.{:07}     {:3}",
                    e.t.0,
                    e.t.1,
                    e.t.2,
                    e.t.3,
                    e.t.4,
                    e.t.5 / 10_000_000,
                    e.t.5 % 10_000_000,
                    self.scale
                ),
                "TIME OF FIRST OBS",
            );
        }
        h += extra;
        h += &hl("", "END OF HEADER");
        h
    }

    /// Epoch line without clock and, for RINEX 2, with the satellite list cut
    /// at 12 (`full`: the whole list, as CRINEX has it).
    fn epoch_line(&self, e: &MEpoch, full: bool) -> String {
        if self.major() < 3 {
            let mut l = format!(
                " {:02} {:2} {:2} {:2} {:2}{}  {}{:3}",
                e.t.0 % 100,
                e.t.1,
                e.t.2,
                e.t.3,
                e.t.4,
                e.t.secs(),
                e.flag,
                e.sats.len()
            );
            let n = if full { e.sats.len() } else { 12 };
            for s in e.sats.iter().take(n) {
                l += &format!("{}{:02}", s.sys, s.prn);
            }
            l
        } else {
            format!(
                "> {:04} {:02} {:02} {:02} {:02}{}  {}{:3}",
                e.t.0,
                e.t.1,
                e.t.2,
                e.t.3,
                e.t.4,
                e.t.secs(),
                e.flag,
                e.sats.len()
            )
        }
    }

    /// Body lines of one epoch, untrimmed fixed-width lines.
    pub fn epoch_text(&self, e: &MEpoch) -> Vec<String> {
        let mut v = vec![];
        let mut l = self.epoch_line(e, false);
        if self.major() < 3 {
            if let Some(c) = e.clock {
                l = format!("{l:<68}{:>12}", fixed(c, 9));
            }
            v.push(l);
            for chunk in e.sats.chunks(12).skip(1) {
                let mut l = " ".repeat(32);
                for s in chunk {
                    l += &format!("{}{:02}", s.sys, s.prn);
                }
                v.push(l);
            }
            for s in &e.sats {
                for chunk in s.obs.chunks(5) {
                    v.push(chunk.iter().map(field).collect());
                }
            }
        } else {
            if let Some(c) = e.clock {
                l = format!("{l:<35}{:6}{:>15}", "", fixed(c, 12));
            }
            v.push(l);
            for s in &e.sats {
                let mut l = format!("{}{:02}", s.sys, s.prn);
                for o in &s.obs {
                    l += &field(o);
                }
                v.push(l);
            }
        }
        v
    }
    pub fn text(&self, trim: usize) -> String {
        let mut t = self.header();
        for e in &self.epochs {
            for l in self.epoch_text(e) {
                t += &fill(&l, trim);
                t.push('\n');
            }
        }
        t
    }

    pub fn key(&self, e: &MEpoch) -> ObsKey {
        ObsKey {
            epoch: e.t.epoch(self.ts()),
            flag: EpochFlag::from_str(&e.flag.to_string()).unwrap(),
        }
    }
    /// What a reader has to return.
    pub fn expected(&self) -> Expected {
        let mut m = Expected::new();
        for e in &self.epochs {
            if matches!(e.flag, 2..=5) {
                continue;
            }
            let clk = e.clock.map(|c| dbl(c, if self.major() < 3 { 9 } else { 12 }));
            let mut sigs = BTreeMap::new();
            for s in &e.sats {
                for (o, code) in s.obs.iter().zip(self.codes_of(s.sys)) {
                    if let Some(o) = o {
                        sigs.insert(
                            (sv(s.sys, s.prn), code.clone()),
                            Sig {
                                value: dbl(o.milli, 3),
                                lli: (o.lli as char).to_digit(8).map(|d| d as u8),
                                ssi: (o.ssi as char).to_digit(10).map(|d| d as u8),
                            },
                        );
                    }
                }
            }
            m.insert(self.key(e), (clk, sigs));
        }
        m
    }
}

/// 0: fixed-width fields, 1: blanks trimmed, 2: lines filled to 80 columns
pub fn fill(l: &str, how: usize) -> String {
    match how {
        0 => l.to_string(),
        1 => l.trim_end().to_string(),
        _ => format!("{l:<80}"),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sig {
    pub value: f64,
    pub lli: Option<u8>,
    pub ssi: Option<u8>,
}
pub type Expected = BTreeMap<ObsKey, (Option<f64>, BTreeMap<(SV, String), Sig>)>;

/// F14.3, I1, I1
pub fn field(o: &Option<MObs>) -> String {
    match o {
        None => " ".repeat(16),
        Some(o) => format!(
            "{:>14}{}{}",
            fixed(o.milli, 3),
            o.lli as char,
            o.ssi as char
        ),
    }
}

pub fn ssi_num(s: SNR) -> u8 {
    match s {
        SNR::DbHz0 => 0,
        SNR::DbHz12 => 1,
        SNR::DbHz12_17 => 2,
        SNR::DbHz18_23 => 3,
        SNR::DbHz24_29 => 4,
        SNR::DbHz30_35 => 5,
        SNR::DbHz36_41 => 6,
        SNR::DbHz42_47 => 7,
        SNR::DbHz48_53 => 8,
        SNR::DbHz54 => 9,
    }
}

/// The library's record in the model's terms; an error when an item is there twice.
pub fn observed(r: &Rinex) -> Result<Expected, String> {
    let rec = r.record.as_obs().ok_or("not an observation record")?;
    let mut m = Expected::new();
    for (k, v) in rec {
        let mut sigs = BTreeMap::new();
        for s in &v.signals {
            let id = (s.sv, s.observable.to_string());
            let sig = Sig {
                value: s.value,
                lli: s.lli.map(|l| l.bits()),
                ssi: s.snr.map(ssi_num),
            };
            if sigs.insert(id.clone(), sig).is_some() {
                return Err(format!("{:?} reported twice at {}", id, k.epoch));
            }
        }
        m.insert(*k, (v.clock.map(|c| c.offset_s), sigs));
    }
    Ok(m)
}

/// First difference, in words.
pub fn diff(want: &Expected, got: &Expected, tol: f64) -> Option<String> {
    for (k, w) in want {
        let Some(g) = got.get(k) else {
            return Some(format!(
                "epoch {} flag {} is missing (got {:?})",
                k.epoch,
                k.flag,
                got.keys().map(|k| k.epoch.to_string()).collect::<Vec<_>>()
            ));
        };
        let ok = match (w.0, g.0) {
            (None, None) => true,
            (Some(a), Some(b)) => (a - b).abs() <= tol * 1e-6,
            _ => false,
        };
        if !ok {
            return Some(format!("{}: clock offset {:?}, want {:?}", k.epoch, g.0, w.0));
        }
        for (id, s) in &w.1 {
            match g.1.get(id) {
                None => return Some(format!("{}: {} {} = {:?} is missing", k.epoch, id.0, id.1, s)),
                Some(x) if (x.value - s.value).abs() > tol || x.lli != s.lli || x.ssi != s.ssi => {
                    return Some(format!("{}: {} {} = {:?}, want {:?}", k.epoch, id.0, id.1, x, s))
                },
                _ => {},
            }
        }
        for id in g.1.keys() {
            if !w.1.contains_key(id) {
                return Some(format!("{}: {} {} = {:?} is invented", k.epoch, id.0, id.1, g.1[id]));
            }
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Some(format!("epoch {} flag {} is invented", k.epoch, k.flag));
        }
    }
    None
}

// ---------------------------------------------------------------- CRINEX

/// Hatanaka differencing as the format document defines it.
#[derive(Clone, Default)]
struct Arc {
    order: usize,
    hist: Vec<i64>,
}
impl Arc {
    fn init(&mut self, order: usize, v: i64) -> String {
        self.order = order;
        self.hist = vec![v];
        format!("{order}&{v}")
    }
    fn next(&mut self, v: i64) -> String {
        self.hist.push(v);
        let k = self.order.min(self.hist.len() - 1);
        let n = self.hist.len() - 1;
        let (mut c, mut s) = (1i64, 0i64);
        for i in 0..=k {
            s += if i % 2 == 0 { c } else { -c } * self.hist[n - i];
            c = c * (k - i) as i64 / (i + 1) as i64;
        }
        s.to_string()
    }
}
fn textdiff(old: &str, new: &str) -> String {
    let n = old.len().max(new.len());
    let at = |s: &str, i: usize| s.as_bytes().get(i).copied().unwrap_or(b' ');
    let s: String = (0..n)
        .map(|i| match (at(old, i), at(new, i)) {
            (a, b) if a == b => ' ',
            (_, b' ') => '&',
            (_, b) => b as char,
        })
        .collect();
    s.trim_end().to_string()
}

/// How a compressor uses the freedom the format leaves.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct CrxOpts {
    pub order: usize,
    /// epochs (bit mask) whose line is sent in full
    pub full: u32,
    /// arcs are re-initialised at these epochs (bit mask)
    pub reinit: u32,
    /// blanks at the end of lines are removed
    pub trim: bool,
}

impl MFile {
    pub fn crinex_header(&self) -> String {
        let v = if self.major() < 3 { "1.0" } else { "3.0" };
        hl(&format!("{v:<20}{:<40}", "COMPACT RINEX FORMAT"), "CRINEX VERS   / TYPE")
            + &hl(&format!("{:<40}{}", "MODEL", "01-Jan-21 00:00"), "CRINEX PROG / DATE")
    }
    /// CRINEX body lines, epoch by epoch.
    pub fn crinex_body(&self, o: CrxOpts) -> Vec<String> {
        let v3 = self.major() >= 3;
        let mut v = vec![];
        let mut prev = String::new();
        let mut clk = Arc::default();
        let mut had_clk = false;
        let mut arcs: BTreeMap<(char, u8, usize), Arc> = BTreeMap::new();
        let mut flags: BTreeMap<(char, u8), String> = BTreeMap::new();
        let mut last: Vec<(char, u8)> = vec![];
        for (i, e) in self.epochs.iter().enumerate() {
            let mut l = self.epoch_line(e, true);
            if v3 {
                l = format!("{l:<41}");
                for s in &e.sats {
                    l += &format!("{}{:02}", s.sys, s.prn);
                }
            }
            let full = i == 0 || o.full >> i.min(31) & 1 == 1;
            if full {
                let mark = if v3 { '>' } else { '&' };
                v.push(format!("{mark}{}", &l[1..]));
            } else {
                let d = textdiff(&prev[1..], &l[1..]);
                v.push(format!(" {d}"));
            }
            prev = l;
            let reinit = full || o.reinit >> i.min(31) & 1 == 1;
            match e.clock {
                None => {
                    v.push(String::new());
                    had_clk = false;
                },
                Some(c) => {
                    v.push(if had_clk && !reinit {
                        clk.next(c)
                    } else {
                        clk.init(o.order, c)
                    });
                    had_clk = true;
                },
            }
            let mut now = vec![];
            for s in &e.sats {
                now.push((s.sys, s.prn));
                let risen = !last.contains(&(s.sys, s.prn)) || full;
                let mut l = String::new();
                let mut f = String::new();
                for (k, ob) in s.obs.iter().enumerate() {
                    let id = (s.sys, s.prn, k);
                    match ob {
                        None => {
                            arcs.remove(&id);
                            f += "  ";
                        },
                        Some(ob) => {
                            if risen || reinit {
                                arcs.remove(&id);
                            }
                            l += &match arcs.get_mut(&id) {
                                Some(a) => a.next(ob.milli),
                                None => arcs.entry(id).or_default().init(o.order, ob.milli),
                            };
                            f.push(ob.lli as char);
                            f.push(ob.ssi as char);
                        },
                    }
                    l.push(' ');
                }
                let old = if risen {
                    String::new()
                } else {
                    flags.get(&(s.sys, s.prn)).cloned().unwrap_or_default()
                };
                l += &textdiff(&old, &f);
                flags.insert((s.sys, s.prn), f);
                v.push(l);
            }
            last = now;
        }
        if o.trim {
            for l in v.iter_mut() {
                l.truncate(l.trim_end().len());
            }
        }
        v
    }
    pub fn crinex(&self, o: CrxOpts) -> String {
        let mut t = self.crinex_header() + &self.header();
        for l in self.crinex_body(o) {
            t += &l;
            t.push('\n');
        }
        t
    }
}
