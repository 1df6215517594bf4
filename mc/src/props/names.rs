//! P23: standard file names.
use super::sampling::build;
use crate::engine::*;
use crate::ensure;
use crate::samples;
use rinex::prod::{DataSource, DetailedProductionAttributes, ProductionAttributes, FFU, PPU};
use rinex::prelude::*;
use hifitime::Unit;
use std::str::FromStr;

const PPUS: [(&str, PPU); 5] =
    [("01D", PPU::Daily), ("15M", PPU::QuarterHour), ("01H", PPU::Hourly), ("01Y", PPU::Yearly), ("00U", PPU::Unspecified)];
const SOURCES: [(char, DataSource); 3] = [('R', DataSource::Receiver), ('S', DataSource::Stream), ('U', DataSource::Unknown)];
const UNITS: [(char, Unit, f64, u32); 4] = [('S', Unit::Second, 1.0, 60), ('M', Unit::Minute, 60.0, 60), ('H', Unit::Hour, 3600.0, 24), ('D', Unit::Day, 86400.0, 100)];

/// System of a file, its letter in long names.
const SYSTEMS: [(Option<Constellation>, char); 9] = [
    (Some(Constellation::Mixed), 'M'),
    (None, 'M'),
    (Some(Constellation::GPS), 'G'),
    (Some(Constellation::Glonass), 'R'),
    (Some(Constellation::Galileo), 'E'),
    (Some(Constellation::BeiDou), 'C'),
    (Some(Constellation::QZSS), 'J'),
    (Some(Constellation::IRNSS), 'I'),
    (Some(Constellation::SBAS), 'S'),
];

/// Kinds of file: sample record, letter in long names.
const KINDS: [(&str, char); 5] = [("obs", 'O'), ("crx", 'O'), ("nav", 'N'), ("meteo", 'M'), ("ionex", 'I')];

/// The letter of short names, when the standard has one.
fn short_type(kind: &str, system: Option<Constellation>) -> Option<char> {
    Some(match kind {
        "obs" => 'O',
        "crx" => 'D',
        "meteo" => 'M',
        "ionex" => 'I',
        _ => match system {
            Some(Constellation::GPS) => 'N',
            Some(Constellation::Glonass) => 'G',
            Some(Constellation::Galileo) => 'L',
            Some(Constellation::Mixed) => 'P',
            Some(Constellation::SBAS) => 'H',
            _ => return None,
        },
    })
}

fn file(kind: &str, system: Option<Constellation>, epochs: &[Epoch]) -> Rinex {
    let list: Vec<(Epoch, bool)> = epochs.iter().map(|t| (*t, false)).collect();
    let mut rnx = build(kind, &list);
    rnx.header.constellation = system;
    rnx
}

fn parsed(name: &str) -> R<ProductionAttributes> {
    let r = no_panic(name, || ProductionAttributes::from_str(name))?;
    r.map_err(|e| Fail::from(format!("{name}: refused, {e}")))
}

/// All fields of a long name.
#[derive(Clone, Debug)]
struct Long {
    name: &'static str,
    batch: u8,
    country: &'static str,
    src: (char, DataSource),
    year: u32,
    doy: u32,
    hh: u8,
    mm: u8,
    ppu: (&'static str, PPU),
    ffu: (u32, usize),
    kind: (&'static str, char),
    system: (Option<Constellation>, char),
}
impl Long {
    fn first() -> Self {
        Self {
            name: "ESBC",
            batch: 0,
            country: "DNK",
            src: SOURCES[0],
            year: 2020,
            doy: 177,
            hh: 0,
            mm: 0,
            ppu: PPUS[0],
            ffu: (30, 0),
            kind: KINDS[0],
            system: SYSTEMS[0],
        }
    }
    fn text(&self) -> String {
        let ffu = if self.kind.0 == "nav" { String::new() } else { format!("_{:02}{}", self.ffu.0, UNITS[self.ffu.1].0) };
        let class = if self.kind.0 == "meteo" { "MM".to_string() } else { format!("{}{}", self.system.1, self.kind.1) };
        format!(
            "{}{:02}{}_{}_{:04}{:03}{:02}{:02}_{}{}_{}.{}",
            self.name,
            self.batch,
            self.country,
            self.src.0,
            self.year,
            self.doy,
            self.hh,
            self.mm,
            self.ppu.0,
            ffu,
            class,
            if self.kind.0 == "crx" { "crx" } else { "rnx" }
        )
    }
    fn attributes(&self) -> ProductionAttributes {
        ProductionAttributes {
            name: self.name.to_string(),
            year: self.year,
            doy: self.doy,
            region: None,
            v3_details: Some(DetailedProductionAttributes {
                country: self.country.to_string(),
                batch: self.batch,
                data_src: self.src.1,
                ppu: self.ppu.1,
                ffu: if self.kind.0 == "nav" { None } else { Some(FFU { val: self.ffu.0, unit: UNITS[self.ffu.1].1 }) },
                hh: self.hh,
                mm: self.mm,
            }),
        }
    }
}

/// Reading a long name, writing it again.
fn long(e: &mut Exec, l: &Long, lower: bool, suffix: &str) -> R {
    let text = l.text();
    let name = format!("{text}{suffix}");
    e.note(|| name.clone());
    let got = parsed(&if lower { name.to_lowercase() } else { name.clone() })?;
    e.step();
    e.outcome(&name);
    ensure!(got == l.attributes(), "{name}: {got:?} instead of {:?}", l.attributes());
    let t = Epoch::from_gregorian(2001, 2, 3, 4, 5, 0, 0, TimeScale::GPST);
    for epochs in [vec![], vec![t], vec![t, t + 15.0 * Unit::Second]] {
        let mut rnx = file(l.kind.0, l.system.0, &epochs);
        // (a known receiver tells more than an unknown source)
        if l.src.0 == 'S' || l.src.0 == 'R' && epochs.len() == 1 {
            rnx.header.rcvr = Some(Default::default());
        }
        let suffix = if suffix.is_empty() { None } else { Some(suffix) };
        let out = no_panic("file name", || rnx.standard_filename(false, suffix, Some(got.clone())))?;
        ensure!(out == name, "{name}: written {out}");
        e.evals(1);
    }
    // the name that is formed is read
    let again = parsed(&text)?;
    ensure!(again == got, "{text}: {again:?} instead of {got:?}");
    e.validated();
    Ok(())
}

fn leap(y: u32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn date(y: u32, doy: u32) -> (u8, u8) {
    let days = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut left = doy;
    for (m, d) in days.iter().enumerate() {
        if left <= *d {
            return (m as u8 + 1, left as u8);
        }
        left -= d;
    }
    unreachable!()
}

pub fn run(ctx: &mut Ctx) {
    ctx.explore("short names", "all two digit years, days of year, types; names, upper and lower case, compression suffixes", |e| {
        let yy = e.choose(100) as u32;
        let doy = *e.pick(&[1, 9, 10, 60, 99, 100, 200, 355, 366]);
        let kind = *e.pick(&[("obs", 'O'), ("crx", 'D'), ("meteo", 'M'), ("nav", 'N'), ("nav", 'G'), ("nav", 'L'), ("nav", 'P'), ("nav", 'H'), ("ionex", 'I')]);
        let name = *e.pick(&["AJAC", "0ROV", "KMS3"]);
        let suffix = *e.pick(&["", ".gz", ".Z"]);
        let lower = e.flag();
        let text = format!("{name}{doy:03}0.{yy:02}{}", kind.1);
        let file_name = format!("{text}{suffix}");
        e.note(|| file_name.clone());
        e.outcome(&file_name);
        let got = parsed(&if lower { file_name.to_lowercase() } else { file_name.clone() })?;
        e.step();
        let year = if yy < 80 { 2000 + yy } else { 1900 + yy };
        let ionex = kind.0 == "ionex";
        let want = ProductionAttributes {
            name: if ionex { name[..3].to_string() } else { name.to_string() },
            year,
            doy,
            v3_details: None,
            region: if ionex { name.chars().nth(3) } else { None },
        };
        ensure!(got == want, "{file_name}: {got:?} instead of {want:?}");
        let system = match kind.1 {
            'G' => Some(Constellation::Glonass),
            'N' => Some(Constellation::GPS),
            'L' => Some(Constellation::Galileo),
            'H' => Some(Constellation::EGNOS),
            _ => Some(Constellation::Mixed),
        };
        let t = Epoch::from_gregorian(2001, 2, 3, 4, 5, 0, 0, TimeScale::GPST);
        for epochs in [vec![], vec![t]] {
            let rnx = file(kind.0, system, &epochs);
            let suffix = if suffix.is_empty() { None } else { Some(suffix) };
            let out = no_panic("file name", || rnx.standard_filename(true, suffix, Some(got.clone())))?;
            ensure!(out == file_name, "{file_name}: written {out}");
            e.evals(1);
        }
        e.validated();
        Ok(())
    });

    let budget = ctx.q(4, 6);
    ctx.explore("long names", "all fields over their alphabets, up to four (six) of them away from the usual ones", |e| {
        e.budget = budget;
        let mut l = Long::first();
        l.name = *e.dev(&["ESBC", "KMS3", "0000"]);
        l.batch = *e.dev(&[0, 1, 9, 10, 42, 99]);
        l.country = *e.dev(&["DNK", "FRA", "0XX"]);
        l.src = *e.dev(&SOURCES);
        l.year = *e.dev(&[2020, 1999, 2000, 2099]);
        l.doy = *e.dev(&[177, 1, 10, 366]);
        l.hh = *e.dev(&[0, 9, 23]);
        l.mm = *e.dev(&[0, 5, 59]);
        l.ppu = *e.dev(&PPUS);
        l.kind = KINDS[e.choose(4)];
        if l.kind.0 != "nav" {
            l.ffu = *e.dev(&[(30, 0), (1, 0), (15, 1), (1, 2), (1, 3)]);
        }
        if l.kind.0 != "meteo" {
            l.system = *e.dev(&SYSTEMS);
        }
        let lower = e.deviate(2) == 1;
        let suffix = *e.dev(&["", ".gz", ".Z"]);
        long(e, &l, lower, suffix)
    });

    ctx.explore("long names, fields", "each field over its complete domain, for each kind of file", |e| {
        let mut l = Long::first();
        l.kind = KINDS[e.choose(4)];
        match e.choose(7) {
            0 => l.batch = e.choose(100) as u8,
            1 => l.year = 1980 + e.choose(120) as u32,
            2 => l.doy = 1 + e.choose(366) as u32,
            3 => l.hh = e.choose(24) as u8,
            4 => l.mm = e.choose(60) as u8,
            5 => {
                if l.kind.0 == "nav" {
                    e.trivial();
                    return Ok(());
                }
                l.ffu = (1 + e.choose(99) as u32, e.choose(4));
            },
            _ => {
                l.ppu = *e.pick(&PPUS);
                l.src = *e.pick(&SOURCES);
            },
        }
        long(e, &l, false, "")
    });

    ctx.explore("names of records", "all days of two years, hours, time scales, kinds of file, systems; name, country, source, periodicity kept from the original file name when there was one", |e| {
        let kind = KINDS[e.choose(KINDS.len())];
        let y = *e.pick(&[2020, 2021, 1996]);
        let days = if leap(y) { 366 } else { 365 };
        let doy = 1 + if e.flag() { *e.pick(&[0, 58, 59, 60, 181, days - 1]) } else { e.choose(days as usize) as u32 };
        let (hh, mm, ss) = *e.pick(&[(0, 0, 0), (11, 59, 59), (12, 0, 30), (23, 59, 59)]);
        let ts = *e.pick(&[TimeScale::GPST, TimeScale::UTC, TimeScale::BDT]);
        if ts == TimeScale::BDT && y < 2006 || (ss == 59 && ts == TimeScale::UTC && doy == days && hh == 23) {
            // (before the origin of the scale; next to the leap seconds)
            e.trivial();
            return Ok(());
        }
        let (m, d) = date(y, doy);
        let t0 = Epoch::from_gregorian(y as i32, m, d, hh, mm, ss, 0, ts);
        let (step, ffu) = *e.pick(&[(None, ""), (Some(30.0), "30S"), (Some(900.0), "15M")]);
        let mut epochs = vec![t0];
        epochs.extend(step.map(|s| t0 + Duration::from_seconds(s)));
        epochs.extend(step.map(|s| t0 + Duration::from_seconds(2.0 * s)));
        let system = if y == 2020 { SYSTEMS[0] } else { *e.pick(&[SYSTEMS[0], SYSTEMS[2], SYSTEMS[3], SYSTEMS[4]]) };
        let origin = if kind.0 == "ionex" {
            ["CKMG0020.22I", "JPLE0020.22I"][e.choose(2)]
        } else if y == 2021 {
            ["ESBC07DNK_S_20222772223_01H_05M_MO.crx", "AJAC3550.21O"][e.choose(2)]
        } else {
            "ESBC07DNK_S_20222772223_01H_05M_MO.crx"
        };
        let mut rnx = file(kind.0, system.0, &epochs);
        rnx.production = parsed(origin)?;
        let details = origin.len() > 13;
        if !details {
            rnx.header.rcvr = Some(Default::default());
        }
        let out = no_panic("file name", || rnx.standard_filename(true, None, None))?;
        e.step();
        if let Some(x) = short_type(kind.0, system.0) {
            let name = &origin[..4];
            let want = format!("{name}{doy:03}0.{:02}{x}", y % 100);
            ensure!(out == want, "short name: {out} instead of {want}");
        }
        if kind.0 == "ionex" {
            return Ok(());
        }
        let out = no_panic("file name", || rnx.standard_filename(false, Some(".gz"), None))?;
        let class = if kind.0 == "meteo" { "MM".to_string() } else { format!("{}{}", system.1, kind.1) };
        let ffu = match (kind.0, ffu, details) {
            ("nav", _, _) => String::new(),
            (_, "", true) => "_05M".to_string(),
            (_, "", false) => "_XXX".to_string(),
            (_, f, _) => format!("_{f}"),
        };
        let (who, ppu) = if details { ("ESBC07DNK_S", "01H") } else { ("AJAC00CCC_R", "00U") };
        let want = format!("{who}_{y:04}{doy:03}{hh:02}{mm:02}_{ppu}{ffu}_{class}.{}.gz", if kind.0 == "crx" { "crx" } else { "rnx" });
        ensure!(out == want, "long name: {out} instead of {want}");

        // what can be guessed
        rnx.header.geodetic_marker = Some(GeodeticMarker::default().with_name("MARK"));
        let got = no_panic("guess", || rnx.guess_production_attributes())?;
        let mut want = rnx.production.clone();
        want.name = "MARK".to_string();
        want.year = y;
        want.doy = doy;
        let mut det = want.v3_details.clone().unwrap_or(DetailedProductionAttributes {
            country: "XXX".to_string(),
            batch: 0,
            data_src: DataSource::Unknown,
            ppu: PPU::Unspecified,
            ffu: step.map(|s| if s == 30.0 { FFU { val: 30, unit: Unit::Second } } else { FFU { val: 15, unit: Unit::Minute } }),
            hh: 0,
            mm: 0,
        });
        det.hh = hh;
        det.mm = mm;
        det.ppu = match step {
            Some(900.0) => PPU::Hourly, // half an hour
            _ => PPU::Unspecified,
        };
        want.v3_details = Some(det);
        e.outcome(&out);
        ensure!(got == want, "guess: {got:?} instead of {want:?}");
        e.evals(3);
        e.validated();
        Ok(())
    });

    ctx.explore("tokens", "all rates and periods; durations", |e| {
        match e.choose(4) {
            0 => {
                let (val, unit) = (1 + e.choose(99) as u32, e.choose(4));
                let text = format!("{val:02}{}", UNITS[unit].0);
                let want = FFU { val, unit: UNITS[unit].1 };
                let got = no_panic("rate", || FFU::from_str(&text))?.map_err(|e| Fail::from(format!("{text}: refused, {e}")))?;
                ensure!(got == want, "{text}: {got:?}");
                ensure!(want.to_string() == text, "{want:?}: displayed {want}");
            },
            1 => {
                // a whole number of the unit, below the next one
                let unit = e.choose(4);
                let (c, u, s, max) = UNITS[unit];
                let val = 1 + e.choose(max as usize - 1) as u32;
                let got = no_panic("rate", || FFU::from(Duration::from_seconds(val as f64 * s)))?;
                ensure!(got == FFU { val, unit: u }, "{val} {c}: {got:?}");
            },
            2 => {
                let (text, want) = *e.pick(&PPUS);
                let got = no_panic("period", || PPU::from_str(text))?.map_err(|e| Fail::from(format!("{text}: refused, {e}")))?;
                ensure!(got == want && want.to_string() == text, "{text}: {got:?}, displayed {want}");
            },
            _ => {
                // the period that a file covers, and the same less one sample
                let (s, want) = *e.pick(&[(900.0, PPU::QuarterHour), (3600.0, PPU::Hourly), (86400.0, PPU::Daily), (1800.0, PPU::Hourly), (7200.0, PPU::Daily), (366.0 * 86400.0, PPU::Yearly)]);
                let less = *e.pick(&[0.0, 1.0, 30.0]);
                if s > 1.0E6 && less != 0.0 {
                    e.trivial();
                    return Ok(());
                }
                let got = no_panic("period", || PPU::from(Duration::from_seconds(s - less)))?;
                ensure!(got == want, "{} s: {got:?}", s - less);
            },
        }
        e.step();
        Ok(())
    });

    ctx.explore("other names", "truncations and single character changes of standard names: read or refused", |e| {
        let base = *e.pick(&[
            "AJAC3550.21O",
            "CKMG0020.22I",
            "AJAC3550.21O.gz",
            "ESBC00DNK_R_20201772223_01D_30S_MO.crx",
            "AMEL00NLD_R_20210010000_01D_MN.rnx.gz",
            "COD20352.CLK",
            "COD21925.CLK_05S",
            "GRG0MGXFIN_20201770000_01D_30S_CLK.CLK.gz",
            "igs14_small.atx.gz",
            "cs2rx18164.gz",
        ]);
        let i = e.choose(base.len() + 1);
        let name = match e.choose(5) {
            0 => base[..i].to_string(),
            1 => base[i..].to_string(),
            2 => format!("{}{}{}", &base[..i], *e.pick(&["é", "€", ".", "_", "9", "Z", "ß", "-", "+", " ", ".."]), &base[i..]),
            3 if i < base.len() => format!("{}{}{}", &base[..i], *e.pick(&["é", "€", ".", "_", "9", "Z", "ß", "-", "+", " ", ""]), &base[i + 1..]),
            4 if i + 2 <= base.len() => format!("{}{}{}", &base[..i], *e.pick(&["é", "𝄞"]), &base[i + 2..]),
            _ => String::new(),
        };
        e.note(|| name.clone());
        let got = no_panic(&name, || ProductionAttributes::from_str(&name))?;
        e.step();
        e.outcome(&format!("{got:?}"));
        if let Ok(a) = &got {
            // what was read can be written
            let rnx = file("obs", None, &[]);
            no_panic("file name", || rnx.standard_filename(false, None, Some(a.clone())))?;
            no_panic("file name", || rnx.standard_filename(true, None, Some(a.clone())))?;
            let rnx = file("ionex", None, &[]);
            no_panic("file name", || rnx.standard_filename(true, None, Some(a.clone())))?;
        }
        for s in [&name[..], name.get(..3).unwrap_or(""), name.get(2..).unwrap_or("")] {
            let _ = no_panic(s, || FFU::from_str(s))?;
            let _ = no_panic(s, || PPU::from_str(s))?;
            let _ = no_panic(s, || DataSource::from_str(s))?;
        }
        for s in ["3é", "é0S", "€", "30€", "é", ""] {
            let _ = no_panic(s, || FFU::from_str(s))?;
        }
        Ok(())
    });

    ctx.explore("files", "sample files stored under standard names and others", |e| {
        let all = samples::all();
        let i = e.choose(all.len());
        let name = *e.pick(&["AJAC3550.21O", "ESBC07DNK_S_20222772223_01H_05M_MO.crx", "CKMG0020.22I", "readme", "é", "AJAC3550.21"]);
        let gz = e.flag();
        let dir = std::env::temp_dir().join(format!("mc-names-{}-{:?}", std::process::id(), std::thread::current().id()));
        let r = (|| -> R {
            std::fs::create_dir_all(&dir).map_err(|e| Fail::from(e.to_string()))?;
            let file_name = if gz { format!("{name}.gz") } else { name.to_string() };
            let path = dir.join(&file_name);
            let text = all[i].text();
            if gz {
                use std::io::Write;
                let f = std::fs::File::create(&path).map_err(|e| Fail::from(e.to_string()))?;
                let mut w = flate2::write::GzEncoder::new(f, flate2::Compression::fast());
                w.write_all(text.as_bytes()).and_then(|_| w.finish()).map_err(|e| Fail::from(e.to_string()))?;
            } else {
                std::fs::write(&path, text).map_err(|e| Fail::from(e.to_string()))?;
            }
            let rnx = no_panic("read", || if gz { Rinex::from_gzip_file(&path) } else { Rinex::from_file(&path) })?.map_err(|e| Fail::from(format!("{file_name}: {e}")))?;
            let want = match name {
                "AJAC3550.21O" | "ESBC07DNK_S_20222772223_01H_05M_MO.crx" | "CKMG0020.22I" => parsed(name)?,
                _ => ProductionAttributes::default(),
            };
            ensure!(rnx.production == want, "{file_name}: {:?} instead of {want:?}", rnx.production);
            Ok(())
        })();
        let _ = std::fs::remove_dir_all(&dir);
        e.step();
        e.validated();
        r
    });

    ctx.explore("other types", "naming a file of the types the generator does not know", |e| {
        let kind = *e.pick(&["clock", "doris", "antex"]);
        let rnx = file(kind, None, &[Epoch::from_gregorian(2021, 1, 1, 0, 0, 0, 0, TimeScale::GPST)]);
        e.label(&format!("no name for {kind}"));
        let short = e.flag();
        no_panic("file name", || rnx.standard_filename(short, None, None))?;
        Ok(())
    });
}
