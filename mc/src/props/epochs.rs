//! P07: epochs are read and written exactly.
use crate::engine::*;
use crate::model::clk::*;
use crate::model::doris::*;
use crate::model::hl;
use crate::model::ionex::*;
use crate::model::met::MMet;
use crate::model::nav::*;
use crate::model::obs::MTime;
use crate::util::*;
use crate::{bail, ensure};
use rinex::prelude::*;
use rinex::record::Record;

/// Days between 1900-01-01 and a date of the Gregorian calendar.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 693_901
}
/// (first UTC day, TAI - UTC)
const LEAPS: [(i64, i64, i128); 20] = [
    (1979, 1, 18),
    (1980, 1, 19),
    (1981, 7, 20),
    (1982, 7, 21),
    (1983, 7, 22),
    (1985, 7, 23),
    (1988, 1, 24),
    (1990, 1, 25),
    (1991, 1, 26),
    (1992, 7, 27),
    (1993, 7, 28),
    (1994, 7, 29),
    (1996, 1, 30),
    (1997, 7, 31),
    (1999, 1, 32),
    (2006, 1, 33),
    (2009, 1, 34),
    (2012, 7, 35),
    (2015, 7, 36),
    (2017, 1, 37),
];
/// Nanoseconds since 1900-01-01 00:00:00, of a clock that shows the date.
fn calendar(t: &MTime) -> i128 {
    let s = days(t.0 as i64, t.1 as i64, t.2 as i64) * 86_400 + t.3 as i64 * 3600 + t.4 as i64 * 60;
    s as i128 * 1_000_000_000 + t.5 as i128 * 100
}
/// Nanoseconds since 1900-01-01 00:00:00 TAI.
fn tai(t: &MTime, ts: TimeScale) -> i128 {
    let d = days(t.0 as i64, t.1 as i64, t.2 as i64);
    let offset = match ts {
        TimeScale::TAI => 0,
        TimeScale::GPST | TimeScale::GST | TimeScale::QZSST => 19,
        TimeScale::BDT => 33,
        TimeScale::UTC => LEAPS.iter().rev().find(|l| days(l.0, l.1, 1) <= d).expect("model: date").2,
        _ => unreachable!(),
    };
    calendar(t) + offset * 1_000_000_000
}
/// Same clock reading, in the same time scale, and the same physical instant.
fn same(what: &str, got: &Epoch, t: &MTime, ts: TimeScale) -> R {
    let s = got.time_scale;
    ensure!(s == ts, "{what}: the time scale of {t:?} is {ts:?}, not {s:?}");
    let reference = match ts {
        TimeScale::GPST | TimeScale::QZSST => days(1980, 1, 6),
        TimeScale::GST => days(1999, 8, 22),
        TimeScale::BDT => days(2006, 1, 1),
        _ => 0,
    };
    let ns = got.duration.total_nanoseconds() + reference as i128 * 86_400_000_000_000;
    ensure!(ns == calendar(t), "{what}: {t:?} {ts:?} was read as {got:?}, {} ns apart", ns - calendar(t));
    // (Hifitime looks up leap seconds with doubles: not exact in the microsecond that precedes one)
    if t.5 % 10_000_000 < 9_999_990 {
        let ns = got.to_tai_duration().total_nanoseconds();
        ensure!(ns == tai(t, ts), "{what}: {t:?} {ts:?} was read as {got:?}, {} ns apart in TAI", ns - tai(t, ts));
    }
    Ok(())
}
fn epochs(r: &Rinex) -> Vec<Epoch> {
    let mut v: Vec<Epoch> = match &r.record {
        Record::ObsRecord(r) => r.keys().map(|k| k.epoch).collect(),
        Record::MeteoRecord(r) => r.keys().map(|k| k.epoch).collect(),
        Record::NavRecord(r) => r.keys().map(|k| k.epoch).collect(),
        Record::ClockRecord(r) => r.keys().copied().collect(),
        Record::IonexRecord(r) => r.keys().map(|k| k.epoch).collect(),
        Record::DorisRecord(r) => r.keys().map(|k| k.epoch).collect(),
        _ => vec![],
    };
    v.dedup();
    v
}
fn read_one(e: &mut Exec, what: &str, text: &str, t: &MTime, ts: TimeScale) -> R<Rinex> {
    e.note(|| text.to_string());
    let r = no_panic("parse", || parse_str(text))?;
    let r = match r {
        Ok(r) => r,
        Err(x) => bail!("{what}: refused {x:?}"),
    };
    e.step();
    let v = epochs(&r);
    ensure!(v.len() == 1, "{what}: the record holds {} epochs ({v:?}) instead of one, {t:?}", v.len());
    same(what, &v[0], t, ts)?;
    Ok(r)
}
fn written(e: &mut Exec, what: &str, r: &Rinex, t: &MTime, ts: TimeScale) -> R {
    let text = match no_panic("format", || format_rinex(r))? {
        Ok(t) => t,
        Err(x) => bail!("{what}: not written: {x}"),
    };
    e.note(|| text.clone());
    let back = match no_panic("parse", || parse_str(&text))? {
        Ok(r) => r,
        Err(x) => bail!("{what}: what was written is refused: {x:?}"),
    };
    e.step();
    let v = epochs(&back);
    ensure!(v.len() == 1, "{what}: once written and read back the record holds {} epochs instead of one, {t:?}", v.len());
    same(&format!("{what}, written and read back"), &v[0], t, ts)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind07 {
    /// system of the file, scale of TIME OF FIRST OBS
    Obs2(char, &'static str),
    Obs3(char, &'static str),
    Met2,
    Met3,
    /// table
    Nav(usize),
    /// V4 system messages
    Ion(char, &'static str),
    Eop,
    Clk(&'static str, &'static str),
    Ionex,
    Doris,
}
use Kind07::*;
fn scale(s: &str) -> TimeScale {
    match s {
        "GPS" | "IRN" => TimeScale::GPST,
        "GLO" | "UTC" => TimeScale::UTC,
        "GAL" => TimeScale::GST,
        "QZS" => TimeScale::QZSST,
        "BDT" | "BDS" => TimeScale::BDT,
        "TAI" => TimeScale::TAI,
        _ => panic!("model: scale {s}"),
    }
}
fn scale_sys(c: char) -> TimeScale {
    match c {
        'R' => TimeScale::UTC,
        'E' => TimeScale::GST,
        'C' => TimeScale::BDT,
        'J' => TimeScale::QZSST,
        _ => TimeScale::GPST,
    }
}
fn table(major: u8, sys: char, msg: &str) -> usize {
    TABLES.iter().position(|t| t.major == major && t.sys == sys && t.msg == msg).expect("model: table")
}
impl Kind07 {
    fn scale(self) -> TimeScale {
        match self {
            Obs2(c, "") | Obs3(c, "") => scale_sys(c),
            Obs2(_, s) | Obs3(_, s) | Clk(_, s) => scale(s),
            Met2 | Met3 | Ionex => TimeScale::UTC,
            Nav(t) => scale_sys(TABLES[t].sys),
            Ion(c, _) => scale_sys(c),
            Eop => TimeScale::GPST,
            Doris => TimeScale::TAI,
        }
    }
    /// smallest step of the seconds, in 100 ns
    fn unit(self) -> u32 {
        match self {
            Obs2(..) | Obs3(..) | Doris => 1,
            Clk(..) => 10,
            Nav(t) if TABLES[t].major == 2 => 1_000_000,
            _ => 10_000_000,
        }
    }
    fn two_digits(self) -> bool {
        matches!(self, Obs2(..) | Met2) || matches!(self, Nav(t) if TABLES[t].major == 2)
    }
    fn writes(self) -> bool {
        match self {
            Obs2(..) | Obs3(..) | Met2 | Met3 => true,
            _ => false,
        }
    }
    fn text(self, t: &MTime) -> String {
        let secs = format!("{:3}.{:07}", t.5 / 10_000_000, t.5 % 10_000_000);
        match self {
            Obs2(c, s) | Obs3(c, s) => {
                let v2 = matches!(self, Obs2(..));
                let letter = if c == 'M' { 'G' } else { c };
                let mut h = hl(&format!("{:>9}{:11}{:20}{c}", if v2 { "2.11" } else { "3.04" }, "", "OBSERVATION DATA"), "RINEX VERSION / TYPE");
                if !s.is_empty() {
                    h += &hl(&format!("{:6}{:6}{:6}{:6}{:6}{:>13}     {s}", t.0, t.1, t.2, t.3, t.4, secs), "TIME OF FIRST OBS");
                }
                h += &if v2 { hl("     1    C1", "# / TYPES OF OBSERV") } else { hl(&format!("{letter}    1 C1C"), "SYS / # / OBS TYPES") };
                h += &hl("", "END OF HEADER");
                if v2 {
                    h += &format!(" {:02} {:2} {:2} {:2} {:2}{secs}  0  1{letter}21\n  20000000.000\n", t.0 % 100, t.1, t.2, t.3, t.4);
                } else {
                    h += &format!("> {:4} {:02} {:02} {:02} {:02}{secs}  0  1\n{letter}21  20000000.000\n", t.0, t.1, t.2, t.3, t.4);
                }
                h
            },
            Met2 | Met3 => MMet { version: if self == Met2 { "2.11" } else { "3.04" }, codes: vec!["PR"], epochs: vec![(*t, vec![Some(10_000)])] }.text(0),
            Nav(n) => {
                let tb = &TABLES[n];
                let version = ["2.11", "3.04", "4.00"][tb.major as usize - 2];
                MNav { version, sys: if tb.major == 2 { tb.sys } else { 'M' }, msgs: vec![MMsg::Eph(blank_eph(n, if tb.sys == 'S' { 23 } else { 7 }, *t, 0))] }.text(PLAIN)
            },
            Ion(c, msg) => {
                let z = Num::int(1);
                let ion = match msg {
                    "CNVX" => crate::model::nav::Ion::Bdgim([z; 9]),
                    "IFNV" => crate::model::nav::Ion::Nequick([z; 3], 0),
                    _ => crate::model::nav::Ion::Klobuchar([z; 8], 0),
                };
                MNav { version: "4.00", sys: 'M', msgs: vec![MMsg::Ion { sys: c, prn: 7, msg, t: *t, ion }] }.text(PLAIN)
            },
            Eop => {
                let z = [Some(Num::int(1)); 3];
                MNav { version: "4.00", sys: 'M', msgs: vec![MMsg::Eop { sys: 'G', prn: 7, msg: "CNAV", t: *t, x: z, y: z, t_tm: Num::int(3), ut1: z }] }.text(PLAIN)
            },
            Clk(version, s) => MClkFile { version, sys: 'M', scale: Some(s), entries: vec![MClk { kind: "AS", name: Name::Sat('G', 7), t: *t, vals: vec![(123_456_789_012, -3)] }] }.text(0),
            Ionex => {
                let map = |t: &MTime| MMap { kind: Kind::Tec, t: *t, exponent: None, vals: vec![Some(10); 4] };
                // (a second map, as the last one is a known finding of P16)
                MIonex { lat: Axis(100, -25, 2), lon: Axis(-50, 50, 2), hgt: Axis(4500, 0, 1), exponent: Some(-1), maps: vec![map(t), map(&MTime(2090, 1, 1, 0, 0, 0))] }.text(true, true)
            },
            Doris => {
                let o = Some((1000, None, None));
                MDoris { codes: DCODES[..2].to_vec(), stations: vec![1], epochs: vec![DEpoch { ns: 0, t: *t, flag: 0, clock: None, extrapolated: None, stations: vec![(1, vec![o, o])] }] }.text(0)
            },
        }
    }
}
const YEARS: [i32; 14] = [1980, 1981, 1989, 1990, 1999, 2000, 2001, 2009, 2016, 2017, 2024, 2038, 2079, 2080];
const DATES: [(u8, u8); 14] = [(1, 1), (1, 9), (1, 10), (1, 31), (2, 28), (2, 29), (3, 1), (6, 30), (7, 1), (9, 9), (10, 10), (11, 30), (12, 1), (12, 31)];
const HOURS: [(u8, u8); 8] = [(0, 0), (0, 1), (0, 9), (9, 59), (10, 10), (12, 30), (23, 0), (23, 59)];
const SECONDS: [u32; 6] = [0, 1, 9, 10, 30, 59];
const FRACTIONS: [u32; 12] = [0, 1, 9, 10, 123, 1_000_000, 1_234_567, 5_000_000, 9_000_000, 9_999_990, 9_999_999, 3_333_333];

fn instant(e: &mut Exec, k: Kind07, years: &[i32], dates: &[(u8, u8)], hours: &[(u8, u8)], seconds: &[u32], fractions: &[u32]) -> Option<MTime> {
    let y = *e.pick(years);
    let (m, d) = *e.pick(dates);
    let (hh, mm) = *e.pick(hours);
    let s = *e.pick(seconds);
    let fr: Vec<u32> = fractions.iter().copied().filter(|f| f % k.unit() == 0).collect();
    let f = *e.pick(&fr);
    if k.two_digits() && y >= 2080 || (m, d) == (2, 29) && y % 4 != 0 {
        e.trivial();
        return None;
    }
    Some(MTime(y, m, d, hh, mm, s * 10_000_000 + f))
}
fn one(e: &mut Exec, k: Kind07, t: &MTime) -> R {
    let what = format!("{k:?}");
    let r = read_one(e, &what, &k.text(t), t, k.scale())?;
    if k.writes() {
        written(e, &what, &r, t, k.scale())?;
    }
    e.outcome(&(what, t));
    e.validated();
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let deep = ctx.q(false, true);
    let nav = |majors: &[u8]| -> Vec<Kind07> { (0..TABLES.len()).filter(|n| majors.contains(&TABLES[*n].major)).map(Nav).collect() };
    let mut systems = vec![];
    const ALL_SCALES: [&str; 7] = ["", "GPS", "GLO", "GAL", "QZS", "BDT", "IRN"];
    for s in ALL_SCALES {
        for c in "MGRECJIS".chars() {
            // (the time system of NavIC has no counterpart in Hifitime: it has to be declared)
            if "MI".contains(c) && s.is_empty() {
                continue;
            }
            systems.push(Obs3(c, s));
            if "MGRES".contains(c) {
                systems.push(Obs2(c, s));
            }
        }
    }
    systems.extend(nav(&[2, 3, 4]));
    for s in ["GPS", "GLO", "GAL", "QZS", "BDS", "BDT", "IRN", "UTC", "TAI"] {
        systems.push(Clk("3.00", s));
        systems.push(Clk("3.04", s));
    }
    systems.extend([Met2, Met3, Ionex, Doris, Eop]);
    systems.extend([Ion('G', "LNAV"), Ion('E', "IFNV"), Ion('C', "D1D2"), Ion('C', "CNVX"), Ion('J', "LNAV")]);
    ctx.explore("time systems", "every record type, version, satellite system and declared time scale x instants around the leap seconds, calendar boundaries and week rollovers, read and written back", move |e| {
        let k = *e.pick(&systems);
        let Some(t) = instant(e, k, &[1980, 1999, 2016, 2017, 2024, 2079], &[(1, 1), (1, 6), (2, 29), (6, 30), (7, 1), (12, 31)], &[(0, 0), (9, 5), (23, 59)], &[0, 7, 59], &[0, 1, 1_000_000, 9_999_990]) else { return Ok(()) };
        one(e, k, &t)
    });
    let kinds = [
        Obs2('G', ""),
        Obs2('R', "GLO"),
        Obs3('M', "GPS"),
        Obs3('R', "GLO"),
        Obs3('C', "BDT"),
        Met2,
        Met3,
        Nav(table(2, 'G', "LNAV")),
        Nav(table(2, 'R', "LNAV")),
        Nav(table(3, 'G', "LNAV")),
        Nav(table(3, 'R', "LNAV")),
        Nav(table(3, 'E', "LNAV")),
        Nav(table(3, 'C', "LNAV")),
        Nav(table(3, 'S', "LNAV")),
        Nav(table(4, 'R', "FDMA")),
        Clk("3.00", "UTC"),
        Clk("3.04", "GPS"),
        Ionex,
        Doris,
    ];
    ctx.explore("instants", "one or two time scales per record type x years x dates x hours x seconds x fractions, read and written back", move |e| {
        let k = *e.pick(&kinds);
        let t = instant(e, k, &YEARS, &DATES, &HOURS, &SECONDS, &FRACTIONS);
        let Some(t) = t else { return Ok(()) };
        one(e, k, &t)
    });
    ctx.explore("every second digit pair", "every value of the year, month, day, hour, minute and second fields, one at a time, per record type", move |e| {
        let k = *e.pick(&kinds);
        let mut t = MTime(2021, 7, 4, 10, 20, 300_000_000);
        match e.choose(6) {
            0 => t.0 = 1980 + e.choose(100) as i32,
            1 => t.1 = 1 + e.choose(12) as u8,
            2 => t.2 = 1 + e.choose(31) as u8,
            3 => t.3 = e.choose(24) as u8,
            4 => t.4 = e.choose(60) as u8,
            _ => t.5 = e.choose(60) as u32 * 10_000_000,
        }
        one(e, k, &t)
    });
    ctx.explore("every date", "every day of 1980-2079 (quick: of 12 years), at 4 times of the day, per record type, read and written back", move |e| {
        let k = *e.pick(&kinds);
        let y = if deep { 1980 + e.choose(100) as i32 } else { *e.pick(&[1980, 1981, 1992, 1999, 2000, 2001, 2004, 2016, 2017, 2023, 2038, 2079]) };
        let m = 1 + e.choose(12) as u8;
        let n = match m {
            2 => 28 + (y % 4 == 0) as usize,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        let d = 1 + e.choose(n) as u8;
        let (hh, mm, s) = *e.pick(&[(0, 0, 0), (0, 0, 18), (12, 30, 30), (23, 59, 59)]);
        one(e, k, &MTime(y, m, d, hh, mm, s * 10_000_000))
    });
    ctx.explore("every fraction", "every pattern of up to 2 non null digits (1, 5, 9) among the 7 of a fraction of a second, and every tenth", move |e| {
        let k = *e.pick(&kinds);
        let mut f = 0u32;
        let (a, b) = (e.choose(7), e.choose(7));
        let (x, y) = (*e.pick(&[1u32, 5, 9]), *e.pick(&[0u32, 1, 9]));
        f += x * 10u32.pow(a as u32);
        if b != a {
            f += y * 10u32.pow(b as u32);
        }
        if f % k.unit() != 0 || a == b && y > 0 {
            e.trivial();
            return Ok(());
        }
        let s = *e.pick(&[0u32, 9, 30, 59]);
        one(e, k, &MTime(2021, 12, 31, 23, 59, s * 10_000_000 + f))
    });
    ctx.explore("header", "TIME OF FIRST and LAST OBS: systems, scales and instants, read and written back", |e| {
        let v2 = e.flag();
        let c = *e.pick(&['M', 'G', 'R', 'E', 'S']);
        let s = *e.pick(&ALL_SCALES);
        if c == 'M' && s.is_empty() {
            e.trivial();
            return Ok(());
        }
        let k = if v2 { Obs2(c, s) } else { Obs3(c, s) };
        let label = if e.flag() { "TIME OF FIRST OBS" } else { "TIME OF LAST OBS" };
        let Some(t) = instant(e, Obs3(c, s), &[1980, 1999, 2016, 2024, 2079, 2080], &[(1, 1), (2, 29), (6, 30), (12, 31)], &[(0, 0), (9, 5), (23, 59)], &[0, 7, 59], &[0, 1, 1_234_567, 9_999_999]) else { return Ok(()) };
        let scale_text = s;
        let text = hl(&format!("{:>9}{:11}{:20}{c}", if v2 { "2.11" } else { "3.04" }, "", "OBSERVATION DATA"), "RINEX VERSION / TYPE")
            + &hl(&format!("{:6}{:6}{:6}{:6}{:6}{:5}.{:07}     {scale_text}", t.0, t.1, t.2, t.3, t.4, t.5 / 10_000_000, t.5 % 10_000_000), label)
            + &hl("", "END OF HEADER");
        e.note(|| text.clone());
        let get = |r: &Rinex| r.header.obs.as_ref().and_then(|o| if label == "TIME OF FIRST OBS" { o.timeof_first_obs } else { o.timeof_last_obs });
        let r = no_panic("parse", || parse_str(&text))?.map_err(|x| format!("refused {x:?}"))?;
        let Some(got) = get(&r) else { bail!("{label} was not read") };
        same(label, &got, &t, k.scale())?;
        let text = no_panic("format", || format_rinex(&r))?.map_err(|x| format!("not written {x:?}"))?;
        e.note(|| text.clone());
        let r = no_panic("parse", || parse_str(&text))?.map_err(|x| format!("refused what was written {x:?}"))?;
        let Some(got) = get(&r) else { bail!("{label} was not written") };
        same(&format!("{label}, written and read back"), &got, &t, k.scale())?;
        e.step();
        e.outcome(&(label, k.scale(), t));
        e.validated();
        Ok(())
    });
}
