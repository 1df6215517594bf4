//! P18: antenna files.
use crate::engine::*;
use crate::model::antex::*;
use crate::model::obs::MTime;
use crate::util::*;
use crate::{bail, ensure};
use rinex::antex::AntennaMatcher;
use rinex::prelude::*;
use std::str::FromStr;

fn read(e: &mut Exec, text: &str) -> R<Rinex> {
    e.note(|| format!("file:\n{text}"));
    Ok(no_panic("Rinex::parse", || parse_str(text))?.map_err(|x| format!("Rinex::parse refused a well-formed file: {x:?}"))?)
}
fn check(e: &mut Exec, ants: &[MAnt], text: &str) -> R<Rinex> {
    let rnx = read(e, text)?;
    let got = observed(&rnx)?;
    ensure!(got.len() == ants.len(), "{} antennas instead of {}", got.len(), ants.len());
    for (i, (a, g)) in ants.iter().zip(&got).enumerate() {
        let mut w = a.expected();
        // a validity period that has one bound only: the other one is open
        if a.from.is_some() != a.until.is_some() {
            if a.from.is_none() {
                w.from = g.from;
            }
            if a.until.is_none() {
                w.until = g.until;
            }
        }
        ensure!(*g == w, "antenna {i}: {g:?} instead of {w:?}");
        e.state(&format!("{g:?}"));
        e.step();
    }
    ensure!(rnx.antennas().count() == ants.len(), "antennas(): {} items", rnx.antennas().count());
    e.outcome(&format!("{got:?}"));
    e.validated();
    Ok(rnx)
}
fn lookups(e: &mut Exec, ants: &[MAnt], rnx: &Rinex, at: &[Epoch]) -> R {
    for t in at {
        let valid: Vec<usize> = ants.iter().enumerate().filter(|(_, a)| a.valid(t)).map(|(i, _)| i).collect();
        let all: Vec<_> = rnx.antennas().map(|(a, _)| a as *const _).collect();
        let got: Vec<usize> = rnx.antex_valid_calibrations(*t).map(|(a, _)| all.iter().position(|x| *x == a as *const _).unwrap()).collect();
        ensure!(got == valid, "antex_valid_calibrations({t:?}): {got:?} instead of {valid:?}");
        for f in ["G01", "G02", "E01"] {
            let c = Carrier::from_str(carrier(f)).unwrap();
            let apc = |i: usize| ants[i].freqs.iter().find(|x| x.name == f).map(|x| (x.neu[0] as f64 / 100.0, x.neu[1] as f64 / 100.0, x.neu[2] as f64 / 100.0));
            for sv in ["G01", "G02", "E01"] {
                let want = valid.iter().filter(|i| matches!(&ants[**i].id, Ident::Sv(_, p, _, _) if *p == sv)).filter_map(|i| apc(*i)).next();
                let got = rnx.sv_antenna_apc_offset(*t, SV::from_str(sv).unwrap(), c);
                ensure!(got == want, "sv_antenna_apc_offset({t:?}, {sv}, {c:?}): {got:?} instead of {want:?}");
                e.evals(1);
            }
            for code in ["AOAD/M_T", "aoad/m_t", "TRM59800.00", "S1", "AOAD"] {
                let want = valid.iter().filter(|i| matches!(&ants[**i].id, Ident::Rx(p, _, _) if p.eq_ignore_ascii_case(code))).filter_map(|i| apc(*i)).next();
                let got = rnx.rx_antenna_apc_offset(*t, AntennaMatcher::IGSCode(code.into()), c);
                ensure!(got == want, "rx_antenna_apc_offset({t:?}, IGS {code}, {c:?}): {got:?} instead of {want:?}");
            }
            for sn in ["S1", "s1", "S2", "", "AOAD/M_T", "NONE"] {
                let want = valid.iter().filter(|i| matches!(&ants[**i].id, Ident::Rx(_, _, s) if !s.is_empty() && s.eq_ignore_ascii_case(sn))).filter_map(|i| apc(*i)).next();
                let got = rnx.rx_antenna_apc_offset(*t, AntennaMatcher::SerialNumber(sn.into()), c);
                ensure!(got == want, "rx_antenna_apc_offset({t:?}, serial {sn}, {c:?}): {got:?} instead of {want:?}");
            }
        }
    }
    Ok(())
}
const IDS: [Ident; 11] = [
    Ident::Rx("AOAD/M_T", "NONE", ""),
    Ident::Rx("AOAD/M_T", "DOME", ""),
    Ident::Rx("AOAD/M_T", "NONE", "NONE-12345"),
    Ident::Rx("TRM59800.00", "SCIS", "S1"),
    Ident::Rx("TRM59800.00", "", "727259"),
    Ident::Rx("ASH700936B_M    ", "", "01234567890123456789"),
    Ident::Sv("BLOCK IIA", "G01", "G032", "1992-079A"),
    Ident::Sv("GALILEO-2", "E04", "E213", "2016-069C"),
    Ident::Sv("GLONASS-M", "R24", "R735", "2010-007BA"),
    Ident::Sv("BLOCK IIR-M", "G07", "", "2008-012A"),
    Ident::Sv("BEIDOU-3SM-CAST", "C32", "C212", ""),
];
fn full(t: &str) -> &str {
    t.trim_end()
}

pub fn run(ctx: &mut Ctx) {
    ctx.explore("no COSPAR", "satellite antennas whose launch number (optional field) is blank, with or without SVN, alone or next to another antenna", |e| {
        e.label("no COSPAR");
        let Ident::Sv(t, sv, svn, _) = e.pick(&IDS[6..]).clone() else { unreachable!() };
        let svn = if e.flag() { svn } else { "" };
        let other = e.flag();
        let a = MAnt { id: Ident::Sv(t, sv, svn, ""), ..MAnt::sv() };
        let x = if other { text(&[a, MAnt::rx()]) } else { text(&[a]) };
        let rnx = read(e, &x)?;
        let n = rnx.antennas().filter(|(a, _)| matches!(&a.specific, rinex::antex::AntennaSpecific::SvAntenna(s) if s.sv.to_string() == sv)).count();
        e.outcome(&n);
        e.step();
        e.validated();
        ensure!(n == 1, "{n} antennas of {sv}");
        Ok(())
    });
    ctx.explore("identity", "antenna identity x calibration method x agency x number of calibrated antennas x azimuth step x zenith grid x SINEX code x comments", |e| {
        let id = e.pick(&IDS[..10]).clone();
        let id = match id {
            Ident::Rx(t, r, s) => Ident::Rx(full(t), r, s),
            x => x,
        };
        let mut a = MAnt { id, ..MAnt::rx() };
        a.method = *e.pick(&["ROBOT", "CHAMBER", "FIELD", "COPIED", "CONVERTED", ""]);
        a.agency = *e.pick(&["Geo++ GmbH", "", "IGG, Univ. Bonn", "ABCDEFGHIJKLMNOPQRST"]);
        a.number = *e.pick(&[0u16, 1, 32, 999]);
        a.dazi = *e.pick(&[0i64, 50, 900, 25]);
        a.zen = *e.pick(&[[0i64, 900, 50], [0, 170, 10], [5, 800, 25]]);
        a.sinex = *e.pick(&["IGS14_2247", "", "IGS20"]);
        a.comments = e.flag();
        let x = text(&[a.clone()]);
        check(e, &[a], &x).map(|_| ())
    });
    ctx.explore("frequencies", "every set of up to two frequencies (three with RMS sections) x eccentricities x pattern lengths (or no pattern)", |e| {
        let neu = [[58, -37, 9185], [0, 0, 0], [-999_999, 9_999_999, -1], [1, -100, 123_456]];
        let len = [0usize, 1, 3, 5, 6, 7, 18, 19];
        let mut a = if e.flag() { MAnt::rx() } else { MAnt::sv() };
        a.dazi = *e.pick(&[0i64, 1800]);
        a.freqs.clear();
        for k in 0..e.choose(3) {
            let f = FREQS[e.choose(FREQS.len())].0;
            if a.freqs.iter().any(|x| carrier(x.name) == carrier(f)) {
                e.trivial();
                return Ok(());
            }
            let n = *e.pick(&len);
            let c = e.choose(2);
            let rms = e.flag();
            let v = if k == 0 { [0, 3][c] } else { [2, 1][c] };
            a.freqs.push(MFreq { name: f, neu: neu[v], pattern: (0..n as i64).map(|i| [0, -12_345, 99_999, -5, 7][(i as usize + k) % 5]).collect(), rms });
        }
        let x = text(&[a.clone()]);
        check(e, &[a], &x).map(|_| ())
    });
    ctx.explore("validity", "both, one or none of the bounds of the validity period, x instants around each bound (also in another time scale)", |e| {
        let times = [MTime(1992, 11, 22, 0, 0, 0), MTime(2008, 10, 16, 23, 59, 599_999_999), MTime(2009, 2, 28, 12, 1, 10_000_000), MTime(2016, 12, 31, 23, 59, 555_000_000), MTime(1999, 1, 1, 9, 8, 70_500_000)];
        let mut a = if e.flag() { MAnt::rx() } else { MAnt::sv() };
        let mut at = vec![Epoch::from_gregorian_utc_at_midnight(1981, 1, 1), Epoch::from_gregorian_utc_at_midnight(2099, 1, 1)];
        for (k, b) in [&mut a.from, &mut a.until].into_iter().enumerate() {
            if e.flag() {
                let t = e.pick(&times).clone();
                let x = t.epoch(TimeScale::UTC);
                for d in [-1_000_000_000i64, -1000, -1, 0, 1, 1000, 1_000_000_000] {
                    at.push(x + Duration::from_truncated_nanoseconds(d));
                    at.push((x + Duration::from_truncated_nanoseconds(d)).to_time_scale(TimeScale::GPST));
                }
                let _ = k;
                *b = Some(t);
            }
        }
        let ants = [a];
        let x = text(&ants);
        let rnx = check(e, &ants, &x)?;
        lookups(e, &ants, &rnx, &at)
    });
    let depth = ctx.q(2, 3);
    ctx.explore("lookup", "every sequence of antennas (identity, frequencies, validity) x every query around the bounds", move |e| {
        let ids = [Ident::Rx("AOAD/M_T", "NONE", ""), Ident::Rx("AOAD/M_T", "SCIS", "S1"), Ident::Rx("TRM59800.00", "NONE", "S2"), Ident::Sv("BLOCK IIA", "G01", "G032", "1992-079A"), Ident::Sv("BLOCK IIF", "G02", "G063", "2011-036A"), Ident::Sv("GALILEO-2", "E01", "E210", "2016-030B")];
        let sets: [&[&'static str]; 4] = [&["G01"], &["G02", "E01"], &["G01", "G02"], &[]];
        let periods = [(None, None), (Some(2000), Some(2010)), (Some(2010), Some(2020)), (Some(2010), None), (None, Some(2010))];
        let mut ants = vec![];
        for k in 0..1 + e.choose(depth) {
            let id = e.pick(&ids).clone();
            let set = *e.pick(&sets);
            let (f, u) = *e.pick(&periods);
            let y = |y: i32| MTime(y, 6, 1, 0, 0, 0);
            ants.push(MAnt {
                id,
                from: f.map(y),
                until: u.map(|u| MTime(u, 5, 31, 23, 59, 599_999_999)),
                freqs: set.iter().enumerate().map(|(i, f)| MFreq { name: f, neu: [100 * k as i64 + i as i64, -(k as i64), 5000 + i as i64], pattern: vec![k as i64, i as i64], rms: k == 1 }).collect(),
                ..MAnt::rx()
            });
        }
        let x = text(&ants);
        let rnx = check(e, &ants, &x)?;
        let at: Vec<Epoch> = [(1999, 6, 1), (2000, 6, 1), (2010, 5, 31), (2010, 6, 1), (2020, 6, 2)].iter().map(|(y, m, d)| Epoch::from_gregorian_utc_at_midnight(*y, *m, *d)).collect();
        lookups(e, &ants, &rnx, &at)
    });
    ctx.explore("header", "system x kind of variations x reference antenna x its serial number", |e| {
        let s = *e.pick(&[('M', "Mixed"), ('G', "GPS"), ('R', "Glonass"), ('E', "Galileo"), ('C', "BeiDou"), ('J', "QZSS")]);
        let (p, r) = *e.pick(&[("A", ""), ("R", "AOAD/M_T"), ("R", ""), ("R", "TRM59800.00     SCIS")]);
        let sn = *e.pick(&["", "123", "01234567890123456789"]);
        let x = header(s.0, p, r, sn) + &MAnt::rx().text();
        let rnx = read(e, &x)?;
        let h = &rnx.header;
        ensure!(rnx.is_antex(), "type {:?}", h.rinex_type);
        ensure!(h.version == Version::new(1, 4), "version {}", h.version);
        ensure!(h.constellation.map(|c| format!("{c:?}")) == Some(s.1.to_string()), "constellation {:?}", h.constellation);
        let Some(a) = &h.antex else { bail!("no antenna header") };
        let want = match (p, r) {
            ("A", _) => rinex::antex::Pcv::Absolute,
            (_, "") => rinex::antex::Pcv::Relative("AOAD/M_T".into()),
            (_, r) => rinex::antex::Pcv::Relative(r.into()),
        };
        ensure!(a.pcv_type == want, "{:?} instead of {want:?}", a.pcv_type);
        ensure!(a.reference_ant_sn.clone().unwrap_or_default() == sn, "reference antenna {:?}", a.reference_ant_sn);
        e.outcome(&format!("{a:?}{:?}", h.constellation));
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("date", "day x month x year of the calibration", |e| {
        e.label("calibration date");
        let d = *e.pick(&["01-JAN-01", "12-NOV-96", "29-FEB-20", "31-DEC-12", "23-SEP-20", "10-MAY-08", "24-NOV-00", "05-Jun-10", "06-JUL-07", "08-AUG-09", "09-OCT-15", "11-APR-14", "15-MAR-79", "16-FEB-80"]);
        let a = MAnt { date: d, ..MAnt::rx() };
        let x = text(&[a.clone()]);
        let rnx = read(e, &x)?;
        let got = observed(&rnx)?;
        ensure!(got.len() == 1, "{} antennas", got.len());
        ensure!(got[0].date == a.expected().date, "{d}: {} instead of {}", got[0].date, a.expected().date);
        e.outcome(&got[0].date);
        e.validated();
        Ok(())
    });
    ctx.explore("long", "files of 1..400 antennas (61 sizes) x their kind; 0 to 21 frequencies; patterns of 1..181 angles x azimuths 0..72", |e| {
        let mut ants = vec![];
        if e.flag() {
            let n = *e.pick(&counts()[..61]);
            let kind = e.choose(3);
            for k in 0..n {
                let base = if kind == 0 || kind == 2 && k % 2 == 0 { MAnt::rx() } else { MAnt::sv() };
                ants.push(MAnt {
                    number: k as u16,
                    from: (k % 3 == 1).then(|| clock_at(k as u64 * 60)),
                    freqs: ["G01", "G02", "E01"][..1 + k % 3].iter().map(|f| MFreq { name: f, neu: [k as i64, -(k as i64), 7], pattern: vec![k as i64, 5], rms: k % 4 == 0 }).collect(),
                    ..base
                });
            }
        } else {
            let mut names: Vec<&'static str> = vec![];
            for (f, c) in FREQS {
                if names.iter().all(|x| carrier(x) != c) {
                    names.push(f);
                }
            }
            let n = e.choose(names.len() + 1);
            let angles = *e.pick(&[1usize, 2, 18, 19, 73, 91, 127, 128, 129, 181]);
            let dazi = *e.pick(&[0i64, 50, 300, 1800]);
            let rms = e.flag();
            ants.push(MAnt {
                dazi,
                freqs: names[..n].iter().enumerate().map(|(k, f)| MFreq { name: f, neu: [k as i64, 100 - k as i64, 5], pattern: (0..angles as i64).map(|i| (i * 37 + k as i64) % 20_000 - 9_999).collect(), rms }).collect(),
                ..MAnt::rx()
            });
        }
        let x = text(&ants);
        check(e, &ants, &x).map(|_| ())
    });
}
