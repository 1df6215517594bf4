//! Small well-formed files of every type: a header, then blocks (one per
//! epoch, message or antenna), written by the models.
use crate::model::obs::*;
use crate::model::*;
use rinex::record::Record;

#[derive(Clone, Debug)]
pub struct Sample {
    pub name: &'static str,
    pub header: String,
    pub blocks: Vec<String>,
    /// what follows the last block
    pub tail: String,
}
impl Sample {
    pub fn text(&self) -> String {
        self.header.clone() + &self.blocks.concat() + &self.tail
    }
    fn new(name: &'static str, header: String, lines: Vec<Vec<String>>) -> Self {
        Self {
            name,
            header,
            blocks: lines.into_iter().map(|v| v.into_iter().map(|l| format!("{}\n", l.trim_end())).collect()).collect(),
            tail: String::new(),
        }
    }
}
pub fn mt(i: usize) -> MTime {
    MTime(2021, 12, 31, 23, 58 + (i / 2) as u8, 10_000_000 * (i as u32 % 2 * 30))
}
/// Header lines of a file made with care, whatever its type.
fn rich() -> String {
    hl("A COMMENT", "COMMENT")
        + &hl("10001M001", "MARKER NUMBER")
        + &hl("GEODETIC", "MARKER TYPE")
        + &hl("OBSERVER            AGENCY", "OBSERVER / AGENCY")
        + &hl("12345               SEPT POLARX5        5.4.0", "REC # / TYPE / VERS")
        + &hl("67890               AOAD/M_T        NONE", "ANT # / TYPE")
        + &hl("  4027881.3478   306998.5362  4919498.8534", "APPROX POSITION XYZ")
        + &hl("        1.5000        0.2500       -0.1250", "ANTENNA: DELTA H/E/N")
        + &hl("    30.000", "INTERVAL")
        + &hl("    18", "LEAP SECONDS")
}
pub fn obs_file(v3: bool, clocks: bool) -> MFile {
    let codes: Vec<String> = if v3 { ["C1C", "L1C", "D1C", "S1C"] } else { ["C1", "L1", "P2", "S1"] }.iter().map(|s| s.to_string()).collect();
    let sat = |sys, prn, i: i64, miss: usize| MSat {
        sys,
        prn,
        obs: (0..4).map(|k| if k == miss { None } else { mo(20_000_000_123 + 1000 * prn as i64 + 77 * i + k as i64 * 13, b" 1 7"[k], b"7 95"[k]) }).collect(),
    };
    let clk = |c: i64| if clocks { Some(c) } else { None };
    MFile {
        version: if v3 { "3.04" } else { "2.11" },
        sys: 'M',
        codes: if v3 { vec![('G', codes.clone()), ('R', codes)] } else { vec![('M', codes)] },
        scale: "GPS",
        epochs: vec![
            MEpoch { t: mt(0), flag: 0, clock: clk(123_456_789), sats: vec![sat('G', 1, 0, 9), sat('R', 24, 0, 2)] },
            MEpoch { t: mt(1), flag: 0, clock: clk(-123), sats: vec![sat('G', 1, 1, 1), sat('R', 24, 1, 3), sat('G', 32, 1, 9)] },
            MEpoch { t: mt(2), flag: 1, clock: None, sats: vec![sat('R', 24, 2, 9)] },
        ],
    }
}
fn obs(name: &'static str, v3: bool) -> Sample {
    let f = obs_file(v3, true);
    let mut x = rich();
    if v3 {
        x += &hl("G APPL_DCB          xyz.uvw.abc", "SYS / DCBS APPLIED");
        x += &hl("G   10   2 L1C D1C", "SYS / SCALE FACTOR");
        x += &hl("     1", "RCV CLOCK OFFS APPL");
        x += &hl("  1 R24 -7", "GLONASS SLOT / FRQ #");
        x += &hl("G L1C  0.00000", "SYS / PHASE SHIFT");
    } else {
        x += &hl("     1     1", "WAVELENGTH FACT L1/2");
    }
    Sample::new(name, f.header_with(&x), f.epochs.iter().map(|e| f.epoch_text(e)).collect())
}
fn crx(name: &'static str, v3: bool) -> Sample {
    let f = obs_file(v3, false);
    let o = CrxOpts { order: 3, full: 0, reinit: 0, trim: true };
    let mut done = 0;
    let mut blocks = vec![];
    for n in 1..=f.epochs.len() {
        let g = MFile { epochs: f.epochs[..n].to_vec(), ..f.clone() };
        let b = g.crinex_body(o);
        blocks.push(b[done..].to_vec());
        done = b.len();
    }
    Sample::new(name, f.crinex_header() + &f.header_with(&rich()), blocks)
}
fn nav(name: &'static str, version: &'static str, sys: char, msgs: Vec<nav::MMsg>) -> Sample {
    let n = nav::MNav { version, sys, msgs };
    let mut h = n.header();
    let extra = if version.starts_with('2') {
        hl("    0.1490D-07 -0.1490D-07 -0.5960D-07  0.1192D-06", "ION ALPHA") + &hl("    0.1167D+06 -0.2458D+06 -0.6554D+05  0.1114D+07", "ION BETA") + &hl("    0.745058059692D-08 0.532907051820D-14   147456     1395", "DELTA-UTC: A0,A1,T,W")
    } else {
        hl("GPSA   1.4901e-08  7.4506e-09 -5.9605e-08 -5.9605e-08", "IONOSPHERIC CORR") + &hl("GPSB   9.0112e+04  0.0000e+00 -1.9661e+05 -6.5536e+04", "IONOSPHERIC CORR") + &hl("GAL    1.0000e+02  2.0000e-01  3.0000e-03", "IONOSPHERIC CORR") + &hl("GPUT  0.2793967723E-08 0.000000000E+00 147456 1395", "TIME SYSTEM CORR")
    };
    let e = h.find("    18 ").unwrap();
    h.insert_str(e, &(hl("A COMMENT", "COMMENT") + &extra));
    let lines = n.msgs.iter().map(|m| n.lines(m, nav::PLAIN)).collect();
    Sample::new(name, h, lines)
}
fn table(major: u8, sys: char, msg: &str) -> usize {
    nav::TABLES.iter().position(|t| t.major == major && t.sys == sys && t.msg == msg).unwrap_or_else(|| panic!("no table {major} {sys} {msg}"))
}
pub fn all() -> Vec<Sample> {
    use nav::*;
    let mut v = vec![obs("obs2", false), obs("obs3", true), crx("crx1", false), crx("crx3", true)];
    for (name, version) in [("met2", "2.11"), ("met3", "3.04")] {
        let m = met::MMet { version, codes: vec!["PR", "TD", "HR"], epochs: (0..3).map(|i| (mt(i), vec![Some(10_123), if i == 1 { None } else { Some(-45) }, Some(800 + i as i64)])).collect() };
        let extra = hl("A COMMENT", "COMMENT") + &hl("PAROSCIENTIFIC      740-16B                       0.2    PR", "SENSOR MOD/TYPE/ACC") + &hl("        0.0000        0.0000        0.0000     1234.5678 PR", "SENSOR POS XYZ/H");
        let h = m.header().replace(&hl("", "END OF HEADER"), &(extra + &hl("", "END OF HEADER")));
        v.push(Sample::new(name, h, m.epochs.iter().map(|(t, x)| m.epoch_lines(t, x)).collect()));
    }
    let e = |v: u8, sys: char, msg: &str, prn: u8, i: usize| MMsg::Eph(blank_eph(table(v, sys, msg), prn, MTime(2021, 12, 31, 22, 0, 10_000_000 * i as u32), 7 * i as i64));
    v.push(nav("nav2", "2.11", 'G', vec![e(2, 'G', "LNAV", 1, 0), e(2, 'G', "LNAV", 2, 1)]));
    v.push(nav("nav2r", "2.10", 'R', vec![e(2, 'R', "LNAV", 1, 0), e(2, 'R', "LNAV", 24, 1)]));
    v.push(nav("nav3", "3.03", 'M', vec![e(3, 'G', "LNAV", 1, 0), e(3, 'R', "LNAV", 24, 1), e(3, 'S', "LNAV", 20, 2), e(3, 'E', "LNAV", 4, 3)]));
    let n = |i: i64| Num(1_234_567_890_120 + 10 * i, -7);
    let t = MTime(2021, 12, 31, 22, 0, 0);
    v.push(nav(
        "nav4",
        "4.00",
        'M',
        vec![
            e(4, 'G', "LNAV", 1, 0),
            MMsg::Ion { sys: 'G', prn: 1, msg: "LNAV", t, ion: Ion::Klobuchar([n(0), n(1), n(2), n(3), n(4), n(5), n(6), n(7)], 0) },
            e(4, 'C', "D1", 6, 1),
            MMsg::Eop { sys: 'G', prn: 1, msg: "CNAV", t, x: [Some(n(1)), Some(n(2)), Some(n(3))], y: [Some(n(4)), Some(n(5)), Some(n(6))], t_tm: Num::int(3), ut1: [Some(n(7)), Some(n(8)), Some(n(9))] },
            MMsg::Ion { sys: 'E', prn: 4, msg: "IFNV", t, ion: Ion::Nequick([n(0), n(1), n(2)], 3) },
            MMsg::Sto { sys: 'G', prn: 1, msg: "LNAV", t, code: "GPUT", utc: "UTC(USNO)", t_tm: Num::int(4), a: [n(1), n(2), n(3)] },
            MMsg::Ion { sys: 'C', prn: 20, msg: "CNVX", t, ion: Ion::Bdgim([n(0), n(1), n(2), n(3), n(4), n(5), n(6), n(7), n(8)]) },
        ],
    ));
    for (name, version) in [("clk3", "3.00"), ("clk304", "3.04")] {
        let entry = |kind, name, i, nv: usize| clk::MClk { kind, name, t: mt(i), vals: (0..nv).map(|k| (-123_456_789_012 - k as i64, -3 - k as i32)).collect() };
        let m = clk::MClkFile {
            version,
            sys: 'M',
            scale: Some("GPS"),
            entries: vec![entry("AR", clk::Name::Sta("ABCD"), 0, 2), entry("AS", clk::Name::Sat('G', 1), 0, 3), entry("AS", clk::Name::Sat('R', 24), 1, 6), entry("AR", clk::Name::Sta("EFGH"), 1, 1)],
        };
        let extra = "COD  CENTER FOR ORBIT DETERMINATION";
        let h = m.header();
        let w = if version == "3.04" { 65 } else { 60 };
        let x = format!("{:w$}COMMENT\n{extra:w$}ANALYSIS CENTER\n{:w$}# OF CLK REF\n{:w$}ANALYSIS CLK REF\n{:w$}SYS / PCVS APPLIED\n{:w$}LEAP SECONDS\n", "A COMMENT", "     1", "ABCD 10001M001                           0.123456789012E-03", "G TBSG        url", "    18");
        let h = h.replace(&format!("{:w$}END OF HEADER\n", ""), &(x + &format!("{:w$}END OF HEADER\n", "")));
        v.push(Sample::new(name, h, m.entries.iter().map(|c| m.lines(c)).collect()));
    }
    {
        use ionex::*;
        let map = |kind, i: usize| MMap { kind, t: mt(i), exponent: if i == 1 { Some((-2, true)) } else { None }, vals: (0..6).map(|k| if k == i { None } else { Some(10 * k as i64 + i as i64) }).collect() };
        let m = MIonex { lat: Axis(100, -25, 3), lon: Axis(-50, 50, 2), hgt: Axis(4500, 0, 1), exponent: Some(-1), maps: vec![map(Kind::Tec, 0), map(Kind::Tec, 1), map(Kind::Tec, 2)] };
        let x = hl("A COMMENT", "COMMENT") + &hl("A DESCRIPTION", "DESCRIPTION") + &hl("    12", "# OF STATIONS") + &hl("    32", "# OF SATELLITES");
        let h = m.header().replace(&hl("", "END OF HEADER"), &(x + &hl("", "END OF HEADER")));
        let mut s = Sample::new("ionex", h, m.maps.iter().enumerate().map(|(i, k)| m.map_lines(i + 1, k).concat().lines().map(|l| l.to_string()).collect()).collect());
        s.tail = hl("", "END OF FILE");
        v.push(s);
        // RMS maps, past the TEC maps
        let maps = [(Kind::Tec, 0), (Kind::Tec, 1), (Kind::Tec, 2), (Kind::Rms, 0), (Kind::Rms, 1)];
        let m = MIonex { maps: maps.map(|(kind, i)| MMap { kind, t: mt(i), exponent: None, vals: (0..6).map(|k| Some(10 * k as i64 + i as i64)).collect() }).to_vec(), ..m };
        let mut s = Sample::new("ionex-rms", m.header(), m.maps.iter().enumerate().map(|(i, k)| m.map_lines(i % 3 + 1, k).concat().lines().map(|l| l.to_string()).collect()).collect());
        s.tail = hl("", "END OF FILE");
        v.push(s);
    }
    {
        use doris::*;
        let ep = |i: usize| DEpoch { ns: 0,
            t: MTime(2018, 6, 13, 0, i as u8, 1_799_478),
            flag: 0,
            clock: Some(-4_326_631_626 + i as i64),
            extrapolated: Some(i == 1),
            stations: vec![(1, (0..6).map(|k| Some((k * 1000 + 17, Some(1), Some(7)))).collect()), (12, (0..6).map(|k| if k == 2 { None } else { Some((-k * 1000, None, None)) }).collect())],
        };
        let m = MDoris { codes: DCODES[..6].to_vec(), stations: vec![1, 12], epochs: (0..3).map(ep).collect() };
        v.push(Sample::new("doris", m.header(), m.epochs.iter().map(|e| m.epoch_lines(e)).collect()));
    }
    {
        use antex::*;
        let sv = MAnt { from: Some(MTime(1992, 11, 22, 0, 0, 0)), until: Some(MTime(2008, 10, 16, 23, 59, 599_999_999)), ..MAnt::sv() };
        let rx = MAnt { dazi: 1800, freqs: vec![MFreq { name: "G01", neu: [58, -37, 9185], pattern: vec![0, -23, -90], rms: true }, MFreq { name: "G02", neu: [1, 2, 3], pattern: vec![5, 6, 7], rms: false }], ..MAnt::rx() };
        let ants = vec![sv, rx, MAnt::rx()];
        let h = header('M', "R", "AOAD/M_T", "123").replace(&hl("", "END OF HEADER"), &(hl("A COMMENT", "COMMENT") + &hl("", "END OF HEADER")));
        v.push(Sample::new("antex", h, ants.iter().map(|a| a.text().lines().map(|l| l.to_string()).collect()).collect()));
    }
    v
}

/// The items of a record, in comparable form: (what, value).
pub fn items(r: &Record) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = match r {
        Record::ObsRecord(r) => r.iter().map(|(k, v)| (format!("{k:?}"), format!("{v:?}"))).collect(),
        Record::MeteoRecord(r) => r.iter().map(|(k, v)| (format!("{k:?}"), format!("{v:?}"))).collect(),
        Record::NavRecord(r) => r
            .iter()
            .map(|(k, v)| {
                let x = match v.as_ephemeris() {
                    Some(e) => {
                        let mut o: Vec<_> = e.orbits.iter().map(|(k, v)| format!("{k}={v:?}")).collect();
                        o.sort();
                        format!("{:?} {:?} {:?} {o:?}", e.clock_bias, e.clock_drift, e.clock_drift_rate)
                    },
                    None => format!("{v:?}"),
                };
                (format!("{k:?}"), x)
            })
            .collect(),
        Record::ClockRecord(r) => r.iter().flat_map(|(t, m)| m.iter().map(move |(k, v)| (format!("{t:?} {k:?}"), format!("{v:?}")))).collect(),
        Record::IonexRecord(r) => r.iter().map(|(k, v)| (format!("{k:?}"), format!("{v:?}"))).collect(),
        Record::DorisRecord(r) => r
            .iter()
            .map(|(k, v)| {
                let mut o: Vec<_> = v.signals.iter().map(|(k, v)| format!("{k:?}={v:?}")).collect();
                o.sort();
                (format!("{k:?}"), format!("{:?} {:?} {o:?}", v.clock, v.clock_extrapolated))
            })
            .collect(),
        Record::AntexRecord(r) => r
            .iter()
            .enumerate()
            .map(|(i, (a, f))| {
                let mut o: Vec<_> = f.iter().map(|(k, v)| format!("{k:?}={v:?}")).collect();
                o.sort();
                (format!("{i}"), format!("{a:?} {o:?}"))
            })
            .collect(),
    };
    v.sort();
    v
}
/// Whole content: header, items, comments.
pub fn whole(r: &rinex::prelude::Rinex) -> String {
    let mut v = vec![];
    let h = format!("{:?}", r.header);
    // HashMaps of the header print in any order: compare their sorted pieces
    let mut p: Vec<&str> = h.split([',', '{', '}']).map(|s| s.trim()).collect();
    p.sort();
    v.push(p.join("|"));
    v.push(format!("{:?}", items(&r.record)));
    v.push(format!("{:?}", r.comments));
    v.join("\n")
}
