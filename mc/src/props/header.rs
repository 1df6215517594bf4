//! P08: header fields are read exactly; P09: headers survive a write and
//! read cycle.
use crate::engine::*;
use crate::model::hl;
use crate::model::obs::MTime;
use crate::util::*;
use crate::{bail, ensure};
use rinex::clock::{ClockProfileType, WorkClock};
use rinex::hardware::{Antenna, Receiver};
use rinex::antex::Pcv;
use rinex::doris::Station;
use rinex::hatanaka::CRINEX;
use rinex::ionex::{MappingFunction, RefSystem};
use rinex::header::{DcbCompensation, Header, PcvCompensation};
use rinex::marker::{GeodeticMarker, MarkerType};
use rinex::meteo::Sensor;
use rinex::navigation::{IonosphereModel, KbModel, KbRegionCode, NgModel, NgRegionFlags};
use rinex::prelude::*;
use std::collections::HashMap;
use std::io::{BufReader, BufWriter, Cursor};
use std::str::FromStr;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Obs2,
    Obs3,
    Nav2,
    Nav3,
    Met,
    Clk,
    Iono,
    Dor,
    Atx,
}
use Ty::*;
const TYPES: [Ty; 9] = [Obs2, Obs3, Nav2, Nav3, Met, Clk, Iono, Dor, Atx];
/// Those the library formats.
const WRITTEN: [Ty; 6] = [Obs2, Obs3, Nav2, Nav3, Met, Clk];

type Set = Arc<dyn Fn(&mut Header) + Send + Sync>;
/// Header lines (kept together), and what they say.
#[derive(Clone)]
struct Item {
    kind: &'static str,
    text: String,
    set: Set,
}
fn item(kind: &'static str, text: String, set: impl Fn(&mut Header) + Send + Sync + 'static) -> Item {
    Item { kind, text, set: Arc::new(set) }
}
fn line(kind: &'static str, content: &str, set: impl Fn(&mut Header) + Send + Sync + 'static) -> Item {
    item(kind, hl(content, kind), set)
}

fn first_line(ty: Ty) -> String {
    let (v, t, s) = match ty {
        Obs2 => ("2.11", "OBSERVATION DATA", "M (MIXED)"),
        Obs3 => ("3.04", "OBSERVATION DATA", "M: MIXED"),
        Nav2 => ("2.11", "N: GPS NAV DATA", ""),
        Nav3 => ("3.04", "N: GNSS NAV DATA", "M: MIXED"),
        Met => ("3.04", "METEOROLOGICAL DATA", ""),
        Clk => ("3.00", "CLOCK DATA", "M"),
        Dor => ("3.00", "O", "D"),
        Iono => return hl(&format!("{:>8}{:12}{:20}{:20}", "1.0", "", "IONOSPHERE MAPS", "GAL"), "IONEX VERSION / TYPE"),
        Atx => return hl(&format!("{:>8}{:12}M", "1.4", ""), "ANTEX VERSION / SYST"),
    };
    hl(&format!("{v:>9}{:11}{t:20}{s:20}", ""), "RINEX VERSION / TYPE")
}
fn bare(version: (u8, u8), ty: RinexType, constellation: Option<Constellation>) -> Header {
    Header {
        version: Version { major: version.0, minor: version.1 },
        rinex_type: ty,
        constellation,
        comments: vec![],
        program: None,
        run_by: None,
        date: None,
        station_url: None,
        observer: None,
        agency: None,
        geodetic_marker: None,
        glo_channels: HashMap::new(),
        cospar: None,
        leap: None,
        rx_position: None,
        wavelengths: None,
        sampling_interval: None,
        license: None,
        doi: None,
        gps_utc_delta: None,
        rcvr: None,
        rcvr_antenna: None,
        sv_antenna: None,
        ionod_corrections: HashMap::new(),
        dcb_compensations: vec![],
        pcv_compensations: vec![],
        obs: (ty == RinexType::ObservationData).then(Default::default),
        meteo: (ty == RinexType::MeteoData).then(Default::default),
        clock: (ty == RinexType::ClockData).then(Default::default),
        antex: (ty == RinexType::AntennaData).then(Default::default),
        ionex: (ty == RinexType::IonosphereMaps).then(Default::default),
        doris: (ty == RinexType::DORIS).then(Default::default),
    }
}
fn base(ty: Ty) -> Header {
    let m = Some(Constellation::Mixed);
    match ty {
        Obs2 => bare((2, 11), RinexType::ObservationData, m),
        Obs3 => bare((3, 4), RinexType::ObservationData, m),
        Nav2 => bare((2, 11), RinexType::NavigationData, Some(Constellation::GPS)),
        Nav3 => bare((3, 4), RinexType::NavigationData, m),
        Met => bare((3, 4), RinexType::MeteoData, None),
        Clk => bare((3, 0), RinexType::ClockData, m),
        Dor => bare((3, 0), RinexType::DORIS, None),
        Atx => bare((1, 4), RinexType::AntennaData, m),
        Iono => {
            let mut h = bare((1, 0), RinexType::IonosphereMaps, None);
            h.ionex.as_mut().unwrap().reference = RefSystem::GnssConstellation(Constellation::Galileo);
            h
        },
    }
}

fn read(text: &str) -> R<Header> {
    let h = no_panic("Header::parse", || Header::parse(&mut BufReader::new(Cursor::new(text.as_bytes()))))?;
    Ok(h.map_err(|x| format!("Header::parse refused a well-formed header: {x:?}\n{text}"))?)
}
/// First field that differs, in text.
fn diff(want: &Header, got: &Header) -> Option<String> {
    if want == got {
        return None;
    }
    let (a, b) = (format!("{want:#?}"), format!("{got:#?}"));
    let (mut x, mut y) = (vec![], vec![]);
    // hash maps print in any order
    for l in a.lines() {
        x.push(l)
    }
    for l in b.lines() {
        y.push(l)
    }
    let miss: Vec<_> = x.iter().filter(|l| !y.contains(l)).take(4).collect();
    let more: Vec<_> = y.iter().filter(|l| !x.contains(l)).take(4).collect();
    Some(format!("expected {miss:?}, got {more:?}"))
}
fn check(e: &mut Exec, ty: Ty, items: &[&Item]) -> R {
    let mut want = base(ty);
    let mut text = first_line(ty);
    items.iter().for_each(|i| text += &i.text);
    // positions belong to the sensors, wherever they are declared
    for last in [false, true] {
        for i in items.iter().filter(|i| (i.kind == "SENSOR POS XYZ/H") == last) {
            (i.set)(&mut want);
        }
    }
    text += &hl("", "END OF HEADER");
    e.note(|| text.clone());
    let got = sorted(read(&text)?);
    items.iter().for_each(|_| e.step());
    if let Some(d) = diff(&want, &got) {
        bail!("{ty:?} header with {:?}: {d}", items.iter().map(|i| i.kind).collect::<Vec<_>>());
    }
    // nothing follows the end of the header
    e.outcome(&text);
    e.validated();
    Ok(())
}

fn opt(s: &str) -> Option<String> {
    let s = s.trim();
    (!s.is_empty()).then(|| s.to_string())
}
fn marker(h: &mut Header, f: impl Fn(GeodeticMarker) -> GeodeticMarker) {
    h.geodetic_marker = Some(f(h.geodetic_marker.clone().unwrap_or_default()));
}
fn antenna(h: &mut Header, f: impl Fn(&mut Antenna)) {
    f(h.rcvr_antenna.get_or_insert_with(Default::default));
}
/// What `with_number` is documented to hold, through its only accessor.
fn numbered(m: GeodeticMarker, n: &str) -> GeodeticMarker {
    m.with_number(n)
}
const MARKERS: [(&str, MarkerType); 14] = [
    ("GEODETIC", MarkerType::Geodetic),
    ("NON_GEODETIC", MarkerType::NonGeodetic),
    ("NON_PHYSICAL", MarkerType::NonPhysical),
    ("SPACEBORNE", MarkerType::Spaceborne),
    ("AIRBORNE", MarkerType::Airborne),
    ("WATER_CRAFT", MarkerType::Watercraft),
    ("GROUND_CRAFT", MarkerType::Groundcraft),
    ("FIXED_BUOY", MarkerType::FixedBuoy),
    ("FLOATING_BUOY", MarkerType::FloatingBuoy),
    ("FLOATING_ICE", MarkerType::FloatingIce),
    ("GLACIER", MarkerType::Glacier),
    ("BALLISTIC", MarkerType::Ballistic),
    ("ANIMAL", MarkerType::Animal),
    ("HUMAN", MarkerType::Human),
];
const SCALES: [(&str, TimeScale); 6] = [
    ("GPS", TimeScale::GPST),
    ("GLO", TimeScale::UTC),
    ("GAL", TimeScale::GST),
    ("QZS", TimeScale::QZSST),
    ("BDT", TimeScale::BDT),
    ("IRN", TimeScale::GPST),
];
const SYS: [(char, Constellation); 7] = [
    ('G', Constellation::GPS),
    ('R', Constellation::Glonass),
    ('E', Constellation::Galileo),
    ('C', Constellation::BeiDou),
    ('J', Constellation::QZSS),
    ('I', Constellation::IRNSS),
    ('S', Constellation::SBAS),
];
const TIMES: [MTime; 5] = [
    MTime(2021, 12, 31, 23, 59, 599_999_999),
    MTime(1999, 1, 9, 1, 2, 30_000_000),
    MTime(2000, 2, 29, 0, 0, 1),
    MTime(2079, 10, 10, 10, 10, 100_000_000),
    MTime(1980, 6, 1, 0, 0, 0),
];
fn time_of(t: &MTime, scale: &str) -> String {
    format!("{:6}{:6}{:6}{:6}{:6}{:>13}     {scale:3}", t.0, t.1, t.2, t.3, t.4, format!("{:.7}", t.5 as f64 / 1e7))
}
fn observable(c: &str) -> Observable {
    Observable::from_str(c).unwrap_or_else(|_| panic!("model: observable {c}"))
}
const V2_CODES: [&str; 15] = ["L1", "L2", "C1", "P1", "P2", "D1", "D2", "S1", "S2", "C2", "C5", "L5", "D5", "S5", "C7"];
fn v3_codes() -> Vec<String> {
    let mut v = vec![];
    for b in ["1C", "5Q", "2W", "7Q", "2L", "6C", "8X", "5X", "1X", "7I"] {
        for k in "CLDS".chars() {
            v.push(format!("{k}{b}"));
        }
    }
    v
}
fn v3_list(sys: char, codes: &[String]) -> Item {
    let mut text = String::new();
    for (n, c) in codes.chunks(13).enumerate() {
        let l: String = c.iter().map(|c| format!(" {c}")).collect();
        let head = if n == 0 { format!("{sys}  {:3}", codes.len()) } else { " ".repeat(6) };
        text += &hl(&(head + &l), "SYS / # / OBS TYPES");
    }
    let c = SYS.iter().find(|s| s.0 == sys).unwrap().1;
    let list: Vec<_> = codes.iter().map(|c| observable(c)).collect();
    item("SYS / # / OBS TYPES", text, move |h| {
        h.obs.as_mut().unwrap().codes.insert(c, list.clone());
    })
}
fn v2_list(met: bool, codes: &[&str]) -> Item {
    let mut text = String::new();
    for (n, c) in codes.chunks(9).enumerate() {
        let l: String = c.iter().map(|c| format!("    {c}")).collect();
        let head = if n == 0 { format!("{:6}", codes.len()) } else { " ".repeat(6) };
        text += &hl(&(head + &l), "# / TYPES OF OBSERV");
    }
    let list: Vec<_> = codes.iter().map(|c| observable(c)).collect();
    item("# / TYPES OF OBSERV", text, move |h| {
        if met {
            h.meteo.as_mut().unwrap().codes = list.clone();
        } else {
            for c in [Constellation::GPS, Constellation::Glonass, Constellation::Galileo, Constellation::SBAS] {
                h.obs.as_mut().unwrap().codes.insert(c, list.clone());
            }
        }
    })
}
fn scale_factor(sys: char, factor: u16, codes: &[String]) -> Item {
    let mut text = String::new();
    for (n, c) in codes.chunks(12).enumerate() {
        let l: String = c.iter().map(|c| format!(" {c}")).collect();
        let head = if n == 0 { format!("{sys} {factor:4}  {:2}", codes.len()) } else { " ".repeat(10) };
        text += &hl(&(head + &l), "SYS / SCALE FACTOR");
    }
    let c = SYS.iter().find(|s| s.0 == sys).unwrap().1;
    let list: Vec<_> = codes.iter().map(|c| observable(c)).collect();
    item("SYS / SCALE FACTOR", text, move |h| {
        for o in &list {
            h.obs.as_mut().unwrap().scaling.insert((c, o.clone()), factor);
        }
    })
}
fn slots(n: usize) -> Item {
    let all: Vec<(u8, i8)> = (0..n).map(|k| (1 + k as u8, ((k * 5) % 14) as i8 - 7)).collect();
    let mut text = String::new();
    for (k, c) in all.chunks(8).enumerate() {
        let l: String = c.iter().map(|(p, f)| format!("R{p:02} {f:2} ")).collect();
        let head = if k == 0 { format!("{n:3} ") } else { "    ".to_string() };
        text += &hl(&(head + &l), "GLONASS SLOT / FRQ #");
    }
    item("GLONASS SLOT / FRQ #", text, move |h| {
        for (p, f) in &all {
            h.glo_channels.insert(SV { constellation: Constellation::Glonass, prn: *p }, *f);
        }
    })
}
/// n lines of a kind that accumulates (None: not that many).
fn repeated(ty: Ty, kind: usize, n: usize) -> Option<Vec<Item>> {
    let each = |max: usize, f: &dyn Fn(usize) -> Item| (n <= max).then(|| (0..n).map(f).collect::<Vec<_>>());
    match kind {
        0 => each(2000, &|k| {
            let c = format!("COMMENT NUMBER {k}");
            line("COMMENT", &c.clone(), move |h| h.comments.push(c.clone()))
        }),
        1 if matches!(ty, Obs2 | Obs3) && n <= 99 => Some(vec![slots(n)]),
        2 | 3 if matches!(ty, Obs3) => each(300, &|k| {
            let (l, c) = SYS[k % 7];
            let (program, url) = (format!("PROGRAM {k}"), format!("http://server/{k}.txt"));
            let content = format!("{l} {program:17} {url:40}");
            if kind == 2 {
                line("SYS / DCBS APPLIED", &content, move |h| h.dcb_compensations.push(DcbCompensation { program: program.clone(), constellation: c, url: url.clone() }))
            } else {
                line("SYS / PCVS APPLIED", &content, move |h| h.pcv_compensations.push(PcvCompensation { program: program.clone(), constellation: c, url: url.clone() }))
            }
        }),
        4 if ty == Dor => each(99, &|k| {
            let text = format!("D{:02}  {:4} {:29} {:05}S{:03}{:3}{:4}", k + 1, format!("S{k:03}"), format!("SITE {k}"), 10001 + k, k + 1, 1 + k % 4, k as i64 - 20);
            line("STATION REFERENCE", &text, move |h| {
                let mut s = Station::from_str(&format!("D{:02}  AAAA {:29} 10001M001  1   0", k + 1, "BBBB")).expect("model: station");
                (s.label, s.site, s.gen, s.k_factor) = (format!("S{k:03}"), format!("SITE {k}"), 1 + (k % 4) as u8, (k as i64 - 20) as i8);
                s.domes = DOMES::from_str(&format!("{:05}S{:03}", 10001 + k, k + 1)).expect("model: domes");
                h.doris.as_mut().unwrap().stations.push(s);
            })
        }),
        5 if ty == Iono => None,
        6 if ty == Obs3 && n <= 7 => Some((0..n).map(|k| v3_list(SYS[k].0, &v3_codes()[k..10 + 4 * k])).collect()),
        7 if ty == Obs3 && n <= 28 => {
            // every system, several factors
            let all = v3_codes();
            Some((0..n).map(|k| scale_factor(SYS[k % 7].0, [1u16, 10, 100, 1000][k / 7], &all[10 * (k / 7)..10 * (k / 7) + 1 + k % 10])).collect())
        },
        _ => None,
    }
}
type F4 = [&'static str; 4];
fn four(v: &F4, w: usize) -> String {
    v.iter().map(|x| format!("{x:>w$}")).collect()
}
fn val(s: &str) -> f64 {
    if s.trim().is_empty() {
        return 0.0;
    }
    s.replace(['D', 'd'], "E").parse().unwrap()
}
fn kb(h: &mut Header, all: &[Constellation], alpha: bool, v: &F4) {
    let v = (val(v[0]), val(v[1]), val(v[2]), val(v[3]));
    for c in all {
        let region = if *c == Constellation::QZSS && all.len() == 1 { KbRegionCode::Japan } else { KbRegionCode::Worldwide };
        let m = h.ionod_corrections.entry(*c).or_insert(IonosphereModel::Klobuchar(KbModel { alpha: (0., 0., 0., 0.), beta: (0., 0., 0., 0.), region }));
        if let IonosphereModel::Klobuchar(m) = m {
            if alpha {
                m.alpha = v
            } else {
                m.beta = v
            }
        }
    }
}
const IONO: [F4; 4] = [
    ["0.1118D-07", "-0.7451D-08", "-0.5961D-07", "0.1192D-06"],
    ["1.1176E-08", "2.2352E-08", "-5.9605E-08", "-1.1921E-07"],
    ["0.9011E+05", "-.6554D+05", "-0.1311D+06", "0.4588E+06"],
    ["0.0000D+00", "0.0000D+00", "0.0000D+00", "0.0000D+00"],
];

/// Every supported header line of a type of file, in several values.
fn groups(ty: Ty) -> Vec<Vec<Item>> {
    let mut g: Vec<Vec<Item>> = vec![];
    let names = |kind: &'static str, f: fn(&mut Header, &str)| -> Vec<Item> {
        ["ESBC00DNK", "X", "A name, with 1 comma", "A name of 25 characters..", "0123456789 123456789 123456789 123456789 123456789 123456789"]
            .iter()
            .map(|s| line(kind, s, move |h| f(h, s)))
            .collect()
    };
    let mut v = vec![];
    for (a, b, c) in [("sbf2rin-12.3.1", "", "20181106 200225 UTC"), ("A program of 20 byte", "An agency of 20 byte", "20210101 000000 LCL "), ("", "", "06-NOV-18 20:02"), ("P", "R", "")] {
        v.push(line("PGM / RUN BY / DATE", &format!("{a:20}{b:20}{c:20}"), move |h| {
            h.program = opt(a);
            h.run_by = opt(b);
            h.date = opt(c);
        }));
    }
    g.push(v);
    let mut v = vec![];
    for c in ["a comment", "RINEX VERSION / TYPE", "  indented, with END OF HEADER inside", "0123456789 123456789 123456789 123456789 123456789 123456789", ""] {
        v.push(line("COMMENT", c, move |h| h.comments.push(c.trim().to_string())));
    }
    g.push(v);
    if matches!(ty, Iono | Dor | Atx) {
        other_groups(ty, &mut g);
        return g;
    }
    let mut v = vec![];
    for n in [18u32, 7, 0] {
        v.push(line("LEAP SECONDS", &format!("{n:6}"), move |h| {
            h.leap = Some(Leap { leap: n, delta_tls: None, week: None, day: None, timescale: None })
        }));
        for (d, w, y) in [(18u32, 2185u32, 7u32), (9, 1, 1), (19, 12345, 6)] {
            for (s, ts) in [("", None), ("GPS", Some(TimeScale::GPST)), ("BDS", Some(TimeScale::BDT))] {
                v.push(line("LEAP SECONDS", &format!("{n:6}{d:6}{w:6}{y:6}{s}"), move |h| {
                    h.leap = Some(Leap { leap: n, delta_tls: Some(d), week: Some(w), day: Some(y), timescale: ts })
                }));
            }
        }
    }
    g.push(v);
    if ty != Clk && ty != Met {
        g.push(names("LICENSE OF USE", |h, s| h.license = Some(s.trim().into())));
        g.push(names("STATION INFORMATION", |h, s| h.station_url = Some(s.trim().into())));
    }
    g.push(names("DOI", |h, s| h.doi = Some(s.trim().into())));
    if matches!(ty, Obs2 | Obs3 | Met) {
        g.push(names("MARKER NAME", |h, s| marker(h, |m| m.with_name(s.trim()))));
        let mut v = vec![];
        for n in ["13502M004", "00001M000", "99999M999", "10101M123"] {
            v.push(line("MARKER NUMBER", n, move |h| marker(h, |m| numbered(m, n))));
        }
        g.push(v);
    }
    if matches!(ty, Obs2 | Obs3) {
        let mut v = vec![];
        for (s, t) in MARKERS {
            v.push(line("MARKER TYPE", s, move |h| {
                marker(h, |mut m| {
                    m.marker_type = Some(t);
                    m
                })
            }));
        }
        g.push(v);
        let mut v = vec![];
        for (a, b) in [("Somebody", "An agency"), ("Exactly 20 bytes....", "Exactly 40 bytes, 0123456789 0123456789."), ("", "only"), ("only", "")] {
            v.push(line("OBSERVER / AGENCY", &format!("{a:20}{b:40}"), move |h| {
                h.observer = opt(a);
                h.agency = opt(b);
            }));
        }
        g.push(v);
        let mut v = vec![];
        for (a, b, c) in [("3048189", "SEPT POLARX5", "5.2.0"), ("A serial of 20 bytes", "A model of 20 bytes.", "Firmware of 20 bytes"), ("", "MODEL", ""), ("", "", "V")] {
            v.push(line("REC # / TYPE / VERS", &format!("{a:20}{b:20}{c:20}"), move |h| {
                h.rcvr = Some(Receiver { sn: a.trim().into(), model: b.trim().into(), firmware: c.trim().into() })
            }));
        }
        g.push(v);
        let mut v = vec![];
        for (a, b) in [("CR620033902", "ASH701945E_M    SCIS"), ("A serial of 20 bytes", "TRM59800.00     NONE"), ("", "MODEL")] {
            v.push(line("ANT # / TYPE", &format!("{a:20}{b:20}"), move |h| {
                antenna(h, |x| {
                    x.sn = a.trim().into();
                    x.model = b.trim().into();
                })
            }));
        }
        g.push(v);
        const XYZ: [[&str; 3]; 5] = [
            ["3582105.2910", "532589.7313", "5232754.8054"],
            ["-3582105.2910", "-532589.7313", "-5232754.8054"],
            ["-12345678.1234", "123456789.1234", "-12345678.9876"],
            ["0.0000", "0.0000", "0.0000"],
            [".5", "-.25", "1"],
        ];
        let xyz = |v: &[&str; 3]| v.iter().map(|x| format!("{x:>14}")).collect::<String>();
        let mut v = vec![];
        for p in &XYZ {
            v.push(line("APPROX POSITION XYZ", &xyz(p), move |h| h.rx_position = Some((val(p[0]), val(p[1]), val(p[2])))));
        }
        g.push(v);
        let mut v = vec![];
        for p in &XYZ {
            v.push(line("ANTENNA: DELTA H/E/N", &xyz(p), move |h| {
                antenna(h, |a| {
                    a.height = Some(val(p[0]));
                    a.eastern = Some(val(p[1]));
                    a.northern = Some(val(p[2]));
                })
            }));
        }
        g.push(v);
        let mut v = vec![];
        for p in &XYZ {
            v.push(line("ANTENNA: DELTA X/Y/Z", &xyz(p), move |h| antenna(h, |a| a.coords = Some((val(p[0]), val(p[1]), val(p[2]))))));
        }
        g.push(v);
        let mut v = vec![];
        for (s, n) in [("     0", false), ("     1", true)] {
            v.push(line("RCV CLOCK OFFS APPL", s, move |h| h.obs.as_mut().unwrap().clock_offset_applied = n));
        }
        g.push(v);
        for (last, kind) in [(false, "TIME OF FIRST OBS"), (true, "TIME OF LAST OBS")] {
            let mut v = vec![];
            for (s, ts) in SCALES {
                for t in &TIMES {
                    v.push(line(kind, &time_of(t, s), move |h| {
                        let o = h.obs.as_mut().unwrap();
                        let t = Some(t.epoch(ts));
                        if last {
                            o.timeof_last_obs = t
                        } else {
                            o.timeof_first_obs = t
                        }
                    }));
                }
            }
            g.push(v);
        }
        g.push([0, 1, 3, 8, 9, 24].iter().filter(|n| **n > 0).map(|n| slots(*n)).collect());
    }
    if matches!(ty, Obs2 | Obs3 | Clk) {
        let mut v = vec![];
        for (s, ms) in [("    30.000", 30_000), ("     1.000", 1000), ("      .100", 100), ("     0.050", 50), ("    15", 15_000), ("  3600.000", 3_600_000), ("86400.000 ", 86_400_000), ("     0.001", 1)] {
            v.push(line("INTERVAL", s, move |h| h.sampling_interval = Some(Duration::from_milliseconds(ms as f64))));
        }
        g.push(v);
    }
    if matches!(ty, Obs3 | Clk) {
        let who = [('G', "CC2NONCC", "p1c1bias.hist @ goby.nimh.navy.mil"), ('R', "", "source"), ('E', "Program of 17 byte", "Exactly 40 bytes, 0123456789 0123456789."), ('C', "PROG", "")];
        let or = |s: &str| if s.trim().is_empty() { "Unknown".to_string() } else { s.trim().to_string() };
        let (mut v, mut w) = (vec![], vec![]);
        for (s, a, b) in who {
            let a = &a[..a.len().min(17)];
            let c = SYS.iter().find(|x| x.0 == s).unwrap().1;
            let l = format!("{s} {a:17} {b:40}");
            v.push(line("SYS / DCBS APPLIED", &l, move |h| h.dcb_compensations.push(DcbCompensation { program: or(a), constellation: c, url: or(b) })));
            w.push(line("SYS / PCVS APPLIED", &l, move |h| h.pcv_compensations.push(PcvCompensation { program: or(a), constellation: c, url: or(b) })));
        }
        g.push(v);
        g.push(w);
    }
    match ty {
        Obs2 => g.push((0..V2_CODES.len()).step_by(3).map(|n| v2_list(false, &V2_CODES[..=n])).collect()),
        Met => {
            const M: [&str; 9] = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI"];
            g.push((0..9).step_by(2).map(|n| v2_list(true, &M[..=n])).collect());
        },
        Obs3 => {
            let all = v3_codes();
            for (sys, _) in [SYS[0], SYS[2], SYS[6]] {
                g.push([1, 4, 12, 13, 14, 27].iter().map(|n| v3_list(sys, &all[..*n])).collect());
                g.push([1, 12, 13, 25].iter().zip([1u16, 10, 100, 1000]).map(|(n, f)| scale_factor(sys, f, &all[..*n])).collect());
            }
        },
        Nav2 => {
            let all = [Constellation::GPS, Constellation::Glonass, Constellation::BeiDou, Constellation::Galileo, Constellation::IRNSS, Constellation::QZSS, Constellation::SBAS];
            for (kind, alpha) in [("ION ALPHA", true), ("ION BETA", false)] {
                g.push(IONO.iter().map(|v| line(kind, &("  ".to_string() + &four(v, 12)), move |h| kb(h, &all, alpha, v))).collect());
            }
        },
        Nav3 => {
            for (id, c) in [("GPS", Constellation::GPS), ("QZS", Constellation::QZSS), ("BDS", Constellation::BeiDou), ("IRN", Constellation::IRNSS)] {
                for (x, alpha) in [("A", true), ("B", false)] {
                    g.push(IONO.iter().map(|v| line("IONOSPHERIC CORR", &format!("{id}{x} {}", four(v, 12)), move |h| kb(h, &[c], alpha, v))).collect());
                }
            }
            g.push(
                [["6.6250e+01", "-1.6406e-01", "-2.4719e-03", "0.0000e+00"], ["0.6625D+02", "-.1641D+00", "-0.2472D-02", ""]]
                    .iter()
                    .map(|v: &F4| {
                        let v = *v;
                        line("IONOSPHERIC CORR", &format!("GAL  {}", four(&v, 12)), move |h| {
                            h.ionod_corrections.insert(Constellation::Galileo, IonosphereModel::NequickG(NgModel { a: (val(v[0]), val(v[1]), val(v[2])), region: NgRegionFlags::default() }));
                        })
                    })
                    .collect(),
            );
        },
        Clk => {
            use ClockProfileType::*;
            let mut v = vec![];
            let all = [("AS", AS), ("AR", AR), ("CR", CR), ("DR", DR), ("MS", MS)];
            for n in 1..=5 {
                let all = all.clone();
                let l: String = all[..n].iter().map(|x| format!("    {}", x.0)).collect();
                v.push(line("# / TYPES OF DATA", &format!("{n:6}{l}"), move |h| h.clock.as_mut().unwrap().codes = all[..n].iter().map(|x| x.1.clone()).collect()));
            }
            g.push(v);
            g.push([("GRG", "Groupe de Recherche"), ("IGS", "0123456789 123456789 123456789 123456789 123456789 1234")].iter().map(|(a, b)| line("ANALYSIS CENTER", &format!("{a:3}  {b:55}"), move |h| {
                let c = h.clock.as_mut().unwrap();
                c.igs = Some(a.to_string());
                c.full_name = Some(b.to_string());
            })).collect());
            g.push(["a clock", "0123456789 123456789 123456789 123456789 123456789 123456789"].iter().map(|s| line("STATION CLK REF", s, move |h| h.clock.as_mut().unwrap().ref_clock = Some(s.to_string()))).collect());
            g.push([("USNO", "40451S003"), ("ALGO", "40104M002")].iter().map(|(a, b)| line("STATION NAME / NUM", &format!("{a:4} {b:20}"), move |h| {
                let c = h.clock.as_mut().unwrap();
                c.site = Some(a.to_string());
                c.domes = Some(DOMES::from_str(b).expect("model: domes"));
            })).collect());
            g.push([("GPS", TimeScale::GPST), ("GAL", TimeScale::GST), ("UTC", TimeScale::UTC), ("TAI", TimeScale::TAI), ("BDS", TimeScale::BDT)].iter().map(|(s, t)| line("TIME SYSTEM ID", &format!("   {s}"), move |h| h.clock.as_mut().unwrap().timescale = Some(*t))).collect());
            g.push([("USNO", "40451S003", ".000000000000E+00"), ("ALGO", "40104M002", "-.123456789012E+00"), ("BRUS", "13101M004", "")].iter().map(|(a, b, c)| line("ANALYSIS CLK REF", &format!("{a:4} {b:20}{:15}{c:>19}", ""), move |h| {
                h.clock.as_mut().unwrap().work_clock.push(WorkClock { name: a.to_string(), domes: Some(DOMES::from_str(b).expect("model: domes")), constraint: opt(c).map(|c| val(&c)) })
            })).collect());
        },
        _ => {},
    }
    if ty == Met {
        for code in ["PR", "TD"] {
            let mut v = vec![];
            for (m, t, a) in [("PAROSCIENTIFIC", "740-16B", "0.2"), ("HAENNI", "", "2.0"), ("A model of 20 bytes.", "A type of 20 bytes..", "12345.6"), ("", "", "")] {
                let set = move |h: &mut Header| {
                    let o = observable(code);
                    let s = &mut h.meteo.as_mut().unwrap().sensors;
                    let n = match s.iter().position(|s| s.observable == o) {
                        Some(n) => n,
                        None => {
                            s.push(Sensor { observable: o, model: None, sensor_type: None, accuracy: None, position: None, height: None });
                            s.len() - 1
                        },
                    };
                    s[n].model = opt(m);
                    s[n].sensor_type = opt(t);
                    s[n].accuracy = a.parse().ok();
                    s.sort_by_key(|s| s.observable.to_string());
                };
                v.push(line("SENSOR MOD/TYPE/ACC", &format!("{m:20}{t:20}{:6}{a:>7}    {code} ", ""), set));
            }
            g.push(v);
            g.push([["3582105.2910", "532589.7313", "5232754.8054", "1234.5678"], ["-12345678.1234", "123456789.1234", "-12345678.9876", "-12345678.0001"], ["0.0", "0.0", "0.0", "0.0"]].iter().map(|v: &F4| {
                let v = *v;
                line("SENSOR POS XYZ/H", &format!("{} {code}", four(&v, 14)), move |h| {
                    let o = observable(code);
                    for s in h.meteo.as_mut().unwrap().sensors.iter_mut().filter(|s| s.observable == o) {
                        s.position = Some((val(v[0]), val(v[1]), val(v[2])));
                        s.height = Some(val(v[3]));
                    }
                })
            }).collect());
        }
    }
    g
}
fn clock_of(t: &MTime) -> Epoch {
    Epoch::from_gregorian_utc(t.0, t.1 as u8, t.2 as u8, t.3 as u8, t.4 as u8, (t.5 / 10_000_000) as u8, 0)
}
/// Lines of ionosphere maps, DORIS observations and antenna files.
fn other_groups(ty: Ty, g: &mut Vec<Vec<Item>>) {
    const TEXTS: [&str; 4] = ["ESBC", "A name, with 1 comma", "  indented", "0123456789 123456789 123456789 123456789 123456789 123456789"];
    match ty {
        Iono => {
            // this line accumulates
            g.push(TEXTS.iter().map(|s| line("DESCRIPTION", s, move |h| {
                let d = &mut h.ionex.as_mut().unwrap().description;
                *d = Some(match d.take() {
                    Some(d) => format!("{d} {}", s.trim()),
                    None => s.trim().to_string(),
                });
            })).collect());
            for (last, kind) in [(false, "EPOCH OF FIRST MAP"), (true, "EPOCH OF LAST MAP")] {
                g.push(TIMES.iter().map(|t| {
                    line(kind, &format!("{:6}{:6}{:6}{:6}{:6}{:6}", t.0, t.1, t.2, t.3, t.4, t.5 / 10_000_000), move |h| {
                        let x = h.ionex.as_mut().unwrap();
                        if last {
                            x.epoch_of_last_map = clock_of(t)
                        } else {
                            x.epoch_of_first_map = clock_of(t)
                        }
                    })
                }).collect());
            }
            g.push([3600u32, 900, 86400, 0, 1].iter().map(|n| line("INTERVAL", &format!("{n:6}"), move |h| h.sampling_interval = (*n > 0).then(|| Duration::from_seconds(*n as f64)))).collect());
            g.push([1usize, 25, 13, 99999, 289].iter().map(|n| line("# OF MAPS IN FILE", &format!("{n:6}"), move |h| h.ionex.as_mut().unwrap().number_of_maps = *n)).collect());
            g.push([("NONE", None), ("COSZ", Some(MappingFunction::CosZ)), ("QFAC", Some(MappingFunction::QFac))].iter().map(|(s, m)| line("MAPPING FUNCTION", &format!("  {s}"), move |h| h.ionex.as_mut().unwrap().mapping = m.clone())).collect());
            g.push([10.0f32, 0.0, 7.5, 90.0].iter().map(|n| line("ELEVATION CUTOFF", &format!("{n:8.1}"), move |h| h.ionex.as_mut().unwrap().elevation_cutoff = *n)).collect());
            g.push(TEXTS.iter().chain(&[""]).map(|s| line("OBSERVABLES USED", s, move |h| h.ionex.as_mut().unwrap().observables = opt(s))).collect());
            g.push([170u32, 1, 0, 999_999].iter().map(|n| line("# OF STATIONS", &format!("{n:6}"), move |h| h.ionex.as_mut().unwrap().nb_stations = *n)).collect());
            g.push([31u32, 1, 0, 120].iter().map(|n| line("# OF SATELLITES", &format!("{n:6}"), move |h| h.ionex.as_mut().unwrap().nb_satellites = *n)).collect());
            g.push([6371.0f32, 6378.1, 0.0, 6356.8].iter().map(|n| line("BASE RADIUS", &format!("{n:8.1}"), move |h| h.ionex.as_mut().unwrap().base_radius = *n)).collect());
            g.push([2u8, 3].iter().map(|n| line("MAP DIMENSION", &format!("{n:6}"), move |h| h.ionex.as_mut().unwrap().map_dimension = *n)).collect());
            g.push([-1i8, 0, 1, -2, -10, 3].iter().map(|n| line("EXPONENT", &format!("{n:6}"), move |h| h.ionex.as_mut().unwrap().exponent = *n)).collect());
            const AXES: [(f64, f64, f64); 6] = [(450.0, 450.0, 0.0), (200.0, 800.0, 50.0), (87.5, -87.5, -2.5), (-180.0, 180.0, 5.0), (0.5, 100.5, 0.5), (-10.0, -5.0, 0.1)];
            for kind in ["HGT1 / HGT2 / DHGT", "LAT1 / LAT2 / DLAT", "LON1 / LON2 / DLON"] {
                g.push(AXES.iter().map(|(a, b, d)| line(kind, &format!("  {a:6.1}{b:6.1}{d:6.1}"), move |h| {
                    let g = &mut h.ionex.as_mut().unwrap().grid;
                    let x = match &kind[..3] {
                        "HGT" => &mut g.height,
                        "LAT" => &mut g.latitude,
                        _ => &mut g.longitude,
                    };
                    (x.start, x.end, x.spacing) = (*a, *b, *d);
                })).collect());
            }
        },
        Dor => {
            g.push(TEXTS.iter().map(|s| line("SATELLITE NAME", s, move |h| h.doris.as_mut().unwrap().satellite = s.trim().to_string())).collect());
            g.push(["2010-013A", "1998-067A", "2021-001ZZ"].iter().map(|s| line("COSPAR NUMBER", s, move |h| h.cospar = Some(COSPAR::from_str(s).expect("model: cospar")))).collect());
            g.push([("SPA_BN1_4.7P1", "CNES"), ("Exactly 20 bytes....", "Exactly 40 bytes, 0123456789 0123456789.")].iter().map(|(a, b)| line("OBSERVER / AGENCY", &format!("{a:20}{b:40}"), move |h| {
                h.observer = opt(a);
                h.agency = opt(b);
            })).collect());
            g.push([("CHAIN1", "DGXX", "1.00"), ("A serial of 20 bytes", "A model of 20 bytes.", "Firmware of 20 bytes")].iter().map(|(a, b, c)| line("REC # / TYPE / VERS", &format!("{a:20}{b:20}{c:20}"), move |h| h.rcvr = Some(Receiver { sn: a.trim().into(), model: b.trim().into(), firmware: c.trim().into() }))).collect());
            g.push([("DORIS", "STAREC"), ("A serial of 20 bytes", "TRM59800.00     NONE")].iter().map(|(a, b)| line("ANT # / TYPE", &format!("{a:20}{b:20}"), move |h| antenna(h, |x| {
                x.sn = a.trim().into();
                x.model = b.trim().into();
            }))).collect());
            g.push([["1.8480", "-0.2000", "-0.7510"], ["0.0000", "0.0000", "0.0000"]].iter().map(|p| {
                let p = *p;
                line("APPROX POSITION XYZ", &p.map(|x| format!("{x:>14}")).concat(), move |h| h.rx_position = Some((val(p[0]), val(p[1]), val(p[2]))))
            }).collect());
            for (last, kind) in [(false, "TIME OF FIRST OBS"), (true, "TIME OF LAST OBS")] {
                g.push(TIMES.iter().map(|t| line(kind, &time_of(t, "DOR"), move |h| {
                    let d = h.doris.as_mut().unwrap();
                    let t = Some(t.epoch(TimeScale::TAI));
                    if last {
                        d.timeof_last_obs = t
                    } else {
                        d.timeof_first_obs = t
                    }
                })).collect());
            }
            const CODES: [&str; 10] = ["L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"];
            g.push([10, 2, 1, 9, 6].iter().map(|n| {
                let l = CODES[..*n].iter().map(|c| format!(" {c:>3}")).collect::<String>();
                line("SYS / # / OBS TYPES", &format!("D{n:5}{l}"), move |h| h.doris.as_mut().unwrap().observables = CODES[..*n].iter().map(|c| observable(c)).collect())
            }).collect());
            g.push([(100u16, 2usize), (10, 1), (1000, 10), (1, 3)].iter().map(|(f, n)| {
                let l = CODES[..*n].iter().map(|c| format!(" {c:>3}")).collect::<String>();
                line("SYS / SCALE FACTOR", &format!("D {f:4}  {n:2}{l}"), move |h| {
                    for c in &CODES[..*n] {
                        h.doris.as_mut().unwrap().scaling.insert(observable(c), *f);
                    }
                })
            }).collect());
            g.push([("2.000", 2000i64), ("-0.125", -125), ("1.001", 1001), ("0.000", 0), ("123456.789", 123_456_789), ("-2.003", -2003)].iter().map(|(s, ns)| line("L2 / L1 DATE OFFSET", &format!("D  {s:>14}"), move |h| h.doris.as_mut().unwrap().u2_s1_time_offset = Duration::from_truncated_nanoseconds(*ns))).collect());
            g.push(vec![line("# OF STATIONS", "    53", |_| ()), line("# OF STATIONS", "     1", |_| ())]);
            // this line accumulates
            g.push([(1u16, "OWFC", "OWENGA", "50253S002", 3u8, 0i8), (12, "GR4B", "GRASSE", "10002S019", 3, -15), (99, "WEUC", "A SITE NAME OF 29 CHARACTERS.", "14201S046", 2, 18)].iter().map(|(k, l, n, d, b, f)| {
                line("STATION REFERENCE", &format!("D{k:02}  {l} {n:29} {d}{b:3}{f:4}"), move |h| {
                    let mut s = Station::from_str(&format!("D{k:02}  AAAA {:29} 10001M001  1   0", "BBBB")).expect("model: station");
                    (s.label, s.site, s.gen, s.k_factor) = (l.to_string(), n.to_string(), *b, *f);
                    s.domes = DOMES::from_str(d).expect("model: domes");
                    h.doris.as_mut().unwrap().stations.push(s);
                })
            }).collect());
            // not supported, and do not disturb
            g.push(vec![
                line("CENTER OF MASS: XYZ", "        1.6312        0.0112        0.0137", |_| ()),
                line("# TIME REF STATIONS", "     1", |_| ()),
                line("TIME REF STATION", "D02           1.581          13.840", |_| ()),
                line("TIME REF STAT DATE", "  2018    06    13    00    00    0.0000000", |_| ()),
            ]);
        },
        Atx => {
            let relative = |s: &str| Pcv::Relative(s.to_string());
            g.push([("A", "", "", Pcv::Absolute), ("R", "", "", relative("AOAD/M_T")), ("R", "AOAD/M_T", "CR620033902", relative("AOAD/M_T")), ("R", "ASH700936A_M    NONE", "A serial of 20 bytes", relative("ASH700936A_M    NONE")), ("A", "", "12345", Pcv::Absolute)].into_iter().map(|(a, b, c, pcv)| {
                line("PCV TYPE / REFANT", &format!("{a:20}{b:20}{c:20}"), move |h| {
                    let x = h.antex.as_mut().unwrap();
                    x.pcv_type = pcv.clone();
                    x.reference_ant_sn = opt(c);
                })
            }).collect());
        },
        _ => unreachable!(),
    }
}
/// The sensors' order is not observable through these checks.
fn sorted(mut h: Header) -> Header {
    if let Some(m) = &mut h.meteo {
        m.sensors.sort_by_key(|s| s.observable.to_string());
    }
    h
}

fn all_groups(ty: Ty) -> &'static Vec<Vec<Item>> {
    static G: OnceLock<Vec<Vec<Vec<Item>>>> = OnceLock::new();
    &G.get_or_init(|| TYPES.iter().map(|t| groups(*t)).collect())[TYPES.iter().position(|t| *t == ty).unwrap()]
}

const SYSTEM_FORMS: [(&str, Option<Constellation>); 30] = [
    ("G", Some(Constellation::GPS)),
    ("G: GPS", Some(Constellation::GPS)),
    ("G (GPS)", Some(Constellation::GPS)),
    ("GPS", Some(Constellation::GPS)),
    ("R", Some(Constellation::Glonass)),
    ("R: GLONASS", Some(Constellation::Glonass)),
    ("R (GLONASS)", Some(Constellation::Glonass)),
    ("R: GLO", Some(Constellation::Glonass)),
    ("E", Some(Constellation::Galileo)),
    ("E: GALILEO", Some(Constellation::Galileo)),
    ("E (GALILEO)", Some(Constellation::Galileo)),
    ("E: GAL", Some(Constellation::Galileo)),
    ("C", Some(Constellation::BeiDou)),
    ("C: BDS", Some(Constellation::BeiDou)),
    ("C (BEIDOU)", Some(Constellation::BeiDou)),
    ("C: BEIDOU", Some(Constellation::BeiDou)),
    ("J", Some(Constellation::QZSS)),
    ("J: QZSS", Some(Constellation::QZSS)),
    ("J (QZSS)", Some(Constellation::QZSS)),
    ("I", Some(Constellation::IRNSS)),
    ("I: IRNSS", Some(Constellation::IRNSS)),
    ("I: NAVIC", Some(Constellation::IRNSS)),
    ("S", Some(Constellation::SBAS)),
    ("S: SBAS", Some(Constellation::SBAS)),
    ("S: SBAS PAYLOAD", Some(Constellation::SBAS)),
    ("S (SBAS)", Some(Constellation::SBAS)),
    ("M", Some(Constellation::Mixed)),
    ("M: MIXED", Some(Constellation::Mixed)),
    ("M (MIXED)", Some(Constellation::Mixed)),
    ("MIXED", Some(Constellation::Mixed)),
];

fn version_line(e: &mut Exec, v: &str, t: &str, s: &str, want: Header) -> R {
    let text = hl(&format!("{v:20}{t:20}{s:20}"), "RINEX VERSION / TYPE") + &hl("", "END OF HEADER");
    e.note(|| text.clone());
    let got = read(&text)?;
    e.step();
    if let Some(d) = diff(&want, &got) {
        bail!("{text:?}: {d}");
    }
    e.outcome(&text);
    e.validated();
    Ok(())
}

/// Fields of text: line, what precedes the field, its width, what it is.
static TEXT_LISTS: OnceLock<[Vec<String>; 3]> = OnceLock::new();
type TextField = (&'static str, &'static str, usize, fn(&mut Header, &str));
fn text_fields(ty: Ty) -> Vec<TextField> {
    fn rx(h: &mut Header) -> &mut Receiver {
        h.rcvr.get_or_insert_with(|| Receiver { sn: String::new(), model: String::new(), firmware: String::new() })
    }
    const FORTY: &str = "                                        ";
    const TWENTY: &str = "                    ";
    let mut v: Vec<TextField> = vec![
        ("COMMENT", "", 60, |h, s| h.comments.push(s.into())),
        ("PGM / RUN BY / DATE", "", 20, |h, s| h.program = opt(s)),
        ("PGM / RUN BY / DATE", TWENTY, 20, |h, s| h.run_by = opt(s)),
        ("PGM / RUN BY / DATE", FORTY, 20, |h, s| h.date = opt(s)),
    ];
    if matches!(ty, Obs2 | Obs3 | Nav2 | Nav3) {
        v.push(("LICENSE OF USE", "", 60, |h, s| h.license = opt(s)));
        v.push(("STATION INFORMATION", "", 60, |h, s| h.station_url = opt(s)));
        v.push(("DOI", "", 60, |h, s| h.doi = opt(s)));
    }
    if matches!(ty, Obs2 | Obs3 | Met) {
        v.push(("MARKER NAME", "", 60, |h, s| marker(h, |m| m.with_name(s))));
    }
    if matches!(ty, Obs2 | Obs3 | Dor) {
        v.push(("OBSERVER / AGENCY", "", 20, |h, s| h.observer = opt(s)));
        v.push(("OBSERVER / AGENCY", TWENTY, 40, |h, s| h.agency = opt(s)));
        v.push(("REC # / TYPE / VERS", "", 20, |h, s| rx(h).sn = s.into()));
        v.push(("REC # / TYPE / VERS", TWENTY, 20, |h, s| rx(h).model = s.into()));
        v.push(("REC # / TYPE / VERS", FORTY, 20, |h, s| rx(h).firmware = s.into()));
        v.push(("ANT # / TYPE", "", 20, |h, s| antenna(h, |a| a.sn = s.into())));
        v.push(("ANT # / TYPE", TWENTY, 20, |h, s| antenna(h, |a| a.model = s.into())));
    }
    match ty {
        Clk => v.push(("STATION CLK REF", "", 60, |h, s| h.clock.as_mut().unwrap().ref_clock = Some(s.into()))),
        Iono => {
            v.push(("DESCRIPTION", "", 60, |h, s| h.ionex.as_mut().unwrap().description = opt(s)));
            v.push(("OBSERVABLES USED", "", 60, |h, s| h.ionex.as_mut().unwrap().observables = opt(s)));
        },
        Dor => v.push(("SATELLITE NAME", "", 60, |h, s| h.doris.as_mut().unwrap().satellite = s.into())),
        _ => {},
    }
    v
}
/// Texts of a field of some width: every printable character in every of five
/// places, blanks inside, and the labels of other lines.
fn texts(width: usize) -> Vec<String> {
    const WORDS: &str = "AbC dEf-12 3.4/5 (gHi), jkl:mno 678 90 pqr_STU=vw +xyz 0.123";
    let mut v = vec![];
    for c in ' '..='~' {
        for n in [1, 2, width / 2, width - 1, width] {
            for at in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
                if at < n && (n, c) != (1, ' ') {
                    let mut t: Vec<char> = WORDS.chars().take(n).collect();
                    t[at] = c;
                    v.push(t.into_iter().collect());
                }
            }
        }
    }
    for n in 1..=width - 2 {
        v.push(format!("A{}B", " ".repeat(n)));
    }
    for n in 1..=width {
        v.push(WORDS[..n].to_string());
        v.push("0123456789".chars().cycle().take(n).collect());
    }
    const LABELS: [&str; 40] = [
        "RINEX VERSION / TYPE", "CRINEX VERS   / TYPE", "CRINEX PROG / DATE", "PGM / RUN BY / DATE", "COMMENT", "MARKER NAME", "MARKER NUMBER", "MARKER TYPE",
        "OBSERVER / AGENCY", "REC # / TYPE / VERS", "ANT # / TYPE", "APPROX POSITION XYZ", "ANTENNA: DELTA H/E/N", "ANTENNA: DELTA X/Y/Z", "SYS / # / OBS TYPES",
        "# / TYPES OF OBSERV", "SIGNAL STRENGTH UNIT", "INTERVAL", "TIME OF FIRST OBS", "TIME OF LAST OBS", "RCV CLOCK OFFS APPL", "SYS / DCBS APPLIED",
        "SYS / PCVS APPLIED", "SYS / SCALE FACTOR", "SYS / PHASE SHIFT", "GLONASS SLOT / FRQ #", "GLONASS COD/PHS/BIS", "LEAP SECONDS", "# OF SATELLITES",
        "PRN / # OF OBS", "END OF HEADER", "IONOSPHERIC CORR", "TIME SYSTEM CORR", "SENSOR MOD/TYPE/ACC", "ANALYSIS CENTER", "EXPONENT", "MAP DIMENSION", "NONE", "null", "nan",
    ];
    for l in LABELS {
        for t in [l.to_string(), format!("x {l}"), format!("{l} x"), l.to_lowercase()] {
            if t.len() <= width {
                v.push(t);
            }
        }
    }
    v
}

pub fn run_read(ctx: &mut Ctx) {
    const VERSIONS: [(&str, (u8, u8)); 14] = [
        ("     1", (1, 0)),
        ("     2", (2, 0)),
        ("     2.00", (2, 0)),
        ("     2.10", (2, 10)),
        ("     2.11", (2, 11)),
        ("     2.12", (2, 12)),
        ("     3.00", (3, 0)),
        ("     3.01", (3, 1)),
        ("     3.02", (3, 2)),
        ("     3.03", (3, 3)),
        ("     3.04", (3, 4)),
        ("     3.05", (3, 5)),
        ("     4", (4, 0)),
        ("     4.00", (4, 0)),
    ];
    ctx.explore("observation type", "every version x spelling of the type x spelling of the system", |e| {
        let (v, n) = *e.pick(&VERSIONS);
        let t = *e.pick(&["OBSERVATION DATA", "O", "O: OBSERVATION DATA", "Observation data"]);
        let k = e.choose(SYSTEM_FORMS.len() + (n.0 < 3) as usize);
        // blank: GPS (RINEX 2)
        let (s, c) = *SYSTEM_FORMS.get(k).unwrap_or(&("", Some(Constellation::GPS)));
        version_line(e, v, t, s, bare(n, RinexType::ObservationData, c))
    });
    ctx.explore("navigation type", "every version x spelling of the type x spelling of the system", |e| {
        let (v, n) = *e.pick(&VERSIONS);
        if n.0 < 3 {
            let (t, s, c) = *e.pick(&[
                ("N: GPS NAV DATA", "", Constellation::GPS),
                ("NAVIGATION DATA", "", Constellation::GPS),
                ("N", "", Constellation::GPS),
                ("G: GLONASS NAV DATA", "", Constellation::Glonass),
                ("GLONASS NAV DATA", "", Constellation::Glonass),
                ("G", "", Constellation::Glonass),
                ("H: GEO NAV MSG DATA", "", Constellation::SBAS),
                ("NAVIGATION DATA", "R: GLONASS", Constellation::Glonass),
                ("NAVIGATION DATA", "G: GPS", Constellation::GPS),
            ]);
            return version_line(e, v, t, s, bare(n, RinexType::NavigationData, Some(c)));
        }
        let t = *e.pick(&["N: GNSS NAV DATA", "NAVIGATION DATA", "N", "N: NAVIGATION DATA", "NAV DATA"]);
        let (s, c) = *e.pick(&SYSTEM_FORMS);
        version_line(e, v, t, s, bare(n, RinexType::NavigationData, c))
    });
    ctx.explore("other types", "every version x spelling of the type", |e| {
        let (v, n) = *e.pick(&VERSIONS);
        if e.flag() {
            let t = *e.pick(&["METEOROLOGICAL DATA", "M", "M: METEOROLOGICAL"]);
            version_line(e, v, t, "", bare(n, RinexType::MeteoData, None))
        } else {
            let t = *e.pick(&["CLOCK DATA", "C", "C: CLOCK DATA"]);
            let (s, c) = *e.pick(&SYSTEM_FORMS);
            version_line(e, v, t, s, bare(n, RinexType::ClockData, c))
        }
    });
    ctx.explore("ionosphere maps and antennas", "every version x spelling of the type x reference system (or satellite system, or phase center convention)", |e| {
        const NAMES: [(&str, Constellation); 6] = [("GPS", Constellation::GPS), ("GLO", Constellation::Glonass), ("GAL", Constellation::Galileo), ("BDS", Constellation::BeiDou), ("SBAS", Constellation::SBAS), ("GNSS", Constellation::Mixed)];
        if e.flag() {
            let (v, n) = *e.pick(&[("1.3", (1u8, 3u8)), ("1.4", (1, 4)), ("1.2", (1, 2)), ("2.0", (2, 0))]);
            let (s, c) = *e.pick(&[("", None), ("G", Some(Constellation::GPS)), ("R", Some(Constellation::Glonass)), ("E", Some(Constellation::Galileo)), ("C", Some(Constellation::BeiDou)), ("J", Some(Constellation::QZSS)), ("I", Some(Constellation::IRNSS)), ("S", Some(Constellation::SBAS)), ("M", Some(Constellation::Mixed))]);
            let text = hl(&format!("{v:>8}{:12}{s}", ""), "ANTEX VERSION / SYST") + &hl("", "END OF HEADER");
            e.note(|| text.clone());
            let got = read(&text)?;
            e.step();
            if let Some(d) = diff(&bare(n, RinexType::AntennaData, c), &got) {
                bail!("{text:?}: {d}");
            }
            e.outcome(&text);
            e.validated();
            return Ok(());
        }
        let (v, n) = *e.pick(&[("1.0", (1u8, 0u8)), ("1.1", (1, 1)), ("2.0", (2, 0))]);
        let t = *e.pick(&["IONOSPHERE MAPS", "I", "Ionosphere Maps"]);
        let k = e.choose(NAMES.len() + 6);
        let (s, c) = match NAMES.get(k) {
            Some((s, c)) => (*s, Some(*c)),
            None => (["BEN", "ENV", "ERS", "IRI", "NNS", "TOP"][k - NAMES.len()], None),
        };
        let text = hl(&format!("{v:>8}{:12}{t:20}{s:20}", ""), "IONEX VERSION / TYPE") + &hl("", "END OF HEADER");
        e.note(|| text.clone());
        let mut want = bare(n, RinexType::IonosphereMaps, None);
        let mut got = read(&text)?;
        let Some(x) = &mut got.ionex else { bail!("{text:?}: no ionosphere maps header") };
        match c {
            Some(c) => want.ionex.as_mut().unwrap().reference = RefSystem::GnssConstellation(c),
            None => {
                // these systems are not exported: they print as they are spelled
                let r = std::mem::take(&mut x.reference);
                ensure!(r.to_string() == s && !matches!(r, RefSystem::GnssConstellation(_)), "{text:?}: reference system {r:?}");
            },
        }
        e.step();
        if let Some(d) = diff(&want, &got) {
            bail!("{text:?}: {d}");
        }
        e.outcome(&text);
        e.validated();
        Ok(())
    });
    ctx.explore("fields", "every type of file x every header line x every value", |e| {
        let ty = *e.pick(&TYPES);
        let g = e.pick(all_groups(ty));
        let i = e.pick(g);
        check(e, ty, &[i])
    });
    ctx.explore("pairs", "every type of file x every ordered pair of lines x every pair of values (those of a kind that accumulates included)", |e| {
        let ty = *e.pick(&TYPES);
        let all = all_groups(ty);
        let (m, n) = (e.choose(all.len()), e.choose(all.len()));
        let i = e.choose(all[m].len());
        let j = e.choose(all[n].len());
        if m == n {
            let k = all[m][i].kind;
            // these lines may be repeated; the others hold a single value
            if !matches!(k, "COMMENT" | "DESCRIPTION" | "STATION REFERENCE" | "SYS / DCBS APPLIED" | "SYS / PCVS APPLIED" | "ANALYSIS CLK REF") {
                e.trivial();
                return Ok(());
            }
        }
        check(e, ty, &[&all[m][i], &all[n][j]])
    });
    ctx.explore("moves", "every type of file, a header with every line, in every value: every line moved to every other place", |e| {
        let ty = *e.pick(&TYPES);
        let all = all_groups(ty);
        let variant = e.choose(6);
        let mut v: Vec<&Item> = all.iter().map(|g| &g[variant.min(g.len() - 1)]).collect();
        let from = e.choose(v.len());
        let to = e.choose(v.len());
        let x = v.remove(from);
        v.insert(to, x);
        check(e, ty, &v)
    });
    ctx.explore("orders", "every order of the lines that describe one object (marker and antenna), with all of them or without some", |e| {
        let ty = *e.pick(&[Obs2, Obs3]);
        let all = all_groups(ty);
        let kinds = ["MARKER NAME", "MARKER NUMBER", "MARKER TYPE", "ANT # / TYPE", "ANTENNA: DELTA H/E/N", "ANTENNA: DELTA X/Y/Z"];
        let mut left: Vec<&Item> = vec![];
        for k in kinds {
            let g = all.iter().find(|g| g[0].kind == k).unwrap();
            if e.flag() {
                left.push(&g[1]);
            }
        }
        let mut v = vec![];
        while !left.is_empty() {
            let n = e.choose(left.len());
            v.push(left.remove(n));
        }
        check(e, ty, &v)
    });
    ctx.explore("observables", "lists of 1..41 (RINEX 3) or 1..15 (RINEX 2) observables x two systems, in both orders; scale factors of 1..40", |e| {
        let all = v3_codes();
        match e.choose(3) {
            0 => {
                let n = 1 + e.choose(V2_CODES.len());
                let rot = e.choose(V2_CODES.len());
                let mut c = V2_CODES;
                c.rotate_left(rot);
                check(e, Obs2, &[&v2_list(false, &c[..n])])
            },
            1 => {
                let n = 1 + e.choose(40);
                let m = *e.pick(&[1, 13, 14, 26, 27, 40]);
                let (a, b) = (*e.pick(&SYS), *e.pick(&SYS));
                if a == b {
                    e.trivial();
                    return Ok(());
                }
                check(e, Obs3, &[&v3_list(a.0, &all[..n]), &v3_list(b.0, &all[..m])])
            },
            _ => {
                let n = 1 + e.choose(40);
                let m = *e.pick(&[1, 12, 13, 24, 25, 40]);
                let (a, b) = (*e.pick(&SYS), *e.pick(&SYS));
                let (f, g) = (*e.pick(&[1, 10, 100, 1000]), *e.pick(&[1, 10, 100, 1000]));
                if a == b {
                    e.trivial();
                    return Ok(());
                }
                check(e, Obs3, &[&scale_factor(a.0, f, &all[..n]), &scale_factor(b.0, g, &all[..m])])
            },
        }
    });
    ctx.explore("system scaling", "scale factors that apply to every observable of a system (number of observables null or blank), before or after the lists", |e| {
        let all = v3_codes();
        let (a, b) = (*e.pick(&SYS), *e.pick(&SYS));
        let f = *e.pick(&[1u16, 10, 100, 1000]);
        let n = *e.pick(&[1, 13, 14, 30]);
        let text = if e.flag() { format!("{} {f:4}   0", a.0) } else { format!("{} {f:4}", a.0) };
        let codes: Vec<_> = all[..n].iter().map(|c| observable(c)).collect();
        let one = line("SYS / SCALE FACTOR", &text, move |h| {
            for o in &codes {
                h.obs.as_mut().unwrap().scaling.insert((a.1, o.clone()), f);
            }
        });
        if a == b {
            e.trivial();
            return Ok(());
        }
        let (la, lb) = (v3_list(a.0, &all[..n]), v3_list(b.0, &all[..5]));
        match e.choose(3) {
            0 => check(e, Obs3, &[&one, &la, &lb]),
            1 => check(e, Obs3, &[&la, &one, &lb]),
            _ => check(e, Obs3, &[&lb, &la, &one]),
        }
    });
    ctx.explore("durations", "sampling intervals of every millisecond, offsets of DORIS signals of every nanosecond, up to a bound, and around greater ones", |e| {
        let around = [10_000i64, 30_000, 99_999, 100_000, 900_000, 3_600_000];
        let doris = e.flag();
        let near = e.choose(around.len() + 1);
        let n = match near {
            0 => 1 + e.choose(4000) as i64,
            k => around[k - 1] - 20 + e.choose(41) as i64,
        };
        let neg = doris && e.flag();
        let text = format!("{}.{:03}", n / 1000, n % 1000);
        if doris {
            let (text, n) = if neg { (format!("-{text}"), -n) } else { (text, n) };
            check(e, Dor, &[&line("L2 / L1 DATE OFFSET", &format!("D  {text:>14}"), move |h| h.doris.as_mut().unwrap().u2_s1_time_offset = Duration::from_truncated_nanoseconds(n))])
        } else {
            check(e, Obs3, &[&line("INTERVAL", &format!("{text:>10}"), move |h| h.sampling_interval = Some(Duration::from_truncated_nanoseconds(n * 1_000_000)))])
        }
    });
    ctx.explore("slots", "1..99 GLONASS frequency channels", |e| {
        let n = 1 + e.choose(99);
        let ty = *e.pick(&[Obs2, Obs3]);
        check(e, ty, &[&slots(n)])
    });
    ctx.explore("many", "every type of file x kind of line that accumulates x 1..1025 of them (67 sizes, up to what the kind allows), alone or with every other line after or before them", |e| {
        let ty = *e.pick(&TYPES);
        let kind = e.choose(8);
        let n = *e.pick(&counts());
        let place = e.choose(3);
        let many = match repeated(ty, kind, n) {
            Some(m) => m,
            None => {
                e.trivial();
                return Ok(());
            },
        };
        let rest: Vec<&Item> = all_groups(ty).iter().map(|g| &g[0]).filter(|i| i.kind != many[0].kind).collect();
        let mut v: Vec<&Item> = many.iter().collect();
        match place {
            1 => v.extend(rest),
            2 => v.splice(0..0, rest).for_each(drop),
            _ => {},
        }
        check(e, ty, &v)
    });
    ctx.explore("years", "times of the first and of the last observation: every year of two digits, and 1980 to 2099, in every time scale", |e| {
        let last = e.flag();
        let n = e.choose(220);
        let (y, text) = if n < 100 { (if n < 80 { 2000 } else { 1900 } + n as i32, n as i32) } else { (1880 + n as i32, 1880 + n as i32) };
        let (s, ts) = *e.pick(&SCALES);
        let t = MTime(y, 6, 15, 13, 4, 300_000_001);
        let kind = if last { "TIME OF LAST OBS" } else { "TIME OF FIRST OBS" };
        let l = line(kind, &format!("{text:6}{}", &time_of(&t, s)[6..]), move |h| {
            let o = h.obs.as_mut().unwrap();
            let t = Some(t.epoch(ts));
            if last {
                o.timeof_last_obs = t
            } else {
                o.timeof_first_obs = t
            }
        });
        let ty = *e.pick(&[Obs2, Obs3]);
        check(e, ty, &[&l])
    });
    ctx.explore("texts", "every field of text of every type of file x texts: every printable character in several places of several lengths, blanks inside, the labels of other lines, alone or after every other line", |e| {
        let ty = *e.pick(&TYPES);
        let fields = text_fields(ty);
        let (kind, before, width, set) = *e.pick(&fields);
        let all = TEXT_LISTS.get_or_init(|| [20, 40, 60].map(texts));
        let s = e.pick(&all[width / 20 - 1]);
        let with = e.flag();
        let i = line(kind, &format!("{before}{s}"), move |h| set(h, s.trim()));
        let rest = all_groups(ty).iter().map(|g| &g[0]).filter(|i| with && i.kind != kind);
        check(e, ty, &rest.chain([&i]).collect::<Vec<_>>())
    });
    ctx.explore("crinex", "the two lines of compressed files: program, month, year, day and time", |e| {
        let v = *e.pick(&[("1.0", (1u8, 0u8)), ("3.0", (3, 0)), ("3.1", (3, 1))]);
        let prog = *e.pick(&["RNX2CRX ver.4.0.7", "Exactly 20 bytes....", "x"]);
        let y = *e.pick(&[1996, 1999, 2000, 2021, 2079]);
        let m = e.choose(12);
        let d = *e.pick(&[1u8, 9, 10, 28]);
        let (hh, mm) = *e.pick(&[(0u8, 0u8), (23, 59), (4, 7)]);
        const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
        let month = MONTHS[m];
        let ty = if v.1 .0 == 1 { Obs2 } else { Obs3 };
        let text = hl(&format!("{:20}{:20}", v.0, "COMPACT RINEX FORMAT"), "CRINEX VERS   / TYPE")
            + &hl(&format!("{prog:20}{:20}{d:02}-{month}-{:02} {hh:02}:{mm:02}", "", y % 100), "CRINEX PROG / DATE")
            + &first_line(ty)
            + &hl("", "END OF HEADER");
        e.note(|| text.clone());
        let mut want = base(ty);
        want.obs.as_mut().unwrap().crinex = Some(CRINEX {
            version: Version { major: v.1 .0, minor: v.1 .1 },
            prog: prog.to_string(),
            date: Epoch::from_gregorian_utc(y, m as u8 + 1, d, hh, mm, 0, 0),
        });
        let got = read(&text)?;
        e.step();
        if let Some(d) = diff(&want, &got) {
            bail!("{d}");
        }
        e.outcome(&text);
        e.validated();
        Ok(())
    });
}

/* -------------------------------------------------------------- P09 */

/// Fields of a line: (first column, width), texts (T), numbers (N)
#[derive(Clone, Copy, PartialEq)]
enum Col {
    T,
    N,
}
use Col::*;
fn layout(label: &str) -> Option<Vec<(usize, usize, Col)>> {
    let seq = |start: usize, w: usize, n: usize, c: Col| (0..n).map(|k| (start + k * w, w, c)).collect::<Vec<_>>();
    Some(match label {
        "RINEX VERSION / TYPE" => vec![(0, 9, N), (20, 20, T), (40, 20, T)],
        "CRINEX VERS   / TYPE" => vec![(0, 20, N), (20, 40, T)],
        "CRINEX PROG / DATE" => vec![(0, 20, T), (40, 20, T)],
        "PGM / RUN BY / DATE" | "REC # / TYPE / VERS" => seq(0, 20, 3, T),
        "COMMENT" | "MARKER NAME" | "DOI" | "LICENSE OF USE" | "STATION INFORMATION" => vec![(0, 60, T)],
        "MARKER NUMBER" | "MARKER TYPE" => vec![(0, 20, T)],
        "OBSERVER / AGENCY" => vec![(0, 20, T), (20, 40, T)],
        "ANT # / TYPE" => seq(0, 20, 2, T),
        "APPROX POSITION XYZ" | "ANTENNA: DELTA H/E/N" | "ANTENNA: DELTA X/Y/Z" => seq(0, 14, 3, N),
        "INTERVAL" => vec![(0, 10, N)],
        "LEAP SECONDS" => [seq(0, 6, 4, N), vec![(24, 3, T)]].concat(),
        "TIME OF FIRST OBS" | "TIME OF LAST OBS" => [seq(0, 6, 5, N), vec![(30, 13, N), (48, 3, T)]].concat(),
        "RCV CLOCK OFFS APPL" => vec![(0, 6, N)],
        "SYS / DCBS APPLIED" | "SYS / PCVS APPLIED" => vec![(0, 1, T), (2, 17, T), (20, 40, T)],
        "SYS / SCALE FACTOR" => [vec![(0, 1, T), (2, 4, N), (8, 2, N)], (0..12).map(|k| (11 + 4 * k, 3, T)).collect()].concat(),
        "SYS / # / OBS TYPES" => [vec![(0, 1, T), (3, 3, N)], (0..13).map(|k| (7 + 4 * k, 3, T)).collect()].concat(),
        "# / TYPES OF OBSERV" | "# / TYPES OF DATA" => [vec![(0, 6, N)], (0..9).map(|k| (10 + 6 * k, 2, T)).collect()].concat(),
        "GLONASS SLOT / FRQ #" => [vec![(0, 3, N)], (0..8).flat_map(|k| [(4 + 7 * k, 3, T), (8 + 7 * k, 2, N)]).collect()].concat(),
        "SENSOR MOD/TYPE/ACC" => vec![(0, 20, T), (20, 20, T), (46, 7, N), (57, 2, T)],
        "SENSOR POS XYZ/H" => [seq(0, 14, 4, N), vec![(57, 2, T)]].concat(),
        "TIME SYSTEM ID" => vec![(3, 3, T)],
        "END OF HEADER" => vec![],
        _ => return None,
    })
}
type Rows = Vec<(String, Vec<String>)>;
/// What a header says, by the column tables alone.
fn rows(text: &str) -> R<Rows> {
    let mut out: Rows = vec![];
    for l in text.lines() {
        ensure!(l.is_ascii() && l.len() <= 80 && l.len() > 60, "{} columns: {l:?}", l.len());
        let label = l[60..].trim_end();
        let Some(spans) = layout(label) else { bail!("column 61 of {l:?} does not start a known label") };
        let mut rest: Vec<u8> = l.bytes().take(60).collect();
        let mut f = vec![];
        for (s, w, c) in spans {
            let t = &l[s..s + w];
            if c == N && !label.starts_with("CRINEX") && label != "INTERVAL" && !t.trim().is_empty() {
                ensure!(!t.ends_with(' '), "columns {}-{} of {l:?} hold a number, on the right", s + 1, s + w);
            }
            f.push(match c {
                T => t.trim().to_string(),
                N if t.trim().is_empty() => String::new(),
                N => match t.trim().parse::<f64>() {
                    Ok(v) => format!("{}", v + 0.0),
                    Err(_) => bail!("columns {}-{} of {l:?} hold a number", s + 1, s + w),
                },
            });
            rest[s..s + w].fill(b' ');
        }
        ensure!(rest.iter().all(|b| *b == b' '), "{l:?} has text between the columns of its fields");
        out.push((label.to_string(), f));
    }
    match out.last() {
        Some((l, _)) if l == "END OF HEADER" => {},
        _ => bail!("the last line is not END OF HEADER"),
    }
    Ok(out)
}
/// Continuation lines joined, absent things dropped, order removed where it
/// has no meaning.
fn facts(rows: Rows) -> Rows {
    let mut out: Rows = vec![];
    for (l, mut f) in rows {
        let cont = f.first().is_some_and(|x| x.is_empty());
        match l.as_str() {
            "RINEX VERSION / TYPE" => {
                for k in [1, 2] {
                    f[k].truncate(1);
                }
                if f[1] == "N" && f[0].parse::<f64>().unwrap_or(0.) < 3. {
                    f[2].clear(); // old navigation files have no system
                }
            },
            "TIME OF FIRST OBS" | "TIME OF LAST OBS" => {
                // two names of one time scale
                f[6] = match f[6].as_str() {
                    "BDS" => "BDT".into(),
                    "IRN" => "GPS".into(),
                    x => x.into(),
                }
            },
            "RCV CLOCK OFFS APPL" if f[0] == "0" => continue,
            "ANT # / TYPE" | "MARKER NAME" if f.iter().all(|x| x.is_empty()) => continue,
            "ANTENNA: DELTA H/E/N" if f.iter().all(|x| x == "0") => continue,
            "SYS / DCBS APPLIED" | "SYS / PCVS APPLIED" => f.iter_mut().filter(|x| *x == "Unknown").for_each(|x| x.clear()),
            "SYS / # / OBS TYPES" | "# / TYPES OF OBSERV" | "# / TYPES OF DATA" | "SYS / SCALE FACTOR" | "GLONASS SLOT / FRQ #" => {
                let head = match l.as_str() {
                    "SYS / SCALE FACTOR" => 3,
                    "SYS / # / OBS TYPES" => 2,
                    _ => 1,
                };
                let items: Vec<_> = f.split_off(head).into_iter().filter(|x| !x.is_empty()).collect();
                if cont {
                    if let Some(last) = out.last_mut().filter(|x| x.0 == l) {
                        last.1.extend(items);
                        continue;
                    }
                }
                f.extend(items);
            },
            _ => {},
        }
        out.push((l, f));
    }
    for (l, f) in &mut out {
        match l.as_str() {
            "SYS / SCALE FACTOR" => f[3..].sort(),
            "GLONASS SLOT / FRQ #" => {
                let mut p: Vec<_> = f[1..].chunks(2).map(|x| x.to_vec()).collect();
                p.sort();
                f.truncate(1);
                f.extend(p.concat());
            },
            _ => {},
        }
    }
    // stable: comments and compensations keep their order
    out.sort_by(|a, b| {
        let k = |x: &(String, Vec<String>)| if matches!(x.0.as_str(), "SYS / # / OBS TYPES" | "SYS / SCALE FACTOR" | "SENSOR MOD/TYPE/ACC" | "SENSOR POS XYZ/H") { x.1.concat() } else { String::new() };
        a.0.cmp(&b.0).then_with(|| k(a).cmp(&k(b)))
    });
    out
}
fn format_header(h: &Header) -> R<Result<String, FormattingError>> {
    let r = no_panic("Header::format", || {
        let mut w = BufWriter::new(Vec::new());
        h.format(&mut w).map(|_| w.into_inner().unwrap())
    })?;
    Ok(match r {
        Ok(v) => Ok(String::from_utf8(v).map_err(|_| "the header is not UTF-8".to_string())?),
        Err(x) => Err(x),
    })
}
/// The header, as the reader is expected to give it back.
fn normal(mut h: Header) -> Header {
    if let Some(a) = &mut h.rcvr_antenna {
        for x in [&mut a.height, &mut a.eastern, &mut a.northern] {
            *x = Some(x.unwrap_or(0.0));
        }
    }
    sorted(h)
}
const NOT_WRITTEN: [&str; 5] = ["IONOSPHERIC CORR", "ANALYSIS CENTER", "STATION CLK REF", "STATION NAME / NUM", "ANALYSIS CLK REF"];
const NOT_WRITTEN_2: [&str; 3] = ["ION ALPHA", "ION BETA", "DELTA-UTC: A0,A1,T,W"];
fn written(i: &Item) -> bool {
    !NOT_WRITTEN.contains(&i.kind) && !NOT_WRITTEN_2.contains(&i.kind)
}
fn write_groups(ty: Ty) -> &'static Vec<Vec<Item>> {
    static G: OnceLock<Vec<Vec<Vec<Item>>>> = OnceLock::new();
    &G.get_or_init(|| WRITTEN.iter().map(|t| groups(*t).into_iter().filter(|g| written(&g[0])).collect()).collect())[WRITTEN.iter().position(|t| *t == ty).unwrap()]
}
fn write_checked(e: &mut Exec, what: &str, h: &Header, lines: &str) -> R {
    let text = match format_header(h)? {
        Ok(t) => t,
        Err(x) => bail!("{what}: Header::format refused {x:?}"),
    };
    e.note(|| text.clone());
    let said = facts(rows(&text)?);
    let expected = facts(rows(lines)?);
    if said != expected {
        let miss: Vec<_> = expected.iter().filter(|x| !said.contains(x)).take(3).collect();
        let more: Vec<_> = said.iter().filter(|x| !expected.contains(x)).take(3).collect();
        bail!("{what}: the columns should hold {miss:?}, they hold {more:?}");
    }
    let got = sorted(read(&text)?);
    if let Some(d) = diff(&normal(h.clone()), &got) {
        bail!("{what}, read back: {d}");
    }
    e.step();
    e.outcome(&text);
    e.validated();
    Ok(())
}
fn write_check(e: &mut Exec, ty: Ty, items: &[&Item]) -> R {
    let mut h = base(ty);
    let mut lines = first_line(ty);
    items.iter().for_each(|i| lines += &i.text);
    for last in [false, true] {
        for i in items.iter().filter(|i| (i.kind == "SENSOR POS XYZ/H") == last) {
            (i.set)(&mut h);
        }
    }
    if let Some(m) = &h.meteo {
        if m.sensors.is_empty() {
            // positions of sensors that are not described
            let mut keep = String::new();
            lines.lines().filter(|l| !l.contains("SENSOR POS")).for_each(|l| keep += &format!("{l}\n"));
            lines = keep;
        } else {
            let mut keep = String::new();
            for l in lines.lines() {
                let there = m.sensors.iter().any(|s| l[..60].trim_end().ends_with(&s.observable.to_string()));
                if !l.contains("SENSOR POS") || there {
                    keep += &format!("{l}\n");
                }
            }
            lines = keep;
        }
    }
    // an observable list is always there
    if h.meteo.as_ref().is_some_and(|m| m.codes.is_empty()) {
        lines += &hl("     0", "# / TYPES OF OBSERV");
    }
    lines += &hl("", "END OF HEADER");
    write_checked(e, &format!("{ty:?} header with {:?}", items.iter().map(|i| i.kind).collect::<Vec<_>>()), &h, &lines)
}

pub fn run_write(ctx: &mut Ctx) {
    const NUMBERS: [(u8, u8); 12] = [(1, 0), (2, 0), (2, 10), (2, 11), (2, 12), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (4, 0)];
    ctx.explore("version line", "every type x version x system, none included", |e| {
        let ty = *e.pick(&[RinexType::ObservationData, RinexType::NavigationData, RinexType::MeteoData, RinexType::ClockData]);
        let (a, b) = *e.pick(&NUMBERS);
        let c = e.choose(SYS.len() + 2);
        let c = match c {
            0 => None,
            1 => Some(('M', Constellation::Mixed)),
            c => Some(SYS[c - 2]),
        };
        let mut h = bare((a, b), ty, c.map(|c| c.1));
        let system = c.map(|c| c.0.to_string()).unwrap_or_default();
        let (letter, system) = match ty {
            RinexType::ObservationData => ("O", system),
            RinexType::MeteoData => {
                h.constellation = None;
                ("M", String::new())
            },
            RinexType::ClockData => ("C", system),
            _ if a < 3 => match c.map(|c| c.0) {
                Some('R') => ("G", String::new()),
                Some('S') => ("H", String::new()),
                Some('G') | None => ("N", String::new()),
                _ => {
                    // no such file
                    e.trivial();
                    return Ok(());
                },
            },
            _ => ("N", system),
        };
        if c.is_none() && matches!(ty, RinexType::ObservationData | RinexType::NavigationData) {
            let r = format_header(&h)?;
            e.step();
            e.outcome("refused");
            ensure!(r.is_err(), "a header without a system was written: {r:?}");
            return Ok(());
        }
        let mut lines = hl(&format!("{a:6}.{b:02}{:11}{letter:20}{system:20}", ""), "RINEX VERSION / TYPE");
        if ty == RinexType::MeteoData {
            lines += &hl("     0", "# / TYPES OF OBSERV");
        }
        lines += &hl("", "END OF HEADER");
        write_checked(e, &format!("{ty:?} {a}.{b} {c:?}"), &h, &lines)
    });
    ctx.explore("fields", "every type of file x every header line x every value", |e| {
        let ty = *e.pick(&WRITTEN);
        let g = e.pick(write_groups(ty));
        let i = e.pick(g);
        write_check(e, ty, &[i])
    });
    ctx.explore("pairs", "every type of file x every pair of lines x every pair of values", |e| {
        let ty = *e.pick(&WRITTEN);
        let all = write_groups(ty);
        let (m, n) = (e.choose(all.len()), e.choose(all.len()));
        let i = e.choose(all[m].len());
        let j = e.choose(all[n].len());
        let repeats = matches!(all[m][i].kind, "COMMENT" | "SYS / DCBS APPLIED" | "SYS / PCVS APPLIED");
        if n < m || (m == n && !repeats) {
            e.trivial();
            return Ok(());
        }
        write_check(e, ty, &[&all[m][i], &all[n][j]])
    });
    ctx.explore("whole", "every type of file, a header with every line, in every combination of values of two of them; every line removed", |e| {
        let ty = *e.pick(&WRITTEN);
        let all = write_groups(ty);
        let variant = e.choose(6);
        let mut v: Vec<&Item> = all.iter().map(|g| &g[variant.min(g.len() - 1)]).collect();
        let m = e.choose(all.len());
        let i = e.choose(all[m].len());
        v[m] = &all[m][i];
        let n = e.choose(all.len() + 1);
        if n < all.len() {
            v.remove(n);
        }
        write_check(e, ty, &v)
    });
    ctx.explore("observables", "lists of 1..40 (RINEX 3) or 1..15 (RINEX 2, meteo) observables x two systems; scale factors of 1..40", |e| {
        let all = v3_codes();
        match e.choose(3) {
            0 => {
                let n = 1 + e.choose(V2_CODES.len());
                let rot = e.choose(V2_CODES.len());
                let mut c = V2_CODES;
                c.rotate_left(rot);
                write_check(e, Obs2, &[&v2_list(false, &c[..n])])
            },
            1 => {
                let n = 1 + e.choose(40);
                let m = *e.pick(&[1, 12, 13, 14, 25, 26, 27, 39, 40]);
                let (a, b) = (*e.pick(&SYS), *e.pick(&SYS));
                if a == b {
                    e.trivial();
                    return Ok(());
                }
                write_check(e, Obs3, &[&v3_list(a.0, &all[..n]), &v3_list(b.0, &all[40 - m..])])
            },
            _ => {
                let n = 1 + e.choose(40);
                let m = *e.pick(&[1, 12, 13, 24, 25, 40]);
                let (a, b) = (*e.pick(&SYS), *e.pick(&SYS));
                let (f, g) = (*e.pick(&[1, 10, 100, 1000]), *e.pick(&[1, 10, 100, 1000]));
                if a == b {
                    e.trivial();
                    return Ok(());
                }
                write_check(e, Obs3, &[&scale_factor(a.0, f, &all[..n]), &scale_factor(b.0, g, &all[..m])])
            },
        }
    });
    ctx.explore("meteo observables", "every non empty subset of the 9 meteo codes, and lists of up to 20 in every rotation", |e| {
        const CODES: [&str; 9] = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI"];
        let codes: Vec<&str> = if e.flag() {
            let bits = 1 + e.choose(511);
            (0..9).filter(|k| bits >> k & 1 == 1).map(|k| CODES[k]).collect()
        } else {
            let (n, rot) = (1 + e.choose(20), e.choose(9));
            (0..n).map(|k| CODES[(k + rot) % 9]).collect()
        };
        write_check(e, Met, &[&v2_list(true, &codes)])
    });
    ctx.explore("single system", "RINEX 2 and 3 files of one system x lists of 1..15 observables", |e| {
        let (s, c) = *e.pick(&SYS);
        let v2 = e.flag();
        if v2 && matches!(s, 'C' | 'J' | 'I') {
            e.trivial();
            return Ok(());
        }
        let n = 1 + e.choose(15);
        let ver = if v2 { (2, 11) } else { (3, 4) };
        let mut h = bare(ver, RinexType::ObservationData, Some(c));
        let mut lines = hl(&format!("{:6}.{:02}{:11}{:20}{s}", ver.0, ver.1, "", "O"), "RINEX VERSION / TYPE");
        if v2 {
            lines += &v2_list(false, &V2_CODES[..n]).text;
            h.obs.as_mut().unwrap().codes.insert(c, V2_CODES[..n].iter().map(|c| observable(c)).collect());
        } else {
            let l = v3_list(s, &v3_codes()[..n]);
            lines += &l.text;
            (l.set)(&mut h);
        }
        lines += &hl("", "END OF HEADER");
        write_checked(e, &format!("{ver:?} {s}"), &h, &lines)
    });
    ctx.explore("slots", "every number of GLONASS frequency channels from 1 to 99", |e| {
        let n = 1 + e.choose(99);
        let ty = *e.pick(&[Obs2, Obs3]);
        write_check(e, ty, &[&slots(n)])
    });
    ctx.explore("many", "every type of file x kind of line that accumulates x 1..1025 of them (67 sizes, up to what the kind allows), alone or with every other line", |e| {
        let ty = *e.pick(&WRITTEN);
        let kind = e.choose(8);
        let n = *e.pick(&counts());
        let alone = e.flag();
        let many = match repeated(ty, kind, n) {
            Some(m) if written(&m[0]) => m,
            _ => {
                e.trivial();
                return Ok(());
            },
        };
        let rest: Vec<&Item> = write_groups(ty).iter().map(|g| &g[0]).filter(|i| !alone && i.kind != many[0].kind).collect();
        let v: Vec<&Item> = many.iter().chain(rest).collect();
        write_check(e, ty, &v)
    });
    ctx.explore("texts", "comments of 0..200 characters, with a line break or a character of 1 to 4 bytes at every position; the same for every other text field (which may be cut)", |e| {
        let n = e.choose(201);
        let kind = e.choose(5);
        let at = if kind == 0 { 0 } else { e.choose(n + 1) };
        let field = e.choose(9);
        let base_text: String = "A text, 17 chars/".chars().cycle().take(n).collect();
        let mut t = base_text.clone();
        if kind > 0 {
            t.insert_str(at, ["", "\n", "é", "€", "🛰"][kind]);
        }
        let mut h = base(Obs3);
        let other = "An other field";
        h.comments = vec![other.into()];
        match field {
            0 => h.comments.push(t.clone()),
            1 => h.program = Some(t.clone()),
            2 => h.run_by = Some(t.clone()),
            3 => h.observer = Some(t.clone()),
            4 => h.agency = Some(t.clone()),
            5 => h.rcvr = Some(Receiver { sn: t.clone(), model: "M".into(), firmware: t.clone() }),
            6 => h.rcvr_antenna = Some(Antenna { sn: t.clone(), model: t.clone(), ..Default::default() }),
            7 => h.geodetic_marker = Some(GeodeticMarker::default().with_name(&t)),
            _ => h.license = Some(t.clone()),
        }
        if kind == 1 && field > 0 {
            // line breaks in single line fields are not representable
            e.trivial();
            return Ok(());
        }
        let text = match format_header(&h)? {
            Ok(t) => t,
            Err(x) => bail!("refused {x:?}"),
        };
        e.note(|| text.clone());
        if text.is_ascii() {
            rows(&text)?;
        }
        let got = read(&text)?;
        e.step();
        ensure!(got.comments.first().map(|s| s.as_str()) == Some(other), "the other comment is {:?}", got.comments);
        ensure!(got.version == h.version && got.constellation == h.constellation, "version {:?}", got.version);
        if field == 0 {
            let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
            let (a, b) = (squeeze(&t), squeeze(&got.comments[1..].concat()));
            ensure!(a == b, "comment {t:?} became {:?}", &got.comments[1..]);
            if kind == 0 && n <= 60 {
                ensure!(got.comments[1..] == [t.trim().to_string()], "comment {t:?} became {:?}", &got.comments[1..]);
            }
        } else if kind == 0 && n > 0 && n <= [60, 20, 20, 20, 40, 20, 20, 60, 60][field] {
            let kept = match field {
                1 => got.program,
                2 => got.run_by,
                3 => got.observer,
                4 => got.agency,
                5 => got.rcvr.filter(|r| r.sn == r.firmware).map(|r| r.sn),
                6 => got.rcvr_antenna.filter(|a| a.sn == a.model).map(|a| a.sn),
                7 => got.geodetic_marker.map(|m| m.name),
                _ => got.license,
            };
            ensure!(kept.as_deref() == Some(t.trim()), "{t:?} became {kept:?}");
        }
        e.outcome(&text);
        e.validated();
        Ok(())
    });
    ctx.explore("text fields", "every field of text of every type of file x texts: every printable character in several places of several lengths, blanks inside, the labels of other lines", |e| {
        let ty = *e.pick(&WRITTEN);
        let fields: Vec<TextField> = text_fields(ty).into_iter().filter(|f| write_groups(ty).iter().any(|g| g[0].kind == f.0)).collect();
        let (kind, before, width, set) = *e.pick(&fields);
        let all = TEXT_LISTS.get_or_init(|| [20, 40, 60].map(texts));
        let s = e.pick(&all[width / 20 - 1]);
        let i = line(kind, &format!("{before}{s}"), move |h| set(h, s.trim()));
        write_check(e, ty, &[&i])
    });
    ctx.explore("crinex", "the two lines of compressed files", |e| {
        let v = *e.pick(&[(1u8, 0u8), (3, 0), (3, 1)]);
        let prog = *e.pick(&["RNX2CRX ver.4.0.7", "Exactly 20 bytes....", "x", ""]);
        let y = *e.pick(&[1980, 1996, 1999, 2000, 2021, 2079]);
        let m = e.choose(12);
        let d = *e.pick(&[1u8, 9, 10, 28]);
        let (hh, mm) = *e.pick(&[(0u8, 0u8), (23, 59), (4, 7)]);
        const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
        let ty = if v.0 == 1 { Obs2 } else { Obs3 };
        let mut h = base(ty);
        h.obs.as_mut().unwrap().crinex = Some(CRINEX {
            version: Version { major: v.0, minor: v.1 },
            prog: prog.trim().to_string(),
            date: Epoch::from_gregorian_utc(y, m as u8 + 1, d, hh, mm, 0, 0),
        });
        let lines = hl(&format!("{:20}{:20}", format!("{}.{}", v.0, v.1), "COMPACT RINEX FORMAT"), "CRINEX VERS   / TYPE")
            + &hl(&format!("{prog:40}{d:02}-{}-{:02} {hh:02}:{mm:02}", MONTHS[m], y % 100), "CRINEX PROG / DATE")
            + &first_line(ty)
            + &hl("", "END OF HEADER");
        write_checked(e, "crinex", &h, &lines)
    });
}
