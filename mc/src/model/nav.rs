//! Navigation RINEX: message tables transcribed from the documents, writer,
//! and the record a reader returns.
use super::hl;
use super::obs::{fill, scale_of, sv, MTime};
use rinex::navigation::*;
use rinex::prelude::*;
use std::collections::BTreeMap;

/// Broadcast orbit tables: one string per line, four fields each; `-` is a
/// spare; suffixes give the type (`:u` u32, `:i` i8, `:h` health, `:s` status).
pub struct Table {
    pub sys: char,
    pub major: u8,
    pub msg: &'static str,
    pub lines: &'static [&'static str],
}
const KEPLER: [&str; 4] = [
    "IODE crs deltaN m0",
    "cuc e cus sqrta",
    "toe cic omega0 cis",
    "i0 crc omega omegaDot",
];
const GLO: &[&str] = &["satPosX velX accelX health:h", "satPosY velY accelY channel:i", "satPosZ velZ accelZ ageOp"];
const GEO: &[&str] = &["satPosX velX accelX health:h", "satPosY velY accelY accuracyCode", "satPosZ velZ accelZ iodn"];
const LNAV_G: &[&str] = &["idot l2Codes week:u l2pDataFlag", "svAccuracy health:h tgd iodc", "t_tm fitInt"];
const LNAV_J: &[&str] = &["idot l2Codes week:u l2pDataFlag", "svAccuracy health tgd iodc", "t_tm fitInt"];
const GAL: &[&str] = &["idot dataSrc week:u -", "sisa health:h bgdE5aE1 bgdE5bE1", "t_tm - - -"];
const BDS3: &[&str] = &["idot - week:u -", "svAccuracy satH1 tgd1b1b3 tgd2b2b3", "t_tm aodc - -"];
const BDS4: &[&str] = &["idot - week:u -", "svAccuracy satH1 tgdb1b3 tgdb2b3", "t_tm aodc - -"];
const CNAV: &[&str] = &["idot deltaN0Dot uraiNed0 uraiNed1", "uraiEd svHealth tgd uraiNed2", "iscL1Ca iscL2C iscL5I5 iscL5Q5", "t_tm wn_op"];
const CNV2: &[&str] = &[
    "idot deltaN0Dot uraiNed0 uraiNed1",
    "uraiEd svHealth tgd uraiNed2",
    "iscL1Ca iscL2C iscL5I5 iscL5Q5",
    "iscL1Cd iscL1Cp - -",
    "t_tm wn_op",
];
const BCNV1: &[&str] = &[
    "idot deltaN0Dot satType t_op",
    "sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2",
    "iscB1Cd - tgdB1Cp tgdB2ap",
    "sismai health integrityB1C iodc",
    "t_tm - - iode",
];
const BCNV2: &[&str] = &[
    "idot deltaN0Dot satType t_op",
    "sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2",
    "- iscB2ad tgdB1Cp tgdB2ap",
    "sismai health integrityB2aB1C iodc",
    "t_tm - - iode",
];
const BCNV3: &[&str] = &[
    "idot deltaN0Dot satType t_op",
    "sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2",
    "sismai health integrityB2b tgdB2bI",
    "t_tm - - -",
];
const FDMA4: &[&str] = &[
    "satPosX velX accelX health:h",
    "satPosY velY accelY channel:i",
    "satPosZ velZ accelZ ageOp",
    "status:s L1L2GrpDelay urai almanacHealth:h",
];
pub const TABLES: &[Table] = &[
    Table { sys: 'G', major: 2, msg: "LNAV", lines: LNAV_G },
    Table { sys: 'R', major: 2, msg: "LNAV", lines: GLO },
    Table { sys: 'G', major: 3, msg: "LNAV", lines: LNAV_G },
    Table { sys: 'R', major: 3, msg: "LNAV", lines: GLO },
    Table { sys: 'E', major: 3, msg: "LNAV", lines: GAL },
    Table { sys: 'J', major: 3, msg: "LNAV", lines: LNAV_J },
    Table { sys: 'C', major: 3, msg: "LNAV", lines: BDS3 },
    Table { sys: 'S', major: 3, msg: "LNAV", lines: GEO },
    Table { sys: 'G', major: 4, msg: "LNAV", lines: LNAV_G },
    Table { sys: 'J', major: 4, msg: "LNAV", lines: LNAV_J },
    Table { sys: 'G', major: 4, msg: "CNAV", lines: CNAV },
    Table { sys: 'J', major: 4, msg: "CNAV", lines: CNAV },
    Table { sys: 'G', major: 4, msg: "CNV2", lines: CNV2 },
    Table { sys: 'J', major: 4, msg: "CNV2", lines: CNV2 },
    Table { sys: 'E', major: 4, msg: "INAV", lines: GAL },
    Table { sys: 'E', major: 4, msg: "FNAV", lines: GAL },
    Table { sys: 'R', major: 4, msg: "FDMA", lines: FDMA4 },
    Table { sys: 'C', major: 4, msg: "D1", lines: BDS4 },
    Table { sys: 'C', major: 4, msg: "D2", lines: BDS4 },
    Table { sys: 'C', major: 4, msg: "CNV1", lines: BCNV1 },
    Table { sys: 'C', major: 4, msg: "CNV2", lines: BCNV2 },
    Table { sys: 'C', major: 4, msg: "CNV3", lines: BCNV3 },
    Table { sys: 'S', major: 4, msg: "SBAS", lines: GEO },
];
impl Table {
    /// (name, type) of every field, by line.
    pub fn fields(&self) -> Vec<Vec<(String, char)>> {
        let geo = matches!(self.sys, 'R' | 'S');
        let mut l: Vec<String> = vec![];
        if !geo {
            l.extend(KEPLER.iter().map(|s| s.to_string()));
            let first = match (self.sys, self.msg) {
                ('E', _) => "iodnav",
                ('C', "LNAV" | "D1" | "D2") => "aode",
                (_, "CNAV" | "CNV1" | "CNV2" | "CNV3") => "adot",
                _ => "iode",
            };
            l[0] = l[0].replace("IODE", first);
            if first == "adot" {
                l[0] = l[0].replace("deltaN", "deltaN0");
                if self.sys != 'C' {
                    l[2] = l[2].replace("toe", "t_op");
                }
            }
        }
        l.extend(self.lines.iter().map(|s| s.to_string()));
        l.iter()
            .map(|l| {
                l.split(' ')
                    .map(|f| match f.split_once(':') {
                        Some((n, t)) => (n.to_string(), t.chars().next().unwrap()),
                        None => (f.to_string(), 'f'),
                    })
                    .collect()
            })
            .collect()
    }
}
/// A number as written: sign and 13 digits (d.dddddddddddd), exponent.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Num(pub i64, pub i32);
pub const ZERO: Num = Num(0, 0);
impl Num {
    pub fn int(n: i64) -> Num {
        if n == 0 {
            return ZERO;
        }
        let d = n.abs().to_string().len() as i32;
        Num(n * 10i64.pow(13 - d as u32), d - 1)
    }
    pub fn dbl(&self) -> f64 {
        format!("{}e{}", self.0, self.1 - 12).parse().unwrap()
    }
    /// 19 columns. `lead` writes 0.ddddddddddddE+xx (12 digits, old files).
    pub fn text(&self, letter: char, lead: bool) -> String {
        let (m, s) = (self.0.abs(), if self.0 < 0 { '-' } else { ' ' });
        let (int, frac, ex) = if lead && m != 0 {
            assert!(m % 10 == 0, "12 digits only");
            (0, m / 10, self.1 + 1)
        } else {
            (m / 10i64.pow(12), m % 10i64.pow(12), self.1)
        };
        let r = format!("{s}{int}.{frac:012}{letter}{}{:02}", if ex < 0 { '-' } else { '+' }, ex.abs());
        assert_eq!(r.len(), 19);
        r
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MEph {
    pub table: usize,
    pub prn: u8,
    pub t: MTime,
    pub clk: [Num; 3],
    pub fields: Vec<Vec<Option<Num>>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ion {
    Klobuchar([Num; 8], u8),
    Nequick([Num; 3], u8),
    Bdgim([Num; 9]),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MMsg {
    Eph(MEph),
    Ion { sys: char, prn: u8, msg: &'static str, t: MTime, ion: Ion },
    Eop { sys: char, prn: u8, msg: &'static str, t: MTime, x: [Option<Num>; 3], y: [Option<Num>; 3], t_tm: Num, ut1: [Option<Num>; 3] },
    Sto { sys: char, prn: u8, msg: &'static str, t: MTime, code: &'static str, utc: &'static str, t_tm: Num, a: [Num; 3] },
    /// lines that describe nothing the library knows (NavIC ephemeris)
    Navic(u8, MTime),
    Comment(&'static str),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Style {
    pub letter: char,
    pub lead: bool,
    pub trim: usize,
    /// V2: blank or zero before a one digit satellite number
    pub pad0: bool,
}
pub const PLAIN: Style = Style { letter: 'E', lead: false, trim: 1, pad0: false };
#[derive(Clone, Debug)]
pub struct MNav {
    pub version: &'static str,
    /// V2: G, R or H.  V3: a system or M
    pub sys: char,
    pub msgs: Vec<MMsg>,
}
fn words(margin: usize, w: &[Option<Num>], s: Style) -> String {
    let mut l = " ".repeat(margin);
    for x in w {
        match x {
            Some(n) => l += &n.text(s.letter, s.lead),
            None => l += &" ".repeat(19),
        }
    }
    l
}
pub fn sec(t: &MTime) -> u32 {
    t.5 / 10_000_000
}
fn date4(t: &MTime) -> String {
    format!("{:04} {:02} {:02} {:02} {:02} {:02}", t.0, t.1, t.2, t.3, t.4, sec(t))
}
impl MNav {
    pub fn major(&self) -> u8 {
        self.version[..1].parse().unwrap()
    }
    pub fn header(&self) -> String {
        let v = self.version;
        let mut h = match (self.major(), self.sys) {
            (2, 'G') => hl(&format!("{v:>9}{:11}{:20}", "", "N: GPS NAV DATA"), "RINEX VERSION / TYPE"),
            (2, 'R') => hl(&format!("{v:>9}{:11}{:20}", "", "G: GLONASS NAV DATA"), "RINEX VERSION / TYPE"),
            (2, _) => hl(&format!("{v:>9}{:11}{:20}", "", "H: GEO NAV MSG DATA"), "RINEX VERSION / TYPE"),
            (3, s) => hl(&format!("{v:>9}{:11}{:20}{}", "", "N: GNSS NAV DATA", if s == 'M' { "M: MIXED".to_string() } else { s.to_string() }), "RINEX VERSION / TYPE"),
            (_, _) => hl(&format!("{v:>9}{:11}{:20}{}", "", "NAVIGATION DATA", "M"), "RINEX VERSION / TYPE"),
        };
        h += &hl("MODEL               CHECKER             20210101 000000 UTC", "PGM / RUN BY / DATE");
        h += &hl("    18", "LEAP SECONDS");
        h + &hl("", "END OF HEADER")
    }
    pub fn lines(&self, m: &MMsg, s: Style) -> Vec<String> {
        let v4 = self.major() >= 4;
        match m {
            MMsg::Comment(c) => vec![hl(c, "COMMENT").trim_end().to_string()],
            MMsg::Eph(e) => {
                let tb = &TABLES[e.table];
                let mut r = vec![];
                if v4 {
                    r.push(format!("> EPH {}{:02} {}", tb.sys, e.prn, tb.msg));
                }
                let clk: Vec<Option<Num>> = e.clk.iter().map(|c| Some(*c)).collect();
                if self.major() < 3 {
                    let tenth = e.t.5 / 1_000_000;
                    let prn = if s.pad0 { format!("{:02}", e.prn) } else { format!("{:2}", e.prn) };
                    r.push(format!(
                        "{prn} {:02} {:2} {:2} {:2} {:2}{:>5}{}",
                        e.t.0 % 100,
                        e.t.1,
                        e.t.2,
                        e.t.3,
                        e.t.4,
                        format!("{}.{}", tenth / 10, tenth % 10),
                        words(0, &clk, s)
                    ));
                } else {
                    r.push(format!("{}{:02} {}{}", tb.sys, e.prn, date4(&e.t), words(0, &clk, s)));
                }
                let margin = if self.major() < 3 { 3 } else { 4 };
                for l in &e.fields {
                    r.push(words(margin, l, s));
                }
                r
            },
            MMsg::Ion { sys, prn, msg, t, ion } => {
                let mut r = vec![format!("> ION {sys}{prn:02} {msg}")];
                let lead = format!("    {}", date4(t));
                let w = |m: usize, x: &[Num]| words(m, &x.iter().map(|n| Some(*n)).collect::<Vec<_>>(), s);
                match ion {
                    Ion::Klobuchar(c, region) => {
                        r.push(format!("{lead}{}", w(0, &c[0..3])));
                        r.push(w(4, &c[3..7]));
                        r.push(if *region > 0 { w(4, &[c[7], Num::int(*region as i64)]) } else { w(4, &c[7..8]) });
                    },
                    Ion::Nequick(c, region) => {
                        r.push(format!("{lead}{}", w(0, c)));
                        r.push(w(4, &[Num::int(*region as i64)]));
                    },
                    Ion::Bdgim(c) => {
                        r.push(format!("{lead}{}", w(0, &c[0..3])));
                        r.push(w(4, &c[3..7]));
                        r.push(w(4, &c[7..9]));
                    },
                }
                r
            },
            MMsg::Eop { sys, prn, msg, t, x, y, t_tm, ut1 } => vec![
                format!("> EOP {sys}{prn:02} {msg}"),
                format!("    {}{}", date4(t), words(0, x, s)),
                words(23, y, s),
                words(4, &[Some(*t_tm), ut1[0], ut1[1], ut1[2]], s),
            ],
            MMsg::Sto { sys, prn, msg, t, code, utc, t_tm, a } => vec![
                format!("> STO {sys}{prn:02} {msg}"),
                format!("    {} {code:<18} {:<18} {utc:<18}", date4(t), ""),
                words(4, &[Some(*t_tm), Some(a[0]), Some(a[1]), Some(a[2])], s),
            ],
            MMsg::Navic(prn, t) => {
                let mut r = vec![];
                if v4 {
                    r.push(format!("> EPH I{prn:02} LNAV"));
                }
                r.push(format!("I{prn:02} {}{}", date4(t), words(0, &[Some(Num::int(1)); 3], s)));
                for _ in 0..7 {
                    r.push(words(4, &[Some(Num::int(7)); 4], s));
                }
                r
            },
        }
    }
    pub fn text(&self, s: Style) -> String {
        let mut t = self.header();
        for m in &self.msgs {
            let l = self.lines(m, s);
            for x in &l {
                t += &fill(x, s.trim);
                t.push('\n');
            }
        }
        t
    }
}
pub fn blank_eph(table: usize, prn: u8, t: MTime, salt: i64) -> MEph {
    let mut k = salt;
    let fields = TABLES[table]
        .fields()
        .iter()
        .map(|l| {
            l.iter()
                .map(|(n, ty)| {
                    k += 1;
                    match (n.as_str(), ty) {
                        ("-", _) => None,
                        (_, 'u') => Some(Num::int(2100 + salt)),
                        (_, 'i') => Some(Num::int(-3)),
                        (_, 's') => Some(Num::int(0x35)),
                        (_, 'h') => Some(Num::int(if TABLES[table].sys == 'R' { 4 } else if TABLES[table].sys == 'S' { 8 } else { 5 })),
                        _ => Some(Num(1_111_111_111_110 + (k % 800) * 10_000_000_010, (k % 5) as i32 - 2)),
                    }
                })
                .collect()
        })
        .collect();
    MEph { table, prn, t, clk: [Num(-1_234_567_890_120 - salt * 10, -4), Num(2_345_678_901_230, -12), Num(3_400_000_000_000, 0)], fields }
}
type Key = (Epoch, String, String, String);
/// What one message reads as: fields by name, numbers or texts.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(f64),
    S(String),
}
pub type Rec = BTreeMap<Key, BTreeMap<String, V>>;

fn class(e: &str) -> String {
    e.to_string()
}
impl MNav {
    pub fn expected(&self) -> Rec {
        let mut r = Rec::new();
        for m in &self.msgs {
            let mut f: BTreeMap<String, V> = BTreeMap::new();
            let mut put = |k: &str, v: f64| {
                f.insert(k.to_string(), V::N(v));
            };
            let (sys, prn, msg, t, cl) = match m {
                MMsg::Comment(_) | MMsg::Navic(..) => continue,
                MMsg::Eph(e) => {
                    let tb = &TABLES[e.table];
                    put("*bias", e.clk[0].dbl());
                    put("*drift", e.clk[1].dbl());
                    if tb.sys == 'S' {
                        put("*rate", 0.0);
                        put("week", e.clk[2].dbl().round());
                    } else {
                        put("*rate", e.clk[2].dbl());
                    }
                    for (l, names) in e.fields.iter().zip(tb.fields()) {
                        for (x, (n, ty)) in l.iter().zip(names) {
                            if let (Some(x), true) = (x, n != "-") {
                                let v = x.dbl();
                                put(
                                    &n,
                                    match ty {
                                        'f' => v,
                                        _ => v.trunc(),
                                    },
                                );
                            }
                        }
                    }
                    (tb.sys, e.prn, tb.msg, e.t, "EPH")
                },
                MMsg::Ion { sys, prn, msg, t, ion } => {
                    match ion {
                        Ion::Klobuchar(c, reg) => {
                            c.iter().enumerate().for_each(|(i, c)| put(&format!("kb{i}"), c.dbl()));
                            put("region", *reg as f64);
                        },
                        Ion::Nequick(c, reg) => {
                            c.iter().enumerate().for_each(|(i, c)| put(&format!("ng{i}"), c.dbl()));
                            put("region", *reg as f64);
                        },
                        Ion::Bdgim(c) => c.iter().enumerate().for_each(|(i, c)| put(&format!("bd{i}"), c.dbl())),
                    }
                    (*sys, *prn, *msg, *t, "ION")
                },
                MMsg::Eop { sys, prn, msg, t, x, y, t_tm, ut1 } => {
                    for i in 0..3 {
                        put(&format!("x{i}"), x[i].map_or(0.0, |n| n.dbl()));
                        put(&format!("y{i}"), y[i].map_or(0.0, |n| n.dbl()));
                        put(&format!("ut1{i}"), ut1[i].map_or(0.0, |n| n.dbl()));
                    }
                    put("t_tm", t_tm.dbl().trunc());
                    (*sys, *prn, *msg, *t, "EOP")
                },
                MMsg::Sto { sys, prn, msg, t, code, utc, t_tm, a } => {
                    put("t_tm", t_tm.dbl().trunc());
                    for i in 0..3 {
                        put(&format!("a{i}"), a[i].dbl());
                    }
                    f.insert("code".into(), V::S(code.to_string()));
                    f.insert("utc".into(), V::S(utc.to_string()));
                    (*sys, *prn, *msg, *t, "STO")
                },
            };
            r.insert((t.epoch(scale_of(sys)), format!("{:?}", sv(sys, prn)), msg.to_string(), class(cl)), f);
        }
        r
    }
}
pub fn observed(r: &Rinex) -> Result<Rec, String> {
    let rec = r.record.as_nav().ok_or("not a navigation record")?;
    let mut out = Rec::new();
    for (k, v) in rec {
        let mut f: BTreeMap<String, V> = BTreeMap::new();
        let mut put = |k: &str, v: f64| {
            f.insert(k.to_string(), V::N(v));
        };
        let cl = match v {
            NavFrame::EPH(e) => {
                let (b, d, dd) = e.sv_clock();
                put("*bias", b);
                put("*drift", d);
                put("*rate", dd);
                for (n, o) in &e.orbits {
                    let x = match o {
                        OrbitItem::U8(x) => *x as f64,
                        OrbitItem::I8(x) => *x as f64,
                        OrbitItem::U32(x) => *x as f64,
                        OrbitItem::F64(x) => *x,
                        OrbitItem::GalHealth(h) => h.bits() as f64,
                        OrbitItem::GloStatus(h) => h.bits() as f64,
                        OrbitItem::Health(h) => h.clone() as u8 as f64,
                        OrbitItem::GloHealth(h) => h.clone() as u8 as f64,
                        OrbitItem::GeoHealth(h) => h.clone() as u8 as f64,
                        OrbitItem::IrnssHealth(h) => h.clone() as u8 as f64,
                    };
                    put(n, x);
                }
                "EPH"
            },
            NavFrame::ION(IonosphereModel::Klobuchar(m)) => {
                let (a, b) = (m.alpha, m.beta);
                [a.0, a.1, a.2, a.3, b.0, b.1, b.2, b.3].iter().enumerate().for_each(|(i, c)| put(&format!("kb{i}"), *c));
                put("region", m.region as u8 as f64);
                "ION"
            },
            NavFrame::ION(IonosphereModel::NequickG(m)) => {
                [m.a.0, m.a.1, m.a.2].iter().enumerate().for_each(|(i, c)| put(&format!("ng{i}"), *c));
                put("region", m.region.bits() as f64);
                "ION"
            },
            NavFrame::ION(IonosphereModel::Bdgim(m)) => {
                let a = m.alpha;
                [a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8].iter().enumerate().for_each(|(i, c)| put(&format!("bd{i}"), *c));
                "ION"
            },
            NavFrame::EOP(m) => {
                for (n, v) in [("x", m.x), ("y", m.y), ("ut1", m.delta_ut1)] {
                    put(&format!("{n}0"), v.0);
                    put(&format!("{n}1"), v.1);
                    put(&format!("{n}2"), v.2);
                }
                put("t_tm", m.t_tm as f64);
                "EOP"
            },
            NavFrame::STO(m) => {
                put("t_tm", m.t_tm as f64);
                put("a0", m.a.0);
                put("a1", m.a.1);
                put("a2", m.a.2);
                f.insert("code".into(), V::S(m.system.clone()));
                f.insert("utc".into(), V::S(m.utc.clone()));
                "STO"
            },
        };
        let want = format!("{}", k.frmtype);
        if want != cl {
            return Err(format!("{k:?} holds a {cl} frame"));
        }
        if k.sv.constellation == Constellation::IRNSS {
            continue;
        }
        out.insert((k.epoch, format!("{:?}", k.sv), k.msgtype.to_string(), want), f);
    }
    Ok(out)
}
/// A zero may be absent ("unknown").
pub fn diff(want: &Rec, got: &Rec) -> Option<String> {
    for (k, w) in want {
        let Some(g) = got.get(k) else {
            return Some(format!("lost: {k:?}; present: {:?}", got.keys().collect::<Vec<_>>()));
        };
        for (n, v) in w {
            match g.get(n) {
                None if *v == V::N(0.0) => {},
                Some(x) if x == v => {},
                x => return Some(format!("{k:?} {n}: {x:?} instead of {v:?}")),
            }
        }
        if let Some((n, v)) = g.iter().find(|(n, _)| !w.contains_key(*n)) {
            return Some(format!("{k:?}: invented {n} = {v:?}"));
        }
    }
    if let Some((k, v)) = got.iter().find(|(k, _)| !want.contains_key(*k)) {
        return Some(format!("invented: {k:?} = {v:?}"));
    }
    want.keys().zip(got.keys()).find(|(a, b)| a.0.time_scale != b.0.time_scale).map(|(a, b)| format!("time scale {} instead of {}", b.0.time_scale, a.0.time_scale))
}
