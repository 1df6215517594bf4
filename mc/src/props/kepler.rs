//! P12: ephemeris selection.  P13: orbit computation.
use crate::engine::*;
use crate::model::nav::*;
use crate::model::obs::{sv, MTime};
use crate::util::*;
use crate::{bail, ensure};
use rinex::navigation::{Ephemeris, OrbitItem};
use rinex::prelude::*;

const WEEK: f64 = 604800.0;
/// Sunday 2021-01-03 in GPS weeks / BeiDou weeks
const GPS_WEEK: u32 = 2139;
const BDS_WEEK: u32 = 783;

fn scale(sys: char) -> TimeScale {
    if sys == 'C' {
        TimeScale::BDT
    } else {
        TimeScale::GPST
    }
}
/// seconds since that Sunday, in the satellite's time
fn at(sys: char, s: i64, ns: i64) -> Epoch {
    let w = if sys == 'C' { BDS_WEEK } else { GPS_WEEK } as i64;
    Epoch::from_duration(Duration::from_total_nanoseconds((w as i128 * 604800 + s as i128) * 1_000_000_000 + ns as i128), scale(sys))
}
fn date(s: i64) -> MTime {
    let (d, r) = (s.div_euclid(86400), s.rem_euclid(86400) as u32);
    let (y, mo, day) = match d {
        -1 => (2021, 1, 2),
        -2 => (2021, 1, 1),
        -3 => (2020, 12, 31),
        d => (2021, 1, (3 + d) as u8),
    };
    MTime(y, mo, day, (r / 3600) as u8, (r / 60 % 60) as u8, r % 60 * 10_000_000)
}

pub fn selection(ctx: &mut Ctx) {
    let len = ctx.q(3, 4);
    ctx.explore(
        "kepler",
        "every sequence of messages: system x two satellites x reference times across a week's end x time of clock (equal to or before the time of ephemeris), every instant around the edges of validity, in two time scales",
        move |e| {
            let (ti, max) = *e.pick(&[(2usize, 7200i64), (5, 7200), (4, 10800), (6, 21600)]);
            let sys = TABLES[ti].sys;
            let n = 1 + e.choose(len);
            let lag = *e.pick(&[0i64, 16]);
            let step = *e.pick(&[3600i64, 7200]);
            let mut f = MNav { version: "3.04", sys: 'M', msgs: vec![] };
            let mut toes = vec![];
            for k in 0..n {
                let prn = 21 + e.choose(2) as u8;
                let slot = e.choose(4) as i64 - 1;
                if toes.contains(&(prn, slot * step)) {
                    e.trivial();
                    return Ok(());
                }
                toes.push((prn, slot * step));
                let prn = if sys == 'J' { prn - 20 } else { prn };
                let mut m = blank_eph(ti, prn, date(slot * step - lag), k as i64 + 1);
                let week = if sys == 'C' { BDS_WEEK } else { GPS_WEEK } as i64 + (slot * step).div_euclid(604800);
                m.fields[2][0] = Some(Num::int((slot * step).rem_euclid(604800)));
                m.fields[4][2] = Some(Num::int(week));
                f.msgs.push(MMsg::Eph(m));
            }
            // satellites of another system that have the same numbers
            if e.flag() {
                for k in 0..2u8 {
                    let other = if sys == 'G' { 4 } else { 2 };
                    let mut m = blank_eph(other, if sys == 'J' { 1 + k } else { 21 + k }, date(600 - lag), 900 + k as i64);
                    m.fields[2][0] = Some(Num::int(600));
                    m.fields[4][2] = Some(Num::int(GPS_WEEK as i64));
                    f.msgs.push(MMsg::Eph(m));
                }
            }
            let text = f.text(PLAIN);
            e.note(|| format!("file:\n{text}"));
            let rnx = no_panic("Rinex::parse", || parse_str(&text))?.map_err(|x| format!("refused: {x:?}"))?;
            let mut instants = vec![];
            for (_, toe) in &toes {
                for (s, ns) in [(toe - 1, 0), (toe - 16, 0), (toe + 0, 1), (toe + 1, 0), (toe + 900, 0), (toe + max, -1), (toe + max, 1), (toe + max + 1, 0)] {
                    instants.push((s, ns));
                }
            }
            for k in 0..2u8 {
                let who = sv(sys, if sys == 'J' { 1 + k } else { 21 + k });
                for (s, ns) in &instants {
                    let t = at(sys, *s, *ns);
                    let utc = t.to_time_scale(TimeScale::UTC);
                    let abs = *s as i128 * 1_000_000_000 + *ns as i128;
                    let nano = 1_000_000_000i128;
                    if toes.iter().any(|(p, toe)| *p == 21 + k && (abs == *toe as i128 * nano || abs == (*toe + max) as i128 * nano)) {
                        // neither end of the validity period is specified
                        continue;
                    }
                    let best = toes
                        .iter()
                        .filter(|(p, toe)| *p == 21 + k && abs > *toe as i128 * nano && abs < (*toe + max) as i128 * nano)
                        .map(|(_, toe)| *toe)
                        .max();
                    for t in [t, utc] {
                        e.step();
                        let got = no_panic("nav_ephemeris_selection", || rnx.nav_ephemeris_selection(who, t).map(|(toc, toe, _)| (toc, toe)))?;
                        let want = best.map(|b| (at(sys, b - lag, 0), at(sys, b, 0)));
                        ensure!(got == want, "{who:?} at {t:?}: selected (toc, toe) = {got:?} instead of {want:?}");
                        if let (Some(b), Some((_, _, eph))) = (best, rnx.nav_ephemeris_selection(who, t)) {
                            let i = toes.iter().position(|x| *x == (21 + k, b)).unwrap();
                            let MMsg::Eph(m) = &f.msgs[i] else { unreachable!() };
                            ensure!(eph.sv_clock().0 == m.clk[0].dbl(), "{who:?} at {t:?}: another message's content");
                        }
                        e.outcome(&format!("{got:?}"));
                        e.state(&(toes.clone(), *s, *ns));
                    }
                }
            }
            e.validated();
            Ok(())
        },
    );
    ctx.explore("others", "a satellite or system without messages; SBAS: the closest message", |e| {
        let mut f = MNav { version: "3.04", sys: 'M', msgs: vec![] };
        let n = 1 + e.choose(3);
        let mut tocs = vec![];
        for k in 0..n {
            let t = *e.pick(&[-7200i64, 0, 7200, 43200]);
            if tocs.contains(&t) {
                e.trivial();
                return Ok(());
            }
            tocs.push(t);
            f.msgs.push(MMsg::Eph(blank_eph(7, 36, date(t), k as i64)));
        }
        let text = f.text(PLAIN);
        e.note(|| format!("file:\n{text}"));
        let rnx = parse_str(&text).map_err(|x| format!("refused: {x:?}"))?;
        for s in [-7201i64, -7199, -3601, -3599, 1, 3599, 3601, 7300, 25199, 25201, 50000] {
            e.step();
            let t = at('G', s, 0);
            ensure!(rnx.nav_ephemeris_selection(sv('S', 20), t).is_none(), "a message of another satellite was selected");
            ensure!(rnx.nav_ephemeris_selection(sv('G', 1), t).is_none(), "a message of another system was selected");
            let got = rnx.nav_ephemeris_selection(sv('S', 36), t).map(|x| x.0);
            let near = tocs.iter().min_by_key(|x| (**x - s).abs()).unwrap();
            ensure!(got == Some(at('G', *near, 0)), "SBAS at {t:?}: {got:?} instead of {:?}", at('G', *near, 0));
            e.outcome(&format!("{got:?}"));
        }
        e.validated();
        Ok(())
    });
}

#[derive(Clone, Copy, Debug)]
struct El {
    sqrta: f64,
    e: f64,
    i0: f64,
    omega: f64,
    omega0: f64,
    m0: f64,
    toe: f64,
    /// cuc cus cic cis crc crs deltaN idot omegaDot
    p: [f64; 9],
}
const P_NAMES: [&str; 9] = ["cuc", "cus", "cic", "cis", "crc", "crs", "deltaN", "idot", "omegaDot"];

/// The user algorithm of IS-GPS-200 (20.3.3.4.3.1), the Galileo OS SIS ICD
/// (5.1.1) and the BeiDou B1I ICD (5.2.4.12), in metres.
fn reference(who: SV, k: &El, tk: f64) -> [f64; 3] {
    let (mu, we) = match who.constellation {
        Constellation::BeiDou => (3.986004418e14, 7.2921150e-5),
        Constellation::Galileo => (3.986004418e14, 7.2921151467e-5),
        _ => (3.986005e14, 7.2921151467e-5f64),
    };
    let [cuc, cus, cic, cis, crc, crs, dn, idot, odot] = k.p;
    let a: f64 = k.sqrta * k.sqrta;
    let m = k.m0 + ((mu / (a * a * a)).sqrt() + dn) * tk;
    let mut ea = m;
    for _ in 0..60 {
        ea -= (ea - k.e * ea.sin() - m) / (1.0 - k.e * ea.cos());
    }
    let nu = 2.0 * (((1.0 + k.e) / (1.0 - k.e)).sqrt() * (ea / 2.0).tan()).atan();
    let phi = nu + k.omega;
    let (s2, c2) = ((2.0 * phi).sin(), (2.0 * phi).cos());
    let u = phi + cus * s2 + cuc * c2;
    let r = a * (1.0 - k.e * ea.cos()) + crs * s2 + crc * c2;
    let i = k.i0 + idot * tk + cis * s2 + cic * c2;
    let (x, y) = (r * u.cos(), r * u.sin());
    let geo = who.constellation == Constellation::BeiDou && (who.prn <= 5 || who.prn >= 59);
    let om = if geo { k.omega0 + odot * tk - we * k.toe } else { k.omega0 + (odot - we) * tk - we * k.toe };
    let p = [x * om.cos() - y * i.cos() * om.sin(), x * om.sin() + y * i.cos() * om.cos(), y * i.sin()];
    if !geo {
        return p;
    }
    // Rz(we tk) Rx(-5 deg)
    let f = (-5.0f64).to_radians();
    let q = [p[0], p[1] * f.cos() + p[2] * f.sin(), -p[1] * f.sin() + p[2] * f.cos()];
    let z = we * tk;
    [q[0] * z.cos() + q[1] * z.sin(), -q[0] * z.sin() + q[1] * z.cos(), q[2]]
}
fn eph(who: SV, k: &El, week: u32) -> Ephemeris {
    let mut m = Ephemeris::default().with_week(week);
    let mut put = |n: &str, v: f64| {
        m.orbits.insert(n.to_string(), OrbitItem::F64(v));
    };
    put("sqrta", k.sqrta);
    put("e", k.e);
    put("i0", k.i0);
    put("omega", k.omega);
    put("omega0", k.omega0);
    put("m0", k.m0);
    put("toe", k.toe);
    for (n, v) in P_NAMES.iter().zip(k.p) {
        put(n, v);
    }
    let _ = who;
    m
}
fn dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}
fn compare(e: &mut Exec, who: SV, k: &El, toe_abs: i64, tk: i64, utc: bool) -> R {
    let sys = if who.constellation == Constellation::BeiDou { 'C' } else { 'G' };
    let w0 = if sys == 'C' { BDS_WEEK } else { GPS_WEEK };
    let week = (w0 as i64 + toe_abs.div_euclid(604800)) as u32;
    let m = eph(who, k, week);
    let toc = at(sys, toe_abs, 0);
    let mut t = at(sys, toe_abs + tk, 0);
    if utc {
        t = t.to_time_scale(TimeScale::UTC);
    }
    e.note(|| format!("{who:?} {k:?} toe week {week} t {t:?} (toe + {tk} s)"));
    let tk = tk as f64;
    let want = reference(who, k, tk);
    let o = no_panic("kepler2position", || m.kepler2position(who, toc, t))?;
    let o = match o {
        Some(o) => o,
        None => bail!("no position"),
    };
    let got = [o.radius_km.x * 1e3, o.radius_km.y * 1e3, o.radius_km.z * 1e3];
    e.step();
    e.state(&format!("{who:?}{k:?}{tk}"));
    e.outcome(&format!("{:.0}{:.0}{:.0}", got[0], got[1], got[2]));
    let d = dist(want, got);
    ensure!(d < 1e-3, "position {got:?} instead of {want:?} ({d} m)");
    // velocity: central difference of the reference
    let h = 0.5;
    let (a, b) = (reference(who, k, tk - h), reference(who, k, tk + h));
    let v = [(b[0] - a[0]) / (2.0 * h), (b[1] - a[1]) / (2.0 * h), (b[2] - a[2]) / (2.0 * h)];
    let gv = [o.velocity_km_s.x * 1e3, o.velocity_km_s.y * 1e3, o.velocity_km_s.z * 1e3];
    let d = dist(v, gv);
    ensure!(d < 1e-4, "velocity {gv:?} instead of {v:?} ({d} m/s)");
    if who.constellation != Constellation::QZSS {
        let pv = no_panic("kepler2position_velocity", || m.kepler2position_velocity(who, toc, t))?;
        let Some((p, w)) = pv else { bail!("no position and velocity") };
        ensure!(dist(want, [p.x * 1e3, p.y * 1e3, p.z * 1e3]) < 1e-3 && dist(v, [w.x * 1e3, w.y * 1e3, w.z * 1e3]) < 1e-4, "position and velocity {p:?} {w:?} instead of {want:?} {v:?}");
    }
    e.validated();
    Ok(())
}
const SVS: [(char, u8); 7] = [('G', 1), ('E', 11), ('C', 20), ('C', 6), ('C', 5), ('C', 59), ('J', 2)];
fn base(who: (char, u8)) -> El {
    let (sqrta, i0) = match who {
        ('G', _) => (5153.6, 0.96),
        ('E', _) => (5440.6, 0.98),
        ('C', 20) => (5282.6, 0.96),
        ('C', 6) => (6493.3, 0.95),
        ('C', _) => (6493.4, 0.08),
        _ => (6493.2, 0.75),
    };
    El {
        sqrta,
        e: 0.0083,
        i0,
        omega: 0.7,
        omega0: -1.9,
        m0: 0.4,
        toe: 0.0,
        p: [1.2e-6, 8.1e-6, -3.3e-8, 5.5e-8, 231.5, -88.25, 4.4e-9, -2.2e-10, -8.1e-9],
    }
}
/// An almanac that knows where the Earth is: one ephemeris, at rest.  Relative
/// positions do not depend on it, yet the almanac requires one.
fn almanac() -> &'static rinex::prelude::nav::Almanac {
    use std::sync::OnceLock;
    static A: OnceLock<rinex::prelude::nav::Almanac> = OnceLock::new();
    A.get_or_init(|| {
        let mut b = vec![0u8; 4096];
        b[..8].copy_from_slice(b"DAF/SPK ");
        b[8..12].copy_from_slice(&2u32.to_le_bytes());
        b[12..16].copy_from_slice(&6u32.to_le_bytes());
        b[16..76].fill(b' ');
        b[76..80].copy_from_slice(&2u32.to_le_bytes());
        b[80..84].copy_from_slice(&2u32.to_le_bytes());
        b[84..88].copy_from_slice(&400u32.to_le_bytes());
        b[88..96].copy_from_slice(b"LTL-IEEE");
        b[699..727].copy_from_slice(b"FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP");
        let mut put = |at: usize, v: &[f64]| {
            for (i, x) in v.iter().enumerate() {
                b[at + 8 * i..at + 8 * i + 8].copy_from_slice(&x.to_le_bytes());
            }
        };
        put(1024, &[0.0, 0.0, 1.0, -1.0e10, 1.0e10]);
        // record: middle, radius, x, y, z; then start, length, size and number of records
        put(3072, &[0.0, 1.0e10, 1.0, 2.0, 3.0, -1.0e10, 2.0e10, 5.0, 1.0]);
        for (i, v) in [399i32, 0, 1, 2, 385, 393].iter().enumerate() {
            b[1064 + 4 * i..1068 + 4 * i].copy_from_slice(&v.to_le_bytes());
        }
        b[2048..3072].fill(b' ');
        b[2048..2053].copy_from_slice(b"EARTH");
        let spk = anise::naif::SPK::parse(b).expect("SPK");
        rinex::prelude::nav::Almanac::default().with_spk(spk).expect("almanac")
    })
}
/// P31: what nav_azimuth_elevation_range tells, for satellites of a file.
pub fn seen_from_the_ground(ctx: &mut Ctx) {
    use anise::constants::frames::IAU_EARTH_FRAME;
    use anise::structure::planetocentric::ellipsoid::Ellipsoid;
    use rinex::navigation::{NavFrame, NavFrameType, NavKey, NavMessageType};
    use rinex::prelude::nav::{Frame, Orbit};
    ctx.explore("seen from the ground", "satellites of a navigation record (two messages) x instants x receivers of a grid: elevation, azimuth and range of the selected message's position", |e| {
        let who = *e.pick(&SVS);
        let sys = if who.0 == 'C' { 'C' } else { 'G' };
        let s = sv(who.0, who.1);
        let mut rnx = Rinex::basic_nav();
        let mut els = vec![];
        {
            let rec = rnx.record.as_mut_nav().ok_or("no navigation record")?;
            for (i, toe) in [0i64, 3600].iter().enumerate() {
                let mut k = base(who);
                k.m0 += i as f64 * 0.5 + e.choose(3) as f64;
                k.toe = *toe as f64;
                els.push((*toe, k));
                let key = NavKey { epoch: at(sys, *toe, 0), sv: s, msgtype: NavMessageType::LNAV, frmtype: NavFrameType::Ephemeris };
                let w = if sys == 'C' { BDS_WEEK } else { GPS_WEEK };
                rec.insert(key, NavFrame::EPH(eph(s, &k, w)));
            }
        }
        let dt = *e.pick(&[-5i64, 10, 3500, 3700, 7100, 10790]);
        let (lat, lon) = (*e.pick(&[-80.0f64, -33.0, 0.25, 48.0]), *e.pick(&[-179.0f64, -60.0, 2.5, 135.0]));
        let (a, b) = (6378.137f64, 6356.752314245f64);
        let (sp, cp) = lat.to_radians().sin_cos();
        let (sl, cl) = lon.to_radians().sin_cos();
        let e2 = 1.0 - b * b / (a * a);
        let n = a / (1.0 - e2 * sp * sp).sqrt();
        let rx = [n * cp * cl, n * cp * sl, n * (1.0 - e2) * sp];
        let frame = Frame { mu_km3_s2: Some(398_600.435_436_096), shape: Some(Ellipsoid { semi_major_equatorial_radius_km: a, semi_minor_equatorial_radius_km: a, polar_radius_km: b }), ..IAU_EARTH_FRAME };
        let t = at(sys, dt, 0);
        let ground = Orbit::from_position(rx[0], rx[1], rx[2], t, frame);
        e.note(|| format!("{s:?} at {t:?}, receiver {rx:?} {els:?}"));
        e.step();
        let got = no_panic("nav_azimuth_elevation_range", || rnx.nav_azimuth_elevation_range(s, t, ground, almanac()))?;
        let max = match who.0 {
            'E' => 10800,
            'C' => 21600,
            _ => 7200,
        };
        let k = els.iter().rev().find(|(toe, _)| dt > *toe && dt - *toe < max);
        let Some((toe, k)) = k else {
            ensure!(got.is_none(), "an answer out of a message that is not valid");
            e.trivial();
            return Ok(());
        };
        let p = reference(s, k, (dt - toe) as f64);
        let d = [p[0] * 1e-3 - rx[0], p[1] * 1e-3 - rx[1], p[2] * 1e-3 - rx[2]];
        let range = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
        let east = -sl * d[0] + cl * d[1];
        let north = -sp * cl * d[0] - sp * sl * d[1] + cp * d[2];
        let up = cp * cl * d[0] + cp * sl * d[1] + sp * d[2];
        let (el, az) = ((up / range).asin().to_degrees(), east.atan2(north).to_degrees());
        let Some(got) = got else { bail!("no answer") };
        e.outcome(&format!("{el:.2}{az:.2}"));
        let daz = (got.azimuth_deg - az + 540.0).rem_euclid(360.0) - 180.0;
        ensure!(
            (got.elevation_deg - el).abs() < 1.0E-6 && daz.abs() < 1.0E-4 && (got.range_km - range).abs() < 1.0E-5,
            "elevation {} azimuth {} range {} instead of {el} {az} {range}",
            got.elevation_deg,
            got.azimuth_deg,
            got.range_km
        );
        e.validated();
        Ok(())
    });
}
const TOE: [i64; 4] = [0, -7200, 302400, 597600];
const TK: [i64; 6] = [0, 1, 900, 3600, 7199, 14400];

pub fn orbit(ctx: &mut Ctx) {
    ctx.explore("elements", "satellites of every kind x eccentricity x mean anomaly x perigee x node x inclination x time of ephemeris x elapsed time", |e| {
        let who = *e.pick(&SVS);
        let mut k = base(who);
        k.e = *e.pick(&[0.0, 1e-6, 0.0083, 0.03, 0.1]);
        k.m0 = *e.pick(&[0.0, 1e-9, 1.5, 3.1415, -3.0, -1.5707, -0.1]);
        k.omega = *e.pick(&[0.0, 1.1, 2.9, -2.0]);
        k.omega0 = *e.pick(&[0.0, 3.0, -1.2]);
        k.i0 = *e.pick(&[k.i0, 0.0, 1.6]);
        let toe = *e.pick(&TOE);
        k.toe = toe.rem_euclid(604800) as f64;
        let tk = *e.pick(&TK);
        compare(e, sv(who.0, who.1), &k, toe, tk, false)
    });
    ctx.explore("corrections", "every pair of harmonic corrections and rates, null or of either sign x anomaly x elapsed time", |e| {
        let who = *e.pick(&SVS);
        let mut k = base(who);
        let a = e.choose(9);
        let b = e.choose(9);
        k.p[a] *= *e.pick(&[0.0, 1.0, -1.0, 4.0]);
        k.p[b] *= *e.pick(&[0.0, 1.0, -3.0]);
        k.m0 = *e.pick(&[0.3, 2.0, -2.5]);
        let toe = *e.pick(&TOE);
        k.toe = toe.rem_euclid(604800) as f64;
        let tk = *e.pick(&[0, 3600, 7000]);
        let utc = e.flag();
        compare(e, sv(who.0, who.1), &k, toe, tk, utc)
    });
    ctx.explore("satellites", "every satellite number of every system: which algorithm applies", |e| {
        let (sys, n) = *e.pick(&[('G', 32u8), ('E', 36), ('C', 63), ('J', 9)]);
        let prn = 1 + e.choose(n as usize) as u8;
        let k = base((sys, prn));
        let mut k = k;
        let toe = *e.pick(&TOE);
        k.toe = toe.rem_euclid(604800) as f64;
        let tk = *e.pick(&[1, 5000]);
        compare(e, sv(sys, prn), &k, toe, tk, false)
    });
    ctx.explore("file", "the same through a file: selection, then position at the instant", |e| {
        let ti = *e.pick(&[2usize, 4, 6, 5]);
        let sys = TABLES[ti].sys;
        let prn = if sys == 'C' { *e.pick(&[3u8, 20]) } else { 2 };
        let toe = *e.pick(&[0i64, -7200, 7200]);
        let n = |x: f64| {
            let t = format!("{x:.12e}");
            let (m, ex) = t.split_once('e').unwrap();
            Num(m.replace('.', "").parse().unwrap(), ex.parse().unwrap())
        };
        let mut k = base((sys, prn));
        k.e = *e.pick(&[0.0, 0.01]);
        let z = e.choose(10);
        if z > 0 {
            k.p[z - 1] = 0.0;
        }
        let mut m = blank_eph(ti, prn, date(toe), 1);
        k.toe = toe.rem_euclid(604800) as f64;
        let week = if sys == 'C' { BDS_WEEK } else { GPS_WEEK } as i64 + toe.div_euclid(604800);
        let [cuc, cus, cic, cis, crc, crs, dn, idot, odot] = k.p;
        let rows = [[None, Some(crs), Some(dn), Some(k.m0)], [Some(cuc), Some(k.e), Some(cus), Some(k.sqrta)], [Some(k.toe), Some(cic), Some(k.omega0), Some(cis)], [Some(k.i0), Some(crc), Some(k.omega), Some(odot)]];
        for (i, r) in rows.iter().enumerate() {
            for (j, v) in r.iter().enumerate() {
                if let Some(v) = v {
                    m.fields[i][j] = Some(n(*v));
                }
            }
        }
        m.fields[4][0] = Some(n(idot));
        m.fields[4][2] = Some(Num::int(week));
        let f = MNav { version: "3.04", sys: 'M', msgs: vec![MMsg::Eph(m)] };
        let text = f.text(Style { letter: *e.pick(&['E', 'D']), lead: false, trim: 1, pad0: false });
        e.note(|| format!("file:\n{text}"));
        let rnx = parse_str(&text).map_err(|x| format!("refused: {x:?}"))?;
        for tk in [1i64, 900, 7000] {
            e.step();
            let t = at(sys, toe + tk, 0);
            let want = reference(sv(sys, prn), &k, tk as f64);
            let o = no_panic("sv_orbit", || rnx.sv_orbit(sv(sys, prn), t))?;
            let Some(o) = o else { bail!("no position {tk} s after the time of ephemeris") };
            let got = [o.radius_km.x * 1e3, o.radius_km.y * 1e3, o.radius_km.z * 1e3];
            ensure!(dist(got, want) < 1e-3, "{got:?} instead of {want:?} {tk} s after the time of ephemeris");
            e.outcome(&format!("{got:?}"));
        }
        e.validated();
        Ok(())
    });
    ctx.explore("broadcast positions", "GLONASS and SBAS: position and velocity are those of the message, every one of the six null, missing or of either sign", |e| {
        let (sys, prn, ti) = *e.pick(&[('R', 3u8, 3usize), ('S', 36, 7), ('R', 24, 1)]);
        let mut m = Ephemeris::default();
        const N: [&str; 6] = ["satPosX", "satPosY", "satPosZ", "velX", "velY", "velZ"];
        let v = [19_120.123456789, -7_345.5, 14_000.25, -1.25, 2.875, 0.001953125];
        let mut want = [0.0; 6];
        let a = e.choose(6);
        for i in 0..6 {
            let s = if i >= a { *e.pick(&[1.0, -1.0, 0.5]) } else { 1.0 };
            want[i] = v[i] * s;
            m.orbits.insert(N[i].to_string(), OrbitItem::F64(want[i]));
        }
        let missing = e.choose(7);
        if missing > 0 {
            m.orbits.remove(N[missing - 1]);
        }
        let who = sv(sys, prn);
        let _ = ti;
        let t = at('G', *e.pick(&[0i64, 900]), 0);
        e.note(|| format!("{who:?} {m:?}"));
        e.step();
        let o = no_panic("kepler2position", || m.kepler2position(who, at('G', 0, 0), t))?;
        match o {
            Some(o) => {
                ensure!(missing == 0 || missing > 3, "a position without {}", N[missing - 1]);
                ensure!([o.radius_km.x, o.radius_km.y, o.radius_km.z] == want[..3], "position {:?} instead of {want:?}", o.radius_km);
                ensure!(o.epoch == t, "position at {:?} instead of {t:?}", o.epoch);
            },
            None => ensure!((1..=3).contains(&missing), "no position"),
        }
        let o = no_panic("kepler2position_velocity", || m.kepler2position_velocity(who, at('G', 0, 0), t))?;
        match o {
            Some((p, w)) => {
                ensure!(missing == 0, "position and velocity without {}", N[missing - 1]);
                ensure!([p.x, p.y, p.z, w.x, w.y, w.z] == want, "position and velocity {p:?} {w:?} instead of {want:?}");
            },
            None => ensure!(missing > 0, "no position and velocity"),
        }
        e.outcome(&missing);
        e.validated();
        Ok(())
    });
    ctx.explore("termination", "every numeric input, physical or not: an answer, no panic", |e| {
        let who = *e.pick(&SVS);
        let mut k = base(who);
        let wild = [0.0, 1.0, -1.0, 0.5, 0.9, 0.999999, 1.5, 1e300, -1e300, 1e-300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
        let a = e.choose(7);
        let b = 7 + e.choose(9);
        let va = *e.pick(&wild);
        let vb = *e.pick(&wild);
        for (i, v) in [(a, va), (b, vb)] {
            match i {
                0 => k.e = v,
                1 => k.sqrta = v,
                2 => k.m0 = v,
                3 => k.i0 = v,
                4 => k.omega = v,
                5 => k.omega0 = v,
                6 => k.toe = v,
                i => k.p[i - 7] = v,
            }
        }
        let s = sv(who.0, who.1);
        let m = eph(s, &k, *e.pick(&[0, 2139, u32::MAX]));
        e.note(|| format!("{s:?} {m:?}"));
        let t = at('G', 5000, 0);
        e.step();
        let r = no_panic("kepler2position", || m.kepler2position(s, at('G', 0, 0), t))?;
        no_panic("kepler2position_velocity", || m.kepler2position_velocity(s, at('G', 0, 0), t))?;
        e.outcome(&r.is_some());
        e.validated();
        let _ = WEEK;
        Ok(())
    });
}
