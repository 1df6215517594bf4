//! P30: code multipath and TEC estimates.  P31: satellite clock correction,
//! validity of an ephemeris, line of sight of a satellite.
use super::combine::{obs, order, record, rinex_of, sv, t, Sig, SYSTEMS};
use crate::engine::*;
use crate::{bail, ensure};
use anise::constants::frames::{EARTH_ITRF93, IAU_EARTH_FRAME};
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use rinex::navigation::{Ephemeris, OrbitItem};
use rinex::observation::{EpochFlag, ObsKey};
use rinex::prelude::nav::{Almanac, Frame, Orbit};
use rinex::prelude::*;
use std::collections::HashMap;

const C: f64 = 299_792_458.0;

/// instant, satellite, signal (or reference), other signal
type Key = (Epoch, SV, Observable, Observable);

/// MP(i; j) = rho_i - phi_i - 2 fj2 / (fi2 - fj2) (phi_i - phi_j)
fn multipath(list: &[Sig]) -> Vec<(Key, f64)> {
    let mut ret = Vec::new();
    for i in list.iter().filter(|s| s.code.starts_with('L') && s.code.len() == 3) {
        let range = format!("C{}", &i.code[1..]);
        let Some(rho) = list.iter().find(|r| r.key == i.key && r.sv == i.sv && r.code == range) else {
            continue;
        };
        for j in list.iter().filter(|j| j.key == i.key && j.sv == i.sv && j.code.starts_with('L') && j.freq != i.freq) {
            let (fi, fj) = (i.freq * i.freq, j.freq * j.freq);
            let (pi, pj) = (i.value * C / (i.freq * 1.0E6), j.value * C / (j.freq * 1.0E6));
            let v = rho.value - pi - 2.0 * fj / (fi - fj) * (pi - pj);
            ret.push(((i.key.epoch, sv(&i.sv), obs(&i.code), obs(&j.code)), v));
        }
    }
    ret
}

/// 1 / 40.308 fi2 fj2 / (fi2 - fj2) |Li - Lj|, of the raw phases [cycles],
/// in units of 1E17 electrons (as the unit tests of the library pin it)
fn tec(list: &[Sig]) -> Vec<(Key, f64)> {
    let mut ret = Vec::new();
    for i in list.iter().filter(|s| s.code.starts_with('L') && s.reference && s.key.flag == EpochFlag::Ok) {
        for j in list.iter().filter(|j| j.key == i.key && j.sv == i.sv && j.code.starts_with('L') && j.freq != i.freq) {
            let (fi, fj) = ((i.freq * 1.0E6).powi(2), (j.freq * 1.0E6).powi(2));
            let v = fi * fj / (fi - fj) / 40.308 * (i.value - j.value);
            ret.push(((i.key.epoch, sv(&i.sv), obs(&i.code), obs(&j.code)), v.abs() / 1.0E17));
        }
    }
    ret
}

fn same(e: &mut Exec, what: &str, mut got: HashMap<Key, f64>, want: Vec<(Key, f64)>, rel: f64) -> R {
    e.step();
    e.outcome(&format!("{what}: {}", want.len()));
    for (k, w) in want {
        let Some(g) = got.remove(&k) else {
            bail!("{what}: no value for {k:?}");
        };
        ensure!((g - w).abs() <= 1.0E-5 + rel * w.abs(), "{what}: {k:?} is {g} instead of {w}");
        e.evals(1);
    }
    ensure!(got.is_empty(), "{what}: {} value(s) that no pair of signals yields, like {:?}", got.len(), got.iter().next());
    Ok(())
}

fn compare(e: &mut Exec, rnx: &Rinex, list: &[Sig]) -> R {
    e.note(|| list.iter().map(|s| format!("{} {:?} {} {} {}", s.key.epoch, s.key.flag, s.sv, s.code, s.value)).collect::<Vec<_>>().join("\n"));
    e.state(&format!("{:?}", list.iter().map(|s| (&s.key, &s.sv, &s.code)).collect::<Vec<_>>()));
    let got = no_panic("signals_multipath", || rnx.signals_multipath())?;
    same(e, "multipath", got.into_iter().map(|(k, v)| ((k.epoch, k.sv, k.signal, k.rhs), v)).collect(), multipath(list), 1.0E-12)?;
    let got = no_panic("observation_dual_phase_ionosphere_tec", || rnx.observation_dual_phase_ionosphere_tec())?;
    same(e, "TEC", got.into_iter().map(|(k, v)| ((k.epoch, k.sv, k.reference, k.rhs), v.tecu())).collect(), tec(list), 1.0E-9)?;
    e.validated();
    Ok(())
}

fn value(kind: &str, i: usize) -> f64 {
    if kind == "C" {
        20_000_000.125 + 3.25 * (i * i) as f64
    } else {
        100_000_000.0 + 7_000_000.125 * i as f64
    }
}

pub fn estimates(ctx: &mut Ctx) {
    let one = ObsKey { epoch: t(0), flag: EpochFlag::Ok };
    // (GLONASS and B1I have no band of reference for the TEC)
    let systems = [SYSTEMS[0], SYSTEMS[2], SYSTEMS[4], SYSTEMS[5]];

    ctx.explore("presence patterns", "all subsets of the phases and pseudo ranges of all bands of each system, in both orders", |e| {
        let (s, codes) = *e.pick(&systems);
        let mut list = Vec::new();
        for kind in ["C", "L"] {
            for (code, freq, reference) in codes {
                if e.flag() {
                    list.push(Sig { key: one, sv: s.to_string(), code: format!("{kind}{code}"), freq: *freq, reference: *reference, value: value(kind, list.len() + 1) });
                }
            }
        }
        if list.len() > 1 && e.flag() {
            list.reverse();
        }
        let rnx = rinex_of(record(&list), None);
        compare(e, &rnx, &list)
    });

    ctx.explore("orders", "all orders of the signals of a satellite, other kinds and two letter codes in between", |e| {
        let (s, codes) = *e.pick(&systems);
        let mut list = Vec::new();
        for (i, (kind, k)) in [("L", 0), ("C", 0), ("L", 2), ("C", 2), ("S", 0), ("D", 2), ("L", 1)].iter().enumerate() {
            let (code, freq, reference) = codes[*k];
            if *kind == "L" && *k == 1 && s.starts_with('S') {
                continue;
            }
            list.push(Sig { key: one, sv: s.to_string(), code: format!("{kind}{code}"), freq, reference, value: value(kind, i) });
        }
        let n: usize = (1..=list.len()).product();
        let list = order(&list, e.choose(n));
        let rnx = rinex_of(record(&list), None);
        compare(e, &rnx, &list)
    });

    let epochs = ctx.q(3, 4);
    ctx.explore("histories", "all presence patterns of two phases and pseudo ranges over several epochs and two satellites, event flags, steady or with gaps, sampling declared or not", |e| {
        let interval = *e.pick(&[None, Some(1.0), Some(30.0)]);
        let mut list: Vec<Sig> = Vec::new();
        let mut at = 0;
        let n = 1 + e.choose(epochs);
        for i in 0..n {
            let (step, flag) = if i == 0 {
                (0, *e.pick(&[EpochFlag::Ok, EpochFlag::PowerFailure]))
            } else {
                *e.pick(&[(30, EpochFlag::Ok), (30, EpochFlag::PowerFailure), (1, EpochFlag::Ok), (3000, EpochFlag::Ok)])
            };
            at += step;
            let key = ObsKey { epoch: t(at), flag };
            let present = if i < 3 { e.choose(16) } else { 15 };
            for (j, s) in ["G07", "G08"].iter().enumerate() {
                for (k, (code, freq, reference)) in [("L1C", 1575.42, true), ("L2W", 1227.60, false), ("C1C", 1575.42, true), ("C2W", 1227.60, false)].iter().enumerate() {
                    // the second satellite: the opposite pattern
                    if (present >> k & 1 == 1) == (j == 0) {
                        list.push(Sig { key, sv: s.to_string(), code: code.to_string(), freq: *freq, reference: *reference, value: value(&code[..1], list.len()) });
                    }
                }
            }
        }
        let rnx = rinex_of(record(&list), interval.map(Duration::from_seconds));
        compare(e, &rnx, &list)
    });

    ctx.explore("several systems", "satellites of two systems, of the same number or not, all presence patterns of two phases and pseudo ranges of each, listed one after the other or interleaved", |e| {
        let (a, b) = *e.pick(&[(0usize, 1usize), (0, 2), (0, 3), (1, 2), (2, 3), (0, 0), (2, 2)]);
        let other = e.flag();
        let mut lists: Vec<Vec<Sig>> = vec![vec![], vec![]];
        let mut n = 0;
        for (j, k) in [a, b].iter().enumerate() {
            let (s, codes) = systems[*k];
            let num = if j == 1 && (other || a == b) { 25 } else { 24 };
            for (i, (code, freq, reference)) in [codes[0], codes[codes.len() - 1]].iter().enumerate() {
                for kind in ["L", "C"] {
                    if i == 1 && codes[0].1 == codes[codes.len() - 1].1 {
                        continue;
                    }
                    n += 1;
                    if e.flag() {
                        lists[j].push(Sig { key: one, sv: format!("{}{num}", &s[..1]), code: format!("{kind}{code}"), freq: *freq, reference: *reference, value: value(kind, n) });
                    }
                }
            }
        }
        let (first, second) = (lists.remove(0), lists.remove(0));
        let mut list = Vec::new();
        if e.flag() {
            list.extend(first);
            list.extend(second);
        } else {
            let (mut x, mut y) = (first.into_iter(), second.into_iter());
            loop {
                let (p, q) = (x.next(), y.next());
                if p.is_none() && q.is_none() {
                    break;
                }
                list.extend(q);
                list.extend(p);
            }
        }
        let rnx = rinex_of(record(&list), None);
        compare(e, &rnx, &list)
    });
}

/// Seconds after 2021-01-03, in the time scale of the constellation.
fn at(c: Constellation, s: i64, ns: i64) -> Epoch {
    Epoch::from_gregorian(2021, 1, 3, 0, 0, 0, 0, c.timescale().unwrap()) + Duration::from_total_nanoseconds(s as i128 * 1_000_000_000 + ns as i128)
}

const GNSS: [(Constellation, i64); 7] = [
    (Constellation::GPS, 7200),
    (Constellation::QZSS, 7200),
    (Constellation::Galileo, 10800),
    (Constellation::BeiDou, 21600),
    (Constellation::IRNSS, 7200),
    (Constellation::Glonass, 1800),
    (Constellation::EGNOS, 86400),
];

pub fn satellites(ctx: &mut Ctx) {
    ctx.explore("clock correction", "all clock polynomials of a grid, instants from the time of clock on (and before it), scales, numbers of iterations, systems", |e| {
        let (c, _) = *e.pick(&GNSS);
        let Some(ts) = c.timescale() else {
            e.trivial();
            return Ok(());
        };
        let a0 = *e.pick(&[0.0, 1.0E-3, -2.5E-2, 0.5]);
        let a1 = *e.pick(&[0.0, 1.0E-11, -1.0E-5, 2.5E-4]);
        let a2 = *e.pick(&[0.0, 1.0E-12, -3.0E-9]);
        let (s, ns) = *e.pick(&[(0i64, 0i64), (0, -1), (0, 1), (1, 0), (3599, 500_000_000), (7200, 0), (86_400, 0), (-60, 0), (-7200, 0)]);
        let iter = *e.pick(&[0usize, 1, 2, 5, 10]);
        let (k1, k2) = (e.choose(3), e.choose(3));
        let scale = |k: usize| [ts, TimeScale::UTC, TimeScale::TAI][k];
        let m = Ephemeris { clock_bias: a0, clock_drift: a1, clock_drift_rate: a2, orbits: Default::default() };
        let toc = at(c, 0, 0);
        let (toc_, t_) = (toc.to_time_scale(scale(k1)), at(c, s, ns).to_time_scale(scale(k2)));
        e.note(|| format!("{c:?} {a0} {a1} {a2}, {t_} for {toc_}, {iter} iterations"));
        let got = no_panic("clock_correction", || m.clock_correction(toc_, t_, SV { constellation: c, prn: 1 }, iter))?;
        e.step();
        e.outcome(&format!("{got:?}"));
        e.state(&format!("{a0}{a1}{a2}{s}{ns}"));
        if s < 0 || ns < 0 {
            ensure!(got.is_none(), "before the time of clock: {got:?}");
        } else {
            let dt_sv = s as f64 + ns as f64 * 1.0E-9;
            let p = |dt: f64| a0 + a1 * dt + a2 * dt * dt;
            let mut dt = dt_sv;
            for _ in 0..iter {
                dt = dt_sv - p(dt);
            }
            let want = p(dt);
            let Some(got) = got else {
                bail!("no correction");
            };
            ensure!((got.to_seconds() - want).abs() < 2.0E-9 + 1.0E-12 * want.abs(), "correction {got:?} instead of {want} s");
        }
        e.validated();
        Ok(())
    });

    ctx.explore("validity", "all systems, instants around the edges of the period of validity, scales", |e| {
        let (c, max) = *e.pick(&GNSS);
        let Some(ts) = c.timescale() else {
            e.trivial();
            return Ok(());
        };
        let (base, ns) = (*e.pick(&[0, max / 2, max, 2 * max, -1, -max]), *e.pick(&[-1_000_000_000i64, -1000, 1000, 1_000_000_000]));
        let toe = *e.pick(&[0i64, 604_799, 345_600]);
        let (k1, k2) = (e.choose(3), e.choose(3));
        let scale = |k: usize| [ts, TimeScale::UTC, TimeScale::TAI][k];
        let off = base as i128 * 1_000_000_000 + ns as i128;
        let m = Ephemeris::default();
        let (t_, toe_) = (at(c, toe + base, ns).to_time_scale(scale(k1)), at(c, toe, 0).to_time_scale(scale(k2)));
        let got = no_panic("is_valid", || m.is_valid(SV { constellation: c, prn: 1 }, t_, toe_))?;
        e.step();
        let want = off > 0 && off < max as i128 * 1_000_000_000;
        e.outcome(&(got, base));
        ensure!(got == want, "{c:?}: {off} ns after the time of ephemeris, valid: {got}");
        ensure!(Ephemeris::validity_duration(c) == Some(Duration::from_seconds(max as f64)), "{c:?}: valid for {:?}", Ephemeris::validity_duration(c));
        e.validated();
        Ok(())
    });

    super::kepler::seen_from_the_ground(ctx);
    ctx.explore("line of sight", "all receivers of a grid of latitudes and longitudes, satellites all around, from underfoot to the zenith", |e| {
        let (a, b) = (6378.137f64, 6356.752314245f64);
        let shape = *e.pick(&[(6378.137, 6356.752314245), (6371.0, 6371.0)]);
        let (a, b) = if shape.0 == shape.1 { (shape.0, shape.1) } else { (a, b) };
        let (lat, lon) = (*e.pick(&[-80.0f64, -33.0, 0.25, 48.0, 75.0]), *e.pick(&[-179.0f64, -60.0, 0.0, 2.5, 90.0, 135.0]));
        let height = *e.pick(&[0.0f64, 0.125, 3.0]);
        let (az, el) = (*e.pick(&[0.5f64, 45.0, 89.0, 135.0, 181.0, 270.0, 359.0]), *e.pick(&[-30.0f64, 0.5, 15.0, 60.0, 89.0]));
        let range = *e.pick(&[21_000.0f64, 25_500.5]);
        let (sp, cp) = lat.to_radians().sin_cos();
        let (sl, cl) = lon.to_radians().sin_cos();
        let e2 = 1.0 - b * b / (a * a);
        let n = a / (1.0 - e2 * sp * sp).sqrt();
        let rx = ((n + height) * cp * cl, (n + height) * cp * sl, (n * (1.0 - e2) + height) * sp);
        let (sa, ca) = az.to_radians().sin_cos();
        let (se, ce) = el.to_radians().sin_cos();
        // east, north, up
        let (u, v, w) = (range * sa * ce, range * ca * ce, range * se);
        let tx = (
            rx.0 - sl * u - sp * cl * v + cp * cl * w,
            rx.1 + cl * u - sp * sl * v + cp * sl * w,
            rx.2 + cp * v + sp * w,
        );
        let frame = Frame { mu_km3_s2: Some(398_600.435_436_096), shape: Some(Ellipsoid { semi_major_equatorial_radius_km: a, semi_minor_equatorial_radius_km: a, polar_radius_km: b }), ..*e.pick(&[IAU_EARTH_FRAME, EARTH_ITRF93]) };
        e.note(|| format!("receiver {rx:?}, satellite {tx:?}"));
        e.step();
        let got = no_panic("elevation_azimuth_range", || Ephemeris::elevation_azimuth_range(at(Constellation::GPS, 0, 0), &Almanac::default(), frame, tx, rx))?;
        let got = got.map_err(|x| format!("{x:?}"))?;
        e.outcome(&format!("{:.1} {:.1}", got.elevation_deg, got.azimuth_deg));
        let daz = (got.azimuth_deg - az + 540.0).rem_euclid(360.0) - 180.0;
        ensure!(
            (got.elevation_deg - el).abs() < 1.0E-6 && daz.abs() < 1.0E-5 && (got.range_km - range).abs() < 1.0E-6,
            "elevation {} azimuth {} range {} instead of {el} {az} {range}",
            got.elevation_deg,
            got.azimuth_deg,
            got.range_km
        );
        e.validated();
        let _ = OrbitItem::from(0u32);
        let _: Option<Orbit> = None;
        Ok(())
    });
}
