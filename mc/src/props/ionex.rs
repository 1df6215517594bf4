//! P16: ionosphere maps.
use crate::engine::*;
use crate::model::ionex::*;
use crate::model::obs::MTime;
use crate::util::*;
use crate::{bail, ensure};

/// strict: a lost last TEC map is reported (otherwise accepted: it is a known
/// finding, and the other maps are checked)
fn check(e: &mut Exec, m: &MIonex, text: &str, strict: bool) -> R {
    e.note(|| format!("file:\n{text}"));
    let mut want = m.expected();
    let rnx = no_panic("Rinex::parse", || parse_str(text))?.map_err(|x| format!("Rinex::parse refused a well-formed file: {x:?}"))?;
    let got = observed(&rnx)?;
    if let Some(d) = diff(&want, &got) {
        let without = m.expected_without_last();
        if diff(&without, &got).is_some() {
            bail!("{d}");
        }
        if strict {
            return Err(Fail { key: "last TEC map".into(), msg: d });
        }
        want = without;
    }
    // the same through the queries
    let n = rnx.ionex_tecu_latlong_ddeg_alt_km_iter().count();
    ensure!(n == want.len(), "ionex_tecu_latlong_ddeg_alt_km_iter yields {n} nodes instead of {}", want.len());
    for ((t, la, lo, h, v), (k, w)) in rnx.ionex_tecu_latlong_ddeg_alt_km_iter().zip(&want_by_key(&rnx)) {
        ensure!(t == k.0 && [la, lo, h] == [k.1, k.2, k.3] && v == *w, "ionex_tecu_latlong_ddeg_alt_km_iter: {:?} instead of {k:?}", (t, la, lo, h, v));
    }
    let rms = rnx.ionex_rms_tec_maps_iter().count();
    ensure!(rms == want.values().filter(|x| x.1.is_some()).count(), "ionex_rms_tec_maps_iter yields {rms} nodes");
    let range = |a: &Axis| (a.0.min(a.end()) as f64 / 10.0, a.0.max(a.end()) as f64 / 10.0);
    ensure!(
        rnx.tec_map_borders() == Some((range(&m.lat), range(&m.lon))),
        "map borders {:?}",
        rnx.tec_map_borders()
    );
    ensure!(rnx.ionex_altitude_range_km() == Some(range(&m.hgt)), "altitudes {:?}", rnx.ionex_altitude_range_km());
    ensure!(rnx.is_ionex_3d() == (m.hgt.2 > 1) && rnx.is_ionex_2d() == (m.hgt.2 == 1), "dimension");
    for (k, v) in &want {
        e.state(&(format!("{k:?}"), *v));
    }
    m.maps.iter().for_each(|_| e.step());
    e.outcome(&format!("{got:?}"));
    e.validated();
    Ok(())
}
type Node = ((rinex::prelude::Epoch, f64, f64, f64), f64);
fn want_by_key(rnx: &rinex::prelude::Rinex) -> Vec<Node> {
    rnx.record
        .as_ionex()
        .unwrap()
        .iter()
        .map(|(k, v)| ((k.epoch, k.coordinates.latitude_ddeg(), k.coordinates.longitude_ddeg(), k.coordinates.altitude_km()), v.tecu()))
        .collect()
}
fn at(i: usize) -> MTime {
    [MTime(2021, 12, 31, 22, 0, 0), MTime(2021, 12, 31, 23, 59, 590_000_000), MTime(2022, 1, 1, 0, 0, 0), MTime(2022, 1, 1, 2, 0, 0)][i]
}
fn vals(n: usize, seed: i64) -> Vec<Option<i64>> {
    (0..n as i64).map(|k| Some(seed + k)).collect()
}

pub fn run(ctx: &mut Ctx) {
    ctx.explore("grids", "axes of latitude, longitude and height: first value x increment (either sign, fractional or not) x number of nodes; two TEC maps and one RMS map", |e| {
        let la = *e.pick(&[(875i64, -25i64), (875, -50), (875, -250), (-875, 25), (600, -5), (350, 10), (0, 25), (-25, 25), (11, 1), (-10, 3), (-75, 50)]);
        let lat = Axis(la.0, la.1, *e.pick(&[1usize, 2, 3, 5]));
        let lo = *e.pick(&[(-1800i64, 50i64), (-1800, 3600), (-150, 5), (0, 100), (-1300, 1), (-1234, 7), (25, 50), (1800, -50), (-50, 25), (3, 3), (-1000, 500)]);
        let lon = Axis(lo.0, lo.1, *e.pick(&[1usize, 2, 3, 7]));
        let hgt = *e.pick(&[Axis(4500, 0, 1), Axis(3503, 0, 1), Axis(4500, 500, 1), Axis(1000, 1000, 2), Axis(1005, 500, 3), Axis(9000, -25, 2), Axis(0, 1, 2)]);
        let n = lat.2 * lon.2 * hgt.2;
        let m = MIonex {
            lat,
            lon,
            hgt,
            exponent: Some(-1),
            maps: vec![
                MMap { kind: Kind::Tec, t: at(0), exponent: None, vals: vals(n, 10) },
                MMap { kind: Kind::Tec, t: at(1), exponent: None, vals: vals(n, 200) },
                MMap { kind: Kind::Tec, t: at(2), exponent: None, vals: vals(n, 300) },
                MMap { kind: Kind::Rms, t: at(0), exponent: None, vals: vals(n, 1) },
                MMap { kind: Kind::Rms, t: at(1), exponent: None, vals: vals(n, 1) },
            ],
        };
        let t = m.text(false, true);
        check(e, &m, &t, false)
    });
    let len = ctx.q(4, 5);
    ctx.explore("maps", "every sequence of maps: TEC, RMS or height x epoch x exponent line (none, before or after the epoch), default exponent, end of file line, padding", move |e| {
        let l = 1 + e.choose(len);
        let mut m = MIonex { lat: Axis(875, -25, 1), lon: Axis(-1800, 50, 2), hgt: Axis(4500, 0, 1), exponent: *e.pick(&[None, Some(-2)]), maps: vec![] };
        let mut seen = vec![];
        for i in 0..l {
            let kind = *e.pick(&[Kind::Tec, Kind::Rms, Kind::Height]);
            let k = e.choose(2);
            if seen.contains(&(kind, k)) {
                e.trivial();
                return Ok(());
            }
            seen.push((kind, k));
            let exponent = *e.pick(&[None, Some((-1, false)), Some((0, true))]);
            m.maps.push(MMap { kind, t: at(k), exponent, vals: vals(2, 11 * (i as i64 + 1)) });
        }
        let t = m.text(e.flag(), e.flag());
        check(e, &m, &t, false)
    });
    ctx.explore("rows", "number of nodes of a row around the line boundary x rows x values of every width, signs, exponents, missing nodes", |e| {
        let w = *e.pick(&[1usize, 15, 16, 17, 31, 32, 33]);
        let rows = *e.pick(&[1usize, 2]);
        let ex = *e.pick(&[None, Some(-1i8), Some(0), Some(1), Some(-2), Some(-3)]);
        let v = *e.pick(&[None, Some(0i64), Some(1), Some(-1), Some(99), Some(-999), Some(9998), Some(-9999), Some(10000), Some(99999)]);
        let p = *e.pick(&[0usize, 1, 14, 15, 16, 31, 32]);
        let u = *e.pick(&[None, Some(12345i64), Some(7)]);
        if p >= w {
            e.trivial();
            return Ok(());
        }
        let mut a = vals(w * rows, 1);
        a[p] = v;
        if p + 1 < a.len() {
            a[p + 1] = u;
        }
        let mut b = vals(w * rows, 3);
        let last = b.len() - 1;
        b[last] = v;
        b[0] = u;
        let m = MIonex {
            lat: Axis(10, -5, rows),
            lon: Axis(-1800, 100, w),
            hgt: Axis(4500, 0, 1),
            exponent: ex,
            maps: vec![
                MMap { kind: Kind::Tec, t: at(2), exponent: None, vals: a },
                MMap { kind: Kind::Tec, t: at(3), exponent: None, vals: b.clone() },
                MMap { kind: Kind::Tec, t: at(0), exponent: None, vals: b.clone() },
                MMap { kind: Kind::Rms, t: at(2), exponent: None, vals: b },
                MMap { kind: Kind::Rms, t: at(3), exponent: None, vals: vals(w * rows, 2) },
            ],
        };
        let t = m.text(false, true);
        check(e, &m, &t, false)
    });
    ctx.explore("last", "the last TEC map: at the end of the file, or before maps of another kind", |e| {
        let mut m = MIonex { lat: Axis(875, -25, 1), lon: Axis(-1800, 50, 2), hgt: Axis(4500, 0, 1), exponent: Some(-1), maps: vec![] };
        for i in 0..1 + e.choose(3) {
            m.maps.push(MMap { kind: Kind::Tec, t: at(i), exponent: None, vals: vals(2, 10) });
        }
        if let Some(kind) = *e.pick(&[None, Some(Kind::Rms), Some(Kind::Height)]) {
            m.maps.push(MMap { kind, t: at(0), exponent: None, vals: vals(2, 1) });
        }
        let t = m.text(e.flag(), e.flag());
        check(e, &m, &t, true)
    });
    ctx.explore("presence", "every pattern of missing nodes of a map of 2 x 3 nodes and of its RMS map", |e| {
        let mut pat = |seed: i64| (0..6).map(|k| if e.flag() { Some(seed + k) } else { None }).collect::<Vec<_>>();
        let (a, b) = (pat(10), pat(50));
        let m = MIonex {
            lat: Axis(10, -5, 2),
            lon: Axis(-1800, 100, 3),
            hgt: Axis(4500, 0, 1),
            exponent: Some(-1),
            maps: vec![MMap { kind: Kind::Tec, t: at(2), exponent: None, vals: a }, MMap { kind: Kind::Tec, t: at(3), exponent: None, vals: vals(6, 1) }, MMap { kind: Kind::Rms, t: at(2), exponent: None, vals: b }],
        };
        let t = m.text(false, true);
        check(e, &m, &t, false)
    });
    ctx.explore("long", "1..512 maps of each kind (63 sizes), in two orders, x small grids; worldwide grids (up to 73 x 71 nodes, 3 heights) x 1, 2 or 13 maps", |e| {
        let world = e.flag();
        let (lat, lon, hgt, n) = if world {
            let (lat, lon) = *e.pick(&[(Axis(875, -25, 71), Axis(-1800, 50, 73)), (Axis(-875, 50, 36), Axis(0, 25, 145)), (Axis(600, -10, 41), Axis(-150, 5, 101))]);
            let hgt = *e.pick(&[Axis(4500, 0, 1), Axis(3500, 1000, 3)]);
            (lat, lon, hgt, *e.pick(&[1usize, 2, 13]))
        } else {
            let n = *e.pick(&counts()[..63]);
            if n > 512 {
                e.trivial();
                return Ok(());
            }
            (Axis(875, -25, 2), Axis(-1800, 50, *e.pick(&[2usize, 17])), Axis(4500, 0, 1), n)
        };
        let k = lat.2 * lon.2 * hgt.2;
        let v = |seed: usize| (0..k).map(|i| if (i + seed) % 11 == 7 { None } else { Some(((i * 7 + seed * 13) % 9998) as i64) }).collect::<Vec<_>>();
        let tec = |i: usize| MMap { kind: Kind::Tec, t: clock_at(i as u64 * 900), exponent: (i % 4 == 1).then_some((-2, i % 8 == 1)), vals: v(i) };
        let rms = |i: usize| MMap { kind: Kind::Rms, t: clock_at(i as u64 * 900), exponent: None, vals: v(i + 3) };
        let maps = if e.flag() { (0..n).map(tec).chain((0..n).map(rms)).collect() } else { (0..n).flat_map(|i| [tec(i), rms(i)]).collect() };
        let m = MIonex { lat, lon, hgt, exponent: Some(-1), maps };
        let t = m.text(false, true);
        check(e, &m, &t, false)
    });
}
