//! P29: grid axes and quantised coordinates.
use crate::engine::*;
use crate::model::hl;
use crate::model::fixed;
use crate::util::*;
use crate::{bail, ensure};
use rinex::ionex::Grid;
use rinex::prelude::*;

/// Nodes in units of 10^-digits.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
struct Ax {
    start: i64,
    step: i64,
    n: usize,
    digits: u32,
}
impl Ax {
    fn real(&self, v: i64) -> f64 {
        v as f64 / 10f64.powi(self.digits as i32)
    }
    fn at(&self, k: usize) -> i64 {
        self.start + self.step * k as i64
    }
    fn end(&self) -> i64 {
        self.at(self.n - 1)
    }
}
fn header(lat: &str, lon: &str, hgt: &str) -> String {
    hl(&format!("{:>8}{:12}{:20}{:20}", "1.0", "", "IONOSPHERE MAPS", "GPS"), "IONEX VERSION / TYPE")
        + &hl("MODEL               CHECKER             20210101 000000 UTC", "PGM / RUN BY / DATE")
        + &hl("     2", "MAP DIMENSION")
        + &hl(hgt, "HGT1 / HGT2 / DHGT")
        + &hl(lat, "LAT1 / LAT2 / DLAT")
        + &hl(lon, "LON1 / LON2 / DLON")
        + &hl("    -1", "EXPONENT")
        + &hl("", "END OF HEADER")
}
fn spec(a: i64, b: i64, d: i64) -> String {
    format!("  {:>6}{:>6}{:>6}", fixed(a, 1), fixed(b, 1), fixed(d, 1))
}
fn grid(text: &str) -> R<Result<Grid, ParsingError>> {
    Ok(no_panic("parse", || parse_str(text))?.map(|r| r.header.ionex.expect("header").grid))
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-9
}

/// every node and points between nodes
fn walk(e: &mut Exec, a: &Ax, g: &Grid) -> R {
    let l = &g.latitude;
    let single = no_panic("is_single_point", || l.is_single_point())?;
    ensure!(single == (a.n == 1), "is_single_point() of {a:?} is {single}");
    // (fractions of a step, in 1/8)
    for k in 0..a.n {
        for f in 0..8i64 {
            if f > 0 && k + 1 == a.n {
                continue;
            }
            let p = if f == 0 { a.real(a.at(k)) } else { a.real(a.at(k)) + a.real(a.step) * f as f64 / 8.0 };
            let (mut below, mut above) = (None, None);
            // in 8th of units
            let pos = a.at(k) * 8 + a.step * f;
            for j in 0..a.n {
                let v = a.at(j);
                if v * 8 <= pos && below.map_or(true, |b| v > b) {
                    below = Some(v);
                }
                if v * 8 > pos && above.map_or(true, |b| v < b) {
                    above = Some(v);
                }
            }
            let low = no_panic("nearest_lower", || l.nearest_lower(p))?;
            let up = no_panic("nearest_above", || l.nearest_above(p))?;
            let ok = |got: Option<f64>, want: Option<i64>| match (got, want) {
                (None, None) => true,
                (Some(x), Some(w)) => close(x, a.real(w)),
                _ => false,
            };
            ensure!(ok(low, below), "{a:?}: the highest node not above {p} is {:?}, nearest_lower yields {low:?}", below.map(|v| a.real(v)));
            ensure!(ok(up, above), "{a:?}: the lowest node above {p} is {:?}, nearest_above yields {up:?}", above.map(|v| a.real(v)));
            e.evals(2);
            e.step();
            e.outcome(&(low.map(f64::to_bits), up.map(f64::to_bits)));
        }
    }
    // outside: unspecified, but no panic nor endless loop
    for p in [f64::MIN, a.real(a.start - 1), a.real(a.end() + 1), f64::MAX, f64::NAN, f64::INFINITY] {
        no_panic("nearest_lower", || l.nearest_lower(p))?;
        no_panic("nearest_above", || l.nearest_above(p))?;
    }
    e.validated();
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let deep = ctx.q(false, true);
    let ends = |deep: bool| -> Vec<i64> {
        if deep {
            (-20..=20).map(|x| x * 90).chain([-875, 875, 25, -25, 1, -1, 4500, 3]).collect()
        } else {
            vec![-1800, -900, -875, -25, -1, 0, 1, 3, 25, 875, 900, 1800, 4500]
        }
    };
    ctx.explore("axes read", "every first node x increment x number of nodes of an alphabet, written in the header of a map file: every node and 7 points of every step", move |e| {
        let start = *e.pick(&ends(deep));
        let step = *e.pick(&[1i64, -1, 5, 25, -25, 50, -50, 10, -10, 3, -7]);
        let n = if deep { 1 + e.choose(80) } else { *e.pick(&[1usize, 2, 3, 4, 8, 15, 71, 73]) };
        let a = Ax { start, step, n, digits: 1 };
        if a.end().abs() > 9999 || fixed(a.end(), 1).len() > 6 {
            e.trivial();
            return Ok(());
        }
        let text = header(&spec(start, a.end(), if n == 1 { 0 } else { step }), &spec(0, 0, 0), &spec(4500, 4500, 0));
        e.note(|| text.clone());
        let g = grid(&text)?.map_err(|x| format!("the axis {a:?} is refused: {x:?}"))?;
        let l = &g.latitude;
        ensure!(
            close(l.start, a.real(a.start)) && close(l.end, a.real(a.end())) && close(l.spacing, if n == 1 { 0.0 } else { a.real(step) }),
            "{a:?} read as {l:?}"
        );
        walk(e, &a, &g)
    });
    ctx.explore("axes built", "axes built from their bounds and increment with 0 to 3 decimals, in both directions: every node and 7 points of every step", move |e| {
        let digits = e.choose(4) as u32;
        let start = *e.pick(&[-1800i64, -875, -7, -1, 0, 1, 2, 9, 100, 4500]);
        let step = *e.pick(&[1i64, -1, 2, 3, -3, 7, 10, 25, -25, 125, 333]);
        let n = if deep { 1 + e.choose(60) } else { *e.pick(&[1usize, 2, 3, 10, 11, 37]) };
        let a = Ax { start, step, n, digits };
        let g = Grid {
            latitude: (a.real(start), a.real(a.end()), if n == 1 { 0.0 } else { a.real(step) }).into(),
            longitude: (0.0, 0.0, 0.0).into(),
            height: (450.0, 450.0, 0.0).into(),
        };
        e.note(|| format!("{g:?}"));
        walk(e, &a, &g)
    });
    ctx.explore("wrong axes", "axes whose last node is not reached by a whole number of increments are refused, others are not", |e| {
        let start = *e.pick(&[-875i64, -10, 0, 5, 875]);
        let end = start + *e.pick(&[-100i64, -50, -25, -1, 0, 1, 3, 24, 25, 26, 49, 50, 100]);
        let step = *e.pick(&[-50i64, -25, -3, -1, 1, 2, 5, 25, 50, 75, 200]);
        let which = e.choose(3);
        let ok = (end - start) % step == 0 && (end - start) / step >= 0;
        let s = spec(start, end, step);
        let z = spec(0, 10, 5);
        let text = match which {
            0 => header(&s, &z, &z),
            1 => header(&z, &s, &z),
            _ => header(&z, &z, &s),
        };
        e.note(|| text.clone());
        let got = grid(&text)?;
        ensure!(got.is_ok() == ok, "axis {s:?}: {}", if ok { "refused" } else { "accepted, its last node is not reached" });
        e.step();
        e.outcome(&(which, ok, start, end, step));
        e.validated();
        Ok(())
    });
    ctx.explore("number of nodes", "length() of axes built from their bounds and increment", |e| {
        let start = *e.pick(&[-1800i64, -875, 0, 1, 875]);
        let step = *e.pick(&[1i64, -1, 5, 25, -25, 50, -50, 10]);
        let n = *e.pick(&[2usize, 3, 71, 180]);
        let a = Ax { start, step, n, digits: 1 };
        let g = Grid { latitude: (a.real(start), a.real(a.end()), a.real(step)).into(), longitude: (0.0, 0.0, 0.0).into(), height: (0.0, 0.0, 0.0).into() };
        let got = no_panic("length", || g.latitude.length())?;
        if got != n {
            // known finding: this very formula
            let wrong = (a.real(a.end()) / a.real(step)).floor() as usize;
            e.label(if got == wrong { "length = end / spacing" } else { "length" });
            bail!("length() of {a:?} is {got}");
        }
        e.step();
        e.outcome(&got);
        e.validated();
        Ok(())
    });
    ctx.explore("coordinates", "every multiple of 10^-x (x = 0 to 6) of a range, as latitude, longitude and altitude: the coordinates return the very value, and equality is that of the values", move |e| {
        let x = e.choose(7) as u32;
        let block = e.choose(40) as i64;
        let far = *e.pick(&[0i64, 1, -1]);
        let base = far * [180, 1800, 18_000, 179_500, 1_799_000, 17_999_000, 179_999_000][x as usize];
        let n = if deep { 500 } else { 25 };
        for i in 0..n {
            let q = base + (block - 20) * n + i;
            let v = q as f64 / 10f64.powi(x as i32);
            let ex = x as i8;
            let c = no_panic("QuantizedCoordinates::new", || QuantizedCoordinates::new(v, ex, -v, ex, v + 1.0, ex))?;
            ensure!(c.latitude_ddeg() == v && c.longitude_ddeg() == -v, "{v} with {x} digits returned as {} and {}", c.latitude_ddeg(), c.longitude_ddeg());
            let alt = (q + 10i64.pow(x)) as f64 / 10f64.powi(x as i32);
            ensure!(c.altitude_km() == alt, "altitude {alt} with {x} digits returned as {}", c.altitude_km());
            let d = QuantizedCoordinates::new(v, ex, -v, ex, v + 1.0, ex);
            let o = QuantizedCoordinates::new((q + 1) as f64 / 10f64.powi(x as i32), ex, -v, ex, v + 1.0, ex);
            ensure!(c == d && c != o, "equality of coordinates of {v}");
            e.evals(1);
            e.outcome(&(q, x));
        }
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("electron contents", "every multiple of 10^-x TECU (x = 0 to 4) of a range, built and read back, with and without RMS", move |e| {
        let x = e.choose(5) as u32;
        let block = e.choose(40) as i64;
        let n = if deep { 1000 } else { 50 };
        let base = *e.pick(&[0i64, 9_999, 999_999, -1000]);
        for i in 0..n {
            let q = base + block * n + i;
            let v = q as f64 / 10f64.powi(x as i32);
            let t = no_panic("TEC::from_tecu", || TEC::from_tecu(v))?;
            ensure!(t.tecu() == v, "{v} TECU returned as {}", t.tecu());
            ensure!(t.rms_tec().is_none(), "unexpected RMS");
            let r = no_panic("with_rms", || t.with_rms(v / 2.0))?;
            ensure!(r.rms_tec() == Some(v / 2.0) && r.tecu() == v, "RMS of {}: {:?}", v / 2.0, r.rms_tec());
            let m = no_panic("TEC::from_tec_m2", || TEC::from_tec_m2(t.tec()))?;
            ensure!((m.tecu() - v).abs() <= 1e-9 * v.abs().max(1.0), "{v} TECU through m-2: {}", m.tecu());
            e.evals(1);
            e.outcome(&(q, x));
        }
        e.step();
        e.validated();
        Ok(())
    });
}
