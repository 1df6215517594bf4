//! P17: DORIS files.
use crate::engine::*;
use crate::model::doris::*;
use crate::model::obs::MTime;
use crate::util::*;
use crate::{bail, ensure};

fn check(e: &mut Exec, m: &MDoris, text: &str) -> R {
    e.note(|| format!("file:\n{text}"));
    let want = m.expected();
    let rnx = no_panic("Rinex::parse", || parse_str(text))?.map_err(|x| format!("Rinex::parse refused a well-formed file: {x:?}"))?;
    let got = observed(&rnx)?;
    if let Some(d) = diff(&want, &got) {
        bail!("{d}");
    }
    ensure!(rnx.doris_ground_stations_iter().map(|s| s.to_string().replace(' ', "")).eq(m.stations.iter().map(|s| station_line(*s).replace(' ', ""))), "ground stations: {:?}", rnx.doris_ground_stations_iter().collect::<Vec<_>>());
    let keys: Vec<_> = rnx.doris_observation_keys().cloned().collect();
    ensure!(keys.iter().map(|k| (k.epoch, k.flag.to_string())).eq(want.keys().cloned()), "keys {keys:?}");
    let clocks: Vec<_> = rnx.doris_satellite_clock_offset_iter().map(|(k, c)| (k.epoch, c.offset_s)).collect();
    ensure!(clocks.iter().cloned().eq(want.iter().map(|(k, v)| (k.0, v.0))), "clock iterator: {clocks:?}");
    let n: usize = want.values().map(|v| v.2.len()).sum();
    let mut seen = 0;
    for (k, s, o) in rnx.doris_ground_station_signals_iter() {
        seen += 1;
        let w = want.get(&(k.epoch, k.flag.to_string())).and_then(|w| w.2.get(&(s.station.to_string().replace(' ', ""), code(&s.observable))));
        ensure!(w == Some(&(o.value, o.m1, o.m2)), "signals iterator: {s:?} {o:?} instead of {w:?}");
    }
    ensure!(seen == n, "signals iterator: {seen} signals instead of {n}");
    for (k, v) in &want {
        e.state(&format!("{k:?}{v:?}"));
        e.step();
    }
    e.outcome(&format!("{want:?}"));
    e.validated();
    Ok(())
}
fn t(i: usize) -> MTime {
    MTime(2018, 6, 13, 0, 59, 10_000_000 * (i as u32 * 3) + 1_799_478)
}
fn one(n: usize) -> Vec<Sig> {
    (0..n).map(|k| Some((1000 * k as i64 + 17, None, Some(7)))).collect()
}

pub fn run(ctx: &mut Ctx) {
    ctx.explore("presence", "every number of codes x every presence pattern, complement for the second station, trimmed or padded lines, with or without a last line end", |e| {
        let n = 1 + e.choose(10);
        let mut a = vec![];
        for k in 0..n {
            a.push(if e.flag() { Some((k as i64 * 100 + 5, Some(1), None)) } else { None });
        }
        let b = a.iter().enumerate().map(|(k, x): (usize, &Sig)| if x.is_none() { Some((-(k as i64) - 1, None, Some(k as u8 % 10))) } else { None }).collect();
        let m = MDoris {
            codes: DCODES[..n].to_vec(),
            stations: vec![1, 2],
            epochs: vec![DEpoch { ns: 0, t: t(0), flag: 0, clock: Some(-4_326_631_626), extrapolated: Some(false), stations: vec![(1, a), (2, b)] }],
        };
        let mut x = m.text(e.choose(3));
        if e.flag() {
            x.pop();
        }
        check(e, &m, &x)
    });
    ctx.explore("values", "position of a field x value x first flag x second flag x number of codes", |e| {
        let n = *e.pick(&[1usize, 5, 6, 10, 11]);
        let p = *e.pick(&[0usize, 3, 4, 5, 9, 10]);
        if p >= n {
            e.trivial();
            return Ok(());
        }
        let v = *e.pick(&[0i64, 1, -1, -139_623_093_084, 999_999_999_999, 9_999_999_999_999, -999_999_999_999, 12_345]);
        let f = [None, Some(0u8), Some(1), Some(9)];
        let mut a = one(n);
        a[p] = Some((v, *e.pick(&f), *e.pick(&f)));
        let m = MDoris {
            codes: DCODES[..n].to_vec(),
            stations: vec![1, 2, 3],
            epochs: vec![DEpoch { ns: 0, t: t(0), flag: 0, clock: Some(1), extrapolated: Some(true), stations: vec![(3, one(n)), (2, a)] }],
        };
        let x = m.text(e.choose(3));
        check(e, &m, &x)
    });
    let len = ctx.q(2, 3);
    ctx.explore("history", "every sequence of epochs: clock (none or a value), extrapolated or not, epoch flag, stations seen (any subset of three, in either order)", move |e| {
        let n = *e.pick(&[2usize, 5, 7]);
        let mut m = MDoris { codes: DCODES[..n].to_vec(), stations: vec![1, 2, 12], epochs: vec![] };
        for i in 0..1 + e.choose(len) {
            let (clock, extrapolated) = *e.pick(&[(Some(-4_326_631_626i64), Some(false)), (Some(12), Some(true)), (Some(-99_999_999_999), None), (None, None)]);
            let flag = *e.pick(&[0u8, 1]);
            let set = e.choose(8);
            let mut stations: Vec<_> = [1u8, 2, 12].iter().enumerate().filter(|(k, _)| set >> k & 1 == 1).map(|(k, s)| (*s, (0..n).map(|c| if (c + i + k) % 3 == 2 { None } else { Some(((i * 1000 + k * 100 + c) as i64, None, Some(1))) }).collect::<Vec<Sig>>())).collect();
            if stations.len() > 1 && e.flag() {
                stations.reverse();
            }
            m.epochs.push(DEpoch { ns: 0, t: t(i), flag, clock, extrapolated, stations });
        }
        let x = m.text(1);
        check(e, &m, &x)
    });
    ctx.explore("stations", "numbers of the header's stations (with gaps, any order) x station observed", |e| {
        let list = *e.pick(&[&[1u8][..], &[2], &[1, 2, 3], &[3, 1, 2], &[2, 4, 6], &[10, 11, 53], &[99, 1]]);
        let n = *e.pick(&[1usize, 6]);
        let mut stations = vec![];
        for k in 0..1 + e.choose(list.len()) {
            let s = list[(k + e.choose(list.len())) % list.len()];
            if stations.iter().any(|(x, _)| *x == s) {
                e.trivial();
                return Ok(());
            }
            stations.push((s, one(n)));
        }
        let m = MDoris { codes: DCODES[..n].to_vec(), stations: list.to_vec(), epochs: vec![DEpoch { ns: 0, t: t(0), flag: 0, clock: Some(5), extrapolated: Some(false), stations }] };
        let x = m.text(e.choose(2));
        check(e, &m, &x)
    });
    ctx.explore("undeclared", "every subset of four stations that the header describes x every sequence of two or three stations observed: those it does not describe are skipped", |e| {
        let all = [1u8, 2, 7, 12];
        let set = 1 + e.choose(15);
        let declared: Vec<u8> = (0..4).filter(|k| set >> k & 1 == 1).map(|k| all[k]).collect();
        let n = *e.pick(&[1usize, 5, 6]);
        let mut epochs = vec![];
        for i in 0..2 {
            let mut stations = vec![];
            for k in 0..2 + e.choose(2) {
                let s = all[if i == 0 { e.choose(4) } else { (k + set) % 4 }];
                if stations.iter().all(|(x, _)| *x != s) {
                    stations.push((s, (0..n).map(|c| Some(((100 * s as usize + 10 * k + c) as i64, None, Some(k as u8)))).collect()));
                }
            }
            epochs.push(DEpoch { ns: 0, t: t(i), flag: 0, clock: Some(5), extrapolated: Some(false), stations });
        }
        let m = MDoris { codes: DCODES[..n].to_vec(), stations: declared, epochs };
        let x = m.text(e.choose(2));
        check(e, &m, &x)
    });
    ctx.explore("dates", "calendar dates x time of day x fraction of the second (down to the nanosecond)", |e| {
        let y = *e.pick(&[1990, 1999, 2000, 2020, 2099]);
        let (mo, d) = *e.pick(&[(1u8, 1u8), (2, 28), (3, 1), (9, 9), (10, 10), (12, 31)]);
        let (h, mi, s) = *e.pick(&[(0u8, 0u8, 0u32), (0, 0, 1), (9, 9, 9), (10, 10, 10), (23, 59, 59)]);
        let f = *e.pick(&[0u32, 1, 10, 1_799_478, 9_999_999, 5_000_000, 1_000_000]);
        let ns = *e.pick(&[0u8, 1, 30, 99]);
        let m = MDoris {
            codes: vec!["L1", "F"],
            stations: vec![1],
            epochs: vec![DEpoch { ns, t: MTime(y, mo, d, h, mi, s * 10_000_000 + f), flag: 0, clock: Some(5), extrapolated: Some(false), stations: vec![(1, one(2))] }],
        };
        let x = m.text(1);
        check(e, &m, &x)
    });
    ctx.explore("long", "files of 1..1025 epochs (67 sizes) x 1..99 stations in view (15 sizes) x 1, 5, 6 or 10 codes (up to 4000 station records)", |e| {
        let n = *e.pick(&counts());
        let s = *e.pick(&[1usize, 2, 3, 9, 10, 11, 12, 31, 32, 33, 53, 64, 65, 98, 99]);
        let c = *e.pick(&[1usize, 5, 6, 10]);
        if n * s > 4_000 {
            e.trivial();
            return Ok(());
        }
        let all: Vec<u8> = (1..=s as u8).collect();
        let m = MDoris {
            codes: DCODES[..c].to_vec(),
            stations: all.clone(),
            epochs: (0..n)
                .map(|i| DEpoch { ns: 0,
                    t: clock_at(i as u64 * 10),
                    flag: (i % 9 == 4) as u8,
                    clock: Some(-4_326_631_626 + i as i64),
                    extrapolated: Some(i % 3 == 1),
                    stations: all.iter().filter(|x| s < 3 || (**x as usize + i) % 5 != 3).map(|x| (*x, (0..c).map(|k| if (k + i + *x as usize) % 6 == 5 { None } else { Some(((i * 1000 + k * 100) as i64 + *x as i64, (i % 2 == 0).then_some((k % 10) as u8), Some(7))) }).collect())).collect(),
                })
                .collect(),
        };
        let x = m.text(1);
        check(e, &m, &x)
    });
}
