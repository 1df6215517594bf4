//! P24: sampling analysis.
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use rinex::antex::*;
use rinex::clock::*;
use rinex::doris::DorisKey;
use rinex::navigation::*;
use rinex::observation::{EpochFlag, ObsKey, Observations, SignalObservation};
use rinex::prelude::*;
use std::collections::{BTreeMap, HashMap};
use rinex::record::Record;
use std::str::FromStr;

const KINDS: [&str; 8] = ["obs", "crx", "meteo", "nav", "clock", "ionex", "doris", "antex"];

fn sv(c: Constellation, prn: u8) -> SV {
    SV::new(c, prn)
}
pub fn header(t: RinexType) -> Header {
    let mut h = match t {
        RinexType::ObservationData => Header::basic_obs(),
        _ => Header::default(),
    };
    h.rinex_type = t;
    h
}
/// A record with entries at the given epochs: `many` epochs have several of
/// them (several flags, messages, observables, clocks, coordinates).
pub fn build(kind: &str, epochs: &[(Epoch, bool)]) -> Rinex {
    let obs = |flag: EpochFlag, t: Epoch| {
        let mut o = Observations::default();
        if flag == EpochFlag::Ok {
            o.signals.push(SignalObservation::new(sv(Constellation::GPS, 1), Observable::from_str("C1C").unwrap(), 1.0));
        }
        (ObsKey { epoch: t, flag }, o)
    };
    match kind {
        "obs" | "crx" => {
            let mut r = BTreeMap::new();
            for (t, many) in epochs {
                r.extend([obs(EpochFlag::Ok, *t)]);
                if *many {
                    r.extend([obs(EpochFlag::PowerFailure, *t)]);
                }
            }
            let mut rnx = Rinex::new(header(RinexType::ObservationData), Record::ObsRecord(r));
            if kind == "crx" {
                rnx.header = Header::basic_crinex();
            }
            rnx
        },
        "meteo" => {
            let mut r = BTreeMap::new();
            for (t, many) in epochs {
                for o in &["PR", "TD", "HR"][..if *many { 3 } else { 1 }] {
                    r.insert(MeteoKey { epoch: *t, observable: Observable::from_str(o).unwrap() }, 1.0);
                }
            }
            Rinex::new(header(RinexType::MeteoData), Record::MeteoRecord(r))
        },
        "nav" => {
            let mut r = BTreeMap::new();
            for (t, many) in epochs {
                let list = [
                    (sv(Constellation::GPS, 1), NavMessageType::LNAV, *t),
                    (sv(Constellation::GPS, 1), NavMessageType::CNAV, *t),
                    (sv(Constellation::GPS, 3), NavMessageType::LNAV, *t),
                    // the same instant in another time scale
                    (sv(Constellation::BeiDou, 2), NavMessageType::D1, t.to_time_scale(TimeScale::BDT)),
                ];
                for (sv, msgtype, epoch) in &list[..if *many { 4 } else { 1 }] {
                    let k = NavKey { epoch: *epoch, sv: *sv, msgtype: *msgtype, frmtype: NavFrameType::Ephemeris };
                    r.insert(k, NavFrame::EPH(Ephemeris::default()));
                }
            }
            Rinex::new(header(RinexType::NavigationData), Record::NavRecord(r))
        },
        "clock" => {
            let mut r = BTreeMap::new();
            for (t, many) in epochs {
                let mut m = BTreeMap::new();
                for p in &[1, 2, 3][..if *many { 3 } else { 1 }] {
                    let k = ClockKey { clock_type: ClockType::SV(sv(Constellation::GPS, *p)), profile_type: ClockProfileType::AS };
                    m.insert(k, ClockProfile::default());
                }
                r.insert(*t, m);
            }
            Rinex::new(header(RinexType::ClockData), Record::ClockRecord(r))
        },
        "ionex" => {
            let mut r = BTreeMap::new();
            for (t, many) in epochs {
                for l in &[10.0, 20.0, 30.0][..if *many { 3 } else { 1 }] {
                    let k = IonexKey { epoch: *t, coordinates: QuantizedCoordinates::new(*l, 1, 0.0, 1, 450.0, 1) };
                    r.insert(k, TEC::from_tecu(1.0));
                }
            }
            Rinex::new(header(RinexType::IonosphereMaps), Record::IonexRecord(r))
        },
        "doris" => {
            let mut r = BTreeMap::new();
            for (t, many) in epochs {
                for f in &[EpochFlag::Ok, EpochFlag::PowerFailure, EpochFlag::CycleSlip][..if *many { 3 } else { 1 }] {
                    let v = rinex::doris::Observations { clock: Default::default(), clock_extrapolated: false, signals: HashMap::new() };
                    r.insert(DorisKey { epoch: *t, flag: *f }, v);
                }
            }
            Rinex::new(header(RinexType::DORIS), Record::DorisRecord(r))
        },
        _ => {
            let r = epochs.iter().map(|_| (Antenna::default(), HashMap::new())).collect();
            Rinex::new(header(RinexType::AntennaData), Record::AntexRecord(r))
        },
    }
}

const S: i128 = 1_000_000_000;

fn dur(ns: i128) -> Duration {
    Duration::from_total_nanoseconds(ns)
}

/// All answers of the sampling analysis for a record whose (distinct, sorted)
/// epochs are `t0 + at[i]`.
fn check(e: &mut Exec, rnx: &Rinex, t0: Epoch, at: &[i128], declared: Option<i128>) -> R {
    let t: Vec<Epoch> = at.iter().map(|ns| t0 + dur(*ns)).collect();
    let steps: Vec<i128> = at.windows(2).map(|w| w[1] - w[0]).collect();
    let mut pops: BTreeMap<i128, usize> = BTreeMap::new();
    for s in &steps {
        *pops.entry(*s).or_insert(0) += 1;
    }
    let ns = |d: Duration| d.total_nanoseconds();
    let mut got: Vec<Epoch> = rnx.epoch_iter().collect();
    if rnx.is_navigation_rinex() {
        // (one item per message: pinned by the tests)
        got.dedup();
    }
    ensure!(got == t, "epochs: {got:?} instead of {t:?}");
    ensure!(rnx.first_epoch() == t.first().copied(), "first epoch: {:?} instead of {:?}", rnx.first_epoch(), t.first());
    ensure!(rnx.last_epoch() == t.last().copied(), "last epoch: {:?} instead of {:?}", rnx.last_epoch(), t.last());
    let want = at.last().map(|l| *l - at[0]);
    ensure!(rnx.duration().map(ns) == want, "duration: {:?} instead of {want:?} ns", rnx.duration());
    let got: Vec<(Duration, usize)> = rnx.sampling_histogram().collect();
    let mut sorted: Vec<(i128, usize)> = got.iter().map(|(d, n)| (ns(*d), *n)).collect();
    sorted.sort();
    let want: Vec<(i128, usize)> = pops.iter().map(|(d, n)| (*d, *n)).collect();
    ensure!(sorted == want, "histogram: {sorted:?} instead of {want:?}");
    let dominant = rnx.dominant_sampling_interval().map(ns);
    let max = pops.values().max();
    match (dominant, max) {
        (None, None) => {},
        (Some(d), Some(max)) => ensure!(pops.get(&d) == Some(max), "dominant interval: {d} ns, among {want:?}"),
        _ => ensure!(false, "dominant interval: {dominant:?} ns, among {want:?}"),
    }
    e.outcome(&want);
    let hz = rnx.dominant_sampling_rate_hz();
    match (dominant, hz) {
        (None, None) => {},
        (Some(d), Some(hz)) => {
            let want = 1e9 / d as f64;
            ensure!((hz - want).abs() <= want * 1e-12, "dominant rate: {hz} Hz instead of {want}");
        },
        _ => ensure!(false, "dominant rate: {hz:?} although the interval is {dominant:?}"),
    }
    if !steps.is_empty() {
        let steady = steps.iter().all(|s| *s == steps[0]);
        ensure!(rnx.steady_sampling() == steady, "steady: {} for the intervals {steps:?}", rnx.steady_sampling());
    }
    ensure!(rnx.sampling_interval().map(ns) == declared, "declared interval: {:?} instead of {declared:?}", rnx.sampling_interval());
    // gaps
    let mut tolerances: Vec<Option<i128>> = vec![None, Some(0)];
    for s in pops.keys() {
        tolerances.extend([Some(s - 1), Some(*s), Some(s + 1)]);
    }
    e.evals(tolerances.len() as u64);
    for tol in tolerances {
        let limit = tol.or(dominant).or(declared);
        let got: Vec<(Epoch, i128)> = rnx.data_gaps(tol.map(dur)).map(|(t, d)| (t, ns(d))).collect();
        let want: Vec<(Epoch, i128)> = match limit {
            Some(limit) => steps.iter().enumerate().filter(|(_, s)| **s > limit).map(|(i, s)| (t[i], *s)).collect(),
            None => vec![],
        };
        ensure!(got == want, "gaps with tolerance {tol:?}: {got:?} instead of {want:?}");
    }
    // evenly spaced series, from the first to the last epoch
    match (rnx.timeseries(), dominant) {
        (None, None) => {},
        (Some(mut series), Some(d)) => {
            let total = at.last().unwrap() - at[0];
            let n = (total / d + 1) as usize;
            // (each one for short series, both ends for long ones)
            let all: Vec<Epoch> = series.by_ref().take(200).collect();
            for (k, got) in all.iter().enumerate() {
                let want = t[0] + dur(d * k as i128);
                ensure!(*got == want, "series: item {k} is {got:?} instead of {want:?}");
            }
            let count = all.len() + if n < 10_000 { series.count() } else { n - all.len() };
            ensure!(count == n, "series: {count} items instead of {n}");
        },
        (a, b) => ensure!(false, "series: {:?} although the interval is {b:?}", a.is_some()),
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let scales = [TimeScale::GPST, TimeScale::UTC, TimeScale::GST, TimeScale::BDT, TimeScale::TAI];
    let depth = ctx.q(5, 5);
    let steps: Vec<i128> = ctx.q(vec![S / 10, S, 30 * S, 3600 * S], vec![100, S / 10, S, 15 * S, 30 * S, 3600 * S]);
    ctx.explore(
        "steps",
        "records of every type, 0.. epochs: every sequence of steps between them; one or several entries at each epoch",
        |e| {
            let kind = *e.pick(&KINDS);
            let n = e.choose(depth + 2);
            let mut at = vec![];
            let mut many = vec![];
            let mut t = 0;
            for i in 0..n {
                if i > 0 {
                    t += *e.pick(&steps);
                }
                at.push(t);
                many.push(e.flag());
                e.step();
            }
            e.note(|| format!("{kind}: epochs at {at:?} ns, several entries: {many:?}"));
            let t0 = Epoch::from_gregorian(2021, 12, 31, 23, 58, 0, 0, TimeScale::GPST);
            let epochs: Vec<(Epoch, bool)> = at.iter().zip(&many).map(|(a, m)| (t0 + dur(*a), *m)).collect();
            let rnx = build(kind, &epochs);
            let at = if kind == "antex" { vec![] } else { at };
            e.state(&(kind, &at));
            check(e, &rnx, t0, &at, None)
        },
    );
    let long = ctx.q(12, 16);
    ctx.explore(
        "patterns",
        "a rate and one larger or smaller step, at every subset of the positions of longer records; interval declared or not; time scales; starting before a leap second and before midnight",
        |e| {
            let kind = *e.pick(&["obs", "meteo", "doris", "nav", "ionex", "clock"]);
            let (a, b) = *e.pick(&[(S, 2 * S), (30 * S, 31 * S), (30 * S, 29 * S), (S / 10, S / 10 + 100)]);
            let declared = *e.pick(&[None, Some(30 * S), Some(7 * S)]);
            let ts = *e.pick(&scales);
            let t0 = match e.choose(2) {
                0 => Epoch::from_gregorian(2016, 12, 31, 23, 59, 50, 0, ts),
                _ => Epoch::from_gregorian(2021, 12, 31, 23, 59, 50, 0, ts),
            };
            let mut at = vec![0i128];
            let n = 2 + e.choose(long - 2);
            let mut mask = 0;
            // exhaustive for short records, one and two positions for long ones
            if n <= 5 {
                mask = e.choose(1 << (n - 1));
            } else {
                e.budget = 2;
                for i in 0..n - 1 {
                    mask |= e.deviate(2) << i;
                }
            }
            for i in 0..n - 1 {
                at.push(at[i] + if mask >> i & 1 == 1 { b } else { a });
                e.step();
            }
            e.note(|| format!("{kind}: epochs at {at:?} ns after {t0:?}, declared {declared:?}"));
            e.state(&(kind, &at, declared));
            let epochs: Vec<(Epoch, bool)> = at.iter().map(|a| (t0 + dur(*a), false)).collect();
            let mut rnx = build(kind, &epochs);
            rnx.header.sampling_interval = declared.map(dur);
            check(e, &rnx, t0, &at, declared)
        },
    );
    ctx.explore("long", "records of every type of 2..1025 epochs (66 sizes): one step, with an other one every so often or from some place on, two steps in equal numbers or nearly, or all different; steps from 100 ns to a year", |e| {
        let kind = *e.pick(&["obs", "crx", "meteo", "nav", "clock", "ionex", "doris"]);
        let n = *e.pick(&counts()[1..]);
        let d = 86_400 * S;
        let (a, b) = *e.pick(&[(30 * S, 60 * S), (S, d), (100, 200), (15 * S, 10 * S), (d, 365 * d), (3600 * S, 7 * d), (S / 50, 3600 * S)]);
        let pattern = e.choose(7);
        let mut at = vec![0i128];
        for i in 0..n - 1 {
            let other = match pattern {
                0 => false,
                1 => i % 7 == 6,
                2 => i % 2 == 1,
                3 => i >= n / 2,
                4 => i < n / 2,
                5 => i == n - 2,
                _ => false,
            };
            let step = if other { b } else { a };
            // (all different: up to 40 of them)
            let step = if pattern == 6 { a * (1 + (i as i128 % 40)) } else { step };
            at.push(at[i] + step);
            e.step();
        }
        let t0 = Epoch::from_gregorian(2021, 12, 31, 23, 59, 50, 0, if kind == "meteo" { TimeScale::UTC } else { TimeScale::GPST });
        // (far epochs: years after the first, well within what epochs hold)
        if at[n - 1] > 400 * 365 * d {
            e.trivial();
            return Ok(());
        }
        e.note(|| format!("{kind}: {n} epochs, pattern {pattern} of {a} and {b} ns"));
        e.state(&(kind, n, pattern, a));
        let epochs: Vec<(Epoch, bool)> = at.iter().enumerate().map(|(i, a)| (t0 + dur(*a), i % 5 == 3)).collect();
        let rnx = build(kind, &epochs);
        check(e, &rnx, t0, &at, None)
    });
    let grid_len = ctx.q(8, 12);
    ctx.explore("read", "observation and meteo files of every subset of a regular grid of epochs, read from text; events between the epochs", |e| {
        use crate::model::obs::*;
        let crx = *e.pick(&["2", "3", "met", "clk"]);
        let n = grid_len;
        // (observations need a first epoch to tell their time scale)
        let first = if crx == "met" { 0 } else { 1 };
        let mask = first + e.choose((1 << n) - first);
        let grid: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
        let t = |i: usize| MTime(2021, 12, 31, 23, 56 + (i / 2) as u8, 300_000_000 * (i as u32 % 2));
        let at: Vec<i128> = grid.iter().map(|i| (*i - grid[0]) as i128 * 30 * S).collect();
        let (text, ts) = match crx {
            "met" => {
                let m = crate::model::met::MMet {
                    version: "3.05",
                    codes: vec!["PR", "TD"],
                    epochs: grid.iter().map(|i| (t(*i), vec![Some(10_000), Some(200)])).collect(),
                };
                (m.text(0), TimeScale::UTC)
            },
            "clk" => {
                let entry = |t: MTime, p: u8| crate::model::clk::MClk { kind: "AS", name: crate::model::clk::Name::Sat('G', p), t, vals: vec![(1, -6)] };
                let m = crate::model::clk::MClkFile { version: "3.00", sys: 'G', scale: Some("GPS"), entries: grid.iter().flat_map(|i| [entry(t(*i), 1), entry(t(*i), 2)]).collect() };
                (m.header() + &m.entries.iter().map(|c| m.lines(c).join("\n") + "\n").collect::<String>(), TimeScale::GPST)
            },
            v => {
                let mut f = crate::samples::obs_file(v == "3", false);
                let shape = f.epochs[0].clone();
                f.epochs = grid.iter().map(|i| MEpoch { t: t(*i), ..shape.clone() }).collect();
                (f.text(0), f.ts())
            },
        };
        e.note(|| text.clone());
        let rnx = match parse_str(&text) {
            Ok(r) => r,
            Err(err) => return Err(Fail::from(format!("not read: {err:?}"))),
        };
        e.state(&(crx, mask));
        e.validated();
        let t0 = grid.first().map(|i| t(*i)).unwrap_or(t(0)).epoch(ts);
        let declared = rnx.header.sampling_interval.map(|d| d.total_nanoseconds());
        check(e, &rnx, t0, &at, declared)
    });
}
