//! P26: signal combinations, difference of two files.
use super::sampling::header;
use crate::engine::*;
use crate::ensure;
use rinex::doris::{DorisKey, SignalKey};
use rinex::observation::{ClockObservation, Combination, CombinationKey, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR};
use rinex::prelude::*;
use rinex::record::Record;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

const C: f64 = 299_792_458.0;
const ALL: [Combination; 5] = [
    Combination::GeometryFree,
    Combination::IonosphereFree,
    Combination::WideLane,
    Combination::NarrowLane,
    Combination::MelbourneWubbena,
];

pub fn sv(s: &str) -> SV {
    SV::from_str(s).unwrap()
}
pub fn obs(s: &str) -> Observable {
    Observable::from_str(s).unwrap()
}
pub fn t(i: u64) -> Epoch {
    Epoch::from_gregorian(2022, 6, 30, 23, 59, 0, 0, TimeScale::GPST) + Duration::from_seconds(i as f64)
}

/// code, frequency [MHz] and band of reference?
pub type Code = (&'static str, f64, bool);

/// Signals of each system: the band of reference first.
pub const SYSTEMS: [(&str, &[Code]); 6] = [
    ("G07", &[("1C", 1575.42, true), ("1W", 1575.42, true), ("2W", 1227.60, false), ("2L", 1227.60, false), ("5Q", 1176.45, false)]),
    ("R03", &[("1C", 1602.0, true), ("1P", 1602.0, true), ("2C", 1246.0, false), ("2P", 1246.0, false), ("3X", 1202.025, false)]),
    ("E11", &[("1C", 1575.42, true), ("1X", 1575.42, true), ("5Q", 1176.45, false), ("7Q", 1207.14, false), ("8Q", 1191.795, false), ("6C", 1278.75, false)]),
    ("C21", &[("2I", 1561.098, true), ("1P", 1575.42, true), ("7I", 1207.14, false), ("5P", 1176.45, false), ("6I", 1268.52, false), ("1S", 1575.42, true)]),
    ("J02", &[("1C", 1575.42, true), ("1X", 1575.42, true), ("2L", 1227.60, false), ("5X", 1176.45, false), ("6Z", 1278.75, false)]),
    ("S23", &[("1C", 1575.42, true), ("5I", 1176.45, false), ("5X", 1176.45, false)]),
];

/// Signals of the former revisions.
const V2: [(&str, &str, f64, bool); 7] = [
    ("G07", "C1", 1575.42, true),
    ("G07", "P1", 1575.42, true),
    ("G07", "L1", 1575.42, true),
    ("G07", "C2", 1227.60, false),
    ("G07", "P2", 1227.60, false),
    ("G07", "L2", 1227.60, false),
    ("G07", "L5", 1176.45, false),
];

#[derive(Clone, Debug)]
pub struct Sig {
    pub key: ObsKey,
    pub sv: String,
    /// full code
    pub code: String,
    pub freq: f64,
    pub reference: bool,
    pub value: f64,
}

pub fn record(list: &[Sig]) -> BTreeMap<ObsKey, Observations> {
    let mut rec = BTreeMap::<ObsKey, Observations>::new();
    for s in list {
        let o = rec.entry(s.key).or_default();
        o.signals.push(SignalObservation::new(sv(&s.sv), obs(&s.code), s.value));
    }
    rec
}

/// The combinations that can be formed: for each pair of signals of the
/// same kind, instant, satellite, one of them in the band of reference.
fn oracle(list: &[Sig], c: Combination) -> Vec<(ObsKey, String, String, String, f64)> {
    let mut ret = Vec::new();
    let kind = |s: &Sig| match s.code.as_bytes()[0] {
        b'L' => 'L',
        b'C' | b'P' => 'C',
        _ => ' ',
    };
    for r in list {
        for v in list {
            if r.key != v.key || r.sv != v.sv || !r.reference || v.reference || kind(r) != kind(v) || kind(r) == ' ' {
                continue;
            }
            let (f1, f2) = (r.freq * 1.0E6, v.freq * 1.0E6);
            let range = |s: &Sig| if kind(s) == 'L' { s.value * C / (s.freq * 1.0E6) } else { s.value };
            let (a, b) = (range(r), range(v));
            let value = match c {
                Combination::GeometryFree => {
                    if kind(r) == 'L' {
                        a - b
                    } else {
                        b - a
                    }
                },
                Combination::IonosphereFree => (f1 * f1 * a - f2 * f2 * b) / (f1 * f1 - f2 * f2),
                Combination::WideLane => (f1 * a - f2 * b) / (f1 - f2),
                Combination::NarrowLane => (f1 * a + f2 * b) / (f1 + f2),
                Combination::MelbourneWubbena => {
                    if kind(r) != 'L' || r.code.len() != 3 || v.code.len() != 3 {
                        continue;
                    }
                    let range_of = |s: &Sig| {
                        let code = format!("C{}", &s.code[1..]);
                        list.iter().find(|o| o.key == s.key && o.sv == s.sv && o.code == code).map(|o| o.value)
                    };
                    let (Some(p1), Some(p2)) = (range_of(r), range_of(v)) else {
                        continue;
                    };
                    (f1 * a - f2 * b) / (f1 - f2) - (f1 * p1 + f2 * p2) / (f1 + f2)
                },
            };
            ret.push((r.key, r.sv.clone(), v.code.clone(), r.code.clone(), value));
        }
    }
    ret
}

fn compare(e: &mut Exec, rnx: &Rinex, list: &[Sig]) -> R {
    for c in ALL {
        let want = oracle(list, c);
        e.outcome(&format!("{c}: {} values", want.len()));
        let mut got = no_panic("combination", || rnx.signals_combination(c))?;
        e.step();
        for (key, s, lhs, reference, want) in want {
            let k = CombinationKey { epoch: key.epoch, flag: key.flag, sv: sv(&s), lhs: obs(&lhs), reference: obs(&reference) };
            let Some(v) = got.remove(&k) else {
                return Err(Fail::from(format!("{c}: {s} {lhs} against {reference} at {} {:?}: no value", key.epoch, key.flag)));
            };
            ensure!((v - want).abs() < 1.0E-5, "{c}: {s} {lhs} against {reference} at {} {:?}: {v} instead of {want}", key.epoch, key.flag);
            e.evals(1);
        }
        ensure!(
            got.is_empty(),
            "{c}: {} value(s) that no pair of signals yields, like {:?}",
            got.len(),
            got.iter().next()
        );
    }
    e.validated();
    Ok(())
}

fn value(i: usize, variant: usize) -> f64 {
    match variant {
        0 => 20_000_000.125 + 1_234_567.5 * (i * i) as f64 + 0.25 * i as f64,
        // a phase may pass through zero
        1 => -3.5 * (i as f64 - 1.0),
        _ => 100_000_000.0 + 7.125 * i as f64,
    }
}

/// k-th order of n items
pub fn order<T: Clone>(list: &[T], mut k: usize) -> Vec<T> {
    let mut left = list.to_vec();
    let mut ret = Vec::new();
    while !left.is_empty() {
        let n = left.len();
        ret.push(left.remove(k % n));
        k /= n;
    }
    ret
}
fn factorial(n: usize) -> usize {
    (1..=n).product::<usize>().max(1)
}

pub fn rinex_of(rec: BTreeMap<ObsKey, Observations>, interval: Option<Duration>) -> Rinex {
    let mut h = header(RinexType::ObservationData);
    h.sampling_interval = interval;
    Rinex::new(h, Record::ObsRecord(rec))
}

pub fn run(ctx: &mut Ctx) {
    let one = ObsKey { epoch: t(0), flag: EpochFlag::Ok };

    ctx.explore("presence patterns", "all subsets of the phases and pseudo ranges of all bands of each system, in both orders", |e| {
        let (s, codes) = *e.pick(&SYSTEMS);
        let variant = e.choose(3);
        let mut list = Vec::new();
        for kind in ["C", "L"] {
            for (code, freq, reference) in codes {
                if e.flag() {
                    list.push(Sig { key: one, sv: s.to_string(), code: format!("{kind}{code}"), freq: *freq, reference: *reference, value: value(list.len() + 1, variant) });
                }
            }
        }
        if list.len() > 1 && e.flag() {
            list.reverse();
        }
        let rnx = rinex_of(record(&list), None);
        compare(e, &rnx, &list)
    });

    let width = ctx.q(6, 7);
    ctx.explore("orders", "all orders of all selections of signals (two references, other bands, other kinds), of one satellite and of two", |e| {
        let (s, codes) = SYSTEMS[[0, 2, 3][e.choose(3)]];
        let n = width;
        let mut all = Vec::new();
        for (i, (code, freq, reference)) in codes.iter().enumerate() {
            let kinds: &[&str] = if i == 0 || i == 2 { &["L", "C"] } else { &["L"] };
            for kind in kinds {
                all.push((format!("{kind}{code}"), *freq, *reference));
            }
        }
        all.push((format!("S{}", codes[0].0), codes[0].1, true));
        all.push((format!("D{}", codes[2].0), codes[2].1, false));
        // n of these
        let mut list: Vec<Sig> = Vec::new();
        let mut from = 0;
        for i in 0..n {
            let room = all.len() - from - (n - i - 1);
            let j = from + e.choose(room);
            let (code, freq, reference) = all[j].clone();
            list.push(Sig { key: one, sv: s.to_string(), code, freq, reference, value: value(j, 0) });
            from = j + 1;
        }
        let list = order(&list, e.choose(factorial(n)));
        let rnx = rinex_of(record(&list), None);
        compare(e, &rnx, &list)
    });

    let both = ctx.q(0, 1) == 1;
    ctx.explore("histories", "all presence patterns of two phases and pseudo ranges over several epochs, two event flags, steady or with gaps, sampling declared or not", |e| {
        let interval = *e.pick(&[None, Some(1.0), Some(30.0)]);
        let mut list = Vec::new();
        let mut at = 0;
        let epochs = if both && e.flag() { 2 } else { 3 };
        for i in 0..epochs {
            let (step, flag) = if i == 0 {
                (0, EpochFlag::Ok)
            } else {
                *e.pick(&[
                    (30, EpochFlag::Ok),
                    (30, EpochFlag::PowerFailure),
                    // same instant, other flag
                    (0, EpochFlag::CycleSlip),
                    (3000, EpochFlag::Ok),
                ])
            };
            at += step;
            let key = ObsKey { epoch: t(at), flag };
            if list.iter().any(|s: &Sig| s.key == key) {
                e.trivial();
                return Ok(());
            }
            for s in ["G07", "G08"] {
                let full = s == "G07" || epochs == 2;
                for (code, freq, reference) in [("L1C", 1575.42, true), ("L2W", 1227.60, false), ("C1C", 1575.42, true), ("C2W", 1227.60, false)] {
                    // (the other satellite: one pattern out of two)
                    let present = if full || code == "L1C" { e.flag() } else { i % 2 == 0 || code != "C2W" };
                    if present {
                        list.push(Sig { key, sv: s.to_string(), code: code.to_string(), freq, reference, value: value(list.len() + 1, 0) });
                    }
                }
            }
        }
        let rnx = rinex_of(record(&list), interval.map(Duration::from_seconds));
        compare(e, &rnx, &list)
    });

    ctx.explore("satellites", "all presence patterns of a reference and another band (phase and pseudo range) of satellites of several systems in one epoch", |e| {
        let mut list = Vec::new();
        let n = e.choose(3) + 2;
        for (s, codes) in [SYSTEMS[0], ("G08", SYSTEMS[0].1), SYSTEMS[2], SYSTEMS[1]].iter().take(n) {
            for kind in ["L", "C"] {
                for i in [0, 2] {
                    let (code, freq, reference) = codes[i];
                    if kind == "L" || i == 0 {
                        if !e.flag() {
                            continue;
                        }
                    }
                    list.push(Sig { key: one, sv: s.to_string(), code: format!("{kind}{code}"), freq, reference, value: value(list.len() + 1, 0) });
                }
            }
        }
        // grouped by satellite, or by observable
        if e.flag() {
            list.sort_by(|a, b| a.code.cmp(&b.code));
        }
        let rnx = rinex_of(record(&list), None);
        compare(e, &rnx, &list)
    });

    ctx.explore("two letter codes", "all subsets of the signals of the former revisions", |e| {
        let mut list = Vec::new();
        for (s, code, freq, reference) in V2 {
            if e.flag() {
                list.push(Sig { key: one, sv: s.to_string(), code: code.to_string(), freq, reference, value: value(list.len() + 1, 0) });
            }
        }
        if e.flag() {
            list.reverse();
        }
        let rnx = rinex_of(record(&list), None);
        compare(e, &rnx, &list)
    });

    ctx.explore("difference, observations", "all presence patterns of two epochs (or flags), two satellites, two observables on both sides", |e| {
        let second = *e.pick(&[ObsKey { epoch: t(30), flag: EpochFlag::Ok }, ObsKey { epoch: t(0), flag: EpochFlag::CycleSlip }]);
        let mut sides = Vec::new();
        for side in 0..2 {
            let mut rec = BTreeMap::<ObsKey, Observations>::new();
            for (i, key) in [one, second].iter().enumerate() {
                for (j, (s, o)) in [("G01", "C1C"), ("G01", "L1C"), ("G02", "C1C"), ("E01", "C1C")].iter().enumerate() {
                    if i == 1 && j == 3 {
                        continue;
                    }
                    if e.flag() {
                        let v = SignalObservation {
                            sv: sv(s),
                            observable: obs(o),
                            value: [1000.5, 7.25][side] * (1 + i * 10 + j) as f64,
                            lli: if side == 0 { Some(LliFlags::LOCK_LOSS) } else { None },
                            snr: if side == 0 { None } else { Some(SNR::from(7)) },
                        };
                        let o = rec.entry(*key).or_default();
                        if side == 1 {
                            // other order
                            o.signals.insert(0, v);
                        } else {
                            o.signals.push(v);
                            o.clock = Some(ClockObservation::default());
                        }
                    }
                }
            }
            sides.push(rec);
        }
        let (a, b) = (rinex_of(sides[0].clone(), None), rinex_of(sides[1].clone(), Some(Duration::from_seconds(30.0))));
        let mut want = sides[0].clone();
        for (k, o) in want.iter_mut() {
            for s in o.signals.iter_mut() {
                let rhs: Option<f64> = sides[1].get(k).and_then(|o| o.signals.iter().find(|r| r.sv == s.sv && r.observable == s.observable)).map(|r| r.value);
                if let Some(rhs) = rhs {
                    s.value = s.value - rhs;
                    e.evals(1);
                }
            }
        }
        let got = no_panic("difference", || a.observation_substract(&b))?;
        e.step();
        ensure!(got.header == a.header, "header: {:?} instead of {:?}", got.header, a.header);
        ensure!(got.record.as_obs() == Some(&want), "difference: {:?} instead of {want:?}", got.record.as_obs());
        let mut got = a.clone();
        no_panic("difference", || got.observation_substract_mut(&b))?;
        ensure!(got.record.as_obs() == Some(&want), "difference in place: {:?} instead of {want:?}", got.record.as_obs());
        e.validated();
        Ok(())
    });

    ctx.explore("difference, meteo and DORIS", "all presence patterns of two epochs, two or three items on both sides", |e| {
        let doris = e.flag();
        let mut present = Vec::new();
        for _ in 0..2 {
            present.push((0..6).map(|_| e.flag()).collect::<Vec<_>>());
        }
        let value = |side: usize, i: usize| [1000.5, 7.25][side] * (1 + i) as f64;
        let same = |i: usize| present[0][i] && present[1][i];
        if doris {
            let side = |side: usize| {
                let mut rec = BTreeMap::new();
                for i in 0..6 {
                    if present[side][i] {
                        let k = DorisKey { epoch: t(30 * (i / 3) as u64), flag: if i < 3 { EpochFlag::Ok } else { EpochFlag::CycleSlip } };
                        let o = rec.entry(k).or_insert_with(|| rinex::doris::Observations { clock: Default::default(), clock_extrapolated: false, signals: HashMap::new() });
                        let station = |name: &str, k: usize| Station::from_str(&format!("D{k:02}  {name} {:29} 10001S0{k:02}  3   0", "SITE")).unwrap();
                        let (s, c) = [(station("THUB", 1), "C1"), (station("THUB", 1), "L1"), (station("SVBC", 2), "C1")][i % 3].clone();
                        let v = rinex::doris::SignalObservation { value: value(side, i), m1: None, m2: None };
                        o.signals.insert(SignalKey { station: s, observable: obs(c) }, v);
                    }
                }
                Rinex::new(header(RinexType::DORIS), Record::DorisRecord(rec))
            };
            let (a, b) = (side(0), side(1));
            let got = no_panic("difference", || a.observation_substract(&b))?;
            let (Some(got), Some(raw)) = (got.record.as_doris(), a.record.as_doris()) else {
                return Err(Fail::from("not a DORIS record".to_string()));
            };
            let flat = |r: &BTreeMap<DorisKey, rinex::doris::Observations>| {
                let mut v: Vec<(String, f64)> = r
                    .iter()
                    .flat_map(|(k, o)| o.signals.iter().map(move |(s, v)| (format!("{k:?} {} {}", s.station.label, s.observable), v.value)))
                    .collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                v
            };
            let (got, raw) = (flat(got), flat(raw));
            ensure!(got.len() == raw.len(), "difference: {got:?} of {raw:?}");
            for (g, r) in got.iter().zip(raw.iter()) {
                let i = (0..6).find(|i| value(0, *i) == r.1).unwrap();
                let want = if same(i) { r.1 - value(1, i) } else { r.1 };
                ensure!(g.0 == r.0 && g.1 == want, "difference: {g:?} instead of {want}");
                e.evals(1);
            }
        } else {
            let key = |i: usize| MeteoKey { epoch: t(30 * (i / 3) as u64), observable: obs(["PR", "TD", "HR"][i % 3]) };
            let side = |side: usize| {
                let rec: BTreeMap<MeteoKey, f64> = (0..6).filter(|i| present[side][*i]).map(|i| (key(i), value(side, i))).collect();
                Rinex::new(header(RinexType::MeteoData), Record::MeteoRecord(rec))
            };
            let (a, b) = (side(0), side(1));
            let got = no_panic("difference", || a.observation_substract(&b))?;
            let want: BTreeMap<MeteoKey, f64> =
                (0..6).filter(|i| present[0][*i]).map(|i| (key(i), if same(i) { value(0, i) - value(1, i) } else { value(0, i) })).collect();
            ensure!(got.record.as_meteo() == Some(&want), "difference: {:?} instead of {want:?}", got.record.as_meteo());
            e.evals(1);
        }
        e.step();
        e.validated();
        Ok(())
    });

    ctx.explore("difference, other files", "all pairs of file types: nothing to differentiate", |e| {
        let kinds = [RinexType::ObservationData, RinexType::MeteoData, RinexType::DORIS, RinexType::NavigationData, RinexType::ClockData];
        let make = |k: RinexType| {
            let rec = match k {
                RinexType::ObservationData => {
                    Record::ObsRecord(record(&[Sig { key: one, sv: "G01".into(), code: "C1C".into(), freq: 0.0, reference: true, value: 1.5 }]))
                },
                RinexType::MeteoData => Record::MeteoRecord(BTreeMap::from([(MeteoKey { epoch: t(0), observable: obs("PR") }, 2.5)])),
                RinexType::DORIS => Record::DorisRecord(Default::default()),
                RinexType::NavigationData => Record::NavRecord(Default::default()),
                _ => Record::ClockRecord(Default::default()),
            };
            Rinex::new(header(k), rec)
        };
        let (i, j) = (e.choose(kinds.len()), e.choose(kinds.len()));
        if i == j {
            e.trivial();
            return Ok(());
        }
        let (a, b) = (make(kinds[i]), make(kinds[j]));
        let got = no_panic("difference", || a.observation_substract(&b))?;
        ensure!(got.record == a.record, "{:?} minus {:?}: {:?}", kinds[i], kinds[j], got.record);
        e.step();
        Ok(())
    });
}
