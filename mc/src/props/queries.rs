//! P25: iterators and queries over a record.
use super::sampling::header;
use crate::engine::*;
use crate::ensure;
use rinex::clock::*;
use rinex::doris::{DorisKey, SignalKey};
use rinex::navigation::*;
use rinex::observation::{ClockObservation, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR};
use rinex::prelude::*;
use rinex::record::Record;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::str::FromStr;

const FLAGS: [EpochFlag; 7] = [
    EpochFlag::Ok,
    EpochFlag::PowerFailure,
    EpochFlag::AntennaBeingMoved,
    EpochFlag::NewSiteOccupation,
    EpochFlag::HeaderInformationFollows,
    EpochFlag::ExternalEvent,
    EpochFlag::CycleSlip,
];

fn t(i: usize) -> Epoch {
    Epoch::from_gregorian(2021, 12, 31, 23, 58 + (i / 2) as u8, 30 * (i as u8 % 2), 0, TimeScale::GPST)
}
fn sv(s: &str) -> SV {
    SV::from_str(s).unwrap()
}
fn obs(s: &str) -> Observable {
    Observable::from_str(s).unwrap()
}
/// Same items, in the same order.
fn same<T: PartialEq + Debug>(what: &str, got: Vec<T>, want: Vec<T>) -> R {
    ensure!(got == want, "{what}: {got:?} instead of {want:?}");
    Ok(())
}
/// The distinct items, once each, in any order.
fn unique<T: PartialEq + Debug>(what: &str, got: Vec<T>, want: Vec<T>) -> R {
    for (i, a) in got.iter().enumerate() {
        ensure!(!got[..i].contains(a), "{what}: {a:?} is repeated in {got:?}");
        ensure!(want.contains(a), "{what}: {a:?} is not in the record");
    }
    for w in &want {
        ensure!(got.contains(w), "{what}: {w:?} is missing in {got:?}");
    }
    Ok(())
}

/// satellite, observable, kind, code, carrier
const SIGNALS: [(&str, &str, char, &str, Option<Carrier>); 14] = [
    ("G01", "C1C", 'C', "1C", Some(Carrier::L1)),
    ("G01", "L1C", 'L', "1C", Some(Carrier::L1)),
    ("G01", "L2W", 'L', "2W", Some(Carrier::L2)),
    ("R24", "L1P", 'L', "1P", Some(Carrier::G1(None))),
    ("E05", "C5Q", 'C', "5Q", Some(Carrier::E5a)),
    ("E05", "S1C", 'S', "1C", None),
    ("G01", "D1C", 'D', "1C", Some(Carrier::L1)),
    ("C03", "L2I", 'L', "2I", Some(Carrier::B1I)),
    ("S23", "C1C", 'C', "1C", Some(Carrier::L1)),
    ("J02", "L5X", 'L', "5X", Some(Carrier::L5)),
    ("E05", "L5Q", 'L', "5Q", Some(Carrier::E5a)),
    ("G02", "S2W", 'S', "2W", None),
    ("R24", "D2C", 'D', "2C", Some(Carrier::G2(None))),
    ("I06", "C5A", 'C', "5A", Some(Carrier::L5)),
];

#[derive(Clone, Debug)]
struct Sig {
    /// in SIGNALS
    of: usize,
    value: f64,
    lli: Option<u8>,
    snr: Option<u8>,
}
impl Sig {
    fn real(&self) -> SignalObservation {
        let (s, o, ..) = SIGNALS[self.of];
        let mut v = SignalObservation::new(sv(s), obs(o), self.value);
        v.lli = self.lli.map(LliFlags::from_bits_truncate);
        v.snr = self.snr.map(SNR::from);
        v
    }
    fn kind(&self) -> char {
        SIGNALS[self.of].2
    }
}
#[derive(Clone, Debug)]
struct Ep {
    at: usize,
    flag: usize,
    clock: Option<f64>,
    sigs: Vec<Sig>,
}
impl Ep {
    fn key(&self) -> ObsKey {
        ObsKey { epoch: t(self.at), flag: FLAGS[self.flag] }
    }
    fn clock(&self) -> Option<ClockObservation> {
        self.clock.map(|c| ClockObservation::default().with_offset_s(t(self.at), c))
    }
}
fn obs_rinex(eps: &[Ep]) -> Rinex {
    let r = eps.iter().map(|e| (e.key(), Observations { clock: e.clock(), signals: e.sigs.iter().map(Sig::real).collect() })).collect();
    Rinex::new(header(RinexType::ObservationData), Record::ObsRecord(r))
}
/// Every query of observation RINEX; `eps` is sorted by epoch and flag.
fn check_obs(e: &mut Exec, rnx: &Rinex, eps: &[Ep]) -> R {
    let all: Vec<(ObsKey, &Sig)> = eps.iter().flat_map(|p| p.sigs.iter().map(move |s| (p.key(), s))).collect();
    let real: Vec<(ObsKey, SignalObservation)> = all.iter().map(|(k, s)| (*k, s.real())).collect();
    let select = |f: &dyn Fn(&ObsKey, &Sig) -> bool| -> Vec<(ObsKey, SignalObservation)> {
        all.iter().zip(&real).filter(|((k, s), _)| f(k, s)).map(|(_, r)| r.clone()).collect()
    };
    let at = |v: Vec<(ObsKey, SignalObservation)>| -> Vec<(Epoch, SignalObservation)> { v.into_iter().map(|(k, s)| (k.epoch, s)).collect() };
    let own = |v: Box<dyn Iterator<Item = (ObsKey, &SignalObservation)> + '_>| -> Vec<(ObsKey, SignalObservation)> { v.map(|(k, s)| (k, s.clone())).collect() };
    let own_at = |v: Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_>| -> Vec<(Epoch, SignalObservation)> { v.map(|(k, s)| (k, s.clone())).collect() };
    e.evals(20);
    same("observation_keys", rnx.observation_keys().copied().collect(), eps.iter().map(Ep::key).collect())?;
    same(
        "observations_iter",
        rnx.observations_iter().map(|(k, v)| (*k, v.clock, v.signals.clone())).collect(),
        eps.iter().map(|p| (p.key(), p.clock(), p.sigs.iter().map(Sig::real).collect())).collect(),
    )?;
    same("signal_observations_iter", own(rnx.signal_observations_iter()), real.clone())?;
    same(
        "clock_observations_iter",
        rnx.clock_observations_iter().collect(),
        eps.iter().filter_map(|p| Some((p.key(), p.clock()?))).collect(),
    )?;
    same("pseudo_range_observations_iter", own(rnx.pseudo_range_observations_iter()), select(&|_, s| s.kind() == 'C'))?;
    same("phase_range_observations_iter", own(rnx.phase_range_observations_iter()), select(&|_, s| s.kind() == 'L'))?;
    same("doppler_observations_iter", own(rnx.doppler_observations_iter()), select(&|_, s| s.kind() == 'D'))?;
    same("ssi_observations_iter", own(rnx.ssi_observations_iter()), select(&|_, s| s.kind() == 'S'))?;
    let ok = |k: &ObsKey| k.flag == EpochFlag::Ok;
    same("signal_observations_sampling_ok_iter", own_at(rnx.signal_observations_sampling_ok_iter()), at(select(&|k, _| ok(k))))?;
    same("pseudo_range_sampling_ok_iter", own_at(rnx.pseudo_range_sampling_ok_iter()), at(select(&|k, s| ok(k) && s.kind() == 'C')))?;
    same("phase_range_sampling_ok_iter", own_at(rnx.phase_range_sampling_ok_iter()), at(select(&|k, s| ok(k) && s.kind() == 'L')))?;
    // (anti spoofing alone: tracking is neither said good nor bad)
    let open = |s: &SignalObservation| s.lli.map(|l| l.bits()) == Some(4);
    let drop_open = |v: Vec<(Epoch, SignalObservation)>| -> Vec<(Epoch, SignalObservation)> { v.into_iter().filter(|(_, s)| !open(s)).collect() };
    same(
        "phase_range_tracking_ok_iter",
        drop_open(own_at(rnx.phase_range_tracking_ok_iter())),
        drop_open(at(select(&|k, s| ok(k) && s.kind() == 'L' && s.lli.unwrap_or(0) & 3 == 0))),
    )?;
    same("phase_cycle_slip_events", own(rnx.phase_cycle_slip_events()), select(&|_, s| s.kind() == 'L' && s.lli.unwrap_or(0) & 1 != 0))?;
    same(
        "phase_half_full_cycle_slip_events",
        own(rnx.phase_half_full_cycle_slip_events()),
        select(&|_, s| s.kind() == 'L' && s.lli.unwrap_or(0) & 3 != 0),
    )?;
    same(
        "epoch_anomalies",
        rnx.epoch_anomalies().copied().collect(),
        eps.iter().map(Ep::key).filter(|k| k.flag != EpochFlag::Ok).collect(),
    )?;
    unique("sv_iter", rnx.sv_iter().collect(), all.iter().map(|(_, s)| sv(SIGNALS[s.of].0)).collect())?;
    unique("constellations_iter", rnx.constellations_iter().collect(), all.iter().map(|(_, s)| sv(SIGNALS[s.of].0).constellation).collect())?;
    unique("observables_iter", rnx.observables_iter().cloned().collect(), all.iter().map(|(_, s)| obs(SIGNALS[s.of].1)).collect())?;
    unique("signal_code_iter", rnx.signal_code_iter().collect(), all.iter().map(|(_, s)| SIGNALS[s.of].3.to_string()).collect())?;
    // (whether a signal strength has a carrier is not specified)
    let strength: Vec<Carrier> =
        all.iter().filter(|(_, s)| s.kind() == 'S').filter_map(|(_, s)| Carrier::from_observable(sv(SIGNALS[s.of].0).constellation, &obs(SIGNALS[s.of].1)).ok()).collect();
    let want: Vec<Carrier> = all.iter().filter_map(|(_, s)| SIGNALS[s.of].4).collect();
    let got: Vec<Carrier> = rnx.carrier_iter().filter(|c| want.contains(c) || !strength.contains(c)).collect();
    unique("carrier_iter", got, want)?;
    let mut epochs: Vec<Epoch> = eps.iter().map(|p| t(p.at)).collect();
    epochs.dedup();
    same("epoch_iter", rnx.epoch_iter().collect(), epochs)?;
    e.outcome(&(real.len(), eps.len()));
    Ok(())
}
/// A mask keeps the phases that have one of its flags, and whatever is not a phase.
fn check_masks(e: &mut Exec, rnx: &Rinex, eps: &[Ep]) -> R {
    for mask in 1..8u8 {
        e.evals(1);
        let m = LliFlags::from_bits_truncate(mask);
        let got = rnx.observation_phase_tracking_lli_masking(m);
        let mut other = rnx.clone();
        other.observation_phase_tracking_lli_masking_mut(m);
        ensure!(other.record == got.record, "masking in place and by copy differ");
        // (epochs that are left without signals may be removed)
        let want: Vec<_> = eps
            .iter()
            .map(|p| {
                let sigs: Vec<SignalObservation> =
                    p.sigs.iter().filter(|s| s.kind() != 'L' || s.lli.unwrap_or(0) & mask != 0).map(Sig::real).collect();
                (p.key(), p.clock(), sigs)
            })
            .filter(|x| !x.2.is_empty())
            .collect();
        let got = got.observations_iter().filter(|(_, v)| !v.signals.is_empty()).map(|(k, v)| (*k, v.clock, v.signals.clone())).collect();
        same(&format!("mask {mask}"), got, want)?;
    }
    Ok(())
}
/// What is changed through a mutable iterator is changed in the record.
fn check_mut(e: &mut Exec, rnx: &Rinex, eps: &[Ep]) -> R {
    e.evals(3);
    let bump = |f: &dyn Fn(&mut Ep)| -> Vec<Ep> {
        let mut v = eps.to_vec();
        v.iter_mut().for_each(f);
        v
    };
    let mut a = rnx.clone();
    let mut visited = vec![];
    for (k, s) in a.signal_observations_iter_mut() {
        visited.push(k);
        s.value += 1.0;
    }
    same("signal_observations_iter_mut", visited, eps.iter().flat_map(|p| p.sigs.iter().map(move |_| p.key())).collect())?;
    ensure!(a.record == obs_rinex(&bump(&|p| p.sigs.iter_mut().for_each(|s| s.value += 1.0))).record, "signal_observations_iter_mut");
    let mut a = rnx.clone();
    for (_, c) in a.clock_observations_iter_mut() {
        c.offset_s *= 2.0;
    }
    ensure!(a.record == obs_rinex(&bump(&|p| p.clock = p.clock.map(|c| c * 2.0))).record, "clock_observations_iter_mut");
    let mut a = rnx.clone();
    for (_, o) in a.observations_iter_mut() {
        o.signals.clear();
    }
    ensure!(a.record == obs_rinex(&bump(&|p| p.sigs.clear())).record, "observations_iter_mut");
    Ok(())
}

fn observation(ctx: &mut Ctx) {
    let lli = [None, Some(0), Some(1), Some(2), Some(4), Some(6), Some(7)];
    let n = ctx.q(7, 9);
    ctx.explore(
        "observation",
        "two epochs, every subset of the signals in each, both orders; epoch flags, one instant with two flags, clocks",
        |e| {
            let plan = *e.pick(&[(0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 1, 6), (0, 1, 1, 0), (0, 2, 1, 5), (0, 3, 0, 4)]);
            let clocks = e.choose(3);
            let reversed = e.flag();
            let masks = [e.choose(1 << n), e.choose(1 << n)];
            let mut eps = vec![];
            for (i, (at, flag)) in [(plan.0, plan.1), (plan.2, plan.3)].into_iter().enumerate() {
                let mut sigs: Vec<Sig> = (0..n)
                    .filter(|b| masks[i] >> b & 1 == 1)
                    .map(|b| {
                        let of = if i == 0 { b } else { SIGNALS.len() - 1 - b };
                        Sig { of, value: (10 * i + b) as f64, lli: lli[(b * 3 + i) % lli.len()], snr: [None, Some(4), Some(5), Some(9)][(b + i) % 4] }
                    })
                    .collect();
                if reversed {
                    sigs.reverse();
                }
                eps.push(Ep { at, flag, clock: if clocks > i { Some(1e-3 * (i + 1) as f64) } else { None }, sigs });
                e.step();
            }
            e.note(|| format!("{eps:?}"));
            e.state(&format!("{eps:?}"));
            let rnx = obs_rinex(&eps);
            check_obs(e, &rnx, &eps)
        },
    );
    ctx.explore(
        "flags of signals",
        "up to two epochs of up to two signals: every lock indicator (or none), strength, epoch flag; masks; mutable iterators",
        |e| {
            let shape = *e.pick(&[(0, 0), (1, 0), (2, 0), (1, 1)]);
            let mut eps = vec![];
            for (i, n) in [shape.0, shape.1].into_iter().enumerate() {
                if n == 0 {
                    continue;
                }
                let flag = if i == 0 { e.choose(7) } else { e.choose(2) };
                let clock = if e.flag() { Some(1e-6) } else { None };
                let mut sigs = vec![];
                for j in 0..n {
                    let of = *e.pick(&[1, 0, 10, 6]);
                    let lli = match e.choose(9) {
                        0 => None,
                        k => Some(k as u8 - 1),
                    };
                    let snr = if j == 0 && i == 0 { *e.pick(&[None, Some(0), Some(5)]) } else { None };
                    sigs.push(Sig { of, value: 1.0 + j as f64, lli, snr });
                }
                eps.push(Ep { at: i, flag, clock, sigs });
                e.step();
            }
            e.note(|| format!("{eps:?}"));
            e.state(&format!("{eps:?}"));
            let rnx = obs_rinex(&eps);
            check_obs(e, &rnx, &eps)?;
            check_masks(e, &rnx, &eps)?;
            check_mut(e, &rnx, &eps)
        },
    );
    ctx.explore("signal status", "every lock indicator (or none), strength (or none) and requested strength", |e| {
        let lli = match e.choose(9) {
            0 => None,
            k => Some(k as u8 - 1),
        };
        let snr = match e.choose(11) {
            0 => None,
            k => Some(k as u8 - 1),
        };
        let of = e.choose(SIGNALS.len());
        let s = Sig { of, value: 1.0, lli, snr };
        e.note(|| format!("{s:?}"));
        let track = lli.unwrap_or(0) == 0;
        let strong = snr.map(|s| s >= 5);
        let ok = s.real().is_ok();
        ensure!(ok == (track && strong != Some(false)), "is_ok: {ok} for lock {lli:?}, strength {snr:?}");
        for min in 0..10u8 {
            e.evals(1);
            let got = s.real().is_ok_snr(SNR::from(min));
            match snr {
                None => ensure!(!got, "is_ok_snr({min}) without strength"),
                // ("is_ok with additional criteria": strengths between the request and strong are open)
                Some(s) if s >= min && s < 5 && track => {},
                Some(s) => ensure!(got == (track && s >= min), "is_ok_snr({min}): {got} for lock {lli:?}, strength {s}"),
            }
        }
        let w = s.real().with_snr(SNR::from(7));
        let mut want = s.real();
        want.snr = Some(SNR::DbHz42_47);
        ensure!(w == want, "with_snr: {w:?}");
        Ok(())
    });
    ctx.explore("crinex status", "every version of the header, marked compressed and back: nothing else changes", |e| {
        let major = *e.pick(&[1u8, 2, 3, 4]);
        let there = *e.pick(&[0, 1, 2, 3]);
        let full = e.flag();
        let eps = vec![Ep { at: 0, flag: 0, clock: Some(1e-3), sigs: vec![Sig { of: 0, value: 1.0, lli: None, snr: None }] }];
        let mut rnx = obs_rinex(&eps);
        rnx.header.version = Version::new(major, 0);
        if full {
            let o = rnx.header.obs.get_or_insert_with(Default::default);
            o.codes.insert(Constellation::GPS, vec![obs("C1C"), obs("L1C")]);
            o.clock_offset_applied = true;
            o.timeof_first_obs = Some(t(0));
            o.timeof_last_obs = Some(t(1));
            rnx.header.comments.push("A COMMENT".to_string());
        }
        e.note(|| format!("version {major}, {there} conversions, full: {full}"));
        let is_crinex = |r: &Rinex| r.header.obs.as_ref().and_then(|o| o.crinex.as_ref().map(|c| c.version.major));
        let strip = |r: &Rinex| {
            let mut h = r.header.clone();
            if let Some(o) = &mut h.obs {
                o.crinex = None;
            }
            h.program = None;
            h.run_by = None;
            h.date = None;
            (h, r.record.clone())
        };
        let mut now = rnx.clone();
        for step in 0..=there {
            let (mut copy, mut mutated) = (now.clone(), now.clone());
            if step % 2 == 0 {
                copy = copy.rnx2crnx();
                mutated.rnx2crnx_mut();
                let want = if major < 3 { 1 } else { 3 };
                ensure!(is_crinex(&copy) == Some(want), "compressed: {:?} instead of version {want}", is_crinex(&copy));
            } else {
                copy = copy.crnx2rnx();
                mutated.crnx2rnx_mut();
                ensure!(is_crinex(&copy).is_none(), "still marked as compressed");
            }
            ensure!(is_crinex(&copy) == is_crinex(&mutated), "in place and by copy differ");
            ensure!(strip(&copy) == strip(&rnx), "something else changed: {:?} instead of {:?}", strip(&copy), strip(&rnx));
            ensure!(strip(&mutated) == strip(&rnx), "something else changed in place");
            now = copy;
            e.step();
        }
        Ok(())
    });
}

const METEO: [&str; 11] = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI", "PR"];

fn meteo(ctx: &mut Ctx) {
    ctx.explore("meteo", "two epochs: every subset of the ten observables in the first, of four in the second; null, positive and negative values", |e| {
        let m0 = e.choose(1 << 10);
        let m1 = e.choose(16);
        let kind = e.choose(3);
        let mut items: BTreeMap<(usize, Observable), f64> = BTreeMap::new();
        for b in 0..10 {
            if m0 >> b & 1 == 1 {
                let v = [b as f64 + 0.5, 0.0, if b == 9 { 0.0 } else { 1.25 }][kind];
                items.insert((0, obs(METEO[b])), v);
            }
        }
        for (i, b) in [1, 7, 8, 9].into_iter().enumerate() {
            if m1 >> i & 1 == 1 {
                items.insert((1, obs(METEO[b])), [20.0, 0.0, 1.0][kind]);
            }
        }
        e.note(|| format!("{items:?}"));
        e.state(&format!("{items:?}"));
        let rec = items.iter().map(|((i, o), v)| (MeteoKey { epoch: t(*i), observable: o.clone() }, *v)).collect();
        let mut rnx = Rinex::new(header(RinexType::MeteoData), Record::MeteoRecord(rec));
        // the record is sorted by epoch; the order of observables is not specified
        let got: Vec<_> = rnx.meteo_observations_iter().map(|(k, v)| (k.epoch, k.observable.clone(), *v)).collect();
        ensure!(got.windows(2).all(|w| w[0].0 <= w[1].0), "meteo_observations_iter: not in chronological order: {got:?}");
        unique("meteo_observations_iter", got.clone(), items.iter().map(|((i, o), v)| (t(*i), o.clone(), *v)).collect())?;
        same("meteo_observation_keys", rnx.meteo_observation_keys().map(|k| (k.epoch, k.observable.clone())).collect(), got.iter().map(|x| (x.0, x.1.clone())).collect())?;
        let of = |o: &str| -> Vec<(Epoch, f64)> { items.iter().filter(|((_, x), _)| *x == obs(o)).map(|((i, _), v)| (t(*i), *v)).collect() };
        e.evals(12);
        same("wind_speed_iter", rnx.wind_speed_iter().collect(), of("WS"))?;
        same("wind_direction_iter", rnx.wind_direction_iter().collect(), of("WD"))?;
        same("accumulated_rain_iter", rnx.accumulated_rain_iter().collect(), of("RI"))?;
        same("zenith_total_delay_iter", rnx.zenith_total_delay_iter().collect(), of("ZT"))?;
        same("zenith_dry_delay_iter", rnx.zenith_dry_delay_iter().collect(), of("ZD"))?;
        same("zenith_wet_delay_iter", rnx.zenith_wet_delay_iter().collect(), of("ZW"))?;
        same("temperature_iter", rnx.temperature_iter().collect(), of("TD"))?;
        same("pressure_iter", rnx.pressure_iter().collect(), of("PR"))?;
        same("moisture_rate_iter", rnx.moisture_rate_iter().collect(), of("HR"))?;
        let rain: f64 = of("RI").iter().map(|x| x.1).sum();
        ensure!(rnx.total_accumulated_rain() == rain, "total rain: {} instead of {rain}", rnx.total_accumulated_rain());
        ensure!(rnx.rain_detected() == (rain > 0.0), "rain: {} although {rain} was accumulated", rnx.rain_detected());
        let hail = of("HI").iter().any(|x| x.1 > 0.0);
        ensure!(rnx.hail_detected() == hail, "hail: {} instead of {hail}", rnx.hail_detected());
        unique("observables_iter", rnx.observables_iter().cloned().collect(), items.keys().map(|k| k.1.clone()).collect())?;
        let mut epochs: Vec<Epoch> = items.keys().map(|k| t(k.0)).collect();
        epochs.dedup();
        same("epoch_iter", rnx.epoch_iter().collect(), epochs)?;
        ensure!(rnx.sv_iter().count() == 0 && rnx.constellations_iter().count() == 0, "satellites in a meteo file");
        for (_, v) in rnx.meteo_observations_iter_mut() {
            *v += 1.0;
        }
        unique(
            "meteo_observations_iter_mut",
            rnx.meteo_observations_iter().map(|(k, v)| (k.epoch, k.observable.clone(), *v)).collect(),
            items.iter().map(|((i, o), v)| (t(*i), o.clone(), *v + 1.0)).collect(),
        )?;
        e.outcome(&(items.len(), rain > 0.0, hail));
        Ok(())
    });
}

fn navigation(ctx: &mut Ctx) {
    let palette: Vec<(usize, &str, NavMessageType, NavFrame)> = {
        let eph = |b: f64| NavFrame::EPH(Ephemeris { clock_bias: b, clock_drift: 2.0 * b, clock_drift_rate: 3.0 * b, orbits: HashMap::new() });
        let eop = |x: f64| {
            NavFrame::EOP(EarthOrientation { x: (x, 1.0, 2.0), y: (3.0, 4.0, 5.0), t_tm: 10, delta_ut1: (0.1, 0.2, 0.3) })
        };
        let sto = |s: &str| NavFrame::STO(SystemTime { system: s.to_string(), utc: "UTC(USNO)".to_string(), t_tm: 5, a: (1.0, 2.0, 3.0) });
        vec![
            (0, "G01", NavMessageType::LNAV, eph(1e-4)),
            (0, "G01", NavMessageType::CNAV, eph(2e-4)),
            (0, "G01", NavMessageType::LNAV, NavFrame::ION(IonosphereModel::Klobuchar(KbModel::default()))),
            (0, "G01", NavMessageType::LNAV, eop(0.5)),
            (0, "G01", NavMessageType::LNAV, sto("GPUT")),
            (1, "G01", NavMessageType::LNAV, eph(3e-4)),
            (1, "E05", NavMessageType::INAV, eph(4e-4)),
            (1, "E05", NavMessageType::IFNV, NavFrame::ION(IonosphereModel::NequickG(NgModel::default()))),
            (2, "C21", NavMessageType::CNVX, NavFrame::ION(IonosphereModel::Bdgim(BdModel::default()))),
            (2, "R24", NavMessageType::FDMA, eph(5e-4)),
            (2, "R24", NavMessageType::FDMA, sto("GLUT")),
            (3, "S23", NavMessageType::SBAS, eph(6e-4)),
        ]
    };
    let n = ctx.q(12, 12);
    ctx.explore("navigation", "every subset of twelve messages (all kinds of frames, several per instant, satellite and message type)", |e| {
        let mask = e.choose(1 << n);
        let sel: Vec<_> = (0..n).filter(|b| mask >> b & 1 == 1).map(|b| &palette[b]).collect();
        let key = |m: &(usize, &str, NavMessageType, NavFrame)| NavKey {
            epoch: t(m.0),
            sv: sv(m.1),
            msgtype: m.2,
            frmtype: match m.3 {
                NavFrame::EPH(_) => NavFrameType::Ephemeris,
                NavFrame::EOP(_) => NavFrameType::EarthOrientation,
                NavFrame::ION(_) => NavFrameType::IonosphereModel,
                NavFrame::STO(_) => NavFrameType::SystemTimeOffset,
            },
        };
        e.note(|| format!("{sel:?}"));
        e.state(&mask);
        let rec = sel.iter().map(|m| (key(m), m.3.clone())).collect();
        let rnx = Rinex::new(header(RinexType::NavigationData), Record::NavRecord(rec));
        e.evals(14);
        unique("navigation_keys", rnx.navigation_keys().copied().collect(), sel.iter().map(|m| key(m)).collect())?;
        let chrono = |what: &str, v: Vec<Epoch>| -> R {
            ensure!(v.windows(2).all(|w| w[0] <= w[1]), "{what}: not in chronological order");
            Ok(())
        };
        chrono("navigation_keys", rnx.navigation_keys().map(|k| k.epoch).collect())?;
        // one item per message: (G01, LNAV) may come several times
        let mut got: Vec<_> = rnx.nav_message_types_iter().collect();
        let mut want: Vec<_> = sel.iter().map(|m| (t(m.0), sv(m.1), m.2)).collect();
        got.sort();
        want.sort();
        if got != want {
            want.dedup();
            unique("nav_message_types_iter", got, want)?;
        }
        unique(
            "nav_ephemeris_frames_iter",
            rnx.nav_ephemeris_frames_iter().map(|(k, f)| (*k, f.clone())).collect(),
            sel.iter().filter_map(|m| if let NavFrame::EPH(f) = &m.3 { Some((key(m), f.clone())) } else { None }).collect(),
        )?;
        unique(
            "nav_sv_clock_iter",
            rnx.nav_sv_clock_iter().collect(),
            sel.iter()
                .filter_map(|m| if let NavFrame::EPH(f) = &m.3 { Some((key(m), (f.clock_bias, f.clock_drift, f.clock_drift_rate))) } else { None })
                .collect(),
        )?;
        unique(
            "nav_earth_orientation_frames_iter",
            rnx.nav_earth_orientation_frames_iter().map(|(k, f)| (*k, f.clone())).collect(),
            sel.iter().filter_map(|m| if let NavFrame::EOP(f) = &m.3 { Some((key(m), f.clone())) } else { None }).collect(),
        )?;
        unique(
            "nav_system_time_frames_iter",
            rnx.nav_system_time_frames_iter().map(|(k, f)| (*k, f.clone())).collect(),
            sel.iter().filter_map(|m| if let NavFrame::STO(f) = &m.3 { Some((key(m), f.clone())) } else { None }).collect(),
        )?;
        let ion: Vec<(NavKey, IonosphereModel)> = sel.iter().filter_map(|m| if let NavFrame::ION(f) = &m.3 { Some((key(m), f.clone())) } else { None }).collect();
        unique("nav_klobuchar_models_iter", rnx.nav_klobuchar_models_iter().map(|(k, f)| (*k, IonosphereModel::Klobuchar(*f))).collect(), ion.iter().filter(|x| x.1.as_klobuchar().is_some()).cloned().collect())?;
        unique("nav_bdgim_models_iter", rnx.nav_bdgim_models_iter().map(|(k, f)| (*k, IonosphereModel::Bdgim(*f))).collect(), ion.iter().filter(|x| x.1.as_bdgim().is_some()).cloned().collect())?;
        unique("nav_nequickg_models_iter", rnx.nav_nequickg_models_iter().map(|(k, f)| (*k, IonosphereModel::NequickG(*f))).collect(), ion.iter().filter(|x| x.1.as_nequick_g().is_some()).cloned().collect())?;
        unique("nav_ionosphere_models_iter", rnx.nav_ionosphere_models_iter().map(|(k, f)| (*k, f.clone())).collect(), ion)?;
        // UT1-UTC of the messages, TAI-UTC is 37 s
        let ut1: Vec<(Epoch, i128)> = rnx.nav_delta_tai_ut1_iter().map(|d| (d.epoch, (d.delta_tai_minus_ut1.total_nanoseconds() + 500) / 1000)).collect();
        unique("nav_delta_tai_ut1_iter", ut1, sel.iter().filter(|m| matches!(m.3, NavFrame::EOP(_))).map(|m| (t(m.0), 36_900_000)).collect())?;
        unique("sv_iter", rnx.sv_iter().collect(), sel.iter().map(|m| sv(m.1)).collect())?;
        unique("constellations_iter", rnx.constellations_iter().collect(), sel.iter().map(|m| sv(m.1).constellation).collect())?;
        let mut epochs: Vec<Epoch> = sel.iter().map(|m| t(m.0)).collect();
        epochs.dedup();
        // (one item per message: pinned by the tests)
        let mut got: Vec<Epoch> = rnx.epoch_iter().collect();
        got.dedup();
        same("epoch_iter", got, epochs)?;
        e.outcome(&sel.len());
        Ok(())
    });
}

fn clocks(ctx: &mut Ctx) {
    ctx.explore("clock", "every subset of twelve clock profiles over two epochs", |e| {
        let palette: Vec<(usize, ClockType, ClockProfileType)> = vec![
            (0, ClockType::SV(sv("G09")), ClockProfileType::AS),
            (0, ClockType::SV(sv("G01")), ClockProfileType::AS),
            (0, ClockType::SV(sv("G01")), ClockProfileType::MS),
            (0, ClockType::Station("ABCD".into()), ClockProfileType::AR),
            (0, ClockType::Station("ABCD".into()), ClockProfileType::CR),
            (0, ClockType::Station("G01".into()), ClockProfileType::DR),
            (1, ClockType::SV(sv("G01")), ClockProfileType::AS),
            (1, ClockType::SV(sv("E05")), ClockProfileType::AS),
            (1, ClockType::SV(sv("E05")), ClockProfileType::DR),
            (1, ClockType::Station("EFGH".into()), ClockProfileType::AR),
            (1, ClockType::Station("ABCD".into()), ClockProfileType::AR),
            (1, ClockType::SV(sv("R24")), ClockProfileType::MS),
        ];
        let mask = e.choose(1 << palette.len());
        let sel: Vec<_> = (0..palette.len()).filter(|b| mask >> b & 1 == 1).collect();
        let profile = |b: usize| ClockProfile { bias: b as f64, bias_dev: if b % 2 == 0 { Some(0.5) } else { None }, ..Default::default() };
        let mut rec: BTreeMap<Epoch, BTreeMap<ClockKey, ClockProfile>> = BTreeMap::new();
        for b in &sel {
            let (i, c, p) = palette[*b].clone();
            rec.entry(t(i)).or_default().insert(ClockKey { clock_type: c, profile_type: p }, profile(*b));
        }
        e.note(|| format!("{rec:?}"));
        e.state(&mask);
        e.evals(7);
        let rnx = Rinex::new(header(RinexType::ClockData), Record::ClockRecord(rec.clone()));
        same("precise_clock", rnx.precise_clock().map(|(a, b)| (*a, b.clone())).collect(), rec.into_iter().collect())?;
        unique(
            "precise_sv_clock",
            rnx.precise_sv_clock().collect(),
            sel.iter().filter_map(|b| palette[*b].1.as_sv().map(|s| (t(palette[*b].0), s, palette[*b].2.clone(), profile(*b)))).collect(),
        )?;
        unique(
            "precise_station_clock",
            rnx.precise_station_clock().collect(),
            sel.iter().filter_map(|b| palette[*b].1.as_station().map(|s| (t(palette[*b].0), s, palette[*b].2.clone(), profile(*b)))).collect(),
        )?;
        let svs: Vec<SV> = sel.iter().filter_map(|b| palette[*b].1.as_sv()).collect();
        unique("sv_iter", rnx.sv_iter().collect(), svs.clone())?;
        unique("constellations_iter", rnx.constellations_iter().collect(), svs.iter().map(|s| s.constellation).collect())?;
        let mut epochs: Vec<Epoch> = sel.iter().map(|b| t(palette[*b].0)).collect();
        epochs.dedup();
        same("epoch_iter", rnx.epoch_iter().collect(), epochs)?;
        ensure!(rnx.observables_iter().count() == 0, "observables in a clock file");
        e.outcome(&(sel.len(), svs.len()));
        Ok(())
    });
}

fn doris(ctx: &mut Ctx) {
    let station = |k: usize, name: &str| Station::from_str(&format!("D{k:02}  {name} {:29} 10001S0{k:02}  3   0", "SITE")).unwrap();
    let stations = [station(1, "THUB"), station(2, "SVBC")];
    ctx.explore("doris", "two epochs: every subset of the observables of two stations; flags, clocks (with and without drift), extrapolation", |e| {
        let codes = ["L1", "L2", "C1", "W1", "P", "T", "H", "F"];
        let m0 = e.choose(256);
        let m1 = e.choose(8);
        let flags = *e.pick(&[(0, 0, 1, 0), (0, 0, 0, 1), (0, 6, 1, 0)]);
        let extra = *e.pick(&[0usize, 1, 2]);
        let mut rec = BTreeMap::new();
        let mut want: Vec<(DorisKey, SignalKey, rinex::doris::SignalObservation)> = vec![];
        let mut clocks = vec![];
        for (i, (at, flag)) in [(flags.0, flags.1), (flags.2, flags.3)].into_iter().enumerate() {
            let k = DorisKey { epoch: t(at), flag: FLAGS[flag] };
            let mut clock = ClockObservation::default().with_offset_s(t(at), 1.5 + i as f64);
            if extra == 1 {
                clock = clock.with_offset_s(t(at) + Duration::from_seconds(1.0), 2.5);
            }
            let mut signals = HashMap::new();
            for (b, c) in codes.iter().enumerate() {
                let s = if i == 0 { m0 >> b & 1 == 1 } else { [0, 4, 5].iter().position(|x| *x == b).map_or(false, |x| m1 >> x & 1 == 1) };
                if s {
                    let key = SignalKey { observable: obs(c), station: stations[(b + i) % 2].clone() };
                    let v = rinex::doris::SignalObservation { m1: None, m2: Some(b as u8), value: (10 * i + b) as f64 };
                    signals.insert(key.clone(), v.clone());
                    want.push((k.clone(), key, v));
                }
            }
            clocks.push((k.clone(), clock));
            rec.insert(k, rinex::doris::Observations { clock, clock_extrapolated: extra == 2, signals });
        }
        e.note(|| format!("{rec:?}"));
        e.state(&(m0, m1, flags, extra));
        e.evals(7);
        let mut h = header(RinexType::DORIS);
        h.doris = Some(rinex::doris::HeaderFields { stations: stations.to_vec(), ..Default::default() });
        let mut rnx = Rinex::new(h, Record::DorisRecord(rec.clone()));
        same("doris_observation_keys", rnx.doris_observation_keys().cloned().collect(), rec.keys().cloned().collect())?;
        same("doris_observation_iter", rnx.doris_observation_iter().map(|(a, b)| (a.clone(), b.clone())).collect(), rec.clone().into_iter().collect())?;
        same("doris_satellite_clock_offset_iter", rnx.doris_satellite_clock_offset_iter().collect(), clocks)?;
        unique("doris_ground_station_signals_iter", rnx.doris_ground_station_signals_iter().collect(), want.clone())?;
        let of = |c: &str| -> Vec<(Epoch, f64)> { want.iter().filter(|w| w.1.observable == obs(c)).map(|w| (w.0.epoch, w.2.value)).collect() };
        same("temperature_iter", rnx.temperature_iter().collect(), of("T"))?;
        same("pressure_iter", rnx.pressure_iter().collect(), of("P"))?;
        same("moisture_rate_iter", rnx.moisture_rate_iter().collect(), of("H"))?;
        same("doris_ground_stations_iter", rnx.doris_ground_stations_iter().cloned().collect(), stations.to_vec())?;
        unique("observables_iter", rnx.observables_iter().cloned().collect(), want.iter().map(|w| w.1.observable.clone()).collect())?;
        let mut epochs: Vec<Epoch> = rec.keys().map(|k| k.epoch).collect();
        epochs.dedup();
        same("epoch_iter", rnx.epoch_iter().collect(), epochs)?;
        for (_, o) in rnx.doris_observation_iter_mut() {
            o.clock_extrapolated = !o.clock_extrapolated;
            o.signals.retain(|_, s| s.value > 3.0);
        }
        for o in rec.values_mut() {
            o.clock_extrapolated = !o.clock_extrapolated;
            o.signals.retain(|_, s| s.value > 3.0);
        }
        ensure!(rnx.record.as_doris() == Some(&rec), "doris_observation_iter_mut");
        e.outcome(&want.len());
        Ok(())
    });
}

fn headers(ctx: &mut Ctx) {
    ctx.explore("header queries", "every subset of compensations, merge comments; status of the file type; replacing header and record", |e| {
        let systems = [Constellation::GPS, Constellation::Galileo, Constellation::Glonass, Constellation::BeiDou];
        let dcb = e.choose(16);
        let pcv = e.choose(16);
        let comments = *e.pick(&[&[][..], &["A COMMENT"][..], &["FILE MERGE"][..], &["A COMMENT", "teqc  2019  FILE MERGE  20240101"][..], &["file", "MERGE"][..]]);
        e.note(|| format!("dcb {dcb:b}, pcv {pcv:b}, {comments:?}"));
        let mut rnx = obs_rinex(&[]);
        for (i, c) in systems.iter().enumerate() {
            if dcb >> i & 1 == 1 {
                rnx.header.dcb_compensations.push(rinex::header::DcbCompensation { program: "P".into(), constellation: *c, url: "U".into() });
            }
            if pcv >> i & 1 == 1 {
                rnx.header.pcv_compensations.push(rinex::header::PcvCompensation { program: "P".into(), constellation: *c, url: "U".into() });
            }
        }
        rnx.header.comments = comments.iter().map(|c| c.to_string()).collect();
        for (i, c) in systems.iter().enumerate() {
            e.evals(2);
            ensure!(rnx.dcb_compensation(*c) == (dcb >> i & 1 == 1), "dcb_compensation({c})");
            ensure!(rnx.pcv_compensation(*c) == (pcv >> i & 1 == 1), "pcv_compensation({c})");
        }
        ensure!(!rnx.dcb_compensation(Constellation::QZSS) && !rnx.pcv_compensation(Constellation::QZSS), "compensation of QZSS");
        for o in ["", "CODE OBSERVATIONS"] {
            let h = rinex::ionex::HeaderFields::default().with_observables(o);
            ensure!(h.is_theoretical_model() == o.is_empty(), "theoretical model: {} with observables {o:?}", h.is_theoretical_model());
        }
        let merged = comments.iter().any(|c| c.contains("FILE MERGE"));
        ensure!(rnx.is_merged() == merged, "is_merged: {}", rnx.is_merged());
        Ok(())
    });
    let types = [
        RinexType::ObservationData,
        RinexType::NavigationData,
        RinexType::MeteoData,
        RinexType::ClockData,
        RinexType::IonosphereMaps,
        RinexType::AntennaData,
        RinexType::DORIS,
    ];
    let records = || -> Vec<Record> {
        vec![
            Record::ObsRecord(BTreeMap::from([(ObsKey { epoch: t(0), flag: EpochFlag::Ok }, Observations::default())])),
            Record::NavRecord(BTreeMap::from([(
                NavKey { epoch: t(0), sv: sv("G01"), msgtype: NavMessageType::LNAV, frmtype: NavFrameType::Ephemeris },
                NavFrame::EPH(Ephemeris::default()),
            )])),
            Record::MeteoRecord(BTreeMap::from([(MeteoKey { epoch: t(0), observable: Observable::Pressure }, 1.0)])),
            Record::ClockRecord(BTreeMap::from([(t(0), BTreeMap::new())])),
            Record::IonexRecord(BTreeMap::from([(IonexKey { epoch: t(0), coordinates: QuantizedCoordinates::new(1.0, 1, 2.0, 1, 3.0, 1) }, TEC::from_tecu(1.0))])),
            Record::AntexRecord(vec![(Default::default(), HashMap::new())]),
            Record::DorisRecord(BTreeMap::from([(
                DorisKey { epoch: t(0), flag: EpochFlag::Ok },
                rinex::doris::Observations { clock: Default::default(), clock_extrapolated: false, signals: HashMap::new() },
            )])),
        ]
    };
    ctx.explore("types", "every type of file, queried with the accessors and iterators of every other one; its record or header replaced by those of every other type", |e| {
        let i = e.choose(7);
        let j = e.choose(7);
        let how = e.choose(4);
        e.note(|| format!("{:?}, then {:?}", types[i], types[j]));
        let rec = records();
        let a = Rinex::new(header(types[i]), rec[i].clone());
        // everything is replaced, in two different ways
        let mut b = match how {
            0 => a.with_header(header(types[j])).with_record(rec[j].clone()),
            1 => a.with_record(rec[j].clone()).with_header(header(types[j])),
            _ => a.clone(),
        };
        if how == 2 {
            b.replace_header(header(types[j]));
            b.replace_record(rec[j].clone());
        }
        let at = if how == 3 { i } else { j };
        ensure!(b.header == header(types[at]) && b.record == rec[at], "header or record");
        let is = [
            b.is_observation_rinex(),
            b.is_navigation_rinex(),
            b.is_meteo_rinex(),
            b.is_clock_rinex(),
            b.is_ionex(),
            b.is_antex(),
            b.is_doris(),
        ];
        let has = [
            b.record.as_obs().is_some(),
            b.record.as_nav().is_some(),
            b.record.as_meteo().is_some(),
            b.record.as_clock().is_some(),
            b.record.as_ionex().is_some(),
            b.record.as_antex().is_some(),
            b.record.as_doris().is_some(),
        ];
        let has_mut = [
            b.record.as_mut_obs().is_some(),
            b.record.as_mut_nav().is_some(),
            b.record.as_mut_meteo().is_some(),
            b.record.as_mut_clock().is_some(),
            b.record.as_mut_ionex().is_some(),
            b.record.as_mut_antex().is_some(),
            b.record.as_mut_doris().is_some(),
        ];
        for k in 0..7 {
            ensure!(is[k] == (k == at) && has[k] == (k == at) && has_mut[k] == (k == at), "{:?}: asked for {:?}", types[at], types[k]);
        }
        let b = &b;
        let count = |what: &str, of: usize, f: &dyn Fn() -> usize| -> R {
            let n = no_panic(what, f)?;
            let want = if of == at { 1 } else { 0 };
            ensure!(n == want, "{what} on {:?}: {n} items instead of {want}", types[at]);
            Ok(())
        };
        e.evals(16);
        count("epoch_iter", if at == 5 { 9 } else { at }, &|| b.epoch_iter().count())?;
        count("sv_iter", 1, &|| b.sv_iter().count())?;
        count("constellations_iter", 1, &|| b.constellations_iter().count())?;
        count("observables_iter", 2, &|| b.observables_iter().count())?;
        count("antennas", 5, &|| b.antennas().count())?;
        count("antex_valid_calibrations", 9, &|| if at == 5 { 0 } else { b.antex_valid_calibrations(t(0)).count() })?;
        count("precise_clock", 3, &|| b.precise_clock().count())?;
        count("precise_sv_clock", 9, &|| b.precise_sv_clock().count())?;
        count("precise_station_clock", 9, &|| b.precise_station_clock().count())?;
        count("nav_message_types_iter", 1, &|| b.nav_message_types_iter().count())?;
        count("nav_ephemeris_frames_iter", 1, &|| b.nav_ephemeris_frames_iter().count())?;
        count("nav_sv_clock_iter", 1, &|| b.nav_sv_clock_iter().count())?;
        count("nav_earth_orientation_frames_iter", 9, &|| b.nav_earth_orientation_frames_iter().count())?;
        count("nav_ionosphere_models_iter", 9, &|| b.nav_ionosphere_models_iter().count())?;
        count("nav_klobuchar_models_iter", 9, &|| b.nav_klobuchar_models_iter().count())?;
        count("nav_system_time_frames_iter", 9, &|| b.nav_system_time_frames_iter().count())?;
        count("doris_satellite_clock_offset_iter", 6, &|| b.doris_satellite_clock_offset_iter().count())?;
        count("doris_ground_station_signals_iter", 9, &|| b.doris_ground_station_signals_iter().count())?;
        count("doris_ground_stations_iter", 9, &|| b.doris_ground_stations_iter().count())?;
        count("meteo_sensors_iter", 9, &|| b.meteo_sensors_iter().count())?;
        count("ionex_tec_maps_iter", 4, &|| b.ionex_tec_maps_iter().count())?;
        count("ionex_tecu_latlong_ddeg_alt_km_iter", 4, &|| b.ionex_tecu_latlong_ddeg_alt_km_iter().count())?;
        count("ionex_rms_tec_maps_iter", 9, &|| b.ionex_rms_tec_maps_iter().count())?;
        e.outcome(&(i, j));
        Ok(())
    });
}

pub fn run(ctx: &mut Ctx) {
    observation(ctx);
    meteo(ctx);
    navigation(ctx);
    clocks(ctx);
    doris(ctx);
    headers(ctx);
}
