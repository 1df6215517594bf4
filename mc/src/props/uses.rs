//! P33: whatever was read can be used: no accessor, iterator, conversion or formatter crashes.
use super::robust::{contents, lines_of, samples, LABELS};
use crate::engine::*;
use crate::samples::items;
use crate::util::*;
use rinex::prelude::obs::{Carrier, Combination, LliFlags};
use rinex::prelude::*;
use std::hint::black_box;

const CONSTELLATIONS: [Constellation; 8] = [
    Constellation::GPS,
    Constellation::Glonass,
    Constellation::Galileo,
    Constellation::BeiDou,
    Constellation::QZSS,
    Constellation::IRNSS,
    Constellation::SBAS,
    Constellation::Mixed,
];
/// An iterator that does not end within so many items does not end at all.
const ENDLESS: usize = 1_000_000;

struct Uses<'a> {
    r: &'a Rinex,
    n: u64,
}
impl Uses<'_> {
    fn of<T>(&mut self, what: &str, f: impl FnOnce(&Rinex) -> T) -> R {
        self.n += 1;
        let r = self.r;
        no_panic(what, move || {
            black_box(f(r));
        })
        .map_err(|f| {
            let site = f.msg.split("panicked at ").nth(1).and_then(|m| m.split(' ').next()).unwrap_or("").trim().to_string();
            let site = site.lines().next().unwrap_or("").rsplit("/src/").next().unwrap_or("").to_string();
            Fail { key: format!("{what} {site}"), msg: f.msg }
        })
    }
    fn iter<'b, T: 'b>(&mut self, what: &str, f: impl FnOnce(&'b Rinex) -> Box<dyn Iterator<Item = T> + 'b>) -> R
    where
        Self: 'b,
    {
        let r: &'b Rinex = unsafe { &*(self.r as *const Rinex) };
        let mut n = 0;
        self.of(what, |_| n = f(r).take(ENDLESS).count())?;
        crate::ensure!(n < ENDLESS, "{what} does not end");
        Ok(())
    }
}

/// Every use of a file of any type, and those of its own type.
fn all_uses(r: &Rinex) -> Result<u64, Fail> {
    let mut u = Uses { r, n: 0 };
    u.of("clone, ==", |r| r.clone().record == r.record)?;
    u.iter("epoch_iter", |r| r.epoch_iter())?;
    u.iter("sv_iter", |r| r.sv_iter())?;
    u.iter("constellations_iter", |r| r.constellations_iter())?;
    u.iter("observables_iter", |r| r.observables_iter())?;
    u.of("first_epoch", |r| (r.first_epoch(), r.last_epoch(), r.duration()))?;
    u.of("timeseries", |r| r.timeseries().map(|t| t.take(8).count()))?;
    u.of("sampling_interval", |r| (r.sampling_interval(), r.dominant_sampling_interval(), r.dominant_sampling_rate_hz()))?;
    u.iter("sampling_histogram", |r| r.sampling_histogram())?;
    u.of("steady_sampling", |r| r.steady_sampling())?;
    u.iter("data_gaps", |r| r.data_gaps(None))?;
    u.iter("data_gaps (30 s)", |r| r.data_gaps(Some(Duration::from_seconds(30.0))))?;
    u.of("guess_production_attributes", |r| r.guess_production_attributes())?;
    // these have no name yet: finding recorded under P23
    let named = !matches!(r.header.rinex_type, RinexType::ClockData | RinexType::DORIS | RinexType::AntennaData);
    if named {
        u.of("standard_filename", |r| (r.standard_filename(true, None, None), r.standard_filename(false, Some(".gz"), None)))?;
        u.of("standard_filename (guessed)", |r| {
            let a = r.guess_production_attributes();
            (r.standard_filename(false, None, Some(a.clone())), r.standard_filename(true, Some("x"), Some(a)))
        })?;
    }
    u.of("compensations", |r| CONSTELLATIONS.map(|c| (r.dcb_compensation(c), r.pcv_compensation(c))))?;
    u.of("is_*", |r| (r.is_merged(), r.is_antex(), r.is_clock_rinex(), r.is_ionex(), r.is_doris(), r.is_meteo_rinex(), r.is_navigation_rinex(), r.is_observation_rinex()))?;
    u.of("observation_substract", |r| r.observation_substract(r))?;
    u.iter("antennas", |r| r.antennas())?;
    u.iter("precise_clock", |r| r.precise_clock())?;
    u.iter("precise_sv_clock", |r| r.precise_sv_clock())?;
    u.iter("precise_station_clock", |r| r.precise_station_clock())?;
    u.of("format", format_rinex)?;
    u.of("rnx2crnx", |r| {
        let c = r.rnx2crnx();
        format_rinex(&c)
    })?;
    let crx = r.rnx2crnx();
    u.of("crnx2rnx", |_| format_rinex(&crx.crnx2rnx()))?;
    u.of("crnx2rnx", |r| r.crnx2rnx())?;
    let at = r.first_epoch().unwrap_or_default();
    u.of("rx_orbit", |r| r.header.rx_orbit(at, rinex_frame()))?;
    match r.header.rinex_type {
        RinexType::ObservationData => {
            u.of("observation keys", |r| (r.observation_keys().count(), r.observations_iter().count()))?;
            u.iter("signal_observations_iter", |r| r.signal_observations_iter())?;
            u.iter("clock_observations_iter", |r| r.clock_observations_iter())?;
            u.iter("pseudo_range_observations_iter", |r| r.pseudo_range_observations_iter())?;
            u.iter("phase_range_observations_iter", |r| r.phase_range_observations_iter())?;
            u.iter("doppler_observations_iter", |r| r.doppler_observations_iter())?;
            u.iter("ssi_observations_iter", |r| r.ssi_observations_iter())?;
            u.iter("carrier_iter", |r| r.carrier_iter())?;
            u.iter("signal_code_iter", |r| r.signal_code_iter())?;
            u.iter("pseudo_range_sampling_ok_iter", |r| r.pseudo_range_sampling_ok_iter())?;
            u.iter("phase_range_tracking_ok_iter", |r| r.phase_range_tracking_ok_iter())?;
            u.iter("phase_cycle_slip_events", |r| r.phase_cycle_slip_events())?;
            u.iter("phase_half_full_cycle_slip_events", |r| r.phase_half_full_cycle_slip_events())?;
            u.iter("epoch_anomalies", |r| r.epoch_anomalies())?;
            u.of("observation_phase_tracking_lli_masking", |r| r.observation_phase_tracking_lli_masking(LliFlags::LOCK_LOSS))?;
            for c in [Combination::GeometryFree, Combination::IonosphereFree, Combination::WideLane, Combination::NarrowLane, Combination::MelbourneWubbena] {
                u.of("signals_combination", |r| r.signals_combination(c))?;
            }
            u.of("signals_multipath", |r| r.signals_multipath())?;
            u.of("observation_dual_phase_ionosphere_tec", |r| r.observation_dual_phase_ionosphere_tec())?;
            u.of("signals", |r| {
                for (_, s) in r.signal_observations_iter() {
                    black_box((s.clone().is_ok(), s.observable.code(), s.observable.carrier(s.sv.constellation).map(|c| c.frequency_mhz()), s.observable.to_string()));
                }
            })?;
        },
        RinexType::NavigationData => {
            u.of("navigation_keys", |r| r.navigation_keys().count())?;
            u.iter("nav_message_types_iter", |r| r.nav_message_types_iter())?;
            u.iter("nav_ephemeris_frames_iter", |r| r.nav_ephemeris_frames_iter())?;
            u.iter("nav_earth_orientation_frames_iter", |r| r.nav_earth_orientation_frames_iter())?;
            u.iter("nav_ionosphere_models_iter", |r| r.nav_ionosphere_models_iter())?;
            u.iter("nav_system_time_frames_iter", |r| r.nav_system_time_frames_iter())?;
            u.iter("nav_sv_clock_iter", |r| r.nav_sv_clock_iter())?;
            u.iter("nav_delta_tai_ut1_iter", |r| r.nav_delta_tai_ut1_iter())?;
            u.iter("nav_klobuchar_models_iter", |r| r.nav_klobuchar_models_iter())?;
            u.iter("nav_bdgim_models_iter", |r| r.nav_bdgim_models_iter())?;
            u.iter("nav_nequickg_models_iter", |r| r.nav_nequickg_models_iter())?;
            for (k, eph) in r.nav_ephemeris_frames_iter() {
                let ts = k.sv.constellation.timescale().unwrap_or(TimeScale::GPST);
                u.of("toe", |_| (eph.toe(ts), eph.tgd(), eph.glonass_freq_channel()))?;
                u.of("orbits", |_| {
                    for (name, o) in &eph.orbits {
                        black_box((eph.get_orbit_f64(name), o.as_f64(), o.as_u32(), o.as_u8(), o.as_i8(), o.to_string()));
                    }
                })?;
                for dt in [0.0, 1800.0, -3600.0, 1.0E6] {
                    let t = k.epoch + Duration::from_seconds(dt);
                    u.of("clock_correction", |_| eph.clock_correction(k.epoch, t, k.sv, 4))?;
                    u.of("is_valid", |_| eph.is_valid(k.sv, t, k.epoch))?;
                    u.of("nav_ephemeris_selection", |r| r.nav_ephemeris_selection(k.sv, t).map(|x| x.0))?;
                    u.of("sv_orbit", |r| r.sv_orbit(k.sv, t))?;
                    u.of("kepler2position", |_| eph.kepler2position(k.sv, k.epoch, t))?;
                }
            }
        },
        RinexType::MeteoData => {
            u.of("meteo keys", |r| (r.meteo_observation_keys().count(), r.meteo_observations_iter().count()))?;
            u.iter("meteo_sensors_iter", |r| r.meteo_sensors_iter())?;
            u.iter("temperature_iter", |r| r.temperature_iter())?;
            u.iter("pressure_iter", |r| r.pressure_iter())?;
            u.iter("moisture_rate_iter", |r| r.moisture_rate_iter())?;
            u.iter("wind_speed_iter", |r| r.wind_speed_iter())?;
            u.iter("wind_direction_iter", |r| r.wind_direction_iter())?;
            u.iter("accumulated_rain_iter", |r| r.accumulated_rain_iter())?;
            u.of("rain, hail", |r| (r.total_accumulated_rain(), r.rain_detected(), r.hail_detected()))?;
            u.iter("zenith_total_delay_iter", |r| r.zenith_total_delay_iter())?;
            u.iter("zenith_dry_delay_iter", |r| r.zenith_dry_delay_iter())?;
            u.iter("zenith_wet_delay_iter", |r| r.zenith_wet_delay_iter())?;
            u.of("sensors", |r| r.meteo_sensors_iter().map(|s| (s.to_string(), s.rx_orbit(at, rinex_frame()))).count())?;
        },
        RinexType::DORIS => {
            u.of("doris keys", |r| (r.doris_observation_keys().count(), r.doris_observation_iter().count()))?;
            u.iter("doris_ground_stations_iter", |r| r.doris_ground_stations_iter())?;
            u.iter("doris_satellite_clock_offset_iter", |r| r.doris_satellite_clock_offset_iter())?;
            u.iter("doris_ground_station_signals_iter", |r| r.doris_ground_station_signals_iter())?;
            u.of("stations", |r| r.doris_ground_stations_iter().map(|s| (s.to_string(), s.s1_frequency_shift(), s.u2_frequency_shift())).count())?;
        },
        RinexType::IonosphereMaps => {
            u.of("ionex_tec_maps_keys", |r| r.ionex_tec_maps_keys().count())?;
            u.iter("ionex_tec_maps_iter", |r| r.ionex_tec_maps_iter())?;
            u.iter("ionex_tecu_latlong_ddeg_alt_km_iter", |r| r.ionex_tecu_latlong_ddeg_alt_km_iter())?;
            u.iter("ionex_rms_tec_maps_iter", |r| r.ionex_rms_tec_maps_iter())?;
            u.of("ionex views", |r| (r.tec_map_borders(), r.ionex_2d_fixed_altitude_km(), r.ionex_altitude_range_km(), r.is_ionex_2d(), r.is_ionex_3d()))?;
            u.of("grid", |r| {
                if let Some(x) = &r.header.ionex {
                    for g in [&x.grid.latitude, &x.grid.longitude, &x.grid.height] {
                        for p in [g.start, g.end, 0.0, 1.5, -1.0E9, f64::NAN] {
                            black_box((g.nearest_lower(p), g.nearest_above(p)));
                        }
                        black_box((g.length(), g.is_single_point()));
                    }
                }
            })?;
        },
        RinexType::AntennaData => {
            for t in [Epoch::default(), Epoch::from_gregorian_utc_at_midnight(2020, 1, 1)] {
                u.iter("antex_valid_calibrations", |r| r.antex_valid_calibrations(t))?;
                u.of("sv_antenna_apc_offset", |r| r.sv_iter().map(|sv| r.sv_antenna_apc_offset(t, sv, Carrier::L1)).count())?;
                u.of("rx_antenna_apc_offset", |r| r.rx_antenna_apc_offset(t, rinex::prelude::antex::AntennaMatcher::IGSCode("A B".to_string()), Carrier::L1))?;
            }
            u.of("patterns", |r| {
                for (a, m) in r.antennas() {
                    black_box((format!("{a:?}"), a.is_valid(Epoch::default())));
                    black_box(format!("{m:?}"));
                }
            })?;
        },
        RinexType::ClockData => {},
    }
    Ok(u.n)
}
fn rinex_frame() -> rinex::prelude::nav::Frame {
    anise::constants::frames::EARTH_J2000
}

fn usable(e: &mut Exec, what: impl Fn() -> String, bytes: &[u8]) -> R {
    e.note(|| format!("{}\n{}", what(), String::from_utf8_lossy(bytes)));
    let r = match no_panic("Rinex::parse", || parse_bytes(bytes)) {
        Ok(Ok(r)) => r,
        // P22
        _ => {
            e.trivial();
            return Ok(());
        },
    };
    let n = all_uses(&r).map_err(|f| Fail { key: f.key, msg: format!("{}: {}", what(), f.msg) })?;
    e.evals(n);
    e.outcome(&items(&r.record).len());
    e.step();
    Ok(())
}
const WILD: [&str; 20] = ["", "0", "-1", "1", "99", "256", "65536", "2147483647", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "1e308", "-1e308", "1e-300", "nan", "inf", "-inf", "G", "é", "R99"];

pub fn run(ctx: &mut Ctx) {
    ctx.explore("intact", "every sample file, whole, or any subset of at most two of its blocks in any order", |e| {
        let i = e.choose(samples().len());
        let s = &samples()[i];
        let n = s.blocks.len();
        let a = e.choose(n + 2);
        let b = e.choose(n + 1);
        let body = match (a, b) {
            (x, _) if x == n + 1 => s.blocks.concat(),
            (x, y) => [x, y].iter().filter_map(|k| s.blocks.get(*k).cloned()).collect::<Vec<_>>().concat(),
        };
        usable(e, || format!("{}: blocks {a} {b}", s.name), (s.header.clone() + &body).as_bytes())
    });
    ctx.explore("fields", "every sample file, any word of any line replaced by a wild value, columns kept or not", |e| {
        let i = e.choose(samples().len());
        let l = lines_of(&samples()[i]);
        let n = e.choose(l.len());
        let mut words = vec![];
        let mut at = 0;
        for w in l[n].split(' ') {
            if !w.is_empty() {
                words.push((at, w.len()));
            }
            at += w.len() + 1;
        }
        if words.is_empty() {
            e.trivial();
            return Ok(());
        }
        let (at, len) = words[e.choose(words.len())];
        let k = *e.pick(&WILD);
        let keep = e.flag();
        let mut x = l.clone();
        let r = if keep { format!("{k:>len$.len$}") } else { k.to_string() };
        x[n].replace_range(at..at + len, &r);
        usable(e, || format!("{}: {:?} of line {n} replaced by {r:?}", samples()[i].name, &l[n][at..at + len]), x.join("\n").as_bytes())
    });
    let columns = ctx.q(0, 1);
    ctx.explore("columns", "every sample file, the four columns that follow any column (quick: any multiple of 3) of any line replaced by blanks, digits, zeros or letters", move |e| {
        let i = e.choose(samples().len());
        let l = lines_of(&samples()[i]);
        let n = e.choose(l.len());
        let step = if columns == 1 { 1 } else { 3 };
        let c = e.choose(l[n].len() / step + 1) * step;
        let k = *e.pick(&["    ", "9999", "0000", "-1-1", "ABCD"]);
        let mut x = l.clone();
        let end = (c + 4).min(x[n].len());
        let c = c.min(end);
        if !x[n].is_char_boundary(c) || !x[n].is_char_boundary(end) {
            e.trivial();
            return Ok(());
        }
        x[n].replace_range(c..end, k);
        usable(e, || format!("{}: columns {c}.. of line {n} replaced by {k:?}", samples()[i].name), x.join("\n").as_bytes())
    });
    let small = ctx.q(1, 0) == 1;
    ctx.explore("characters", "every sample file, any letter or digit of any line (header: of its content) replaced by any of an alphabet of digits and letters", move |e| {
        let i = e.choose(samples().len());
        let l = lines_of(&samples()[i]);
        let h = samples()[i].header.lines().count();
        let n = e.choose(l.len());
        let width = if n < h { l[n].len().min(60) } else { l[n].len() };
        let spots: Vec<usize> = (0..width).filter(|c| l[n].as_bytes()[*c].is_ascii_alphanumeric()).collect();
        if spots.is_empty() {
            e.trivial();
            return Ok(());
        }
        let c = *e.pick(&spots);
        let alphabet: &[u8] = if small && c >= 4 && n >= h { b"09AZ" } else if small { b"012469ACEGJRSZ" } else { b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz" };
        let k = *e.pick(alphabet) as char;
        let mut x = l.clone();
        x[n].replace_range(c..c + 1, &k.to_string());
        usable(e, || format!("{}: character {c} of line {n} replaced by {k:?}", samples()[i].name), x.join("\n").as_bytes())
    });
    ctx.explore("lines", "every sample file, any line removed, doubled, blanked, cut in the middle, or moved anywhere", |e| {
        let i = e.choose(samples().len());
        let mut l = lines_of(&samples()[i]);
        let n = e.choose(l.len());
        let how = e.choose(5);
        let mut m = 0;
        match how {
            0 => {
                l.remove(n);
            },
            1 => l.insert(n, l[n].clone()),
            2 => l[n].clear(),
            3 => {
                let k = l[n].len() / 2;
                l[n].truncate(k);
            },
            _ => {
                m = e.choose(l.len());
                let x = l.remove(n);
                l.insert(m, x);
            },
        }
        usable(e, || format!("{}: line {n}: {}, {m}", samples()[i].name, ["removed", "doubled", "blanked", "cut", "moved"][how]), l.join("\n").as_bytes())
    });
    ctx.explore("splices", "the header of every sample x the body of every sample, cut at every block", |e| {
        let (i, j) = (e.choose(samples().len()), e.choose(samples().len()));
        let (a, b) = (&samples()[i], &samples()[j]);
        let n = e.choose(b.blocks.len() + 1);
        let x = a.header.clone() + &b.blocks[n..].concat() + &a.blocks.concat();
        usable(e, || format!("header of {}, blocks {n}.. of {}", a.name, b.name), x.as_bytes())
    });
    let all = ctx.q(0, 1);
    ctx.explore("labels", "the header of every sample file with one more line: any label of any format x the content of any header line of any sample (quick: of its own label, blank or wild)", move |e| {
        let i = e.choose(samples().len());
        let l = LABELS[e.choose(LABELS.len())];
        let mut c: Vec<String> = if all == 1 {
            contents().clone()
        } else {
            samples().iter().flat_map(|s| s.header.lines()).filter(|x| x.get(60..).is_some_and(|y| y.trim() == l)).map(|x| x[..60].to_string()).collect()
        };
        c.extend(["", "999999999999999999999999999999999999999999999999999999999999", "-1 -1 -1 -1 -1 -1", "    nan   nan   nan   nan", "    inf   inf  -inf   1e308", "  0  0  0  0  0  0"].map(|s| s.to_string()));
        c.sort();
        c.dedup();
        let c = &c[e.choose(c.len())];
        let end = e.flag();
        let s = &samples()[i];
        let x = format!("{c:60.60}{l}\n");
        let p = if end { s.header.trim_end().rfind('\n').unwrap() + 1 } else { s.header.find('\n').unwrap() + 1 };
        usable(e, || format!("{}: {x:?} inserted", s.name), (s.header[..p].to_string() + &x + &s.text()[p..]).as_bytes())
    });
    if all == 1 {
        ctx.explore("two fields", "every sample file, any two words at most 8 words apart replaced by a wild value", |e| {
            let i = e.choose(samples().len());
            let l = lines_of(&samples()[i]);
            let n = e.choose(l.len());
            let mut words = vec![];
            for (k, line) in l.iter().enumerate().skip(n).take(4) {
                let mut at = 0;
                for w in line.split(' ') {
                    if !w.is_empty() {
                        words.push((k, at, w.len()));
                    }
                    at += w.len() + 1;
                }
            }
            let first = words.iter().filter(|w| w.0 == n).count();
            if first == 0 || words.len() < 2 {
                e.trivial();
                return Ok(());
            }
            let a = e.choose(first);
            let b = a + 1 + e.choose(8);
            let (x, y) = (*e.pick(&WILD[..16]), *e.pick(&WILD[..16]));
            if b >= words.len() {
                e.trivial();
                return Ok(());
            }
            let mut t = l.clone();
            for ((k, at, len), v) in [(words[b], y), (words[a], x)] {
                t[k].replace_range(at..at + len, &format!("{v:>len$.len$}"));
            }
            usable(e, || format!("{}: words {:?} {:?} replaced by {x:?} {y:?}", samples()[i].name, words[a], words[b]), t.join("\n").as_bytes())
        });
    }
}
