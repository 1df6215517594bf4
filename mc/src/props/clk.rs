//! P15: clock files.
use crate::bail;
use crate::engine::*;
use crate::model::clk::*;
use crate::model::obs::MTime;
use crate::util::*;

fn check(e: &mut Exec, m: &MClkFile, text: &str) -> R {
    e.note(|| format!("file:\n{text}"));
    let want = m.expected();
    let rnx = no_panic("Rinex::parse", || parse_str(text))?.map_err(|x| format!("Rinex::parse refused a well-formed file: {x:?}"))?;
    let got = observed(&rnx)?;
    e.outcome(&format!("{got:?}"));
    if let Some(d) = diff(&want, &got) {
        bail!("{d}");
    }
    for (k, v) in &want {
        e.state(&(format!("{k:?}{v:?}")));
    }
    m.entries.iter().for_each(|_| e.step());
    e.validated();
    Ok(())
}
const VERSIONS: [&str; 6] = ["3.00", "3.04", "2.00", "3.02", "3.03", "3.01"];
const VAL: [(i64, i32); 10] = [
    (123_456_789_012, 0),
    (-123_456_789_012, -3),
    (0, 0),
    (999_999_999_999, 9),
    (-999_999_999_999, 12),
    (100_000_000_000, -12),
    (-100_000_000_000, -30),
    (500_000_000_001, 1),
    (-1, -9),
    (338_036_288_247, -10),
];
fn name_for(kind: &str, i: usize, long: bool) -> Name {
    if kind == "AS" || kind == "MS" {
        let l = [('G', 1u8), ('G', 32), ('R', 24), ('E', 36), ('C', 61), ('J', 2), ('G', 10)];
        let (s, p) = l[i % l.len()];
        Name::Sat(s, p)
    } else if long {
        Name::Sta(["AREQ00USA", "BRUX", "USN7", "DGAR00GBR", "NYA2", "TRO1", "G101"][i % 7])
    } else {
        Name::Sta(["AREQ", "BRUX", "USNO", "PIE1", "NYA2", "TRO1", "G101"][i % 7])
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.explore("fields", "one line: version x kind x name x number of values 1..6 x one deviating value at each position x trimming", |e| {
        let version = *e.pick(&VERSIONS);
        let kind = *e.pick(&["AR", "AS", "CR", "DR", "MS"]);
        let i = e.choose(7);
        let n = 1 + e.choose(6);
        let mut vals: Vec<_> = (0..n).map(|k| (100_000_000_000 + k as i64, -(k as i32))).collect();
        let p = e.choose(n);
        vals[p] = *e.pick(&VAL);
        let long = version == "3.04";
        let m = MClkFile {
            version,
            sys: 'G',
            scale: Some("GPS"),
            entries: vec![
                MClk { kind, name: name_for(kind, i, long), t: MTime(2021, 12, 31, 23, 59, 595_000_000), vals },
                MClk { kind: "AR", name: name_for("AR", 1, long), t: MTime(2022, 1, 1, 0, 0, 0), vals: vec![(5, 0)] },
            ],
        };
        let x = m.text(e.choose(3));
        check(e, &m, &x)
    });
    let len = ctx.q(3, 4);
    ctx.explore("history", "every sequence of lines over kind x name (2 per kind) x epoch (same or next) x number of values", move |e| {
        let version = *e.pick(&VERSIONS[..2]);
        let long = version == "3.04";
        let n = 1 + e.choose(len);
        let mut m = MClkFile { version, sys: 'M', scale: Some("GPS"), entries: vec![] };
        let mut t = 0u32;
        for k in 0..n {
            let kind = *e.pick(&["AR", "AS", "DR"]);
            let i = e.choose(2);
            if k > 0 {
                t += e.choose(2) as u32;
            }
            let nv = *e.pick(&[1usize, 2, 3, 6]);
            m.entries.push(MClk {
                kind,
                name: name_for(kind, i, long),
                t: MTime(2021, 3, 11, 0, t as u8, 0),
                vals: (0..nv).map(|j| ((k * 10 + j) as i64 + 1, -2)).collect(),
            });
        }
        // a later line for the same clock and epoch replaces the earlier one: keep keys unique
        let mut seen = std::collections::HashSet::new();
        if !m.entries.iter().all(|c| seen.insert((c.kind, c.name.clone(), c.t))) {
            e.trivial();
            return Ok(());
        }
        let mut x = m.text(1);
        if e.flag() {
            x.pop();
        }
        check(e, &m, &x)
    });
    ctx.explore("scales", "file system x time system identification x version x calendar dates x seconds (fractions included)", |e| {
        let version = *e.pick(&VERSIONS);
        let sys = *e.pick(&['G', 'R', 'E', 'C', 'M']);
        let scale = *e.pick(&[None, Some("GPS"), Some("UTC"), Some("TAI"), Some("GAL"), Some("BDT")]);
        let (y, mo, d) = *e.pick(&[(1994, 7u8, 14u8), (1999, 12, 31), (2000, 2, 29), (2016, 12, 31), (2017, 1, 1), (2021, 6, 5)]);
        let (h, mi, s) = *e.pick(&[(0u8, 0u8, 0u32), (9, 9, 9), (23, 59, 59), (12, 0, 30)]);
        let f = *e.pick(&[0u32, 5_000_000, 10, 9_999_990, 500_000, 1_234_560]);
        let m = MClkFile {
            version,
            sys,
            scale,
            entries: vec![MClk { kind: "AS", name: Name::Sat('G', 3), t: MTime(y, mo, d, h, mi, s * 10_000_000 + f), vals: vec![(77, -4), (78, -9)] }],
        };
        let x = m.text(1);
        check(e, &m, &x)
    });
    ctx.explore("long", "files of 1..1025 lines (67 sizes) x versions x lines per epoch (1 to all) x number of values, satellites of 5 systems and as many stations", |e| {
        let version = *e.pick(&VERSIONS[..2]);
        let long = version == "3.04";
        let n = *e.pick(&counts());
        let per = *e.pick(&[1usize, 2, 10, 2000]);
        let nv = *e.pick(&[1usize, 2, 6, 0]);
        let m = MClkFile {
            version,
            sys: 'M',
            scale: Some("GPS"),
            entries: (0..n)
                .map(|i| {
                    // a new clock for each line of an epoch
                    let k = i % per;
                    let (kind, name) = match k % 3 {
                        0 if k / 3 < 250 => ("AS", Name::Sat(['G', 'R', 'E', 'C', 'J'][k / 3 % 5], 1 + (k / 3 / 5) as u8)),
                        _ => (["AR", "DR", "CR"][k % 3], Name::Sta(station(k, long))),
                    };
                    let nv = if nv == 0 { 1 + i % 6 } else { nv };
                    MClk { kind, name, t: clock_at((i / per) as u64 * 30), vals: (0..nv).map(|j| VAL[(i + j) % VAL.len()]).collect() }
                })
                .collect(),
        };
        let x = m.text(1);
        check(e, &m, &x)
    });
}
/// Distinct names of stations
fn station(k: usize, long: bool) -> &'static str {
    static N: std::sync::OnceLock<Vec<[String; 2]>> = std::sync::OnceLock::new();
    let all = N.get_or_init(|| (0..1100).map(|k| [format!("{}{:03}", (b'A' + (k % 20) as u8) as char, k % 1000), format!("{}{:04}0FRA", (b'A' + (k % 20) as u8) as char, k)]).collect());
    &all[k][long as usize]
}
