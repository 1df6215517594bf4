//! P14: meteo files.
use crate::engine::*;
use crate::model::met::*;
use crate::model::obs::MTime;
use crate::util::*;
use crate::{bail, ensure};

fn check(e: &mut Exec, m: &MMet, text: &str) -> R {
    e.note(|| format!("file:\n{text}"));
    let want = m.expected();
    let rnx = no_panic("Rinex::parse", || parse_str(text))?.map_err(|x| format!("Rinex::parse refused a well-formed file: {x:?}"))?;
    if let Some(d) = diff(&want, &observed(&rnx)?, 1e-9) {
        bail!("reading: {d}");
    }
    let out = no_panic("format", || format_rinex(&rnx))?.map_err(|x| format!("formatting failed: {x}"))?;
    e.note(|| format!("written:\n{out}"));
    match m.read(&out) {
        Ok(r) => {
            if let Some(d) = diff(&want, &r, 1e-9) {
                bail!("written text read by the column tables: {d}");
            }
        },
        Err(x) => bail!("written text: {x}"),
    }
    for l in out.lines().take_while(|l| !l.contains("END OF HEADER")) {
        if l.contains("# / TYPES OF OBSERV") {
            ensure!(l.find("# / TYPES OF OBSERV") == Some(60), "label not in column 61: {l:?}");
        }
    }
    let back = no_panic("Rinex::parse", || parse_str(&out))?.map_err(|x| format!("Rinex::parse of the output: {x:?}"))?;
    if let Some(d) = diff(&want, &observed(&back)?, 1e-9) {
        bail!("read back: {d}");
    }
    for (k, v) in &want {
        e.state(&(format!("{k:?}"), v.to_bits()));
    }
    m.epochs.iter().for_each(|_| e.step());
    e.outcome(&out);
    e.validated();
    Ok(())
}
fn t(i: usize) -> MTime {
    MTime(2021, 12, 31, 23, 59 - (i == 0) as u8 * 59, 10_000_000 * (i as u32 * 15))
}

pub fn run(ctx: &mut Ctx) {
    const V: [&str; 4] = ["2.11", "3.04", "4.00", "2.10"];
    let nmax = ctx.q(10, 10);
    ctx.explore("presence", "every number of codes x every presence pattern (first epoch), complement in the second epoch, trimmed or padded lines, with or without a last line end", move |e| {
        let version = *e.pick(&V[..2]);
        let n = 1 + e.choose(nmax);
        let mut a = vec![];
        for k in 0..n {
            a.push(if e.flag() { Some(10_000 + k as i64) } else { None });
        }
        let b = a.iter().enumerate().map(|(k, x)| if x.is_none() { Some(-(k as i64) - 1) } else { None }).collect();
        let trim = e.choose(3);
        let m = MMet { version, codes: MET_CODES[..n].to_vec(), epochs: vec![(t(0), a), (t(1), b)] };
        let mut x = m.text(trim);
        if e.flag() {
            x.pop();
        }
        check(e, &m, &x)
    });
    ctx.explore("codes", "every ordered pair of codes, every value of a list in each position, every version", |e| {
        let version = *e.pick(&V);
        let i = e.choose(10);
        let j = e.choose(9);
        let j = j + (j >= i) as usize;
        let val = [0i64, 1, -1, 9, -9, 10, 10_132, -500, 9_999, 99_999, -99_999, 999_999, 1_000_00];
        let v = Some(*e.pick(&val));
        let w = *e.pick(&[Some(10_132), None]);
        let vals = if e.flag() { vec![v, w] } else { vec![w, v] };
        let m = MMet { version, codes: vec![MET_CODES[i], MET_CODES[j]], epochs: vec![(t(0), vals)] };
        let x = m.text(e.choose(3));
        check(e, &m, &x)
    });
    let len = ctx.q(4, 6);
    ctx.explore("history", "every sequence of epochs: each value present or missing, 1, 2, 8, 9 or 10 codes", move |e| {
        let version = *e.pick(&V[..2]);
        let n = *e.pick(&[1usize, 2, 8, 9, 10]);
        let l = 1 + e.choose(len);
        let mut m = MMet { version, codes: MET_CODES[..n].to_vec(), epochs: vec![] };
        for i in 0..l {
            let s = e.choose(4);
            let vals = (0..n).map(|k| match s {
                0 => Some((i * 100 + k) as i64),
                1 => None,
                2 => if k + 1 == n { None } else { Some(-((i * 100 + k) as i64)) },
                _ => if k == 0 { None } else { Some(99_000 + k as i64) },
            }).collect();
            m.epochs.push((MTime(2021, 1, 1, 0, i as u8, 0), vals));
        }
        let x = m.text(e.choose(3));
        check(e, &m, &x)
    });
    ctx.explore("dates", "calendar dates x time of day, two-digit and four-digit years", |e| {
        let version = *e.pick(&V);
        let y = *e.pick(&[1980, 1989, 1999, 2000, 2001, 2009, 2010, 2020, 2079]);
        let (mo, d) = *e.pick(&[(1u8, 1u8), (2, 28), (3, 1), (6, 30), (9, 9), (10, 10), (12, 31)]);
        let (h, mi, s) = *e.pick(&[(0u8, 0u8, 0u32), (0, 0, 1), (9, 9, 9), (10, 10, 10), (12, 30, 0), (23, 59, 59)]);
        let m = MMet {
            version,
            codes: vec!["PR", "TD"],
            epochs: vec![(MTime(y, mo, d, h, mi, s * 10_000_000), vec![Some(10_000), Some(-3)])],
        };
        let x = m.text(1);
        check(e, &m, &x)
    });
    ctx.explore("long", "files of 1..1025 epochs (67 sizes) x versions x spacing x 1, 3, 8, 9 or 10 codes, values of every width, some missing", |e| {
        let version = *e.pick(&V[..2]);
        let n = *e.pick(&counts());
        let c = *e.pick(&[1usize, 3, 8, 9, 10]);
        let dt = *e.pick(&[1u64, 30, 900]);
        let m = MMet {
            version,
            codes: MET_CODES[..c].to_vec(),
            epochs: (0..n)
                .map(|i| (clock_at(i as u64 * dt), (0..c).map(|k| if (i + k) % 7 == 3 { None } else { Some([1, -10, 1000 + i as i64, -9_999, 99_999][(i + k) % 5]) }).collect()))
                .collect(),
        };
        let x = m.text(1);
        check(e, &m, &x)
    });
}
