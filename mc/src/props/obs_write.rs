//! P06: observation files, write then read.
use super::obs_read::*;
use crate::engine::*;
use crate::model::obs::*;
use crate::util::*;
use crate::{bail, ensure};

fn check(e: &mut Exec, m: &MFile) -> R {
    let text = m.text(1);
    e.note(|| format!("rinex:\n{text}"));
    let rnx = no_panic("Rinex::parse", || parse_str(&text))?.map_err(|x| format!("Rinex::parse: {x:?}"))?;
    let exp = m.expected();
    let read = observed(&rnx)?;
    ensure!(diff(&exp, &read, TOL).is_none(), "the file itself is misread: {}", diff(&exp, &read, TOL).unwrap());
    let out = match no_panic("format", || format_rinex(&rnx))? {
        Ok(t) => t,
        Err(x) => bail!("formatting failed: {x}"),
    };
    e.note(|| format!("written:\n{out}"));
    e.outcome(&out);
    match crate::model::obsrd::read(&out, m) {
        Ok(d) => {
            if let Some(d) = diff(&exp, &d, TOL) {
                bail!("read by the column tables: {d}");
            }
        },
        Err(x) => bail!("not a RINEX {} body: {x}", m.version),
    }
    let back = no_panic("Rinex::parse", || parse_str(&out))?.map_err(|x| format!("Rinex::parse of the output: {x:?}"))?;
    if let Some(d) = diff(&exp, &observed(&back)?, TOL) {
        bail!("read back: {d}");
    }
    let again = no_panic("format", || format_rinex(&back))?.map_err(|x| format!("formatting again failed: {x}"))?;
    ensure!(again == out, "writing is not stable: {again:?}");
    for (k, v) in &exp {
        e.step();
        e.state(&(format!("{k:?}"), v.1.len(), v.0.map(|f| f.to_bits())));
    }
    e.validated();
    Ok(())
}

fn sat(n: usize) -> (char, u8) {
    match n {
        0 => ('S', 20),
        1..=32 => ('G', n as u8),
        _ => ('R', (n - 32) as u8),
    }
}

fn go(ctx: &mut Ctx, v2: bool) {
    let v = if v2 { "v2" } else { "v3" };
    let name = |s: &str| format!("{v}-{s}");
    let unit = |c: i64| if v2 { c } else { c * 1001 };

    let nc = ctx.q(20, 20);
    let ns = ctx.q(26, 56);
    ctx.explore(&name("shape"), "every number of signals x number of satellites, with or without a clock, in all file versions of this layout", move |e| {
        let n = 1 + e.choose(nc);
        let s = 1 + e.choose(ns);
        let clk = if e.flag() { Some(unit(-1_234_567)) } else { None };
        let mut m = mixed(v2, &['S', 'G', 'R'], n);
        m.version = e.pick(if v2 { &["2.10", "2.11", "2", "1"] } else { &["3.02", "3.04", "4.00"] });
        let sats = (0..s).map(|j| {
            let (sys, prn) = sat(j);
            MSat { sys, prn, obs: (0..n).map(|k| mo(20_000_000_000 + (j * 100 + k) as i64, b' ', b'7')).collect() }
        });
        m.epochs.push(MEpoch { t: at(0), flag: 0, clock: clk, sats: sats.collect() });
        check(e, &m)
    });
    let maxn = ctx.q(11, 14);
    ctx.explore(&name("presence"), "every presence pattern of 1..N signals of a satellite between two complete ones", move |e| {
        let n = 1 + e.choose(maxn);
        let mut m = file(v2, 'G', n);
        let ob = |i: usize, k: usize| mo(20_000_000_000 + (i * 1000 + k) as i64, b'1', b'6');
        let mut any = false;
        let mid: Vec<_> = (0..n)
            .map(|k| {
                let f = e.flag();
                any |= f;
                if f { ob(1, k) } else { None }
            })
            .collect();
        let full = |i| (0..n).map(|k| ob(i, k)).collect::<Vec<_>>();
        let mut sats = vec![MSat { sys: 'G', prn: 3, obs: full(0) }];
        if any {
            sats.push(MSat { sys: 'G', prn: 9, obs: mid });
        }
        sats.push(MSat { sys: 'G', prn: 19, obs: full(2) });
        m.epochs.push(MEpoch { t: at(0), flag: 0, clock: None, sats });
        check(e, &m)
    });
    let len = ctx.q(3, 4);
    ctx.explore(&name("history"), "every history of N epochs over {0, 1, 2, 3 satellites} x {no clock, +, -, 0} x {ok, power failure, cycle slips}", move |e| {
        let n = 1 + e.choose(len);
        let mut m = mixed(v2, &['G', 'R', 'E'], 2);
        for i in 0..n {
            let k = e.choose(4);
            let clock = (*e.pick(&[None, Some(123_456_789), Some(-98_765_432), Some(0)])).map(unit);
            let flag = *e.pick(&[0, 1, 6]);
            let sats = (0..k).map(|j| MSat { sys: ['G', 'R', 'E'][j], prn: 5 + i as u8, obs: vec![mo(20_000_000_000 + (i * 10 + j) as i64, b' ', b'1'), mo(-5, b'2', b' ')] });
            m.epochs.push(MEpoch { t: at(i), flag, clock, sats: sats.collect() });
        }
        check(e, &m)
    });
    ctx.explore(&name("flags"), "every LLI x SSI of three neighbouring observations", move |e| {
        let mut m = file(v2, 'G', 3);
        let mut obs = vec![];
        for k in 0..3 {
            let (l, s) = if k < 2 {
                (*e.pick(b" 01234567"), *e.pick(b" 0123456789"))
            } else {
                (*e.pick(b" 1"), *e.pick(b" 9"))
            };
            obs.push(mo(20_000_000_000 + k, l, s));
        }
        m.epochs.push(MEpoch { t: at(0), flag: 0, clock: None, sats: vec![MSat { sys: 'G', prn: 30, obs }] });
        check(e, &m)
    });
    ctx.explore(&name("values"), "every pair of values from a list, in neighbouring fields, including full-width ones", move |e| {
        const V: &[i64] = &[0, 1, -1, 999, -999, 1000, 123_456, 20_000_000_123, -20_000_000_123, 9_999_999_999_999, -999_999_999_999, 999_999_999_999, 500, -500, 1_005];
        let mut m = file(v2, 'G', 2);
        let obs = (0..2).map(|_| mo(*e.pick(V), b' ', b' ')).collect();
        m.epochs.push(MEpoch { t: at(0), flag: 0, clock: None, sats: vec![MSat { sys: 'G', prn: 30, obs }] });
        check(e, &m)
    });
    ctx.explore(&name("clocks"), "clock offsets over the width of the field", move |e| {
        const V2: &[i64] = &[0, 1, -1, 999_999_999, -999_999_999, 1_000_000_000, 5_000, -5_000, 9_999_999_999, -1_234_567_891];
        const V3: &[i64] = &[0, 1, -1, 999_999_999_999, -999_999_999_999, 1_000_000_000_000, 5_000_000, 99_999_999_999_999, -9_999_999_999_999];
        let mut m = file(v2, 'G', 2);
        for i in 0..2 {
            let c = *e.pick(if v2 { V2 } else { V3 });
            m.epochs.push(MEpoch { t: at(i), flag: 0, clock: Some(c), sats: vec![MSat { sys: 'G', prn: 30, obs: vec![mo(1, b' ', b' '), mo(2, b' ', b' ')] }] });
        }
        check(e, &m)
    });
    ctx.explore(&name("dates"), "every year the layout can express x every month x days 1, 10, last x times of day x sub-second digits, in all time scales", move |e| {
        let y = if v2 { 1980 + e.choose(100) as i32 } else { 1980 + 4 * e.choose(30) as i32 };
        let mo_ = 1 + e.choose(12) as u8;
        let d = *e.pick(&[1u8, 10, 28]);
        let (h, mi, t) = *e.pick(&[(0u8, 0u8, 0u32), (9, 9, 90_000_001), (23, 59, 599_999_999), (12, 30, 301_000_000)]);
        let sys = *e.pick(&['G', 'R', 'E', 'C']);
        if sys == 'C' && y < 2006 || sys == 'E' && y < 2000 {
            e.trivial();
            return Ok(());
        }
        let mut m = file(v2, sys, 1);
        m.epochs.push(MEpoch { t: MTime(y, mo_, d, h, mi, t), flag: 0, clock: None, sats: vec![MSat { sys, prn: 11, obs: vec![mo(123, b' ', b' ')] }] });
        check(e, &m)
    });
}

pub fn run(ctx: &mut Ctx) {
    go(ctx, false);
    go(ctx, true);
    sizes(ctx, false, "v3-", check);
    sizes(ctx, true, "v2-", check);
}
