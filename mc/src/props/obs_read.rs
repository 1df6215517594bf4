//! P04 / P05: what a reader makes of an observation file.
use crate::engine::*;
use crate::model::obs::*;
use crate::util::*;
use crate::{bail, ensure};

pub const TOL: f64 = 1e-6;

/// Reads the model's text and compares with the model.
pub fn check_text(e: &mut Exec, m: &MFile, text: &str) -> R {
    e.note(|| format!("file:\n{text}"));
    let rnx = match no_panic("Rinex::parse", || parse_str(text))? {
        Ok(r) => r,
        Err(x) => bail!("Rinex::parse refused a well-formed file: {x:?}"),
    };
    let got = observed(&rnx)?;
    let want = m.expected();
    for (k, v) in &want {
        e.state(&(format!("{:?}", k), v.0.map(|f| f.to_bits()), v.1.len()));
        for (id, s) in &v.1 {
            e.state(&(id, s.value.to_bits(), s.lli, s.ssi));
        }
    }
    for _ in &m.epochs {
        e.step();
    }
    e.outcome(&format!("{got:?}"));
    if let Some(d) = diff(&want, &got, TOL) {
        bail!("{d}");
    }
    e.validated();
    Ok(())
}

pub const T0: MTime = MTime(2021, 1, 1, 0, 0, 0);
pub fn at(i: usize) -> MTime {
    MTime(2021, 1, 1, 0, (i / 2) as u8, if i % 2 == 0 { 0 } else { 300_000_000 })
}

fn codes(n: usize) -> Vec<String> {
    let mut v = vec![];
    for b in [
        "1C", "2W", "5Q", "2L", "5I", "1W", "2X", "1S", "1L", "1X", "1P", "1Y", "1M", "2C", "2D", "2S", "2P", "2Y", "2M", "5X", "6A", "6B", "6C", "6X",
        "6Z", "7I", "7Q", "7X", "8I", "8Q", "8X", "3I", "3Q", "3X", "4A",
    ] {
        for t in ["C", "L", "D", "S"] {
            v.push(format!("{t}{b}"));
        }
    }
    v.truncate(n);
    v
}
fn codes_v2(n: usize) -> Vec<String> {
    ["C1", "L1", "D1", "S1", "P2", "L2", "D2", "S2", "C5", "L5", "D5", "S5", "P1", "C2", "C7", "L7", "D7", "S7", "C8", "L8"]
        .iter()
        .take(n)
        .map(|s| s.to_string())
        .collect()
}
pub fn mk_codes(v2: bool, n: usize) -> Vec<String> {
    if v2 {
        codes_v2(n)
    } else {
        codes(n)
    }
}

/// One system file with n codes.
pub fn file(v2: bool, sys: char, n: usize) -> MFile {
    MFile {
        version: if v2 { "2.11" } else { "3.04" },
        sys,
        codes: vec![(sys, mk_codes(v2, n))],
        scale: match sys {
            'R' => "GLO",
            'E' => "GAL",
            'C' => "BDT",
            _ => "GPS",
        },
        epochs: vec![],
    }
}
/// Mixed file over systems, in GPS time.
pub fn mixed(v2: bool, sys: &[char], n: usize) -> MFile {
    MFile {
        version: if v2 { "2.11" } else { "3.04" },
        sys: 'M',
        codes: sys.iter().map(|s| (*s, mk_codes(v2, n))).collect(),
        scale: "GPS",
        epochs: vec![],
    }
}

/// s satellites of many systems, up to n codes each (RINEX 3: fewer for the later systems).
pub fn large(v2: bool, s: usize, n: usize, clock: Option<i64>, epochs: usize) -> MFile {
    let all: &[(char, u8, u8)] = if v2 {
        &[('G', 1, 32), ('R', 1, 27), ('E', 1, 36), ('S', 20, 39)]
    } else {
        &[('C', 1, 63), ('G', 1, 32), ('R', 1, 27), ('E', 1, 36), ('J', 1, 9), ('S', 20, 39), ('I', 1, 14)]
    };
    let mut m = mixed(v2, &all.iter().map(|a| a.0).collect::<Vec<_>>(), n);
    if !v2 {
        for (k, c) in m.codes.iter_mut().enumerate() {
            let l = c.1.len();
            c.1.truncate((l - k.min(l - 1)).max(1));
        }
    }
    for i in 0..epochs {
        let mut sats = vec![];
        for j in 0..s {
            // round robin: systems alternate in the list
            let mut left = j;
            let mut round = 0;
            let (sys, prn) = 'found: loop {
                for a in all {
                    if round < a.2 {
                        if left == 0 {
                            break 'found (a.0, a.1 + round);
                        }
                        left -= 1;
                    }
                }
                round += 1;
            };
            let l = m.codes_of(sys).len();
            let obs = (0..l).map(|k| mo(20_000_000_000 + ((i * 31 + j) * 1000 + k) as i64, b' ', b"3456789"[(j + k) % 7])).collect();
            sats.push(MSat { sys, prn, obs });
        }
        m.epochs.push(MEpoch { t: at(i), flag: 0, clock, sats });
    }
    m
}
/// A long recording: n epochs, satellites that come and go, clocks that come and go.
pub fn long(v2: bool, n: usize, style: usize) -> MFile {
    let mut m = mixed(v2, &['G', 'R'], 2);
    for i in 0..n {
        let (h, mi, s) = (i / 120, i / 2 % 60, i % 2 * 30);
        let t = MTime(2021, 3, 1 + (h / 24) as u8, (h % 24) as u8, mi as u8, s as u32 * 10_000_000);
        let v = |k: i64| 20_000_000_000 + (i as i64 * i as i64) * (k + 3) + k * 1_000_000;
        let mut sats = vec![MSat { sys: 'G', prn: 1, obs: vec![mo(v(0), b' ', b'7'), mo(-v(1) / 7, if i % 9 == 0 { b'1' } else { b' ' }, b'6')] }];
        let second = match style {
            0 => true,
            1 => i % 50 < 30,
            _ => false,
        };
        if second {
            sats.push(MSat { sys: 'R', prn: 9, obs: vec![mo(v(2), b' ', b'5'), if style == 1 && i % 11 == 0 { None } else { mo(v(3) / 3, b' ', b' ') }] });
        }
        let clock = if style == 2 { Some((i as i64 * 1_000 - 50_000) * if v2 { 1 } else { 1001 }) } else { None };
        m.epochs.push(MEpoch { t, flag: (style == 1 && i % 70 == 69) as u8, clock, sats });
    }
    m
}
pub fn sizes(ctx: &mut Ctx, v2: bool, prefix: &str, f: fn(&mut Exec, &MFile) -> R) {
    const S: &[usize] = &[12, 13, 24, 25, 36, 37, 48, 49, 60, 61, 63, 64, 65, 72, 73, 84, 96, 97, 99, 100, 127, 128, 134];
    ctx.explore(
        &format!("{prefix}large"),
        "12 to 134 satellites of all systems in alternation, 1 to 128 codes (RINEX 2: 20; fewer for the later systems in RINEX 3), with or without a clock, two epochs",
        move |e| {
            let n = *e.pick(if v2 { &[1, 2, 5, 6, 10, 11, 20] } else { &[1, 2, 13, 14, 26, 27, 40, 63, 64, 65, 100, 128] });
            let s = *e.pick(S);
            let clock = if e.flag() { Some(if v2 { -123_456_789 } else { -123_456_789_012 }) } else { None };
            f(e, &large(v2, s, n, clock, 2))
        },
    );
    let max = ctx.q(7, 9);
    ctx.explore(
        &format!("{prefix}long"),
        "recordings of up to 300 epochs (thorough: 3000): permanent satellites; rising and setting satellites, lost signals and power failures; a clock",
        move |e| {
            let n = [50, 99, 127, 128, 129, 256, 300, 1000, 3000][e.choose(max)];
            let style = e.choose(3);
            f(e, &long(v2, n, style))
        },
    );
}

const VALUES: &[i64] = &[
    20_000_000_123,
    0,
    1,
    -1,
    -0_500,
    999,
    12_345,
    -353,
    123_456_789_012,
    9_999_999_999_999,
    -999_999_999_999,
    1_000_000_000_000,
];
const LLI: &[u8] = b" 01234567";
const SSI: &[u8] = b" 0123456789";

fn run(ctx: &mut Ctx, v2: bool) {
    let systems: &[char] = if v2 { &['G', 'R', 'E', 'S', 'M'] } else { &['G', 'R', 'E', 'C', 'J', 'I', 'S', 'M'] };

    ctx.explore(
        "values",
        "one observation field of 3 (each position) over 12 values x 9 LLI x 11 SSI, trimmed or not, neighbours present or missing",
        |e| {
            let sys = *e.pick(if v2 { &['G', 'R'] } else { &['G', 'E'] });
            let mut m = file(v2, sys, 3);
            let pos = e.choose(3);
            let ob = MObs {
                milli: *e.pick(VALUES),
                lli: *e.pick(LLI),
                ssi: *e.pick(SSI),
            };
            let rest = if e.flag() { mo(22_123_456_789, b' ', b' ') } else { None };
            let mut obs = vec![rest; 3];
            obs[pos] = Some(ob);
            let trim = e.choose(3);
            m.epochs.push(MEpoch {
                t: T0,
                flag: 0,
                clock: None,
                sats: vec![MSat { sys, prn: 7, obs }, MSat { sys, prn: 12, obs: vec![mo(1_000, b' ', b'5'), None, mo(5, b'1', b' ')] }],
            });
            let t = m.text(trim);
            check_text(e, &m, &t)
        },
    );

    let maxn = ctx.q(if v2 { 11 } else { 8 }, if v2 { 13 } else { 14 });
    ctx.explore(
        "presence",
        "every presence pattern of the n codes of a satellite (n = 1..N), followed by a second satellite and a second epoch, lines trimmed or blank filled to the last field or to 80 columns",
        move |e| {
            let n = 1 + e.choose(maxn);
            let trim = e.choose(3);
            let mut m = file(v2, 'G', n);
            let mut obs = vec![];
            for i in 0..n {
                obs.push(if e.flag() { mo(20_000_000_000 + i as i64, b'1', b'5') } else { None });
            }
            if obs.iter().all(|o| o.is_none()) {
                e.trivial();
            }
            let full: Vec<_> = (0..n).map(|i| mo(23_000_000_000 + i as i64, b' ', b'7')).collect();
            m.epochs.push(MEpoch {
                t: at(0),
                flag: 0,
                clock: None,
                sats: vec![MSat { sys: 'G', prn: 3, obs: obs.clone() }, MSat { sys: 'G', prn: 9, obs: full }],
            });
            m.epochs.push(MEpoch {
                t: at(1),
                flag: 0,
                clock: None,
                sats: vec![MSat { sys: 'G', prn: 9, obs }],
            });
            let t = m.text(trim);
            check_text(e, &m, &t)
        },
    );

    let nc = ctx.q(if v2 { 20 } else { 28 }, if v2 { 20 } else { 28 });
    let ns = ctx.q(26, 64);
    ctx.explore(
        "shape",
        "every number of codes x every number of satellites (continuation lines of the header, of the satellite list, of the observations), full or last-missing",
        move |e| {
            let n = 1 + e.choose(nc);
            let s = 1 + e.choose(ns);
            let tail = e.choose(3);
            let trim = e.choose(3);
            let mut m = mixed(v2, &['G', 'R'], n);
            let mut sats = vec![];
            for i in 0..s {
                let (sys, prn) = if i < 32 { ('G', i + 1) } else { ('R', i - 31) };
                if prn > 32 {
                    break;
                }
                let mut obs: Vec<_> = (0..n).map(|k| mo(20_000_000_000 + (i * 100 + k) as i64, b' ', b' ')).collect();
                if tail == 1 || (tail == 2 && i % 2 == 1) {
                    obs[n - 1] = None;
                }
                sats.push(MSat { sys, prn: prn as u8, obs });
            }
            m.epochs.push(MEpoch { t: at(0), flag: 0, clock: None, sats: sats.clone() });
            sats.truncate(1);
            m.epochs.push(MEpoch { t: at(1), flag: 0, clock: None, sats });
            let t = m.text(trim);
            check_text(e, &m, &t)
        },
    );

    let len = ctx.q(3, 4);
    ctx.explore(
        "history",
        "every history of epochs: satellite set x clock x epoch flag x missing pattern; event records (flags 2-5) between epochs carry header or no lines",
        move |e| {
            let mut m = mixed(v2, &['G', 'E'], 2);
            let n = 1 + e.choose(len);
            let mut t = m.header();
            let mut lines = vec![];
            for i in 0..n {
                let flag = *e.pick(&[0u8, 1, 3, 4, 6]);
                let mut ep = MEpoch { t: at(i), flag, clock: None, sats: vec![] };
                if matches!(flag, 2..=5) {
                    let k = if flag == 4 { 1 } else { 0 };
                    let l = m.epoch_text(&ep)[0].clone();
                    // the date of an event record may be left blank
                    let l = if e.flag() {
                        let (a, w) = if v2 { ("", 26) } else { (">", 29) };
                        format!("{a:<w$}{}", &l[w..])
                    } else {
                        l
                    };
                    let l = if v2 { format!("{}{:3}", &l[..29], k) } else { format!("{}{:3}", &l[..32], k) };
                    lines.push(l);
                    if k == 1 {
                        lines.push(format!("{:60}MARKER NAME", "MOVED"));
                    }
                    m.epochs.push(ep);
                    continue;
                }
                ep.clock = *e.pick(&[None, Some(123_456_789), Some(-123_456_789), Some(0)]);
                let set = *e.pick(&[0b11usize, 0b01, 0b10, 0]);
                for (k, s) in [('G', 5u8), ('E', 30)].iter().enumerate() {
                    if set >> k & 1 == 1 {
                        ep.sats.push(MSat {
                            sys: s.0,
                            prn: s.1,
                            obs: vec![
                                mo(20_000_000_000 + i as i64 * 1000 + k as i64, b' ', b'5'),
                                if (i + k) % 2 == 0 { None } else { mo(i as i64 - 1, b'1', b' ') },
                            ],
                        });
                    }
                }
                lines.extend(m.epoch_text(&ep));
                m.epochs.push(ep);
            }
            let trim = e.choose(3);
            if m.epochs.iter().all(|e| matches!(e.flag, 2..=5)) {
                e.trivial();
            }
            let first = m.epochs[0].clone();
            t.clear();
            let hm = MFile { epochs: vec![first], ..m.clone() };
            t += &hm.header();
            for l in lines {
                t += &fill(&l, trim);
                t.push('\n');
            }
            check_text(e, &m, &t)
        },
    );

    ctx.explore(
        "systems",
        "every constellation of the file x satellite number x number of codes",
        move |e| {
            let sys = *e.pick(systems);
            let n = *e.pick(&[1usize, 3, 6]);
            let mut m = if sys == 'M' {
                if v2 { mixed(v2, &['G', 'R', 'E', 'S'], n) } else { mixed(v2, &['G', 'R', 'E', 'C', 'J', 'I', 'S'], n) }
            } else {
                file(v2, sys, n)
            };
            let s = if sys == 'M' { m.codes[e.choose(m.codes.len())].0 } else { sys };
            let max = match s {
                'G' => 32,
                'R' => 27,
                'E' => 36,
                'C' => 63,
                'J' => 10,
                'I' => 14,
                _ => 58,
            };
            let prn = 1 + e.choose(max) as u8 + if s == 'S' { 19 } else { 0 };
            let other = if s == 'G' && prn == 1 { ('G', 2) } else { (if sys == 'M' { 'G' } else { s }, if prn == 21 { 22 } else { 21 }) };
            let ob = |x: i64| (0..n).map(|k| mo(20_000_000_000 + x + k as i64, b' ', b'4')).collect::<Vec<_>>();
            for i in 0..2 {
                m.epochs.push(MEpoch {
                    t: at(i),
                    flag: 0,
                    clock: None,
                    sats: vec![
                        MSat { sys: s, prn, obs: ob(0) },
                        MSat { sys: other.0, prn: if s == 'J' || s == 'I' { 9 + (prn == 9) as u8 } else { other.1 }, obs: ob(50) },
                    ],
                });
            }
            // J, I: the second satellite number stays in the system's range
            if (s == 'J' || s == 'I') && sys == 'M' {
                for ep in &mut m.epochs {
                    ep.sats[1].sys = 'G';
                }
            }
            let trim = e.choose(3);
            let t = m.text(trim);
            check_text(e, &m, &t)
        },
    );

    ctx.explore(
        "codes",
        "every observable code of the format's tables, at each of 3 columns, between two others",
        move |e| {
            let list: Vec<(char, String)> = if v2 { table_v2() } else { table_v3() };
            let (s, c) = e.pick(&list).clone();
            let pos = e.choose(3);
            let fill: &[&str] = if v2 { &["C1", "L1", "P1", "L2"] } else { &["C1C", "L1C", "C2C", "L2C"] };
            let mut cs: Vec<String> = fill.iter().filter(|x| **x != c).take(2).map(|x| x.to_string()).collect();
            cs.insert(pos, c);
            let mut m = file(v2, s, 3);
            m.codes = vec![(s, cs)];
            m.epochs.push(MEpoch {
                t: T0,
                flag: 0,
                clock: None,
                sats: vec![MSat { sys: s, prn: if s == 'S' { 23 } else { 3 }, obs: vec![mo(1_000, b' ', b' '), mo(2_000, b' ', b' '), mo(3_000, b' ', b' ')] }],
            });
            let t = m.text(e.choose(3));
            let c = &m.codes[0].1[pos];
            // the ionospheric delays are one known finding
            e.label(if c.starts_with('I') { "code I".to_string() } else { format!("code {c}") });
            check_text(e, &m, &t)
        },
    );

    ctx.explore(
        "clock",
        "every clock offset of a list x epoch flags x satellites in the epoch (list ends before, at and after 12), in two following epochs",
        move |e| {
            let mut m = mixed(v2, &['G', 'R'], 1);
            let unit: &[i64] = &[0, 1, -1, 123_456_789, -123_456_789, 999_999_999, -99_999_999, 500_000_000];
            for i in 0..2 {
                let c = e.choose(unit.len() + 1);
                let n = if i == 0 { *e.pick(&[1usize, 2, 11, 12, 13, 24, 25]) } else { 1 };
                m.epochs.push(MEpoch {
                    t: at(i),
                    flag: *e.pick(&[0u8, 1]),
                    clock: c.checked_sub(1).map(|c| unit[c] * if v2 { 1 } else { 1000 } + if v2 { 0 } else { unit[c].signum() }),
                    sats: (0..n).map(|k| MSat { sys: 'G', prn: k as u8 + 1, obs: vec![mo(k as i64, b' ', b' ')] }).collect(),
                });
            }
            let trim = e.choose(3);
            let t = m.text(trim);
            check_text(e, &m, &t)
        },
    );

    if !v2 {
        let len = ctx.q(3, 4);
        ctx.explore(
            "undeclared",
            "every sequence of satellites over 4 systems in two epochs x every subset of systems that the header describes: satellites of the others are skipped",
            move |e| {
                let all = ['G', 'R', 'E', 'S'];
                let set = 1 + e.choose(15);
                let declared: Vec<char> = (0..4).filter(|k| set >> k & 1 == 1).map(|k| all[k]).collect();
                let full = mixed(v2, &all, 2);
                let mut m = mixed(v2, &declared, 2);
                let mut lines = vec![];
                for i in 0..2 {
                    let n = if i == 0 { 1 + e.choose(len) } else { 2 };
                    let mut ep = MEpoch { t: at(i), flag: 0, clock: None, sats: vec![] };
                    for k in 0..n {
                        let s = all[if i == 0 { e.choose(4) } else { (k + set) % 4 }];
                        let prn = k as u8 + 1 + if s == 'S' { 20 } else { 0 };
                        ep.sats.push(MSat { sys: s, prn, obs: vec![mo(1000 * (i + k) as i64, b' ', b'3'), mo(-7 * k as i64, b'1', b' ')] });
                    }
                    lines.extend(full.epoch_text(&ep));
                    ep.sats.retain(|s| declared.contains(&s.sys));
                    m.epochs.push(ep);
                }
                let mut t = m.header();
                for l in lines {
                    t += &fill(&l, 1);
                    t.push('\n');
                }
                check_text(e, &m, &t)
            },
        );
    }

    if v2 {
        ctx.explore(
            "blank-system",
            "single-constellation file whose satellites are written without the system letter or with numbers blank filled to the last field or to 80 columns",
            |e| {
                let sys = *e.pick(&['G', 'R', 'E']);
                let mut m = file(true, sys, 2);
                let n = 1 + e.choose(14);
                let base = *e.pick(&[1u8, 5, 10, 12]);
                let style = e.choose(4);
                for i in 0..2 {
                    m.epochs.push(MEpoch {
                        t: at(i),
                        flag: 0,
                        clock: None,
                        sats: (0..n).map(|k| MSat { sys, prn: base + k as u8, obs: vec![mo(k as i64, b' ', b' '), mo(5, b' ', b'1')] }).collect(),
                    });
                }
                let mut t = m.header();
                for ep in &m.epochs {
                    for (li, l) in m.epoch_text(ep).iter().enumerate() {
                        let mut l = l.clone();
                        if li <= (n - 1) / 12 {
                            let (a, b) = l.split_at(32);
                            let mut x = String::new();
                            for c in b.as_bytes().chunks(3) {
                                let d: u8 = std::str::from_utf8(&c[1..]).unwrap().parse().unwrap();
                                x += &match style {
                                    0 => format!(" {d:02}"),
                                    1 => format!(" {d:2}"),
                                    2 => format!("{sys}{d:2}"),
                                    _ => format!("{sys}{d:02}"),
                                };
                            }
                            l = format!("{a}{x}");
                        }
                        t += l.trim_end();
                        t.push('\n');
                    }
                }
                check_text(e, &m, &t)
            },
        );
    }
    let _ = |c: bool| -> R {
        ensure!(c, "");
        Ok(())
    };
}

/// RINEX 3.04 tables 4-10 (signal codes per system and band).
pub fn table_v3() -> Vec<(char, String)> {
    let t: &[(char, &[(char, &str)])] = &[
        ('G', &[('1', "CSLXPWYMN"), ('2', "CDSLXPWYMN"), ('5', "IQX")]),
        ('R', &[('1', "CP"), ('4', "ABX"), ('2', "CP"), ('6', "ABX"), ('3', "IQX")]),
        ('E', &[('1', "ABCXZ"), ('5', "IQX"), ('7', "IQX"), ('8', "IQX"), ('6', "ABCXZ")]),
        ('S', &[('1', "C"), ('5', "IQX")]),
        ('J', &[('1', "CSLXZ"), ('2', "SLX"), ('5', "IQXDPZ"), ('6', "SLXEZ")]),
        ('C', &[('2', "IQX"), ('1', "DPXA"), ('5', "DPX"), ('7', "IQXDPZ"), ('8', "DPX"), ('6', "IQXA")]),
        ('I', &[('5', "ABCX"), ('9', "ABCX")]),
    ];
    let mut v = vec![];
    for (s, bands) in t {
        for (b, attrs) in *bands {
            for a in attrs.chars() {
                for k in ['C', 'L', 'D', 'S'] {
                    if k == 'C' && a == 'N' {
                        continue; // codeless
                    }
                    v.push((*s, format!("{k}{b}{a}")));
                }
            }
        }
        v.push((*s, "X1".into()));
        for (b, _) in *bands {
            v.push((*s, format!("I{b}")));
        }
    }
    v
}
/// RINEX 2.11 table A1.
fn table_v2() -> Vec<(char, String)> {
    let mut v = vec![];
    for s in ['G', 'R', 'E', 'S'] {
        for c in [
            "C1", "L1", "D1", "S1", "P1", "C2", "P2", "L2", "D2", "S2", "C5", "L5", "D5", "S5", "C6", "L6", "D6", "S6",
            "C7", "L7", "D7", "S7", "C8", "L8", "D8", "S8",
        ] {
            v.push((s, c.to_string()));
        }
    }
    v
}

fn read_sizes(e: &mut Exec, m: &MFile) -> R {
    let t = m.text(e.choose(2));
    check_text(e, m, &t)
}
pub fn v3(ctx: &mut Ctx) {
    run(ctx, false);
    sizes(ctx, false, "", read_sizes);
}
pub fn v2(ctx: &mut Ctx) {
    run(ctx, true);
    sizes(ctx, true, "", read_sizes);
}
