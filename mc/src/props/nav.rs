//! P10 / P11: navigation messages.
use crate::bail;
use crate::engine::*;
use crate::model::nav::*;
use crate::model::obs::MTime;
use crate::util::*;

fn check(e: &mut Exec, m: &MNav, text: &str) -> R {
    check_sto(e, m, text, false)
}
/// `strict`: the order of the fields of an STO message is what is checked.
fn check_sto(e: &mut Exec, m: &MNav, text: &str, strict: bool) -> R {
    e.note(|| format!("file:\n{text}"));
    let want = m.expected();
    let rnx = no_panic("Rinex::parse", || parse_str(text))?.map_err(|x| format!("Rinex::parse refused a well-formed file: {x:?}"))?;
    let got = observed(&rnx)?;
    e.outcome(&format!("{got:?}"));
    for (k, v) in &want {
        e.state(&format!("{k:?}{v:?}"));
    }
    m.msgs.iter().for_each(|_| e.step());
    if let Some(d) = diff(&want, &got) {
        // the order of an STO message's fields is decided by one scope
        // ("sto"): elsewhere the order the existing tests pin is accepted too
        let mut alt = want.clone();
        for f in alt.values_mut() {
            if f.contains_key("utc") {
                let (t, a0, a1, a2) = (f["t_tm"].clone(), f["a0"].clone(), f["a1"].clone(), f["a2"].clone());
                f.insert("a0".into(), t);
                f.insert("a1".into(), a0);
                f.insert("a2".into(), a1);
                f.insert("t_tm".into(), if let V::N(x) = a2 { V::N((x as u32) as f64) } else { a2 });
            }
        }
        if alt == want || diff(&alt, &got).is_some() {
            bail!("{d}");
        }
        if strict {
            e.label("STO columns");
            bail!("{d}");
        }
    }
    e.validated();
    Ok(())
}
const VAL: [Num; 9] = [
    ZERO,
    Num(9_999_999_999_990, 9),
    Num(-9_999_999_999_990, -12),
    Num(1_000_000_000_000, 0),
    Num(-1_234_567_890_120, 3),
    Num(5_000_000_000_010, -30),
    Num(7_000_000_000_000, 1),
    Num(-1_000_000_000_010, -1),
    Num(3_456_789_012_340, 5),
];
/// values a field of this type may hold
fn values(ty: char, sys: char) -> Vec<Num> {
    match ty {
        'u' => [0, 1, 1023, 1024, 2184, 65535].map(Num::int).to_vec(),
        'i' => [-7, -1, 0, 1, 6, 13].map(Num::int).to_vec(),
        's' => [0, 1, 2, 3, 4, 0x35, 0x7f].map(Num::int).to_vec(),
        'h' => match sys {
            'R' => [0, 4].map(Num::int).to_vec(),
            'S' => [0, 8].map(Num::int).to_vec(),
            'E' => [0, 1, 8, 64, 128, 255, 0b101_0101].map(Num::int).to_vec(),
            _ => [1, 2, 3, 4, 5, 6, 7].map(Num::int).to_vec(),
        },
        _ => VAL.to_vec(),
    }
}
fn of(v: &'static str, table: usize, msgs: Vec<MMsg>) -> MNav {
    let sys = if v.starts_with('2') { TABLES[table].sys } else { 'M' };
    MNav { version: v, sys, msgs }
}
fn version(major: u8, alt: bool) -> &'static str {
    match (major, alt) {
        (2, false) => "2.11",
        (2, true) => "2.00",
        (3, false) => "3.04",
        (3, true) => "3.05",
        _ => "4.00",
    }
}
fn prn(sys: char, k: usize) -> u8 {
    match sys {
        'S' => [20, 36, 31][k % 3],
        'C' => [1, 61, 30][k % 3],
        'J' => [1, 7, 2][k % 3],
        _ => [1, 24, 9][k % 3],
    }
}
/// V2 epochs have a tenth of second, and two digits of year
const TIMES: [MTime; 8] = [
    MTime(2021, 1, 1, 0, 0, 0),
    MTime(2020, 12, 31, 23, 59, 440_000_000),
    MTime(2000, 2, 29, 1, 2, 30_000_000),
    MTime(1999, 12, 31, 23, 45, 0),
    MTime(2016, 12, 31, 23, 59, 590_000_000),
    MTime(2017, 1, 1, 0, 0, 160_000_000),
    MTime(2021, 6, 5, 12, 34, 560_000_000),
    MTime(2005, 10, 10, 10, 10, 100_000_000),
];

pub fn ephemerides(ctx: &mut Ctx) {
    ctx.explore("fields", "every message table x every field (clock, orbits, spares) x its values x exponent letter x leading digit x line ends", |e| {
        let ti = e.choose(TABLES.len());
        let tb = &TABLES[ti];
        let mut m = blank_eph(ti, prn(tb.sys, 0), TIMES[0], 1);
        let n = 3 + m.fields.iter().map(|l| l.len()).sum::<usize>();
        let p = e.choose(n);
        if p == 2 && tb.sys == 'S' {
            m.clk[p] = *e.pick(&values('u', 'S'));
        } else if p < 3 {
            m.clk[p] = *e.pick(&VAL);
        } else {
            let (mut i, mut j) = (0, p - 3);
            while j >= m.fields[i].len() {
                j -= m.fields[i].len();
                i += 1;
            }
            let (name, ty) = tb.fields()[i][j].clone();
            let vals = values(if name == "-" { 'f' } else { ty }, tb.sys);
            m.fields[i][j] = Some(*e.pick(&vals));
        }
        let style = Style { letter: *e.pick(&['E', 'D', 'e', 'd']), lead: e.flag(), trim: e.choose(3), pad0: false };
        let f = of(version(tb.major, e.flag()), ti, vec![MMsg::Eph(m)]);
        let t = f.text(style);
        check(e, &f, &t)
    });
    ctx.explore("blanks", "every message table x every pair of omitted fields x line ends x exponent letter", |e| {
        let ti = e.choose(TABLES.len());
        let tb = &TABLES[ti];
        let mut m = blank_eph(ti, prn(tb.sys, 1), TIMES[6], 2);
        let n = m.fields.iter().map(|l| l.len()).sum::<usize>();
        let a = e.choose(n);
        let b = a + e.choose(n - a);
        for p in [a, b] {
            let (mut i, mut j) = (0, p);
            while j >= m.fields[i].len() {
                j -= m.fields[i].len();
                i += 1;
            }
            m.fields[i][j] = None;
        }
        let style = Style { letter: *e.pick(&['E', 'D']), lead: false, trim: e.choose(3), pad0: false };
        let f = of(version(tb.major, false), ti, vec![MMsg::Eph(m)]);
        let t = f.text(style);
        check(e, &f, &t)
    });
    ctx.explore("rows", "every message table x every subset of a line's fields, on every line x line ends", |e| {
        let ti = e.choose(TABLES.len());
        let tb = &TABLES[ti];
        let mut m = blank_eph(ti, prn(tb.sys, 2), TIMES[3], 3);
        let i = e.choose(m.fields.len());
        let mask = e.choose(1 << m.fields[i].len());
        for j in 0..m.fields[i].len() {
            if mask >> j & 1 == 1 {
                m.fields[i][j] = None;
            }
        }
        // a second message must not be disturbed by the first
        let m2 = blank_eph(ti, prn(tb.sys, 0), TIMES[5], 4);
        let style = Style { letter: 'E', lead: false, trim: e.choose(3), pad0: false };
        let f = of(version(tb.major, false), ti, vec![MMsg::Eph(m), MMsg::Eph(m2)]);
        let t = f.text(style);
        check(e, &f, &t)
    });
    ctx.explore("epochs", "every message table x calendar dates x seconds (tenths in RINEX 2) x satellite number x its padding x exponents", |e| {
        let ti = e.choose(TABLES.len());
        let tb = &TABLES[ti];
        let mut t = *e.pick(&TIMES);
        if tb.major == 2 {
            let (y, d) = *e.pick(&[(t.0, 0), (t.0, 5_000_000u32), (1980 + (t.0 % 20), 0), (2060 + t.0 % 20, 9_000_000)]);
            t.0 = y;
            t.5 += d;
            if t.1 == 2 && t.2 == 29 && y % 4 != 0 {
                t.2 = 28;
            }
        }
        let m = blank_eph(ti, prn(tb.sys, e.choose(3)), t, 1);
        let style = Style { letter: *e.pick(&['E', 'D']), lead: false, trim: e.choose(3), pad0: e.flag() };
        let f = of(version(tb.major, false), ti, vec![MMsg::Eph(m)]);
        let t = f.text(style);
        check(e, &f, &t)
    });
    ctx.explore("single", "single-system RINEX 3 files and RINEX 2 files x two messages", |e| {
        let ti = e.choose(8);
        let tb = &TABLES[ti];
        let a = blank_eph(ti, prn(tb.sys, e.choose(3)), *e.pick(&TIMES[..3]), 1);
        let b = blank_eph(ti, prn(tb.sys, e.choose(3)), *e.pick(&TIMES[..4]), 2);
        let mut f = of(version(tb.major, e.flag()), ti, vec![MMsg::Eph(a), MMsg::Eph(b)]);
        f.sys = tb.sys;
        let style = Style { letter: *e.pick(&['E', 'D']), lead: e.flag(), trim: e.choose(3), pad0: e.flag() };
        let t = f.text(style);
        check(e, &f, &t)
    });
    let len = ctx.q(3, 4);
    ctx.explore("history", "every sequence of messages over the tables of a version x satellites x epochs, comments and unsupported messages in between", move |e| {
        let major = *e.pick(&[3u8, 4]);
        let tabs: Vec<usize> = (0..TABLES.len()).filter(|i| TABLES[*i].major == major).collect();
        let n = 1 + e.choose(len);
        let mut msgs = vec![];
        let mut keys = std::collections::HashSet::new();
        for k in 0..n {
            let x = e.choose(tabs.len() + 2);
            if x == tabs.len() {
                msgs.push(MMsg::Comment("BETWEEN TWO MESSAGES"));
            } else if x > tabs.len() {
                msgs.push(MMsg::Navic(3, TIMES[6]));
            } else {
                let tb = &TABLES[tabs[x]];
                let m = blank_eph(tabs[x], prn(tb.sys, 0), TIMES[[6, 7][e.choose(2)]], 1 + k as i64);
                if !keys.insert((x, m.t)) {
                    e.trivial();
                    return Ok(());
                }
                msgs.push(MMsg::Eph(m));
            }
        }
        let f = MNav { version: version(major, false), sys: 'M', msgs };
        let mut t = f.text(PLAIN);
        if e.flag() {
            t.pop();
        }
        check(e, &f, &t)
    });
    ctx.explore("many", "files of 1..1025 messages (67 sizes) x version x one table or all those of the version in turn, over every satellite, then later epochs", |e| {
        let major = *e.pick(&[2u8, 3, 4]);
        let tabs: Vec<usize> = (0..TABLES.len()).filter(|i| TABLES[*i].major == major).collect();
        let n = *e.pick(&counts());
        let which = e.choose(tabs.len() + 1);
        let dt = *e.pick(&[60u64, 900, 7200]);
        if which == tabs.len() && major == 2 || n > 300 && dt != 900 {
            e.trivial();
            return Ok(());
        }
        let tabs = if which < tabs.len() { vec![tabs[which]] } else { tabs };
        many(e, n, &tabs, version(major, false), dt)
    });
    ctx.explore("satellites", "every message table x every satellite number from 1 to 99, alone or after another satellite", |e| {
        let ti = e.choose(TABLES.len());
        let p = 1 + e.choose(99) as u8;
        let pad0 = e.flag();
        let mut msgs = vec![MMsg::Eph(blank_eph(ti, p, TIMES[6], 5))];
        if e.flag() {
            msgs.insert(0, MMsg::Eph(blank_eph(ti, p % 99 + 1, TIMES[6], 3)));
        }
        let f = of(version(TABLES[ti].major, false), ti, msgs);
        let t = f.text(Style { letter: 'E', lead: false, trim: 0, pad0 });
        check(e, &f, &t)
    });
    ctx.explore("history2", "every sequence of RINEX 2 messages over satellites and epochs", |e| {
        let ti = e.choose(2);
        let n = 1 + e.choose(4);
        let mut msgs = vec![];
        let mut keys = std::collections::HashSet::new();
        for k in 0..n {
            let m = blank_eph(ti, *e.pick(&[1, 12, 24]), TIMES[[6, 7][e.choose(2)]], 1 + k as i64);
            if !keys.insert((m.prn, m.t)) {
                e.trivial();
                return Ok(());
            }
            msgs.push(MMsg::Eph(m));
        }
        let f = of("2.10", ti, msgs);
        let mut t = f.text(Style { letter: 'D', lead: e.flag(), trim: 1, pad0: false });
        if e.flag() {
            t.pop();
        }
        check(e, &f, &t)
    });
}

/// Many messages, over the tables of a version.
fn many(e: &mut Exec, n: usize, tabs: &[usize], ver: &'static str, dt: u64) -> R {
    let msgs = (0..n)
        .map(|k| {
            let ti = tabs[k % tabs.len()];
            let sys = TABLES[ti].sys;
            let top = match sys {
                'C' => 62,
                'G' => 32,
                'E' => 36,
                'J' => 9,
                'S' => 39,
                _ => 24,
            };
            let low = if sys == 'S' { 20 } else { 1 };
            let j = k / tabs.len();
            MMsg::Eph(blank_eph(ti, (low + j % (top - low + 1)) as u8, clock_at((j / (top - low + 1)) as u64 * dt), k as i64))
        })
        .collect();
    let f = of(ver, tabs[0], msgs);
    let t = f.text(PLAIN);
    check(e, &f, &t)
}

fn nums<const N: usize>(salt: i64) -> [Num; N] {
    std::array::from_fn(|i| Num(1_000_000_000_010 + ((salt * 97) % 790 + i as i64) * 10_000_000_010, (i % 4) as i32 - 9))
}
const SYSMSG: usize = 9;
fn sysmsg(k: usize, t: MTime, salt: i64) -> MMsg {
    match k {
        0 => MMsg::Ion { sys: 'G', prn: 1, msg: "LNAV", t, ion: Ion::Klobuchar(nums(salt), 0) },
        1 => MMsg::Ion { sys: 'J', prn: 2, msg: "CNVX", t, ion: Ion::Klobuchar(nums(salt), 1) },
        2 => MMsg::Ion { sys: 'C', prn: 30, msg: "D1D2", t, ion: Ion::Klobuchar(nums(salt), 0) },
        3 => MMsg::Ion { sys: 'C', prn: 30, msg: "CNVX", t, ion: Ion::Bdgim(nums(salt)) },
        4 => MMsg::Ion { sys: 'E', prn: 11, msg: "IFNV", t, ion: Ion::Nequick(nums(salt), 5) },
        5 => MMsg::Eop { sys: 'G', prn: 1, msg: "CNVX", t, x: nums(salt).map(Some), y: nums(salt + 1).map(Some), t_tm: Num::int(604_000 + salt), ut1: nums(salt + 2).map(Some) },
        6 => MMsg::Eop { sys: 'J', prn: 2, msg: "CNVX", t, x: nums(salt).map(Some), y: nums(salt + 1).map(Some), t_tm: Num::int(1 + salt), ut1: nums(salt + 2).map(Some) },
        7 => MMsg::Sto { sys: 'E', prn: 11, msg: "IFNV", t, code: "GAUT", utc: "UTCGAL", t_tm: Num::int(295_207 + salt), a: nums(salt) },
        _ => MMsg::Sto { sys: 'G', prn: 1, msg: "LNAV", t, code: "GPUT", utc: "UTC(USNO)", t_tm: Num::int(295_284 + salt), a: nums(salt) },
    }
}

pub fn system(ctx: &mut Ctx) {
    ctx.explore("sto", "order of the fields of a system time message", |e| {
        let f = MNav { version: "4.00", sys: 'M', msgs: vec![sysmsg(7 + e.choose(2), TIMES[0], 1)] };
        let t = f.text(PLAIN);
        check_sto(e, &f, &t, true)
    });
    ctx.explore("fields", "every kind of system message x every number x its values x exponent letter x line ends", |e| {
        let mut m = sysmsg(e.choose(SYSMSG), *e.pick(&TIMES), 1);
        let v = *e.pick(&VAL);
        match &mut m {
            MMsg::Ion { ion: Ion::Klobuchar(c, r), .. } => {
                if e.flag() {
                    *r = e.choose(2) as u8;
                } else {
                    c[e.choose(8)] = v;
                }
            },
            MMsg::Ion { ion: Ion::Nequick(c, r), .. } => {
                if e.flag() {
                    *r = e.choose(32) as u8;
                } else {
                    c[e.choose(3)] = v;
                }
            },
            MMsg::Ion { ion: Ion::Bdgim(c), .. } => c[e.choose(9)] = v,
            MMsg::Eop { x, y, ut1, t_tm, .. } => match e.choose(10) {
                9 => *t_tm = Num::int(*e.pick(&[0, 7, 604_799])),
                i => {
                    let d = [x, y, ut1];
                    let v = if e.flag() { None } else { Some(v) };
                    d.into_iter().nth(i / 3).unwrap()[i % 3] = v;
                },
            },
            MMsg::Sto { a, t_tm, .. } => match e.choose(4) {
                3 => *t_tm = Num::int(*e.pick(&[0, 7, 604_799])),
                i => a[i] = v,
            },
            _ => {},
        }
        let style = Style { letter: *e.pick(&['E', 'D', 'e', 'd']), lead: e.flag(), trim: e.choose(3), pad0: false };
        let f = MNav { version: "4.00", sys: 'M', msgs: vec![m] };
        let t = f.text(style);
        check(e, &f, &t)
    });
    let len = ctx.q(4, 5);
    ctx.explore("history", "every sequence of system messages and ephemerides x epochs", move |e| {
        let n = 1 + e.choose(len);
        let mut msgs = vec![];
        let mut keys = std::collections::HashSet::new();
        for k in 0..n {
            let x = e.choose(SYSMSG + 2);
            let t = TIMES[[6, 7][e.choose(2)]];
            if !keys.insert((x, t)) {
                e.trivial();
                return Ok(());
            }
            if x >= SYSMSG {
                msgs.push(MMsg::Eph(blank_eph([8, 14][x - SYSMSG], [1, 11][x - SYSMSG], t, k as i64)));
            } else {
                msgs.push(sysmsg(x, t, k as i64));
            }
        }
        let f = MNav { version: "4.00", sys: 'M', msgs };
        let t = f.text(PLAIN);
        check(e, &f, &t)
    });
    ctx.explore("satellites", "every kind of system message x every satellite number from 1 to 62, as the first message or after the same of an other satellite", |e| {
        let x = e.choose(SYSMSG);
        let p = 1 + e.choose(62) as u8;
        let t = TIMES[6];
        let of = |p: u8, salt: i64| {
            let mut m = sysmsg(x, t, salt);
            match &mut m {
                MMsg::Ion { prn, .. } | MMsg::Eop { prn, .. } | MMsg::Sto { prn, .. } => *prn = p,
                _ => {},
            }
            m
        };
        let mut msgs = vec![of(p, 2)];
        if e.flag() {
            msgs.insert(0, of(p % 62 + 1, 3));
        }
        let f = MNav { version: "4.00", sys: 'M', msgs };
        let t = f.text(PLAIN);
        check(e, &f, &t)
    });
    ctx.explore("many", "1..1025 system messages and ephemerides (67 sizes), every kind in turn or one kind only", |e| {
        let n = *e.pick(&counts());
        let only = e.choose(SYSMSG + 1);
        let msgs = (0..n)
            .map(|k| {
                if only < SYSMSG {
                    sysmsg(only, clock_at(k as u64 * 60), k as i64)
                } else {
                    let x = k % (SYSMSG + 2);
                    let t = clock_at((k / (SYSMSG + 2)) as u64 * 60);
                    if x >= SYSMSG {
                        MMsg::Eph(blank_eph([8, 14][x - SYSMSG], [1, 11][x - SYSMSG], t, k as i64))
                    } else {
                        sysmsg(x, t, k as i64)
                    }
                }
            })
            .collect();
        let f = MNav { version: "4.00", sys: 'M', msgs };
        let t = f.text(PLAIN);
        check(e, &f, &t)
    });
}
