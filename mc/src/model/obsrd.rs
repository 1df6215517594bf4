//! Reference RINEX 2 / 3 observation reader: the column tables read strictly.
use super::dbl;
use super::obs::*;
use std::collections::BTreeMap;

fn num<T: std::str::FromStr>(s: &str, a: usize, b: usize) -> Result<T, String> {
    let f = s.get(a..b.min(s.len()).max(a)).unwrap_or("");
    f.trim().parse().map_err(|_| format!("columns {}-{} of {s:?}: {f:?} is not a number", a + 1, b))
}
/// Fw.d, as an integer number of 10^-d; None when blank.
pub fn fwd(f: &str, d: usize) -> Result<Option<i64>, String> {
    let t = f.trim();
    if t.is_empty() {
        return Ok(None);
    }
    let (i, x) = t.split_once('.').ok_or(format!("{f:?}: no decimal point"))?;
    if x.len() != d || !f.ends_with(x) {
        return Err(format!("{f:?} is not F{}.{d}", f.len()));
    }
    let neg = i.starts_with('-');
    let i = i.trim_start_matches('-');
    let n: i64 = format!("{i}{x}").parse().map_err(|_| format!("{f:?} is not a number"))?;
    Ok(Some(if neg { -n } else { n }))
}

fn obs(l: &str, k: usize, at: usize) -> Result<Option<Sig>, String> {
    let l = format!("{l:<w$}", w = at + 16 * (k + 1));
    let f = &l[at + 16 * k..at + 16 * (k + 1)];
    Ok(match fwd(&f[..14], 3)? {
        None => {
            if !f.trim().is_empty() {
                return Err(format!("flags {f:?} without an observation"));
            }
            None
        },
        Some(v) => {
            let flag = |i: usize| -> Result<Option<u8>, String> {
                match f.as_bytes()[i] {
                    b' ' => Ok(None),
                    c @ b'0'..=b'9' => Ok(Some(c - b'0')),
                    _ => Err(format!("flag in {f:?}")),
                }
            };
            Some(Sig { value: dbl(v, 3), lli: flag(14)?, ssi: flag(15)? })
        },
    })
}

/// Reads the body (after END OF HEADER) of a file in the terms of the model.
pub fn read(text: &str, m: &MFile) -> Result<Expected, String> {
    let v3 = m.major() >= 3;
    let mut it = text.lines();
    for l in it.by_ref() {
        if l.get(60..).map(|x| x.trim()) == Some("END OF HEADER") {
            break;
        }
    }
    let mut out = Expected::new();
    while let Some(l) = it.next() {
        if !l.is_ascii() {
            return Err(format!("{l:?}"));
        }
        let o = if v3 {
            if !l.starts_with("> ") {
                return Err(format!("epoch line expected: {l:?}"));
            }
            7
        } else {
            if !l.starts_with(' ') {
                return Err(format!("epoch line expected: {l:?}"));
            }
            4
        };
        let y = if v3 {
            num::<i32>(l, 2, 6)?
        } else {
            let y = num::<i32>(l, 1, 3)?;
            y + if y < 80 { 2000 } else { 1900 }
        };
        let sec = fwd(l.get(o + 11..o + 22).ok_or(format!("short epoch line {l:?}"))?, 7)?.ok_or("no seconds")?;
        let t = MTime(y, num(l, o, o + 2)?, num(l, o + 3, o + 5)?, num(l, o + 6, o + 8)?, num(l, o + 9, o + 11)?, sec as u32);
        let flag: u8 = num(l, o + 22, o + 25)?;
        let n: usize = num(l, o + 25, o + 28)?;
        let mut sats = vec![];
        let clock;
        if v3 {
            let f = l.get(o + 28..).unwrap_or("");
            let f = format!("{f:21}");
            if f.len() != 21 || !f[..6].trim().is_empty() {
                return Err(format!("clock field of {l:?}"));
            }
            clock = fwd(&f[6..], 12)?;
        } else {
            let f = l.get(68..).unwrap_or("");
            if f.len() != 0 && f.len() != 12 {
                return Err(format!("clock field of {l:?}"));
            }
            clock = fwd(f, 9)?;
            let mut l = l;
            for i in 0..n {
                if i > 0 && i % 12 == 0 {
                    l = it.next().ok_or("satellite list cut")?;
                    if !l.starts_with(&" ".repeat(32)) {
                        return Err(format!("satellite list continuation {l:?}"));
                    }
                }
                let f = l.get(32 + 3 * (i % 12)..35 + 3 * (i % 12)).ok_or(format!("satellite list {l:?}"))?;
                sats.push((f.chars().next().unwrap(), num::<u8>(f, 1, 3)?));
            }
            let end = if n > 12 { l } else { l.get(..l.len().min(68)).unwrap() };
            if end.trim_end().len() > 32 + 3 * ((n.max(1) - 1) % 12 + 1) {
                return Err(format!("satellite list {l:?}"));
            }
        }
        let mut sigs = BTreeMap::new();
        for i in 0..n {
            if v3 {
                let l = it.next().ok_or("satellite lines missing")?;
                let s = (l.chars().next().ok_or("empty satellite line")?, num::<u8>(l, 1, 3)?);
                let codes = m.codes_of(s.0);
                if l.trim_end().len() > 3 + 16 * codes.len() {
                    return Err(format!("too long: {l:?}"));
                }
                for (k, c) in codes.iter().enumerate() {
                    if let Some(x) = obs(l, k, 3)? {
                        sigs.insert((sv(s.0, s.1), c.clone()), x);
                    }
                }
            } else {
                let codes = m.codes_of(sats[i].0);
                for (r, chunk) in codes.chunks(5).enumerate() {
                    let l = it.next().ok_or("observation lines missing")?;
                    if l.trim_end().len() > 16 * chunk.len() {
                        return Err(format!("too long: {l:?}"));
                    }
                    for k in 0..chunk.len() {
                        if let Some(x) = obs(l, k, 0)? {
                            sigs.insert((sv(sats[i].0, sats[i].1), codes[5 * r + k].clone()), x);
                        }
                    }
                }
            }
        }
        let k = m.key(&MEpoch { t, flag, clock: None, sats: vec![] });
        if out.insert(k, (clock.map(|c| dbl(c, if v3 { 12 } else { 9 })), sigs)).is_some() {
            return Err(format!("epoch {k:?} twice"));
        }
    }
    Ok(out)
}
