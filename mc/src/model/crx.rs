//! Reference CRINEX decoder: the format document read strictly. A difference
//! without a preceding initialisation, a wrong epoch line length or a line in
//! excess is an error.
use super::obs::*;
use super::dbl;
use rinex::prelude::obs::*;
use std::collections::BTreeMap;
use std::str::FromStr;

#[derive(Default)]
struct Arc {
    order: usize,
    hist: Vec<i128>,
}
impl Arc {
    fn feed(a: &mut Option<Arc>, tok: &str) -> Result<i64, String> {
        if let Some((o, v)) = tok.split_once('&') {
            let order: usize = o.parse().map_err(|_| format!("bad order in {tok:?}"))?;
            if order == 0 || order > 9 {
                return Err(format!("order {order} in {tok:?}"));
            }
            let v: i64 = v.parse().map_err(|_| format!("bad value in {tok:?}"))?;
            *a = Some(Arc { order, hist: vec![v as i128] });
            return Ok(v);
        }
        let d: i128 = tok.parse().map_err(|_| format!("bad difference {tok:?}"))?;
        let a = a.as_mut().ok_or(format!("difference {tok:?} without initial value"))?;
        // v_n = d - sum_{i>=1} (-1)^i C(k,i) v_{n-i}
        let k = a.order.min(a.hist.len());
        let (mut c, mut v) = (1i128, d);
        for i in 1..=k {
            c = c * (k - i + 1) as i128 / i as i128;
            let t = c * a.hist[a.hist.len() - i];
            v += if i % 2 == 1 { t } else { -t };
        }
        a.hist.push(v);
        Ok(v as i64)
    }
}

fn repair(old: &str, d: &str) -> String {
    let n = old.len().max(d.len());
    let at = |s: &str, i: usize| s.as_bytes().get(i).copied().unwrap_or(b' ');
    (0..n)
        .map(|i| match at(d, i) {
            b' ' => at(old, i) as char,
            b'&' => ' ',
            x => x as char,
        })
        .collect()
}

fn num<T: FromStr>(s: &str, a: usize, b: usize) -> Result<T, String> {
    let f = s.get(a..b.min(s.len())).unwrap_or("");
    f.trim().parse().map_err(|_| format!("columns {a}..{b} of {s:?}: {f:?} is not a number"))
}

/// Decodes the body of a CRINEX text into the terms of the model `m` (codes, time scale).
pub fn decode(text: &str, m: &MFile) -> Result<Expected, String> {
    let v3 = m.major() >= 3;
    let mut it = text.lines();
    for l in it.by_ref() {
        if l.get(60..).map(|x| x.trim()) == Some("END OF HEADER") {
            break;
        }
    }
    let mut out = Expected::new();
    let mut line = String::new();
    let mut first = true;
    let mut clk: Option<Arc> = None;
    let mut arcs: BTreeMap<(char, u8, usize), Option<Arc>> = BTreeMap::new();
    let mut flags: BTreeMap<(char, u8), String> = BTreeMap::new();
    let mut last: Vec<(char, u8)> = vec![];
    while let Some(l) = it.next() {
        let mark = if v3 { '>' } else { '&' };
        let other = if v3 { '&' } else { '>' };
        if l.starts_with(other) {
            return Err(format!("epoch mark {other:?} in {l:?}"));
        }
        let full = l.starts_with(mark);
        if full {
            line = l.replacen(mark, " ", 1);
            first = false;
            last.clear();
            clk = None;
            arcs.clear();
            flags.clear();
        } else {
            if first {
                return Err("the first epoch is not initialised".into());
            }
            line = repair(&line, l);
        }
        let e = line.clone();
        // date columns
        let (y, o) = if v3 { (num::<i32>(&e, 2, 6)?, 7) } else { (num::<i32>(&e, 1, 3)?, 4) };
        let y = if v3 {
            y
        } else if y < 80 {
            2000 + y
        } else {
            1900 + y
        };
        let (mo, d, h, mi): (u8, u8, u8, u8) =
            (num(&e, o, o + 2)?, num(&e, o + 3, o + 5)?, num(&e, o + 6, o + 8)?, num(&e, o + 9, o + 11)?);
        let s = e.get(o + 11..o + 22).ok_or("short epoch line")?.trim().to_string();
        let (si, sf) = s.split_once('.').ok_or(format!("seconds {s:?}"))?;
        if sf.len() != 7 {
            return Err(format!("seconds {s:?} (F11.7 wanted)"));
        }
        let ticks = si.parse::<u32>().map_err(|e| e.to_string())? * 10_000_000 + sf.parse::<u32>().map_err(|e| e.to_string())?;
        let flag: u8 = num(&e, o + 22, o + 25)?;
        let n: usize = num(&e, o + 25, o + 28)?;
        let sv0 = if v3 { o + 34 } else { o + 28 };
        if v3 && !e.get(o + 28..sv0).unwrap_or("").trim().is_empty() {
            return Err(format!("columns between satellite number and list: {e:?}"));
        }
        let len = e.trim_end().len();
        if if n > 0 { len != sv0 + 3 * n } else { len > sv0 } {
            return Err(format!("{n} satellites announced in {e:?}"));
        }
        let mut sats = vec![];
        for i in 0..n {
            let f = &e[sv0 + 3 * i..sv0 + 3 * i + 3];
            sats.push((f.chars().next().unwrap(), num::<u8>(f, 1, 3)?));
        }
        // clock
        let cl = it.next().ok_or("clock line missing")?.trim();
        let c = if cl.is_empty() {
            clk = None;
            None
        } else {
            Some(Arc::feed(&mut clk, cl)?)
        };
        let mut sigs = BTreeMap::new();
        for s in &sats {
            let codes = m.codes_of(s.0);
            let l = it.next().ok_or(format!("data line of {s:?} missing"))?;
            let mut rest = Some(l);
            let mut vals = vec![];
            for k in 0..codes.len() {
                let id = (s.0, s.1, k);
                if !last.contains(s) {
                    arcs.remove(&id);
                }
                let tok = match rest {
                    None => "",
                    Some(r) => match r.split_once(' ') {
                        Some((t, r)) => {
                            rest = Some(r);
                            t
                        },
                        None => {
                            rest = None;
                            r
                        },
                    },
                };
                if tok.is_empty() {
                    arcs.remove(&id);
                    vals.push(None);
                } else {
                    vals.push(Some(Arc::feed(arcs.entry(id).or_default(), tok)?));
                }
            }
            let old = if last.contains(s) { flags.get(s).cloned().unwrap_or_default() } else { String::new() };
            let f = repair(&old, rest.unwrap_or(""));
            if f.trim_end().len() > 2 * codes.len() {
                return Err(format!("{} flags for {} observations in {l:?}", f.len(), codes.len()));
            }
            for (k, v) in vals.iter().enumerate() {
                let at = |i: usize| f.as_bytes().get(i).copied().unwrap_or(b' ') as char;
                if let Some(v) = v {
                    sigs.insert(
                        (sv(s.0, s.1), codes[k].clone()),
                        Sig {
                            value: dbl(*v, 3),
                            lli: at(2 * k).to_digit(8).map(|d| d as u8),
                            ssi: at(2 * k + 1).to_digit(10).map(|d| d as u8),
                        },
                    );
                }
            }
            flags.insert(*s, f);
        }
        last = sats;
        let k = m.key(&MEpoch { t: MTime(y, mo, d, h, mi, ticks), flag, clock: None, sats: vec![] });
        let clk = c.map(|c| dbl(c, if v3 { 12 } else { 9 }));
        if out.insert(k, (clk, sigs)).is_some() {
            return Err(format!("epoch {k:?} twice"));
        }
    }
    Ok(out)
}
