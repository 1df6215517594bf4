//! P02: CRINEX decompression; P03: lossless RINEX -> CRINEX -> RINEX.
use super::obs_read::*;
use crate::engine::*;
use crate::model::obs::*;
use crate::util::*;
use crate::{bail, ensure};
use rinex::hatanaka::{Decompressor, DecompressorIO};
use rinex::prelude::*;
use std::collections::HashMap;
use std::io::{BufReader, Read};
use std::str::FromStr;

fn observables(m: &MFile) -> HashMap<Constellation, Vec<Observable>> {
    let mut h = HashMap::new();
    for (s, c) in &m.codes {
        let k = Constellation::from_str(&s.to_string()).unwrap();
        let k = if k.is_sbas() { Constellation::SBAS } else { k };
        h.insert(k, c.iter().map(|c| Observable::from_str(c).unwrap()).collect());
    }
    h
}

/// Drives the line decompressor; returns the recovered text.
fn drive(m: &MFile, lines: &[String]) -> Result<String, Fail> {
    let sys = if m.sys == 'M' {
        Constellation::Mixed
    } else {
        Constellation::from_str(&m.sys.to_string()).unwrap()
    };
    let mut d = Decompressor::new(m.major() >= 3, sys, observables(m));
    let mut out = String::new();
    let mut buf = vec![0u8; 8192];
    for l in lines {
        let n = buf.len();
        let size = match d.decompress(l, l.len(), &mut buf, n) {
            Ok(s) => s,
            Err(x) => bail!("Decompressor::decompress({l:?}) failed: {x}"),
        };
        if size > 0 {
            let t = std::str::from_utf8(&buf[..size]).map_err(|x| format!("recovered text is not UTF-8: {x}"))?;
            out += t;
            if !t.ends_with('\n') {
                out.push('\n');
            }
        }
    }
    Ok(out)
}

/// RINEX lines a decompressor has to return; and the same with the blank
/// lines Decompressor is known to add in V1 (known finding of P02): after an
/// epoch description of 11 or 12 satellites (modulo 12), after a satellite
/// whose compressed line stops before its flags.
fn wanted(m: &MFile, body: &[String]) -> (Vec<String>, Vec<String>) {
    let (mut want, mut padded) = (vec![], vec![]);
    let mut b = body.iter();
    for ep in &m.epochs {
        b.next();
        b.next();
        let lines: Vec<String> = m.epoch_text(ep).iter().map(|l| l.trim_end().to_string()).collect();
        want.extend(lines.clone());
        if m.major() >= 3 {
            padded.extend(lines);
            continue;
        }
        let n = ep.sats.len();
        let mut it = lines.into_iter();
        padded.extend(it.by_ref().take(((n + 11) / 12).max(1)));
        if n > 0 && (n + 1) % 12 < 2 {
            padded.push(String::new());
        }
        for s in &ep.sats {
            padded.extend(it.by_ref().take((s.obs.len() + 4) / 5));
            let l = b.next().map(|l| l.trim_end()).unwrap_or("");
            if !l.is_empty() && l.split(' ').count() <= s.obs.len() {
                padded.push(String::new());
            }
        }
    }
    (want, padded)
}
/// Equal, but for blank lines at the end.
fn same_lines(a: &[&str], b: &[String]) -> bool {
    let end = |n: usize, f: &dyn Fn(usize) -> bool| (0..n).rev().find(|i| !f(*i)).map_or(0, |i| i + 1);
    let (na, nb) = (end(a.len(), &|i| a[i].is_empty()), end(b.len(), &|i| b[i].is_empty()));
    na == nb && (0..na).all(|i| a[i] == b[i])
}

/// A source that delivers at most `piece` bytes at once, is interrupted before
/// the piece `interrupt`, and fails before the byte `fail`.
struct Source {
    data: Vec<u8>,
    pos: usize,
    piece: usize,
    pieces: usize,
    interrupt: usize,
    fail: usize,
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.pieces += 1;
        if self.pieces == self.interrupt {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.pos == self.fail {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let n = buf.len().min(self.piece).min(self.data.len() - self.pos).min(self.fail - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Reads to the end (or to the first error), `size` bytes at once.
fn drain(mut r: impl Read, size: usize, limit: usize) -> (Vec<u8>, Option<std::io::Error>) {
    let mut out = vec![];
    let mut buf = vec![0u8; size];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return (out, None),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(x) if x.kind() == std::io::ErrorKind::Interrupted => {},
            Err(x) => return (out, Some(x)),
        }
        if out.len() > limit {
            return (out, None);
        }
    }
}
fn trimmed_lines(t: &str) -> Vec<String> {
    t.lines().map(|l| l.trim_end().to_string()).collect()
}
/// The streaming decompressor: the original text.
fn check_stream(crx: &str, rinex: &str) -> R {
    let (out, err) = no_panic("DecompressorIO", || drain(DecompressorIO::from_read(crx.as_bytes()), 8192, 1 << 24))?;
    if let Some(x) = err {
        bail!("DecompressorIO failed: {x}");
    }
    let out = String::from_utf8(out).map_err(|x| format!("DecompressorIO: not UTF-8: {x}"))?;
    let (got, want) = (trimmed_lines(&out), trimmed_lines(rinex));
    if !same_lines(&got.iter().map(|l| l.as_str()).collect::<Vec<_>>(), &want) {
        for (i, w) in want.iter().enumerate() {
            if got.get(i) != Some(w) {
                bail!("DecompressorIO: line {i} is {:?}, want {w:?}", got.get(i));
            }
        }
        bail!("DecompressorIO: lines in excess: {:?}", &got[want.len()..]);
    }
    Ok(())
}

/// The line decompressor and the reader against the model.
fn check_crx(e: &mut Exec, m: &MFile, o: CrxOpts) -> R {
    check_crx_(e, m, o, false)
}
fn check_crx_(e: &mut Exec, m: &MFile, o: CrxOpts, known_blanks: bool) -> R {
    let crx = m.crinex(o);
    let body = m.crinex_body(o);
    e.note(|| format!("crinex:\n{crx}"));
    e.note(|| format!("rinex:\n{}", m.text(1)));
    // 1. text
    let text = no_panic("Decompressor", || drive(m, &body))??;
    let got: Vec<&str> = text.lines().map(|l| l.trim_end()).collect();
    let (want, padded) = wanted(m, &body);
    for _ in &m.epochs {
        e.step();
    }
    if !same_lines(&got, &want) && (known_blanks || !same_lines(&got, &padded)) {
        if same_lines(&got, &padded) {
            return Err(Fail { key: "blank lines".into(), msg: format!("recovered text has lines in excess: {text:?}, want {want:?}") });
        }
        for (i, w) in want.iter().enumerate() {
            match got.get(i) {
                Some(g) if g == w => {},
                g => bail!("recovered line {i} is {g:?}, want {w:?}"),
            }
        }
        bail!("recovered lines in excess: {:?}", &got[want.len()..]);
    }
    check_stream(&crx, &m.text(1))?;
    // 2. record
    let rnx = match no_panic("Rinex::parse", || parse_str(&crx))? {
        Ok(r) => r,
        Err(x) => bail!("Rinex::parse refused a well-formed CRINEX: {x:?}"),
    };
    let obs = observed(&rnx)?;
    let exp = m.expected();
    for (k, v) in &exp {
        e.state(&(format!("{k:?}"), v.1.len(), v.0.map(|f| f.to_bits())));
    }
    e.outcome(&text);
    if let Some(d) = diff(&exp, &obs, TOL) {
        bail!("Rinex::parse of the CRINEX: {d}");
    }
    e.validated();
    Ok(())
}

fn run(ctx: &mut Ctx, v2: bool) {
    let v = if v2 { "v1" } else { "v3" };
    let name = |s: &str| format!("{v}-{s}");
    let unit = |c: i64| if v2 { c } else { c * 1001 };
    let opt = |order| CrxOpts { order, full: 0, reinit: 0, trim: false };

    let len = ctx.q(4, 5);
    ctx.explore(
        &name("arcs"),
        "every rise/set/missing history of one satellite with 2 signals beside a permanent one, order 1-5 (3 in histories longer than 3), epochs sent in full or differenced, arcs re-initialised or not",
        move |e| {
            let n = 1 + e.choose(len);
            let order = if n <= 3 { 1 + e.choose(5) } else { 3 };
            let mut m = mixed(v2, &['G', 'R'], 2);
            let (mut full, mut reinit) = (0, 0);
            for i in 0..n {
                let st = e.choose(5); // absent, both, first, second, none
                if i > 0 && n <= 3 {
                    full |= (e.flag() as u32) << i;
                    reinit |= (e.flag() as u32) << i;
                }
                let v = |k: i64| [20_000_000_123, 20_000_500_127, 20_001_900_001, 19_999_123_456, 21_000_000_000][i] * (k + 1) - k * 7;
                let fl = [b' ', b'1', b' ', b'4', b'1'][i];
                let fs = [b'7', b'7', b'8', b' ', b'9'][i];
                let mut sats = vec![MSat { sys: 'G', prn: 1, obs: vec![mo(v(0) / 3, b' ', b'5'), mo(v(1), fl, b' ')] }];
                if st > 0 {
                    let a = mo(v(2), fl, fs);
                    let b = mo(-v(3) / 1000, b' ', fs);
                    sats.push(MSat {
                        sys: 'R',
                        prn: 9,
                        obs: match st {
                            1 => vec![a, b],
                            2 => vec![a, None],
                            3 => vec![None, b],
                            _ => vec![None, None],
                        },
                    });
                }
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock: None, sats });
            }
            let trim = e.flag();
            check_crx(e, &m, CrxOpts { order, full, reinit, trim })
        },
    );

    let len = ctx.q(4, 5);
    ctx.explore(
        &name("empty"),
        "every history of N epochs over {no satellite, the first, the second, both} x {no clock, a clock offset} x {differenced, in full}",
        move |e| {
            let n = 1 + e.choose(len);
            let mut m = mixed(v2, &['G', 'R'], 2);
            let mut full = 0;
            for i in 0..n {
                let st = e.choose(4);
                let clock = if e.flag() { Some(unit(123_456_789 - 1_000_000 * i as i64)) } else { None };
                if i > 0 {
                    full |= (e.flag() as u32) << i;
                }
                let sat = |sys, prn, k: i64| MSat { sys, prn, obs: vec![mo(20_000_000_000 + 1000 * k + (i * i) as i64, b' ', b'5'), mo(k - i as i64, b'1', b' ')] };
                let mut sats = vec![];
                if st & 1 > 0 {
                    sats.push(sat('G', 1, 3));
                }
                if st & 2 > 0 {
                    sats.push(sat('R', 9, 7));
                }
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock, sats });
            }
            let trim = e.flag();
            check_crx(e, &m, CrxOpts { order: 3, full, reinit: full, trim })
        },
    );
    let maxn = ctx.q(7, 9);
    ctx.explore(
        &name("presence"),
        "every presence pattern of n = 1..N signals of a satellite in the second of three epochs, flags unchanged, cleared or changed",
        move |e| {
            let n = 1 + e.choose(maxn);
            let mut m = file(v2, 'G', n);
            let ob = |i: usize, k: usize, l, s| mo(20_000_000_000 + (i * i * 1000 + k) as i64, l, s);
            let fl = *e.pick(&[(b' ', b'5'), (b' ', b' '), (b'3', b'6')]);
            let mut mid = vec![];
            for k in 0..n {
                mid.push(if e.flag() { ob(1, k, fl.0, fl.1) } else { None });
            }
            for i in 0..3 {
                let full: Vec<_> = (0..n).map(|k| ob(i, k, b' ', b'5')).collect();
                m.epochs.push(MEpoch {
                    t: at(i),
                    flag: 0,
                    clock: None,
                    sats: vec![
                        MSat { sys: 'G', prn: 3, obs: if i == 1 { mid.clone() } else { full.clone() } },
                        MSat { sys: 'G', prn: 19, obs: full },
                    ],
                });
            }
            let trim = e.flag();
            check_crx(e, &m, CrxOpts { trim, ..opt(3) })
        },
    );

    let nc = ctx.q(20, 20);
    let ns = ctx.q(26, 64);
    ctx.explore(
        &name("shape"),
        "every number of signals x number of satellites, with or without a clock, last observation of odd satellites missing, followed by a second epoch with fewer or more satellites",
        move |e| {
            let n = 1 + e.choose(nc);
            let s = 1 + e.choose(ns);
            let s2 = *e.pick(&[1usize, s, s + 1]);
            let clk = if e.flag() { Some(-1_234_567) } else { None };
            let miss = e.flag();
            let mut m = mixed(v2, &['G', 'R', 'S'], n);
            for (i, s) in [s, s2].iter().enumerate() {
                let mut sats = vec![];
                for j in 0..*s {
                    let (sys, prn) = match j {
                        0..=31 => ('G', j + 1),
                        32..=55 => ('R', j - 31),
                        _ => ('S', j - 36),
                    };
                    let mut obs: Vec<_> = (0..n).map(|k| mo(20_000_000_000 + (i * 777 + j * 100 + k) as i64, b' ', b'7')).collect();
                    if miss && j % 2 == 1 {
                        obs[n - 1] = None;
                    }
                    sats.push(MSat { sys, prn: prn as u8, obs });
                }
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock: clk, sats });
            }
            let trim = e.flag();
            check_crx(e, &m, CrxOpts { trim, ..opt(3) })
        },
    );

    ctx.explore(
        &name("flags"),
        "every pair of flag strings of two signals over {blank,1,4} x {blank,5,9}, over two epochs and a third equal to the first",
        move |e| {
            let mut m = file(v2, 'G', 2);
            let mut fs = vec![];
            for _ in 0..2 {
                let mut f = vec![];
                for _ in 0..2 {
                    f.push((*e.pick(&[b' ', b'1', b'4']), *e.pick(&[b' ', b'5', b'9'])));
                }
                fs.push(f);
            }
            let tail = e.flag();
            for i in 0..3 {
                let mut obs: Vec<_> = (0..2).map(|k| mo(20_000_000_000 + (i + 3 * k) as i64, fs[i % 2][k].0, fs[i % 2][k].1)).collect();
                if tail && i == 1 {
                    obs[1] = None;
                }
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock: None, sats: vec![MSat { sys: 'G', prn: 30, obs }] });
            }
            let trim = e.flag();
            check_crx(e, &m, CrxOpts { trim, ..opt(3) })
        },
    );

    let len = ctx.q(4, 5);
    ctx.explore(
        &name("clock"),
        "every history of clock offsets {none, +, -, 0, +1 unit} over N epochs, order 1-5, epochs in full or differenced, power failure flags",
        move |e| {
            let n = 1 + e.choose(len);
            let order = if n < 4 { 1 + e.choose(5) } else { 3 };
            let mut m = file(v2, 'G', 1);
            let mut full = 0;
            for i in 0..n {
                let c = *e.pick(&[None, Some(123_456_789), Some(-98_765_432), Some(0), Some(1)]);
                if i > 0 && n < 4 {
                    full |= (e.flag() as u32) << i;
                }
                let flag = if n < 4 { *e.pick(&[0, 1]) } else { 0 };
                m.epochs.push(MEpoch {
                    t: at(i),
                    flag,
                    clock: c.map(|c| if v2 { c } else { c * 1001 }),
                    sats: vec![MSat { sys: 'G', prn: 5, obs: vec![mo(20_000_000_000 + i as i64, b' ', b'1')] }],
                });
            }
            check_crx(e, &m, CrxOpts { order, full, reinit: 0, trim: false })
        },
    );

    let len = ctx.q(4, 5);
    ctx.explore(
        &name("values"),
        "every sequence of values from a list (single digits, zero, sign changes, full-width fields) at order 1-6",
        move |e| {
            let n = 2 + e.choose(len - 1);
            let order = 1 + e.choose(if n <= 3 { 5 } else { 3 });
            let mut m = file(v2, 'G', 2);
            for i in 0..n {
                let x = *e.pick(&[0, 1, -1, 20_000_000_123, -353, 9_999_999_999_999, -999_999_999_999]);
                m.epochs.push(MEpoch {
                    t: at(i),
                    flag: 0,
                    clock: None,
                    sats: vec![MSat { sys: 'G', prn: 5, obs: vec![mo(x, b' ', b' '), mo(7 - x / 1000, b' ', b' ')] }],
                });
            }
            check_crx(e, &m, opt(order))
        },
    );

    ctx.explore(
        &name("events"),
        "event records (epoch flags 2-5 with 0-2 lines) before, between and after epochs: sent verbatim, the next epoch in full; the observations around them are recovered",
        move |e| {
            let mut m = file(v2, 'G', 2);
            let n = 3;
            let mut lines: Vec<String> = vec![];
            let mut want: Vec<String> = vec![];
            const TEXTS: [&str; 3] = ["event                                                       COMMENT", "     1    C1                                                # / TYPES OF OBSERV", "  12345678.123  4"];
            for i in 0..n {
                let ev = e.choose(4);
                m.epochs.push(MEpoch {
                    t: at(i),
                    flag: 0,
                    clock: None,
                    sats: vec![MSat { sys: 'G', prn: 5 + i as u8, obs: vec![mo(20_000_000_000 + i as i64, b' ', b'1'), mo(5, b' ', b' ')] }],
                });
                if ev > 0 {
                    let f = *e.pick(&[2, 3, 4, 5]);
                    let l = &m.epoch_text(&MEpoch { t: at(i), flag: f, clock: None, sats: vec![] })[0];
                    let w = if v2 { 29 } else { 32 };
                    let l = format!("{}{:3}", &l[1..w], ev - 1);
                    lines.push(format!("{}{l}", if v2 { "&" } else { ">" }));
                    want.push(format!("{}{l}", if v2 { " " } else { ">" }));
                    let k = e.choose(3);
                    for j in 1..ev {
                        let l = TEXTS[(j + k) % 3];
                        lines.push(l.to_string());
                        want.push(l.to_string());
                    }
                }
                want.extend(m.epoch_text(&m.epochs[i]).iter().map(|l| l.trim_end().to_string()));
                let body = MFile { epochs: m.epochs[i..].to_vec(), ..m.clone() }.crinex_body(opt(3));
                // one epoch: epoch line, clock line, one satellite
                lines.extend(body.into_iter().take(3));
                // later epochs in full (the compressor re-initialises after an event)
            }
            e.note(|| lines.join("\n"));
            let text = no_panic("Decompressor", || drive(&m, &lines))??;
            let got: Vec<&str> = text.lines().map(|l| l.trim_end()).collect();
            m.epochs.iter().for_each(|_| e.step());
            if !same_lines(&got, &want) {
                let i = (0..want.len()).find(|i| got.get(*i) != Some(&want[*i].as_str())).unwrap_or(want.len());
                bail!("recovered line {i} is {:?}, want {:?}", got.get(i), want.get(i));
            }
            let head = |t: &str| t[..t.find("END OF HEADER").unwrap() + 13].to_string() + "\n";
            check_stream(&(head(&m.crinex(opt(3))) + &lines.join("\n") + "\n"), &(head(&m.text(1)) + &want.join("\n")))?;
            e.outcome(&text);
            e.validated();
            Ok(())
        },
    );

    ctx.explore(
        &name("steps"),
        "every ordered choice of three epochs from a list (100 ns to a year apart), each sent in full or differenced",
        move |e| {
            let m = match steps(e, v2) {
                Some(m) => m,
                None => return Ok(()),
            };
            let full = (e.choose(4) as u32) << 1;
            check_crx(e, &m, CrxOpts { full, trim: true, ..opt(3) })
        },
    );

    let (max, every) = (ctx.q(100, 300), ctx.q(7, 1));
    ctx.explore(
        &name("stream"),
        "the streaming decompressor: sizes of the reads x pieces and interruptions of the source; an error of the source before any byte; without a header (RINEX 3)",
        move |e| {
            let mut m = mixed(v2, &['G', 'R'], 7);
            for i in 0..3 {
                let ob = |k: usize| (0..7).map(|j| mo(20_000_000_000 + (i * 777 + k * 31 + j) as i64, b' ', b'1' + (i + j) as u8)).collect::<Vec<_>>();
                let mut sats = vec![MSat { sys: 'G', prn: 5, obs: ob(0) }, MSat { sys: 'R', prn: 7 + i as u8, obs: ob(1) }];
                sats[1].obs[6] = None;
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock: None, sats });
            }
            let crx = m.crinex(opt(3));
            let want = m.text(1);
            let mut stream = DecompressorIO::from_read(crx.as_bytes());
            let (whole, _) = no_panic("DecompressorIO", || drain(&mut stream, 8192, 1 << 24))?;
            check_stream(&crx, &want)?;
            let kind = e.choose(if v2 { 2 } else { 3 });
            let src = |data: &str, piece, interrupt, fail| Source { data: data.into(), pos: 0, piece, pieces: 0, interrupt, fail };
            match kind {
                0 => {
                    let size = 1 + e.choose(max);
                    let piece = *e.pick(&[1usize, 2, 61, 4096]);
                    let interrupt = *e.pick(&[0usize, 1, 2, 9]);
                    let cap = *e.pick(&[0usize, 1, 64]);
                    let s = src(&crx, piece, interrupt, usize::MAX);
                    let (out, err) = no_panic("DecompressorIO", || match cap {
                        0 => drain(DecompressorIO::from_read(s), size, 1 << 24),
                        c => drain(DecompressorIO::from_bufread(BufReader::with_capacity(c, s)), size, 1 << 24),
                    })?;
                    ensure!(err.is_none(), "reads of {size} bytes failed: {err:?}");
                    ensure!(out == whole, "reads of {size} bytes of a source delivered by {piece}: {:?}, want {:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&whole));
                },
                1 => {
                    let at = e.choose(crx.len() / every) * every;
                    let s = src(&crx, 4096, 0, at);
                    let (out, err) = no_panic("DecompressorIO", || drain(DecompressorIO::from_read(s), 100, 1 << 24))?;
                    ensure!(err.is_some(), "an error of the source at byte {at} is not reported");
                    ensure!(whole.starts_with(&out), "an error of the source at byte {at}: {:?}", String::from_utf8_lossy(&out));
                    e.outcome(&out.len());
                },
                _ => {
                    let piece = 1 + e.choose(max);
                    let body: Vec<String> = m.crinex_body(opt(3));
                    let mut stream = DecompressorIO::from_read(src(&(body.join("\n") + "\n"), piece, 0, usize::MAX));
                    for (c, o) in observables(&m) {
                        stream.with_observables(c, o);
                    }
                    let (out, err) = no_panic("DecompressorIO", || drain(stream, piece, 1 << 24))?;
                    ensure!(err.is_none(), "without header: {err:?}");
                    let end = want.find("END OF HEADER").unwrap() + 13;
                    let (got, want) = (trimmed_lines(&String::from_utf8_lossy(&out)), trimmed_lines(want[end..].trim_start()));
                    ensure!(got == want, "without header: {got:?}, want {want:?}");
                },
            }
            m.epochs.iter().for_each(|_| e.step());
            e.validated();
            Ok(())
        },
    );

    if v2 {
        ctx.explore(
            "v1-blank-lines",
            "the text recovered from CRINEX 1 has no blank line in excess, for 11 and 12 satellites and lines that stop before their flags",
            move |e| {
                let n = *e.pick(&[1usize, 11, 12, 23, 24]);
                let k = *e.pick(&[1usize, 5, 6]);
                let mut m = file(true, 'G', k);
                let ssi = if e.flag() { b' ' } else { b'5' };
                let sats = (0..n).map(|j| MSat { sys: 'G', prn: 1 + j as u8, obs: (0..k).map(|i| mo((i * 100 + j + 1) as i64, b' ', ssi)).collect() });
                m.epochs.push(MEpoch { t: at(0), flag: 0, clock: None, sats: sats.collect() });
                check_crx_(e, &m, CrxOpts { trim: true, ..opt(3) }, true)
            },
        );
        ctx.explore(
            "v1-blank-system",
            "single-constellation CRINEX 1 whose satellites have no system letter: 1..14 satellites, both blank and zero filled",
            move |e| {
                let mut m = file(true, 'G', 2);
                let n = 1 + e.choose(14);
                let style = e.choose(3);
                for i in 0..2 {
                    m.epochs.push(MEpoch {
                        t: at(i),
                        flag: 0,
                        clock: None,
                        sats: (0..n)
                            .map(|k| MSat { sys: 'G', prn: k as u8 + 3, obs: vec![mo(20_000_000_000 + (i * 50 + k) as i64, b' ', b' '), mo(5, b' ', b'1')] })
                            .collect(),
                    });
                }
                let mut body = m.crinex_body(CrxOpts { order: 3, full: 2, reinit: 0, trim: false });
                let per = 2 + n;
                for i in 0..2 {
                    let l = &mut body[i * per];
                    let mut x = l[..32].to_string();
                    for k in 0..n {
                        x += &match style {
                            0 => format!(" {:02}", k + 3),
                            1 => format!(" {:2}", k + 3),
                            _ => format!("G{:2}", k + 3),
                        };
                    }
                    *l = x;
                }
                let crx = m.crinex_header() + &m.header() + &body.join("\n") + "\n";
                e.note(|| crx.clone());
                let rnx = match no_panic("Rinex::parse", || parse_str(&crx))? {
                    Ok(r) => r,
                    Err(x) => bail!("Rinex::parse refused a well-formed CRINEX: {x:?}"),
                };
                e.step();
                if let Some(d) = diff(&m.expected(), &observed(&rnx)?, TOL) {
                    bail!("Rinex::parse of the CRINEX: {d}");
                }
                e.validated();
                Ok(())
            },
        );
    }
}

pub fn run_decompress(ctx: &mut Ctx) {
    run(ctx, false);
    run(ctx, true);
    let f = |e: &mut Exec, m: &MFile| {
        let order = *e.pick(&[3, 5]);
        let trim = e.flag();
        check_crx(e, m, CrxOpts { order, full: 0, reinit: 0, trim })
    };
    sizes(ctx, false, "v3-", f);
    sizes(ctx, true, "v1-", f);
}

fn steps(e: &mut Exec, v2: bool) -> Option<MFile> {
            let mut m = file(v2, 'G', 1);
            let t = [
                MTime(2021, 12, 30, 23, 59, 599_999_999),
                MTime(2021, 12, 30, 23, 59, 590_000_000),
                MTime(2021, 12, 31, 0, 0, 0),
                MTime(2021, 12, 31, 0, 0, 1),
                MTime(2021, 12, 31, 1, 0, 0),
                MTime(2021, 12, 31, 10, 10, 101_000_000),
                MTime(2021, 12, 31, 23, 59, 599_000_000),
                MTime(2022, 1, 1, 0, 0, 0),
                MTime(2022, 11, 11, 11, 11, 111_111_111),
            ];
            let mut seen = vec![];
            for i in 0..3 {
                let k = *e.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8]);
                if seen.contains(&k) {
                    e.trivial();
                    return None;
                }
                seen.push(k);
                let sats = vec![MSat { sys: 'G', prn: 5, obs: vec![mo(20_000_000_000 + i as i64, b' ', b'1')] }];
                m.epochs.push(MEpoch { t: t[k], flag: 0, clock: None, sats });
            }
            m.epochs.sort_by_key(|e| (e.t.0, e.t.1, e.t.2, e.t.3, e.t.4, e.t.5));
            Some(m)
}

// ------------------------------------------------------------------ P03

/// Compresses what the library read of the model's text.
fn check_lossless(e: &mut Exec, m: &MFile) -> R {
    let text = m.text(1);
    e.note(|| format!("rinex:\n{text}"));
    let rnx = no_panic("Rinex::parse", || parse_str(&text))?.map_err(|x| format!("Rinex::parse: {x:?}"))?;
    let exp = m.expected();
    // what is not read correctly is P04/P05's business
    let read = observed(&rnx)?;
    ensure!(diff(&exp, &read, TOL).is_none(), "the file itself is misread: {}", diff(&exp, &read, TOL).unwrap());
    let crx = no_panic("rnx2crnx", || rnx.rnx2crnx())?;
    ensure!(crx.record == rnx.record, "rnx2crnx changes the record");
    let out = match no_panic("format (CRINEX)", || format_rinex(&crx))? {
        Ok(t) => t,
        Err(x) => bail!("formatting the CRINEX failed: {x}"),
    };
    e.note(|| format!("crinex:\n{out}"));
    e.outcome(&out.lines().skip(2).collect::<Vec<_>>().join("\n"));
    let ver = if m.major() < 3 { "1.0" } else { "3.0" };
    ensure!(out.starts_with(ver) && out.lines().next().unwrap().contains("COMPACT RINEX FORMAT"), "first line is {:?}", out.lines().next());
    // by the format document
    match crate::model::crx::decode(&out, m) {
        Ok(d) => {
            if let Some(d) = diff(&exp, &d, TOL) {
                bail!("decoded by the format document: {d}");
            }
        },
        Err(x) => bail!("not a CRINEX: {x}"),
    }
    // by the library
    let back = no_panic("Rinex::parse", || parse_str(&out))?.map_err(|x| format!("Rinex::parse of the CRINEX: {x:?}"))?;
    if let Some(d) = diff(&exp, &observed(&back)?, TOL) {
        bail!("read back: {d}");
    }
    let un = no_panic("crnx2rnx", || back.crnx2rnx())?;
    ensure!(un.header.obs.as_ref().map(|o| o.crinex.is_none()) == Some(true), "crnx2rnx leaves CRINEX fields in the header");
    ensure!(un.record == back.record, "crnx2rnx changes the record");
    for (k, v) in &exp {
        e.step();
        e.state(&(format!("{k:?}"), v.1.len(), v.0.map(|f| f.to_bits())));
    }
    e.validated();
    Ok(())
}

fn lossless(ctx: &mut Ctx, v2: bool) {
    let v = if v2 { "v1" } else { "v3" };
    let name = |s: &str| format!("{v}-{s}");
    let unit = |c: i64| if v2 { c } else { c * 1001 };

    let len = ctx.q(4, 6);
    ctx.explore(
        &name("arcs"),
        "every history of N epochs where a satellite is absent / complete / has its first or second signal only, beside a permanent satellite",
        move |e| {
            let n = 1 + e.choose(len);
            let mut m = mixed(v2, &['G', 'R'], 2);
            for i in 0..n {
                let st = e.choose(4);
                let v = |k: i64| [20_000_000_123, 20_000_500_127, 20_001_900_001, 19_999_123_456, 21_000_000_000, 17][i] * (k + 1) - k * 7;
                let fl = [b' ', b'1', b' ', b'4', b'1', b' '][i];
                let fs = [b'7', b'7', b'8', b' ', b'9', b'1'][i];
                let mut sats = vec![MSat { sys: 'G', prn: 1, obs: vec![mo(v(0) / 3, b' ', b'5'), mo(v(1), fl, b' ')] }];
                if st > 0 {
                    let a = mo(v(2), fl, fs);
                    let b = mo(-v(3) / 1000, b' ', fs);
                    sats.push(MSat {
                        sys: 'R',
                        prn: 9,
                        obs: match st {
                            1 => vec![a, b],
                            2 => vec![a, None],
                            _ => vec![None, b],
                        },
                    });
                }
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock: None, sats });
            }
            check_lossless(e, &m)
        },
    );
    let len = ctx.q(4, 5);
    ctx.explore(
        &name("empty"),
        "every history of N epochs over {no satellite, the first, the second, both} x {no clock, a clock offset}",
        move |e| {
            let n = 1 + e.choose(len);
            let mut m = mixed(v2, &['G', 'R'], 2);
            for i in 0..n {
                let st = e.choose(4);
                let clock = if e.flag() { Some(unit(123_456_789 - 1_000_000 * i as i64)) } else { None };
                let sat = |sys, prn, k: i64| MSat { sys, prn, obs: vec![mo(20_000_000_000 + 1000 * k + (i * i) as i64, b' ', b'5'), mo(k - i as i64, b'1', b' ')] };
                let mut sats = vec![];
                if st & 1 > 0 {
                    sats.push(sat('G', 1, 3));
                }
                if st & 2 > 0 {
                    sats.push(sat('R', 9, 7));
                }
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock, sats });
            }
            check_lossless(e, &m)
        },
    );
    let len = ctx.q(4, 6);
    ctx.explore(
        &name("clock"),
        "every history of clock offsets {none, +, -, 0} and epoch flags {0, 1, 6} over N epochs",
        move |e| {
            let n = 1 + e.choose(len);
            let mut m = file(v2, 'G', 1);
            for i in 0..n {
                let clock = (*e.pick(&[None, Some(123_456_789), Some(-98_765_432), Some(0)])).map(unit);
                let flag = if i < 4 { *e.pick(&[0, 1, 6]) } else { 0 };
                let sats = vec![MSat { sys: 'G', prn: 5, obs: vec![mo(20_000_000_000 + i as i64, b' ', b'1')] }];
                m.epochs.push(MEpoch { t: at(i), flag, clock, sats });
            }
            check_lossless(e, &m)
        },
    );
    ctx.explore(
        &name("flags"),
        "every pair of flag strings of two signals over {blank,0,1,4,7} x {blank,0,5,9}, in two successive epochs, second signal missing or not",
        move |e| {
            let mut m = file(v2, 'G', 2);
            for i in 0..2 {
                let mut obs = vec![];
                for k in 0..2 {
                    let l = *e.pick(&[b' ', b'0', b'1', b'4', b'7']);
                    let s = *e.pick(&[b' ', b'0', b'5', b'9']);
                    obs.push(mo(20_000_000_000 + (i + 3 * k) as i64, l, s));
                }
                if i == 1 && e.flag() {
                    obs[1] = None;
                }
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock: None, sats: vec![MSat { sys: 'G', prn: 30, obs }] });
            }
            check_lossless(e, &m)
        },
    );
    let len = ctx.q(4, 6);
    ctx.explore(
        &name("values"),
        "every sequence of N values from a list (zero, single digits, sign changes, full-width fields)",
        move |e| {
            let n = 2 + e.choose(len - 1);
            let mut m = file(v2, 'G', 2);
            for i in 0..n {
                let x = *e.pick(&[0, 1, -1, 20_000_000_123, -353, 9_999_999_999_999, -999_999_999_999]);
                let sats = vec![MSat { sys: 'G', prn: 5, obs: vec![mo(x, b' ', b' '), mo(7 - x / 1000, b' ', b' ')] }];
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock: None, sats });
            }
            check_lossless(e, &m)
        },
    );
    let nc = ctx.q(12, 20);
    let ns = ctx.q(26, 56);
    ctx.explore(
        &name("shape"),
        "every number of signals x number of satellites (GPS, GLONASS, SBAS), a later epoch with 1, as many or one more",
        move |e| {
            let n = 1 + e.choose(nc);
            let s = 1 + e.choose(ns);
            let s2 = *e.pick(&[1usize, s, s + 1]);
            let clk = if e.flag() { Some(unit(-1_234_567)) } else { None };
            let mut m = mixed(v2, &['S', 'G', 'R'], n);
            for (i, s) in [s, s2].iter().enumerate() {
                let mut sats = vec![];
                for j in 0..*s {
                    let (sys, prn) = match j {
                        0 => ('S', 20),
                        1..=32 => ('G', j),
                        33..=56 => ('R', j - 32),
                        _ => ('S', j - 30),
                    };
                    let obs: Vec<_> = (0..n).map(|k| mo(20_000_000_000 + (i * 777 + j * 100 + k) as i64, b' ', b'7')).collect();
                    sats.push(MSat { sys, prn: prn as u8, obs });
                }
                m.epochs.push(MEpoch { t: at(i), flag: 0, clock: clk, sats });
            }
            check_lossless(e, &m)
        },
    );
    ctx.explore(
        &name("steps"),
        "every pair of time steps from a list (100 ns to a year change) between three epochs",
        move |e| {
            let m = match steps(e, v2) {
                Some(m) => m,
                None => return Ok(()),
            };
            check_lossless(e, &m)
        },
    );
}

pub fn run_lossless(ctx: &mut Ctx) {
    lossless(ctx, false);
    lossless(ctx, true);
    sizes(ctx, false, "v3-", check_lossless);
    sizes(ctx, true, "v1-", check_lossless);
}
