//! P19-P22, P28: transport, I/O errors, truncation, malformed content, comments.
use crate::engine::*;
use crate::samples::*;
use crate::util::*;
use crate::{bail, ensure};
use flate2::write::GzEncoder;
use flate2::Compression;
use rinex::prelude::*;
use std::io::{self, BufReader, BufWriter, Read, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};

/// What a source does on its nth call.
#[derive(Clone, Debug)]
enum Act {
    /// at most n bytes
    Give(usize),
    Fail(io::ErrorKind),
}
/// A source that follows a plan (the last action repeats).
struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    plan: Vec<Act>,
    next: usize,
}
impl<'a> Source<'a> {
    fn new(data: &'a [u8], plan: Vec<Act>) -> Self {
        Self { data, pos: 0, plan, next: 0 }
    }
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let a = self.plan[self.next.min(self.plan.len() - 1)].clone();
        self.next += 1;
        match a {
            Act::Fail(k) => Err(io::Error::new(k, "injected")),
            Act::Give(n) => {
                let n = n.min(b.len()).min(self.data.len() - self.pos);
                b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            },
        }
    }
}
/// Interrupts every other call, gives k bytes otherwise.
struct Choppy<'a> {
    data: &'a [u8],
    pos: usize,
    k: usize,
    interrupts: bool,
    odd: bool,
}
impl Read for Choppy<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.odd = !self.odd;
        if self.interrupts && self.odd {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.k.min(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// A sink that takes k bytes per call, fails once `limit` bytes were taken.
struct Sink {
    got: Vec<u8>,
    k: usize,
    limit: usize,
    interrupts: bool,
    odd: bool,
    kind: Option<io::ErrorKind>,
    flush_fails: bool,
}
impl Sink {
    fn new(k: usize) -> Self {
        Self { got: vec![], k, limit: usize::MAX, interrupts: false, odd: false, kind: None, flush_fails: false }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.odd = !self.odd;
        if self.interrupts && self.odd {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.k.min(b.len()).min(self.limit - self.got.len());
        if n == 0 && !b.is_empty() {
            return match self.kind {
                Some(k) => Err(io::Error::new(k, "injected")),
                None => Ok(0),
            };
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails {
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        Ok(())
    }
}
pub fn samples() -> &'static Vec<Sample> {
    static S: OnceLock<Vec<Sample>> = OnceLock::new();
    S.get_or_init(all)
}
/// Reads through `r`; content of the result in comparable form.
fn read_with<R: Read>(r: R, cap: usize) -> R_<Result<String, String>> {
    no_panic("Rinex::parse", move || {
        let mut b = BufReader::with_capacity(cap, r);
        Rinex::parse(&mut b).map(|r| whole(&r)).map_err(|e| format!("{e:?}"))
    })
}
type R_<T> = Result<T, Fail>;

/// Content of the whole sample, read at once.
fn base(i: usize) -> R_<String> {
    static B: OnceLock<Mutex<Vec<Option<String>>>> = OnceLock::new();
    let b = B.get_or_init(|| Mutex::new(vec![None; 64]));
    if let Some(s) = &b.lock().unwrap()[i] {
        return Ok(s.clone());
    }
    let s = &samples()[i];
    let rnx = no_panic("Rinex::parse", || parse_str(&s.text()))?.map_err(|e| format!("{}: refused: {e:?}", s.name))?;
    let n = items(&rnx.record).len();
    // otherwise the comparisons below would be worth nothing
    let want = match s.name {
        "ionex" => 10,
        "ionex-rms" => 12,
        "met2" | "met3" => 8,
        _ => s.blocks.len(),
    };
    ensure!(n == want, "{}: {n} items instead of {want}", s.name);
    let w = whole(&rnx);
    b.lock().unwrap()[i] = Some(w.clone());
    Ok(w)
}
fn same(e: &mut Exec, what: &str, want: &str, got: Result<String, String>) -> R {
    match got {
        Err(x) => bail!("{what}: {x}"),
        Ok(g) if g == want => {
            e.outcome(&g);
            e.step();
            e.validated();
            Ok(())
        },
        Ok(g) => {
            let (a, b) = want.lines().zip(g.lines()).find(|(a, b)| a != b).unwrap_or((want, &g));
            let p = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let cut = |s: &str| s.chars().skip(p.saturating_sub(60)).take(200).collect::<String>();
            bail!("{what}: another content: ...{} instead of ...{}", cut(b), cut(a))
        },
    }
}
/// A scratch file, removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new(name: &str) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("mc-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d.join(name))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(self.0.parent().unwrap());
    }
}
fn gz(data: &[u8], level: u32) -> Vec<u8> {
    let mut w = GzEncoder::new(vec![], Compression::new(level));
    w.write_all(data).unwrap();
    w.finish().unwrap()
}
fn written(i: usize) -> R_<(Rinex, Vec<u8>)> {
    let s = &samples()[i];
    let rnx = no_panic("Rinex::parse", || parse_str(&s.text()))?.map_err(|e| format!("{}: refused: {e:?}", s.name))?;
    let mut w = BufWriter::new(vec![]);
    no_panic("format", || rnx.format(&mut w))?.map_err(|e| format!("{}: format: {e:?}", s.name))?;
    let v = w.into_inner().map_err(|e| e.to_string())?;
    Ok((rnx, v))
}
/// Samples the library can write (IONEX and ANTEX are not formatted).
const WRITABLE: [&str; 8] = ["obs2", "obs3", "crx1", "crx3", "met2", "met3", "nav3", "nav4"];

fn one_of(e: &mut Exec, names: &[&str]) -> usize {
    let n = *e.pick(names);
    samples().iter().position(|s| s.name == n).unwrap()
}
fn one(e: &mut Exec) -> usize {
    e.choose(samples().len())
}

pub fn transport(ctx: &mut Ctx) {
    ctx.explore("splits", "every sample file, delivered in two pieces cut at every byte", |e| {
        let i = one(e);
        let t = samples()[i].text();
        let p = 1 + e.choose(t.len() - 1);
        let want = base(i)?;
        e.note(|| format!("{}: cut at byte {p} of {}", samples()[i].name, t.len()));
        let got = read_with(Source::new(t.as_bytes(), vec![Act::Give(p), Act::Give(usize::MAX)]), 8192)?;
        same(e, "two pieces", &want, got)
    });
    ctx.explore("chunks", "every sample file x size of the pieces x capacity of the buffer x interruptions", |e| {
        let i = one(e);
        let t = samples()[i].text();
        let k = 1 + e.choose(96);
        let cap = *e.pick(&[1usize, 2, 61, 80, 8192]);
        let interrupts = e.flag();
        let want = base(i)?;
        e.note(|| format!("{}: pieces of {k} bytes, buffer of {cap}, interruptions: {interrupts}", samples()[i].name));
        let got = read_with(Choppy { data: t.as_bytes(), pos: 0, k, interrupts, odd: false }, cap)?;
        same(e, "pieces", &want, got)
    });
    ctx.explore("interruption", "every sample file, pieces of 64 bytes, one interruption before any piece", |e| {
        let i = one(e);
        let t = samples()[i].text();
        let n = e.choose(t.len() / 64 + 2);
        let mut plan = vec![Act::Give(64); n];
        plan.push(Act::Fail(io::ErrorKind::Interrupted));
        plan.push(Act::Give(64));
        let want = base(i)?;
        e.note(|| format!("{}: interruption before piece {n}", samples()[i].name));
        let got = read_with(Source::new(t.as_bytes(), plan), 64)?;
        same(e, "interruption", &want, got)
    });
    ctx.explore("line ends", "every sample file with CR LF at every line, at any single line, with or without an end of the last line", |e| {
        let i = one(e);
        let t = samples()[i].text();
        let n = t.lines().count();
        let which = e.choose(n + 2);
        let last = e.flag();
        let mut x = String::new();
        for (k, l) in t.lines().enumerate() {
            x += l;
            x += if which == n + 1 || which == k { "\r\n" } else { "\n" };
        }
        if last {
            x.truncate(x.trim_end_matches(['\r', '\n']).len());
        }
        let want = base(i)?;
        e.note(|| format!("{}: CR LF at line {which} ({n}: none, {}: all), last line end removed: {last}", samples()[i].name, n + 1));
        let got = read_with(x.as_bytes(), 8192)?;
        same(e, "line ends", &want, got)
    });
    let step = ctx.q(7, 1);
    ctx.explore("files", "every sample file, as a plain file, a gzip file (every level) or a gzip file of two members cut anywhere", move |e| {
        let i = one(e);
        let t = samples()[i].text();
        let p = e.choose(11 + t.len() / step);
        let want = base(i)?;
        e.note(|| format!("{}: {p}", samples()[i].name));
        let f = Scratch::new(if p == 0 { "x.rnx" } else { "x.rnx.gz" });
        let data = match p {
            0 => t.as_bytes().to_vec(),
            1..=10 => gz(t.as_bytes(), p as u32 - 1),
            _ => {
                let (a, b) = t.as_bytes().split_at((p - 11) * step);
                [gz(a, 6), gz(b, 1)].concat()
            },
        };
        std::fs::write(&f.0, data).unwrap();
        let got = no_panic("from_file", || {
            if p == 0 {
                Rinex::from_file(&f.0)
            } else {
                Rinex::from_gzip_file(&f.0)
            }
        })?;
        same(e, "file", &want, got.map(|r| whole(&r)).map_err(|x| format!("{x:?}")))
    });
    ctx.explore("writing", "every writable sample, to a sink that takes at most k bytes at a time, with or without interruptions, x capacity of the buffer; to a plain or gzip file", |e| {
        let i = one_of(e, &WRITABLE);
        let k = e.choose(98);
        let interrupts = e.flag();
        let cap = *e.pick(&[1usize, 61, 80, 8192]);
        let (rnx, want) = written(i)?;
        e.note(|| format!("{}: {k} bytes at a time, interruptions {interrupts}, buffer {cap}", samples()[i].name));
        let got = if k > 0 {
            let mut w = BufWriter::with_capacity(cap, Sink { interrupts, ..Sink::new(k) });
            no_panic("format", || rnx.format(&mut w))?.map_err(|x| format!("format: {x:?}"))?;
            w.into_inner().map_err(|x| x.to_string())?.got
        } else if !interrupts {
            let f = Scratch::new("x.rnx");
            no_panic("to_file", || rnx.to_file(&f.0))?.map_err(|x| format!("to_file: {x:?}"))?;
            std::fs::read(&f.0).unwrap()
        } else {
            let f = Scratch::new("x.rnx.gz");
            no_panic("to_gzip_file", || rnx.to_gzip_file(&f.0))?.map_err(|x| format!("to_gzip_file: {x:?}"))?;
            let mut v = vec![];
            flate2::read::GzDecoder::new(std::fs::File::open(&f.0).unwrap()).read_to_end(&mut v).map_err(|x| format!("gzip file: {x}"))?;
            v
        };
        // the date of production is part of the header of CRINEX files
        let (a, b) = (strip(&got), strip(&want));
        ensure!(a == b, "{}: other bytes are written: {a} instead of {b}", samples()[i].name);
        e.outcome(&a);
        e.step();
        e.validated();
        Ok(())
    });
}
fn strip(b: &[u8]) -> String {
    String::from_utf8_lossy(b).lines().filter(|l| !l.contains("PGM / RUN BY") && !l.contains("CRINEX PROG")).collect::<Vec<_>>().join("\n")
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(what: i32, r: *const Rlimit) -> i32;
    fn getrlimit(what: i32, r: *mut Rlimit) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}
/// The limit is that of the process: one file is written at a time.
static FILES: Mutex<()> = Mutex::new(());
/// Runs f while no file can grow past `n` bytes.
fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    let _g = FILES.lock().unwrap_or_else(|e| e.into_inner());
    let mut old = Rlimit { cur: 0, max: 0 };
    unsafe {
        signal(25, 1); // SIGXFSZ: ignored, write fails with EFBIG
        assert_eq!(getrlimit(1, &mut old), 0);
        assert_eq!(setrlimit(1, &Rlimit { cur: n, max: old.max }), 0);
    }
    let r = f();
    unsafe {
        assert_eq!(setrlimit(1, &old), 0);
    }
    r
}

pub fn io_errors(ctx: &mut Ctx) {
    ctx.explore("reading", "every sample file x an error of the source after every byte x kind of error", |e| {
        let i = one(e);
        let t = samples()[i].text();
        let p = e.choose(t.len() + 1);
        let kind = *e.pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData]);
        e.note(|| format!("{}: {kind:?} after byte {p} of {}", samples()[i].name, t.len()));
        base(i)?;
        let plan = if p == 0 { vec![Act::Fail(kind)] } else { vec![Act::Give(p), Act::Fail(kind)] };
        let r = read_with(Source::new(t.as_bytes(), plan), 8192)?;
        ensure!(r.is_err(), "{}: the source failed with {kind:?} after byte {p} of {} and reading succeeded", samples()[i].name, t.len());
        e.outcome(&r);
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("transient", "every sample file x an error of the source after any piece of 64 bytes, the source works again afterwards", |e| {
        let i = one(e);
        let t = samples()[i].text();
        let n = e.choose(t.len() / 64 + 1);
        let kind = *e.pick(&[io::ErrorKind::Other, io::ErrorKind::WouldBlock]);
        let mut plan = vec![Act::Give(64); n];
        plan.extend([Act::Fail(kind), Act::Give(64)]);
        e.note(|| format!("{}: {kind:?} before piece {n}", samples()[i].name));
        let r = read_with(Source::new(t.as_bytes(), plan), 64)?;
        ensure!(r.is_err(), "{}: the source failed with {kind:?} before piece {n} and reading succeeded", samples()[i].name);
        e.outcome(&r);
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("gzip truncated", "every sample gzip file, cut after every byte", |e| {
        let i = one(e);
        let z = gz(samples()[i].text().as_bytes(), 6);
        let p = e.choose(z.len());
        e.note(|| format!("{}: gzip cut after byte {p} of {}", samples()[i].name, z.len()));
        let f = Scratch::new("x.rnx.gz");
        std::fs::write(&f.0, &z[..p]).unwrap();
        let r = no_panic("from_gzip_file", || Rinex::from_gzip_file(&f.0).map(|r| whole(&r)))?;
        ensure!(r.is_err(), "{}: gzip file cut after byte {p} of {} and reading succeeded", samples()[i].name, z.len());
        e.step();
        e.validated();
        Ok(())
    });
    let bits = ctx.q(2, 8);
    ctx.explore("gzip corrupted", "every sample gzip file, one bit of any byte inverted: an error, or the very same content", move |e| {
        let i = one(e);
        let mut z = gz(samples()[i].text().as_bytes(), 6);
        let p = e.choose(z.len());
        let b = e.choose(bits);
        z[p] ^= 1 << if bits == 8 { b } else { [0, 6][b] };
        e.note(|| format!("{}: bit {b} of byte {p} of {}", samples()[i].name, z.len()));
        let want = base(i)?;
        let f = Scratch::new("x.rnx.gz");
        std::fs::write(&f.0, &z).unwrap();
        let r = no_panic("from_gzip_file", || Rinex::from_gzip_file(&f.0).map(|r| whole(&r)))?;
        if let Ok(r) = &r {
            ensure!(*r == want, "{}: gzip file corrupted at byte {p} and another content was read", samples()[i].name);
        }
        e.outcome(&r.is_ok());
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("writing", "every writable sample x a sink that fails after any number of bytes (with an error, or by taking nothing) x capacity of the buffer", |e| {
        let i = one_of(e, &WRITABLE);
        let (rnx, full) = written(i)?;
        let n = e.choose(full.len() + 1);
        let kind = *e.pick(&[Some(io::ErrorKind::Other), None]);
        let cap = *e.pick(&[1usize, 80, 8192]);
        e.note(|| format!("{}: {kind:?} after {n} bytes of {}, buffer of {cap}", samples()[i].name, full.len()));
        let mut w = BufWriter::with_capacity(cap, Sink { limit: n, kind, ..Sink::new(usize::MAX) });
        let r = no_panic("format", || rnx.format(&mut w))?;
        let (sink, _) = w.into_parts();
        if n == full.len() {
            ensure!(r.is_ok(), "{}: format failed on a working sink: {r:?}", samples()[i].name);
        } else {
            ensure!(r.is_err(), "{}: the sink failed after {n} bytes of {} and format succeeded", samples()[i].name, full.len());
        }
        ensure!(full.starts_with(&sink.got) || strip(&full).starts_with(strip(&sink.got).trim_end()) || n < 400, "{}: bytes were written out of order", samples()[i].name);
        e.outcome(&r.is_ok());
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("flush", "every writable sample x a sink whose flush fails", |e| {
        let i = one_of(e, &WRITABLE);
        let (rnx, _) = written(i)?;
        let mut w = BufWriter::new(Sink { flush_fails: true, ..Sink::new(100) });
        let r = no_panic("format", || rnx.format(&mut w))?;
        ensure!(r.is_err(), "{}: the flush of the sink failed and format succeeded", samples()[i].name);
        e.step();
        e.validated();
        Ok(())
    });
    let step = ctx.q(13, 1);
    ctx.explore("files", "every writable sample x plain or gzip file that cannot grow past any number of bytes", move |e| {
        let i = one_of(e, &WRITABLE);
        let (rnx, full) = written(i)?;
        let zip = e.flag();
        let f = Scratch::new(if zip { "x.rnx.gz" } else { "x.rnx" });
        let total = if zip {
            let _g = FILES.lock().unwrap_or_else(|e| e.into_inner());
            no_panic("to_gzip_file", || rnx.to_gzip_file(&f.0))?.map_err(|x| format!("to_gzip_file: {x:?}"))?;
            std::fs::metadata(&f.0).unwrap().len()
        } else {
            full.len() as u64
        };
        // every limit near the end, every `step`th one elsewhere
        let near = 24;
        let k = e.choose(near + total as usize / step);
        let limit = if k < near { total.saturating_sub(1 + k as u64) } else { ((k - near) * step) as u64 };
        if limit >= total {
            e.trivial();
            return Ok(());
        }
        e.note(|| format!("{}: file limited to {limit} bytes of {total}", samples()[i].name));
        let r = no_panic("to_file", || {
            with_file_limit(limit, || if zip { rnx.to_gzip_file(&f.0) } else { rnx.to_file(&f.0) })
        })?;
        ensure!(r.is_err(), "{}: the file could not grow past {limit} bytes of {total} (gzip: {zip}) and writing succeeded", samples()[i].name);
        e.outcome(&format!("{r:?}"));
        e.step();
        e.validated();
        Ok(())
    });
}

pub fn truncation(ctx: &mut Ctx) {
    ctx.explore("cut", "every sample file cut after every byte of its body (also with CR LF line ends)", |e| {
        let i = one(e);
        let s = &samples()[i];
        let crlf = e.flag();
        let conv = |x: &str| if crlf { x.replace('\n', "\r\n") } else { x.to_string() };
        let (h, t) = (conv(&s.header), conv(&s.text()));
        let p = h.len() + e.choose(t.len() - h.len() + 1);
        e.note(|| format!("{} cut after byte {p}, CR LF: {crlf}:\n{}", s.name, &t[..p]));
        base(i)?;
        let full = no_panic("Rinex::parse", || parse_str(&t))?.map_err(|x| format!("{x:?}"))?;
        let all = items(&full.record);
        let r = no_panic("Rinex::parse", || parse_str(&t[..p]))?;
        // blocks that are complete before the cut (their last line end aside)
        let mut end = h.len();
        let mut done = 0;
        for b in &s.blocks {
            end += conv(b).len();
            if conv(b).trim_end().len() + end - conv(b).len() > p {
                break;
            }
            done += 1;
        }
        let cut = match r {
            Ok(r) => r,
            // a special line of IONEX that is cut is an error by design
            Err(x) if s.name.starts_with("ionex") && done < s.blocks.len() => {
                e.outcome(&format!("{x:?}"));
                return Ok(());
            },
            Err(x) => bail!("{} cut after byte {p}: {x:?}", s.name),
        };
        let got = items(&cut.record);
        // items of the complete blocks: those the file made of them alone has
        let head = h + &s.blocks[..done].iter().map(|b| conv(b)).collect::<String>();
        let kept = no_panic("Rinex::parse", || parse_str(&head))?.map_err(|x| format!("{x:?}"))?;
        let kept = items(&kept.record);
        let n = match s.name {
            // a TEC map is decoded when the next one starts (known finding of P16)
            "ionex" => done.saturating_sub(1) * 5,
            "ionex-rms" => done.saturating_sub(1).min(2) * 6,
            "met2" | "met3" => [0, 3, 5, 8][done],
            _ => done,
        };
        ensure!(kept.len() == n, "{}: {} items after {done} blocks", s.name, kept.len());
        for k in &kept {
            // RMS maps complete the TEC maps
            let rms = s.name == "ionex-rms";
            let is = |l: &[(String, String)], k: &(String, String)| if rms { l.iter().any(|x| x.0 == k.0) } else { l.contains(k) };
            ensure!(is(&all, k), "{}: {k:?} is not in the whole file", s.name);
            ensure!(is(&got, k), "{} cut after byte {p}: {k:?}, complete before the cut, is lost or altered", s.name);
        }
        // at most the block that is cut is there in excess
        let extra = got.len() - kept.len();
        let most = match s.name {
            "ionex" => 5,
            "ionex-rms" => 6,
            "met2" | "met3" => 3,
            _ => 1,
        };
        ensure!(extra <= most, "{} cut after byte {p}: {extra} items in excess", s.name);
        for (k, _) in &got {
            e.state(k);
        }
        e.outcome(&got);
        e.step();
        e.validated();
        Ok(())
    });
    ctx.explore("cut header", "every sample file cut after every byte of its header: a result or an error, and no item", |e| {
        let i = one(e);
        let s = &samples()[i];
        let p = e.choose(s.header.len());
        e.note(|| format!("{} cut after byte {p}", s.name));
        let r = no_panic("Rinex::parse", || parse_str(&s.header[..p]))?;
        if let Ok(r) = &r {
            ensure!(items(&r.record).is_empty(), "{} cut after byte {p}: items {:?}", s.name, items(&r.record));
        }
        e.outcome(&r.is_ok());
        e.step();
        e.validated();
        Ok(())
    });
}

/// Reads bytes that are no RINEX; what comes out must at least be usable.
fn total(e: &mut Exec, what: impl Fn() -> String, bytes: &[u8]) -> R {
    e.note(|| format!("{}\n{}", what(), String::from_utf8_lossy(bytes)));
    let r = no_panic("Rinex::parse", || parse_bytes(bytes)).map_err(|f| {
        // one report per call site
        let site = f.msg.split("panicked at ").nth(1).and_then(|m| m.split(' ').next()).unwrap_or("").trim().to_string();
        let site = site.split(".rs:").next().unwrap_or("").rsplit("/src/").next().unwrap_or("").to_string() + &site[site.find(".rs:").unwrap_or(site.len())..];
        Fail { key: site.lines().next().unwrap_or("").to_string(), msg: format!("{}: {}", what(), f.msg) }
    })?;
    if let Ok(r) = &r {
        e.outcome(&items(&r.record).len());
    }
    if bytes.windows(11).any(|w| w == b"CRINEX VERS") {
        no_panic("DecompressorIO", || {
            let mut d = rinex::hatanaka::DecompressorIO::from_read(bytes);
            let mut buf = [0u8; 8192];
            let (mut errors, mut reads) = (0, 0);
            // every line either produces something, or fails
            while errors + reads <= 2 * bytes.len() {
                match d.read(&mut buf) {
                    Ok(0) => return true,
                    Ok(_) => reads += 1,
                    Err(_) => errors += 1,
                }
            }
            false
        })
        .and_then(|end| if end { Ok(()) } else { Err(Fail { key: "DecompressorIO".into(), msg: format!("{}: DecompressorIO does not reach the end", what()) }) })?;
    }
    e.step();
    Ok(())
}
/// Labels of the header lines of all formats.
pub const LABELS: [&str; 92] = [
    "RINEX VERSION / TYPE", "PGM / RUN BY / DATE", "COMMENT", "MARKER NAME", "MARKER NUMBER", "MARKER TYPE", "OBSERVER / AGENCY", "REC # / TYPE / VERS", "ANT # / TYPE",
    "APPROX POSITION XYZ", "ANTENNA: DELTA H/E/N", "ANTENNA: DELTA X/Y/Z", "ANTENNA:PHASECENTER", "ANTENNA: B.SIGHT XYZ", "ANTENNA: ZERODIR AZI", "ANTENNA: ZERODIR XYZ",
    "CENTER OF MASS: XYZ", "WAVELENGTH FACT L1/2", "# / TYPES OF OBSERV", "SYS / # / OBS TYPES", "SIGNAL STRENGTH UNIT", "INTERVAL", "TIME OF FIRST OBS", "TIME OF LAST OBS",
    "RCV CLOCK OFFS APPL", "SYS / DCBS APPLIED", "SYS / PCVS APPLIED", "SYS / SCALE FACTOR", "SYS / PHASE SHIFT", "GLONASS SLOT / FRQ #", "GLONASS COD/PHS/BIS", "LEAP SECONDS",
    "# OF SATELLITES", "PRN / # OF OBS", "DOI", "LICENSE OF USE", "STATION INFORMATION", "MERGED FILE", "ION ALPHA", "ION BETA", "DELTA-UTC: A0,A1,T,W", "IONOSPHERIC CORR",
    "TIME SYSTEM CORR", "CORR TO SYSTEM TIME", "D-UTC A0,A1,T,W,S,U", "REC # / TYPE / VERS", "SENSOR MOD/TYPE/ACC", "SENSOR POS XYZ/H", "SYS / DCBS APPLIED", "TIME SYSTEM ID",
    "# / TYPES OF DATA", "STATION NAME / NUM", "STATION CLK REF", "ANALYSIS CENTER", "# OF CLK REF", "ANALYSIS CLK REF", "# OF SOLN STA / TRF", "SOLN STA NAME / NUM", "# OF SOLN SATS",
    "PRN LIST", "IONEX VERSION / TYPE", "DESCRIPTION", "EPOCH OF FIRST MAP", "EPOCH OF LAST MAP", "# OF MAPS IN FILE", "MAPPING FUNCTION", "ELEVATION CUTOFF", "OBSERVABLES USED",
    "# OF STATIONS", "BASE RADIUS", "MAP DIMENSION", "HGT1 / HGT2 / DHGT", "LAT1 / LAT2 / DLAT", "LON1 / LON2 / DLON", "EXPONENT", "START OF AUX DATA", "PRN / BIAS / RMS",
    "STATION / BIAS / RMS", "END OF AUX DATA", "ANTEX VERSION / SYST", "PCV TYPE / REFANT", "TYPE / SERIAL NO", "SATELLITE NAME", "COSPAR NUMBER", "L2 / L1 DATE OFFSET",
    "# OF STATIONS", "STATION REFERENCE", "# TIME REF STATIONS", "TIME REF STATION", "TIME REF STAT DATE", "CRINEX VERS   / TYPE", "CRINEX PROG / DATE",
];
pub fn contents() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<String> = samples().iter().flat_map(|s| s.header.lines()).map(|l| l.get(..60).unwrap_or("").to_string()).collect();
        v.extend(["", "\u{e9}\u{e8}\u{20ac}", "999999999999999999999999999999999999999999999999999999999999", "-1 -1 -1 -1 -1 -1", "G", "                                  G", "    nan   nan   nan   nan"].map(|s| s.to_string()));
        v.sort();
        v.dedup();
        v
    })
}
pub fn lines_of(s: &Sample) -> Vec<String> {
    s.text().lines().map(|l| l.to_string()).collect()
}

pub fn malformed(ctx: &mut Ctx) {
    ctx.explore("bytes", "every sample file, any byte replaced by any of an alphabet (control characters, blank, digits, signs, letters, marks, multi-byte and invalid UTF-8)", |e| {
        let i = one(e);
        let t = samples()[i].text().into_bytes();
        let p = e.choose(t.len());
        let c: &[u8] = *e.pick(&[&b" "[..], b"\n", b"-", b"9", b"0", b".", b"E", b"G", b"A", b">", b"&", b"\0", b"\r", "é".as_bytes(), "\u{20ac}".as_bytes(), b"\xff", b""]);
        let mut x = t[..p].to_vec();
        x.extend(c);
        x.extend(&t[p + 1..]);
        total(e, || format!("{}: byte {p} replaced by {c:?}", samples()[i].name), &x)
    });
    ctx.explore("trims", "every sample file, any line cut at any column, alone or with the rest of the file", |e| {
        let i = one(e);
        let l = lines_of(&samples()[i]);
        let n = e.choose(l.len());
        let c = e.choose(l[n].len() + 1);
        let end = e.flag();
        let mut x = l[..n].join("\n") + "\n" + &l[n][..c];
        if !end {
            x += "\n";
            x += &l[n + 1..].join("\n");
        }
        total(e, || format!("{}: line {n} cut at column {c}, end: {end}", samples()[i].name), x.as_bytes())
    });
    ctx.explore("shifts", "every sample file, a character inserted at any column of any line", |e| {
        let i = one(e);
        let l = lines_of(&samples()[i]);
        let n = e.choose(l.len());
        let c = e.choose(l[n].len() + 1);
        let k = *e.pick(&[" ", "1", "-", "é", "   ", "99999999999999999999"]);
        let mut x = l.clone();
        x[n].insert_str(c, k);
        total(e, || format!("{}: {k:?} inserted at column {c} of line {n}", samples()[i].name), x.join("\n").as_bytes())
    });
    ctx.explore("lines", "every sample file, any line removed, doubled, blanked, exchanged with any other, or moved anywhere", |e| {
        let i = one(e);
        let mut l = lines_of(&samples()[i]);
        let n = e.choose(l.len());
        let how = e.choose(5);
        let mut m = 0;
        match how {
            0 => {
                l.remove(n);
            },
            1 => l.insert(n, l[n].clone()),
            2 => l[n].clear(),
            3 => {
                m = e.choose(l.len());
                l.swap(n, m);
            },
            _ => {
                m = e.choose(l.len());
                let x = l.remove(n);
                l.insert(m, x);
            },
        }
        total(e, || format!("{}: line {n}: {}, {m}", samples()[i].name, ["removed", "doubled", "blanked", "exchanged", "moved"][how]), l.join("\n").as_bytes())
    });
    ctx.explore("splices", "the header of every sample x the body of every sample, cut at every block", |e| {
        let (i, j) = (one(e), one(e));
        let (a, b) = (&samples()[i], &samples()[j]);
        let n = e.choose(b.blocks.len() + 1);
        let x = a.header.clone() + &b.blocks[n..].concat() + &a.blocks.concat();
        total(e, || format!("header of {}, blocks {n}.. of {}", a.name, b.name), x.as_bytes())
    });
    ctx.explore("fields", "every sample file, any run of blanks and any word of any line replaced by a wild value", |e| {
        let i = one(e);
        let l = lines_of(&samples()[i]);
        let n = e.choose(l.len());
        let mut words = vec![];
        let mut at = 0;
        for w in l[n].split(' ') {
            if !w.is_empty() {
                words.push((at, w.len()));
            }
            at += w.len() + 1;
        }
        if words.is_empty() {
            e.trivial();
            return Ok(());
        }
        let (at, len) = words[e.choose(words.len())];
        let k = *e.pick(&["", "0", "-1", "99", "255", "256", "999", "65536", "2147483647", "4294967296", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "1e308", "-1e308", "1e999", "nan", "inf", "-inf", "G", "ZZZ", "#", "G00", "G99", "2&5", "9&-9223372036854775808"]);
        // in place (columns kept) or not
        let keep = e.flag();
        let mut x = l.clone();
        let r = if keep { format!("{k:>len$.len$}") } else { k.to_string() };
        x[n].replace_range(at..at + len, &r);
        total(e, || format!("{}: {:?} of line {n} replaced by {r:?}", samples()[i].name, &l[n][at..at + len]), x.join("\n").as_bytes())
    });
    ctx.explore("labels", "the header of every sample file with one more line: any label of any format x blank or the content of any header line of any sample, at the end or past the first line", |e| {
        let i = one(e);
        let l = LABELS[e.choose(LABELS.len())];
        let c = &contents()[e.choose(contents().len())];
        let end = e.flag();
        let s = &samples()[i];
        let x = format!("{c:60.60}{l}\n");
        let p = if end { s.header.trim_end().rfind('\n').unwrap() + 1 } else { s.header.find('\n').unwrap() + 1 };
        total(e, || format!("{}: {x:?} inserted", s.name), (s.header[..p].to_string() + &x + &s.text()[p..]).as_bytes())
    });
    ctx.explore("pairs", "every sample file, any two lines among removed, doubled or cut in the middle", |e| {
        let i = one(e);
        let l = lines_of(&samples()[i]);
        let n = e.choose(l.len());
        let m = e.choose(l.len());
        let (a, b) = (e.choose(4), e.choose(4));
        let mut x = vec![];
        for (k, l) in l.iter().enumerate() {
            let how = if k == n { a } else if k == m { b } else { 9 };
            match how {
                0 => {},
                1 => x.extend([l.clone(), l.clone()]),
                2 => x.push(l[..l.len() / 2].to_string()),
                3 => x.push(l[..l.len() / 3].to_string() + &l[l.len() / 2..]),
                _ => x.push(l.clone()),
            }
        }
        total(e, || format!("{}: lines {n} ({a}) and {m} ({b})", samples()[i].name), x.join("\n").as_bytes())
    });
    let deep = ctx.q(0, 1);
    if deep == 1 {
        ctx.explore("two bytes", "every sample file, any two bytes at most 12 columns apart of any line replaced by a blank, a digit, a sign or a letter", |e| {
            let i = one(e);
            let l = lines_of(&samples()[i]);
            let n = e.choose(l.len());
            let len = l[n].len();
            if len == 0 {
                e.trivial();
                return Ok(());
            }
            let p = e.choose(len);
            let d = 1 + e.choose(12);
            let (a, b) = (*e.pick(b" 9-A"), *e.pick(b" 9-A"));
            if p + d >= len {
                e.trivial();
                return Ok(());
            }
            let mut x = l.clone();
            let mut y = x[n].clone().into_bytes();
            y[p] = a;
            y[p + d] = b;
            let y = String::from_utf8_lossy(&y).into_owned();
            x[n] = y;
            total(e, || format!("{}: line {n} is {:?}", samples()[i].name, x[n]), x.join("\n").as_bytes())
        });
    }
}

/// Epoch every block of a sample is attached to (none for antennas).
fn block_epochs(i: usize) -> R_<Vec<Epoch>> {
    let s = &samples()[i];
    let mut v = vec![];
    for (n, b) in s.blocks.iter().enumerate() {
        let t = match s.name {
            "antex" => Epoch::default(),
            "ionex" => mt(n).epoch(TimeScale::UTC),
            "ionex-rms" => mt(n % 3).epoch(TimeScale::UTC),
            _ => {
                let r = no_panic("Rinex::parse", || parse_str(&(s.header.clone() + b)))?.map_err(|x| format!("{x:?}"))?;
                let t = r.epoch_iter().next();
                t.ok_or_else(|| format!("{}: block {n} has no epoch", s.name))?
            },
        };
        v.push(t);
    }
    Ok(v)
}
const TEXTS: [&str; 15] = [
    "A REMARK",
    "     indented,  with   inner blanks",
    "",
    "COMMENT",
    "END OF HEADER",
    "> 2021 12 31 23 59 30.0000000  0  1",
    " 21 12 31 23 59 30.0000000  0  1G01",
    "AS G01  2021 12 31 23 58 00.000000  1    0.1234E-03",
    "G01 2021 12 31 22 00 00 1.000000000000E-03 1.00000000000E-03",
    "> EPH G01 LNAV",
    "     1                                    START OF TEC MAP",
    "  -3                                            EXPONENT",
    "  2021     1     1     0     0     0   EPOCH OF CURRENT MAP",
    "0123456789012345678901234567890123456789012345678901234567 9",
    "M\u{e9}t\u{e9}o \u{20ac}",
];
pub fn comments(ctx: &mut Ctx) {
    ctx.explore("one", "every sample file, one or two successive comments (15 texts that look like content, labels, blank, full width or not ASCII; padded to 80 columns or not) before any line of the header or of the body and at the end", |e| {
        let i = one(e);
        let text = *e.pick(&TEXTS);
        let pad = e.flag();
        let twice = e.flag();
        insert(e, i, text, pad, if twice { &[0, 0] } else { &[0] })
    });
    ctx.explore("two", "every sample file, two comments before any two lines", |e| {
        let i = one(e);
        insert(e, i, "A REMARK", true, &[0, 1])
    });
    let most = ctx.q(5, 9);
    ctx.explore("many", &format!("every sample file, 3 to {most} successive comments before any line of the header or of the body and at the end, texts 1, 2 or 4"), |e| {
        let i = one(e);
        let n = 3 + e.choose(most - 2);
        let text = *e.pick(&[TEXTS[0], TEXTS[1], TEXTS[3]]);
        insert(e, i, text, true, &vec![0; n])
    });
    if ctx.q(0, 1) == 1 {
        ctx.explore("three", "every sample file, comments before any two lines, one of them twice", |e| {
            let i = one(e);
            let text = *e.pick(&TEXTS);
            insert(e, i, text, false, &[0, 1, 1])
        });
    }
}
/// `which` gives, for each comment, which of the chosen positions it is at.
fn insert(e: &mut Exec, i: usize, text: &str, pad: bool, which: &[usize]) -> R {
    let s = &samples()[i];
    let header: Vec<&str> = s.header.lines().collect();
    // lines of the body, with the block they belong to
    let body: Vec<(usize, bool, &str)> = s.blocks.iter().enumerate().flat_map(|(b, t)| t.lines().enumerate().map(move |(k, l)| (b, k == 0, l))).collect();
    let tail: Vec<&str> = s.tail.lines().collect();
    // in compressed content, comments only exist in the header
    let crx = s.name.starts_with("crx");
    // comments come after the lines that name the format
    let first = if crx { 3 } else { 1 };
    let nh = header.len() - first;
    let nb = if crx { 0 } else { body.len() + 1 };
    let mut pos: Vec<usize> = vec![];
    let places = which.iter().max().unwrap() + 1;
    for _ in 0..places {
        let low = pos.last().copied().unwrap_or(0);
        pos.push(low + e.choose(nh + nb - low));
    }
    let mut at: Vec<Vec<String>> = vec![vec![]; nh + nb];
    let mut texts = vec![];
    for (k, w) in which.iter().enumerate() {
        // they are distinguished by their first column, if any
        let t = if text.is_empty() || k == 0 { text.to_string() } else { format!("{k}{}", text.chars().skip(1).collect::<String>()) };
        texts.push((pos[*w], t.clone()));
        at[pos[*w]].push(format!("{t:60}{}", if pad { "COMMENT             " } else { "COMMENT" }));
    }
    texts.sort_by_key(|(p, _)| *p);
    let mut x: Vec<String> = header[..first].iter().map(|s| s.to_string()).collect();
    for (k, l) in header[first..].iter().enumerate() {
        x.extend(at[k].clone());
        x.push(l.to_string());
    }
    let ts = if crx { vec![Epoch::default(); s.blocks.len()] } else { block_epochs(i)? };
    // epoch in force at each position of the body
    let mut force = vec![];
    let mut now = None;
    for (k, (b, start, l)) in body.iter().enumerate() {
        force.push(now);
        if !crx {
            x.extend(at[nh + k].clone());
        }
        if *start {
            now = Some(ts[*b]);
        }
        x.push(l.to_string());
    }
    force.push(now);
    if !crx {
        x.extend(at[nh + nb - 1].clone());
    }
    x.extend(tail.iter().map(|s| s.to_string()));
    let t = x.join("\n") + "\n";
    e.note(|| format!("{}: {text:?} inserted at {pos:?}:\n{t}", s.name));
    base(i)?;
    let want = no_panic("Rinex::parse", || parse_str(&s.text()))?.map_err(|x| format!("{x:?}"))?;
    let got = no_panic("Rinex::parse", || parse_str(&t))?.map_err(|x| format!("{}: refused with a comment at {pos:?}: {x:?}", s.name))?;
    ensure!(items(&got.record) == items(&want.record), "{}: {text:?} at {pos:?} alters the content: {:?} instead of {:?}", s.name, items(&got.record), items(&want.record));
    let mut h = got.header.clone();
    // comments of the header, in order with the one that was there
    let mut hc: Vec<String> = vec![];
    for l in x.iter().take_while(|l| l.get(60..).map(|m| m.trim()) != Some("END OF HEADER")) {
        let (c, m) = l.split_at(l.char_indices().nth(60).map(|(p, _)| p).unwrap_or(l.len()));
        if m.trim() == "COMMENT" {
            hc.push(c.trim().to_string());
        }
    }
    let gc: Vec<String> = h.comments.iter().map(|c| c.trim().to_string()).collect();
    ensure!(gc == hc, "{}: comments of the header {gc:?} instead of {hc:?}", s.name);
    h.comments = want.header.comments.clone();
    ensure!(h == want.header, "{}: {text:?} at {pos:?} alters the header", s.name);
    let mut wc: Vec<(Option<Epoch>, String)> = vec![];
    for (p, c) in texts.iter().filter(|(p, _)| *p >= nh) {
        wc.push((force[p - nh], c.trim_end().to_string()));
    }
    let total: usize = got.comments.values().map(|v| v.len()).sum();
    ensure!(total == wc.len(), "{}: {total} comments in the body instead of {}: {:?}", s.name, wc.len(), got.comments);
    for key in wc.iter().map(|(k, _)| k.unwrap_or_default()) {
        let w: Vec<&String> = wc.iter().filter(|(k, _)| k.unwrap_or_default() == key).map(|(_, c)| c).collect();
        // those that come before any epoch have none
        let g: Vec<String> = got.comments.get(&key).map(|v| v.iter().map(|c| c.trim_end().to_string()).collect()).unwrap_or_default();
        ensure!(g.iter().collect::<Vec<_>>() == w, "{}: comments at {key:?}: {g:?} instead of {w:?} (all: {:?})", s.name, got.comments);
    }
    e.outcome(&format!("{:?}", got.comments));
    e.state(&format!("{i} {pos:?}"));
    e.step();
    e.validated();
    Ok(())
}
