//! Small helpers shared by the properties.
use rinex::prelude::*;
use std::io::{BufReader, BufWriter, Cursor};

pub fn parse_str(s: &str) -> Result<Rinex, ParsingError> {
    parse_bytes(s.as_bytes())
}
pub fn parse_bytes(s: &[u8]) -> Result<Rinex, ParsingError> {
    let mut r = BufReader::new(Cursor::new(s));
    Rinex::parse(&mut r)
}
pub fn format_rinex(r: &Rinex) -> Result<String, String> {
    let mut w = BufWriter::new(Vec::<u8>::new());
    r.format(&mut w).map_err(|e| format!("{e:?}"))?;
    let v = w.into_inner().map_err(|e| e.to_string())?;
    String::from_utf8(v).map_err(|e| e.to_string())
}

/// Sizes around which implementations change: every small one, then around powers and multiples.
pub fn counts() -> Vec<usize> {
    let mut v: Vec<usize> = (1..=34).collect();
    for k in [36usize, 40, 48, 50, 60, 63, 64, 65, 72, 80, 96, 98, 99, 100, 101, 120, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 300, 399, 512, 513, 1000, 1024, 1025] {
        v.push(k)
    }
    v
}
/// A date `s` seconds after 2021-12-30 22:00:00 (crosses a month and a year).
pub fn clock_at(s: u64) -> crate::model::obs::MTime {
    let s = s + 22 * 3600;
    let (d, r) = (s / 86400, s % 86400);
    let (y, mo, day) = match d {
        0 => (2021, 12, 30),
        1 => (2021, 12, 31),
        n if n < 33 => (2022, 1, (n - 1) as u8),
        n => (2022, 2, (n - 32) as u8),
    };
    crate::model::obs::MTime(y, mo, day, (r / 3600) as u8, (r / 60 % 60) as u8, (r % 60) as u32 * 10_000_000)
}
