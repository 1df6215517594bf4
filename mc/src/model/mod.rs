//! Reference models: plain data, and writers that follow the documents'
//! column tables.
pub mod antex;
pub mod clk;
pub mod crx;
pub mod doris;
pub mod ionex;
pub mod met;
pub mod nav;
pub mod obs;
pub mod obsrd;

/// Pads a header line's content to 60 columns and adds its label.
pub fn hl(content: &str, label: &str) -> String {
    assert!(content.len() <= 60, "header content too long: {content:?}");
    format!("{content:<60}{label}\n")
}

/// Splits s into (text lines with blanks trimmed at their end).
pub fn trimmed(s: &str) -> Vec<String> {
    s.lines().map(|l| l.trim_end().to_string()).collect()
}

/// n / 10^dec in decimal notation.
pub fn fixed(n: i64, dec: usize) -> String {
    let p = 10i128.pow(dec as u32);
    let a = (n as i128).abs();
    format!(
        "{}{}.{:0w$}",
        if n < 0 { "-" } else { "" },
        a / p,
        a % p,
        w = dec
    )
}
/// The double nearest to n / 10^dec.
pub fn dbl(n: i64, dec: usize) -> f64 {
    fixed(n, dec).parse().unwrap()
}
