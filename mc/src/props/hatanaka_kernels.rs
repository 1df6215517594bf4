use crate::engine::*;
use crate::ensure;
use rinex::hatanaka::{NumDiff, TextDiff};

/// k-th finite difference of the samples since the last reset, by definition.
fn diff(h: &[i64], k: usize) -> i128 {
    // h: oldest first; sum_{i=0..k} (-1)^i C(k,i) h[n-i]
    let n = h.len() - 1;
    let mut c: i128 = 1;
    let mut s: i128 = 0;
    for i in 0..=k {
        let t = c * h[n - i] as i128;
        s += if i % 2 == 0 { t } else { -t };
        c = c * (k - i) as i128 / (i + 1) as i128;
    }
    s
}

fn numdiff<const M: usize>(c: &mut Ctx) {
    let depth = c.q(8, 9);
    let vals: &[i64] = &[0, 1, -3, 40_000_000_000];
    c.explore(
        &format!("numdiff-M{M}"),
        "arc initialisation at every level 1..=M, then every sequence of samples from {0,1,-3,4e10} and of re-initialisations; compressor and decompressor run in lock step and every output is compared with the k-th finite difference computed from its definition",
        |e| {
            let level = 1 + e.choose(M);
            let first = *e.pick(&[5i64, 126_298_057_858]);
            let mut enc = NumDiff::<M>::new(first, level);
            let mut dec = NumDiff::<M>::new(first, level);
            let (mut lv, mut hist) = (level, vec![first]);
            e.note(|| format!("M={M} new({first},{level})"));
            e.budget = 1; // one re-initialisation per history
            for _ in 0..depth {
                let op = e.choose(vals.len() + usize::from(e.budget > 0));
                if op == vals.len() {
                    e.budget = 0;
                    lv = 1 + (level % M);
                    let v = 17;
                    enc.force_init(v, lv);
                    dec.force_init(v, lv);
                    hist = vec![v];
                    e.note(|| format!("force_init({v},{lv})"));
                    continue;
                }
                let v = vals[op];
                hist.push(v);
                let k = lv.min(hist.len() - 1);
                let want = diff(&hist, k);
                let got = enc.compress(v);
                ensure!(
                    got as i128 == want,
                    "M={M} level={lv}: compress({v}) after {hist:?} gives {got}, the {k}-th difference is {want}"
                );
                let back = dec.decompress(got);
                ensure!(
                    back == v,
                    "M={M} level={lv}: decompress({got}) gives {back}, the sample was {v} ({hist:?})"
                );
                e.outcome(&got);
                e.step();
                let tail = hist.len().saturating_sub(lv + 1);
                e.state(&(M, lv, k, &hist[tail..]));
                e.note(|| format!("{v}->{got}"));
            }
            e.validated();
            Ok(())
        },
    );
}

fn texts(alpha: &[u8], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..max {
        let mut n = vec![];
        for s in &last {
            for a in alpha {
                n.push(format!("{s}{}", *a as char));
            }
        }
        v.extend(n.clone());
        last = n;
    }
    v
}

/// Reference text differencing: position-wise, a missing character is a blank.
fn textdiff_ref(old: &str, new: &str) -> String {
    let n = old.len().max(new.len());
    let at = |s: &str, i: usize| s.as_bytes().get(i).copied().unwrap_or(b' ');
    let s: String = (0..n)
        .map(|i| {
            let (a, b) = (at(old, i), at(new, i));
            if a == b {
                ' '
            } else if b == b' ' {
                '&'
            } else {
                b as char
            }
        })
        .collect();
    s.trim_end().to_string()
}

pub fn run(c: &mut Ctx) {
    numdiff::<1>(c);
    numdiff::<2>(c);
    numdiff::<3>(c);
    numdiff::<4>(c);
    numdiff::<5>(c);
    numdiff::<6>(c);

    let len = c.q(3, 4);
    let words = texts(b"a ", len);
    let steps = c.q(4, 4);
    c.explore(
        "textdiff-lossless",
        "every sequence of texts over {a, blank} up to the bounded length: the decompressor fed with the compressor's output returns each text (trailing blanks are not significant)",
        |e| {
            let init = e.pick(&words).clone();
            let mut enc = TextDiff::new(&init);
            let mut dec = TextDiff::new(&init);
            let mut hist = vec![init];
            for _ in 1..steps {
                let w = e.pick(&words);
                let z = enc.compress(w).to_string();
                let back = dec.decompress(&z).to_string();
                hist.push(w.clone());
                ensure!(
                    back.trim_end() == w.trim_end(),
                    "texts {hist:?}: compressed to {z:?}, decompressed to {back:?}"
                );
                e.outcome(&z);
                e.step();
                e.state(&(w, &back));
            }
            e.note(|| format!("{hist:?}"));
            e.validated();
            Ok(())
        },
    );
    let w2 = texts(b"1& ", 3);
    let w1: Vec<String> = texts(b"12 ", c.q(4, 5));
    c.explore(
        "textdiff-decompress-reference",
        "every initial text over {1,2,blank}, then every difference text over {1,&,blank} and every trimmed reference difference: result equals the definition (blank keeps, & blanks out, other replaces, longer extends)",
        |e| {
            let a = e.pick(&w1);
            let mut dec = TextDiff::new("");
            dec.force_init(a);
            let mut cur = a.clone();
            for _ in 0..2 {
                let d = e.pick(&w2);
                let want: String = {
                    let n = cur.len().max(d.len());
                    (0..n)
                        .map(|i| {
                            let o = cur.as_bytes().get(i).copied().unwrap_or(b' ');
                            match d.as_bytes().get(i).copied().unwrap_or(b' ') {
                                b' ' => o as char,
                                b'&' => ' ',
                                x => x as char,
                            }
                        })
                        .collect()
                };
                let got = dec.decompress(d).to_string();
                ensure!(
                    got.trim_end() == want.trim_end(),
                    "{cur:?} + {d:?}: got {got:?}, want {want:?}"
                );
                e.step();
                e.state(&got);
                e.outcome(&got);
                cur = want;
            }
            let b = e.pick(&w1[..20]);
            let d = textdiff_ref(&cur, b);
            let got = dec.decompress(&d).to_string();
            ensure!(
                got.trim_end() == b.trim_end(),
                "{cur:?} -> {b:?} via {d:?}: got {got:?}"
            );
            e.step();
            e.outcome(&got);
            e.note(|| format!("{a:?} .. {cur:?} -> {b:?} via {d:?}"));
            e.validated();
            Ok(())
        },
    );
}
