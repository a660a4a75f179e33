//! csv2bin (P19), collect-stats (P20) and the inference of the decimal precision (P21).
use crate::{
    bail, ensure,
    fw::{guard, n_seqs, nth_seq, Case, Cx, Dig},
};
use std::{
    fs,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::atomic::{AtomicU64, Ordering},
};

/// A scratch directory of our own, removed when dropped.
pub struct Scratch(pub PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = PathBuf::from(format!("{base}/ebi-xp-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn bin(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

/// Run a tool; returns (exit code, stdout, stderr).
pub fn run(cmd: &mut Command) -> Result<(Option<i32>, String, String), crate::fw::Fail> {
    let o = cmd.stdin(Stdio::null()).output().map_err(|e| format!("cannot run the tool: {e}"))?;
    Ok((
        o.status.code(),
        String::from_utf8_lossy(&o.stdout).into_owned(),
        String::from_utf8_lossy(&o.stderr).into_owned(),
    ))
}

/// What csv2bin has to write for a text: the values, None if the text holds something that is no number, or
/// Err if the text holds a blank but not empty field, about which nothing is claimed.
fn csv_model(text: &str) -> Result<Option<Vec<f64>>, ()> {
    let mut v = vec![];
    let mut refused = false;
    for line in text.split('\n') {
        for f in line.trim_end_matches('\r').split(',') {
            if f.is_empty() {
                continue;
            }
            if f.trim().is_empty() {
                return Err(());
            }
            match f.trim().parse::<f64>() {
                Ok(x) => v.push(x),
                Err(_) => refused = true,
            }
        }
    }
    Ok(if refused { None } else { Some(v) })
}

fn bytes(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// Convert `texts` in one run of csv2bin and compare every output.
fn convert_and_compare(dir: &Path, texts: &[String]) -> Case {
    for (i, t) in texts.iter().enumerate() {
        fs::write(dir.join(format!("f{i:06}.csv")), t).unwrap();
    }
    let (code, out, err) = run(Command::new(bin("csv2bin")).arg(format!("{}/*.csv", dir.display())))?;
    ensure!(code == Some(0), "csv2bin ended with {code:?}: {}", tail(&err));
    for (i, t) in texts.iter().enumerate() {
        let got = fs::read(dir.join(format!("binary/f{i:06}.bin"))).ok();
        let done = out.contains(&format!("Finished processing file: {}/f{i:06}.csv", dir.display()));
        match csv_model(t) {
            Err(()) => {}
            Ok(Some(v)) => {
                let Some(got) = got else { bail!("{t:?}: no output was written") };
                ensure!(got == bytes(&v), "{t:?}: expected the values {v:?}, the output holds {:?}", values(&got));
            }
            Ok(None) => {
                ensure!(got.is_none(), "{t:?}: is not all numbers, but an output was left: {:?}", values(&got.unwrap()));
                ensure!(!done, "{t:?}: is not all numbers, but the file was reported as processed");
            }
        }
    }
    Ok(())
}
fn values(b: &[u8]) -> String {
    if b.len() % 8 != 0 {
        return format!("{} bytes", b.len());
    }
    let v: Vec<f64> = b.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    crate::fw::truncate(&format!("{v:?}"), 300)
}
pub fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(400)).collect()
}

pub fn p19(cx: &Cx) {
    // every text over a small alphabet
    const CH: [char; 9] = ['1', '0', '.', ',', '-', 'e', ' ', '\n', 'x'];
    let len = cx.pick(5, 6);
    let total = n_seqs(9, 0, len);
    let per = 1500u64;
    let text = |i: u64| nth_seq(9, 0, len, i).into_iter().map(|c| CH[c]).collect::<String>();
    cx.run_desc(
        "texts",
        &format!("all texts of up to {len} characters out of {CH:?}, {per} files per run"),
        total.div_ceil(per),
        |c| {
            let d = Scratch::new();
            let texts: Vec<String> = (c * per..((c + 1) * per).min(total)).map(text).collect();
            for t in &texts {
                cx.state(hash(t.as_bytes()));
            }
            cx.step(texts.len() as u64);
            convert_and_compare(&d.0, &texts)
        },
        |c| format!("texts {:?} ..", text(c * per)),
    );
    // sequences of whole fields
    const F: [&str; 14] = [
        "1.5", "-0", "1e-3", "2E2", "nan", "-inf", "", " 7 ", "x", "+3.25", "1.7976931348623157e308", "5e-324", "0.1",
        "123456789012345678901234567890",
    ];
    const SEP: [&str; 5] = [",", "\n", "\r\n", ",\n", ",,"];
    let n = 3u32;
    let nf = F.len() as u64;
    let ns = SEP.len() as u64;
    // field (sep field){0..n-1} [sep]
    let total: u64 = (1..=n).map(|k| nf.pow(k) * ns.pow(k - 1) * 2).sum();
    let text = |mut i: u64| -> String {
        let mut k = 1;
        while i >= nf.pow(k) * ns.pow(k - 1) * 2 {
            i -= nf.pow(k) * ns.pow(k - 1) * 2;
            k += 1;
        }
        let mut d = Dig(i);
        let end = d.take(2) == 1;
        let mut s = F[d.take(F.len())].to_string();
        for _ in 1..k {
            s += SEP[d.take(SEP.len())];
            s += F[d.take(F.len())];
        }
        if end {
            s += "\n";
        }
        s
    };
    cx.run_desc(
        "fields",
        &format!("all texts of 1 to {n} fields out of {F:?} joined by {SEP:?}, with and without a final line end"),
        total.div_ceil(per),
        |c| {
            let d = Scratch::new();
            let texts: Vec<String> = (c * per..((c + 1) * per).min(total)).map(text).collect();
            for t in &texts {
                cx.state(hash(t.as_bytes()));
            }
            cx.step(texts.len() as u64);
            convert_and_compare(&d.0, &texts)
        },
        |c| format!("texts {:?} ..", text(c * per)),
    );
    // sizes around the buffers, and where the unreadable field sits
    let sizes: Vec<usize> = vec![1, 2, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 20000, 140_000];
    let widths = [1usize, 2, 7, 1000, usize::MAX];
    let badpos = 5usize; // none, first, middle, last, last with no line end
    cx.run_desc(
        "sizes",
        &format!("{sizes:?} values in lines of {widths:?} values, unreadable field: none/first/middle/last/last without line end"),
        (sizes.len() * widths.len() * badpos) as u64,
        |c| {
            let mut d = Dig(c);
            let (n, w, b) = (sizes[d.take(sizes.len())], widths[d.take(widths.len())], d.take(badpos));
            let mut s = String::new();
            let mut v = vec![];
            let bad = match b {
                0 => usize::MAX,
                1 => 0,
                2 => n / 2,
                _ => n - 1,
            };
            for i in 0..n {
                let x = (i as f64) * 0.25 - 17.0;
                v.push(x);
                if i == bad {
                    s += "1.2.3";
                } else {
                    s += &x.to_string();
                }
                if i + 1 < n {
                    s += if (i + 1) % w == 0 { "\n" } else { "," };
                }
            }
            if b < 4 {
                s += "\n";
            }
            cx.state(hash(s.as_bytes()));
            cx.step(2);
            let dir = Scratch::new();
            convert_and_compare(&dir.0, &[s, "4,5\n6".to_string()])
        },
        |c| format!("sizes case {c}"),
    );
    // converting again after the text changed
    let again = ["1,2,3", "4", "", "x", "5,6\n7,8,9,10"];
    let depth = cx.pick(3, 4);
    cx.run_desc(
        "again",
        &format!("all histories of {depth} conversions of a file whose text changes between {again:?}"),
        (again.len() as u64).pow(depth),
        |c| {
            let d = Scratch::new();
            let mut g = Dig(c);
            for _ in 0..depth {
                let t = again[g.take(again.len())];
                cx.step(1);
                convert_and_compare(&d.0, &[t.to_string(), "-1\n".to_string()])?;
            }
            cx.state(c);
            Ok(())
        },
        |c| format!("history {c}"),
    );
    // an output that cannot be written must not be reported as processed
    let sizes = [1usize, 2, 100, 1023, 1024, 1025, 3000];
    cx.run_desc(
        "full-disk",
        &format!("{sizes:?} values written to a full device: the file is not reported as processed, others are converted"),
        sizes.len() as u64,
        |c| {
            let d = Scratch::new();
            let n = sizes[c as usize];
            fs::create_dir_all(d.path("binary")).unwrap();
            std::os::unix::fs::symlink("/dev/full", d.path("binary/a.bin")).unwrap();
            let t: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            fs::write(d.path("a.csv"), t.join(",")).unwrap();
            fs::write(d.path("b.csv"), "1,2").unwrap();
            let (code, out, err) = run(Command::new(bin("csv2bin")).arg(format!("{}/*.csv", d.0.display())))?;
            ensure!(code.is_some(), "csv2bin was killed");
            ensure!(
                !out.contains(&format!("Finished processing file: {}/a.csv", d.0.display())),
                "{n} values could not be written (full device), but the file was reported as processed; stderr: {}",
                tail(&err)
            );
            ensure!(fs::read(d.path("binary/b.bin")).ok() == Some(bytes(&[1.0, 2.0])), "the other file was not converted");
            cx.step(1);
            cx.state(c);
            Ok(())
        },
        |c| format!("full disk case {c}"),
    );
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- decimal precision

/// The number of digits a decimal notation has behind the point once the exponent is applied.
pub fn dec_prec(s: &str) -> usize {
    let (base, exp) = match s.find(['e', 'E']) {
        Some(p) => (&s[..p], s[p + 1..].parse::<i64>().unwrap_or(0)),
        None => (s, 0),
    };
    let frac = base.split_once('.').map_or(0, |(_, f)| f.len() as i64);
    (frac - exp).max(0) as usize
}

fn is_decimal(s: &str) -> bool {
    s.parse::<f64>().is_ok() && s.bytes().any(|b| b.is_ascii_digit())
}

// ---------------------------------------------------------------- collect-stats
struct RefStats {
    prec: Vec<f64>,
    val: Vec<f64>,
    exp: Vec<f64>,
}
fn mean(v: &[f64]) -> f64 {
    v.iter().sum::<f64>() / v.len() as f64
}
fn std(v: &[f64]) -> f64 {
    let m = mean(v);
    (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / v.len() as f64).sqrt()
}
fn fmax(v: &[f64]) -> f64 {
    v.iter().copied().fold(f64::NEG_INFINITY, f64::max)
}
fn fmin(v: &[f64]) -> f64 {
    v.iter().copied().fold(f64::INFINITY, f64::min)
}
fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * scale.max(a.abs()).max(b.abs()).max(1e-300)
}
fn stats_of(text: &str) -> Option<RefStats> {
    let mut r = RefStats { prec: vec![], val: vec![], exp: vec![] };
    for line in text.split('\n') {
        for f in line.split(',') {
            let f = f.trim();
            if f.is_empty() {
                continue;
            }
            let x: f64 = f.parse().ok()?;
            r.prec.push(dec_prec(f) as f64);
            r.val.push(x);
            r.exp.push((((x.to_bits() >> 52) & 0x7ff) as i64 - 1023) as f64);
        }
    }
    Some(r)
}
fn compare_stats(text: &str, j: Option<&serde_json::Value>) -> Case {
    let Some(r) = stats_of(text) else {
        ensure!(j.is_none(), "{text:?} is not all numbers, but statistics were reported: {}", j.unwrap());
        return Ok(());
    };
    let Some(j) = j else { bail!("{text:?}: no statistics were reported") };
    let num = |k: &str| j.get(k).and_then(|v| v.as_f64());
    let n = r.val.len();
    ensure!(num("num_values") == Some(n as f64), "{text:?}: {n} values, reported {:?}", j.get("num_values"));
    if n == 0 {
        return Ok(());
    }
    let has_nan = r.val.iter().any(|x| x.is_nan());
    let scale = r.val.iter().fold(0f64, |a, x| a.max(x.abs()));
    let mut want: Vec<(&str, f64, f64)> = vec![
        ("decimal_precision_max", fmax(&r.prec), 0.0),
        ("decimal_precision_min", fmin(&r.prec), 0.0),
        ("decimal_precision_avg", mean(&r.prec), 1.0),
        ("decimal_precision_std", std(&r.prec), 1.0),
        ("exponent_max", fmax(&r.exp), 0.0),
        ("exponent_min", fmin(&r.exp), 0.0),
        ("exponent_avg", mean(&r.exp), 1.0),
        ("exponent_std", std(&r.exp), 1.0),
    ];
    if !has_nan {
        want.push(("value_max", fmax(&r.val), scale * 1e-6));
        want.push(("value_min", fmin(&r.val), scale * 1e-6));
        want.push(("value_avg", mean(&r.val), scale));
        want.push(("value_std", std(&r.val), scale));
    }
    let (mut l, mut t) = (64.0, 64.0);
    if n > 1 {
        let x: Vec<u64> = r.val.windows(2).map(|w| w[0].to_bits() ^ w[1].to_bits()).collect();
        l = mean(&x.iter().map(|x| x.leading_zeros() as f64).collect::<Vec<_>>());
        t = mean(&x.iter().map(|x| x.trailing_zeros() as f64).collect::<Vec<_>>());
    }
    want.push(("xor_leading_zeros_avg", l, 1.0));
    want.push(("xor_trailing_zeros_avg", t, 1.0));
    let distinct = r.val.iter().map(|x| x.to_bits()).collect::<std::collections::HashSet<_>>().len();
    want.push(("non_unique_value_ratio", (n - distinct) as f64 / n as f64, 1.0));
    for (k, w, scale) in want {
        let g = num(k);
        if !w.is_finite() {
            continue; // JSON has no infinity
        }
        ensure!(g.is_some_and(|g| near(g, w, scale)), "{text:?}: {k} is {w}, reported {:?}", j.get(k));
    }
    Ok(())
}

pub fn p20(cx: &Cx) {
    const TOK: [&str; 12] =
        ["1.5", "-2.25", "0", "1e-3", "2.50E2", "100", "-0.0", "7.125e1", "0.1", "1e5", "3.000", " 4 "];
    let per = 400u64;
    let runfiles = |texts: &[String]| -> Case {
        let d = Scratch::new();
        for (i, t) in texts.iter().enumerate() {
            fs::write(d.path(&format!("f{i:05}.csv")), t).unwrap();
        }
        let (code, _, err) = run(Command::new(bin("collect-stats")).arg(format!("{}/*.csv", d.0.display())).current_dir(&d.0))?;
        ensure!(code == Some(0), "collect-stats ended with {code:?}: {}", tail(&err));
        let Ok(s) = fs::read_to_string(d.path("stats.json")) else { bail!("no stats.json was written") };
        let Ok(j) = serde_json::from_str::<serde_json::Value>(&s) else { bail!("stats.json is no JSON") };
        let known = j.as_object().map_or(0, |o| o.len());
        let expect = texts.iter().filter(|t| stats_of(t).is_some()).count();
        for (i, t) in texts.iter().enumerate() {
            cx.state(hash(t.as_bytes()));
            cx.step(1);
            compare_stats(t, j.get(format!("f{i:05}")))?;
        }
        ensure!(known == expect, "{known} entries reported for {expect} readable files");
        Ok(())
    };
    let len = cx.pick(3, 4);
    let total = n_seqs(12, 0, len);
    let text = |i: u64| {
        let mut s = String::new();
        for (k, t) in nth_seq(12, 0, len, i).into_iter().enumerate() {
            if k > 0 {
                s += [",", "\n"][(i as usize + k) % 2];
            }
            s += TOK[t];
        }
        s
    };
    cx.run_desc(
        "values",
        &format!("all sequences of up to {len} numbers out of {TOK:?}, separated by commas or line ends"),
        total.div_ceil(per),
        |c| runfiles(&(c * per..((c + 1) * per).min(total)).map(text).collect::<Vec<_>>()),
        |c| format!("texts {:?} ..", text(c * per)),
    );
    // files that are not all numbers, empty fields, NaN and infinities must not spoil the other files
    const ODD: [&str; 8] = ["1.5", "", "x", "nan", "inf", "-inf", "1e400", "1.2.3"];
    let olen = 3;
    let ototal = n_seqs(8, 1, olen);
    let otext = |i: u64| nth_seq(8, 1, olen, i).into_iter().map(|t| ODD[t]).collect::<Vec<_>>().join(",");
    cx.run_desc(
        "odd",
        &format!("all sequences of 1 to {olen} fields out of {ODD:?}, each converted together with two ordinary files"),
        ototal,
        |c| runfiles(&["1,2.5".to_string(), otext(c), "3\n3".to_string()]),
        |c| format!("text {:?}", otext(c)),
    );
    // runs of equal values and long files
    let sizes: Vec<u64> = (1..=cx.pick(40, 200)).chain([1000, 4097, 20000, 70_000]).collect();
    cx.run_desc(
        "long",
        "1..40 (200), 1000, 4097, 20000, 70000 values, of which every k-th repeats, k = 1..4",
        sizes.len() as u64 * 4,
        |c| {
            let (n, k) = (sizes[(c / 4) as usize], c % 4 + 1);
            let t: Vec<String> = (0..n).map(|i| format!("{}.{}", i / k, (i / k) % 10)).collect();
            runfiles(&[t.join(",")])
        },
        |c| format!("long case {c}"),
    );
}

pub fn p21(cx: &Cx) {
    use experimenter::{get_appropriate_precision, get_appropriate_scale, get_decimal_precision};
    // every decimal notation over a small alphabet
    const CH: [char; 7] = ['1', '0', '.', '-', '+', 'e', 'E'];
    let len = cx.pick(7, 9);
    cx.run_desc(
        "notations",
        &format!("all decimal notations of up to {len} characters out of {CH:?}"),
        n_seqs(7, 1, len),
        |c| {
            let s: String = nth_seq(7, 1, len, c).into_iter().map(|c| CH[c]).collect();
            if !is_decimal(&s) {
                return Ok(());
            }
            cx.step(1);
            cx.state(hash(s.as_bytes()));
            let g = guard(|| get_decimal_precision(&s)).map_err(|p| format!("{s:?}: panicked: {p}"))?;
            ensure!(g == dec_prec(&s), "{s:?} has {} decimals, reported {g}", dec_prec(&s));
            Ok(())
        },
        |c| nth_seq(7, 1, len, c).into_iter().map(|c| CH[c]).collect(),
    );
    // mixtures of precisions around the 1% threshold
    let num = |p: usize, i: usize| -> String {
        // three notations of a number with p decimals
        match (p, i % 3) {
            (0, 0) => format!("{}", i % 10),
            (0, 1) => format!("{}e2", i % 10),
            (0, _) => format!("-{}", i % 10),
            (p, 0) => format!("{}.{:0>p$}", i % 7, i % 10),
            (p, 1) => format!("{}e-{p}", i % 10),
            (p, _) => format!("-{}.{}E-{}", i % 10, i % 9, p - 1),
        }
    };
    let sizes: Vec<usize> = if cx.quick() {
        vec![1, 2, 3, 50, 99, 100, 101, 102, 199, 200, 201, 299, 300, 301, 302, 400, 500, 1000]
    } else {
        (1..=310).chain([399, 400, 401, 499, 500, 501, 700, 999, 1000, 1001]).collect()
    };
    // n records: a with precision p1, b with precision p2 < p1, the others with precision p0 <= p2
    const TRIPLES: [(usize, usize, usize); 8] =
        [(3, 1, 0), (2, 1, 1), (9, 4, 2), (10, 9, 0), (12, 3, 3), (1, 0, 0), (20, 12, 11), (5, 4, 3)];
    let hi = 5u64; // 0..=4 records of the highest precision
    let mid = 5u64;
    let big: &[usize] = cx.pick(&[1000, 10_000, 65_537], &[1000, 6553, 10_000, 25_600, 65_537, 100_000]);
    for (part, sizes) in [("mixtures", &sizes[..]), ("long", big)] {
    let total = sizes.len() as u64 * TRIPLES.len() as u64 * hi * mid * 3;
    let dec = |c: u64| {
        let mut d = Dig(c);
        let n = sizes[d.take(sizes.len())];
        let t = TRIPLES[d.take(TRIPLES.len())];
        let (mut a, mut b) = (d.take(hi as usize), d.take(mid as usize));
        if part == "long" {
            // none, one, or around the hundredth part
            let h = n.div_ceil(100);
            a = [0, 1, h - 1, h, h + 1][a];
            b = [0, 1, h - 1, h, h / 2][b];
        }
        let a = a.min(n);
        let b = b.min(n - a);
        (n, t, a, b, d.take(3))
    };
    cx.run_desc(
        part,
        &format!("{} record counts up to {} x precision triples {TRIPLES:?} x {} records of the highest x {} of the middle precision x 3 layouts", sizes.len(), sizes[sizes.len() - 1], if part == "long" { "0, 1 or about n/100" } else { "0..4" }, if part == "long" { "0, 1, n/200 or about n/100" } else { "0..4" }),
        total,
        |c| {
            let (n, (p1, p2, p0), a, b, layout) = dec(c);
            let mut v: Vec<String> = vec![];
            let mut ps = vec![];
            for i in 0..n {
                let p = if i < a { p1 } else if i < a + b { p2 } else { p0 };
                v.push(num(p, i));
                ps.push(p);
            }
            if layout == 1 {
                v.reverse();
            }
            if layout == 2 {
                v.rotate_left(n / 2);
            }
            let sep = ['\t', ','][c as usize % 2];
            let mut text = String::new();
            for (i, s) in v.iter().enumerate() {
                text += s;
                text.push(if (i + 1) % 7 == 0 { '\n' } else { sep });
                if layout == 2 && (i + 1) % 7 == 0 {
                    // an empty field counts for nothing
                    text.push(sep);
                }
            }
            cx.step(3);
            cx.state(c);
            let at_least = |p: usize| ps.iter().filter(|&&q| q >= p).count();
            let max = *ps.iter().max().unwrap();
            let want = ps.iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().filter(|&p| at_least(p) * 100 >= n).max().unwrap();
            for (exact, w) in [(true, max), (false, want)] {
                match guard(|| get_appropriate_precision(text.as_bytes(), sep, exact)) {
                    Ok(Ok(g)) => ensure!(g as usize == w, "{n} records, {a} with {p1} and {b} with {p2} decimals, the others with {p0}, exact={exact}: precision {w}, reported {g}"),
                    Ok(Err(e)) => bail!("precision refused: {e}"),
                    Err(p) => bail!("precision panicked: {p}"),
                }
            }
            match guard(|| get_appropriate_scale(text.as_bytes(), sep)) {
                Ok(Ok(g)) => ensure!(want < 10 && g == 10u32.pow(want as u32), "{n} records, {a} with {p1} and {b} with {p2} decimals, the others with {p0}: scale 10^{want}, reported {g}"),
                Ok(Err(e)) => ensure!(want >= 10, "scale 10^{want} refused: {}", crate::fw::truncate(&e.to_string(), 200)),
                Err(p) => bail!("scale panicked: {p}"),
            }
            Ok(())
        },
        |c| format!("{:?}", dec(c)),
    );
    }
    // no record at all is refused
    cx.run("none", "texts without any record are refused", 4, |c| {
        let t = ["", "\n", ",", "\n,\n"][c as usize];
        cx.step(3);
        cx.state(c);
        for exact in [true, false] {
            match guard(|| get_appropriate_precision(t.as_bytes(), ',', exact)) {
                Ok(Err(_)) => {}
                Ok(Ok(g)) => bail!("{t:?} has no record, but a precision of {g} was reported"),
                Err(p) => bail!("panicked: {p}"),
            }
        }
        match guard(|| get_appropriate_scale(t.as_bytes(), ',')) {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(g)) => bail!("{t:?} has no record, but a scale of {g} was reported"),
            Err(p) => bail!("panicked: {p}"),
        }
    });
    // the inferred scale keeps every record: what is written with it reads back as the nearest double of the notation
    use ebi::{
        api::{
            decoder::{Decoder, DecoderInput, DecoderOutput},
            encoder::{Encoder, EncoderInput, EncoderOutput},
        },
        compressor::CompressorConfig,
        encoder::ChunkOption,
    };
    const REC: [&str; 10] = ["0", "1.5", "-2.25", "7.125", "1e-3", "12.50", "3E-2", "-1.25e1", "99.999", "1e2"];
    let rl = cx.pick(3, 4);
    cx.run_desc(
        "lossless",
        &format!("all sequences of 1 to {rl} records out of {REC:?}: exact precision inferred, then written with BUFF and delta-Sprintz and read back"),
        n_seqs(10, 1, rl),
        |c| {
            let r: Vec<&str> = nth_seq(10, 1, rl, c).into_iter().map(|i| REC[i]).collect();
            let text = r.join(",");
            let v: Vec<f64> = r.iter().map(|s| s.parse().unwrap()).collect();
            cx.state(hash(text.as_bytes()));
            let p = match guard(|| get_appropriate_precision(text.as_bytes(), ',', true)) {
                Ok(Ok(p)) => p,
                Ok(Err(e)) => bail!("{text}: refused: {e}"),
                Err(e) => bail!("{text}: panicked: {e}"),
            };
            let scale = 10u64.pow(p);
            let cfgs: [CompressorConfig; 2] =
                [CompressorConfig::buff().scale(scale).build().into(), CompressorConfig::delta_sprintz().scale(scale).build().into()];
            for cfg in cfgs {
                cx.step(1);
                let got = guard(|| -> Result<Vec<u8>, String> {
                    let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_vec(vec![]), ChunkOption::Full, cfg);
                    e.encode().map_err(|e| format!("{e:?}"))?;
                    let b = e.into_output().into_vec();
                    let mut d = Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(b))).map_err(|e| format!("{e:?}"))?;
                    let mut o = DecoderOutput::from_vec(vec![]);
                    d.materialize(&mut o, None, None).map_err(|e| format!("{e:?}"))?;
                    Ok(o.into_writer().into_inner())
                });
                let got = match got {
                    Ok(Ok(g)) => g,
                    Ok(Err(e)) => bail!("{text}: {e}"),
                    Err(e) => bail!("{text}: panicked: {e}"),
                };
                let g: Vec<f64> = got.chunks_exact(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
                let ok = g.len() == v.len()
                    && g.iter().zip(&v).all(|(a, b)| (a * scale as f64).round() == (b * scale as f64).round());
                ensure!(ok, "{text}: precision {p}, read back as {g:?}");
            }
            Ok(())
        },
        |c| nth_seq(10, 1, rl, c).into_iter().map(|i| REC[i]).collect::<Vec<_>>().join(","),
    );
}
