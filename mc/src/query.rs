//! P07 filter, P08 masked materialisation, P09 aggregates: in-situ query results against a
//! straightforward reference evaluation over the stored values.
use crate::common::*;
use crate::fmt::all_schemes;
use crate::fw::*;
use crate::{bail, ensure};
use ebi::api::decoder::{ChunkId, DecoderOutput};
use ebi::encoder::ChunkOption;
use roaring::RoaringBitmap;

const NAN: f64 = f64::NAN;
const INF: f64 = f64::INFINITY;

fn want_filter(v: &[f64], p: Pred, m: Option<&RoaringBitmap>, r: std::ops::Range<usize>) -> RoaringBitmap {
    (0..v.len())
        .filter(|i| r.contains(i) && m.is_none_or(|m| m.contains(*i as u32)) && p.holds(v[*i]))
        .map(|i| i as u32)
        .collect()
}
fn brief(m: &RoaringBitmap) -> String {
    let v: Vec<u32> = m.iter().take(24).collect();
    format!("{v:?}{}", if m.len() > 24 { format!("..{} bits", m.len()) } else { String::new() })
}
fn ranges(opt: ChunkOption, d: &Dec, n: usize) -> Vec<std::ops::Range<usize>> {
    let _ = opt;
    let f = d.chunk_footers();
    (0..f.len())
        .map(|i| {
            let a = f[i].logical_offset() as usize;
            let b = if i + 1 < f.len() { f[i + 1].logical_offset() as usize } else { n };
            a..b
        })
        .collect()
}

struct File {
    s: Sch,
    opt: ChunkOption,
    v: Vec<f64>,
    d: Dec,
    r: Vec<std::ops::Range<usize>>,
}
fn file(cx: &Cx, s: Sch, opt: ChunkOption, v: &[f64]) -> Result<File, Fail> {
    let b = encode(s, opt, v)?;
    cx.state(hash64(&b[..b.len().min(4096)]));
    let d = open(b)?;
    let r = ranges(opt, &d, v.len());
    Ok(File { s, opt, v: v.to_vec(), d, r })
}
/// one filter call on the decoder (c: one chunk or the whole file), or on a fresh chunk reader
fn filter_one(cx: &Cx, f: &mut File, p: Pred, m: Option<&RoaringBitmap>, c: Option<usize>, reader: bool) -> Case {
    let r = c.map_or(0..f.v.len(), |c| f.r[c].clone());
    let want = want_filter(&f.v, p, m, r);
    let d = &mut f.d;
    let got = if reader {
        let c = c.unwrap();
        call("chunk filter", || d.chunk_reader(ChunkId::new(c))?.filter(p.to(), m))?
    } else {
        call("filter", || d.filter(p.to(), m, c.map(ChunkId::new)))?
    };
    cx.step(1);
    ensure!(
        got == want,
        "{:?} {:?} {} filter {p:?} mask {:?} chunk {c:?} reader {reader}: got {} want {}",
        f.s, f.opt, show(&f.v), m.map(brief), brief(&got), brief(&want)
    );
    Ok(())
}
fn filter_mat_one(cx: &Cx, f: &mut File, vals: &[f64], p: Pred, m: Option<&RoaringBitmap>, c: Option<usize>, reader: bool) -> Case {
    let r = c.map_or(0..f.v.len(), |c| f.r[c].clone());
    let want: Vec<f64> = want_filter(&f.v, p, m, r).iter().map(|i| vals[i as usize]).collect();
    let d = &mut f.d;
    let got = if reader {
        let b = call("chunk filter_materialize", || {
            let mut o = vec![];
            d.chunk_reader(ChunkId::new(c.unwrap()))?.filter_materialize(&mut o, p.to(), m)?;
            ebi::decoder::Result::Ok(o)
        })?;
        f64s_of(&b).ok_or("partial record")?
    } else {
        filter_materialize(d, p.to(), m, c)?
    };
    cx.step(1);
    ensure!(
        same_bits(&got, &want),
        "{:?} {:?} {} filter_materialize {p:?} mask {:?} chunk {c:?} reader {reader}: got {} want {}",
        f.s, f.opt, show(&f.v), m.map(brief), show(&got), show(&want)
    );
    Ok(())
}
fn mat_one(cx: &Cx, f: &mut File, vals: &[f64], m: Option<&RoaringBitmap>, c: Option<usize>, reader: bool) -> Case {
    let r = c.map_or(0..f.v.len(), |c| f.r[c].clone());
    let want: Vec<f64> =
        (0..vals.len()).filter(|i| r.contains(i) && m.is_none_or(|m| m.contains(*i as u32))).map(|i| vals[i]).collect();
    let d = &mut f.d;
    let got = if reader {
        let b = call("chunk materialize", || {
            let mut o = vec![];
            d.chunk_reader(ChunkId::new(c.unwrap()))?.materialize(&mut o, m)?;
            ebi::decoder::Result::Ok(o)
        })?;
        f64s_of(&b).ok_or("partial record")?
    } else {
        materialize(d, m, c)?
    };
    cx.step(1);
    ensure!(
        same_bits(&got, &want),
        "{:?} {:?} {} materialize mask {:?} chunk {c:?} reader {reader}: got {} want {}",
        f.s, f.opt, show(&f.v), m.map(brief), show(&got), show(&want)
    );
    Ok(())
}
/// tolerance for sums: the order of additions is not part of the contract
fn sum_close(got: f64, want: f64, mag: f64) -> bool {
    got == want || (got - want).abs() <= 1e-9 * mag.max(1.0) || (got.is_nan() && want.is_nan())
}
fn agg_one(cx: &Cx, f: &mut File, vals: &[f64], m: Option<&RoaringBitmap>, c: Option<usize>, reader: bool) -> Case {
    let r = c.map_or(0..f.v.len(), |c| f.r[c].clone());
    let sel: Vec<f64> =
        (0..vals.len()).filter(|i| r.contains(i) && m.is_none_or(|m| m.contains(*i as u32))).map(|i| vals[i]).collect();
    if reader && sel.is_empty() {
        return Ok(());
    }
    let d = &mut f.d;
    let id = c.map(ChunkId::new);
    let (s, mn, mx) = if reader {
        let id = id.unwrap();
        (
            call("chunk sum", || d.chunk_reader(id)?.sum(m))?,
            call("chunk min", || d.chunk_reader(id)?.min(m))?,
            call("chunk max", || d.chunk_reader(id)?.max(m))?,
        )
    } else {
        (call("sum", || d.sum(m, id))?, call("min", || d.min(m, id))?, call("max", || d.max(m, id))?)
    };
    cx.step(3);
    let ws: f64 = sel.iter().sum();
    let mag: f64 = sel.iter().map(|x| x.abs()).sum();
    let wmn = sel.iter().copied().fold(INF, f64::min);
    let wmx = sel.iter().copied().fold(-INF, f64::max);
    let ctx = || format!("{:?} {:?} {} mask {:?} chunk {c:?} reader {reader}", f.s, f.opt, show(&f.v), m.map(brief));
    ensure!(sum_close(s, ws, mag), "{}: sum {s:?} want {ws:?}", ctx());
    ensure!(mn == wmn, "{}: min {mn:?} want {wmn:?}", ctx());
    ensure!(mx == wmx, "{}: max {mx:?} want {wmx:?}", ctx());
    Ok(())
}

/// data alphabet and query constants per scheme family
fn small_alphabet(s: Sch) -> (Vec<f64>, Vec<f64>) {
    match s.prec() {
        Some(0) => {
            let mut k = vec![-4.0, -3.0, 0.0, 1.0, 2.0, 300.0, 301.0, -1e6, 1e9];
            if let Sch::Spr(_) = s {
                k.extend([-3.5, -0.25, 0.5, 299.999]);
            }
            (vec![-3.0, 0.0, 1.0, 300.0], k)
        }
        Some(p) => {
            let u = |i| dec(i, p);
            let mut k = vec![u(-151), u(-150), 0.0, u(1), u(2), u(233), u(234), u(-1_000_000), u(99_999_999)];
            if let Sch::Spr(_) = s {
                // constants finer than the file's precision, on both sides of stored values
                k.extend([dec(-1501, p + 1), dec(4, p + 1), dec(15, p + 1), dec(2331, p + 1)]);
            }
            (vec![u(-150), 0.0, u(1), u(233)], k)
        }
        None if is_xor(s) => (vec![-1.5, -0.0, 2.25, INF], vec![-2.0, -1.5, 0.0, -0.0, 1.0, 2.25, INF, -INF, NAN]),
        None => (vec![-1.5, -0.0, NAN, INF], vec![-2.0, -1.5, 0.0, -0.0, 1.0, INF, -INF, NAN]),
    }
}
fn query_schemes() -> Vec<Sch> {
    let mut v = all_schemes();
    if cfg!(not(feature = "alp")) {
        v.extend([Sch::Buff(0), Sch::Buff(5), Sch::Spr(0), Sch::Spr(6)]);
    }
    v
}
fn masks(n: usize) -> Vec<Option<RoaringBitmap>> {
    let mut v = vec![None];
    // one bit beyond the data, to show that stray bits are ignored
    for m in 0..1u64 << n {
        v.push(Some(mask_from_num(m)));
    }
    v.push(Some(mask_from_num((1 << n) | 1 | 1 << 40)));
    v.push(Some(mask_from_num((1 << (n + 1)) - 1)));
    v
}
/// mask family for long inputs
fn long_masks(n: usize) -> Vec<Option<RoaringBitmap>> {
    let n32 = n as u32;
    let mut v: Vec<Option<RoaringBitmap>> = vec![None, Some(RoaringBitmap::new())];
    for k in [1usize, 2, 3, 5, 8, 17, 31, 40] {
        for o in [0usize, 1, k / 2, k - 1] {
            v.push(Some((o..n).step_by(k).map(|i| i as u32).collect()));
        }
    }
    for i in [0, 1, 7, 8, 31, 32, 33, n.saturating_sub(2), n.saturating_sub(1)] {
        if i < n {
            v.push(Some([i as u32].into_iter().collect()));
        }
    }
    v.push(Some((0..n32 / 2).collect()));
    v.push(Some((n32 / 2..n32).collect()));
    v.push(Some((n32 / 3..n32 * 2 / 3 + 1).collect()));
    v
}
const OPTS: [ChunkOption; 4] =
    [ChunkOption::Full, ChunkOption::RecordCount(2), ChunkOption::RecordCount(1), ChunkOption::ByteSizeBestEffort(16)];

fn selects(f: &File) -> Vec<(Option<usize>, bool)> {
    let mut v = vec![(None, false)];
    for c in 0..f.r.len() {
        v.push((Some(c), false));
        v.push((Some(c), true));
    }
    v
}

/// a chunk whose BUFF / delta representation needs exactly about `w` bits, with collisions and extremes
fn width_values(n: usize, w: u32, p: u32, base: i64) -> Vec<f64> {
    let top = if w >= 62 { i64::MAX >> 2 } else { (1i64 << w) - 1 };
    (0..n)
        .map(|i| {
            let x = match (i * 5 + n) % 9 {
                0 => 0,
                1 => top,
                2 => top / 2,
                3 => top / 2 + 1,
                4 => (i as i64 * 37) & top,
                5 => top - ((i as i64 * 11) & top),
                6 => 1.min(top),
                7 => (i as i64 * 0x9E37_79B9) & top,
                _ => top & 0x5555_5555_5555,
            };
            dec(base + x, p)
        })
        .collect()
}

pub fn p07(cx: &Cx) {
    let sch = query_schemes();
    let l = cx.pick(3, 4);
    let no = cx.pick(3, 4);
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = OPTS[g.take(no)];
        let (al, k) = small_alphabet(s);
        let v: Vec<f64> = nth_seq(4, 0, l, g.0).iter().map(|&i| al[i]).collect();
        (s, o, v, k)
    };
    cx.run_desc(
        "small",
        &format!("every sequence of length 0..={l} over 4 values x {} schemes x {no} chunk options; for each, every predicate (=, !=, every open/closed/unbounded range pair) over 8-9 constants (present, absent, beyond both ends, infinities, NaN) x every record mask, whole file / per chunk / chunk reader", sch.len()),
        n_seqs(4, 0, l) * (sch.len() * no) as u64,
        |c| {
            let (s, o, v, k) = d1(c);
            let mut f = file(cx, s, o, &v)?;
            let ms = masks(v.len());
            let ps = preds(&k);
            let sel = selects(&f);
            for (i, &p) in ps.iter().enumerate() {
                for (j, m) in ms.iter().enumerate() {
                    filter_one(cx, &mut f, p, m.as_ref(), None, false)?;
                    if (i + j) % 3 == 0 {
                        for &(c, r) in &sel[1..] {
                            filter_one(cx, &mut f, p, m.as_ref(), c, r)?;
                        }
                    }
                }
            }
            Ok(())
        },
        |c| {
            let (s, o, v, _) = d1(c);
            format!("{s:?} {o:?} {v:?}")
        },
    );
    // byte sub-columns: every stored byte against every constant byte
    let d2 = |c: u64| {
        let mut g = Dig(c);
        let s = [Sch::Buff(0), Sch::Spr(0)][g.take(2)];
        let hi = [0i64, 1, 127, 128, 255][g.take(5)];
        (s, hi, g.0 as i64)
    };
    cx.run_desc(
        "bytes",
        "a chunk holding all 256 values of one byte (plus a second byte to make 16 bits) x every constant byte x {=,!=,<,<=,>,>=}, with and without masks: 8-bit lane comparisons",
        2 * 5 * 256,
        |c| {
            let (s, hi, k) = d2(c);
            let mut v: Vec<f64> = (0..256).map(|i| (((i * 77) % 256) + hi * 256) as f64).collect();
            v.push(0.0);
            v.push(255.0 * 256.0 + 255.0);
            let mut f = file(cx, s, ChunkOption::RecordCount(300), &v)?;
            let k = (hi * 256 + k) as f64;
            let ms = long_masks(v.len());
            for p in [
                Pred::Eq(k),
                Pred::Ne(k),
                Pred::Range(Bound::Inc(k), Bound::None),
                Pred::Range(Bound::Exc(k), Bound::None),
                Pred::Range(Bound::None, Bound::Inc(k)),
                Pred::Range(Bound::None, Bound::Exc(k)),
            ] {
                filter_one(cx, &mut f, p, None, None, false)?;
                for m in &ms[2..8] {
                    filter_one(cx, &mut f, p, m.as_ref(), None, false)?;
                }
            }
            Ok(())
        },
        |c| format!("{:?}", d2(c)),
    );
    // bit widths x lengths x alignments
    let ws: Vec<u32> = if cx.quick() { vec![0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40] } else { (0..=44).collect() };
    let ns: Vec<usize> = if cx.quick() { vec![1, 2, 7, 8, 9, 31, 32, 33, 40, 63, 64, 65, 70, 104] } else { (1..=110).collect() };
    let ss = [Sch::Buff(0), Sch::Buff(2), Sch::Buff(5), Sch::Spr(0), Sch::Spr(2), Sch::Spr(6)];
    let d3 = |c: u64| {
        let mut g = Dig(c);
        let s = ss[g.take(ss.len())];
        let w = ws[g.take(ws.len())];
        let o = [ChunkOption::Full, ChunkOption::RecordCount(37), ChunkOption::RecordCount(64)][g.take(3)];
        (s, w, o, ns[g.0 as usize])
    };
    cx.run_desc(
        "widths",
        "chunks needing every bit width x record counts around the vector width x aligned and unaligned chunk starts x predicates at present/absent/extreme constants x dense, strided, sparse and single-record masks",
        (ss.len() * ws.len() * 3 * ns.len()) as u64,
        |c| {
            let (s, w, o, n) = d3(c);
            if o != ChunkOption::Full && n <= 37 {
                return Ok(());
            }
            let p = s.prec().unwrap();
            let base = [-40i64, 0, 100_000][n % 3];
            let v = width_values(n, w, p, base);
            let mut f = file(cx, s, o, &v)?;
            let top = if w >= 62 { i64::MAX >> 2 } else { (1i64 << w) - 1 };
            let mut ks: Vec<f64> = [0, top, top / 2, top / 2 + 1, -1, top + 1, (1i64 << (w + 1)) + 1, -(1i64 << w) - 7]
                .iter()
                .map(|x| dec(base + x, p))
                .collect();
            ks.push(v[n / 2]);
            ks.push(v[n - 1]);
            let ms = long_masks(n);
            let mut q = vec![];
            for &k in &ks {
                q.extend([
                    Pred::Eq(k),
                    Pred::Ne(k),
                    Pred::Range(Bound::Inc(k), Bound::None),
                    Pred::Range(Bound::Exc(k), Bound::None),
                    Pred::Range(Bound::None, Bound::Inc(k)),
                    Pred::Range(Bound::None, Bound::Exc(k)),
                ]);
            }
            q.push(Pred::Range(Bound::Inc(v[n / 3]), Bound::Exc(v[n / 2])));
            q.push(Pred::Range(Bound::Exc(ks[0]), Bound::Exc(ks[1])));
            q.push(Pred::Range(Bound::Inc(ks[2]), Bound::Inc(ks[2])));
            for (i, &p) in q.iter().enumerate() {
                for (j, m) in ms.iter().enumerate() {
                    if cx.quick() && (i + j) % 2 == 1 && j > 2 {
                        continue;
                    }
                    filter_one(cx, &mut f, p, m.as_ref(), None, false)?;
                }
                if f.r.len() > 1 {
                    filter_one(cx, &mut f, p, ms[2 + i % 20].as_ref(), Some(1), false)?;
                    filter_one(cx, &mut f, p, ms[2 + i % 20].as_ref(), Some(1), true)?;
                }
            }
            Ok(())
        },
        |c| format!("{:?}", d3(c)),
    );
    // unbounded constants on fixed-precision data
    let ks = [INF, -INF, 1e300, -1e300, 1e19, -1e19, NAN, -NAN];
    cx.run_desc(
        "huge-constants",
        "infinite, NaN and huge finite constants in every predicate position on fixed-precision data of several widths",
        (ss.len() * ks.len() * 4) as u64,
        |c| {
            let mut g = Dig(c);
            let s = ss[g.take(ss.len())];
            let k = ks[g.take(ks.len())];
            let v = width_values(40, [0, 5, 8, 20][g.0 as usize], s.prec().unwrap(), -7);
            let mut f = file(cx, s, ChunkOption::RecordCount(33), &v)?;
            for p in preds(&[k, v[3]]) {
                for m in &long_masks(40)[..6] {
                    filter_one(cx, &mut f, p, m.as_ref(), None, false)?;
                }
            }
            Ok(())
        },
        |c| format!("case {c}"),
    );
    long_files(cx, 0);
}

/// more than 2^16 records (roaring container boundary) with unaligned chunk starts
fn long_files(cx: &Cx, what: u8) {
    let sch = query_schemes();
    let n = 65_536 * 2 + 77;
    cx.run_desc(
        "long",
        "132k records of 12 and of 34 bits in chunks of 7001 and 65539 records or one: results across 2^16 container boundaries, of the file and of its last chunk",
        (sch.len() * 6) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let o = [ChunkOption::RecordCount(7001), ChunkOption::RecordCount(65_539), ChunkOption::Full][g.take(3)];
            let p = s.prec().unwrap_or(2);
            let v: Vec<f64> = if g.0 == 0 { (0..n).map(|i| dec((i as i64 * 7919) % 4001 - 2000, p)).collect() } else { width_values(n, 34, p, -40) };
            let mut f = file(cx, s, o, &v)?;
            let ms: Vec<Option<RoaringBitmap>> = vec![
                None,
                Some((0..n as u32).step_by(3).collect()),
                Some((65_500..65_600).collect()),
                Some((0..n as u32).step_by(401).collect()),
            ];
            let k = dec(777, p);
            let last = f.r.len() - 1;
            match what {
                0 => {
                    for p in [Pred::Eq(v[65_536]), Pred::Ne(k), Pred::Range(Bound::Exc(k), Bound::None), Pred::Range(Bound::None, Bound::Inc(k))] {
                        for m in &ms {
                            filter_one(cx, &mut f, p, m.as_ref(), None, false)?;
                            filter_one(cx, &mut f, p, m.as_ref(), Some(last), c % 2 == 0)?;
                        }
                    }
                }
                1 => {
                    let vals = materialize(&mut f.d, None, None)?;
                    for m in &ms {
                        mat_one(cx, &mut f, &vals, m.as_ref(), None, false)?;
                        filter_mat_one(cx, &mut f, &vals, Pred::Range(Bound::Exc(k), Bound::None), m.as_ref(), None, false)?;
                        mat_one(cx, &mut f, &vals, m.as_ref(), Some(last), c % 2 == 0)?;
                        filter_mat_one(cx, &mut f, &vals, Pred::Ne(v[n - 1]), m.as_ref(), Some(last), c % 2 == 0)?;
                    }
                }
                _ => {
                    let vals = materialize(&mut f.d, None, None)?;
                    for m in &ms {
                        agg_one(cx, &mut f, &vals, m.as_ref(), None, false)?;
                        agg_one(cx, &mut f, &vals, m.as_ref(), Some(last), c % 2 == 0)?;
                    }
                }
            }
            Ok(())
        },
        |c| format!("case {c}"),
    );
    let n = (1 << 20) + 5003;
    let lopts = [ChunkOption::RecordCount(131_101), ChunkOption::RecordCount(65_537)];
    cx.run_desc(
        "million",
        "2^20 + 5003 records, chunks that begin beyond 2^20: results of the file and of its last chunk under a thin mask and one of the last records",
        sch.len() as u64,
        |c| {
            let s = sch[c as usize];
            let p = s.prec().unwrap_or(2);
            let v: Vec<f64> = (0..n).map(|i| dec((i as i64 * 7919) % 4001 - 2000, p)).collect();
            let mut f = file(cx, s, lopts[c as usize % 2], &v)?;
            let last = f.r.len() - 1;
            ensure!(f.r[last].start > 1 << 20, "the last chunk begins at {}", f.r[last].start);
            let ms: Vec<Option<RoaringBitmap>> = vec![Some((0..n as u32).step_by(1009).collect()), Some((n as u32 - 5100..n as u32).step_by(7).collect())];
            let pr = Pred::Range(Bound::Exc(dec(777, p)), Bound::None);
            let vals = if what == 0 { vec![] } else { materialize(&mut f.d, None, None)? };
            for m in &ms {
                for ch in [None, Some(last)] {
                    match what {
                        0 => filter_one(cx, &mut f, pr, m.as_ref(), ch, false)?,
                        1 => {
                            mat_one(cx, &mut f, &vals, m.as_ref(), ch, false)?;
                            filter_mat_one(cx, &mut f, &vals, pr, m.as_ref(), ch, false)?;
                        }
                        _ => agg_one(cx, &mut f, &vals, m.as_ref(), ch, false)?,
                    }
                }
            }
            Ok(())
        },
        |c| format!("{:?}", sch[c as usize]),
    );
}

pub fn p08(cx: &Cx) {
    let sch = query_schemes();
    let l = cx.pick(4, 6);
    let no = cx.pick(3, 4);
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = OPTS[g.take(no)];
        let (al, k) = small_alphabet(s);
        let v: Vec<f64> = nth_seq(3, 0, l, g.0).iter().map(|&i| al[i]).collect();
        (s, o, v, k)
    };
    cx.run_desc(
        "small",
        &format!("every sequence of length 0..={l} over 3 values x {} schemes x {no} chunk options x every record mask (and stray bits past the end), whole file / per chunk / chunk reader; filtered materialisation under 6 predicates", sch.len()),
        n_seqs(3, 0, l) * (sch.len() * no) as u64,
        |c| {
            let (s, o, v, k) = d1(c);
            let mut f = file(cx, s, o, &v)?;
            let vals = materialize(&mut f.d, None, None)?;
            let ps = [
                Pred::Eq(k[1]),
                Pred::Ne(k[2]),
                Pred::Range(Bound::Inc(k[1]), Bound::Exc(k[4])),
                Pred::Range(Bound::Exc(k[1]), Bound::None),
                Pred::Range(Bound::None, Bound::Inc(k[2])),
                Pred::Range(Bound::None, Bound::None),
            ];
            let sel = selects(&f);
            for m in &masks(v.len()) {
                for &(c, r) in &sel {
                    mat_one(cx, &mut f, &vals, m.as_ref(), c, r)?;
                    for p in ps {
                        filter_mat_one(cx, &mut f, &vals, p, m.as_ref(), c, r)?;
                    }
                }
            }
            Ok(())
        },
        |c| {
            let (s, o, v, _) = d1(c);
            format!("{s:?} {o:?} {v:?}")
        },
    );
    let ns: Vec<usize> = if cx.quick() { vec![1, 8, 31, 33, 64, 70, 150] } else { (1..=160).collect() };
    let ws = [0u32, 3, 8, 13, 24, 33];
    let d2 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let w = ws[g.take(ws.len())];
        let o = [ChunkOption::Full, ChunkOption::RecordCount(37), ChunkOption::RecordCount(64)][g.take(3)];
        (s, w, o, ns[g.0 as usize])
    };
    cx.run_desc(
        "long-masks",
        "longer chunks of several bit widths x dense, strided, sparse and single-record masks x predicates at present constants",
        (sch.len() * ws.len() * 3 * ns.len()) as u64,
        |c| {
            let (s, w, o, n) = d2(c);
            let v = width_values(n, w, s.prec().unwrap_or(2), [-40i64, 0, 100_000][n % 3]);
            let mut f = file(cx, s, o, &v)?;
            let vals = materialize(&mut f.d, None, None)?;
            let ps = [
                Pred::Eq(v[n / 2]),
                Pred::Ne(v[n / 2]),
                Pred::Range(Bound::Inc(v[n / 3]), Bound::None),
                Pred::Range(Bound::None, Bound::Exc(v[n / 3])),
            ];
            for (j, m) in long_masks(n).iter().enumerate() {
                mat_one(cx, &mut f, &vals, m.as_ref(), None, false)?;
                let c = j % f.r.len();
                mat_one(cx, &mut f, &vals, m.as_ref(), Some(c), j % 2 == 0)?;
                for p in ps {
                    filter_mat_one(cx, &mut f, &vals, p, m.as_ref(), None, false)?;
                }
                filter_mat_one(cx, &mut f, &vals, ps[j % 4], m.as_ref(), Some(c), j % 2 == 0)?;
            }
            Ok(())
        },
        |c| format!("{:?}", d2(c)),
    );
    long_files(cx, 1);
}

pub fn p09(cx: &Cx) {
    let sch = query_schemes();
    let l = cx.pick(5, 7);
    let no = cx.pick(3, 4);
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = OPTS[g.take(no)];
        let al: Vec<f64> = match s.prec() {
            Some(p) => vec![dec(-150, p), dec(1, p), dec(233, p)],
            None => vec![-1.5, -0.0, 1048576.25],
        };
        let v: Vec<f64> = nth_seq(3, 0, l, g.0).iter().map(|&i| al[i]).collect();
        (s, o, v)
    };
    cx.run_desc(
        "small",
        &format!("every sequence of length 0..={l} over 3 values x {} schemes x {no} chunk options x every record mask, whole file / per chunk / chunk reader: sum, min, max", sch.len()),
        n_seqs(3, 0, l) * (sch.len() * no) as u64,
        |c| {
            let (s, o, v) = d1(c);
            let mut f = file(cx, s, o, &v)?;
            let vals = materialize(&mut f.d, None, None)?;
            let sel = selects(&f);
            for m in &masks(v.len()) {
                for &(c, r) in &sel {
                    agg_one(cx, &mut f, &vals, m.as_ref(), c, r)?;
                }
            }
            Ok(())
        },
        |c| format!("{:?}", d1(c)),
    );
    let ws: Vec<u32> = if cx.quick() { vec![0, 1, 3, 7, 8, 9, 13, 16, 20, 24, 33, 40] } else { (0..=42).collect() };
    let ns: Vec<usize> = if cx.quick() { vec![1, 2, 8, 31, 33, 64, 70, 150] } else { (1..=150).collect() };
    let d2 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let w = ws[g.take(ws.len())];
        let o = [ChunkOption::Full, ChunkOption::RecordCount(37), ChunkOption::RecordCount(64)][g.take(3)];
        (s, w, o, ns[g.0 as usize])
    };
    cx.run_desc(
        "widths",
        "chunks needing every bit width x record counts x unaligned chunk starts x dense, strided, sparse and single-record masks",
        (sch.len() * ws.len() * 3 * ns.len()) as u64,
        |c| {
            let (s, w, o, n) = d2(c);
            let v = width_values(n, w, s.prec().unwrap_or(2), [-40i64, 0, 100_000][n % 3]);
            let mut f = file(cx, s, o, &v)?;
            let vals = materialize(&mut f.d, None, None)?;
            for (j, m) in long_masks(n).iter().enumerate() {
                agg_one(cx, &mut f, &vals, m.as_ref(), None, false)?;
                let c = j % f.r.len();
                agg_one(cx, &mut f, &vals, m.as_ref(), Some(c), j % 2 == 0)?;
            }
            Ok(())
        },
        |c| format!("{:?}", d2(c)),
    );
    // position of the extreme
    let d3 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let n = [33usize, 40][g.take(2)];
        (s, n, g.0 as usize)
    };
    cx.run_desc(
        "extremes",
        "the extreme value at every position of a chunk, alone and tied, differing from the rest in each byte of the representation",
        (sch.len() * 2 * 40) as u64,
        |c| {
            let (s, n, pos) = d3(c);
            if pos >= n {
                return Ok(());
            }
            let p = s.prec().unwrap_or(2);
            for bit in [0u32, 6, 7, 8, 15, 16, 23] {
                for sign in [1i64, -1] {
                    let mut v: Vec<f64> = (0..n).map(|i| dec(70_000_000 + (i as i64 % 2) * sign * (1 << bit) / 2, p)).collect();
                    v[pos] = dec(70_000_000 + sign * (1 << bit), p);
                    let mut f = file(cx, s, ChunkOption::Full, &v)?;
                    let vals = materialize(&mut f.d, None, None)?;
                    for m in [None, Some((0..n as u32).filter(|i| *i != pos as u32).collect::<RoaringBitmap>()), Some((pos as u32..n as u32).collect())] {
                        agg_one(cx, &mut f, &vals, m.as_ref(), None, false)?;
                    }
                }
            }
            Ok(())
        },
        |c| format!("{:?}", d3(c)),
    );
    // sums far beyond one record's range
    const FRAC: [u32; 13] = [0, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50];
    let ls = cx.pick(vec![1usize, 3, 17, 300], vec![1usize, 2, 3, 17, 100, 300, 20_000]);
    let d4 = |c: u64| {
        let mut g = Dig(c);
        let s = match g.take(23) {
            p @ 0..=12 => Sch::Buff(p as u32),
            p => Sch::Spr(p as u32 - 13),
        };
        let top = g.take(3) as u32;
        let shape = g.take(4);
        (s, top, shape, ls[g.0 as usize])
    };
    cx.run_desc(
        "magnitudes",
        "every precision of the fixed-point schemes x values near the top of the representable range (all alike, rising, both signs, one outlier) x record counts, so that the sum exceeds any single record's range",
        (23 * 3 * 4 * ls.len()) as u64,
        |c| {
            let (s, top, shape, n) = d4(c);
            let (p, max) = match s {
                // the integer part keeps at least one bit
                Sch::Buff(p) => (p, (2f64.powi(61 - FRAC[p as usize] as i32 - 4 * top as i32) * 10f64.powi(p as i32)).min(2f64.powi(52))),
                Sch::Spr(p) => (p, 2f64.powi(52 - 4 * top as i32)),
                _ => unreachable!(),
            };
            let max = max as i64;
            let v: Vec<f64> = (0..n as i64)
                .map(|i| match shape {
                    0 => max,
                    1 => max / 2 + i,
                    2 => (if i % 3 == 1 { max } else { -max }) + i,
                    _ => if i == n as i64 / 2 { max } else { -i },
                })
                .map(|x| dec(x.clamp(-max, max), p))
                .collect();
            let mut f = file(cx, s, ChunkOption::Full, &v)?;
            let vals = materialize(&mut f.d, None, None)?;
            for m in long_masks(n).iter().step_by(4) {
                agg_one(cx, &mut f, &vals, m.as_ref(), None, false)?;
            }
            Ok(())
        },
        |c| format!("{:?}", d4(c)),
    );
    long_files(cx, 2);
    // a chunk reader with nothing selected
    cx.run_desc(
        "nothing-selected",
        "sum of no record is 0 and min/max of no record never invents a value, for every scheme: empty mask, mask entirely in another chunk, empty file",
        (sch.len() * 3) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let k = g.0;
            let v = width_values(if k == 2 { 0 } else { 10 }, 9, s.prec().unwrap_or(2), 5);
            let mut f = file(cx, s, ChunkOption::RecordCount(4), &v)?;
            let m: RoaringBitmap = if k == 1 { [5u32].into_iter().collect() } else { RoaringBitmap::new() };
            let c = if k == 2 { None } else { Some(ChunkId::new(0)) };
            let d = &mut f.d;
            let m = if k == 2 { None } else { Some(&m) };
            let a = (call("sum", || d.sum(m, c))?, call("min", || d.min(m, c))?, call("max", || d.max(m, c))?);
            ensure!(a == (0.0, INF, -INF), "{s:?} variant {k}: sum/min/max of nothing = {a:?}");
            if k < 2 {
                let id = ChunkId::new(0);
                let s0 = call("chunk sum", || d.chunk_reader(id)?.sum(m))?;
                let mn = call("chunk min", || d.chunk_reader(id)?.min(m))?;
                let mx = call("chunk max", || d.chunk_reader(id)?.max(m))?;
                ensure!(s0 == 0.0, "{s:?} variant {k}: chunk sum of nothing = {s0:?}");
                ensure!(mn == INF || mn.is_nan(), "{s:?} variant {k}: chunk min of nothing = {mn:?}");
                ensure!(mx == -INF || mx.is_nan(), "{s:?} variant {k}: chunk max of nothing = {mx:?}");
            }
            cx.step(6);
            Ok(())
        },
        |c| format!("case {c}"),
    );
    let _ = |x: &mut DecoderOutput<Vec<u8>>| x.writer_mut().clear();
}
#[allow(unused)]
fn unused() -> Case {
    bail!("")
}

/// one file read at precision `n`: bounded truncation when materialising, everything else unaffected
fn prec_file(cx: &Cx, s: Sch, o: ChunkOption, v: &[f64], ns: &[u32]) -> Case {
    let b = encode(s, o, v)?;
    cx.state(hash64(&b[..b.len().min(4096)]));
    let mut full = open(b.clone())?;
    let vals = materialize(&mut full, None, None)?;
    let ms = long_masks(v.len());
    let ms: Vec<_> = ms.into_iter().step_by(cx.pick(5, 2)).collect();
    let mut sel: Vec<Option<usize>> = vec![None];
    sel.extend((0..full.chunk_footers().len()).map(Some));
    let rs = ranges(o, &full, v.len());
    for &n in ns {
        let mut d = open(b.clone())?;
        d.with_precision(n);
        let exact = !matches!(s, Sch::Buff(p) if n < p);
        let tol = 10f64.powi(-(n.min(400) as i32));
        for m in &ms {
            for &c in &sel {
                let r = c.map_or(0..v.len(), |c| rs[c].clone());
                let idx: Vec<usize> =
                    (0..v.len()).filter(|i| r.contains(i) && m.as_ref().is_none_or(|m| m.contains(*i as u32))).collect();
                for reader in [false, true] {
                    if reader && c.is_none() {
                        continue;
                    }
                    let got = if reader {
                        let b = call("chunk materialize", || {
                            let mut o = vec![];
                            d.chunk_reader(ChunkId::new(c.unwrap()))?.materialize(&mut o, m.as_ref())?;
                            ebi::decoder::Result::Ok(o)
                        })?;
                        f64s_of(&b).ok_or("partial record")?
                    } else {
                        materialize(&mut d, m.as_ref(), c)?
                    };
                    cx.step(1);
                    ensure!(
                        got.len() == idx.len(),
                        "{s:?} {o:?} {} precision {n} mask {:?} chunk {c:?}: {} records, want {}",
                        show(v), m.as_ref().map(brief), got.len(), idx.len()
                    );
                    for (g, &i) in got.iter().zip(&idx) {
                        let e = vals[i] - g;
                        let ok = if exact { g.to_bits() == vals[i].to_bits() } else { e >= 0.0 && e < tol };
                        ensure!(
                            ok,
                            "{s:?} {o:?} {} precision {n} mask {:?} chunk {c:?} reader {reader}: record {i} is {g:?}, stored {:?}",
                            show(v), m.as_ref().map(brief), vals[i]
                        );
                    }
                }
            }
            // the other questions are answered on the stored values
            let k = v[v.len() / 2];
            for p in [Pred::Eq(k), Pred::Ne(k), Pred::Range(Bound::Exc(k), Bound::None), Pred::Range(Bound::None, Bound::Inc(k))] {
                let a = call("filter", || d.filter(p.to(), m.as_ref(), None))?;
                let w = call("filter", || full.filter(p.to(), m.as_ref(), None))?;
                let fm = filter_materialize(&mut d, p.to(), m.as_ref(), None)?;
                cx.step(2);
                ensure!(a == w, "{s:?} {} precision {n} filter {p:?}: {} want {}", show(v), brief(&a), brief(&w));
                ensure!(fm.len() as u64 == w.len(), "{s:?} {} precision {n} filter_materialize {p:?}: {} records want {}", show(v), fm.len(), w.len());
                for (g, i) in fm.iter().zip(w.iter()) {
                    let e = vals[i as usize] - g;
                    ensure!(
                        if exact { e == 0.0 } else { e >= 0.0 && e < tol },
                        "{s:?} {} precision {n} filter_materialize {p:?}: record {i} is {g:?}, stored {:?}",
                        show(v), vals[i as usize]
                    );
                }
            }
            let q = |d: &mut Dec| -> Result<[u64; 3], Fail> {
                Ok([
                    call("sum", || d.sum(m.as_ref(), None))?.to_bits(),
                    call("min", || d.min(m.as_ref(), None))?.to_bits(),
                    call("max", || d.max(m.as_ref(), None))?.to_bits(),
                ])
            };
            let (a, w) = (q(&mut d)?, q(&mut full)?);
            cx.step(3);
            ensure!(a == w, "{s:?} {} precision {n}: sum/min/max {:?} want {:?}", show(v), a.map(f64::from_bits), w.map(f64::from_bits));
        }
    }
    Ok(())
}

pub fn p18(cx: &Cx) {
    const NS: [u32; 17] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 64, u32::MAX];
    let ws: Vec<u32> = if cx.quick() { vec![0, 1, 4, 7, 8, 9, 15, 16, 17, 24, 25, 33, 40] } else { (0..=46).collect() };
    let ls: Vec<usize> = if cx.quick() { vec![1, 3, 8, 33, 70] } else { vec![1, 2, 3, 7, 8, 9, 31, 32, 33, 64, 70, 105] };
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let p = g.take(13) as u32;
        let w = ws[g.take(ws.len())];
        let o = [ChunkOption::Full, ChunkOption::RecordCount(3), ChunkOption::RecordCount(37)][g.take(3)];
        (p, w, o, ls[g.0 as usize])
    };
    cx.run_desc(
        "widths",
        "BUFF files of every precision 0..=12 x value spreads of every bit width x record counts x chunk options, each read at every precision 0..=14, 64 and the largest, under masks, whole file / per chunk / chunk reader; filters and aggregates compared with the unrestricted decoder",
        (13 * ws.len() * 3 * ls.len()) as u64,
        |c| {
            let (p, w, o, n) = d1(c);
            if n == 1 && o != ChunkOption::Full {
                return Ok(());
            }
            let v = width_values(n, w, p, [-40i64, 0, 100_000][(n + w as usize) % 3]);
            prec_file(cx, Sch::Buff(p), o, &v, &NS)
        },
        |c| format!("{:?}", d1(c)),
    );
    let lp: &[u32] = cx.pick(&[0, 3, 8, 12], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
    let lw: &[u32] = cx.pick(&[1, 13, 34], &[1, 8, 9, 13, 17, 25, 34, 41]);
    cx.run_desc(
        "long",
        "BUFF files of 4099, 9001 and 70001 records in chunks of 4099 and 65537 records or one, several precisions and spreads, read at precisions below, at and above their own",
        (lp.len() * lw.len() * 6) as u64,
        |c| {
            let mut g = Dig(c);
            let (p, w) = (lp[g.take(lp.len())], lw[g.take(lw.len())]);
            let (o, n) = [
                (ChunkOption::Full, 70_001usize),
                (ChunkOption::RecordCount(65_537), 70_001),
                (ChunkOption::RecordCount(4099), 9001),
                (ChunkOption::Full, 9001),
                (ChunkOption::Full, 4099),
                (ChunkOption::RecordCount(1024), 4099),
            ][g.take(6)];
            prec_file(cx, Sch::Buff(p), o, &width_values(n, w, p, -40), &[p / 2, p.max(1) - 1, p])
        },
        |c| format!("case {c}"),
    );
    let sch = all_schemes();
    cx.run_desc(
        "other-schemes",
        "every other scheme ignores the reading precision",
        (sch.len() * 3) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let p = s.prec().unwrap_or(3);
            let v = width_values([5, 33, 80][g.0 as usize], 14, p, -40);
            prec_file(cx, s, ChunkOption::RecordCount(16), &v, &[0, 1, 3, 13, 40])
        },
        |c| format!("case {c}"),
    );
    // histories: change the precision between questions on one decoder / one chunk reader
    let depth = cx.pick(4, 5);
    let d3 = |c: u64| {
        let mut g = Dig(c);
        let p = [2u32, 5, 9][g.take(3)];
        let reader = g.take(2) == 1;
        let h = nth_seq(7, depth, depth, g.0);
        (p, reader, h)
    };
    cx.run_desc(
        "histories",
        &format!("every history of length {depth} over {{precision 0, 1, 3, 12, materialise, filter+materialise, sum}} on one decoder and on one chunk reader: the last precision set bounds the error"),
        6 * 7u64.pow(depth),
        |c| {
            let (p, reader, h) = d3(c);
            let v = width_values(12, 34, p, -12345);
            let b = encode(Sch::Buff(p), ChunkOption::RecordCount(12), &v)?;
            cx.state(mix(hash64(&b), c));
            let mut fd = open(b.clone())?;
            let vals = materialize(&mut fd, None, None)?;
            let want_sum = call("sum", || fd.sum(None, None))?;
            let mut d = open(b)?;
            let k = v[4];
            let keep = want_filter(&v, Pred::Range(Bound::Inc(k), Bound::None), None, 0..12);
            let pred = || Pred::Range(Bound::Inc(k), Bound::None).to();
            let mut n: Option<u32> = None;
            let check = |n: Option<u32>, got: &[f64], idx: &[usize], what: &str| -> Case {
                ensure!(got.len() == idx.len(), "precision {p} history {h:?}: {what} gave {} records", got.len());
                for (g, &i) in got.iter().zip(idx) {
                    let e = vals[i] - g;
                    let ok = match n {
                        Some(n) if n < p => e >= 0.0 && e < 10f64.powi(-(n as i32)),
                        _ => e == 0.0,
                    };
                    ensure!(ok, "precision {p} history {h:?} reader {reader}: {what} record {i} at {n:?} is {g:?}, stored {:?}", vals[i]);
                }
                Ok(())
            };
            let all: Vec<usize> = (0..12).collect();
            let kept: Vec<usize> = keep.iter().map(|i| i as usize).collect();
            if reader {
                let mut r = call("chunk reader", || d.chunk_reader(ChunkId::new(0)))?;
                for &x in &h {
                    cx.step(1);
                    match x {
                        0..=3 => {
                            let q = [0, 1, 3, 12][x];
                            guard(|| r.with_precision(q))?;
                            n = Some(q);
                        }
                        4 => {
                            let mut o = vec![];
                            call("materialize", || r.materialize(&mut o, None))?;
                            check(n, &f64s_of(&o).ok_or("partial record")?, &all, "materialize")?;
                        }
                        5 => {
                            let mut o = vec![];
                            call("filter_materialize", || r.filter_materialize(&mut o, pred(), None))?;
                            check(n, &f64s_of(&o).ok_or("partial record")?, &kept, "filter_materialize")?;
                        }
                        _ => {
                            let got = call("sum", || r.sum(None))?;
                            ensure!(got == want_sum, "history {h:?}: sum {got:?} want {want_sum:?}");
                        }
                    }
                }
            } else {
                for &x in &h {
                    cx.step(1);
                    match x {
                        0..=3 => {
                            let q = [0, 1, 3, 12][x];
                            d.with_precision(q);
                            n = Some(q);
                        }
                        4 => check(n, &materialize(&mut d, None, None)?, &all, "materialize")?,
                        5 => check(n, &filter_materialize(&mut d, pred(), None, None)?, &kept, "filter_materialize")?,
                        _ => {
                            let got = call("sum", || d.sum(None, None))?;
                            ensure!(got == want_sum, "history {h:?}: sum {got:?} want {want_sum:?}");
                        }
                    }
                }
            }
            Ok(())
        },
        |c| format!("{:?}", d3(c)),
    );
}
