//! P10 expressions over columns, P11 nearest neighbour, P12 matrix product, P13 independence of
//! results from the operations performed before.
use crate::common::*;
use crate::fmt::{all_schemes, same_data};
use crate::fw::*;
use crate::{bail, ensure};
use ebi::api::decoder::{Aggregation, AggregationKind, AggregationResult, ChunkId, Expr};
use ebi::decoder::expr::Op;
use ebi::encoder::ChunkOption;
use ebi::time::SegmentedExecutionTimes;
use roaring::RoaringBitmap;

const INF: f64 = f64::INFINITY;

// ---------------------------------------------------------------- P10
#[derive(Clone, Debug)]
enum Ex {
    Lit(f64),
    Col(usize),
    Bin(usize, Box<Ex>, Box<Ex>),
}
const OPS: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];
impl Ex {
    fn to(&self) -> Expr {
        match self {
            Ex::Lit(v) => Expr::Literal(*v),
            Ex::Col(i) => Expr::Index(*i),
            Ex::Bin(o, a, b) => Expr::Binary { op: OPS[*o], lhs: Box::new(a.to()), rhs: Box::new(b.to()) },
        }
    }
    fn eval(&self, row: &[f64]) -> f64 {
        match self {
            Ex::Lit(v) => *v,
            Ex::Col(i) => row[*i],
            Ex::Bin(o, a, b) => {
                let (a, b) = (a.eval(row), b.eval(row));
                match o {
                    0 => a + b,
                    1 => a - b,
                    2 => a * b,
                    _ => a / b,
                }
            }
        }
    }
    /// literals only in positions the engine documents as supported (not both operands, not alone)
    fn supported(&self) -> bool {
        match self {
            Ex::Lit(_) => false,
            Ex::Col(_) => true,
            Ex::Bin(_, a, b) => match (&**a, &**b) {
                (Ex::Lit(_), Ex::Lit(_)) => false,
                (Ex::Lit(_), b) => b.supported(),
                (a, Ex::Lit(_)) => a.supported(),
                (a, b) => a.supported() && b.supported(),
            },
        }
    }
    fn cols(&self) -> usize {
        match self {
            Ex::Lit(_) => 0,
            Ex::Col(i) => i + 1,
            Ex::Bin(_, a, b) => a.cols().max(b.cols()),
        }
    }
}
fn atoms() -> Vec<Ex> {
    vec![Ex::Col(0), Ex::Col(1), Ex::Col(2), Ex::Lit(2.0), Ex::Lit(-0.5)]
}
fn exprs(depth: u32, quick: bool) -> Vec<Ex> {
    let mut cur = atoms();
    for d in 0..depth {
        let prev = cur.clone();
        let small: Vec<Ex> = if d == 0 { prev.clone() } else { atoms() };
        for o in 0..4 {
            for (i, a) in prev.iter().enumerate() {
                for (j, b) in small.iter().enumerate() {
                    if quick && d > 0 && (i + j + o) % 5 != 0 {
                        continue;
                    }
                    cur.push(Ex::Bin(o, Box::new(a.clone()), Box::new(b.clone())));
                    if d > 0 {
                        cur.push(Ex::Bin(o, Box::new(b.clone()), Box::new(a.clone())));
                    }
                }
            }
        }
    }
    cur
}
const KINDS: [AggregationKind; 4] = [AggregationKind::None, AggregationKind::Max, AggregationKind::Min, AggregationKind::Sum];
fn close(a: f64, b: f64, mag: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * mag.max(1.0)
}
fn want_agg(k: AggregationKind, sel: &[f64]) -> AggregationResult {
    match k {
        AggregationKind::None => AggregationResult::Array(sel.to_vec()),
        AggregationKind::Max => AggregationResult::Scalar(sel.iter().copied().fold(-INF, f64::max)),
        AggregationKind::Min => AggregationResult::Scalar(sel.iter().copied().fold(INF, f64::min)),
        AggregationKind::Sum => AggregationResult::Scalar(sel.iter().sum()),
    }
}
fn agg_same(got: &AggregationResult, want: &AggregationResult, mag: f64, exact: bool) -> bool {
    match (got, want) {
        (AggregationResult::Array(a), AggregationResult::Array(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
        }
        (AggregationResult::Scalar(a), AggregationResult::Scalar(b)) => {
            if exact {
                a == b || (a.is_nan() && b.is_nan())
            } else {
                close(*a, *b, mag)
            }
        }
        _ => false,
    }
}

struct Table {
    cols: Vec<Vec<f64>>,
    d: Vec<Dec>,
}
fn table(s: &[Sch], opt: ChunkOption, n: usize) -> Result<Table, Fail> {
    let mut t = Table { cols: vec![], d: vec![] };
    for (c, &s) in s.iter().enumerate() {
        let v: Vec<f64> = (0..n).map(|i| dec([25, -150, 300][c] * ((i as i64 * 7 + c as i64) % 5 - 1) + c as i64, 2)).collect();
        let mut d = open(encode(s, opt, &v)?)?;
        t.cols.push(materialize(&mut d, None, None)?);
        t.d.push(d);
    }
    Ok(t)
}

pub fn p10(cx: &Cx) {
    let ex: Vec<Ex> = exprs(2, cx.quick()).into_iter().filter(|e| e.supported()).collect();
    let sets: Vec<[Sch; 3]> = {
        let a = all_schemes();
        let mut v: Vec<[Sch; 3]> = a.iter().map(|&s| [s, s, s]).collect();
        for i in 0..a.len() {
            v.push([a[i], a[(i + 1) % a.len()], a[(i + 5) % a.len()]]);
        }
        v
    };
    let opts = [ChunkOption::Full, ChunkOption::RecordCount(3), ChunkOption::RecordCount(1), ChunkOption::ByteSizeBestEffort(24)];
    let ns = [0usize, 1, 5, 6, 7];
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let s = sets[g.take(sets.len())];
        let o = opts[g.take(4)];
        (s, o, ns[g.0 as usize])
    };
    cx.run_desc(
        "exprs",
        &format!("{} supported expressions of depth <= 2 over 3 columns and 2 literals x 4 aggregations x {} column scheme combinations x 4 chunk options x 5 record counts x 7 masks (none, empty, all, parity, one record, one chunk only, past the end): single and batched evaluation", ex.len(), sets.len()),
        (sets.len() * 4 * ns.len()) as u64,
        |c| {
            let (s, o, n) = d1(c);
            let mut t = table(&s, o, n)?;
            cx.state(mix(hash_f(&t.cols[0]), c));
            let mut ms: Vec<Option<RoaringBitmap>> = vec![None, Some(RoaringBitmap::new())];
            ms.push(Some((0..n as u32).collect()));
            ms.push(Some((0..n as u32).step_by(2).collect()));
            ms.push(Some((0..n as u32).skip(n / 2).take(1).collect()));
            ms.push(Some((3..6u32).collect()));
            ms.push(Some((n as u32 / 2..n as u32 + 9).collect()));
            for (k, m) in ms.iter().enumerate() {
                let rows: Vec<Vec<f64>> = (0..n)
                    .filter(|i| m.as_ref().is_none_or(|m| m.contains(*i as u32)))
                    .map(|i| (0..3).map(|c| t.cols[c][i]).collect())
                    .collect();
                let stride = if cx.quick() { 3 } else { 1 };
                let mut batch = vec![];
                let mut wants = vec![];
                for (ei, e) in ex.iter().enumerate() {
                    if ei > 30 && (ei + k) % stride != 0 {
                        continue;
                    }
                    let sel: Vec<f64> = rows.iter().map(|r| e.eval(r)).collect();
                    let mag: f64 = sel.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
                    for (ki, &kind) in KINDS.iter().enumerate() {
                        let w = want_agg(kind, &sel);
                        let exact = ki != 3;
                        if (ei + k + ki) % 7 == 0 || ei < 3 {
                            let mut tm = SegmentedExecutionTimes::new();
                            let g = call("Aggregation::compute", || Aggregation::new(kind, e.to()).compute(&mut t.d, m.as_ref(), &mut tm))?;
                            cx.step(1);
                            ensure!(
                                agg_same(&g, &w, mag, exact),
                                "{s:?} {o:?} n={n} mask {m:?} {kind:?} of {e:?}: got {g:?} want {w:?}; columns {:?}",
                                t.cols
                            );
                        }
                        batch.push(Aggregation::new(kind, e.to()));
                        wants.push((kind, e, w, mag, exact));
                    }
                }
                // batches of several aggregations at once
                let mut tm = SegmentedExecutionTimes::new();
                let g = call("Aggregation::compute_multiple", || Aggregation::compute_multiple(&batch, &mut t.d, m.as_ref(), &mut tm))?;
                ensure!(g.len() == wants.len(), "compute_multiple returned {} results for {}", g.len(), wants.len());
                cx.step(wants.len() as u64);
                for (g, (kind, e, w, mag, exact)) in g.iter().zip(&wants) {
                    ensure!(
                        agg_same(g, w, *mag, *exact),
                        "{s:?} {o:?} n={n} mask {m:?} batched {kind:?} of {e:?}: got {g:?} want {w:?}; columns {:?}",
                        t.cols
                    );
                }
            }
            Ok(())
        },
        |c| format!("{:?}", d1(c)),
    );
    // unsupported shapes are refused, not answered
    let bad: Vec<Ex> = exprs(2, true).into_iter().filter(|e| !e.supported()).collect();
    cx.run_desc(
        "refused",
        &format!("{} expressions without a column on some operand pair: always an error", bad.len()),
        bad.len() as u64,
        |c| {
            let e = &bad[c as usize];
            let mut t = table(&[Sch::Unc, Sch::Unc, Sch::Unc], ChunkOption::RecordCount(2), 3)?;
            let mut tm = SegmentedExecutionTimes::new();
            let g = guard(|| Aggregation::sum(e.to()).compute(&mut t.d, None, &mut tm).map_err(|x| format!("{x:?}")));
            cx.step(1);
            match g {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(g)) => bail!("{e:?} evaluated to {g:?}"),
                Err(p) => bail!("{e:?} panicked: {p}"),
            }
        },
        |c| format!("{:?}", bad[c as usize]),
    );
    // what an expression says of itself, the named aggregations, and combining partial results
    let every = exprs(2, cx.quick());
    cx.run_desc(
        "helpers",
        &format!("{} expressions: the greatest column they use; named constructors equal Aggregation::new; partial results of all splits of 4 values combine to the whole", every.len()),
        every.len() as u64,
        |c| {
            let e = &every[c as usize];
            let g = e.to().max_chunk_reader_index();
            ensure!(g == e.cols().checked_sub(1), "{e:?} uses columns below {}, reported {g:?}", e.cols());
            ensure!(e.to().literal() == if let Ex::Lit(v) = e { Some(*v) } else { None }, "{e:?}: literal {:?}", e.to().literal());
            cx.step(1);
            cx.state(c);
            if e.supported() {
                let mut t = table(&[Sch::Rle, Sch::Gor, Sch::Unc], ChunkOption::RecordCount(2), 5)?;
                let sel: Vec<f64> = (0..5).map(|i| e.eval(&[t.cols[0][i], t.cols[1][i], t.cols[2][i]])).collect();
                let mag: f64 = sel.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
                for (ki, kind) in KINDS.into_iter().enumerate() {
                    let a = [Aggregation::none, Aggregation::max, Aggregation::min, Aggregation::sum][ki](e.to());
                    let mut tm = SegmentedExecutionTimes::new();
                    let g = call("Aggregation::compute", || a.compute(&mut t.d, None, &mut tm))?;
                    let w = want_agg(kind, &sel);
                    ensure!(agg_same(&g, &w, mag, ki != 3), "{kind:?} of {e:?}: got {g:?} want {w:?}");
                    for cut in 0..=sel.len() {
                        let mut r = AggregationResult::zero(kind);
                        for part in [&sel[..cut], &sel[cut..]] {
                            let x = call("dispatch_on_vec", || kind.dispatch_on_vec(part.to_vec()))?;
                            call("concat", || r.concat(x, kind))?;
                        }
                        ensure!(agg_same(&r, &w, mag, ki != 3), "{kind:?} of {sel:?} split at {cut}: got {r:?} want {w:?}");
                        ensure!(r.scalar().map(f64::to_bits) == if let AggregationResult::Scalar(x) = &r { Some(x.to_bits()) } else { None }, "{r:?}: scalar {:?}", r.scalar());
                    }
                }
            }
            Ok(())
        },
        |c| format!("{:?}", every[c as usize]),
    );
    // many records in a chunk
    let longs: Vec<Ex> = ex.iter().filter(|e| matches!(e, Ex::Col(_)) || matches!(e, Ex::Bin(..))).step_by(cx.pick(23, 5) as usize).cloned().collect();
    let lns = [1023usize, 1024, 1025, 3000];
    let lopts = [ChunkOption::Full, ChunkOption::RecordCount(1000), ChunkOption::ByteSizeBestEffort(4096)];
    cx.run_desc(
        "long",
        &format!("{} expressions x 4 aggregations x {} scheme combinations x {lopts:?} x {lns:?} records x 3 masks", longs.len(), sets.len()),
        (sets.len() * 12) as u64,
        |c| {
            let mut g = Dig(c);
            let (s, o, n) = (sets[g.take(sets.len())], lopts[g.take(3)], lns[g.take(4)]);
            let mut t = table(&s, o, n)?;
            for m in [None, Some((0..n as u32).step_by(3).collect::<RoaringBitmap>()), Some((990..1030u32).collect())] {
                let idx: Vec<usize> = (0..n).filter(|i| m.as_ref().is_none_or(|m| m.contains(*i as u32))).collect();
                let batch: Vec<Aggregation> = longs.iter().flat_map(|e| KINDS.map(|k| Aggregation::new(k, e.to()))).collect();
                let mut tm = SegmentedExecutionTimes::new();
                let got = call("Aggregation::compute_multiple", || Aggregation::compute_multiple(&batch, &mut t.d, m.as_ref(), &mut tm))?;
                ensure!(got.len() == batch.len(), "{} results", got.len());
                cx.step(got.len() as u64);
                for (k, g) in got.iter().enumerate() {
                    let (e, kind) = (&longs[k / 4], KINDS[k % 4]);
                    let sel: Vec<f64> = idx.iter().map(|&i| e.eval(&[t.cols[0][i], t.cols[1][i], t.cols[2][i]])).collect();
                    let mag: f64 = sel.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
                    let w = want_agg(kind, &sel);
                    ensure!(agg_same(g, &w, mag, k % 4 != 3), "{s:?} {o:?} n={n} {kind:?} of {e:?} over {} records: got {g:?} want {w:?}", idx.len());
                }
            }
            cx.state(c);
            Ok(())
        },
        |c| format!("{c}"),
    );
    // and beyond 2^16
    let few: Vec<Ex> = longs.iter().step_by(cx.pick(longs.len() / 4, 3)).cloned().collect();
    let vopts = [ChunkOption::Full, ChunkOption::RecordCount(65537), ChunkOption::RecordCount(9000)];
    cx.run_desc(
        "very-long",
        &format!("{} expressions x 4 aggregations x {} scheme combinations x {vopts:?} x 70000 and 132000 records x 3 masks", few.len(), sets.len()),
        (sets.len() * 6) as u64,
        |c| {
            let mut g = Dig(c);
            let (s, o, n) = (sets[g.take(sets.len())], vopts[g.take(3)], [70_000usize, 132_000][g.take(2)]);
            let mut t = table(&s, o, n)?;
            for m in [None, Some((1..n as u32).step_by(7).collect::<RoaringBitmap>()), Some((65_530..65_545u32).chain(n as u32 - 1..n as u32).collect())] {
                let idx: Vec<usize> = (0..n).filter(|i| m.as_ref().is_none_or(|m| m.contains(*i as u32))).collect();
                let batch: Vec<Aggregation> = few.iter().flat_map(|e| KINDS.map(|k| Aggregation::new(k, e.to()))).collect();
                let mut tm = SegmentedExecutionTimes::new();
                let got = call("Aggregation::compute_multiple", || Aggregation::compute_multiple(&batch, &mut t.d, m.as_ref(), &mut tm))?;
                ensure!(got.len() == batch.len(), "{} results", got.len());
                cx.step(got.len() as u64);
                for (k, g) in got.iter().enumerate() {
                    let (e, kind) = (&few[k / 4], KINDS[k % 4]);
                    let sel: Vec<f64> = idx.iter().map(|&i| e.eval(&[t.cols[0][i], t.cols[1][i], t.cols[2][i]])).collect();
                    let mag: f64 = sel.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
                    let w = want_agg(kind, &sel);
                    ensure!(agg_same(g, &w, mag, k % 4 != 3), "{s:?} {o:?} n={n} {kind:?} of {e:?} over {} records is wrong", idx.len());
                }
            }
            cx.state(mix(c, 99));
            Ok(())
        },
        |c| format!("{c}"),
    );
    // columns that are chunked differently must never be combined record by record in the wrong way
    let layouts = [
        ChunkOption::Full,
        ChunkOption::RecordCount(1),
        ChunkOption::RecordCount(2),
        ChunkOption::RecordCount(3),
        ChunkOption::RecordCount(4),
        ChunkOption::RecordCount(6),
    ];
    cx.run_desc(
        "layouts",
        "two columns with every pair of 6 chunk layouts x lengths 1..=7 and 1..=7 x 4 masks: the result is right or refused",
        36 * 49,
        |c| {
            let mut g = Dig(c);
            let (a, b) = (layouts[g.take(6)], layouts[g.take(6)]);
            let (n, m) = (g.take(7) + 1, g.take(7) + 1);
            let v: Vec<f64> = (0..n).map(|i| i as f64 + 1.0).collect();
            let w: Vec<f64> = (0..m).map(|i| 100.0 * (i as f64 + 1.0)).collect();
            for mask in [None, Some((0..8u32).step_by(2).collect::<RoaringBitmap>()), Some((0..1u32).collect()), Some((2..4u32).collect())] {
                let mut d = vec![open(encode(Sch::Unc, a, &v)?)?, open(encode(Sch::Rle, b, &w)?)?];
                let e = Expr::Binary { op: Op::Add, lhs: Box::new(Expr::Index(0)), rhs: Box::new(Expr::Index(1)) };
                for batched in [false, true] {
                    let mut tm = SegmentedExecutionTimes::new();
                    let g = guard(|| {
                        let ag = [Aggregation::none(e.clone())];
                        if batched {
                            Aggregation::compute_multiple(&ag, &mut d, mask.as_ref(), &mut tm).map(|mut v| v.remove(0)).map_err(|x| format!("{x:?}"))
                        } else {
                            ag[0].compute(&mut d, mask.as_ref(), &mut tm).map_err(|x| format!("{x:?}"))
                        }
                    });
                    cx.step(1);
                    match g {
                        Ok(Err(_)) if a != b || n != m => {}
                        Ok(Ok(g)) => {
                            let want: Vec<f64> = (0..n.max(m))
                                .filter(|i| mask.as_ref().is_none_or(|m| m.contains(*i as u32)))
                                .filter(|i| *i < n && *i < m)
                                .map(|i| v[i] + w[i])
                                .collect();
                            let ok = g == AggregationResult::Array(want.clone());
                            ensure!(ok && n == m, "layouts {a:?} x {n} and {b:?} x {m}, mask {mask:?}, batched {batched}: got {g:?}, records pair up as {want:?}");
                        }
                        Ok(Err(e)) => bail!("equal layouts refused: {e}"),
                        Err(p) => bail!("layouts {a:?} x {n} and {b:?} x {m}, mask {mask:?}, batched {batched}: panicked: {p}"),
                    }
                }
            }
            Ok(())
        },
        |c| format!("case {c}"),
    );
}

// ---------------------------------------------------------------- P11
fn knn_check(cx: &Cx, s: Sch, o: ChunkOption, v: &[f64], t: &[f64]) -> Case {
    let b = encode(s, o, v)?;
    cx.state(mix(hash64(&b[..b.len().min(2048)]), hash_f(t)));
    let mut d = open(b)?;
    let vals = materialize(&mut d, None, None)?;
    let r = call("knn1", || d.knn1(t))?;
    cx.step(1);
    let dist: Vec<f64> = vals.chunks_exact(t.len()).map(|w| w.iter().zip(t).map(|(a, b)| (a - b) * (a - b)).sum()).collect();
    let best = dist.iter().copied().fold(INF, f64::min);
    let ctx = || format!("{s:?} {o:?} data {} target {t:?}: got {r:?}, distances {:?}", show(v), &dist[..dist.len().min(12)]);
    if dist.is_empty() {
        ensure!(r.distance == INF && r.index >= vals.len().max(1), "{}: a neighbour although there is no complete vector", ctx());
        return Ok(());
    }
    ensure!(close(r.distance, best, best), "{}", ctx());
    ensure!(r.index < dist.len() && close(dist[r.index], best, best), "{}", ctx());
    Ok(())
}

pub fn p11(cx: &Cx) {
    let sch = all_schemes();
    let mut opts = vec![ChunkOption::Full, ChunkOption::ByteSizeBestEffort(24)];
    for k in 1..=7 {
        opts.push(ChunkOption::RecordCount(k));
    }
    let l = cx.pick(6, 8);
    // all binary-valued data x all target lengths x chunkings, uncompressed; then schemes
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let o = opts[g.take(opts.len())];
        let tl = g.take(4) + 1;
        let t: Vec<f64> = (0..tl).map(|_| [0.0, 3.0][g.take(2)]).collect();
        // the target uses tl binary digits; the rest numbers the data
        for _ in tl..4 {
            g.take(2);
        }
        let v: Vec<f64> = nth_seq(3, 0, l, g.0).iter().map(|&i| [0.0, 3.0, -2.0][i]).collect();
        (o, t, v)
    };
    cx.run_desc(
        "small",
        &format!("every data sequence of length 0..={l} over 3 values x every target of length 1..=4 over 2 values x 9 chunkings (vectors falling on, across and over several chunks, trailing partial vector)"),
        n_seqs(3, 0, l) * (opts.len() * 4 * 16) as u64,
        |c| {
            let (o, t, v) = d1(c);
            knn_check(cx, Sch::Unc, o, &v, &t)
        },
        |c| format!("{:?}", d1(c)),
    );
    let ns = cx.pick(14, 40);
    let d2 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = opts[g.take(opts.len())];
        let n = g.take(ns);
        let tl = g.take(9) + 1;
        let v: Vec<f64> = (0..n).map(|i| dec((i as i64 * 37) % 23 * 25 - 200, 2)).collect();
        // the planted nearest vector
        let k = g.0 as usize;
        let mut t: Vec<f64> = (0..tl).map(|i| v.get(k * tl + i).copied().unwrap_or(1.25)).collect();
        t[tl - 1] += 0.25;
        (s, o, v, t)
    };
    cx.run_desc(
        "schemes",
        &format!("every scheme x 9 chunkings x record counts 0..{ns} x target lengths 1..=9 x 4 planted neighbour positions"),
        (sch.len() * opts.len() * ns * 9 * 4) as u64,
        |c| {
            let (s, o, v, t) = d2(c);
            knn_check(cx, s, o, &v, &t)
        },
        |c| format!("{:?}", d2(c)),
    );
    // long vectors and many of them, the nearest at every place that matters
    let tls = [1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097];
    let counts: Vec<usize> = vec![1, 2, 3, 4, 7, 17, 64, 65, 255, 256, 257, 300, 1000, 1030, 4100, 66000];
    let lopts = [
        ChunkOption::Full,
        ChunkOption::RecordCount(1000),
        ChunkOption::RecordCount(1024),
        ChunkOption::RecordCount(97),
        ChunkOption::ByteSizeBestEffort(8192),
    ];
    let limit = cx.pick(9000usize, 140000);
    let grid: Vec<(usize, usize)> = tls
        .iter()
        .flat_map(|&t| counts.iter().map(move |&n| (t, n)))
        .filter(|(t, n)| t * n <= limit.max(if *t == 1 { 66000 } else { 0 }))
        .collect();
    let d3 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = lopts[g.take(lopts.len())];
        (s, o, grid[g.0 as usize])
    };
    cx.run_desc(
        "long",
        &format!("every scheme x {lopts:?} x vectors of {tls:?} records x {counts:?} vectors (up to {limit} records): the nearest planted first, second, last but one, last and in the middle, differing from the target in its first, middle or last record only, with and without a trailing partial vector"),
        (sch.len() * lopts.len() * grid.len()) as u64,
        |c| {
            let (s, o, (tl, n)) = d3(c);
            let extra = if c % 2 == 0 { 0 } else { tl / 2 };
            let v: Vec<f64> = (0..n * tl + extra).map(|i| dec((i as i64 * 7919) % 2003 - 1000, 2)).collect();
            let b = encode(s, o, &v)?;
            cx.state(mix(hash64(&b[..b.len().min(2048)]), (n * 5000 + tl) as u64));
            let mut d = open(b)?;
            let vals = materialize(&mut d, None, None)?;
            let mut at = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
            at.retain(|&k| k < n);
            at.sort();
            at.dedup();
            if n > 5000 {
                at = vec![n - 1];
            }
            for k in at {
                for w in 0..3 {
                    let mut t = v[k * tl..(k + 1) * tl].to_vec();
                    t[[0, tl / 2, tl - 1][w]] += 0.25;
                    let r = call("knn1", || d.knn1(&t))?;
                    cx.step(1);
                    let dist: Vec<f64> = vals.chunks_exact(tl).map(|w| w.iter().zip(&t).map(|(a, b)| (a - b) * (a - b)).sum()).collect();
                    let best = dist.iter().copied().fold(INF, f64::min);
                    ensure!(
                        close(r.distance, best, best.max(1.0)) && r.index < n && close(dist[r.index], best, best.max(1.0)),
                        "{s:?} {o:?} {n} vectors of {tl}, target next to vector {k}: got {r:?}, smallest distance {best}"
                    );
                }
            }
            Ok(())
        },
        |c| format!("{:?}", d3(c)),
    );
    cx.run_desc(
        "empty-target",
        "an empty target on every scheme and chunking: an error, never a hang or a panic",
        (sch.len() * opts.len()) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let o = opts[g.0 as usize];
            let mut d = open(encode(s, o, &[1.0, 2.0, 3.0])?)?;
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let r = guard(|| d.knn1(&[]).map_err(|e| format!("{e:?}")));
                let _ = tx.send(r);
            });
            cx.step(1);
            match rx.recv_timeout(std::time::Duration::from_secs(10)) {
                Ok(Ok(Err(_))) => Ok(()),
                Ok(Ok(Ok(r))) => bail!("{s:?} {o:?}: nearest neighbour of an empty target is {r:?}"),
                Ok(Err(p)) => bail!("{s:?} {o:?}: panicked: {p}"),
                Err(_) => bail!("{s:?} {o:?}: knn1 with an empty target did not terminate"),
            }
        },
        |c| format!("case {c}"),
    );
}

// ---------------------------------------------------------------- P12
pub fn p12(cx: &Cx) {
    let sch = all_schemes();
    let mut opts = vec![ChunkOption::Full, ChunkOption::ByteSizeBestEffort(24)];
    for k in 1..=cx.pick(7, 20) {
        opts.push(ChunkOption::RecordCount(k));
    }
    let dim = cx.pick(3usize, 5);
    let nb = cx.pick(4usize, 6);
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = opts[g.take(opts.len())];
        let (r, k, n) = (g.take(dim) + 1, g.take(dim) + 1, g.take(dim) + 1);
        (s, o, r, k, n, g.0 as usize)
    };
    cx.run_desc(
        "shapes",
        &format!("every data shape and target shape up to {dim}x{dim} x batches 0..{nb} x {} chunkings (matrices and rows falling across chunk boundaries) x every scheme", opts.len()),
        (sch.len() * opts.len() * dim * dim * dim * nb) as u64,
        |c| {
            let (s, o, r, k, n, b) = d1(c);
            let v: Vec<f64> = (0..b * r * k).map(|i| dec((i as i64 * 37) % 19 * 25 - 200, 2)).collect();
            let t: Vec<f64> = (0..k * n).map(|i| ((i * 5) % 7) as f64 * 0.3 - 0.7).collect();
            let f = encode(s, o, &v)?;
            cx.state(mix(hash64(&f[..f.len().min(2048)]), (r * 100 + k * 10 + n) as u64));
            let mut d = open(f)?;
            let vals = materialize(&mut d, None, None)?;
            let g = call("matmul", || d.matmul(&t, (k, n), (r, k)))?;
            cx.step(1);
            let mut want = vec![];
            for m in vals.chunks_exact(r * k) {
                for row in m.chunks_exact(k) {
                    for j in 0..n {
                        want.push((0..k).map(|i| row[i] * t[j * k + i]).sum::<f64>());
                    }
                }
            }
            ensure!(
                g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| close(*a, *b, 100.0)),
                "{s:?} {o:?} data {r}x{k} x {b}, target {k}x{n}: got {} want {}",
                show(&g),
                show(&want)
            );
            Ok(())
        },
        |c| format!("{:?}", d1(c)),
    );
    let dims = [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65];
    let mut shapes: Vec<(usize, usize, usize)> = vec![];
    for &r in &dims {
        for &k in &dims {
            for &n in &dims {
                // every pair of dimensions with the third small
                if [r, k, n].iter().filter(|x| **x > 3).count() <= cx.pick(2, 3) && r * k * n <= cx.pick(4000, 40000) {
                    shapes.push((r, k, n));
                }
            }
        }
    }
    for x in [100usize, 128, 129, 256, 257, 1024, 1025] {
        shapes.extend([(x, 3, 2), (3, x, 2), (2, 3, x), (1, x, 1), (x, 1, 1), (1, 1, x)]);
    }
    let lopts = [ChunkOption::Full, ChunkOption::RecordCount(1000), ChunkOption::RecordCount(50), ChunkOption::ByteSizeBestEffort(1024)];
    let lb = [1usize, 3, 17];
    let d3 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let i = g.take(shapes.len());
        (s, lopts[i % 4], shapes[i], lb[g.0 as usize])
    };
    cx.run_desc(
        "long",
        &format!("{} shapes with dimensions up to 1025 (each pair of dimensions out of {dims:?}) x batches {lb:?} x every scheme, chunkings {lopts:?} in turn", shapes.len()),
        (sch.len() * shapes.len() * lb.len()) as u64,
        |c| {
            let (s, o, (r, k, n), b) = d3(c);
            let v: Vec<f64> = (0..b * r * k).map(|i| dec((i as i64 * 37) % 1009 * 25 - 9000, 2)).collect();
            let t: Vec<f64> = (0..k * n).map(|i| ((i * 5) % 23) as f64 * 0.3 - 2.1).collect();
            let f = encode(s, o, &v)?;
            cx.state(mix(hash64(&f[..f.len().min(2048)]), (r * 1_000_000 + k * 1000 + n) as u64));
            let mut d = open(f)?;
            let vals = materialize(&mut d, None, None)?;
            let g = call("matmul", || d.matmul(&t, (k, n), (r, k)))?;
            cx.step(1);
            ensure!(g.len() == b * r * n, "{s:?} {o:?} data {r}x{k} x {b}, target {k}x{n}: {} results", g.len());
            for (i, row) in vals.chunks_exact(k).enumerate() {
                for j in 0..n {
                    let w: f64 = (0..k).map(|x| row[x] * t[j * k + x]).sum();
                    ensure!(
                        close(g[i * n + j], w, 1000.0 * k as f64),
                        "{s:?} {o:?} data {r}x{k} x {b}, target {k}x{n}: row {i} of all, column {j}: got {} want {w}",
                        g[i * n + j]
                    );
                }
            }
            Ok(())
        },
        |c| format!("{:?}", d3(c)),
    );
    cx.run_desc(
        "misfit",
        "every combination of target shape, data shape (0..=3 each), target length and record count that does not fit: an error, never a panic or a made-up product",
        (4 * 4 * 4 * 4 * 13 * 10) as u64,
        |c| {
            let mut g = Dig(c);
            let (tr, tc, dr, dc) = (g.take(4), g.take(4), g.take(4), g.take(4));
            let tl = g.take(10);
            let n = g.0 as usize;
            let fits = tr == dc && tl == tr * tc && dr * dc > 0 && n % (dr * dc) == 0;
            if fits {
                return Ok(());
            }
            let v: Vec<f64> = (0..n).map(|i| i as f64).collect();
            let mut d = open(encode(Sch::Unc, ChunkOption::RecordCount(5), &v)?)?;
            let r = guard(|| d.matmul(&vec![1.0; tl], (tr, tc), (dr, dc)).map_err(|e| format!("{e:?}")));
            cx.step(1);
            match r {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(r)) => {
                    // an empty product of nothing is harmless
                    if r.is_empty() {
                        return Ok(());
                    }
                    bail!("{n} records as {dr}x{dc} times {tr}x{tc} given as {tl} numbers: answered {} numbers", r.len())
                }
                Err(p) => bail!("{n} records as {dr}x{dc} times {tr}x{tc} given as {tl} numbers: panicked: {p}"),
            }
        },
        |c| {
            let mut g = Dig(c);
            format!("{:?}", (g.take(4), g.take(4), g.take(4), g.take(4), g.take(10), g.0))
        },
    );
    // products of dimensions beyond the machine word: never a shape that fits
    let big: [usize; 12] = [0, 1, 2, 3, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63, (1 << 63) + 1, (1 << 63) + 2, usize::MAX];
    let d4 = |c: u64| {
        let mut g = Dig(c);
        let (tr, tc, dr, dc) = (big[g.take(12)], big[g.take(12)], big[g.take(12)], big[g.take(12)]);
        (tr, tc, dr, dc, g.take(5), [0usize, 1, 2, 4, 6][g.0 as usize])
    };
    cx.run_desc(
        "huge",
        &format!("every combination of target and data shape with dimensions out of {big:?}, target lengths 0..=4 and 0, 1, 2, 4 or 6 records: refused unless the shapes really fit, never a panic"),
        12 * 12 * 12 * 12 * 5 * 5,
        |c| {
            let (tr, tc, dr, dc, tl, n) = d4(c);
            // shapes that already disagree by themselves are covered by `misfit`
            if tr != dc {
                return Ok(());
            }
            let (dm, tm) = (dr as u128 * dc as u128, tr as u128 * tc as u128);
            let fits = tl as u128 == tm && dm > 0 && n as u128 % dm == 0;
            let v: Vec<f64> = (0..n).map(|i| i as f64).collect();
            let mut d = open(encode(Sch::Unc, ChunkOption::RecordCount(5), &v)?)?;
            let r = guard(|| d.matmul(&vec![1.0; tl], (tr, tc), (dr, dc)).map_err(|e| format!("{e:?}")));
            cx.step(1);
            let want = if fits { (n as u128 / dm) as usize * dr * tc } else { 0 };
            match r {
                Err(p) => bail!("{n} records as {dr}x{dc} times {tr}x{tc} given as {tl} numbers: panicked: {p}"),
                // a batch of no matrices of an impossible size may be refused
                Ok(Err(e)) => ensure!(!fits || dm > usize::MAX as u128, "{n} records as {dr}x{dc} times {tr}x{tc} given as {tl} numbers: refused with {e}"),
                Ok(Ok(r)) => ensure!(r.len() == want, "{n} records as {dr}x{dc} times {tr}x{tc} given as {tl} numbers: answered {} numbers", r.len()),
            }
            Ok(())
        },
        |c| format!("{:?}", d4(c)),
    );
}

// ---------------------------------------------------------------- P33
pub fn p33(cx: &Cx) {
    let sch = all_schemes();
    let nmax = cx.pick(6usize, 17);
    // what a chunk holds, what is asked for, and the answer of the definition
    let check = |s: Sch, o: ChunkOption, v: &[f64], ch: usize, off: usize, t: &[f64], order: usize| -> Result<(), Fail> {
        let mut d = open(encode(s, o, v)?)?;
        let vals = materialize(&mut d, None, Some(ch))?;
        let mut r = call("chunk_reader", || d.chunk_reader(ChunkId::new(ch)))?;
        let part = &vals[off.min(vals.len())..];
        let k = part.len().min(t.len());
        let dist: f64 = part.iter().zip(t).map(|(a, b)| (a - b) * (a - b)).sum();
        let dot: f64 = part.iter().zip(t).map(|(a, b)| a * b).sum();
        let mag: f64 = part.iter().zip(t).map(|(a, b)| a.abs().max(b.abs()).powi(2)).sum::<f64>() + 1.0;
        // both orders, and each asked again
        for i in 0..3 {
            let (got, want, what) = if (i + order) % 2 == 0 {
                (call("distance_squared", || r.distance_squared(off, t))?, dist, "squared distance")
            } else {
                (call("dot_product", || r.dot_product(off, t))?, dot, "dot product")
            };
            cx.step(1);
            ensure!(
                (got - want).abs() <= 1e-9 * mag,
                "{s:?} {o:?}: {what} of {} numbers with chunk {ch} of {} records from {off} on ({k} in common): got {got} want {want}",
                t.len(),
                vals.len()
            );
        }
        Ok(())
    };
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let n = g.take(nmax) + 1;
        let ch = g.take(3);
        let off = g.take(nmax + 3);
        let tl = g.take(nmax + 3);
        (s, n, ch, if off == nmax + 2 { usize::MAX } else { off }, tl, g.0 as usize)
    };
    cx.run_desc(
        "parts",
        &format!("every chunk size 1..={nmax} x first, middle and short last chunk x every offset within, at and beyond the end x target lengths 0..={} x 2 orders of asking x every scheme", nmax + 2),
        (sch.len() * nmax * 3 * (nmax + 3) * (nmax + 3) * 2) as u64,
        |c| {
            let (s, n, ch, off, tl, order) = d1(c);
            let v: Vec<f64> = (0..2 * n + n.div_ceil(2)).map(|i| dec((i as i64 * 37) % 19 * 25 - 200, 2)).collect();
            let t: Vec<f64> = (0..tl).map(|i| ((i * 5) % 7) as f64 * 0.3 - 1.1).collect();
            cx.state(mix(c, 1));
            check(s, ChunkOption::RecordCount(n), &v, ch, off, &t, order)
        },
        |c| format!("{:?}", d1(c)),
    );
    // sizes around vector widths and buffer sizes
    let szs = [1usize, 7, 8, 9, 31, 32, 33, 255, 256, 257, 1000, 1023, 1024, 1025, 4097, 9001];
    let tls = [0usize, 1, 3, 4, 5, 8, 16, 17, 64, 255, 256, 257, 1024, 1025, 10000];
    let d2 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let n = szs[g.take(szs.len())];
        let tl = tls[g.take(tls.len())];
        let o = g.take(9);
        let off = [0, 1, 3, 8, n / 2, n - 1, n, n + 1, n.saturating_sub(tl)][o];
        (s, n, tl, off, g.0 as usize)
    };
    cx.run_desc(
        "long",
        &format!("chunk sizes {szs:?} x target lengths {tls:?} x 9 offsets from either end and the middle x 2 chunks x every scheme"),
        (sch.len() * szs.len() * tls.len() * 9 * 2) as u64,
        |c| {
            let (s, n, tl, off, ch) = d2(c);
            let v: Vec<f64> = (0..n + n / 2 + 1).map(|i| dec((i as i64 * 7919) % 2003 * 7 - 5000, 2)).collect();
            let t: Vec<f64> = (0..tl).map(|i| ((i * 31) % 97) as f64 * 0.3 - 10.1).collect();
            cx.state(mix(c, 2));
            check(s, ChunkOption::RecordCount(n), &v, ch, off, &t, off % 2)
        },
        |c| format!("{:?}", d2(c)),
    );
}

// ---------------------------------------------------------------- P13
#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Mat,
    MatMask,
    Filter,
    FilterEq,
    FilterMask,
    FilterMat,
    Sum,
    SumMask,
    Min,
    MinMask,
    Max,
    MaxMask,
    Dist,
    Dot,
    Decomp,
    Iter,
    IterPart(usize),
    /// the decompressed values put in by the caller, as another reader of the chunk got them
    PutIn,
    /// the values a reader keeps, if it keeps any
    Kept,
}
const QS: [Q; 20] = [
    Q::PutIn,
    Q::Kept,
    Q::Mat,
    Q::MatMask,
    Q::Filter,
    Q::FilterEq,
    Q::FilterMask,
    Q::FilterMat,
    Q::Sum,
    Q::SumMask,
    Q::Min,
    Q::MinMask,
    Q::Max,
    Q::MaxMask,
    Q::Dist,
    Q::Dot,
    Q::Decomp,
    Q::Iter,
    Q::IterPart(1),
    Q::IterPart(3),
];
/// numeric outcome of an operation, for comparison with the reference
fn want_q(q: Q, vals: &[f64], orig: &[f64], off: usize, p: Pred, pe: Pred, m: &RoaringBitmap) -> Vec<f64> {
    let n = vals.len();
    let inm = |i: &usize| m.contains((off + *i) as u32);
    let idx = |f: &dyn Fn(usize) -> bool| -> Vec<f64> { (0..n).filter(|i| f(*i)).map(|i| (off + i) as f64).collect() };
    match q {
        Q::Mat | Q::Decomp | Q::Iter | Q::PutIn | Q::Kept => vals.to_vec(),
        Q::MatMask => (0..n).filter(inm).map(|i| vals[i]).collect(),
        Q::Filter => idx(&|i| p.holds(orig[i])),
        Q::FilterEq => idx(&|i| pe.holds(orig[i])),
        Q::FilterMask => idx(&|i| p.holds(orig[i]) && inm(&i)),
        Q::FilterMat => (0..n).filter(|i| p.holds(orig[*i])).map(|i| vals[i]).collect(),
        Q::Sum => vec![vals.iter().sum()],
        Q::SumMask => vec![(0..n).filter(inm).map(|i| vals[i]).sum()],
        Q::Min => vec![vals.iter().copied().fold(INF, f64::min)],
        Q::MinMask => vec![(0..n).filter(inm).map(|i| vals[i]).fold(INF, f64::min)],
        Q::Max => vec![vals.iter().copied().fold(-INF, f64::max)],
        Q::MaxMask => vec![(0..n).filter(inm).map(|i| vals[i]).fold(-INF, f64::max)],
        Q::Dist => vec![vals[1..].iter().zip([1.0, 2.0]).map(|(a, b)| (a - b) * (a - b)).sum()],
        Q::Dot => vec![vals[1..].iter().zip([1.0, 2.0]).map(|(a, b)| a * b).sum()],
        Q::IterPart(k) => vals[..k.min(n)].to_vec(),
    }
}
fn h_data(s: Sch, kind: usize) -> Vec<f64> {
    let p = s.prec().unwrap_or(2);
    match kind {
        0 => (0..9).map(|i| dec([125, -250, 125, 125, 400, 0, -25, 700, 125][i], p)).collect(),
        1 => vec![dec(125, p); 9],
        2 => (0..80).map(|i| dec((i * 37) % 71 * 25 - 300, p)).collect(),
        4 => (0..18_010).map(|i| dec((i * 37) % 7919 * 25 - 300, p)).collect(),
        _ => (0..9).map(|i| dec(1_000_000 - i * 333, p)).collect(),
    }
}

pub fn p13(cx: &Cx) {
    let mut sch = all_schemes();
    if cfg!(not(feature = "alp")) {
        sch.push(Sch::Buff(0));
    }
    for (part, depth, kinds) in [("chunk-reader", cx.pick(3u32, 4), &[0usize, 1, 2][..]), ("long", 2, &[4])] {
    let nk = kinds.len();
    let d1 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let k = kinds[g.take(nk)];
        let seq: Vec<Q> = nth_seq(QS.len() as u64, depth, depth, g.0).iter().map(|&i| QS[i]).collect();
        (s, k, seq)
    };
    cx.run_desc(
        part,
        &format!("every sequence of {depth} operations out of {} on one chunk reader x every scheme x {nk} data sets{}: each answer equals the reference regardless of what ran before", QS.len(), if part == "long" { " (chunks of 9004 records)" } else { "" }),
        (sch.len() * nk) as u64 * (QS.len() as u64).pow(depth),
        |c| {
            let (s, k, seq) = d1(c);
            let all = h_data(s, k);
            let n = all.len();
            let per = n / 2 - 1;
            // the reader under test sits on the second chunk, so offsets are not zero
            let b = encode(s, ChunkOption::RecordCount(per), &all)?;
            let mut d = open(b)?;
            let vals_all = materialize(&mut d, None, None)?;
            ensure!(same_data(s, &vals_all, &all), "{s:?} {}: materialized {}", show(&all), show(&vals_all));
            let off = per;
            let end = (2 * per).min(n);
            let (vals, orig) = (&vals_all[off..end], &all[off..end]);
            let m: RoaringBitmap = (0..n as u32).filter(|i| i % 3 != 1).collect();
            let p = Pred::Range(Bound::Inc(orig[0]), Bound::None);
            let pe = Pred::Eq(orig[1]);
            let mut r = call("chunk_reader", || d.chunk_reader(ChunkId::new(1)))?;
            let mut h = mix(k as u64, hash64(s.name().as_bytes()));
            let mag = vals.iter().map(|x| x.abs()).sum::<f64>().max(1e4);
            for (i, &q) in seq.iter().enumerate() {
                let w = want_q(q, vals, orig, off, p, pe, &m);
                let out = call(&format!("{s:?} data {k} history {:?} then {q:?}", &seq[..i]), || -> ebi::decoder::Result<Vec<f64>> {
                    let bits = |b: RoaringBitmap| b.iter().map(|x| x as f64).collect::<Vec<_>>();
                    let by = |b: Vec<u8>| f64s_of(&b).unwrap_or_default();
                    Ok(match q {
                        Q::Mat => {
                            let mut o = vec![];
                            r.materialize(&mut o, None)?;
                            by(o)
                        }
                        Q::MatMask => {
                            let mut o = vec![];
                            r.materialize(&mut o, Some(&m))?;
                            by(o)
                        }
                        Q::Filter => bits(r.filter(p.to(), None)?),
                        Q::FilterEq => bits(r.filter(pe.to(), None)?),
                        Q::FilterMask => bits(r.filter(p.to(), Some(&m))?),
                        Q::FilterMat => {
                            let mut o = vec![];
                            r.filter_materialize(&mut o, p.to(), None)?;
                            by(o)
                        }
                        Q::Sum => vec![r.sum(None)?],
                        Q::SumMask => vec![r.sum(Some(&m))?],
                        Q::Min => vec![r.min(None)?],
                        Q::MinMask => vec![r.min(Some(&m))?],
                        Q::Max => vec![r.max(None)?],
                        Q::MaxMask => vec![r.max(Some(&m))?],
                        Q::Dist => vec![r.distance_squared(1, &[1.0, 2.0])?],
                        Q::Dot => vec![r.dot_product(1, &[1.0, 2.0])?],
                        Q::Decomp => r.inner_mut().decompress(&mut SegmentedExecutionTimes::new())?.to_vec(),
                        Q::Iter => r.inner_mut().decompress_iter()?.collect::<ebi::decoder::Result<Vec<f64>>>()?,
                        Q::PutIn => {
                            let back = r.inner_mut().set_decompress_result(vals.to_vec()).to_vec();
                            match r.inner_mut().decompress_result() {
                                Some(v) if same_bits(v, vals) => back,
                                _ => vec![],
                            }
                        }
                        Q::Kept => r.inner_mut().decompress_result().map_or(vals.to_vec(), |v| v.to_vec()),
                        Q::IterPart(k) => r.inner_mut().decompress_iter()?.take(k).collect::<ebi::decoder::Result<Vec<f64>>>()?,
                    })
                })?;
                cx.step(1);
                h = mix(h, q_id(q));
                cx.state(h);
                let tol = matches!(q, Q::Sum | Q::SumMask | Q::Dist | Q::Dot);
                let ok = out.len() == w.len() && out.iter().zip(&w).all(|(a, b)| if tol { close(*a, *b, mag) } else { a == b });
                ensure!(ok, "{s:?} data {} history {:?} then {q:?}: got {} want {}", show(&all), &seq[..i], show(&out), show(&w));
            }
            Ok(())
        },
        |c| format!("{:?}", d1(c)),
    );
    }
    // decoder-level histories, including chunk readers abandoned half way and failing calls
    let dd = cx.pick(3u32, 4);
    let nop = 10u64;
    let d2 = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        (s, nth_seq(nop, dd, dd, g.0))
    };
    cx.run_desc(
        "decoder",
        &format!("every sequence of {dd} operations out of {nop} on one decoder (queries on the file or one chunk, abandoned chunk readers, nearest neighbour, matrix product, refused calls) x every scheme: the last answer equals that of a fresh decoder"),
        sch.len() as u64 * nop.pow(dd),
        |c| {
            let (s, seq) = d2(c);
            let v = h_data(s, 2);
            let b = encode(s, ChunkOption::RecordCount(17), &v)?;
            let op = |d: &mut Dec, o: usize| -> Result<u64, Fail> {
                let id = |i| Some(ChunkId::new(i));
                let m: RoaringBitmap = (10..40u32).collect();
                Ok(match o {
                    0 => hash_f(&materialize(d, None, None)?),
                    1 => hash_f(&materialize(d, Some(&m), Some(2))?),
                    2 => {
                        let b = call("filter", || d.filter(Pred::Range(Bound::Exc(v[20]), Bound::None).to(), Some(&m), None))?;
                        hash_f(&b.iter().map(|x| x as f64).collect::<Vec<_>>())
                    }
                    3 => call("sum", || d.sum(None, id(1)))?.to_bits(),
                    4 => call("min", || d.min(Some(&m), None))?.to_bits(),
                    5 => call("max", || d.max(None, None))?.to_bits(),
                    6 => {
                        let r = call("knn1", || d.knn1(&v[21..24]))?;
                        mix(r.index as u64, r.distance.to_bits())
                    }
                    7 => hash_f(&call("matmul", || d.matmul(&[1.0, 2.0, 0.5, -1.0], (4, 1), (2, 4)))?),
                    8 => {
                        let mut r = call("chunk_reader", || d.chunk_reader(ChunkId::new(3)))?;
                        let x: Vec<f64> =
                            call("iter", || r.inner_mut().decompress_iter()?.take(5).collect::<ebi::decoder::Result<Vec<f64>>>())?;
                        hash_f(&x)
                    }
                    _ => {
                        // refused: shapes do not fit
                        let r = guard(|| d.matmul(&[1.0], (1, 1), (2, 4)).is_err());
                        if r != Ok(true) {
                            bail!("misfit not refused: {r:?}");
                        }
                        7
                    }
                })
            };
            let mut d = open(b.clone())?;
            let mut h = hash64(s.name().as_bytes());
            for (i, &o) in seq.iter().enumerate() {
                let got = op(&mut d, o)?;
                let mut f = open(b.clone())?;
                let want = op(&mut f, o)?;
                cx.step(2);
                h = mix(h, o as u64);
                cx.state(h);
                ensure!(got == want, "{s:?}: operation {o} after {:?} differs from a fresh decoder", &seq[..i]);
            }
            Ok(())
        },
        |c| format!("{:?}", d2(c)),
    );
}
fn q_id(q: Q) -> u64 {
    QS.iter().position(|x| *x == q).unwrap() as u64 + 1
}
