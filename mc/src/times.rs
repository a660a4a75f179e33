//! P32: the execution times reported for an operation, under a reader and a writer whose cost is known.
use crate::common::*;
use crate::fmt::{all_schemes, sample};
use crate::fw::*;
use crate::ensure;
use ebi::{
    api::{
        decoder::{Aggregation, AggregationKind, ChunkId, Expr, Decoder, DecoderInput, DecoderOutput},
        encoder::{Encoder, EncoderInput, EncoderOutput},
    },
    compressor::{Compressor, GenericCompressor},
    decoder::expr::Op,
    encoder::{ChunkOption, FileWriter},
    time::{SegmentKind, SegmentedExecutionTimes as Times},
};
use roaring::RoaringBitmap;
use std::cell::Cell;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::time::{Duration, Instant};

/// what the medium has cost so far
#[derive(Default)]
struct Meter {
    read: Cell<Duration>,
    write: Cell<Duration>,
    reads: Cell<u64>,
    writes: Cell<u64>,
}
impl Meter {
    fn take(&self) -> (Duration, Duration) {
        (self.read.take(), self.write.take())
    }
}
/// a medium on which every transfer inside `costly` takes time; at most `step` bytes per call
struct Slow<T> {
    inner: T,
    costly: std::ops::Range<u64>,
    pos: u64,
    step: usize,
    cost: Duration,
    m: Rc<Meter>,
}
impl<T> Slow<T> {
    fn new(inner: T, costly: std::ops::Range<u64>, step: usize, m: &Rc<Meter>) -> Self {
        Slow { inner, costly, pos: 0, step, cost: Duration::from_micros(20), m: m.clone() }
    }
    fn pay(&self, n: usize, read: bool) {
        if n == 0 || self.pos >= self.costly.end || self.pos + (n as u64) <= self.costly.start {
            return;
        }
        let t = Instant::now();
        while t.elapsed() < self.cost {
            std::hint::spin_loop();
        }
        let (c, k) = if read { (&self.m.read, &self.m.reads) } else { (&self.m.write, &self.m.writes) };
        c.set(c.get() + t.elapsed());
        k.set(k.get() + 1);
    }
}
impl<T: Read> Read for Slow<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step);
        let k = self.inner.read(&mut b[..n])?;
        self.pay(k, true);
        self.pos += k as u64;
        Ok(k)
    }
}
impl<T: Write> Write for Slow<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = self.inner.write(&b[..b.len().min(self.step)])?;
        self.pay(k, false);
        self.pos += k as u64;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}
impl<T: Seek> Seek for Slow<T> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = self.inner.seek(p)?;
        Ok(self.pos)
    }
}

fn segments(t: &Times) -> [Duration; 9] {
    [t.io_read(), t.io_write(), t.xor(), t.delta(), t.quantization(), t.bit_packing(), t.compare_insert(), t.sum(), t.decompression()]
}
fn total(t: &Times) -> Duration {
    segments(t).iter().sum()
}
fn work(t: &Times) -> Duration {
    segments(t)[2..].iter().sum()
}

/// the time figures of one call against what is known about it
fn judge(what: &str, t: &Times, wall: Duration, paid: (Duration, Duration)) -> Case {
    ensure!(total(t) <= wall, "{what}: the segments add up to {:?}, but the call took {wall:?}: {t:?}", total(t));
    ensure!(t.io_read() >= paid.0, "{what}: reading took {:?}, reported {:?}: {t:?}", paid.0, t.io_read());
    ensure!(t.io_write() >= paid.1, "{what}: writing took {:?}, reported {:?}: {t:?}", paid.1, t.io_write());
    Ok(())
}

type SlowDec = Decoder<Slow<Cursor<Vec<u8>>>>;
fn slow_open(file: Vec<u8>, step: usize, m: &Rc<Meter>) -> Result<SlowDec, Fail> {
    let d = open(file.clone())?;
    let footer = d.header().footer_offset();
    let start = d.chunk_footers().first().map_or(footer, |c| c.physical_offset());
    call("open", || Decoder::new(DecoderInput::from_reader(Slow::new(Cursor::new(file), start..footer, step, m))))
}

/// what an operation does with the records it touches
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Write,
    Compare,
    Sum,
    /// touches no record at all
    Nothing,
}
/// every operation of a decoder, with the masks and chunks that make it touch all, some or no chunks
const OPS: [(&str, Kind); 18] = [
    ("materialize", Kind::Write),
    ("materialize the last record", Kind::Write),
    ("materialize nothing", Kind::Nothing),
    ("materialize the last chunk", Kind::Write),
    ("filter", Kind::Compare),
    ("filter the last record", Kind::Compare),
    ("filter_materialize", Kind::Write),
    ("filter_materialize nothing", Kind::Nothing),
    ("sum", Kind::Sum),
    ("min", Kind::Compare),
    ("max", Kind::Compare),
    ("knn1", Kind::Sum),
    ("matmul", Kind::Sum),
    ("sum of nothing", Kind::Nothing),
    ("matmul refused", Kind::Nothing),
    ("filter nothing", Kind::Nothing),
    ("sum of the last record", Kind::Sum),
    ("min of the last record", Kind::Compare),
];
/// false: the call was refused
fn op(d: &mut SlowDec, k: usize, v: &[f64], m: &Rc<Meter>, step: usize) -> Result<bool, Fail> {
    let n = v.len();
    let mut last = RoaringBitmap::new();
    if n > 0 {
        last.insert(n as u32 - 1);
    }
    let none = RoaringBitmap::new();
    let p = Pred::Range(Bound::Inc(v.first().copied().unwrap_or(0.0)), Bound::None).to();
    let last_chunk = d.chunk_footers().len().checked_sub(1);
    let mut out = DecoderOutput::from_writer(Slow::new(vec![], 0..u64::MAX, step, m));
    let name = OPS[k].0;
    match k {
        0 => call(name, || d.materialize(&mut out, None, None)),
        1 => call(name, || d.materialize(&mut out, Some(&last), None)),
        2 => call(name, || d.materialize(&mut out, Some(&none), None)),
        3 => call(name, || d.materialize(&mut out, None, last_chunk.map(ChunkId::new))),
        4 => call(name, || d.filter(p, None, None).map(|_| ())),
        5 => call(name, || d.filter(p, Some(&last), None).map(|_| ())),
        6 => call(name, || d.filter_materialize(&mut out, p, None, None)),
        7 => call(name, || d.filter_materialize(&mut out, p, Some(&none), None)),
        8 => call(name, || d.sum(None, None).map(|_| ())),
        // there is no minimum, maximum or neighbour among no records
        9 => return Ok(guard(|| d.min(None, None)).is_ok_and(|r| r.is_ok())),
        10 => return Ok(guard(|| d.max(None, None)).is_ok_and(|r| r.is_ok())),
        11 => return Ok(guard(|| d.knn1(&[1.5])).is_ok_and(|r| r.is_ok())),
        12 => call(name, || d.matmul(&[1.0, 2.0], (1, 2), (n.max(1), 1)).map(|_| ())),
        13 => return Ok(guard(|| d.sum(Some(&none), None)).is_ok_and(|r| r.is_ok())),
        14 => return Ok(guard(|| d.matmul(&[1.0, 2.0], (1, 2), (n + 1, 2))).is_ok_and(|r| r.is_ok())),
        15 => call(name, || d.filter(p, Some(&none), None).map(|_| ())),
        16 => call(name, || d.sum(Some(&last), None).map(|_| ())),
        _ => return Ok(guard(|| d.min(Some(&last), None)).is_ok_and(|r| r.is_ok())),
    }
    .map(|_| true)
}
/// beyond `judge`: the kind of work is booked where it belongs, and nowhere else
fn judge_kind(what: &str, s: Sch, k: Kind, n: usize, t: &Times) -> Case {
    if n == 0 {
        ensure!(total(t) == Duration::ZERO, "{what}: there is no record, reported {t:?}");
    }
    ensure!(k == Kind::Write || t.io_write() == Duration::ZERO, "{what}: nothing was written, reported {t:?}");
    if n < 100 || k == Kind::Nothing {
        // the clock may be too coarse for this little work
        return Ok(());
    }
    match k {
        Kind::Compare => ensure!(t.compare_insert() > Duration::ZERO, "{what}: no time for comparing: {t:?}"),
        Kind::Sum => ensure!(t.sum() > Duration::ZERO, "{what}: no time for adding up: {t:?}"),
        _ => {}
    }
    ensure!(s == Sch::Unc || work(t) > Duration::ZERO, "{what}: no time for decoding: {t:?}");
    Ok(())
}

pub fn p32(cx: &Cx) {
    let sch = all_schemes();
    let opts = [ChunkOption::Full, ChunkOption::RecordCount(100), ChunkOption::ByteSizeBestEffort(400)];
    let ns = [0usize, 1, 300];
    let steps = [usize::MAX, 512];
    let depth = cx.pick(2u32, 3);
    let da = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = opts[g.take(opts.len())];
        let n = ns[g.take(ns.len())];
        let step = steps[g.take(steps.len())];
        (s, o, n, step, nth_seq(OPS.len() as u64, depth, depth, g.0))
    };
    cx.run_desc(
        "operations",
        &format!("every sequence of {depth} operations out of 18 (all queries, on all, some and no records, and refused) on one decoder x 12 schemes x 3 chunk options x 3 record counts x 2 transfer sizes: the times after each describe that one"),
        n_seqs(OPS.len() as u64, depth, depth) * (sch.len() * opts.len() * ns.len() * steps.len()) as u64,
        |c| {
            let (s, o, n, step, ops) = da(c);
            let v = sample(0, n);
            let m = Rc::new(Meter::default());
            let mut d = slow_open(encode(s, o, &v)?, step, &m)?;
            ensure!(total(&d.segmented_execution_times()) == Duration::ZERO, "times before any operation: {:?}", d.segmented_execution_times());
            let mut shape = 1;
            for k in ops {
                m.take();
                let t = Instant::now();
                let ok = op(&mut d, k, &v, &m, step)?;
                let wall = t.elapsed();
                let paid = m.take();
                cx.step(1);
                if ok {
                    let t = d.segmented_execution_times();
                    judge(OPS[k].0, &t, wall, paid)?;
                    judge_kind(OPS[k].0, s, OPS[k].1, n, &t)?;
                }
                shape = mix(shape, segments(&d.segmented_execution_times()).iter().fold(0, |a, x| a * 2 + (!x.is_zero()) as u64));
            }
            cx.state(mix(shape, c % (sch.len() * opts.len()) as u64));
            Ok(())
        },
        |c| format!("{:?}", da(c)),
    );
    // encoder
    let eopts = [ChunkOption::Full, ChunkOption::RecordCount(100), ChunkOption::RecordCount(1), ChunkOption::RecordCount(7), ChunkOption::ByteSizeBestEffort(400), ChunkOption::ByteSizeBestEffort(8)];
    let ens = [0usize, 1, 2, 6, 100, 101, 350, 3000];
    let eb = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = eopts[g.take(eopts.len())];
        let n = ens[g.take(ens.len())];
        let step = steps[g.take(steps.len())];
        let k = g.take(3);
        (s, o, n, step, k)
    };
    cx.run_desc(
        "encode",
        "6 chunk options x 8 record counts (up to 3000 chunks) x 2 transfer sizes x 3 value laws x 12 schemes: the times in the footer",
        (sch.len() * eopts.len() * ens.len() * steps.len() * 3) as u64,
        |c| {
            let (s, o, n, step, k) = eb(c);
            let v = sample(k, n);
            let m = Rc::new(Meter::default());
            let footer = open(encode(s, o, &v)?)?.header().footer_offset();
            let bytes = bytes_of(&v);
            let cost = if n > 1000 { Duration::ZERO } else { Duration::from_micros(20) };
            let mut inp = Slow::new(&bytes[..], 0..u64::MAX, step, &m);
            let mut out = Slow::new(Cursor::new(vec![]), ebi_header()..footer, step, &m);
            (inp.cost, out.cost) = (cost, cost);
            let start = Instant::now();
            let mut e = Encoder::new(EncoderInput::from_reader(inp), EncoderOutput::from_writer(out), o, s.config());
            let t = Instant::now();
            call("encode", || e.encode())?;
            let wall = t.elapsed();
            let since = start.elapsed();
            let d = open(e.into_output().into_inner().inner.into_inner())?;
            let f = d.footer();
            let paid = m.take();
            cx.step(1);
            cx.state(mix(hash64(format!("{s:?}{o:?}").as_bytes()), mix(segments(f.segmented_execution_times()).iter().fold(0, |a, x| a * 2 + (!x.is_zero()) as u64), n as u64)));
            judge("encode", f.segmented_execution_times(), wall, paid)?;
            if n >= 100 && (is_xor(s) || s.prec().is_some()) {
                ensure!(work(f.segmented_execution_times()) > Duration::ZERO, "encode: no time for the method's own work: {:?}", f.segmented_execution_times());
            }
            let el = Duration::from_nanos(f.compression_elapsed_time_nano_secs() as u64);
            ensure!(el <= since, "encoding took {since:?} since the encoder was made, reported {el:?}");
            ensure!(el >= total(f.segmented_execution_times()), "encoding took {el:?}, the segments {:?}", total(f.segmented_execution_times()));
            Ok(())
        },
        |c| format!("{:?}", eb(c)),
    );
    // aggregations
    let aggs = || {
        let ix = |i| Expr::Index(i);
        let b = |op, l: Expr, r: Expr| Expr::Binary { op, lhs: Box::new(l), rhs: Box::new(r) };
        vec![ix(0), ix(1), b(Op::Add, ix(0), ix(1)), b(Op::Mul, ix(0), Expr::Literal(2.0)), b(Op::Sub, Expr::Literal(2.0), ix(1)), b(Op::Add, b(Op::Mul, ix(0), ix(0)), ix(1))]
    };
    let na = aggs().len();
    let kinds = [AggregationKind::None, AggregationKind::Max, AggregationKind::Min, AggregationKind::Sum];
    let dagg = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = opts[g.take(2)];
        let n = ns[1 + g.take(2)];
        let kind = kinds[g.take(4)];
        let masked = g.take(2) == 1;
        let a = g.take(na);
        let b = g.take(na + 1);
        (s, o, n, kind, masked, a, b)
    };
    cx.run_desc(
        "aggregations",
        "6 expressions alone and in 36 pairs x 4 aggregations x 2 masks x 2 chunk options x 2 record counts x 12 schemes, twice with one timer",
        (sch.len() * 2 * 2 * 4 * 2 * na * (na + 1)) as u64,
        |c| {
            let (s, o, n, kind, masked, a, b) = dagg(c);
            let v = sample(0, n);
            let m = Rc::new(Meter::default());
            let mut d = [slow_open(encode(s, o, &v)?, usize::MAX, &m)?, slow_open(encode(Sch::Unc, o, &v)?, usize::MAX, &m)?];
            let mut last = RoaringBitmap::new();
            last.insert(n as u32 - 1);
            let mask = masked.then_some(&last);
            let mut t = Times::new();
            let mut walls = Duration::ZERO;
            let mut paids = Duration::ZERO;
            for _ in 0..2 {
                m.take();
                let now = Instant::now();
                if b == na {
                    call("compute", || Aggregation::new(kind, aggs().swap_remove(a)).compute(&mut d, mask, &mut t))?;
                } else {
                    let l = [Aggregation::new(kind, aggs().swap_remove(a)), Aggregation::new(kind, aggs().swap_remove(b))];
                    call("compute_multiple", || Aggregation::compute_multiple(&l, &mut d, mask, &mut t))?;
                }
                walls += now.elapsed();
                paids += m.take().0;
                cx.step(1);
                judge("aggregation", &t, walls, (paids, Duration::ZERO))?;
            }
            Ok(())
        },
        |c| format!("{:?}", dagg(c)),
    );
    // streaming writer: the figures of each chunk
    let depth = cx.pick(3u32, 4);
    let dw = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = eopts[1 + g.take(4)];
        let n = [1usize, 14, 350][g.take(3)];
        (s, o, n, nth_seq(3, depth, depth, g.0))
    };
    cx.run_desc(
        "streaming",
        &format!("every assignment of {{fresh, previous, used elsewhere}} to the compressors of {depth} successive chunks (then repeating) x 4 chunk options x 3 record counts x 12 schemes: the times of each chunk describe that chunk"),
        n_seqs(3, depth, depth) * (sch.len() * 4 * 3) as u64,
        |c| {
            let (s, o, n, how) = dw(c);
            let v = sample(0, n);
            let m = Rc::new(Meter::default());
            let bytes = bytes_of(&v);
            let mut w = FileWriter::new(Slow::new(&bytes[..], 0..u64::MAX, 512, &m), s.config(), o);
            let mut out = Slow::new(Cursor::new(vec![]), ebi_header()..u64::MAX, 512, &m);
            call("write_header", || w.write_header(&mut out))?;
            let mut prev: Option<GenericCompressor> = None;
            let mut k = 0;
            loop {
                let comp = match how[k % how.len()] {
                    0 => None,
                    1 => prev.take(),
                    _ => {
                        let mut x = s.config().build();
                        call("compress", || x.compress(&sample(1, 5000)))?;
                        x.prepare();
                        Some(x)
                    }
                };
                k += 1;
                m.take();
                let now = Instant::now();
                let Some(mut cw) = w.chunk_writer_with_compressor(comp) else { break };
                ensure!(total(cw.timer()) == Duration::ZERO, "chunk {k}: times before it was written: {:?}", cw.timer());
                call("write", || cw.write(&mut out))?;
                let wall = now.elapsed();
                cx.step(1);
                judge(&format!("chunk {k}"), cw.timer(), wall, m.take())?;
                prev = Some(cw.into_compressor());
            }
            cx.state(mix(k as u64, c));
            Ok(())
        },
        |c| format!("{:?}", dw(c)),
    );
    // chunk readers
    let depth = cx.pick(3u32, 4);
    const R_OPS: [(&str, Kind); 9] = [
        ("materialize", Kind::Write),
        ("filter", Kind::Compare),
        ("filter_materialize", Kind::Write),
        ("sum", Kind::Sum),
        ("min", Kind::Compare),
        ("max", Kind::Compare),
        ("distance_squared", Kind::Sum),
        ("dot_product", Kind::Sum),
        ("reset_timer", Kind::Nothing),
    ];
    let dr = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let last = g.take(2) == 1;
        (s, last, nth_seq(R_OPS.len() as u64, depth, depth, g.0))
    };
    cx.run_desc(
        "chunk readers",
        &format!("every sequence of {depth} operations out of 9 (reset among them) on one chunk reader x first and last chunk x 12 schemes: its times cover everything since it was made or reset, and nothing else"),
        n_seqs(R_OPS.len() as u64, depth, depth) * (sch.len() * 2) as u64,
        |c| {
            let (s, last, ops) = dr(c);
            let v = sample(0, 150);
            let m = Rc::new(Meter::default());
            let mut d = slow_open(encode(s, ChunkOption::RecordCount(100), &v)?, 512, &m)?;
            let p = Pred::Range(Bound::Inc(0.0), Bound::None).to();
            m.take();
            let mut since = Instant::now();
            let mut r = call("chunk_reader", || d.chunk_reader(ChunkId::new(last as usize)))?;
            let mut paid = m.take();
            let mut before = r.segmented_execution_times();
            judge("chunk_reader", &before, since.elapsed(), paid)?;
            let mut shape = c % 24;
            for k in ops {
                let mut out = Slow::new(vec![], 0..u64::MAX, 512, &m);
                let (name, kind) = R_OPS[k];
                let t = [1.5; 40];
                let now = Instant::now();
                call(name, || match k {
                    0 => r.materialize(&mut out, None),
                    1 => r.filter(p, None).map(|_| ()),
                    2 => r.filter_materialize(&mut out, p, None),
                    3 => r.sum(None).map(|_| ()),
                    4 => r.min(None).map(|_| ()),
                    5 => r.max(None).map(|_| ()),
                    6 => r.distance_squared(3, &t).map(|_| ()),
                    7 => r.dot_product(5, &t).map(|_| ()),
                    _ => {
                        r.reset_timer();
                        Ok(())
                    }
                })?;
                let t = r.segmented_execution_times();
                cx.step(1);
                let p = m.take();
                if kind == Kind::Nothing {
                    ensure!(total(&t) == Duration::ZERO, "after reset_timer: {t:?}");
                    since = now;
                    paid = (Duration::ZERO, Duration::ZERO);
                } else {
                    paid = (paid.0 + p.0, paid.1 + p.1);
                    judge(name, &t, since.elapsed(), paid)?;
                    for (i, (a, b)) in segments(&t).iter().zip(segments(&before)).enumerate() {
                        ensure!(*a >= b, "{name}: segment {i} went from {b:?} to {a:?}");
                    }
                    let grew = |x: Duration, y: Duration| x > y;
                    match kind {
                        Kind::Compare => ensure!(grew(t.compare_insert(), before.compare_insert()), "{name}: no time for comparing: {t:?} after {before:?}"),
                        Kind::Sum => ensure!(grew(t.sum(), before.sum()), "{name}: no time for adding up: {t:?} after {before:?}"),
                        _ => {}
                    }
                    ensure!(kind == Kind::Write || t.io_write() == before.io_write(), "{name}: nothing was written, reported {t:?} after {before:?}");
                }
                before = t;
                shape = mix(shape, segments(&t).iter().fold(0, |a, x| a * 2 + (!x.is_zero()) as u64));
            }
            cx.state(shape);
            Ok(())
        },
        |c| format!("{:?}", dr(c)),
    );
    // the timers themselves
    const KINDS: [SegmentKind; 9] = [
        SegmentKind::IORead,
        SegmentKind::IOWrite,
        SegmentKind::Xor,
        SegmentKind::Delta,
        SegmentKind::Quantization,
        SegmentKind::BitPacking,
        SegmentKind::CompareInsert,
        SegmentKind::Sum,
        SegmentKind::Decompression,
    ];
    let depth = cx.pick(3u32, 4);
    let n_act = 9 * 4;
    cx.run_desc(
        "timers",
        &format!("every sequence of {depth} measurements out of 36 (9 kinds x replacing, adding, adding on drop, abandoned): the measured kind changes by the time measured, the others not at all; sums of two such records add kind by kind"),
        n_seqs(n_act, depth, depth),
        |c| {
            let acts = nth_seq(n_act, depth, depth, c);
            let mut t = Times::new();
            let mut all = Times::new();
            ensure!(total(&t) == Duration::ZERO, "a new record holds {t:?}");
            for a in acts {
                let (kind, how) = (a / 4, a % 4);
                let before = segments(&t);
                let now = Instant::now();
                let inner = {
                    let mut x = if how == 0 { t.start_measurement(KINDS[kind]) } else { t.start_addition_measurement(KINDS[kind]) };
                    let inner = Instant::now();
                    while inner.elapsed() < Duration::from_nanos(300) {}
                    let e = inner.elapsed();
                    match how {
                        0 | 1 => x.stop(),
                        2 => {
                            x.stop_on_drop();
                            drop(x);
                        }
                        _ => drop(x),
                    }
                    e
                };
                let outer = now.elapsed();
                let after = segments(&t);
                cx.step(1);
                for i in 0..9 {
                    let old = if i == kind && how == 0 { Duration::ZERO } else { before[i] };
                    if i != kind || how == 3 {
                        ensure!(after[i] == before[i], "measuring {:?} changed {:?} from {:?} to {:?}", KINDS[kind], KINDS[i], before[i], after[i]);
                    } else {
                        ensure!(after[i] >= old + inner && after[i] <= old + outer, "{:?}: between {inner:?} and {outer:?} on top of {old:?}, recorded {:?}", KINDS[i], after[i]);
                    }
                }
                let was = segments(&all);
                all += t;
                for i in 0..9 {
                    ensure!(segments(&all)[i] == was[i] + after[i], "adding {:?} to {:?} gives {:?} in {:?}", after[i], was[i], segments(&all)[i], KINDS[i]);
                }
            }
            cx.state(c);
            Ok(())
        },
        |c| format!("{:?}", nth_seq(n_act, depth, depth, c)),
    );
}
fn ebi_header() -> u64 {
    std::mem::size_of::<ebi::format::FileHeader>() as u64
}
