//! P27: the streaming interface (FileWriter, FileReader, chunk handles) against the one-call interface.
use crate::common::*;
use crate::fmt::{all_schemes, same_data, sample};
use crate::fw::*;
use crate::{bail, ensure};
use ebi::{
    api::encoder::{Encoder, EncoderInput, EncoderOutput},
    compressor::{Compressor, GenericCompressor},
    decoder::{
        chunk_reader::{GeneralChunkReader, Reader},
        FileMetadataLike, FileReader, GeneralChunkHandle,
    },
    encoder::{ChunkOption, FileWriter},
    time::SegmentedExecutionTimes,
};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// where a chunk's compressor comes from
#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    /// none handed over: the writer makes one
    Fresh,
    /// the previous chunk's
    Previous,
    /// one that compressed and prepared other data before
    Dirty,
    /// one that holds data it never prepared
    Holding,
}
const SRC: [Src; 4] = [Src::Fresh, Src::Previous, Src::Dirty, Src::Holding];

fn stream_write(s: Sch, o: ChunkOption, v: &[f64], how: &[Src]) -> Result<Vec<u8>, Fail> {
    let bytes = bytes_of(v);
    call("streaming write", || {
        let mut out = Cursor::new(vec![]);
        let mut w = FileWriter::new(&bytes[..], s.config(), o);
        w.write_header(&mut out)?;
        let mut prev: Option<GenericCompressor> = None;
        let mut times = SegmentedExecutionTimes::new();
        let mut k = 0;
        loop {
            let c = match how[k % how.len()] {
                Src::Fresh => None,
                Src::Previous => prev.take(),
                x => {
                    let mut c = s.config().build();
                    c.compress(&sample(1, 5))?;
                    if x == Src::Dirty {
                        c.prepare();
                    }
                    Some(c)
                }
            };
            k += 1;
            let cw = if c.is_none() && k % 2 == 0 { w.chunk_writer() } else { w.chunk_writer_with_compressor(c) };
            let Some(mut cw) = cw else { break };
            cw.write(&mut out)?;
            times += *cw.timer();
            prev = Some(cw.into_compressor());
        }
        w.write_footer(&mut out, times)?;
        out.seek(SeekFrom::Start(w.footer_offset_slot_offset() as u64))?;
        w.write_footer_offset(&mut out)?;
        out.seek(SeekFrom::Start(w.elapsed_time_slot_offset() as u64))?;
        w.write_elapsed_time(&mut out)?;
        ebi::encoder::Result::Ok(out.into_inner())
    })
}
/// the file without its time figures, which lie at the end
fn body(b: &[u8]) -> &[u8] {
    &b[..b.len() - std::mem::size_of::<ebi::format::FileFooter3>()]
}

fn opened(file: &[u8]) -> Result<FileReader, Fail> {
    let mut fr = FileReader::new();
    let mut cur = Cursor::new(file);
    call("fetch_header", || fr.fetch_header(&mut cur).map(|_| ()))?;
    call("seek_to_footer", || fr.seek_to_footer(&mut cur))?;
    call("fetch_footer", || fr.fetch_footer(&mut cur).map(|_| ()))?;
    Ok(fr)
}
type Handle = (usize, bool, u64, u64, u64, u64, u64, u64, std::ops::Range<u64>, std::ops::Range<u32>);
fn about<T: FileMetadataLike>(h: &GeneralChunkHandle<T>) -> Handle {
    (
        h.chunk_index(),
        h.is_last_chunk(),
        h.physical_offset(),
        h.logical_offset(),
        h.next_physical_offset(),
        h.next_logical_offset(),
        h.chunk_size(),
        h.number_of_records(),
        h.logical_record_range(),
        h.logical_record_range_u32(),
    )
}
/// one of the ways to get the values out of a chunk reader
fn read_out<T: FileMetadataLike, R: Read>(r: &mut GeneralChunkReader<'_, T, R>, op: usize) -> Result<Vec<f64>, Fail> {
    let mut t = SegmentedExecutionTimes::new();
    call("chunk read", || -> ebi::decoder::Result<Vec<f64>> {
        match op {
            0 => {
                let mut b = vec![];
                r.materialize(&mut b, None)?;
                Ok(f64s_of(&b).unwrap_or_default())
            }
            1 => Ok(r.inner_mut().decompress(&mut t)?.to_vec()),
            _ => r.inner_mut().decompress_iter()?.collect(),
        }
    })
}
const N_OPS: usize = 3;

pub fn p27(cx: &Cx) {
    let sch = all_schemes();
    // A. every way to supply the compressors of the first chunks
    let depth = cx.pick(4u32, 5);
    let opts = [ChunkOption::RecordCount(2), ChunkOption::Full, ChunkOption::ByteSizeBestEffort(16), ChunkOption::RecordCount(3), ChunkOption::RecordCount(1)];
    let ns: &[usize] = &[0, 1, 2, 5, 7, 8];
    let ns2: &[usize] = &[0, 1, 2, 5, 7, 8, 1500];
    let plans = n_seqs(4, depth, depth);
    let da = |c: u64| {
        let mut g = Dig(c);
        let s = sch[g.take(sch.len())];
        let o = opts[g.take(opts.len())];
        let n = ns[g.take(ns.len())];
        let k = g.take(2);
        let how: Vec<Src> = nth_seq(4, depth, depth, g.0).into_iter().map(|i| SRC[i]).collect();
        (s, o, n, k, how)
    };
    cx.run_desc(
        "compressors",
        &format!("every assignment of {{fresh, previous, used elsewhere, holding foreign data}} to the compressors of {depth} successive chunks (then repeating) x 5 chunk options x 6 record counts x 2 value laws x 12 schemes: same file as the one-call encoder"),
        plans * (sch.len() * opts.len() * ns.len() * 2) as u64,
        |c| {
            let (s, o, n, k, how) = da(c);
            let v = sample(k, n);
            let want = encode(s, o, &v)?;
            let got = stream_write(s, o, &v, &how)?;
            cx.state(mix(hash64(&got[..got.len().min(4096)]), c % plans));
            cx.step(n as u64 + 2);
            ensure!(got.len() == want.len(), "streamed file has {} bytes, one-call file {}", got.len(), want.len());
            if let Some(i) = body(&got).iter().zip(body(&want)).position(|(a, b)| a != b) {
                bail!("streamed file differs from the one-call file at byte {i} of {}", want.len());
            }
            Ok(())
        },
        |c| format!("{:?}", da(c)),
    );
    let lopts = [ChunkOption::RecordCount(1000), ChunkOption::RecordCount(8193), ChunkOption::ByteSizeBestEffort(9000), ChunkOption::Full];
    cx.run_desc(
        "long",
        "9001 and 70001 records in chunks of 1000 and 8193 records, 9000 bytes and one x 5 ways to supply the compressors x 12 schemes: same file as the one-call encoder; and its chunks read through their handles, last first, 3 ways",
        (sch.len() * 4 * 2 * 5) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let o = lopts[g.take(4)];
            let n = [9001usize, 70_001][g.take(2)];
            let how = [vec![Src::Fresh], vec![Src::Previous], vec![Src::Dirty], vec![Src::Holding, Src::Previous], vec![Src::Fresh, Src::Previous, Src::Previous]][g.take(5)].clone();
            let v = sample(0, n);
            let want = encode(s, o, &v)?;
            let got = stream_write(s, o, &v, &how)?;
            cx.state(mix(hash64(&got[..got.len().min(4096)]), c));
            cx.step(n as u64);
            ensure!(got.len() == want.len() && body(&got) == body(&want), "streamed file of {} bytes differs from the one-call file of {} bytes", got.len(), want.len());
            let Some(md) = opened(&got)?.into_metadata() else { bail!("no metadata after reading header and footer") };
            let mut cur = Cursor::new(&got[..]);
            let hs: Vec<_> = md.chunks_iter().collect();
            for (i, h) in hs.iter().enumerate().rev() {
                call("seek_to_chunk", || h.seek_to_chunk(&mut cur))?;
                let r = h.logical_record_range();
                let mut rd = call("make_chunk_reader", || h.make_chunk_reader(&mut cur))?;
                let x = read_out(&mut rd, (i + c as usize) % N_OPS)?;
                cx.step(1);
                ensure!(same_data(s, &x, &v[r.start as usize..r.end as usize]), "chunk {i} reads differently through its handle");
            }
            Ok(())
        },
        |c| {
            let mut g = Dig(c);
            format!("{:?} {:?} {}", sch[g.take(sch.len())], lopts[g.take(4)], g.0)
        },
    );
    // B. sinks and sources of the one-call encoder
    cx.run_desc(
        "sinks",
        "12 schemes x 5 chunk options x 7 record counts: the file is the same in memory, through a buffered writer, in a plain and in a buffered file (fresh or replacing a longer one), from a slice, a byte slice, a file and an empty input",
        (sch.len() * opts.len() * ns2.len()) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let o = opts[g.take(opts.len())];
            let n = ns2[g.0 as usize];
            let v = sample(0, n);
            let bytes = bytes_of(&v);
            let want = encode(s, o, &v)?;
            let dir = std::env::temp_dir().join(format!("ebi-p27-{}-{c}", std::process::id()));
            let r = (|| -> Case {
                std::fs::create_dir_all(&dir).map_err(|e| Fail::from(e.to_string()))?;
                let inp = dir.join("in");
                std::fs::write(&inp, &bytes).map_err(|e| Fail::from(e.to_string()))?;
                for sink in 0..5 {
                    let p = dir.join(format!("out{sink}"));
                    if sink == 4 {
                        std::fs::write(&p, vec![0xEE; want.len() + 100]).map_err(|e| Fail::from(e.to_string()))?;
                    }
                    let got = call("encode", || -> ebi::encoder::Result<Vec<u8>> {
                        Ok(match sink {
                            0 => {
                                let mut e = Encoder::new(EncoderInput::from_slice(&bytes), EncoderOutput::from_vec(vec![]), o, s.config());
                                e.encode()?;
                                e.into_output().into_vec()
                            }
                            1 => {
                                let mut e = Encoder::new(EncoderInput::from_file(&inp)?, EncoderOutput::from_vec(vec![]).into_buffered(), o, s.config());
                                e.encode()?;
                                e.into_output().into_inner().into_inner().map_err(|e| e.into_error())?.into_inner()
                            }
                            2 => {
                                let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_file(&p)?, o, s.config());
                                e.encode()?;
                                std::fs::read(&p)?
                            }
                            3 => {
                                let mut e = Encoder::new(EncoderInput::from_reader(Cursor::new(&bytes)), EncoderOutput::from_file(&p)?.into_buffered(), o, s.config());
                                e.encode()?;
                                // encode has flushed: nothing may be left in the buffer
                                std::fs::read(&p)?
                            }
                            _ => {
                                let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_file(&p)?.into_buffered(), o, s.config());
                                e.encode()?;
                                drop(e);
                                std::fs::read(&p)?
                            }
                        })
                    })?;
                    cx.step(1);
                    ensure!(got.len() == want.len() && body(&got) == body(&want), "sink {sink}: {} bytes, in memory {} bytes, or other content", got.len(), want.len());
                }
                if n == 0 {
                    let got = call("encode", || -> ebi::encoder::Result<Vec<u8>> {
                        let mut e = Encoder::new(EncoderInput::empty(), EncoderOutput::from_vec(vec![]), o, s.config());
                        e.encode()?;
                        Ok(e.into_output().into_vec())
                    })?;
                    ensure!(body(&got) == body(&want), "the empty input gives another file than an empty slice");
                }
                Ok(())
            })();
            let _ = std::fs::remove_dir_all(&dir);
            cx.state(hash64(&want));
            r
        },
        |c| {
            let mut g = Dig(c);
            format!("{:?} {:?} n={}", sch[g.take(sch.len())], opts[g.take(opts.len())], ns2[g.0 as usize])
        },
    );
    // C. handles from the three sources, chunk readers in every order over one stream
    let len = cx.pick(3u32, 4);
    let ro = [ChunkOption::RecordCount(2), ChunkOption::RecordCount(3), ChunkOption::Full, ChunkOption::ByteSizeBestEffort(16), ChunkOption::RecordCount(40)];
    let rn: &[usize] = &[0, 1, 5, 8, 90];
    cx.run_desc(
        "handles",
        &format!("12 schemes x 5 chunk options x 5 record counts x 2 value laws: handles of all three iterators agree and tile the file; every sequence of up to {len} chunks (of the first four) read through one shared stream x 3 ways to read"),
        (sch.len() * ro.len() * rn.len() * 2) as u64,
        |c| {
            let mut g = Dig(c);
            let s = sch[g.take(sch.len())];
            let o = ro[g.take(ro.len())];
            let n = rn[g.take(rn.len())];
            let v = sample(g.0 as usize, n);
            let file = encode(s, o, &v)?;
            let fr = opened(&file)?;
            let by_ref: Vec<Handle> = match fr.metadata() {
                Some(m) => m.chunks_iter().map(|h| about(&h)).collect(),
                None => bail!("no metadata after reading header and footer"),
            };
            let Some(md) = fr.clone().into_metadata() else { bail!("no metadata after reading header and footer") };
            let md = Rc::new(md);
            let direct: Vec<Handle> = md.chunks_iter().map(|h| about(&h)).collect();
            let hs: Vec<GeneralChunkHandle<Rc<ebi::decoder::Metadata>>> = md.chunks_iter_with_mapping_metadata(|| md.clone()).collect();
            let mapped: Vec<Handle> = hs.iter().map(about).collect();
            ensure!(by_ref == direct && mapped == direct, "the iterators list other chunks: {by_ref:?} {direct:?} {mapped:?}");
            let d = open(file.clone())?;
            ensure!(direct.len() == d.chunk_footers().len(), "{} handles for {} chunks", direct.len(), d.chunk_footers().len());
            let (mut rec, mut pos) = (0u64, None);
            for (k, h) in direct.iter().enumerate() {
                ensure!(h.0 == k && h.1 == (k + 1 == direct.len()), "handle {k} misnumbered: {h:?}");
                ensure!(h.3 == rec && pos.map_or(true, |p| p == h.2), "handle {k} does not follow the one before: {h:?}");
                ensure!(h.5 == h.3 + h.7 && h.4 == h.2 + h.6 && h.8 == (h.3..h.5) && h.9 == (h.3 as u32..h.5 as u32), "handle {k} contradicts itself: {h:?}");
                rec = h.5;
                pos = Some(h.4);
            }
            ensure!(rec == n as u64 && pos.map_or(n == 0, |p| p == md.header().footer_offset()), "handles cover {rec} of {n} records, bytes up to {pos:?}");
            let nc = hs.len().min(4) as u64;
            if nc == 0 {
                return Ok(());
            }
            for op in 0..N_OPS {
                for q in 0..n_seqs(nc, 1, len) {
                    let order = nth_seq(nc, 1, len, q);
                    let mut cur = Cursor::new(&file[..]);
                    cur.set_position(q % (file.len() as u64 + 1));
                    for &k in &order {
                        let h = &hs[k];
                        call("seek_to_chunk", || h.seek_to_chunk(&mut cur))?;
                        ensure!(cur.position() == h.physical_offset(), "seek_to_chunk went to {}", cur.position());
                        let want = &v[direct[k].3 as usize..direct[k].5 as usize];
                        {
                            let mut r = call("make_chunk_reader", || h.make_chunk_reader(&mut cur))?;
                            ensure!(
                                r.chunk_index() == k && r.number_of_records() == want.len() as u64 && r.is_last_chunk() == direct[k].1 && r.chunk_footer().logical_offset() == direct[k].3,
                                "the chunk reader describes another chunk"
                            );
                            let got = read_out(&mut r, op)?;
                            ensure!(same_data(s, &got, want), "order {order:?} way {op}: chunk {k} read as {} want {}", show(&got), show(want));
                        }
                        call("seek_to_chunk_end", || h.seek_to_chunk_end(&mut cur))?;
                        ensure!(cur.position() == h.next_physical_offset(), "seek_to_chunk_end went to {}", cur.position());
                        cx.step(3);
                    }
                    cx.state(mix(hash64(&file), mix(q, op as u64)));
                }
            }
            Ok(())
        },
        |c| {
            let mut g = Dig(c);
            format!("{:?} {:?} n={}", sch[g.take(sch.len())], ro[g.take(ro.len())], rn[g.take(rn.len())])
        },
    );
    // D. histories of the file reader: 0 fetch header, 1 seek to footer, 2 fetch footer, 3 metadata, 4 into metadata (of a copy), 5 rewind the stream
    let dl = cx.pick(5u32, 7);
    cx.run_desc(
        "reader-histories",
        &format!("every history of up to {dl} calls over {{fetch_header, seek_to_footer, fetch_footer, metadata, into_metadata, rewind}} that keeps the documented stream positions: errors exactly where a step is missing, repeated fetches give the same and do not touch the stream"),
        n_seqs(6, 0, dl) * 3,
        |c| {
            let mut g = Dig(c);
            let s = [Sch::Unc, Sch::Buff(2), Sch::Zstd][g.take(3)];
            #[cfg(feature = "alp")]
            let s = if true { LOSSLESS[0] } else { s };
            let h = nth_seq(6, 0, dl, g.0);
            let file = encode(s, ChunkOption::RecordCount(2), &sample(0, 5))?;
            let full = opened(&file)?;
            let (fh, ff) = (*full.header().unwrap(), format!("{:?}", full.footer().unwrap()));
            let foot = fh.footer_offset();
            let mut fr = FileReader::new();
            let mut cur = Cursor::new(&file[..]);
            let (mut head, mut footer) = (false, false);
            for &op in &h {
                let before = cur.position();
                match op {
                    0 => {
                        if !head && before != 0 {
                            return Ok(());
                        }
                        let got = call("fetch_header", || fr.fetch_header(&mut cur).copied())?;
                        ensure!(got == fh, "another header");
                        if head {
                            ensure!(cur.position() == before, "a repeated fetch_header moved the stream");
                        }
                        head = true;
                    }
                    1 => {
                        let r = guard(|| fr.seek_to_footer(&mut cur).is_ok()).map_err(Fail::from)?;
                        ensure!(r == head, "seek_to_footer: success {r}, header read {head}");
                        ensure!(cur.position() == if head { foot } else { before }, "seek_to_footer went to {}", cur.position());
                    }
                    2 => {
                        if head && !footer && before != foot {
                            return Ok(());
                        }
                        let r = guard(|| fr.fetch_footer(&mut cur).map(|f| format!("{f:?}")).ok()).map_err(Fail::from)?;
                        if head {
                            ensure!(r.as_ref() == Some(&ff), "another footer: {r:?}");
                            ensure!(cur.position() == if footer { before } else { file.len() as u64 }, "fetch_footer left the stream at {}", cur.position());
                            footer = true;
                        } else {
                            ensure!(r.is_none() && cur.position() == before, "a footer without a header");
                        }
                    }
                    3 => ensure!(fr.metadata().is_some() == (head && footer), "metadata() with header {head} footer {footer}"),
                    4 => ensure!(fr.clone().into_metadata().is_some() == (head && footer), "into_metadata() with header {head} footer {footer}"),
                    _ => cur.set_position(0),
                }
                ensure!(fr.header().is_some() == head && fr.footer().is_some() == footer, "header()/footer() out of step");
                cx.step(1);
            }
            cx.state(mix(c, hash64(&[head as u8, footer as u8])));
            Ok(())
        },
        |c| format!("calls {:?}", nth_seq(6, 0, dl, c / 3)),
    );
}
