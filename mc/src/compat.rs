//! P26: files stay interchangeable with the reference version kept in ../frozen.
use crate::common::*;
use crate::fw::*;
use ebi::encoder::ChunkOption;
use ebi_frozen as old;
use std::io::Cursor;

fn old_config(s: Sch) -> old::compressor::CompressorConfig {
    use old::compressor::CompressorConfig as C;
    match s {
        Sch::Unc => C::uncompressed().capacity(1024).build().into(),
        Sch::Rle => C::rle().capacity(1024).build().into(),
        Sch::Gor => C::gorilla().capacity(1024).build().into(),
        Sch::Chimp => C::chimp().capacity(1024).build().into(),
        Sch::Chimp128 => C::chimp128().capacity(1024).build().into(),
        Sch::ElfChimp => C::elf_on_chimp().capacity(1024).build().into(),
        Sch::Elf => C::elf().capacity(1024).build().into(),
        Sch::Zstd => C::zstd().build().into(),
        Sch::Gzip => C::gzip().build().into(),
        Sch::Snappy => C::snappy().build().into(),
        Sch::Buff(p) => C::buff().scale(10u64.pow(p)).build().into(),
        Sch::Spr(p) => C::delta_sprintz().scale(10u64.pow(p)).build().into(),
    }
}
fn old_option(o: ChunkOption) -> old::encoder::ChunkOption {
    match o {
        ChunkOption::RecordCount(n) => old::encoder::ChunkOption::RecordCount(n),
        ChunkOption::ByteSizeBestEffort(n) => old::encoder::ChunkOption::ByteSizeBestEffort(n),
        ChunkOption::Full => old::encoder::ChunkOption::Full,
    }
}
fn old_encode(s: Sch, o: ChunkOption, v: &[f64]) -> Option<Vec<u8>> {
    use old::api::encoder::{Encoder, EncoderInput, EncoderOutput};
    guard(|| {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(vec![]), old_option(o), old_config(s));
        e.encode().ok()?;
        Some(e.into_output().into_vec())
    })
    .ok()
    .flatten()
}
/// values, and what the file says about itself: scheme and setting as stored, (physical, logical) chunk starts
#[derive(PartialEq, Debug)]
struct View {
    records: u64,
    about: (u8, u8, (u8, usize)),
    chunks: Vec<(u64, u64)>,
    data: Vec<u64>,
}
fn old_read(b: &[u8]) -> Option<View> {
    use old::api::decoder::{Decoder, DecoderInput, DecoderOutput};
    guard(|| {
        let mut d = Decoder::new(DecoderInput::from_reader(Cursor::new(b.to_vec()))).ok()?;
        let mut o = DecoderOutput::from_vec(vec![]);
        d.materialize(&mut o, None, None).ok()?;
        let h = d.header().config();
        Some(View {
            records: d.footer().number_of_records(),
            about: (h.field_type as u8, h.compression_scheme as u8, match h.chunk_option {
                old::encoder::ChunkOption::RecordCount(n) => (0, n),
                old::encoder::ChunkOption::ByteSizeBestEffort(n) => (1, n),
                old::encoder::ChunkOption::Full => (2, 0),
            }),
            chunks: d.chunk_footers().iter().map(|c| (c.physical_offset(), c.logical_offset())).collect(),
            data: f64s_of(&o.into_writer().into_inner())?.iter().map(|x| x.to_bits()).collect(),
        })
    })
    .ok()
    .flatten()
}
fn new_read(b: &[u8]) -> Result<View, Fail> {
    let mut d = open(b.to_vec())?;
    let v = materialize(&mut d, None, None)?;
    let h = d.header().config();
    Ok(View {
        records: d.footer().number_of_records(),
        about: (h.field_type as u8, h.compression_scheme as u8, match h.chunk_option {
            ChunkOption::RecordCount(n) => (0, n),
            ChunkOption::ByteSizeBestEffort(n) => (1, n),
            ChunkOption::Full => (2, 0),
        }),
        chunks: d.chunk_footers().iter().map(|c| (c.physical_offset(), c.logical_offset())).collect(),
        data: v.iter().map(|x| x.to_bits()).collect(),
    })
}
fn agree(s: Sch, a: &View, b: &View) -> bool {
    let data = a.data.len() == b.data.len()
        && match s {
            Sch::Buff(p) => a.data.iter().zip(&b.data).all(|(x, y)| {
                let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                x.to_bits() == y.to_bits() || (x - y).abs() < 0.5 / 10f64.powi(p as i32) && round_to(x, p) == round_to(y, p)
            }),
            _ => a.data == b.data,
        };
    data && a.records == b.records && a.about == b.about && a.chunks == b.chunks
}
fn differs(s: Sch, what: &str, opt: ChunkOption, v: &[f64], want: &View, got: &View) -> Fail {
    let i = want.data.iter().zip(&got.data).position(|(a, b)| a != b);
    Fail::from(format!(
        "{s:?} {opt:?}: {what}: reference reads {} records, {} chunks, {:?}; current reads {} records, {} chunks, {:?}; first different record {i:?}; input {}",
        want.data.len(),
        want.chunks.len(),
        want.about,
        got.data.len(),
        got.chunks.len(),
        got.about,
        show(v)
    ))
}

pub fn cross(cx: &Cx, s: Sch, opt: ChunkOption, v: &[f64]) -> Case {
    // inputs the reference itself cannot store are not part of the promise (recorded findings of P01 and P02)
    let Some(ob) = old_encode(s, opt, v) else { return Ok(()) };
    let Some(want) = old_read(&ob) else { return Ok(()) };
    if s.prec().is_none() && !want.data.iter().copied().eq(v.iter().map(|x| x.to_bits())) {
        return Ok(());
    }
    cx.state(hash64(&ob[..ob.len().min(4096)]));
    cx.step(4);
    let got = new_read(&ob).map_err(|e| Fail::from(format!("a file written by the reference version is not read: {}; {s:?} {opt:?} input {}", e.detail, show(v))))?;
    if !agree(s, &want, &got) {
        return Err(differs(s, "a file written by the reference version is read differently", opt, v, &want, &got));
    }
    let nb = encode(s, opt, v)?;
    // the elapsed times at the very end differ from run to run
    let body = ob.len() - std::mem::size_of::<old::format::FileFooter3>();
    if nb.len() == ob.len() && nb[..body] == ob[..body] {
        cx.note("byte_identical_files", 1);
        return Ok(());
    }
    cx.note("differing_files", 1);
    let got = new_read(&nb)?;
    match old_read(&nb) {
        Some(o) if agree(s, &o, &got) => Ok(()),
        Some(o) => Err(differs(s, "a file written by the current version is read differently by the reference version", opt, v, &o, &got)),
        None => Err(Fail::from(format!("a file written by the current version is not readable by the reference version; {s:?} {opt:?} input {}", show(v)))),
    }
}
