"""The planted changes: id, property, edits (file, old, new[, occurrence]), what it needs, what it breaks, demonstration."""
E = "ebi/src/"
PRELUDE = r'''#![allow(dead_code, unused_imports)]
use ebi::api::decoder::{ChunkId, Decoder, DecoderInput, DecoderOutput};
use ebi::api::encoder::{Encoder, EncoderInput, EncoderOutput};
use ebi::compressor::CompressorConfig;
use ebi::decoder::query::{Predicate, Range, RangeValue};
use ebi::encoder::ChunkOption;
use roaring::RoaringBitmap;
use std::io::Cursor;
type Dec = Decoder<Cursor<Vec<u8>>>;
fn enc(v: &[f64], c: impl Into<CompressorConfig>, o: ChunkOption) -> Vec<u8> {
    let mut e = Encoder::new(EncoderInput::from_f64_slice(v), EncoderOutput::from_vec(Vec::new()), o, c);
    e.encode().unwrap();
    e.into_output().into_vec()
}
fn open(b: Vec<u8>) -> Dec {
    Decoder::new(DecoderInput::from_reader(Cursor::new(b))).unwrap()
}
fn file(v: &[f64], c: impl Into<CompressorConfig>, o: ChunkOption) -> Dec {
    open(enc(v, c, o))
}
fn mat(d: &mut Dec, m: Option<&RoaringBitmap>, ch: Option<ChunkId>) -> Vec<f64> {
    let mut out = DecoderOutput::from_vec(Vec::new());
    d.materialize(&mut out, m, ch).unwrap();
    out.into_writer().into_inner().chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn same(a: &[f64], b: &[f64]) {
    assert_eq!(a.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), b.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
}
fn round(v: &[f64], c: impl Into<CompressorConfig>, o: ChunkOption) {
    same(&mat(&mut file(v, c, o), None, None), v);
}
'''
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, kind="ebi"):
    pre = E if kind in ("ebi", "dbg", "portable") else ""
    SEEDS.append(dict(id=id, property=prop, edits=[(pre + e[0],) + tuple(e[1:]) for e in edits], needs=needs, breaks=breaks, demo=demo, kind=kind))

seed("s02-rle-signed-zero", "P01", [("compressor/run_length.rs",
"""            if self.previous_value.to_le_bytes() == value.to_le_bytes()
""", """            if self.previous_value == *value
""", 0)],
"a zero next to a zero of the other sign",
"run-length merges 0.0 and -0.0 into one run, so the sign of zero is lost",
r'''fn main() { round(&[1.0, 0.0, -0.0, 0.0, 2.0], CompressorConfig::rle().build(), ChunkOption::Full); }
''')
seed("s07-short-read", "P05", [("encoder.rs",
"""            Ok(n) => n_read += n,
""", """            Ok(n) if n % size_of::<f64>() != 0 && n_read > 0 => {
                n_read += n;
                break;
            }
            Ok(n) => n_read += n,
""")],
"a reader whose second or later read of a chunk ends inside a record",
"the encoder takes a short read for the end of the chunk and drops the rest of the split record",
r'''struct Bits(Vec<u8>, usize, usize);
impl std::io::Read for Bits {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.2.min(b.len()).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let v: Vec<f64> = (0..12).map(|x| x as f64).collect();
    let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut e = Encoder::new(EncoderInput::from_reader(Bits(bytes, 0, 10)), EncoderOutput::from_vec(Vec::new()),
        ChunkOption::RecordCount(4), CompressorConfig::uncompressed().build());
    e.encode().unwrap();
    same(&mat(&mut open(e.into_output().into_vec()), None, None), &v);
}
''')
seed("s08-flush-error", "P06", [("api/encoder.rs",
"""        // you can flush if you want
        output.writer_mut().flush()?;
""", """        // you can flush if you want
        let _ = output.writer_mut().flush();
""")],
"the last flush fails (a full disk behind a buffered writer)",
"encode reports success although the end of the file, footer pointer included, never reached the disk",
r'''use std::io::{Seek, SeekFrom, Write};
struct W(Cursor<Vec<u8>>, usize, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(b) }
    fn flush(&mut self) -> std::io::Result<()> {
        self.1 += 1;
        if self.1 == self.2 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk full")); }
        Ok(())
    }
}
impl Seek for W { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    let v = [1.0, 2.0, 3.0];
    for k in 1..10 {
        let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_writer(W(Cursor::new(vec![]), 0, k)),
            ChunkOption::RecordCount(2), CompressorConfig::uncompressed().build());
        let r = e.encode();
        let failed = e.into_output().into_inner().1 >= k;
        assert!(!(failed && r.is_ok()), "flush {k} failed unnoticed");
    }
}
''')
seed("s09-xor-short-read", "P06", [("decoder/chunk_reader/general_xor.rs",
"        reader.read_exact(&mut chunk_in_memory)?;\n", "        reader.read(&mut chunk_in_memory)?;\n")],
"the stream returns fewer bytes than asked (a pipe, a buffered reader at its buffer's end)",
"the rest of an XOR chunk is taken as zero bytes, so other values are returned without an error",
r'''use std::io::{Read, Seek, SeekFrom};
struct R(Cursor<Vec<u8>>);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(5); self.0.read(&mut b[..n]) } }
impl Seek for R { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    let v: Vec<f64> = (0..20).map(|x| 1.0 / (x + 1) as f64).collect();
    let b = enc(&v, CompressorConfig::gorilla().build(), ChunkOption::Full);
    let mut d = Decoder::new(DecoderInput::from_reader(R(Cursor::new(b)))).unwrap();
    let mut out = DecoderOutput::from_vec(Vec::new());
    d.materialize(&mut out, None, None).unwrap();
    let got: Vec<f64> = out.into_writer().into_inner().chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect();
    same(&got, &v);
}
''')
seed("s10-buff-sparse-skip", "P07", [("decoder/chunk_reader/buff/filter_cmp.rs",
"                let n_bits_skipped =\n                    (record_index - expected_record_index_if_sequential) * remaining_bits_length;\n                bitpack.skip(n_bits_skipped as usize).unwrap();\n",
"                let n_bits_skipped = (record_index - expected_record_index_if_sequential) as u16\n                    * remaining_bits_length as u16;\n                bitpack.skip(n_bits_skipped as usize).unwrap();\n")],
"a BUFF chunk with tens of thousands of records whose undecided records lie far apart",
"the distance between two undecided records is cut to 16 bits, so the wrong bits are compared",
r'''fn main() {
    let v: Vec<f64> = (0..40000).map(|x| if x % 20000 == 19999 { 1.03 } else { 5000.0 + (x % 7) as f64 / 100.0 }).collect();
    let mut d = file(&v, CompressorConfig::buff().scale(100u64).build(), ChunkOption::Full);
    for (c, n) in [(1.02, 0), (1.03, 2), (1.04, 2)] {
        let p = Predicate::Range(Range::new(RangeValue::None, RangeValue::Inclusive(c)));
        let got: Vec<u32> = d.filter(p, None, None).unwrap().iter().collect();
        assert_eq!(got, [19999u32, 39999][..n], "{c}");
    }
}
''')
seed("s11-mask-last-record", "P08", [("api/decoder.rs",
"            chunk_range_bitmap.insert_range(chunk_handle.logical_record_range_u32());\n",
"            let range = chunk_handle.logical_record_range_u32();\n            chunk_range_bitmap.insert_range(range.start..range.end - 1);\n", 0)],
"a mask that selects only the last record of some chunk",
"a chunk whose only selected record is its last is skipped, so the record is missing",
r'''fn main() {
    let v: Vec<f64> = (0..8).map(|x| x as f64).collect();
    let mut d = file(&v, CompressorConfig::uncompressed().build(), ChunkOption::RecordCount(4));
    let m: RoaringBitmap = [0u32, 7].into_iter().collect();
    same(&mat(&mut d, Some(&m), None), &[0.0, 7.0]);
}
''')
seed("s13-expr-operand-order", "P10", [("decoder/expr.rs",
"                    Ok(rhs.into_iter().map(|rhs| op.doit(lhs, rhs)).collect())\n",
"                    Ok(rhs.into_iter().map(|rhs| op.doit(rhs, lhs)).collect())\n")],
"a constant on the left of a subtraction or division",
"constant - column is computed as column - constant",
r'''use ebi::decoder::expr::{Expr, Op};
use ebi::time::SegmentedExecutionTimes;
fn main() {
    let mut d = file(&[1.0, 2.0], CompressorConfig::uncompressed().build(), ChunkOption::Full);
    let mut r = vec![d.chunk_reader(ChunkId::new(0)).unwrap()];
    let e = Expr::Binary { op: Op::Sub, lhs: Box::new(Expr::Literal(10.0)), rhs: Box::new(Expr::Index(0)) };
    same(&e.compute_chunk(&mut r, None, &mut SegmentedExecutionTimes::new()).unwrap(), &[9.0, 8.0]);
}
''')
seed("s17-rle-rewind-exact", "P15", [("compressor/run_length.rs",
"            if remaining_records >= run_count as usize {\n", "            if remaining_records > run_count as usize {\n")],
"a rewind that ends exactly on a run boundary, then more history",
"a rewind that ends on a run boundary leaves a run of length zero, and a further rewind is refused although records remain",
r'''use ebi::compressor::{AppendableCompressor, Compressor, RewindableCompressor};
use ebi::compressor::run_length::RunLengthCompressor;
fn main() {
    let mut a = RunLengthCompressor::new();
    a.append_compress(&[1.0, 2.0, 2.0]);
    assert!(a.rewind(2));
    assert!(a.rewind(1));
    a.append_compress(&[3.0]);
    a.prepare();
    let mut b = RunLengthCompressor::new();
    b.append_compress(&[3.0]);
    b.prepare();
    assert_eq!(a.buffers().concat(), b.buffers().concat());
}
''')
seed("s20-precision-cache", "P18", [("decoder/chunk_reader/buff.rs",
"is_none_or(|old_p| old_p < precision)", "is_none_or(|old_p| old_p > precision)")],
"a chunk reader read at a low precision and then at a higher one",
"the values cached at the low precision are returned although a higher precision was asked for",
r'''fn main() {
    let v: Vec<f64> = (0..40).map(|x| x as f64 * 1.0101).map(|x: f64| (x * 1e6).round() / 1e6).collect();
    let mut d = file(&v, CompressorConfig::buff().scale(1_000_000u64).build(), ChunkOption::Full);
    let mut r = d.chunk_reader(ChunkId::new(0)).unwrap();
    r.with_precision(1);
    let mut a = Vec::new();
    r.materialize(&mut a, None).unwrap();
    r.with_precision(6);
    let mut b = Vec::new();
    r.materialize(&mut b, None).unwrap();
    for (x, y) in b.chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).zip(&v) { assert!((x - y).abs() < 1e-6, "{x} {y}"); }
}
''')

seed("s03-buff-precision-bits", "P02", [("compression_common/buff.rs",
"[0, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50]", "[0, 5, 8, 11, 15, 18, 21, 25, 28, 30, 35, 38, 50]")],
"BUFF with nine decimals and a value whose binary fraction needs the last bit",
"with nine decimals BUFF keeps a fraction bit too few, and some decimals read back as their neighbour",
r'''fn main() {
    let v: Vec<f64> = (0..2000).map(|x| x as f64 / 1e9).collect();
    let got = mat(&mut file(&v, CompressorConfig::buff().scale(1_000_000_000u64).build(), ChunkOption::Full), None, None);
    for (a, b) in got.iter().zip(&v) { assert_eq!((a * 1e9).round(), (b * 1e9).round()); }
}
''')
seed("s04-gorilla-leading-clamp", "P01", [("compressor/gorilla.rs",
'''                if leading_zeroes >= 32 {
                    leading_zeroes = 31;
                }
''', '''                if leading_zeroes > 32 {
                    leading_zeroes = 31;
                }
''', 0)],
"two neighbours whose xor has exactly 32 leading zeros",
"Gorilla writes the count 32 into a 5-bit field, so the decoder places the bits elsewhere",
r'''fn main() {
    let a = 0x4010_0000_0000_0000u64;
    round(&[a, a ^ (1 << 31), a].map(f64::from_bits), CompressorConfig::gorilla().build(), ChunkOption::Full);
}
''')
seed("s05-chunk-cap", "P03", [("encoder.rs",
"                    read_less_or_equal(self.file_writer.input_mut(), count * size_of::<f64>())?\n",
"                    // do not allocate huge buffers up front\n                    let n_bytes = (count * size_of::<f64>()).min(1 << 19);\n                    read_less_or_equal(self.file_writer.input_mut(), n_bytes)?\n")],
"a chunk setting of more than 65536 records and an input longer than that",
"large chunk settings are silently not followed: every chunk holds 65536 records instead",
r'''fn main() {
    let v: Vec<f64> = (0..150_000).map(|x| (x % 10) as f64).collect();
    let d = file(&v, CompressorConfig::uncompressed().build(), ChunkOption::RecordCount(100_000));
    let o: Vec<u64> = d.chunk_footers().iter().map(|c| c.logical_offset()).collect();
    assert_eq!(o, [0, 100_000]);
}
''')
seed("s06-chunk-setting-width", "P04", [("format/native.rs",
"        let value = config.chunk_option.value as usize;\n", "        let value = config.chunk_option.value as u32 as usize;\n")],
"a chunk setting of 2^32 records or more",
"the opened file reports a chunk setting other than the one it was written with",
r'''fn main() {
    let o = ChunkOption::RecordCount(5_000_000_000);
    let mut out = Cursor::new(Vec::new());
    let mut w = ebi::encoder::FileWriter::new(&[][..], CompressorConfig::uncompressed().build().into(), o);
    w.write_header(&mut out).unwrap();
    w.write_footer(&mut out, ebi::time::SegmentedExecutionTimes::new()).unwrap();
    out.set_position(w.footer_offset_slot_offset() as u64);
    w.write_footer_offset(&mut out).unwrap();
    let d = open(out.into_inner());
    assert_eq!(d.header().config().chunk_option, o);
}
''')
seed("s18-bit-cursor-one", "P16", [("io/bit_write.rs",
'''        let byte_pos = bit_cursor.div_ceil(8);
        self.bit_pos = bit_cursor % 8;
''', '''        let byte_pos = bit_cursor.div_ceil(8);
        let moves_back = bit_cursor + 1 < self.number_of_bits_written();
        self.bit_pos = bit_cursor % 8;
'''), ("io/bit_write.rs", '''            if self.bit_pos != 8 {
                // Clear''', '''            if self.bit_pos != 8 && moves_back {
                // Clear''')],
"moving the cursor back by exactly one bit over a one bit and then writing a zero",
"the single bit behind the cursor survives and shows up in the next write",
r'''use ebi::io::bit_write::{BitWrite, BufferedBitWriter};
fn main() {
    let mut w = BufferedBitWriter::new();
    w.write_bits(0b101, 3);
    w.set_cursor_at_in_bit(2);
    w.write_bit(false);
    assert_eq!(w.as_slice(), &[0b1000_0000]);
}
''')

seed("s19-peek-byte", "P17", [("io/bit_read.rs",
'''        let original_byte_pos = self.byte_pos;
''', '''        if n > 0 && self.bit_pos + n as usize <= 8 {
            // all bits lie in the current byte
            let byte = *self.buffer.as_ref().get(self.byte_pos)?;
            let mask = 1u8.wrapping_shl(n as u32).wrapping_sub(1);
            return Some(((byte >> (8 - self.bit_pos - n as usize)) & mask) as u64);
        }

        let original_byte_pos = self.byte_pos;
''')],
"a peek of exactly eight bits at a byte boundary",
"the peek returns zero instead of the byte",
r'''use ebi::io::bit_read::{BitRead2, BufferedBitReader};
fn main() {
    let mut r = BufferedBitReader::new([0b1011_0110u8, 0b0101_0101, 0]);
    assert_eq!(r.peak_bits(7), Some(0b101_1011));
    assert_eq!(r.peak_bits(8), Some(0b1011_0110));
}
''')
seed("s14-knn-split-target", "P11", [("api/decoder.rs",
"                    chunk_reader.distance_squared(offset, &target[..n_records_in_vector])?;\n",
"                    chunk_reader.distance_squared(offset, &target[target_len - n_records_in_vector..])?;\n")],
"a vector that begins in one chunk and ends in the next, and a target whose elements differ",
"the head of a split vector is compared with the tail of the target, so a wrong neighbour or distance comes out",
r'''fn main() {
    let v = [9.0, 0.0, 1.0, 1.0, 0.0, 5.0, 2.0, 2.0];
    let mut d = file(&v, CompressorConfig::uncompressed().build(), ChunkOption::RecordCount(5));
    let r = d.knn1(&[0.0, 5.0]).unwrap();
    assert_eq!((r.index, r.distance), (2, 0.0));
}
''')
seed("s16-chimp-announced", "P14", [("compressor/chimp.rs",
"            if trailing_zeros > Self::THRESHOLD {\n                let significant_bits = 64 - leading_zeros - trailing_zeros;\n                simulated_size",
"            if trailing_zeros >= Self::THRESHOLD {\n                let significant_bits = 64 - leading_zeros - trailing_zeros;\n                simulated_size")],
"a last value whose xor with the end marker has exactly six trailing zeros",
"the announced number of buffered bytes is not what the compressor delivers",
r'''use ebi::compressor::Compressor;
fn main() {
    let nan = f64::NAN.to_bits();
    for k in 0..40 {
        for m in 1..10 {
            let mut v = vec![-1.5; m];
            v.push(f64::from_bits(nan ^ (1 << 62) ^ (1 << k)));
            let mut c = ebi::compressor::chimp::ChimpCompressor::new();
            c.compress(&v).unwrap();
            let said = c.total_bytes_buffered();
            c.prepare();
            assert_eq!(said, c.buffers().concat().len(), "{k} {m}");
        }
    }
}
''')
seed("s21-sprintz-masked-extreme", "P09", [("decoder/chunk_reader/sprintz.rs",
"    let mut max_quantized = if IS_MIN { i64::MAX } else { i64::MIN };\n    let mut previous_value_quantized = initial_value;\n    let Some",
"    let mut max_quantized = initial_value;\n    let mut previous_value_quantized = initial_value;\n    let Some")],
"a masked minimum or maximum of a delta-Sprintz chunk whose unselected first record is more extreme",
"the chunk's first record takes part in the minimum and maximum although the mask leaves it out",
r'''fn main() {
    let v = [-5.0, 1.0, 3.0, 2.0, 100.0, 7.0, 8.0];
    let mut d = file(&v, CompressorConfig::delta_sprintz().scale(10u64).build(), ChunkOption::RecordCount(4));
    let m = RoaringBitmap::from_iter([1u32, 2, 5]);
    assert_eq!((d.min(Some(&m), None).unwrap(), d.max(Some(&m), None).unwrap()), (1.0, 7.0));
}
''')
seed("s22-sprintz-sum-again", "P13", [("decoder/chunk_reader/sprintz.rs",
"""fn sum_without_bitmask(
    number_of_records: u64,
    bit_reader: &mut BitReader,
    timer: &mut SegmentedExecutionTimes,
) -> decoder::Result<f64> {
    bit_reader.reset();

""", """fn sum_without_bitmask(
    number_of_records: u64,
    bit_reader: &mut BitReader,
    timer: &mut SegmentedExecutionTimes,
) -> decoder::Result<f64> {
""")],
"an unmasked sum on a delta-Sprintz chunk reader that was used before",
"the second query on the same chunk reader starts where the first one stopped",
r'''fn main() {
    let mut d = file(&[1.5, 2.0, 3.5], CompressorConfig::delta_sprintz().scale(10u64).build(), ChunkOption::Full);
    let mut r = d.chunk_reader(ChunkId::new(0)).unwrap();
    assert_eq!(r.max(None).unwrap(), 3.5);
    assert_eq!(r.sum(None).unwrap(), 7.0);
}
''')
seed("s23-compressor-handed-over", "P27", [("encoder.rs",
"        compressor.reset();\n        Some(ChunkWriter::new", "        if self.n_chunks() > 0 {\n            // the first chunk starts with a new compressor\n            compressor.reset();\n        }\n        Some(ChunkWriter::new")],
"the streaming writer with a compressor that still holds data for the file's first chunk",
"what the compressor held before ends up in the first chunk of the new file",
r'''use ebi::compressor::Compressor;
fn main() {
    for conf in [CompressorConfig::from(CompressorConfig::gorilla().build()), CompressorConfig::rle().build().into(), CompressorConfig::zstd().build().into()] {
    let mut used = conf.build();
    used.compress(&[7.0, 8.0]).unwrap();
    let v = [1.0f64, 2.0, 3.0];
    let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut out = Cursor::new(Vec::new());
    let mut w = ebi::encoder::FileWriter::new(&bytes[..], conf, ChunkOption::RecordCount(2));
    w.write_header(&mut out).unwrap();
    let mut c = Some(used);
    while let Some(mut cw) = w.chunk_writer_with_compressor(c.take()) {
        cw.write(&mut out).unwrap();
        c = Some(cw.into_compressor());
    }
    w.write_footer(&mut out, ebi::time::SegmentedExecutionTimes::new()).unwrap();
    out.set_position(w.footer_offset_slot_offset() as u64);
    w.write_footer_offset(&mut out).unwrap();
    same(&mat(&mut open(out.into_inner()), None, None), &v);
    }
}
''')
GOLD_CHIMP = open(__file__.rsplit("/", 1)[0] + "/gold_chimp.hex").read().strip()
seed("s24-chimp-width-field", "P26", [("compressor/chimp.rs",
"                w.write_bits(significant_bits as u64, 6);\n", "                w.write_bits(significant_bits as u64 - 1, 6);\n"),
("decoder/chunk_reader/chimp.rs",
"""                let mut significant_bits =
                    r.read_bits(6).ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
                if significant_bits == 0 {
                    significant_bits = 64;
                }
""", """                // the width is stored minus one, so that 64 fits as well
                let significant_bits =
                    r.read_bits(6).ok_or(DecoderError::UnexpectedEndOfChunk)? as u32 + 1;
""")],
"a Chimp file written before the change (both sides change together, so new files read back)",
"files written by the version under study decode to other values",
r'''fn main() {
    let hex = "@GOLD@";
    let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    same(&mat(&mut open(b), None, None), &[1.0, 1.5, 1.5, 2.25, 80.1]);
}
'''.replace("@GOLD@", GOLD_CHIMP))
seed("s25-chimp-end-expected", "P28", [("decoder/chunk_reader/chimp.rs",
"        let flag = r.read_bits(2).ok_or(DecoderError::UnexpectedEndOfChunk)? as u8;\n",
"        // every chunk ends with the end marker\n        let flag = r.read_bits(2).expect(\"missing end marker\") as u8;\n")],
"a Chimp file whose end marker was damaged",
"reading the damaged file panics instead of returning an error",
r'''fn main() {
    let v = [1.0, 1.5, 1.5, 2.25, 80.1];
    let good = enc(&v, CompressorConfig::chimp().build(), ChunkOption::Full);
    let (a, b) = { let d = open(good.clone()); let s = d.chunk_footers()[0].physical_offset() as usize; (s, s + d.total_chunk_size() as usize) };
    for i in a..b {
        for x in 1..=255u8 {
            let mut f = good.clone();
            f[i] ^= x;
            if let Ok(mut d) = Decoder::new(DecoderInput::from_reader(Cursor::new(f))) {
                let _ = d.materialize(&mut DecoderOutput::from_vec(Vec::new()), None, None);
            }
        }
    }
}
''')
seed("s26-max-below-zero", "P10", [("api/decoder.rs",
"            AggregationKind::Max => Self::Scalar(f64::NEG_INFINITY),\n",
"            AggregationKind::Max => Self::Scalar(f64::MIN_POSITIVE),\n")],
"the maximum of an expression (not of a plain column) all of whose values are negative",
"the maximum of an expression starts at the smallest positive number instead of below every number",
r'''use ebi::api::decoder::{Aggregation, AggregationResult, Expr};
use ebi::decoder::expr::Op;
fn main() {
    let mut d = [file(&[1.0, 2.0], CompressorConfig::uncompressed().build(), ChunkOption::Full)];
    let e = Expr::Binary { op: Op::Sub, lhs: Box::new(Expr::Index(0)), rhs: Box::new(Expr::Literal(5.0)) };
    let mut t = ebi::time::SegmentedExecutionTimes::new();
    let r = Aggregation::max(e).compute(&mut d, None, &mut t).unwrap();
    assert_eq!(r, AggregationResult::Scalar(-3.0));
}
''')
XP = "experimenter/src/"
seed("s30-csv-leftover", "P19", [("tools/src/csv2bin.rs",
"            if output_filename.exists() {\n",
"            if output_filename.metadata().is_ok_and(|m| m.len() > 0) {\n")],
"a text with a bad field after at most a few kilobytes of numbers",
"the values before the bad field are still buffered when the clean-up looks, and reach the output afterwards",
r'''
printf '1,2\n3,x\n' >"$W/data/a.csv"
printf '4,5\n' >"$W/data/b.csv"
"$BIN/csv2bin" "$W/data/*.csv" >/dev/null 2>&1
[ ! -e "$W/data/binary/a.bin" ] || exit 1
[ "$(stat -c %s "$W/data/binary/b.bin")" = 16 ]
''', kind="tool:csv2bin")
seed("s31-stats-equal-neighbours", "P20", [("tools/src/collect-stats.rs",
"        let xored = x1 ^ x2;\n", "        let xored = x1 ^ x2;\n        if xored == 0 {\n            // nothing differs\n            continue;\n        }\n")],
"a text in which a number follows itself",
"equal neighbours no longer count as 64 leading and trailing zeros",
r'''
printf '1,1,1,2\n' >"$W/data/a.csv"
cd "$W" && "$BIN/collect-stats" "$W/data/*.csv" >/dev/null 2>&1
python3 - "$W/stats.json" <<'P'
import json, sys
s = json.load(open(sys.argv[1]))["a"]
assert abs(s["xor_leading_zeros_avg"] - (64 + 64 + 1) / 3) < 1e-9, s
P
''', kind="tool:collect-stats")
seed("s32-precision-threshold", "P21", [(XP + "lib.rs",
"        let number_of_records_of_precision = number_of_records_so_far[&precision];\n        println!(\n            \"number_of_records_of_precision: {}\",\n            number_of_records_of_precision\n        );\n        if (number_of_records_of_precision as f64 / number_of_records as f64) < ignore_threshold {\n            println!(\n                \"Skipping precision",
"        let number_of_records_of_precision = strs.len();\n        println!(\n            \"number_of_records_of_precision: {}\",\n            number_of_records_of_precision\n        );\n        if (number_of_records_of_precision as f64 / number_of_records as f64) < ignore_threshold {\n            println!(\n                \"Skipping precision", 0)],
"a text in which several high precisions are rare alone but reach one per cent together",
"each precision is judged alone, so a lower precision is chosen",
r'''fn main() {
    let mut t = String::new();
    for i in 0..200 { t += if i == 0 { "1.123\n" } else if i == 1 { "1.12\n" } else { "1.5\n" }; }
    assert_eq!(experimenter::get_appropriate_precision(t.as_bytes(), ',', false).unwrap(), 2);
}
''', kind="xp")
seed("s33-parquet-batches", "P22", [(XP + "tpch.rs",
"            columns\n                .entry(col_name.to_string())\n                .or_insert_with(Vec::new)\n                .extend(values);\n",
"            columns.insert(col_name.to_string(), values);\n")],
"a table of more rows than the parquet reader returns in one batch (1024)",
"only the last batch of rows takes part in the queries",
r'''use arrow::{array::{ArrayRef, Decimal128Array}, record_batch::RecordBatch};
use std::sync::Arc;
fn main() {
    let n = 3000;
    let col = |k: i128| -> ArrayRef { Arc::new(Decimal128Array::from((0..n).map(|i| (i as i128 * k) % 1000).collect::<Vec<i128>>()).with_precision_and_scale(15, 2).unwrap()) };
    let b = RecordBatch::try_from_iter([("l_quantity", col(3)), ("l_extendedprice", col(7)), ("l_discount", col(11)), ("l_tax", col(13))]).unwrap();
    let p = std::env::temp_dir().join(format!("s33-{}.parquet", std::process::id()));
    let mut w = parquet::arrow::ArrowWriter::try_new(std::fs::File::create(&p).unwrap(), b.schema(), None).unwrap();
    w.write(&b).unwrap();
    w.close().unwrap();
    let r = experimenter::tpch::process_h01(&p);
    std::fs::remove_file(&p).unwrap();
    let q: f64 = (0..n).map(|i| ((i * 3) % 1000) as f64 / 100.0).sum();
    for x in r.unwrap().values() { assert!((x.result[0].scalar().unwrap() - q).abs() < 30.0); }
}
''', kind="xp")
seed("s34-result-number", "P23", [(XP + "main.rs",
"        if !output_filename.exists() {\n            break output_filename;\n        }\n        file_number += 1;\n    };\n\n    // Write the output to JSON",
"        if !output_filename.exists() || file_number == 999 {\n            break output_filename;\n        }\n        file_number += 1;\n    };\n\n    // Write the output to JSON")],
"a result directory that already holds a thousand results",
"the thousandth result is overwritten by the next one",
r'''use std::process::Command;
fn main() {
    let w = std::path::PathBuf::from(std::env::var("W").unwrap());
    let dir = w.join("data");
    std::fs::write(dir.join("a.bin"), 1.0f64.to_le_bytes()).unwrap();
    std::fs::write(w.join("c.json"), serde_json::to_string(&experimenter::CompressionConfig::new(ebi::encoder::ChunkOption::Full, ebi::compressor::CompressorConfig::uncompressed().build().into())).unwrap()).unwrap();
    let run = || {
        let o = Command::new(std::env::current_exe().unwrap().with_file_name("experimenter")).env("LD_PRELOAD", w.join("shim.so"))
            .args(["-i", &format!("{}/a.bin", dir.display()), "compress", "-c", &format!("{}/c.json", w.display())]).output().unwrap();
        assert!(o.status.success(), "{o:?}");
        o
    };
    let find = || -> Vec<std::path::PathBuf> {
        let mut v = vec![]; let mut st = vec![w.clone()];
        while let Some(d) = st.pop() { for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { st.push(p) } else if p.file_name().unwrap() == "000.json" { v.push(p) } } }
        v
    };
    let o = run();
    let f = find();
    assert_eq!(f.len(), 1, "{o:?}");
    let d = f[0].parent().unwrap();
    for i in 0..1000 { std::fs::write(d.join(format!("{i:03}.json")), "old").unwrap(); }
    run();
    for i in 0..1000 { assert_eq!(std::fs::read_to_string(d.join(format!("{i:03}.json"))).unwrap(), "old"); }
}
''', kind="xp")
seed("s35-save-existing", "P24", [(XP + "lib.rs",
"        .write(true)\n        .create_new(true) // Return error if the file already exists\n        .open(path);\n",
"        .append(true)\n        .create_new(!path.is_symlink()) // Return error if the file already exists\n        .create(true)\n        .open(path);\n")],
"saving at a symbolic link to an earlier result",
"the new result is appended to the earlier one, which is damaged",
r'''fn main() {
    let w = std::path::PathBuf::from(std::env::var("W").unwrap()).join("data");
    std::fs::write(w.join("old.json"), "[1]").unwrap();
    std::os::unix::fs::symlink(w.join("old.json"), w.join("now.json")).unwrap();
    let _ = experimenter::save_json_safely(&vec![2], w.join("now.json"));
    assert_eq!(std::fs::read_to_string(w.join("old.json")).unwrap(), "[1]");
}
''', kind="xp")
seed("s36-alp-again", "P25", [("ebi/src/decoder/chunk_reader/ffi_alp.rs",
"        self.is_decompressed = true;\n\n        Ok(self.decompressed.as_slice())\n", "        Ok(self.decompressed.as_slice())\n")],
"a second query on the same chunk reader of an ALP file",
"the chunk is read again from where the reader stands: an error, or another chunk's bytes",
r'''use ebi::{api::{decoder::*, encoder::*}, compressor::CompressorConfig, encoder::ChunkOption};
fn main() {
    let v: Vec<f64> = (0..10).map(|x| x as f64).collect();
    let mut e = Encoder::new(EncoderInput::from_f64_slice(&v), EncoderOutput::from_vec(Vec::new()), ChunkOption::RecordCount(5), CompressorConfig::ffi_alp().build());
    e.encode().unwrap();
    let mut d = Decoder::new(DecoderInput::from_reader(std::io::Cursor::new(e.into_output().into_vec()))).unwrap();
    let mut r = d.chunk_reader(ChunkId::new(0)).unwrap();
    assert_eq!(r.sum(None).unwrap(), 10.0);
    assert_eq!(r.sum(None).unwrap(), 10.0);
}
''', kind="xp")
seed("s37-ucr-labels", "P29", [(XP + "main.rs",
"                label: iter.next().unwrap() as isize,\n",
"                label: iter.next().unwrap() as u8 as isize,\n")],
"an archive with a data set that uses negative class labels",
"all negative labels become 0, so wrong neighbours count as right and the accuracy is too high",
r'''use std::process::Command;
fn main() {
    let w = std::path::PathBuf::from(std::env::var("W").unwrap());
    let d = w.join("data/UCR/A");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("A_TRAIN.tsv"), "1\t9.5\n-1\t1.5\n0\t5.5\n").unwrap();
    std::fs::write(d.join("A_TEST.tsv"), "1\t9.5\n-1\t5.0\n0\t5.0\n").unwrap();
    let o = Command::new(std::env::current_exe().unwrap().with_file_name("experimenter")).env("LD_PRELOAD", w.join("shim.so"))
        .args(["-i", w.join("data/UCR").to_str().unwrap(), "ucr2018", "-o", w.join("data").to_str().unwrap()]).output().unwrap();
    assert!(o.status.success(), "{o:?}");
    let t = std::fs::read(w.join("data/result/ucr2018/000/Uncompressed.json")).unwrap();
    match serde_json::from_slice(&t).unwrap() {
        experimenter::Output::UCR2018(r) => assert_eq!(r.results["A"].accuracy, 0.5),
        _ => panic!(),
    }
}
''', kind="xp")
seed("s38-embedding-precision", "P29", [(XP + "main.rs",
"        .map(|(k, v)| (k, v.round() as u64))\n", "        .map(|(k, v)| (k, v as u64))\n")],
"a data set whose average precision has a fraction of a half or more",
"the precision is cut off, so the fixed-precision schemes lose the last decimal of most values",
r'''use std::process::Command;
fn main() {
    let w = std::path::PathBuf::from(std::env::var("W").unwrap());
    let d = w.join("data/emb");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a.bin"), 1.123f64.to_le_bytes()).unwrap();
    std::fs::write(d.join("precision_data.json"), "{\"a\": 2.7}").unwrap();
    let o = Command::new(std::env::current_exe().unwrap().with_file_name("experimenter")).env("LD_PRELOAD", w.join("shim.so"))
        .args(["-i", d.to_str().unwrap(), "embedding", "-o", w.join("data").to_str().unwrap()]).output().unwrap();
    assert!(o.status.success(), "{o:?}");
    let t = std::fs::read(w.join("data/result/embedding/000/embedding_result.json")).unwrap();
    match serde_json::from_slice(&t).unwrap() {
        experimenter::Output::Embedding(r) => assert_eq!(r["a"]["BUFF"].precision, 3),
        _ => panic!(),
    }
}
''', kind="xp")

seed("s39-run-count-hoisted", "P30", [("compressor/run_length.rs",
'''            // byte level comparison
            if self.previous_value.to_le_bytes() == value.to_le_bytes()
                && self.previous_run_count < u8::MAX
            {
                self.previous_run_count += 1;
                continue;
''', '''            let extended_run_count = self.previous_run_count + 1;
            // byte level comparison
            if self.previous_value.to_le_bytes() == value.to_le_bytes()
                && self.previous_run_count < u8::MAX
            {
                self.previous_run_count = extended_run_count;
                continue;
''', 0)],
"a build with overflow checks and a run of 255 equal values that is followed by another value",
"the count of a full run is incremented before it is compared with the limit, so debug builds panic",
r'''fn main() {
    let v: Vec<f64> = (0..600).map(|i| (i / 300) as f64).collect();
    round(&v, CompressorConfig::rle().build(), ChunkOption::Full);
}
''', kind="dbg")
seed("s40-portable-chunk-offset", "P31", [("decoder/chunk_reader/buff/filter_cmp.rs",
'''        } else {
            buff_simd256_cmp_filter_subcolumn_with_bitmask_nonsimd::<IS_GREATER, INCLUSIVE>(
                chunk,
                logical_offset,
                delta_fixed_pred_subcolumn,
                to_check_bitmask.iter(),
                qualified_bitmask,
            )
        }
    }
}
''', '''        } else {
            buff_simd256_cmp_filter_subcolumn_with_bitmask_nonsimd::<IS_GREATER, INCLUSIVE>(
                chunk,
                logical_offset,
                delta_fixed_pred_subcolumn,
                to_check_bitmask
                    .iter()
                    .take_while(|&x| x < number_of_records),
                qualified_bitmask,
            )
        }
    }
}
''')],
"the code for machines without vector instructions, a chunk after the first, and a comparison that the first byte of a record does not decide",
"the portable comparison stops at the chunk's record count without regard to where the chunk starts, so records of later chunks are missed",
r'''fn main() {
    let v: Vec<f64> = (0..40).map(|i| (i * 4099 % 70000 + 64 * (i % 3)) as f64 / 10.0).collect();
    let mut d = file(&v, CompressorConfig::buff().scale(10).build(), ChunkOption::RecordCount(10));
    let got = d.filter(Predicate::Range(Range::new(RangeValue::Inclusive(v[25]), RangeValue::None)), None, None).unwrap();
    let want: RoaringBitmap = (0..40u32).filter(|&i| v[i as usize] >= v[25]).collect();
    assert_eq!(got, want);
}
''', kind="portable")
SLOW = r'''use std::io::{Read as _, Seek as _};
struct Slow(Cursor<Vec<u8>>, std::rc::Rc<std::cell::Cell<std::time::Duration>>);
impl std::io::Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let t = std::time::Instant::now();
        std::thread::sleep(std::time::Duration::from_millis(3));
        let n = self.0.read(b)?;
        self.1.set(self.1.get() + t.elapsed());
        Ok(n)
    }
}
impl std::io::Seek for Slow {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
'''
seed("s41-product-times", "P32", [("api/decoder.rs",
"            }\n        }\n        debug_assert!(chunk_reader.is_last_chunk());\n        timer += chunk_reader", "            }\n        }\n        debug_assert!(chunk_reader.is_last_chunk());\n        timer = chunk_reader")],
"a matrix product over more than one chunk",
"the times reported for a product cover its last chunk only",
SLOW + r'''fn main() {
    let v: Vec<f64> = (0..30).map(|i| i as f64).collect();
    let b = enc(&v, CompressorConfig::gorilla().build(), ChunkOption::RecordCount(10));
    let paid = std::rc::Rc::new(std::cell::Cell::new(std::time::Duration::ZERO));
    let mut d = Decoder::new(DecoderInput::from_reader(Slow(Cursor::new(b), paid.clone()))).unwrap();
    paid.take();
    d.matmul(&[1.0, 2.0, 3.0], (3, 1), (5, 3)).unwrap();
    let (r, p) = (d.segmented_execution_times().io_read(), paid.take());
    assert!(r >= p, "reading took {p:?}, reported {r:?}");
}
''')
seed("s42-times-carried-over", "P32", [("api/decoder.rs",
"""            chunk_handles,
            ..
        } = self;

        self.timer = SegmentedExecutionTimes::new();

        for chunk_handle in chunk_handles
            .iter_mut()
            .enumerate()
            .filter(|(i, _)| chunk_id.is_none_or(|x| x.index() == *i))
            .map(|(_, x)| x)
        {
            let mut chunk_range_bitmap = RoaringBitmap::new();
            chunk_range_bitmap.insert_range(chunk_handle.logical_record_range_u32());
            if bitmask.is_some_and(|bm| (bm & chunk_range_bitmap).is_empty()) {
                continue;
            }

            let mut chunk_reader =
                Self::chunk_reader_from_handle(input, chunk_handle, self.precision)?;

            chunk_reader.materialize(output.writer_mut(), bitmask)?;
""", """            chunk_handles,
            ..
        } = self;

        for (index, chunk_handle) in chunk_handles
            .iter_mut()
            .enumerate()
            .filter(|(i, _)| chunk_id.is_none_or(|x| x.index() == *i))
        {
            let mut chunk_range_bitmap = RoaringBitmap::new();
            chunk_range_bitmap.insert_range(chunk_handle.logical_record_range_u32());
            if bitmask.is_some_and(|bm| (bm & chunk_range_bitmap).is_empty()) {
                continue;
            }
            if index == 0 {
                self.timer = SegmentedExecutionTimes::new();
            }

            let mut chunk_reader =
                Self::chunk_reader_from_handle(input, chunk_handle, self.precision)?;

            chunk_reader.materialize(output.writer_mut(), bitmask)?;
""")],
"an operation before, then materializing without the first chunk",
"the times reported after materializing records of later chunks include those of the operation before",
SLOW + r'''fn main() {
    let v: Vec<f64> = (0..30).map(|i| i as f64).collect();
    let b = enc(&v, CompressorConfig::gorilla().build(), ChunkOption::RecordCount(10));
    let paid = std::rc::Rc::new(std::cell::Cell::new(std::time::Duration::ZERO));
    let mut d = Decoder::new(DecoderInput::from_reader(Slow(Cursor::new(b), paid))).unwrap();
    d.sum(None, None).unwrap();
    let t = std::time::Instant::now();
    d.materialize(&mut DecoderOutput::from_vec(Vec::new()), None, Some(ChunkId::new(2))).unwrap();
    let wall = t.elapsed();
    let r = d.segmented_execution_times().io_read();
    assert!(r <= wall, "the call took {wall:?}, reported {r:?} for reading");
}
''')
seed("s43-last-full-window", "P33", [("decoder/query.rs",
"""    let offset_in_chunk = std::cmp::min(decompressed.len(), offset_in_chunk);
    let sum = decompressed[offset_in_chunk..]
        .iter()
        .zip(target)
        .map(|(&a, &b)| a * b)
""", """    let last_offset = decompressed.len().saturating_sub(target.len());
    let offset_in_chunk = std::cmp::min(last_offset, offset_in_chunk);
    let sum = decompressed[offset_in_chunk..]
        .iter()
        .zip(target)
        .map(|(&a, &b)| a * b)
""")],
"a dot product with a vector that reaches beyond the end of the chunk",
"the vector is multiplied with the last records of the chunk instead of those from the offset on",
r'''fn main() {
    let mut d = file(&[1.0, 2.0, 3.0, 4.0, 5.0], CompressorConfig::gorilla().build(), ChunkOption::RecordCount(3));
    let mut r = d.chunk_reader(ChunkId::new(0)).unwrap();
    assert_eq!(r.dot_product(1, &[10.0, 100.0]).unwrap(), 320.0);
    assert_eq!(r.dot_product(2, &[10.0, 100.0]).unwrap(), 30.0);
    assert_eq!(r.dot_product(3, &[10.0]).unwrap(), 0.0);
}
''')
seed("s44-long-row-remainder", "P12", [("decoder/query.rs",
"""    let sum = decompressed[offset_in_chunk..]
        .iter()
        .zip(target)
        .map(|(&a, &b)| a * b)
        .sum();
""", """    let records = &decompressed[offset_in_chunk..];
    let sum = if target.len() < 128 {
        records.iter().zip(target).map(|(&a, &b)| a * b).sum()
    } else {
        // long rows: four independent sums, so that the additions do not wait for each other
        let mut sums = [0.0; 4];
        for (r, t) in records.chunks_exact(4).zip(target.chunks_exact(4)) {
            for ((sum, &a), &b) in sums.iter_mut().zip(r).zip(t) {
                *sum += a * b;
            }
        }
        sums.iter().sum()
    };
""")],
"rows of 128 and more columns whose number is no multiple of four",
"the last one to three products of a long row are left out",
r'''fn main() {
    let v: Vec<f64> = (0..130).map(|i| i as f64).collect();
    let t = vec![1.0; 130];
    let mut d = file(&v, CompressorConfig::gorilla().build(), ChunkOption::Full);
    assert_eq!(&*d.matmul(&t[..65], (65, 1), (2, 65)).unwrap(), &[2080.0, 6305.0]);
    assert_eq!(&*d.matmul(&t, (130, 1), (1, 130)).unwrap(), &[8385.0]);
}
''')
seed("s45-timeout-ends-chunk", "P05", [("encoder.rs",
"""            Err(e) => return Err(e.into()),
        }
    }

    buf.truncate""", """            // what arrived so far makes a chunk of its own
            Err(e) if e.kind() == io::ErrorKind::TimedOut && n_read >= size_of::<f64>() => break,
            Err(e) => return Err(e.into()),
        }
    }

    buf.truncate""")],
"an input that times out once in the middle of a chunk",
"the read error is swallowed: the chunk ends early, and the bytes of a record that was under way are lost",
r'''struct Slow(Vec<u8>, usize, bool);
impl std::io::Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 20 && !self.2 {
            self.2 = true;
            return Err(std::io::ErrorKind::TimedOut.into());
        }
        let end = if self.2 { self.0.len() } else { 20 };
        let n = b.len().min(end - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let v: Vec<f64> = (0..8).map(|i| i as f64 * 1.5).collect();
    let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut e = Encoder::new(
        EncoderInput::from_reader(Slow(bytes, 0, false)),
        EncoderOutput::from_vec(Vec::new()),
        ChunkOption::RecordCount(4),
        CompressorConfig::gorilla().build(),
    );
    assert!(e.encode().is_err(), "the input failed, but encoding reported success");
}
''')
