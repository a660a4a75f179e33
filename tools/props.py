T_RT = "exhaustive enumeration of bounded input sequences, encoded and decoded by the real crate, compared with the identity"
T_REF = "exhaustive enumeration of bounded files x queries x masks on the real crate, compared with a reference evaluator"
T_HIST = "explicit-state exploration of all operation histories up to a depth on the real component in lock-step with a reference model"
T_FAULT = "exhaustive crash-point and fault enumeration on the real encoder and decoder under an injected I/O layer"
D = "ebi/src/decoder/chunk_reader/"
C = "ebi/src/compressor/"
PROPS.append(p("P01", "Lossless schemes return every value bit for bit",
 "Whatever sequence of doubles is encoded with a lossless compression scheme (uncompressed, run-length, Gorilla, Chimp, Chimp128, Elf, Elf on Chimp, Zstd, Gzip, Snappy) and under whatever chunk setting, decoding the file returns exactly the same doubles, bit for bit and in the same order. This includes signed zeros, infinities, subnormals, every pattern of leading and trailing equal bits between neighbours, values recurring at any distance, and decimals of any precision. (The canonical NaN, and for the two Elf schemes any NaN, inside an XOR-compressed chunk is a recorded open defect.)",
 ["inputs", "configurations"], "all value sequences, all lossless schemes, all chunk options; explored: all short sequences over special doubles, all pairs of XOR windows, all recurrence lags, all run-length tuples around the counter limits, all decimals in a range, all record counts in a range",
 "the tests encode a few random and decimal series per scheme; a window/lag/precision combination that breaks one encoder branch is not among them",
 [C + "general_xor.rs", C + "gorilla.rs", C + "chimp.rs", C + "chimp_n.rs", C + "elf.rs", C + "run_length.rs", C + "uncompressed.rs", "ebi/src/compression_common/elf.rs", D + "general_xor.rs", D + "gorilla.rs", D + "chimp.rs", D + "chimp_n.rs", D + "elf.rs", D + "run_length.rs"],
 [("encoder and decoder of each scheme keep the same window / ring / run state", "ebi/src/compressor/*.rs with ebi/src/decoder/chunk_reader/*.rs"), ("bit writer and reader", "ebi/src/io/bit_write.rs, ebi/src/io/bit_read.rs")],
 ["encode to memory, open, materialize everything"], "exhaustive within the stated alphabets and lengths, on the real code; values outside the alphabets are not covered", T_RT))
PROPS.append(p("P02", "Fixed-precision schemes return every decimal within its precision",
 "A value with at most the configured number of decimals that is encoded with delta-Sprintz (0 to 9 decimals) decodes to exactly the double nearest that decimal; encoded with BUFF (0 to 12 decimals) it decodes to a value that rounds to that decimal. This holds for every mix of values, spreads, signs and record counts in a chunk as long as the scaled values fit the format. (Delta-Sprintz scales of 10^10 and above are a recorded open defect.)",
 ["inputs", "configurations"], "all decimal sequences, precisions and chunk options; explored: all short sequences over boundary decimals, all bit widths x record counts, all decimals in a range, all points around powers of two and ten",
 "the tests use a handful of series at precision about 2; carry, width and padding boundaries depend on the exact spread, base, sign and count",
 [C + "buff.rs", C + "sprintz.rs", "ebi/src/compression_common/buff.rs", D + "buff.rs", D + "buff/decode.rs", D + "sprintz.rs"],
 [("bounded fixed point with per-precision fraction bits, frame of reference, byte sub-columns", "ebi/src/compressor/buff.rs"), ("quantise, delta, zigzag, bit packing", "ebi/src/compressor/sprintz.rs")],
 ["encode to memory, open, materialize everything"], "exhaustive within the stated grids, on the real code; |scaled value| <= 2^50", T_RT))
PROPS.append(p("P03", "Chunks tile the file and each chunk can be read on its own",
 "Every finished file's chunk table splits the records into consecutive, non-empty, non-overlapping ranges that follow the requested chunk setting (one chunk, or exactly the requested number of records per chunk), and their byte ranges tile the space between header and footer; the recorded totals agree with the file. Each chunk alone yields exactly its slice of the input, even when all other chunks' bytes are destroyed. An empty input gives a readable file with no records, and a chunk size of zero is refused or loses nothing.",
 ["inputs", "configurations"], "all record counts, chunk options and schemes; explored: every record count and chunk size in a range plus larger ones",
 "tests check a few chunk sizes on one length; off-by-one at an exact multiple, at one record, or at an empty input needs every combination",
 ["ebi/src/encoder.rs", "ebi/src/api/encoder.rs", "ebi/src/decoder.rs", "ebi/src/api/decoder.rs", "ebi/src/format.rs"],
 [("chunk writer reads up to the chunk's record budget and records physical and logical offsets", "ebi/src/encoder.rs"), ("chunk handles derive each chunk's extent from the next chunk's footer", "ebi/src/decoder.rs")],
 ["footer, chunk footers, chunk handles, materialize of one chunk"], "exhaustive over record counts, chunk options and schemes in the stated ranges, on the real code", T_RT))
PROPS.append(p("P04", "A file reports exactly the settings and figures it was written with",
 "For every compression scheme and every setting of it (capacity, level, scale) and every chunk setting, the opened file reports the same scheme, settings and chunk setting, the number of records written, a compression time no longer than the encode took, and exactly the execution times handed to its writer. Serialised settings take exactly the size announced for them and read back equal. Offsets are 64 bits wide: however far apart the chunks lie, the file lists them and reads each in its place.",
 ["configurations", "inputs"], "all scheme settings, chunk settings and time figures in the stated grids",
 "tests look at one or two headers; a swapped, truncated or misaligned field shows only for particular settings",
 ["ebi/src/format.rs", "ebi/src/format/serialize.rs", "ebi/src/format/deserialize.rs", "ebi/src/format/native.rs", "ebi/src/compressor.rs", "ebi/src/encoder.rs", "ebi/src/time.rs"],
 [("raw header/footer structures and their native counterparts", "ebi/src/format/{serialize,deserialize,native}.rs"), ("length-prefixed configuration bytes", "ebi/src/compressor.rs")],
 ["header(), footer() of the opened file; serialised configuration"], "exhaustive over the stated configuration grids, on the real code", "exhaustive enumeration of configurations on the real crate, written and read back"))
PROPS.append(p("P05", "How the input is delivered never changes the stored data",
 "However the reader hands the input bytes to the encoder (in any sizes, split anywhere inside a record, interrupted and retried, from memory, a plain file or a buffered file), the file written is the same apart from time figures; a trailing incomplete record is dropped and nothing else. If the input fails, encoding reports an error rather than storing a shortened input as complete.",
 ["schedules", "inputs", "fault_sequences"], "all fragmentations and interruption patterns of the input reads; explored: all scripts of up to 4-5 reads with steady tails, all byte lengths, an error at every byte",
 "tests read from slices that deliver everything at once; a short read inside a record at a chunk boundary never happens there",
 ["ebi/src/encoder.rs", "ebi/src/api/encoder.rs", "ebi/src/io/as_bytes_mut.rs"],
 [("the chunk writer loops until its buffer is filled or the input ends", "ebi/src/encoder.rs")],
 ["bytes of the file written"], "exhaustive over the read scripts, lengths and error positions stated, on the real code", "exhaustive enumeration of read schedules (fragment sizes, interruptions, errors) under a scripted reader on the real encoder"))
PROPS.append(p("P06", "Crashes and I/O errors never pass unnoticed or yield wrong data",
 "If encoding is cut off at any byte of any write, or a finished file is truncated anywhere, opening what is left is refused with an error (never a panic, never a file that looks complete but holds other data) until the footer pointer is in place. If any write, seek, flush or read fails during encoding or decoding, the operation reports an error and does not panic, and short writes or reads change nothing in the result.",
 ["crash_points", "fault_sequences"], "every crash point (byte granularity in issue order), every truncation, every single failing I/O operation of encode, open, materialize, filter, sum",
 "no test injects a fault or truncates a file",
 ["ebi/src/encoder.rs", "ebi/src/api/encoder.rs", "ebi/src/api/decoder.rs", "ebi/src/decoder.rs", D + "buff.rs", D + "chimp_n.rs"],
 [("footer offset in the header is patched last", "ebi/src/api/encoder.rs"), ("errors of the underlying stream are returned", "ebi/src/decoder.rs, ebi/src/decoder/chunk_reader/*.rs")],
 ["result of encode; result of opening the crash image; data read from it"], "exhaustive over crash points and single faults of the stated histories; the 8-byte footer pointer is taken to be written atomically", T_FAULT))
PROPS.append(p("P07", "A filter returns exactly the selected records that satisfy the predicate",
 "For every scheme, chunk setting, predicate (equal, not equal, any range with open, closed or missing ends) and record mask, filtering the file, one chunk of it or a chunk reader returns exactly the positions of the masked records whose value satisfies the predicate under ordinary floating-point comparison. That includes constants that are absent, outside the stored range, infinite or huge, masks with bits beyond the data, NaN constants, and NaN data where the scheme can store it. For BUFF the finite constants considered have at most the file's number of decimals (or lie far outside the data); for every other scheme they are arbitrary.",
 ["inputs", "configurations"], "all data x predicates x masks; explored: all short sequences x all predicates x all masks, all byte values, all bit widths x lane alignments",
 "tests compare a few predicates without masks on a few series; in-situ filters have separate paths per byte, lane, mask density and out-of-range constant",
 [D + "buff/filter_cmp.rs", D + "buff/filter_eq.rs", D + "buff/filter.rs", D + "run_length.rs", D + "sprintz.rs", D + "chimp_n.rs", "ebi/src/decoder/query.rs", "ebi/src/api/decoder.rs"],
 [("default: decompress and compare", "ebi/src/decoder/query.rs"), ("BUFF: byte-column comparison in situ with vector lanes", "ebi/src/decoder/chunk_reader/buff/"), ("run-length and others: compare per run", "ebi/src/decoder/chunk_reader/run_length.rs")],
 ["filter on decoder and chunk reader"], "exhaustive within the stated data, predicate and mask families, on the real code", T_REF))
PROPS.append(p("P08", "Materialising under a mask or predicate returns just those records in order",
 "For every scheme, chunk setting, record mask and predicate, materialising (optionally filtered) writes exactly the values that a full decode gives for the selected records, bit for bit and in record order, for the whole file, one chunk or a chunk reader. Mask bits beyond the data are ignored.",
 ["inputs", "configurations"], "all data x masks x predicates; explored: all short sequences x all masks, longer chunks x dense, strided, sparse and single-record masks, files beyond 2^16 records",
 "tests materialise with a few random masks",
 ["ebi/src/decoder/query.rs", "ebi/src/api/decoder.rs", D + "buff.rs", D + "buff/decode.rs", D + "run_length.rs", D + "uncompressed.rs", D + "sprintz.rs"],
 [("per-scheme materialize with mask", "ebi/src/decoder/query.rs and overrides in ebi/src/decoder/chunk_reader/")],
 ["materialize and filter_materialize on decoder and chunk reader"], "exhaustive within the stated families, on the real code; compared with the unmasked decode, which P01/P02 decide", T_REF))
PROPS.append(p("P09", "Sum, minimum and maximum are those of the selected records",
 "For every scheme, chunk setting and record mask, the sum (up to floating-point rounding), minimum and maximum reported for the file, one chunk or a chunk reader are those of the decoded values of exactly the selected records. With nothing selected the sum is zero and no minimum or maximum is invented.",
 ["inputs", "configurations"], "all data x masks; explored: all short sequences x all masks, all bit widths, the extreme at every position",
 "tests compute aggregates over a few random series",
 [D + "buff/sum.rs", D + "buff/min_max.rs", D + "run_length.rs", D + "sprintz.rs", "ebi/src/decoder/query.rs", "ebi/src/api/decoder.rs"],
 [("BUFF aggregates computed on byte columns", "ebi/src/decoder/chunk_reader/buff/{sum,min_max}.rs"), ("run-length aggregates per run", "ebi/src/decoder/chunk_reader/run_length.rs"), ("chunk results combined", "ebi/src/api/decoder.rs")],
 ["sum, min, max on decoder and chunk reader"], "exhaustive within the stated families, on the real code; finite data", T_REF))
PROPS.append(p("P10", "Expressions over columns are evaluated row by row",
 "For every expression over columns and constants with a column on at least one side of each operation, every aggregation of it (values, sum, minimum, maximum), every mix of column schemes, chunk setting and record mask, evaluating it alone or in a batch gives the same result as computing it row by row on the decoded selected rows. Expressions without a column and columns that are not split into the same chunks are refused with an error, never answered with misaligned rows.",
 ["inputs", "programs", "configurations"], "all expression trees of bounded depth x aggregations x masks x chunk layouts",
 "tests evaluate two or three expressions on random columns",
 ["ebi/src/decoder/expr.rs", "ebi/src/api/decoder.rs"],
 [("chunk-wise stack evaluation and accumulation", "ebi/src/decoder/expr.rs")],
 ["Aggregation::compute and compute_multiple"], "exhaustive over the expression grammar to depth 2 and the stated tables, on the real code", "exhaustive enumeration of expression trees up to depth 2 x tables x masks on the real crate, compared with a reference interpreter"))
PROPS.append(p("P11", "Nearest-neighbour search finds the closest stored vector",
 "For every file, chunk setting and non-empty target vector, the search returns the index of a stored vector (consecutive groups of the target's length, a trailing partial group ignored) at the smallest Euclidean distance and that squared distance, wherever the vectors fall relative to chunk boundaries. Without any complete vector the distance is infinite; an empty target is refused.",
 ["inputs", "configurations"], "all data x targets x chunkings; explored: all short ternary data x binary targets x chunkings, all schemes",
 "tests use a few vector lengths whose alignment with chunks is fixed",
 ["ebi/src/api/decoder.rs", "ebi/src/decoder/query.rs", D + "chimp_n.rs", D + "buff.rs"],
 [("partial distances carried across chunks", "ebi/src/api/decoder.rs")],
 ["knn1 on the decoder"], "exhaustive within the stated families, on the real code", T_REF))
PROPS.append(p("P12", "The matrix product is that of the stored matrices with the target",
 "For every batch of matrices stored in a file, every shape, chunk setting and scheme, multiplying with a target matrix returns, matrix by matrix and row by row, the ordinary matrix product of the decoded values, wherever matrices and rows fall relative to chunk boundaries. Shapes or lengths that do not fit are refused with an error.",
 ["inputs", "configurations"], "all shapes x batches x chunkings x schemes in the stated ranges, all misfitting shapes up to 3",
 "tests use a few shapes that divide the chunk size",
 ["ebi/src/api/decoder.rs", "ebi/src/decoder/query.rs"],
 [("row dot products carried across chunks", "ebi/src/api/decoder.rs")],
 ["matmul on the decoder"], "exhaustive within the stated shapes, on the real code (CPU path; the CUDA path cannot run here)", T_REF))
PROPS.append(p("P13", "Query results do not depend on what was asked before",
 "Any sequence of operations on one decoder or one chunk reader (decoding fully or partly, masked and filtered reads, aggregates, distances, dot products, nearest neighbour, matrix product, abandoned readers, refused calls) gives at every step the answer a freshly opened file would give.",
 ["histories"], "all operation histories up to the stated depth, for every scheme",
 "tests ask one question per reader; cached decompression, in-situ cursors and shared file positions only matter on the second",
 ["ebi/src/decoder/chunk_reader.rs", D + "general_xor.rs", D + "chimp_n.rs", D + "run_length.rs", D + "sprintz.rs", D + "buff.rs", D + "uncompressed.rs", "ebi/src/api/decoder.rs"],
 [("lazily decompressed values cached in each chunk reader", "ebi/src/decoder/chunk_reader/*.rs"), ("seek before every chunk", "ebi/src/api/decoder.rs")],
 ["every query on one chunk reader / decoder"], "exhaustive over all histories of depth 3 (quick) or 4 (thorough), on the real code", T_HIST))
PROPS.append(p("P14", "A reused compressor compresses like a fresh one and announces its size",
 "After any history of compressions, preparations and resets, compressing a block with a compressor gives byte for byte the output a fresh compressor gives. At any time before preparing the output, the number of buffered bytes it announces is the number of bytes it then delivers, and after a reset the input count is that of the blocks since.",
 ["histories", "inputs"], "all histories of compress/prepare/reset up to the stated depth x blocks x scheme settings; all short inputs and all XOR windows for the announced size",
 "tests compress once per compressor; state surviving a reset shows only in the second block",
 ["ebi/src/compressor.rs", C + "general_xor.rs", C + "gorilla.rs", C + "chimp.rs", C + "chimp_n.rs", C + "elf.rs", C + "run_length.rs", C + "uncompressed.rs", C + "buff.rs", C + "sprintz.rs", C + "zstd.rs", C + "gzip.rs", C + "snappy.rs"],
 [("reset clears all stream state", "ebi/src/compressor/*.rs")],
 ["compress, prepare, buffers, reset, total_bytes_buffered, total_bytes_in"], "exhaustive over all histories of depth 4 (quick) or 5 (thorough), on the real code", T_HIST))
PROPS.append(p("P15", "Appending and rewinding leave exactly the records that remain",
 "For the compressors that can append and rewind (uncompressed and run-length), after any history of appends and rewinds the compressor holds exactly the sequence obtained by concatenating the appended values and dropping the rewound ones from the end: the output decodes to it, and the input count and announced size agree. A rewind of more records than are held is refused and changes nothing.",
 ["histories"], "all histories of appends and rewinds up to the stated depth, including runs around the run-counter limit",
 "tests append and rewind once; run splitting and merging at the counter limit needs particular histories",
 [C + "run_length.rs", C + "uncompressed.rs", "ebi/src/compressor.rs"],
 [("run counter split at its limit and merged on append", "ebi/src/compressor/run_length.rs")],
 ["append, rewind, prepare, buffers"], "exhaustive over all histories of depth 5/6 (short blocks) and 4/5 (long runs), on the real code", T_HIST))
PROPS.append(p("P16", "The bit writer writes exactly the bits it is given, in order",
 "After any sequence of writes of single bits, bytes and groups of 0 to 64 bits, moves of the cursor back to an earlier position and resets, the written bytes are exactly the requested bits in order, most significant first and zero-padded, and the reported bit count is exact. Bits above the requested width and bits that lay behind a moved cursor never leak into the output.",
 ["histories", "inputs"], "all operation sequences up to the stated depth; every width at every offset followed by every width",
 "the doc tests show single examples per function",
 ["ebi/src/io/bit_write.rs"], [("bit cursor over a byte vector", "ebi/src/io/bit_write.rs")],
 ["as_slice, close, number_of_bits_written"], "exhaustive over all histories of depth 4/5 and all width pairs at all offsets, on the real code", T_HIST))
PROPS.append(p("P17", "The bit reader delivers exactly the stored bits and stops at the end",
 "After any sequence of bit, byte, 1- to 64-bit reads, peeks, skips (also beyond the end) and resets, every read delivers exactly the next stored bits, a peek moves nothing, and a read that does not fit in what remains delivers nothing and leaves the position as it was. What the bit writer wrote, the reader reads back.",
 ["histories", "inputs"], "all operation sequences up to the stated depth on buffers of 0 to 20 bytes; every pair of widths at every offset and buffer length",
 "the doc tests show single examples per function",
 ["ebi/src/io/bit_read.rs"], [("bit cursor over a byte slice", "ebi/src/io/bit_read.rs")],
 ["read_bit, read_byte, read_bits, peak_bits, skip_bits, reset"], "exhaustive over all histories of depth 4/5 and all width pairs, on the real code", T_HIST))
PROPS.append(p("P18", "Reading BUFF at a lower precision stays within that precision",
 "A file written with BUFF and read with a requested number of decimals n still delivers one value per selected record in order; each lies at most 10^-n below the stored value and never above it, and is exactly the stored value once n reaches the file's precision, for any n however large. The last precision set counts, whatever was read before. Filters, sums, minima and maxima are those of the stored values, and the other schemes ignore the setting.",
 ["inputs", "configurations", "histories"], "all file precisions x requested precisions x spreads x masks; all histories of precision changes and reads up to the stated depth",
 "no test reads at a reduced precision through the decoder",
 [D + "buff/controlled_precision.rs", D + "buff.rs", D[:-1] + ".rs", "ebi/src/api/decoder.rs"],
 [("byte sub-columns below the requested precision are left out", "ebi/src/decoder/chunk_reader/buff/controlled_precision.rs"), ("cached values dropped when the precision rises", "ebi/src/decoder/chunk_reader/buff.rs")],
 ["with_precision on decoder and chunk reader, then materialize, filter, aggregates"], "exhaustive within the stated families, on the real code", T_HIST))
T_DMG = "exhaustive enumeration of byte-level damage to well-formed files, read by the real decoder and compared with the undamaged file"
T_TOOL = "exhaustive enumeration of a bounded family of inputs and run histories of the real tools, checked against a reference model"
PROPS.append(p("P19", "csv2bin writes exactly the numbers of the text",
 "For every text of comma- and line-separated numbers, csv2bin writes one binary file that holds exactly the doubles nearest to those numbers, in order, empty fields left out. A text with a field that is no number leaves no output and is not reported as processed, and spoils no other file; a file is reported as processed only if all of its values were written. Converting again replaces the earlier output as a whole.",
 ["inputs", "faults", "histories"], "all texts up to the stated length over a small alphabet, file sizes around the write buffer, repeated conversions, a full device",
 "the tool has no tests",
 ["tools/src/csv2bin.rs"], [("one line at a time through a buffered writer", "tools/src/csv2bin.rs")],
 ["binary/<name>.bin and the messages of csv2bin"], "exhaustive within the stated families, on the real tool", T_TOOL))
PROPS.append(p("P20", "collect-stats reports the statistics of the numbers in the text",
 "For every readable text of numbers, collect-stats reports the number of values, and the maximum, minimum, mean and standard deviation of decimals, binary exponents and values, the mean leading and trailing zero bits of neighbouring values' XOR and the share of repeated values that follow from their definitions. A text with a field that is no number is left out and spoils no other file; NaN and infinities do not stop the run.",
 ["inputs"], "all sequences up to the stated length over 12 notations and 8 odd fields, longer files with repetitions",
 "the tool has no tests",
 ["tools/src/collect-stats.rs"], [("one pass with running sums", "tools/src/collect-stats.rs")],
 ["stats.json"], "exhaustive within the stated families, on the real tool", T_TOOL))
PROPS.append(p("P21", "The inferred precision is that of the numbers in the text",
 "The number of decimals of a decimal notation is that of its value as written: digits after the point, shifted by the exponent, never below zero. The exact precision of a text is the largest of its records; the tolerant one is the largest number of decimals that at least one record in a hundred reaches; the scale is ten to that power and is refused when it does not fit. A text without records is refused. Data written with the fixed-precision schemes at the exact precision read back unchanged to that precision.",
 ["inputs"], "all decimal notations up to the stated length, mixtures around the one-in-a-hundred threshold, all short texts of ten notations",
 "seven doc examples of one function",
 ["experimenter/src/lib.rs"], [("histogram of decimals with a threshold", "experimenter/src/lib.rs")],
 ["get_decimal_precision, get_appropriate_precision, get_appropriate_scale"], "exhaustive within the stated families, on the real library", T_TOOL))
PROPS.append(p("P22", "The TPC-H queries over compressed columns give the textbook answers",
 "For every lineitem table in a parquet file - any order of columns, the two flag columns or not, any row groups and decimal scales - and every scheme, queries 1 and 6 and the simplified query 1 return the sums, averages and count that a row-by-row evaluation of the stored values gives, in the documented order, with the statistics of each column's file and times that add up: one per query, and segments that lie within their total. A directory that lacks one of the two tables is refused.",
 ["inputs", "configurations"], "all tables up to the stated number of rows over ten row kinds x schemes x layouts",
 "no tests; one run per benchmark",
 ["experimenter/src/tpch.rs", "ebi/src/api/decoder.rs", "ebi/src/decoder/expr.rs"], [("columns encoded to files, queries over several decoders", "experimenter/src/tpch.rs")],
 ["process_h01, process_h01_simplified, process_h06, tpch_command"], "exhaustive within the stated families, on the real library (ALP through a stand-in codec)", T_TOOL))
PROPS.append(p("P23", "The experimenter's commands do and report what the library does",
 "For every scheme, chunk size, mask, chunk choice and predicate, the commands compress, materialize, filter, filter-materialize, max and sum process every file matched, write the outputs the stored values call for, and write one new readable result per file that names the input and configuration, holds the right answer, sizes and a time within which its segments lie, and never replaces an earlier result. A file is reported as finished only when its output and result are complete. The created filters are those of the file's percentiles, the created compressor configurations those of the text's precision; the whole experiment covers every data set and scheme with the asked number of repetitions, and a patch measures exactly the chosen part again and keeps the rest.",
 ["configurations", "histories", "faults"], "13 schemes x chunk options x masks x chunk choices x predicates in memory and in files, a size limit at every byte, all choices of data sets and schemes to patch",
 "the binary has no tests",
 ["experimenter/src/main.rs", "experimenter/src/lib.rs", "ebi/src/time.rs"], [("numbered result files beside the data", "experimenter/src/main.rs")],
 ["exit status, messages, output files and result JSON of the experimenter"], "exhaustive within the stated families, on the real program (system settings behind a shim, ALP through a stand-in codec)", T_TOOL))
PROPS.append(p("P24", "Configurations survive being written as JSON, and saved results are not overwritten",
 "Every compressor configuration, chunk option, predicate, mask, chunk choice and experiment result written as JSON reads back as the same (the infinite ratio of an empty file included; that some constants of 16 or 17 digits come back as a neighbouring number is recorded as an open defect). The summaries of a table of results list, transpose and average exactly the entries it holds, and repeating a run with equal measurements leaves its average throughput and ratio as they are. Saving a result creates missing directories and never replaces or damages a file that is there, whatever was saved before. Reported compression statistics are the sizes and ratios of the file they describe.",
 ["inputs", "configurations", "histories"], "all configurations over the stated values, all histories of saves up to the stated depth, 13 schemes x sizes x chunk options, every table of 3 data sets x 3 schemes",
 "no tests",
 ["experimenter/src/lib.rs", "ebi/src/compressor.rs", "ebi/src/encoder.rs", "ebi/src/decoder/query.rs"], [("serde derives, AllOutput", "experimenter/src/lib.rs"), ("save_json_safely", "experimenter/src/lib.rs")],
 ["serde_json round trip, save_json_safely, get_compress_statistics"], "exhaustive within the stated families, on the real library", T_TOOL))
PROPS.append(p("P25", "The ALP scheme keeps and answers what its codec is given",
 "With any lossless codec behind the ALP scheme, files of that scheme decode bit for bit for every input and chunk setting, every query, aggregate, distance and product answers as for the decoded values, in any order of calls, faults are reported, and the compressor can be reused - the scheme and its binding pass the codec exactly the chunk's records and bytes and nothing else, with room for the whole blocks of 1024 it works in.",
 ["inputs", "configurations", "histories", "faults"], "the families of P01, P03, P05 to P09, P11 to P14 and P18 with the ALP scheme",
 "the scheme's tests need the C++ library and sample random data",
 ["ebi/src/compressor/ffi_alp.rs", D + "ffi_alp.rs", "ebi/src/compressor.rs", D[:-1] + ".rs", "alp-binding/src/lib.rs"], [("one codec block per chunk", "ebi/src/compressor/ffi_alp.rs")],
 ["encode, decode and all queries"], "exhaustive within the stated families, on the real scheme and the Rust side of the binding with a stand-in codec that detects foreign bytes, wrong record counts and too little room", T_HIST))
PROPS.append(p("P26", "Files stay interchangeable with the version under study",
 "A file written by the crate as it stands at this commit opens in any later state of the code with the same values (bit for bit; for BUFF the same decimals), the same chunk table, record count, scheme and chunk setting; and a file that the later state writes for the same input, scheme and chunk setting is read by this commit's decoder with the same result as by its own. The stored format, in other words, does not drift: not even when encoder and decoder drift together.",
 ["inputs", "configurations"], "all value sequences, schemes and chunk options; explored: the families of P01 and P02, each file written and read by both versions",
 "the tests write and read with the same build, so a change made on both sides goes unseen, and so does a decoder path that the current encoder no longer takes",
 ["ebi/src/format.rs", "ebi/src/format/serialize.rs", "ebi/src/format/deserialize.rs", C + "*.rs", D + "*.rs", "ebi/src/compression_common/*.rs"],
 [("on-disk structures", "ebi/src/format.rs"), ("bit layout of each scheme", "ebi/src/compressor/*.rs with ebi/src/decoder/chunk_reader/*.rs")],
 ["bytes written; values, chunk table and settings read"], "exhaustive within the stated alphabets and lengths, on the real code against a frozen copy of it as the format's reference model", "exhaustive enumeration of bounded inputs, each written and read crosswise by the real crate and by a frozen reference implementation of the format"))
PROPS.append(p("P27", "Streaming file writer and reader give the same files and values as the one-call interface",
 "Writing chunk by chunk with FileWriter, whatever compressor is handed over for each chunk (none, the previous chunk's, one used or still holding data from elsewhere), yields the same file as the one-call encoder apart from time figures; so does every kind of output (memory, plain or buffered file, replacing an older longer file). Reading with FileReader in any order of calls gives header, footer and metadata exactly when the steps before were done, repeated fetches change nothing; the chunk handles of all iterators are the same and describe the chunk table; and any sequence of chunks read over one shared stream yields each chunk's slice, by materialize, decompress or iteration.",
 ["histories", "inputs", "configurations"], "all hand-over patterns of compressors, all call histories of the file reader, all chunk orders up to the stated depth, 12 schemes x chunk options x record counts",
 "the tests write with a fresh or the previous compressor and read front to back",
 ["ebi/src/encoder.rs", "ebi/src/decoder.rs", "ebi/src/api/encoder.rs", "ebi/src/decoder/chunk_reader.rs", "ebi/src/compressor.rs"],
 [("FileWriter::chunk_writer_with_compressor resets the compressor it is given", "ebi/src/encoder.rs"), ("FileReader caches header and footer", "ebi/src/decoder.rs"), ("GeneralChunkHandle", "ebi/src/decoder.rs")],
 ["FileWriter, ChunkWriter, FileReader, MetadataRef, Metadata, GeneralChunkHandle, GeneralChunkReader"], "exhaustive within the stated depths and families, on the real code", T_HIST))
PROPS.append(p("P28", "Damaged or foreign files never crash the reader and never pass for what they are not",
 "Opening a file, and every reading of it (materialize, filter, filter_materialize, sum, min, max; whole file or one chunk; masked or not), returns a result or an error and never panics, aborts or allocates without bound, whatever one or two bytes of a well-formed file outside its record count were changed. A file whose magic number, field type, compression scheme or chunk option kind is not one of this format is refused, as is every proper prefix of a file and any input not starting with the magic number. Damage inside one chunk leaves every other chunk readable with its values and answers unchanged, and damage to the fields that only describe the file (version, chunk option, times) changes no answer.",
 ["inputs", "faults"], "every byte position x byte values, all pairs of steering bytes, every prefix, all short sequences of foreign pieces, 12 schemes x file shapes",
 "the tests read only files they just wrote",
 ["ebi/src/decoder.rs", "ebi/src/format/deserialize.rs", "ebi/src/decoder/chunk_reader", "ebi/src/api/decoder.rs"],
 [("FileReader::fetch_header, seek_to_footer, fetch_footer", "ebi/src/decoder.rs"), ("TryFromLeBytes for FileHeader", "ebi/src/format/deserialize.rs"), ("chunk readers check the stream's end", "ebi/src/decoder/chunk_reader")],
 ["Decoder::new, FileReader, chunk readers"], "exhaustive within the stated byte positions and values, on the real code", T_DMG))
PROPS.append(p("P29", "The archive experiments save complete and right results in a directory of their own",
 "The UCR-2018 1-NN, embedding and TPC-H commands process every data set of the input directory (and nothing else that lies there) with every scheme, and save readable results in one new numbered directory (result/ucr2018 next to the archive, result/embedding or result/tpch below the output directory), however many there are already, never touching the input or the results of earlier runs. A 1-NN result holds the accuracy of nearest-neighbour search over the training vectors as stored (the lines after the first of each file, a missing value counting as 0, values rounded to the training file's precision, BUFF also read at 1, 3, 5 and 8 decimals), the scale and the true sizes, and five timings per test vector, each with segments that lie within it; an embedding result the sizes and first bytes of what is stored and read back, ten times, leaving out fixed-precision schemes beyond 12 decimals; a TPC-H result the answers of P22, five times. A command that cannot read its input or complete its results ends with an error.",
 ["inputs", "configurations", "histories", "faults"], "all small training sets x test sets, all precisions 0..=12 (embeddings 0..=22), all schemes, empty and non-empty earlier results, missing files, size limits",
 "the binary has no tests",
 ["experimenter/src/main.rs", "experimenter/src/lib.rs", "experimenter/src/tpch.rs"], [("ucr2018_command, slurp_file, embedding_command, save_*_json, numbered directories in main", "experimenter/src/main.rs")],
 ["exit status and result files of the experimenter"], "exhaustive within the stated families, on the real program (system settings behind a shim, ALP through a stand-in codec)", T_TOOL))
PROPS.append(p("P30", "A debug build answers as the release build does",
 "Built with overflow checks and debug assertions, encoding any supported values with any scheme and chunk setting, and opening, reading and querying the resulting files, gives the same results as the release build: no operation panics on sound input because an intermediate step overflows, shifts by the width of its type, or fails an assertion.",
 ["inputs", "configurations", "histories", "faults"], "the families of P01 to P18 and P27, on the code compiled with both kinds of checks",
 "the tests sample random values; none hits a power of two behind the sign in Elf, and the release build hides it",
 ["ebi/src/compressor", "ebi/src/decoder", "ebi/src/io", "ebi/src/compression_common", "ebi/src/api"],
 [("arithmetic and debug_assert! in every scheme", "ebi/src/compressor, ebi/src/decoder/chunk_reader"), ("Result type of debug builds", "ebi/src/decoder/error.rs, ebi/src/encoder/error.rs")],
 ["all public operations"], "exhaustive within the bounds of the explored families, on the real code with the checks compiled in", T_HIST))
PROPS.append(p("P31", "Without vector instructions BUFF files give the same answers",
 "Compiled for a machine without the x86 vector instructions, the crate encodes and decodes fixed-precision files and answers filters, aggregates, distances, products and reads at reduced precision exactly as the stored values call for - the portable code and the vector code cannot be told apart.",
 ["inputs", "configurations", "histories"], "the families of P02, P07 to P09, P11 to P13 and P18 on the portable code",
 "the tests run on x86-64, where the portable code is not even compiled",
 ["ebi/src/decoder/chunk_reader/buff/filter_eq.rs", "ebi/src/decoder/chunk_reader/buff/filter_cmp.rs", "ebi/src/decoder/chunk_reader/buff.rs"],
 [("cfg(any(not(target_arch = \"x86_64\"), miri))", "ebi/src/decoder/chunk_reader/buff")],
 ["filter, aggregate, distance, product and reduced-precision reads of BUFF and other files"], "exhaustive within the bounds of the explored families, on the real portable code", T_HIST))
PROPS.append(p("P32", "Reported execution times describe the operation just made",
 "The times a decoder reports after a successful operation are those of that operation alone, whatever was done before: the nine segments lie within the time the call took, the reading and writing segments cover all the time spent in the reader (on chunk data) and in the writer, comparing and adding up are booked for the operations that do them, decoding is not free, nothing is booked as written by an operation that writes nothing, and on a file without records all times are zero. The same holds for the times a file's footer keeps of its encoding (which lie within the total kept beside them), for each chunk of the streaming writer with any compressor handed over, for a chunk reader since it was made or reset, and for the timer handed to expression aggregates, which accumulates.",
 ["inputs", "histories", "configurations"], "all operation sequences up to the stated depth x schemes x chunk options x transfer sizes, on a reader and a writer of known cost",
 "the tests never look at the times; the experiments' results consist of them",
 ["ebi/src/time.rs", "ebi/src/api/decoder.rs", "ebi/src/api/encoder.rs", "ebi/src/encoder.rs", "ebi/src/decoder/chunk_reader.rs", "ebi/src/decoder/query.rs", "ebi/src/decoder/expr.rs", "ebi/src/compressor"],
 [("one SegmentedExecutionTimes per decoder, chunk reader, chunk writer and compressor, added up chunk by chunk", "ebi/src/api/decoder.rs, ebi/src/encoder.rs")],
 ["Decoder::segmented_execution_times, GeneralChunkReader::segmented_execution_times and reset_timer, ChunkWriter::timer, the footer's times, Aggregation::compute and compute_multiple"],
 "exhaustive within the stated depths and configurations; bounds from a monotonic clock that hold on every schedule, never thresholds", T_HIST))
PROPS.append(p("P33", "A chunk's distances and dot products cover the records in common",
 "Asked for the squared distance or the dot product of a vector with a chunk from some record on, a chunk reader answers over exactly the records both have: the chunk's records from that one to its end against the vector's numbers from the first on, as many as the shorter of the two holds. An offset at or beyond the end of the chunk, an empty vector and a vector that reaches beyond the chunk never fail and contribute nothing for what is missing, and asking again, in either order, gives the same answers.",
 ["inputs", "configurations"], "all chunk sizes up to the bound x chunk positions x offsets x vector lengths x orders of asking x schemes, and sizes around vector widths and buffer sizes",
 "no test calls the chunk-level operations with a vector that is not fully covered",
 ["ebi/src/decoder/query.rs", "ebi/src/decoder/chunk_reader.rs"],
 [("zip of the decompressed slice from the offset with the target", "ebi/src/decoder/query.rs")],
 ["GeneralChunkReader::distance_squared, dot_product"],
 "exhaustive within the stated sizes, on the real code against the definition", T_REF))
NA.append((p("P90", "The ALP codec returns every value bit for bit",
 "Whatever block of doubles is given to the ALP library, decompressing its output returns the same doubles, bit for bit.",
 ["inputs"], "all value sequences", "random samples only", ["alp-binding/src/lib.rs"],
 [("foreign ALP library", "alp-binding")], ["compress_double, decompress_double"], ""),
 "the C++ ALP library is an empty git submodule here and cannot be fetched, so the binding cannot be built or run; the scheme around it is claimed as P25 with a stand-in codec"))
NA.append((p("P91", "The CUDA matrix product equals the CPU one",
 "For every stored batch of matrices and target, the GPU product equals the CPU product up to rounding.",
 ["inputs"], "all shapes", "never run", ["cuda-binding/src/lib.rs", "ebi/src/api/decoder.rs"],
 [("cuBLAS strided batched gemm", "cuda-binding/src/lib.rs")], ["matmul_cuda"], ""),
 "needs a CUDA device and driver, which the sandbox does not have; the code compiles but cannot execute here"))
