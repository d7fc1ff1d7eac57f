import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Written rows are read back: same count, same order, same values",
 "For any schema made of the column kinds the writer accepts, any writer options and any rows, when every Write and the final Close of a file writer succeed, opening that file and reading all of it with a batch reader yields exactly the rows that were written, in the order they were written, with equal values in every column. This holds across stripe, compression-chunk and encoding-run boundaries, for every supported column encoding (including dictionary strings), with and without compression, with and without a row index.",
 ["inputs","configurations","histories"],"all schemas over SHORT/INT/LONG/BYTE/BOOLEAN/FLOAT/DOUBLE/STRING/BINARY/DATE/TIMESTAMP/DECIMAL and nested STRUCT, all value sequences, all ZLIB/NONE, chunk sizes, stripe sizes, index settings, all batch sizes",
 "The existing file tests write one or two fixed batches of a two column struct with default options and read it back once; they never cross several stripes with every kind, never use NONE, and sample a handful of values.",
 ["orc/writer.go","orc/stripe.go","orc/reader.go","orc/column/*.go","orc/stream/*.go","orc/encoding/*.go"],
 [("stripe writer fans rows out to column writers","orc/stripe.go stripeWriter.write/writeValue"),("column encode/decode pairs","orc/column/*.go Write/NextBatch"),("stripe reader wires streams to column readers","orc/stripe.go stripeReader.init"),("batch reader walks stripes","orc/reader.go batchReader.Next")],
 [("stripe.info / infos","row count and byte extent of the open and the finished stripes","orc/stripe.go stripeWriter")],
 ["NewOSFileWriter/Write/Close, NewOSFileReader/CreateBatchReader/Next (or newWriter/newReader over an in-memory file)"])

p("C02","Sequential iteration delivers every row exactly once and ends exactly then",
 "Reading a file by calling Next repeatedly delivers every row exactly once in file order whatever the capacity of the vector passed to each call: a call that is not preceded by an end report and finds rows left delivers at least one row and at most the vector's capacity, and all columns of a batch have the same length. The end flag is reported as soon as and only when no row is left, and calls after the end deliver no rows and report end again, without error.",
 ["histories","inputs","configurations"],"all files (1..n rows, any split into stripes) and all sequences of Next calls with any positive capacities",
 "Tests read with a capacity equal to the file's rows or one fixed page size and never with one row left in a file or a stripe; the guarantee is about every call history.",
 ["orc/reader.go","orc/stripe.go","orc/api/vector.go"],
 [("batch cursor and stripe index","orc/reader.go batchReader.Next"),("page clipping at the stripe end","orc/stripe.go stripeReader.next/prepareVector")],
 [("cursor","rows delivered so far","orc/reader.go batchReader"),("stripeIndex","stripe being read","orc/reader.go batchReader"),("stripeReader.cursor","rows delivered of the stripe","orc/stripe.go")],
 ["BatchReader.Next return values and vector contents"])

p("C03","Nulls stay where they were written and never shift other rows",
 "In nullable columns a row written as null is read back as null and a row written with a value is read back as non-null with that value, for any placement of nulls: leading, trailing, all null, none in some stripes, in nested structs (where a null struct makes its fields null for that row), and with vectors reused between Next calls. A null in one column never changes the rows of another column.",
 ["inputs","histories","configurations"],"all null masks over all columns of all supported kinds, across stripes, batches and vector reuse",
 "Tests use one null pattern per column type inside one stripe and one batch; stale state between stripes or reused vectors needs several of each.",
 ["orc/column/*.go","orc/encoding/bool.go","orc/stripe.go","orc/api/vector.go"],
 [("present stream written once a column has nulls","orc/column/*.go Write, orc/stream NewBoolWriter"),("present stream consulted per row","orc/column/*.go NextBatch"),("bit packing with flush padding","orc/encoding/bool.go")],
 [("present stream","one bit per row of the parent's non-null rows","orc/column/*.go")],
 ["Vector[i].Null / Vector[i].V after Next"])

p("C04","Seek(n) makes the next rows the ones starting at row n, after any history",
 "On a batch reader, after a successful Seek(n) to any row number below the row count, the following Next calls deliver rows n, n+1, ... up to the last row and then report the end, whatever Next and Seek calls came before, forwards or backwards, in the same stripe or another. Seeking at or past the row count returns an error (or leaves nothing to read) and never delivers wrong rows.",
 ["histories","inputs","configurations"],"all interleavings of Next (any capacity) and Seek (any target) on any file, with and without row indexes of any stride, compressed or not, with any null pattern",
 "The tests perform one seek on one column of one stripe; a seek's correctness depends on the reader state left by the previous calls.",
 ["orc/reader.go","orc/stripe.go","orc/column/*.go","orc/stream/reader.go"],
 [("row to stripe mapping","orc/reader.go batchReader.Seek"),("stride position + skip","orc/stripe.go stripeReader.Seek"),("stream repositioning","orc/stream/reader.go seek, orc/column/*.go SeekStride/Skip")],
 [("cursor, stripeIndex, stripeReader.cursor","where the reader believes it is","orc/reader.go, orc/stripe.go")],
 ["BatchReader.Seek / Next"])

p("C05","Row-index positions resume decoding at exactly the row they name",
 "When a column is written with a row index, positioning a reader of that column at the start of any stride through the recorded positions and skipping k rows continues with exactly the value written at row stride*size+k, for every column kind, null pattern, chunk size and stream encoding state at the stride boundary. This also holds when the index comes from a file whose first entry describes row 0, as the ORC format requires.",
 ["inputs","configurations","histories"],"all value sequences, null masks, index strides and chunk sizes; all strides and skips, in any order, on the same reader",
 "Column tests seek to one or two strides of monotone values; positions combine a chunk offset, an offset inside the chunk and a run offset, and each is wrong only at particular boundaries.",
 ["orc/column/*.go","orc/stream/writer.go","orc/stream/reader.go","orc/encoding/*.go"],
 [("positions recorded every IndexStride rows","orc/column/*.go Write (doPositions)"),("writer.GetPosition","orc/stream/writer.go"),("SeekStride / Skip","orc/column/*.go")],
 [("index entries","positions of each stream at each stride boundary","orc/column/package.go")],
 ["column.Writer.GetIndex, column.Reader.InitIndex/SeekStride/Skip/NextBatch; BatchReader.Seek"])

p("C06","Reading a subset of the columns gives the same cells as reading all",
 "For any set of included columns that forms a subtree of the schema, a batch reader created with that set delivers, for every row, exactly the cells a full read delivers for those columns, with the same row count and the same batch and end behaviour. Streams of columns that are not included never influence the result.",
 ["configurations","inputs"],"all files and all subtree-closed include sets",
 "Only one test uses Includes, on one schema.",
 ["orc/stripe.go","orc/api/type.go","orc/column/struct.go"],
 [("included readers only, stream offsets accumulated over all streams","orc/stripe.go stripeReader.init"),("BatchOption.IsInclude","orc/api/type.go")],
 None,["CreateBatchReader(BatchOption{Includes})"])

p("C07","Column statistics in the file are true of the rows written",
 "The per-column statistics a written file carries are true of the data: the value count equals the number of non-null cells, hasNull is set for every column in which a null was written, integer/float sums and string/binary total lengths (where present and not overflowed) are exact, minimum and maximum (or lower/upper bounds) where present bound every value, and boolean true counts are exact. They are the same however the rows were split into Write calls and stripes, and Reader.GetStatistics returns them.",
 ["inputs","configurations","histories"],"all value and null sequences for every supported column kind, any number of stripes",
 "No existing test checks a statistic; correctness is over every value sequence, including negative-only, long strings and multi-stripe files.",
 ["orc/column/*.go","orc/writer.go"],
 [("stats updated per written value","orc/column/*.go Write"),("stats marshalled in footer","orc/writer.go writeFileTail")],
 [("stats","pb.ColumnStatistics per column, cumulative over stripes","orc/column/writer.go")],
 ["Reader.GetStatistics(), file footer"])

p("C08","File metadata describes the bytes exactly: stripes tile the file, counts add up",
 "In every file the writer closes successfully, the stripes listed in the footer are non-empty in rows, start right after the header, follow each other without gap or overlap and end where the footer begins; each stripe's stream lengths add up to its data length and each stream decodes to exactly the stripe's rows; the row counts add up to the file's row count and content length to the stripes' extent. A stripe is closed once its buffered data reaches the configured stripe size, so data is never held back for longer than one stripe.",
 ["inputs","configurations","histories"],"all write histories and options, including stripe sizes that cut on the last row of a batch or of the file, and empty batches",
 "Tests only check that what they wrote comes back; the layout is not looked at and the stripe boundary conditions (flush on the last row, empty batches) are not reached.",
 ["orc/stripe.go","orc/writer.go"],
 [("stripe information accounting","orc/stripe.go write/flushOut/forward"),("footer and postscript","orc/writer.go writeFileTail")],
 [("stripe.info","offset, index/data/footer length, rows","orc/stripe.go")],
 ["bytes passed to File.Write; parsed footer"])

p("C09","How rows are batched into Write calls does not change the file",
 "Splitting the same sequence of rows into any sequence of Write calls, including empty batches, yields the same stripes, row counts, statistics and decoded content, and writing the same rows with the same options twice yields byte-identical files. In particular a reused or refilled batch vector has no influence after Write returned.",
 ["histories","inputs"],"all partitions of all row sequences, for all options",
 "Each test uses a single partition.",
 ["orc/writer.go","orc/stripe.go","orc/column/*.go"],
 [("row-wise flush decision","orc/stripe.go stripeWriter.write"),("values copied into stream buffers","orc/column/*.go, orc/stream/writer.go")],
 None,["bytes of the produced files"])

p("C10","Integer run-length encoding is lossless and conforms to ORC RLEv2",
 "Every sequence of signed or unsigned 64-bit integers passed to the integer run-length encoder, flushed at any point, is encoded without error or panic into a well-formed sequence of ORC RLEv2 runs (short repeat, direct, patched base, delta; each of 1 to 512 values and with a legal width) whose meaning under the ORC specification is exactly that sequence. The repository's own decoder reads it back to the same values.",
 ["inputs","histories"],"all finite int64/uint64 sequences (any magnitude, sign, repeat, monotone and outlier structure, any length) and flush points",
 "encoding tests check a dozen hand-picked sequences; each sub-encoding has many width, length and sign cases and their boundaries are untested.",
 ["orc/encoding/int.go","orc/encoding/package.go"],
 [("run selection","orc/encoding/int.go write"),("sub-encoders","orc/encoding/int.go writeShortRepeat/writeDirect/writePatch/writeDelta")],
 [("values","buffered run, at most 512","orc/encoding/int.go intRLV2Encoder")],
 ["encoding.NewIntRLV2(...).Encode/Flush output; stream.NewIntRLV2Writer"])

p("C11","Every well-formed RLEv2 run decodes to the values the ORC format defines",
 "For every well-formed ORC RLEv2 run, of any of the four sub-encodings, any legal width, length, base, delta sign and patch list, signed or unsigned, written by this or any other writer, the integer decoder yields exactly the values the ORC specification assigns to it and consumes exactly the run's bytes. Runs may be split arbitrarily over compression chunks without changing the result.",
 ["inputs"],"all well-formed runs and concatenations of runs",
 "Decoder tests feed the examples of the ORC specification text only; most widths, negative fixed deltas, multi-patch lists and gap fillers are never decoded.",
 ["orc/encoding/int.go","orc/stream/int.go"],
 [("decode / readPatched / readBits","orc/encoding/int.go intRLV2Decoder")],
 None,["encoding.NewIntDecoder(...).DecodeInt/DecodeUInt, stream.IntRLV2Reader"])

p("C12","Byte and boolean run-length coding is lossless and conforms to the format",
 "Every byte sequence and every boolean sequence, flushed at any points, is encoded into legal byte run-length runs (repeat runs of 3 to 130, literal runs of 1 to 128) that decode under the ORC specification to exactly that sequence (padded with at most 7 bits for booleans), and every legal run sequence, including ones this writer would not produce, is decoded to the right values. Encoder state never leaks from one flush to the next.",
 ["inputs","histories"],"all byte/boolean sequences and flush points; all legal encodings",
 "Tests round trip two sequences of each.",
 ["orc/encoding/byte.go","orc/encoding/bool.go","orc/stream/byte.go","orc/stream/bool.go"],
 [("byte RLE encoder/decoder","orc/encoding/byte.go"),("bit packing","orc/encoding/bool.go")],
 [("values / e.value,offset","pending literals and the partially filled byte","orc/encoding/byte.go, bool.go")],
 ["encoding.NewByteEncoder/NewBoolEncoder, DecodeByteRL, stream readers"])

p("C13","Compression chunking is transparent and well formed",
 "For every byte stream and chunk size, the bytes a stream writer emits are a sequence of chunks whose headers give the exact chunk length and original/compressed flag, whose uncompressed size never exceeds the chunk size, and whose concatenated decompression is the input; the reader returns exactly those bytes for any chunk layout, including original chunks, many chunks and values that straddle chunks. Without compression the bytes are stored verbatim.",
 ["inputs","configurations"],"all byte contents (compressible or not), all chunk sizes, ZLIB and NONE, all splits of a stream into chunks",
 "Tests use one chunk size and content that compresses into one or two chunks.",
 ["orc/common/misc.go","orc/stream/writer.go","orc/stream/reader.go"],
 [("chunk framing","orc/common/misc.go CompressingChunks/CompressingLeft/encChunkHeader"),("chunk reading","orc/stream/reader.go readAChunk")],
 [("buf / compressedBuf","pending uncompressed bytes and finished chunks","orc/stream/writer.go")],
 ["stream bytes in the file; values read back"])

p("C14","An incomplete file is rejected, never misread",
 "If writing stops at any point before Close has finished (a crash leaving any strict prefix of the bytes the writer issues, cut inside or between writes), opening the remains as an ORC file returns an error: no reader is handed out that reports rows, and opening never panics or hangs. The complete file opens. (A prefix that is byte for byte a complete ORC file of its own, tail, lengths and stripes included, is such a file and cannot be told apart.)",
 ["crash_points","inputs"],"every strict prefix of every written file, including the empty one",
 "No test opens a truncated file.",
 ["orc/reader.go","orc/writer.go"],
 [("tail validation","orc/reader.go extractFileTail/extractPostScript")],
 None,["newReader / NewOSFileReader on a prefix"])

p("C15","A failed write to the file is always reported to the caller",
 "If any write to the underlying file fails or is short at any point, or closing it fails, then some later call of the same writer (NewOSFileWriter, Write or Close) returns an error: a sequence of calls that all succeed, ending with Close, implies that every byte of a complete, readable file was accepted by the file system. No fault causes a panic or an endless loop.",
 ["fault_sequences","histories"],"a fault (error, short write, failing close) at every single call on the underlying file, for all write histories and options",
 "The tests' in-memory file never fails.",
 ["orc/writer.go","orc/stripe.go","orc/stream/writer.go","orc/io/file.go"],
 [("error propagation from File.Write","orc/writer.go, orc/stripe.go flushOut, orc/column/*.go WriteOut, orc/stream/writer.go WriteOut")],
 None,["errors returned by the writer API under a fault-injecting orcio.File"])

p("C16","A failed or short read is reported and never turned into wrong rows",
 "If any read, seek, size or clone operation on the underlying file fails or hits an early end of file, at any point, the reader call in progress returns an error; every batch that is delivered without an error contains exactly the right rows, and the end is never reported early. Reads that legitimately return fewer bytes than asked for without error do not change the result.",
 ["fault_sequences","histories"],"a fault at every single operation on the underlying file for open, batch reading and seeking; all short-read schedules",
 "The tests' in-memory file never fails and never returns short reads in the middle of a file.",
 ["orc/reader.go","orc/stripe.go","orc/stream/reader.go","orc/column/*.go"],
 [("error propagation and full reads","orc/stream/reader.go readAChunk/seek, orc/reader.go extractFileTail, orc/stripe.go readFooter, orc/column/*.go InitStream/InitIndex")],
 None,["errors and rows returned by the reader API under a fault-injecting orcio.File"])

p("C17","Independent readers and writers do not influence each other",
 "Several writers writing different files at the same time from different goroutines, several readers, and several batch readers created from one reader and used in any interleaving, each behave exactly as if they were alone: same bytes, same rows, same errors. Nothing a user does with one of them (including closing it) affects another.",
 ["schedules","histories"],"all interleavings of calls on distinct writers, readers and batch readers",
 "Every test uses one writer and one reader from a single goroutine.",
 ["orc/reader.go","orc/stripe.go","orc/api/type.go","orc/column/*.go"],
 [("per-column cloned file handles","orc/column/*.go InitStream (Clone)"),("schema flattening","orc/api/type.go Flat")],
 [("schema ids","assigned while flattening a schema","orc/api/type.go"),("schema.Encoding, HasNulls","mutated while stripes are opened","orc/stripe.go init")],
 ["rows/bytes of each object compared with a solo run"])

p("C18","Every file handle the library opens is closed",
 "A writer closes the file it was given (or opened) when Close is called, and a reader and its batch readers close every file handle they opened or cloned once both are closed; no handle is closed twice and no closed handle is used. This holds for every schema, every projection, every number of stripes and after any history of Next and Seek calls.",
 ["histories","configurations","inputs"],"all schemas, projections and histories that end in closing the objects",
 "The in-memory file's Close is a no-op, so no test can notice a leaked or doubly closed handle.",
 ["orc/column/*.go","orc/stripe.go","orc/reader.go","orc/writer.go","orc/stream/reader.go"],
 [("Close fan-out","orc/stripe.go stripeReader.Close, orc/column/*.go Close, orc/stream/*.go Close")],
 None,["Clone/Close calls on the orcio.File"])

p("C19","Dates, timestamps and decimals keep their exact value",
 "Every calendar date from year 1 to 9999, every timestamp whose seconds fit a 64-bit signed offset (with every nanosecond value 0..999999999, before and after 1970 and 2015, in any location the API accepts), and every 64-bit decimal mantissa with its scale survive conversion to the stored representation and back unchanged, and the stored representation is the one the ORC format prescribes (days since 1970-01-01; seconds since 2015-01-01 and trailing-zero packed nanoseconds; zigzag varint mantissa and scale).",
 ["inputs"],"all dates, timestamps and decimals in range",
 "Tests convert one date and a few timestamps of the current century.",
 ["orc/api/vector.go","orc/encoding/time.go","orc/encoding/package.go","orc/column/time.go","orc/column/decimal.go"],
 [("ToDays/FromDays, GetTimestamp/Time, nanos packing","orc/api/vector.go, orc/encoding"),("decimal varint","orc/encoding/int.go varint64Encoder")],
 None,["api conversions; columns written and read back"])

p("C20","Any legal physical layout of the same rows reads as the same rows",
 "A file laid out by any conforming ORC writer for the supported kinds (any split into stripes, any legal run and chunk boundaries, present streams only in the stripes or columns that need them, direct or dictionary strings, row-index and other auxiliary streams present or absent and in any legal order, compressed or not, original chunks, large footers) is read to the rows it encodes. The layout influences neither batches, nor seeking, nor projection.",
 ["inputs","configurations"],"all legal layouts of all row sequences of the supported kinds",
 "Tests read files this writer produced, which use one layout; the file samples in the repository are few.",
 ["orc/reader.go","orc/stripe.go","orc/column/*.go","orc/stream/reader.go","orc/encoding/*.go"],
 [("stream offsets and kinds","orc/stripe.go stripeReader.init"),("column readers","orc/column/*.go InitStream/NextBatch"),("tail reading","orc/reader.go extractFileTail")],
 None,["BatchReader over a file assembled from a specified layout"])

p("C21","Written files follow the ORC format, so other readers recover the rows",
 "The bytes of every file the writer closes successfully, interpreted by the rules of the ORC v1 specification alone (postscript, footer, stripe footers, present/data/length/dictionary/secondary streams, chunk framing and run-length encodings) and not by this repository's reader, contain exactly the rows written. Column encodings, type tree, stream order and lengths in the metadata are the ones that interpretation needs.",
 ["inputs","configurations"],"all schemas of the supported kinds, rows and options",
 "All existing checks read files with the repository's own reader, so a symmetric encoding error is invisible.",
 ["orc/writer.go","orc/stripe.go","orc/column/*.go","orc/encoding/*.go"],
 [("stream layout per kind","orc/column/*.go Write/Flush/GetStreamInfos"),("type tree","orc/api/type.go SchemasToTypes")],
 None,["bytes passed to File.Write"])

p("C22","The schema read from a file is the schema it was written with",
 "For every supported schema, the reader of a written file reports the same tree of kinds, field names and field order, numbered in pre-order, and vectors created from it (with any projection) have the matching shape: one vector per included column with the requested capacity. Writing the same schema object again, or several schemas from one process, gives the same numbering.",
 ["inputs","configurations","histories"],"all struct trees of the supported kinds with any field names; all projections",
 "Tests use two fixed schemas.",
 ["orc/api/type.go","orc/reader.go"],
 [("Flat / SetId / SchemasToTypes","orc/api/type.go"),("unmarshallSchema","orc/reader.go"),("CreateVector","orc/api/type.go")],
 None,["Reader.GetSchema, TypeDescription.CreateVector"])

p("C23","Damaged bytes lead to errors, never to crashes, and stay in their columns",
 "Whatever bytes a file consists of (a written file changed anywhere: postscript, footer, types, stripe footers, row indexes, chunks, the content of streams), opening it, creating batch readers, Next, Seek and Close each return with a result or an error: none panics, hangs, ends the process or takes more memory than a fixed bound plus what vectors and chunk contents need. A batch reader whose Next failed delivers nothing until a Seek succeeds; rows delivered never exceed the number of rows the reader reports, the end is reported with the last of them, and every vector of a batch has one value per row; the same calls on the same bytes have the same results. If only the content of some columns' streams is damaged, the file opens with its row count, batch readers without these columns deliver exactly what was written, and cells of the other columns in any delivered batch are the ones written.",
 ["inputs","histories","fault_sequences"],"all byte strings presented as a file",
 "No test reads a corrupted file; the space of damaged files cannot be sampled by hand.",
 ["orc/reader.go","orc/stripe.go","orc/column/*.go","orc/encoding/*.go","orc/stream/*.go","orc/common/misc.go"],
 [("checks of the tail","orc/reader.go extractFileTail / checkFooter"),("stripe footers and streams","orc/stripe.go initColumns"),("index positions","orc/column/reader.go getStridePositions"),("runs, chunks and values","orc/encoding/*.go, orc/stream/reader.go")],
 None,["results of the reader's calls on damaged files, memory they allocate"])
p("C24","A file that contradicts itself, or that is not supported, is refused",
 "Opening fails for a file that does not begin with the magic of ORC, has another magic in its postscript, or whose tail does not fit the file or itself: lengths of postscript, footer and metadata beyond the file, a content length that is not where the content ends, stripes outside of the content, overlapping or out of order, row counts of stripes that do not add up to that of the file, types that are not a tree numbered from its root, fields without names, more statistics than columns. Creating a batch reader fails if a stripe footer names streams beyond the index or data part of its stripe, has no encoding for an included column, or an encoding this library does not read for the column's kind (integers and dictionaries of version 1 among them: they are never decoded as something else). A file without any of this opens, with the row count its footer states, and gives batch readers.",
 ["inputs","configurations"],"all tails and stripe footers, of all kinds of columns, compressed and not, whichever fields of them are at odds with each other or with the file",
 "Tests open files that are sound only; contradictions are combinations of several fields.",
 ["orc/reader.go","orc/stripe.go","orc/column/package.go"],
 [("tail","orc/reader.go extractFileTail / checkFooter / checkOrcVersion"),("stripe footer","orc/stripe.go stripeReader.initColumns"),("encodings","orc/column/package.go NewReader")],
 None,["newReader and CreateBatchReader on files with assembled tails and stripe footers"])
p("C25","What does not fit is refused and has no effect",
 "Write refuses, with an error and no panic, a batch that does not fit the writer's schema: a missing vector, a vector with another column's id, with vectors missing or too many below it, columns of different lengths, a null in a column without nulls (unless a struct above is null in that row), a value of another Go type than the column's kind has (or none). It accepts every other batch, whatever stands in rows below a null struct. A refused batch leaves no trace: it is not changed, nothing is written, later batches are accepted as before, and the file is, byte for byte, the one that the accepted batches alone make. After Close no Write is accepted and another Close does nothing to the file. CreateVector and CreateBatchReader refuse a RowSize that is not above 0; CreateBatchReader refuses columns that do not exist, columns that do not form one tree, and ones whose rows depend on the nulls of a struct that is not included. Next refuses vectors that are not those of the included columns or have no room for a row; Seek refuses rows the file does not have; after a refused call the batch reader continues exactly where it was. Calls after Close are refused.",
 ["inputs","histories","configurations"],"all schemas, all batches that fit or do not, and all orders of accepted and refused calls of writers and readers",
 "Tests pass batches that fit. What a refused call leaves behind is seen only in what later calls do, and a wrong value can be of any column, row and type.",
 ["orc/writer.go","orc/reader.go","orc/stripe.go","orc/api/type.go","orc/api/vector.go"],
 [("check of a whole batch before it is written","orc/writer.go Write / CheckBatch"),("check of vectors before they are filled","orc/reader.go batchReader.Next / checkVector"),("column sets","orc/reader.go CreateBatchReader / checkIncludes"),("capacity","orc/stripe.go stripeReader.capacity")],
 None,["results of Writer.Write/Close, Reader.CreateBatchReader, BatchReader.Next/Seek, bytes of the file, rows read back"])
p("C26","Calls read only the parts of the file that their answer needs",
 "Opening a file reads its magic and, of the rest, its tail only (at most 16 kB at the end, if the tail is shorter). Creating a batch reader reads the stripe footers and the row indexes of the included columns, each once. Next reads streams of the included columns only, of the stripes its rows are in and at most the beginning of the stripe behind them, and in each stream not beyond the chunk in which the run of its last row ends; a call that delivers no rows reads nothing. Between two Seeks no byte of a stream is read twice by a batch reader. Seek reads streams of included columns in the stripe of its row only, and if all of these have a row index, nothing before the chunk in which the stride of that row begins. So leaving out columns, asking for some rows only, and seeking by an index spare what they are there to spare.",
 ["histories","configurations","inputs"],"all files, column sets and histories of calls",
 "The rows delivered are the same whatever else is read; no test looks at the reads, and what may be read depends on layout, columns and the calls before.",
 ["orc/reader.go","orc/stripe.go","orc/stream/reader.go","orc/column/*.go"],
 [("tail","orc/reader.go extractFileTail"),("streams of included columns","orc/stripe.go initColumns"),("chunks on demand","orc/stream/reader.go ReadByte / Read / seek / readAChunk"),("index before data","orc/stripe.go stripeReader.Seek, orc/column/*.go SeekStride")],
 None,["reads of the file (offset, length) during every call, through orcio.File"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
