import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,title
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}}
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
W="orc/writer.go";S="orc/stripe.go";R="orc/reader.go";E="orc/encoding/int.go"
COL=["orc/column/int.go","orc/column/byte.go","orc/column/bool.go","orc/column/float.go","orc/column/string.go","orc/column/binary.go","orc/column/decimal.go","orc/column/time.go","orc/column/struct.go"]
p("C01","Rows committed by a successful Close read back exactly",
 "After a file writer's Close returns success, reading the file back through a reader yields exactly the rows that were passed to Write, in order, with every value (bit for bit) and every null preserved, for every supported column type (all writable primitive types in direct encoding, strings also in dictionary encoding, nullable or not, nested structs). This holds for every split of the rows into Write batches, every combination of stripe size, chunk size and compression (none or zlib), with or without row index, and however the operating system splits reads into short reads.",
 ["inputs","configurations","histories","schedules"],
 "all schemas of writable types, value sequences (including encoder-hostile ones: run lengths around 3/10/512, extremes, outliers, empty and long byte strings), batch splits, writer options, read batch sizes, short-read patterns and latencies",
 "The tests write one column at a time with 100-ish similar values, one stripe, large chunks and a mock file that never returns a short read; the file-level behaviour depends on how values, batches, stripe flushes, chunk boundaries and read sizes line up.",
 [W,S,R,"orc/encoding/*.go","orc/stream/*.go","orc/column/*.go","orc/common/misc.go"],
 [("stripe flushing by size and at Close","orc/stripe.go stripeWriter.write/flushOut/forward"),("run length encoder choice and buffers","orc/encoding/int.go intRLV2Encoder.write"),("chunked compression","orc/common/misc.go CompressingChunks/CompressingLeft"),("refill on short reads","orc/stream/reader.go readAChunk")],
 ["Writer.Write/Close results","rows returned by BatchReader.Next"])
p("C02","Written files conform to the ORC format",
 "Every file whose writer's Close succeeded is a valid ORC file: magic, chunk framing, contiguous stripes and streams with matching lengths, type tree, column encodings, row counts and stream contents are such that a decoder written from the ORC specification alone recovers exactly the written rows and nothing is left over. This holds for every supported schema, value sequence, batch split and writer option, with or without row index (whose entries are not judged).",
 ["inputs","configurations","histories"],
 "as C01, judged by an independent decoder instead of goorc's own reader, so errors that the writer and the reader share are visible",
 "No test decodes goorc output with anything but goorc itself; bugs mirrored in encoder and decoder (byte order, framing, run encodings) pass every round-trip test.",
 [W,S,"orc/encoding/*.go","orc/stream/writer.go","orc/column/*.go","orc/common/misc.go"],
 [("file tail and postscript","orc/writer.go writeFileTail"),("stripe footer and stream list","orc/stripe.go writeFooter"),("chunk headers","orc/common/misc.go encChunkHeader"),("run length v2 bit layout","orc/encoding/int.go")],
 ["bytes of the file on disk after Close"])
p("C03","Conformant files from other writers are read correctly",
 "A file produced by any conformant ORC writer that uses only supported features (uncompressed or zlib; run length v2 in all its forms; direct and dictionary strings; nullable columns, also with stripes that omit the null stream or empty streams, or that keep null streams without nulls; nested structs, lists and maps; row indexes and bloom filters; metadata section; any footer size) is read back with exactly the rows it encodes. The result does not depend on how the operating system splits reads.",
 ["inputs","configurations","schedules"],
 "all supported physical layouts of the same logical rows: encoder choices, chunk boundaries, original/compressed chunks, stripe layouts, optional sections; all read batch sizes and short-read patterns",
 "The interop tests read a handful of fixed files with one layout each; run forms, chunk splits inside values, missing null streams or tails larger than the first read do not occur in them.",
 [R,S,"orc/stream/*.go","orc/encoding/*.go","orc/column/*.go"],
 [("tail extraction","orc/reader.go extractFileTail"),("run length v2 decoder","orc/encoding/int.go intRLV2Decoder.decode/readPatched"),("stripe stream setup","orc/stripe.go stripeReader.init"),("list and map assembly","orc/column/list.go, orc/column/map.go")],
 ["rows returned by BatchReader.Next"])
p("C04","A sequential scan delivers every row once and ends exactly at the end",
 "Repeated calls of Next on a fresh batch reader deliver every row exactly once in file order: a call that succeeds delivers between one row and the batch's capacity until all rows are delivered. The end flag is true exactly on the call that delivers the last row and on every later call, and later calls deliver no rows. This holds for every batch capacity, number and size of stripes, row count, schema and short-read pattern.",
 ["inputs","configurations","histories"],
 "all row counts (1 upwards), stripe layouts, batch capacities (1 upwards) and numbers of calls past the end",
 "Tests use row counts and batch capacities for which an off-by-one at the end of a stripe or of the file is invisible, and stop at the first end flag.",
 [R,S],
 [("cursor and end computation","orc/reader.go batchReader.Next, orc/stripe.go stripeReader.next"),("vector sizing","orc/stripe.go prepareVector/setVectorSize"),("batch reset","orc/api/vector.go Clear")],
 ["end flag, vector lengths and error of every Next"],
 [("batchReader.cursor","rows delivered so far","orc/reader.go"),("stripeReader.cursor","rows of the stripe delivered","orc/stripe.go")])
p("C05","Seek positions the next read at the requested row",
 "After Seek(n) succeeds, for any n smaller than the number of rows, Next delivers rows n, n+1, ... exactly as an array of the file's rows would, including null positions, the end flag and the crossing of stripes; a Seek past the last row returns an error. This holds at any point of a history of Next and Seek calls (before the first Next, mid-stripe, across stripes, backwards, repeatedly, after the end), with or without row index, for every supported type, and no call panics or fails to return.",
 ["histories","inputs","configurations"],
 "all histories of Seek and Next over all files as in C01 and C03",
 "The tests seek within a single column reader with a hand-made index; no test drives Seek through the public reader, several stripes, without an index, or mixed with Next.",
 [R,S,"orc/column/*.go","orc/stream/reader.go"],
 [("row to stripe mapping","orc/reader.go batchReader.Seek"),("stride and offset within the stripe","orc/stripe.go stripeReader.Seek"),("column SeekStride/Skip","orc/column/*.go"),("stream reposition","orc/stream/reader.go seek")],
 ["rows and end flags after each Seek"])
p("C06","Reading a subset of columns equals the projection of a full read",
 "A batch reader that includes a subset of the columns (closed under ancestors, at least one leaf, lists and maps with all their descendants) delivers, for every row, exactly the values and nulls a full read delivers for those columns, with the same row boundaries and end flags. This holds for every subset, schema, layout and history of Next and Seek.",
 ["inputs","configurations","histories"],
 "all ancestor-closed column subsets over all files and histories",
 "No test reads a proper subset of columns of a file with several columns, stripes and nested structs.",
 [R,S,"orc/api/type.go"],
 [("column selection","orc/api/type.go BatchOption.IsInclude/createVector"),("stream skipping and tree building","orc/stripe.go stripeReader.init")],
 ["vectors delivered for the projected batch"])
p("C07","Write faults are reported and never acknowledged as success",
 "If any file-system operation under a writer fails (create, write, short write, full disk, close), some call of the writer returns an error, no later Write or Close of that writer returns success, and nothing panics or hangs. If Close returns success, the file is complete and holds exactly the rows whose Write returned success, and a Write after that is not acknowledged. A null written to a column declared without nulls is rejected with an error.",
 ["fault_sequences","inputs","histories"],
 "every failing operation position and kind, alone or combined, transient or persistent, in every write history; every continuation the caller may try after an error",
 "The tests' mock file never fails; the error paths of header, stripe flush, footer, tail and close are never executed.",
 [W,S,"orc/io/file.go","orc/stream/writer.go"],
 [("error propagation from stripe flush","orc/stripe.go flushOut, orc/writer.go Write"),("close path","orc/writer.go Close"),("null check","orc/stripe.go writeValue")],
 ["results of NewOSFileWriter/Write/Close","file content after Close"])
p("C08","Read faults surface as errors and never corrupt results",
 "If reads, seeks or opens under a reader fail or deliver less than asked, every call of the reader either returns an error or exactly the correct rows: never wrong or missing rows, a premature end flag, a panic or an endless loop. After a failed Next, the batch reader keeps returning an error until a Seek succeeds, and after that delivers correct rows again.",
 ["fault_sequences","histories"],
 "every failing operation position and kind in every read history, including callers that retry after an error",
 "No test injects a read error; whether a half-consumed batch leaves column streams misaligned depends on where exactly the error hits.",
 [R,S,"orc/stream/reader.go","orc/io/file.go","orc/column/*.go"],
 [("error propagation","orc/stream/reader.go readAChunk, orc/column NextBatch"),("batch reader error state","orc/reader.go batchReader.Next/Seek")],
 ["error, rows and end flag of every call"])
p("C09","A crash leaves a file that is rejected or complete, never misread",
 "If the writing process dies at any instant, leaving any prefix of the bytes it wrote (or that prefix with its tail zeroed or lost after a power failure), opening the file either fails with an error or, when the file is complete, yields exactly the written rows; it never panics, hangs, or yields invented, altered or partial data as success. The same holds for a reader that opens the path while a writer is still working on it.",
 ["crash_points","schedules","inputs"],
 "every crash instant inside every write, every surviving prefix (also with a zeroed tail), every instant at which a concurrent reader polls the path",
 "Tests only open files written to the end; a truncated file exercises the tail parser with lengths that point anywhere.",
 [R,W,"orc/io/file.go"],
 [("postscript and footer validation","orc/reader.go extractFileTail/newReader"),("write order: data, footer, postscript last","orc/writer.go writeFileTail")],
 ["result of NewOSFileReader and of the scan that follows"])
p("C10","Independent writers and readers in different goroutines do not interfere",
 "Writers and readers on different files, each used by one goroutine, produce under every interleaving exactly the results (file bytes, rows, errors) they produce when run alone. Creating schemas, writers and readers concurrently is included.",
 ["schedules","inputs"],
 "all interleavings, at statement granularity, of independent writing, reading and schema tasks with different schemas",
 "No test uses two goroutines, and package-level state is only wrong when two calls overlap at particular statements.",
 ["orc/api/type.go",W,R,"orc/column/*.go","orc/encoding/*.go"],
 [("schema flattening and numbering","orc/api/type.go Flat/SetId"),("no package-level mutable state","orc/**")],
 ["file bytes and rows per task against a solo run"])
p("C11","Batch readers created from one reader are independent",
 "Any number of batch readers created from the same reader, with different column subsets and capacities, used alternately or from different goroutines, created before or while others are reading, each deliver exactly what they would deliver alone. Creating or using one never changes the rows, errors or end flags of another.",
 ["schedules","histories","inputs"],
 "all interleavings of creation, Next, Seek and Close of several batch readers over one reader",
 "No test creates two batch readers from one reader.",
 [R,S,"orc/io/file.go"],
 [("per-stream file clones","orc/column/*.go InitStream"),("shared schemas and file offset","orc/reader.go CreateBatchReader, orc/stripe.go readFooter/init")],
 ["rows, errors and end flags per batch reader"])
p("C12","Every file handle is closed exactly once and never used after that",
 "Once a writer has been closed or has failed to open or close, and once a reader and all its batch readers have been closed or failed to open, no file handle they obtained remains open; this includes every error path under injected faults. No operation is ever issued on a closed handle and no handle is closed twice, for every order in which a caller closes the reader and its batch readers at the end of use.",
 ["fault_sequences","histories"],
 "every open/clone/read/write failure position, every schema and projection, every history that ends with all objects closed",
 "Tests never count handles and never fail an open or seek in the middle of setting up a reader.",
 ["orc/io/file.go",R,W,"orc/column/*.go","orc/stream/reader.go"],
 [("clone per stream","orc/column/*.go InitStream/Close"),("close on failure","orc/reader.go NewOSFileReader/CreateBatchReader, orc/writer.go NewOSFileWriter/Close")],
 ["open handle table of the simulated disk"])
p("C13","File statistics are consistent with the written rows",
 "The footer statistics of a completed file agree with its rows: for every primitive column the number of values, the sums of integers, decimals and byte lengths (where they do not overflow) and the count of true are exact, minimum and maximum, where given, are the smallest and largest value (bounds of long strings never exclude a value), and the null flag is set whenever the column holds a null. Bytes-on-disk equals the total length of the column's data streams over all stripes. This holds for every schema, value sequence, batch split, stripe layout and option.",
 ["inputs","configurations","histories"],
 "as C01",
 "No test compares file statistics with the rows over several stripes, extreme values or long strings.",
 ["orc/column/*.go",W],
 [("statistics update per value","orc/column/*.go Write"),("bytes on disk per stripe","orc/column/*.go Flush")],
 ["footer statistics via Reader.GetStatistics and via an independent footer decoder"])
p("C14","Callers may reuse their buffers; returned values stay intact",
 "Once Write has returned, the caller may overwrite or reuse the batch it passed (vectors and byte slices) without affecting the file; likewise the options passed to CreateBatchReader. Values a reader has returned are not changed by any later call on that reader or any other, except that the batch vector itself is refilled by the next Next.",
 ["histories","inputs"],
 "all histories in which the caller scribbles over passed buffers and holds on to returned values",
 "Tests use fresh buffers and compare immediately after each call.",
 ["orc/stream/writer.go","orc/encoding/string.go","orc/stream/string.go","orc/stream/reader.go","orc/column/binary.go"],
 [("copy on encode","orc/encoding/string.go Encode"),("copy on decode","orc/stream/string.go NextBytes")],
 ["file content after scribbling","retained copies of returned values"])
p("C15","The produced file depends only on schema, options and rows",
 "Two writers given the same schema, options and row sequence produce byte-identical files, whatever the split of rows into Write calls, the speed of the disk, the interleaving with other goroutines and what other writers in the process did before. Rows read are likewise independent of read latencies, short reads and batch capacities.",
 ["schedules","histories","configurations"],
 "all batch splits, disk timings, interleavings and process histories for the same logical content",
 "A test compares one execution with itself; equality across splits, schedules and earlier process history needs many controlled executions.",
 [W,S,"orc/stream/writer.go","orc/encoding/*.go","orc/column/*.go"],
 [("stripe flush decided per row, not per batch","orc/stripe.go write"),("no state shared between writers","orc/**")],
 ["bytes of the files of two runs"])
p("C16","Date, decimal and timestamp value conversions are exact",
 "Conversions between calendar dates and day numbers, between times and timestamp values, and of decimal values to floating point are exact inverses over their documented ranges.",
 ["inputs"],
 "all dates, times and decimals",
 "Only a few dates around the epoch are tested.",
 ["orc/api/vector.go"],
 [("value conversions","orc/api/vector.go FromDays/ToDays/GetTimestamp/Float64")])
p("C17","Damaged files do not crash, hang, leak or exhaust the memory of a reader",
 "Whatever bytes a file holds, opening it and reading it (scans, seeks, projections, statistics) never panics, never runs without end, never allocates memory far out of proportion to the file and the rows it is asked for, and leaves no file handle open once everything has been closed: damage either surfaces as an error or yields some rows. The file handles of the reader are used correctly also after such an error. Nothing is promised about the values read from a damaged file.",
 ["inputs","fault_sequences","histories"],
 "all stored bytes: bit flips, overwritten, lost, duplicated and swapped ranges anywhere in valid files of this writer and of an independent encoder, and field values of the metadata and run headers that are wrong but encoded and compressed properly",
 "The tests never read a damaged file, and most damage to a compressed file is stopped by the decompressor, so that code behind it only sees wrong lengths when an encoder produces them on purpose.",
 [R,S,"orc/column/*.go","orc/stream/*.go","orc/encoding/*.go","orc/common/misc.go"],
 [("validation of tail, type tree and stripe footer","orc/reader.go extractFileTail/newReader, orc/stripe.go"),("bounds in run decoders","orc/encoding/*.go"),("chunk headers and decompression","orc/stream/reader.go, orc/common/misc.go")],
 ["outcome of every call of the reader","open handle table of the simulated disk","heap growth per call"])
p("C18","Stripes are bounded by the stripe size and reach the disk as they fill",
 "In a file written with stripe size S every stripe but the last holds at least S bytes of stream data before compression (columns in dictionary encoding aside), and no stripe holds more than S bytes plus its largest rows and a constant number of buffered values per column. When Write returns, every stripe that is full, except for the latest, is on the disk in whole, so what the writer keeps in memory does not grow with the file. This holds for every schema, value sequence, batch split and option.",
 ["inputs","configurations","histories"],
 "all schemas, value sequences, batch splits, stripe and chunk sizes, compressed or not",
 "No test writes enough for several stripes and looks at where they end or when they reach the file; a writer that keeps everything until Close, or that cuts tiny stripes, passes every round trip.",
 [W,S,"orc/column/*.go","orc/stream/writer.go","orc/encoding/*.go"],
 [("flush by size","orc/stripe.go stripeWriter.write/size"),("size of a column's streams","orc/column/*.go Size, orc/stream/writer.go Size")],
 ["stripe directory of the file","size of the file after every Write"])
p("C19","Damage to a file is contained to the columns and stripes it hits",
 "If stored data of a column in one stripe cannot be read or is corrupt, batch readers that do not include that column deliver all rows exactly, and batch readers that do include it deliver exactly the rows of all other stripes, both by scanning up to the damaged stripe and by seeking to any row outside of it, also after an error. Only a damaged row index may prevent the creation of a batch reader, and only of one that includes the column.",
 ["fault_sequences","histories","inputs"],
 "all streams of all columns and stripes, unreadable or overwritten from any position on, with all projections and histories of Next and Seek, in files of this writer and of an independent encoder",
 "The tests never read a damaged file; whether an operation touches data it does not need cannot be seen in its results as long as everything is readable.",
 [R,S,"orc/column/*.go","orc/stream/reader.go"],
 [("lazy opening of streams","orc/stripe.go stripeReader.init"),("seek without reading other stripes","orc/reader.go batchReader.Seek, orc/stripe.go"),("recovery by Seek","orc/reader.go batchReader.Seek")],
 ["error, rows and end flag of every call"])
p("C20","Calls that misuse the API are rejected, not executed",
 "Write with a batch that does not fit the schema (missing, surplus, too short or too long vectors, wrong column ids, values of other Go types) returns an error, Next with a batch that lacks vectors of the reader's columns or has others returns an error and no rows, and creation with a RowSize that is not positive or included columns without their parents returns an error. Senseless schemas and writer options (column numbers, names, kinds, encodings, sizes) either make some call fail or work properly. None of these calls panics, hangs or leaks, and if a later Close succeeds the file holds exactly the rows of the Writes that returned no error.",
 ["inputs","histories"],
 "all batches, schemas and options, fitting or not, at every position of the history of a writer or reader",
 "The tests use the API as intended; which mistakes end in a panic, or worse in a file or batch with wrong rows and no error, depends on where in a batch and in a history they happen.",
 [W,R,S,"orc/column/*.go","orc/api/*.go","orc/config/*.go"],
 [("checks of batches, schema and options","orc/writer.go Write/newWriter, orc/config"),("checks of batches and options of readers","orc/reader.go Next/CreateBatchReader, orc/api/type.go CreateVector"),("checks of value types","orc/column/*.go Write")],
 ["outcome of every call","rows in the file after Close"])
p("C21","Readers keep to the file they opened and leave the disk as it is",
 "Opening and reading files never creates, changes, truncates, renames or removes anything on the disk, also if it fails or the process dies. Opening a path that does not exist fails. If the path of an open reader is removed or given to another file (as by renaming one to it), every later call of the reader and its batch readers delivers rows of the file that was opened, or an error, but never rows of another file or a mix of both, at whatever moment that happens; a reader opened later sees the new file.",
 ["schedules","fault_sequences","histories","crash_points"],
 "all moments of replacing or removing a path relative to the disk operations of readers, disk faults and crashes meanwhile",
 "The tests never change a file under a reader. A reader that opens its path again, for every stream or batch reader, passes them all and mixes two files when the path is replaced in between.",
 [R,"orc/io/file.go",S],
 [("opening for reading","orc/io/file.go OpenFileForRead"),("handles of batch readers and streams","orc/io/file.go Clone, orc/reader.go CreateBatchReader, orc/stripe.go")],
 ["rows of every call","bytes of all files after every process life"])
p("C22","Memory and open files are bounded by columns, not by rows or stripes",
 "A reader or writer holds a number of open files, and an amount of memory, that depend on the columns in use, the chunk and stripe sizes and the batch, but not on how many stripes or rows a file has: a writer has one file open, a batch reader no more than its columns' streams need in one stripe, and neither keeps what has been written or delivered. So files of any length can be written and read under the usual limits of a process.",
 ["inputs","configurations","histories"],
 "all numbers of stripes and rows, schemas, projections and histories of Write, Next and Seek",
 "The tests read files of one or two stripes; a reader that opens a file per stream of every stripe, or a writer that holds on to flushed buffers, passes them all and fails on the first large file.",
 [R,W,S,"orc/column/reader.go","orc/stream/*.go"],
 [("one stripe open at a time","orc/reader.go openStripe/closeStripe"),("flush of a stripe","orc/stripe.go stripeWriter, orc/writer.go"),("buffers of streams","orc/stream/*.go")],
 ["open handle table of the simulated disk","live heap between points of a history"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
