import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=mech,observe_at=observe,hook_needed=hook)))
M=lambda n,w:dict(name=n,where=w)
S=lambda n,m,w:dict(name=n,meaning=m,where=w)

p("P01","Extraction is independent of how the OS delivers the bytes",
 "Opening a valid .xls, .xlsx, .csv or .tsv file and iterating its tables yields exactly the tables, rows, cell texts and cell types the file stores. The result is the same however the operating system splits, shortens, interrupts or repeats the underlying reads, and wherever the file's blocks happen to lie inside its container.",
 ["schedules","fault_sequences","inputs"],
 "every read-delivery schedule (short reads of any length, EINTR at any call, any buffer split) over every valid file",
 "The tests read local files whose reads always return everything asked for, so a code path that mishandles a short or interrupted read is never taken; the space of delivery schedules is unbounded.",
 ["grate.go","xls/cfb/interface.go","xls/cfb/cfb.go","xls/xls.go","xls/sheets.go","xls/strings.go","xlsx/xlsx.go","xlsx/workbook.go","xlsx/sheets.go","simple/csv.go","simple/tsv.go","commonxl/sheet.go"],
 [M("whole-file buffering of compound files","xls/cfb/cfb.go load"),M("zip random access over the open file","xlsx/xlsx.go Open/openXML"),M("line/record scanners","simple/tsv.go, simple/csv.go")],
 [S("file image","bytes of the input held in memory","xls/cfb Document"),S("zip reader","open handle plus central directory","xlsx Document")],
 ["Open","List","Get","Next","Strings","Types"],"system-call seam (build overlay, no change in the repository)")

p("P02","An I/O failure is always reported, never turned into data",
 "If opening, examining or reading the input file fails at any point while a file is being opened or a table is being fetched, that call returns an error; it never succeeds with partial data, with data missing, or with the same bytes reinterpreted as another format. Any call that does succeed, including a repeat after the failure has passed, delivers the complete table.",
 ["fault_sequences","inputs"],
 "every placement of open/stat/read errors (persistent or transient) in the sequence of file operations of an open and of every fetch",
 "Tests never see a failing read; the number of placements of an error in the operation sequence grows with the file, and a swallowed error looks like success.",
 ["grate.go","xls/cfb/interface.go","xls/cfb/cfb.go","xlsx/xlsx.go","xlsx/workbook.go","xlsx/sheets.go","simple/csv.go","simple/tsv.go","errs.go"],
 [M("error propagation from readers and token loops","xlsx/workbook.go, xlsx/sheets.go, simple/*.go, xls/cfb/cfb.go"),M("distinguishing 'not in format' from failure","grate.go Open, errs.go")],
 [S("sheet load state","whether a lazily loaded sheet failed","xlsx Sheet.err")],
 ["Open error","Get error","rows after success"],"system-call seam (build overlay)")

p("P03","Damaged files never crash or hang the reader",
 "Whatever has happened to the stored bytes of an input file (flipped bits, zeroed, stale or misplaced blocks, truncation, looping or dangling block chains, damaged record lengths or counts), opening it, listing it, fetching any table, and iterating or scanning what was returned ends in bounded work with either a result or an error. It never panics, loops forever, or allocates memory out of all proportion to the file.",
 ["fault_sequences","inputs"],
 "every storage fault (kind, position, length, value) applied to every valid file, before opening or between calls",
 "The tests open seven intact files; the damage space is astronomically larger and any single unchecked length, index or chain is enough to bring the process down.",
 ["xls/cfb/cfb.go","xls/cfb/slicereader.go","xls/xls.go","xls/sheets.go","xls/strings.go","xls/hyperlinks.go","xls/crypto/crypto.go","xlsx/xlsx.go","xlsx/workbook.go","xlsx/sheets.go","xlsx/types.go","commonxl/sheet.go","commonxl/cell.go","commonxl/formats.go","simple/csv.go","simple/tsv.go"],
 [M("header, sector and chain checks","xls/cfb/cfb.go"),M("record length checks","xls/xls.go, xls/sheets.go, xls/strings.go, xls/hyperlinks.go"),M("reference and index checks","xlsx/sheets.go, commonxl/sheet.go")],
 [],["panic, step budget, memory budget of every API call"],"system-call seam and step counters (build overlay)")

p("P04","A cut-short or torn workbook is never read as a complete one",
 "If an .xls or .xlsx workbook is cut short at any point that leaves its leading signature intact, shrinks while open, or has part contents overwritten that the format protects by checksum, then every call either fails with an error or delivers exactly the undamaged tables. No table is silently shortened, emptied or altered, and the remains are not presented as a plain-text table.",
 ["crash_points","fault_sequences","inputs"],
 "every crash point of the writer (each prefix length), every torn region inside checksummed parts, every moment of truncation relative to open and fetch",
 "Tests have no truncated or torn file; silent loss depends on exactly which block, record or part boundary the cut falls on.",
 ["xls/cfb/cfb.go","xls/xls.go","xls/sheets.go","xlsx/xlsx.go","xlsx/workbook.go","xlsx/sheets.go","simple/csv.go","simple/tsv.go","grate.go"],
 [M("stream length accounting","xls/cfb/cfb.go getStreamReader/getMiniStreamReader"),M("record framing","xls/xls.go nextRecord"),M("reading parts to their end and propagating the checksum error","xlsx/workbook.go, xlsx/sheets.go")],
 [],["Open error","Get error","rows after success"],"system-call seam (build overlay)")

p("P05","Sources used in different threads do not affect one another",
 "Any number of threads may open, read and close different sources (or different files through one process) at the same time: each observes exactly what it would observe alone, under every interleaving, including while others fail, are closed or are read from damaged files. No two threads touch unsynchronised shared state.",
 ["schedules","histories"],
 "every interleaving, at statement granularity, of the operations of independent client threads",
 "The tests are single-threaded; record pooling, shared tables and lazily built formatters are shared by all sources of the process and only an unlucky interleaving shows cross-talk.",
 ["xls/xls.go","xls/sheets.go","xls/strings.go","xlsx/xlsx.go","xlsx/sheets.go","commonxl/formats.go","commonxl/fmt.go","simple/simple.go","grate.go","xls/crypto/rc4.go"],
 [M("record pool shared by all workbooks","xls/xls.go recPool"),M("read-only package tables","commonxl/formats.go, commonxl/fmt.go"),M("per-source formatter and string tables","xls WorkBook, xlsx Document")],
 [S("record pool","recycled record headers","xls/xls.go recPool"),S("format registry","openers in priority order","grate.go srcTable")],
 ["rows per thread","happens-before order of shared accesses"],"statement-level yield points and synchronisation shims inserted by the build overlay")

p("P06","Closing a source or failing to open releases every resource",
 "After a source has been closed, or an attempt to open it has failed for whatever reason, the process holds no file descriptor and no running background task on its behalf. This holds whichever operation failed, including failures of close itself, and repeated open/close cycles therefore never exhaust descriptors.",
 ["fault_sequences","histories"],
 "every history of opens, fetches and closes with faults at any file operation",
 "Leaks are invisible to tests that open a handful of files; the failing paths need an injected fault or a damaged file at one specific step.",
 ["xls/cfb/interface.go","xls/xls.go","xlsx/xlsx.go","xlsx/sheets.go","simple/csv.go","simple/tsv.go","grate.go"],
 [M("close on every exit path","xlsx/xlsx.go Open, xls/cfb/interface.go Open, simple/*.go")],
 [S("open file handle","kept by zip-based sources until Close","xlsx Document.f")],
 ["descriptor table of the simulated kernel","task table of the simulator"],"system-call seam (build overlay)")

p("P07","Tables are stable snapshots through any call history",
 "Every table fetched from an open source is iterated from its first row to its last by its own cursor, whatever was fetched, iterated or listed before or meanwhile, and observing a row (text, types, formats, scan) neither advances nor alters it. Rows already obtained, and tables already fetched, keep their contents when the caller modifies returned rows, fetches other tables, or closes the source; calls on a closed source fail cleanly.",
 ["histories"],
 "every finite history of list/get/next/observe/modify/close calls over one or more sources and cursors",
 "Tests perform the one history open-list-get-iterate-close; aliasing, stale cursors and use-after-close need particular multi-step histories.",
 ["xls/xls.go","xls/sheets.go","xlsx/xlsx.go","xlsx/sheets.go","simple/simple.go","commonxl/sheet.go"],
 [M("cursor per fetched table","commonxl/sheet.go CurRow, simple/simple.go iterRow"),M("record pooling on close","xls/xls.go Close")],
 [S("cursor","current row of a table","commonxl Sheet.CurRow, simpleFile.iterRow")],
 ["rows, types, formats and scan results step by step"],"none beyond the simulator")

p("P08","The same bytes always give the same answer",
 "Opening the same file content any number of times, in any process, after any earlier activity, in any order with other files, gives the same outcome: the same chosen format, the same table names in the same order, the same rows, or an error in every case. No outcome depends on randomised iteration order, recycled memory, the clock, or the file's position in a batch.",
 ["schedules","histories","inputs"],
 "every seed of the runtime's randomised iteration order, every recycling decision of shared pools, every preceding history",
 "A test run samples one iteration order and starts from a fresh process; a result that depends on map order or a recycled buffer is usually right.",
 ["grate.go","xls/xls.go","xls/strings.go","xlsx/xlsx.go","xlsx/workbook.go","simple/csv.go","simple/tsv.go","commonxl/formats.go"],
 [M("ordered traversal of relationships, sheets and styles","xlsx/xlsx.go Open, xlsx/workbook.go"),M("format detection heuristics over column counts","simple/csv.go, simple/tsv.go"),M("record recycling","xls/xls.go recPool")],
 [S("relationship map","part name by type and id","xlsx Document.rels")],
 ["Open","List","rows"],"runtime map-order seam and pool shim (build overlay)")

p("P09","Container streams are exact random-access readers",
 "A stream opened from a compound (OLE2) container delivers exactly the stored bytes of that stream, for every container layout (block size, fragmentation, small-stream storage, extended allocation tables) and for every history of reads and seeks of any size, including empty reads, positions at block boundaries, at the end, and invalid positions, which are refused without damage to the reader. Several streams of one container may be read in any interleaving.",
 ["histories","inputs","configurations"],
 "every history of Read/Seek calls with every buffer length over every legal container layout",
 "The one test walks a fixed list of five equal slices with six fixed seeks; positions at block edges, at end of stream, and layouts with extended tables are never reached.",
 ["xls/cfb/cfb.go","xls/cfb/interface.go","xls/cfb/slicereader.go"],
 [M("sector chain walking","xls/cfb/cfb.go getStreamReader/getMiniStreamReader"),M("position arithmetic over slices","xls/cfb/slicereader.go")],
 [S("reader position","slice index and offset","SliceReader.Index/Offset")],
 ["bytes, counts, positions and errors of Read and Seek"],"none")

p("P10","Decryption is exact for any chunking of the encrypted stream",
 "Feeding an encrypted stream to the decryptor in pieces of any sizes, with reads interleaved anywhere, yields exactly the plaintext, and after a reset the same decryptor decrypts a stream again from the beginning. A workbook encrypted under the default password therefore reads exactly like the same workbook unencrypted, wherever records fall relative to encryption blocks.",
 ["histories","inputs"],
 "every partition of the stream into writes and every interleaving of write, read, flush and reset; every record layout of an encrypted workbook",
 "No test exercises decryption at all; errors appear only when a write straddles a 1024-byte block in a particular way.",
 ["xls/crypto/rc4.go","xls/crypto/crypto.go","xls/xls.go"],
 [M("block buffering and rekeying","xls/crypto/rc4.go Write/Flush/startBlock"),M("clear-text overlays","xls/xls.go loadFromStreamWithDecryptor")],
 [S("block counter and fill","position in the key stream","rc4Writer.block/offset")],
 ["decrypted bytes","rows of encrypted workbooks"],"none")

p("P11","Batch conversion output does not depend on scheduling",
 "For a set of input files with distinct output names, the batch converter terminates and leaves exactly one output file per non-empty table, each byte-for-byte what converting that file alone produces, and one correct status line per table (or per unreadable file), for every number of processors and every interleaving of its workers. Status lines of one file stay together and no line is lost, duplicated or mixed with another.",
 ["schedules","configurations"],
 "every interleaving of the converter's goroutines and every processor count",
 "The converter has no tests; its result is built by workers, a pooled writer and a background flusher whose races surface only under particular schedules.",
 ["cmd/grate2tsv/main.go","grate.go","xls/xls.go","xlsx/xlsx.go"],
 [M("worker fan-out and status lock","cmd/grate2tsv/main.go main/runProcessor"),M("pooled writers handed to a flusher","cmd/grate2tsv/main.go processFile, cleanup, outpool")],
 [S("writer pool","recycled output buffers","cmd/grate2tsv/main.go outpool"),S("cleanup queue","outputs awaiting flush and close","cmd/grate2tsv/main.go cleanup")],
 ["output tree","status file","termination"],"scheduler and system-call seam (build overlay)")

p("P12","The batch converter never reports success for output it lost",
 "If creating or writing an output file fails in any way (disk full, I/O error, short write), the status line of the affected table, or of its file, carries an error, and tables and files not affected are still converted correctly and reported without error. A status line without an error implies the complete output has been handed to the operating system.",
 ["fault_sequences","schedules"],
 "every placement of write-side faults (per call, per file, or disk capacity) in every interleaving of workers and flusher",
 "No test injects a failing write; buffered output defers the failure to a background flush that only a simulated full disk exposes.",
 ["cmd/grate2tsv/main.go"],
 [M("write error propagation into status lines","cmd/grate2tsv/main.go processFile")],
 [S("buffered output","bytes not yet written","cmd/grate2tsv/main.go output.b")],
 ["output tree","status file"],"system-call seam (build overlay)")

p("P13","A killed batch conversion leaves an honest record and can be re-run",
 "If the batch converter is killed at any instant, every complete status line without an error that it had written refers to an output file that is already complete. Running it again over the same inputs completes normally, leaves every output complete, keeps earlier status lines, and writes the status header exactly once.",
 ["crash_points","schedules","histories"],
 "every instant of process death in every interleaving, followed by a re-run",
 "Crash points cannot be sampled by ordinary tests; the guarantee depends on the order of two writes made by different goroutines.",
 ["cmd/grate2tsv/main.go"],
 [M("flush before reporting","cmd/grate2tsv/main.go processFile/runProcessor"),M("appending to the status file","cmd/grate2tsv/main.go main")],
 [S("status file","append-only record of the run","results.txt")],
 ["simulated disk after a kill and after the re-run"],"scheduler and system-call seam (build overlay)")

p("P14","One bad input never affects the others, and every input is accounted for",
 "When some inputs of either command-line tool are missing, unreadable, failing or damaged, every other input is still extracted completely and correctly, every input is accounted for by its rows or by an error report, and the tool runs to completion. The plain extractor prints the tables of the good files in argument order with nothing added, lost or reordered.",
 ["fault_sequences","schedules","inputs"],
 "every assignment of read faults, missing files and damage to a subset of the inputs, in every schedule",
 "The tools have no tests, and cross-effects between inputs need a fault in one input at a specific step while another is in progress.",
 ["cmd/grater/main.go","cmd/grate2tsv/main.go","grate.go"],
 [M("per-file error handling","cmd/grater/main.go main, cmd/grate2tsv/main.go runProcessor/processFile")],
 [],["standard output","output tree","status file","exit"],"scheduler and system-call seam (build overlay)")

p("P15","Format detection tries formats by priority and stops at real errors",
 "For every set of registered formats and every order of registering them, opening a file consults them in ascending priority; the first that accepts provides the source, one that declines (however it wraps the refusal) passes the file on, and the first other failure is returned unchanged without consulting the rest. If all decline, the result is the unknown-format error, and later registrations take effect on later opens.",
 ["histories","fault_sequences","configurations"],
 "every history of registrations and opens and every assignment of accept/decline/fail outcomes to openers",
 "No test registers more than the built-in formats or has an opener fail; ordering and error pass-through depend on the whole history.",
 ["grate.go","errs.go"],
 [M("priority-ordered opener table","grate.go Register"),M("decline detection through wrapped errors","grate.go Open, errs.go WrapErr")],
 [S("format registry","openers in priority order","grate.go srcTable")],
 ["sequence of consulted openers","returned source or error"],"none")

na=[]
def n(id,title,statement,text,why,files,mech,reason):
    p(id,title,statement,["inputs"],text,why,files,mech)
    na.append(dict(property=id,reason=reason))
PURE="Pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide; only input generation would remain. "
n("P20","Cell values are decoded as the file format defines them",
 "Every numeric, boolean, error, text and formula-result cell encoding of the supported formats is decoded to the value the format specification assigns to it.",
 "every encoded cell value","Seven sample files cover a few encodings.",["xls/structs.go","xls/sheets.go","xlsx/sheets.go"],[M("record and XML value decoding","xls/sheets.go, xls/structs.go, xlsx/sheets.go")],
 PURE+"The subset the workload generators of P01 write is compared against its model there, but the property over all encodings is not claimed.")
n("P21","Number format codes render values as spreadsheets do",
 "For every built-in or custom number format code and every value, the rendered text is what the format code prescribes.",
 "every format code and value","Sample tables only; the comparison tests for custom formats are commented out.",["commonxl/fmt.go","commonxl/formats.go"],[M("format compiler","commonxl/formats.go makeFormatter")],PURE)
n("P22","Serial dates convert to the right calendar instant",
 "Every serial date, in the 1900 and 1904 date systems, converts to the calendar date and time the specification assigns.",
 "every serial value in both date systems","Ten sample dates are only printed, not compared.",["commonxl/dates.go","xls/xls.go"],[M("serial conversion","commonxl/dates.go ConvertToDate")],
 PURE+"The conversion takes the serial as an argument and never reads a clock.")
n("P23","Fractions approximate the value within the requested digits",
 "A value rendered as a fraction uses numerator and denominator within the requested digits and is the value itself when representable.",
 "every value and digit limit","A fixed table of examples.",["commonxl/numbers.go"],[M("continued fraction expansion","commonxl/numbers.go")],PURE)
n("P24","Cell comparison is a consistent ordering",
 "Comparing cells is irreflexive, asymmetric and consistent with equality for all pairs of cell values and types.",
 "all pairs and triples of cell values","Equality is used on a few pairs in tests.",["commonxl/cell.go"],[M("Less and Equal","commonxl/cell.go")],PURE)
n("P25","Merged regions, hyperlinks and hidden tables are represented faithfully",
 "Every cell covered by a merged region carries the marker of its position, hyperlinks keep their display text or target, and hidden tables are listed only as hidden.",
 "every arrangement of merges, links and hidden sheets","One sample workbook has merges; none is compared.",["xls/sheets.go","xls/hyperlinks.go","xlsx/sheets.go"],[M("marker placement","xls/sheets.go, xlsx/sheets.go")],
 PURE+"Merges, links and hidden sheets that the generators write are compared as part of P01's model.")
n("P26","Delimited text is recognised by its shape",
 "A delimited text file is attributed to the delimiter that its lines actually use.",
 "every text file","No test opens a text file through detection.",["simple/csv.go","simple/tsv.go"],[M("column count heuristic","simple/csv.go, simple/tsv.go")],PURE+"That the choice is repeatable is part of P08.")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
json.dump(na,open('/tmp/na.json','w'),indent=1)
