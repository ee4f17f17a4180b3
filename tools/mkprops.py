#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (edit here, run, commit both)."""
import json
F='flatjsonl/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[f if '/' in f else F+f for f in files],state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

prop('P01','I/O failures surface as errors',
 "If opening, decompressing or scanning an input fails, or if creating, writing, flushing, committing or closing any requested output (main or transposed, CSV, RAW, SQLite, PostgreSQL dump, plain or compressed) fails, processing returns a non-nil error instead of reporting success over missing data. Closing flushes or commits everything still buffered, and a failure of one output does not keep the other outputs from receiving the row or from being closed.",
 ['fault_sequences','inputs'],'every failing I/O call, at any point of the run, in every output and input kind',
 'The tests run on a healthy file system with valid inputs: no write, flush, commit or close ever fails in them.',
 ['processor.go','reader.go','writer.go','csv_writer.go','raw_writer.go','pg_dump_writer.go','sqlite_writer.go'],
 [('error results are returned or joined','all writers'),('scanner error is returned after the last line','Reader.Read'),('worker error is handed to the reading loop','Reader.Read'),('outputs are closed on every exit','Processor.WriteOutput')],
 observe=['error returned by Processor.Process / WriteOutput / PrepareKeys'])
prop('P02','One row per line, in input order, exactly once',
 "For every number of workers and every interleaving, each selected input line (also an empty, malformed or JSON-less one) is delivered to every output exactly once, rows are delivered one at a time and in the order of lines across all input files. Processing does not finish before every read line is delivered, unless it fails with an error.",
 ['schedules','inputs'],'all worker interleavings, all line contents, any number of input files',
 'A test samples one schedule per run and a few well-formed files; a lost, repeated or swapped row needs a particular completion order of workers.',
 ['reader.go','processor.go','writer.go'],
 [('sequence number is taken once per selected line','Reader.Read'),('line start/finish pairing','Reader.doLine'),('expected sequence number, atomic claim of finished line','writeIterator.checkCompleted'),('all workers are awaited','Reader.Read'),('final drain','writeIterator.waitPending'),('fan-out to all receivers','Writer.ReceiveRow')],
 state=[dict(name='Sequence/seqExpected',meaning='number of last read line / next line to deliver',where='Reader, writeIterator')],
 observe=['sequence of ReceiveRow calls'])
prop('P03','Rows are isolated from each other',
 "A row holds only values found in its own line: whatever buffers, parsers and row slots are reused and whatever the interleaving, no value, part of a value or key of another line shows up in it. A recorded key or delivered text value does not change after it was recorded.",
 ['schedules','inputs'],'all interleavings of workers and all sequences of lines that reuse the same buffers',
 'Tests process small files where reused buffers rarely hold leftovers of a longer line, and aliasing shows only under particular interleavings.',
 ['reader.go','processor.go','flattener.go','keys.go'],
 [('line bytes are copied for the worker','Reader.Read'),('row slots are cleared before reuse','writeIterator.complete'),('bytes are copied into strings','writeIterator.setupWalker'),('path is copied into the key','Processor.initKey'),('parser is returned to the pool after its values are walked','FastWalker.walkFastJSONString')])
prop('P04','No data races, locks and worker slots are released',
 "State shared by workers is changed only under the processor lock, by atomic operations, or by the one worker that currently delivers rows, and an update of a known key reads and writes it inside one critical section so no discovered type is lost. A lock or a worker slot that is taken is given back on every path, including a panic during processing of a line.",
 ['schedules'],'all interleavings of workers, all exits of the critical sections',
 'The race detector sees only the accesses and interleavings that a run makes; tests have few lines per key.',
 ['keys.go','reader.go','processor.go'],
 [('Processor.mu','Processor.initKey, Processor.scanKey'),('worker semaphore','Reader.Read'),('atomic counters','Reader, Processor, writeIterator')])
prop('P05','Column type merge is total and order-independent',
 "The type of a column depends only on the set of kinds of values seen, not on their order, repetition or on which worker saw them, and merging is defined for every pair of types. Null and absent never change a known type, any scalar overrides object or array, int with float is float, any other mix of different scalars (bool with number, string with anything, kept JSON with anything) is string.",
 ['inputs','schedules'],'all pairs and triples of the nine types, hence all sequences of updates',
 'Tests merge a handful of type pairs in one order.',
 ['type.go','keys.go'],[('merge table','Type.Update'),('key type update','flKey.UpdateType')])
prop('P06','Declared SQL and schema types fit the values',
 "Every column of a created table has a declared type which accepts every value of the discovered type: SQLite declares INTEGER only for int and bool, REAL only for float, no restricting type for the rest; PostgreSQL declares INT8 only for int, FLOAT8 only for float, BOOL only for bool, TIMESTAMP only for string columns with configured time format and VARCHAR for everything else, never an empty type. A number is discovered as int only if its literal is an integer. JSON schema names the matching JSON type (or none for kept JSON/absent) for each discovered type; no type is unknown to any of the three.",
 ['inputs','configurations'],'all discovered types and time configurations',
 'Tests have tables of a few types; a type that is not handled yields broken SQL or a panic only when data has it.',
 ['pg_dump_writer.go','sqlite_writer.go','flattener.go','writer.go'],[('type switch','PGDumpWriter.createTable, SQLiteWriter.createTable, jsonSchema.AddType'),('types of service columns','baseWriter.initFilteredKeys')])
prop('P07','Input text cannot break out of SQL',
 "Names of tables and columns that come from input, configuration or flags appear in SQL text of the SQLite and PostgreSQL outputs only as quoted identifiers with quotes escaped, and row values appear only as bound parameters (SQLite) or CSV encoded COPY data (PostgreSQL), never concatenated into a statement.",
 ['inputs','configurations'],'all keys, values, table names',
 'Tests use benign keys and values; injection needs quotes in a particular position.',
 ['pg_dump_writer.go','sqlite_writer.go'],[('identifier quoting','createTable, insert'),('bound arguments','SQLiteWriter.execTx'),('CSV encoding','PGDumpWriter.insert')])
prop('P08','Numbers are written as they were read',
 "A JSON number reaches the outputs with the literal text it has in the input, also when it is malformed, concatenated with other values or transposed. Sequence numbers, row ids and array indexes are written as exact decimal integers of any magnitude.",
 ['inputs'],'all number literals and all sequence numbers up to 2^63',
 'Tests have short numbers for which rounding formats give the same text.',
 ['flattener.go','processor.go','reader.go','writer.go','keys.go','pg_dump_writer.go','sqlite_writer.go'],
 [('raw literal is kept beside the float','FastWalker.WalkFastJSON, Value.RawNumber'),('raw literal is preferred','Value.Format'),('integer formatting','Reader.doLine, baseWriter, intOrString')])
prop('P09','Header and row of every table are aligned',
 "In every table of every output the i-th header or declared column describes the i-th field of every row, and a row has exactly one field per column in every line, whether the line has the value or not (absent and null are an empty field in text outputs, NULL in SQLite). Each key belongs to exactly one table: the main one, or the table of its transposition.",
 ['inputs','configurations'],'all sets of keys, all lines with any subset of the keys',
 'Tests compare a few small tables; misalignment shows for particular combinations of absent, null and transposed keys.',
 ['writer.go','csv_writer.go','raw_writer.go','pg_dump_writer.go','sqlite_writer.go'],
 [('key indexes of a projection','baseWriter.setupKeys'),('one field per key index','baseWriter.receiveRow, receiveRowValues'),('header by the same indexes','CSVWriter.writeHead, baseWriter.initFilteredKeys')])
prop('P10','Wide tables are split consistently',
 "When a table has more columns than allowed for a single SQL table, its CREATE statements and its rows are split at the same columns, into parts with the same names, so that every column is in exactly one part, every part has the row id in front, and no part has more columns than the maximum. This holds for every number of columns including exact multiples of the maximum.",
 ['inputs','configurations'],'all column counts and all maximums from 2',
 'Tests never exceed one part or hit the boundary.',
 ['pg_dump_writer.go','sqlite_writer.go'],[('split condition and part names','createTable vs insert')])
prop('P11','Second pass finds the keys of the first pass',
 "The pass that writes rows identifies a value by the same key as the pass that scanned keys: both walk the same way (kept JSON, string extraction, line prefix, sequence), key text and list of path segments always describe the same element, and a parent of a key is the element that contains it. So every value of a scanned line lands in the column that was discovered for it.",
 ['inputs','configurations'],'all nesting shapes, all extraction settings',
 'Tests cover a few shapes; a divergence of two representations of a path shows only for particular nesting.',
 ['flattener.go','keys.go','processor.go','reader.go'],
 [('flat path and path are extended together','FastWalker'),('parent length','FastWalker'),('hash of flat path','hasher.hashBytes, hasher.hashParentBytes')])
prop('P12','The walk covers every value of a line',
 "Traversal handles each kind of JSON value (object, array, string, number, true, false, null), visits every property of every object and every element of every array at any depth, and reports each scalar exactly once under its own path with its own value. A key configured to keep JSON is reported as one JSON text instead of its children, in objects and in arrays.",
 ['inputs'],'all JSON documents',
 'Tests walk a few documents; a skipped first/last element or an unhandled kind needs a particular document.',
 ['flattener.go'],[('kind dispatch','FastWalker.WalkFastJSON'),('element loops','walkFastJSONArray, walkFastJSONObject')])
prop('P13','Include and exclude filters are obeyed',
 "A key that matches excludeKeys or excludeKeysRegex never becomes a column, even if it is listed in includeKeys or matches includeKeysRegex. If includeKeys or includeKeysRegex are given, any other key never becomes a column; included keys come first and in the configured order, and no key becomes a column twice.",
 ['inputs','configurations'],'all sets of keys and all filter configurations',
 'Tests use single filter settings, rarely in combination.',
 ['keys.go','processor.go'],[('filtering','Processor.iterateIncludeKeys'),('single registration of a column','Processor.addIncludeKey')])
prop('P14','Documented options are wired',
 "Each command line flag listed in README is registered under that name with the documented default, is bound to its own setting and influences processing; each documented configuration key is accepted by the same name in JSON and YAML and influences processing. No two flags share a setting.",
 ['configurations'],'all documented flags and configuration keys',
 'Tests set fields of structures directly and never parse flags; most options have no test.',
 ['flags.go','config.go','processor.go','README.md'.replace('README.md','app.go')],[('flag registration','Flags.Register'),('configuration tags','Config')])
prop('P15','Same input and options give the same output',
 "Processing the same input with the same options (one worker in the key scan, or keys listed in the configuration) gives the same columns, names, types, extraction, transposition and rows in every run: no result depends on iteration order of a hash map, on time or on randomness. Unordered application of several replaceKeysRegex rules that match the same key is the documented exception.",
 ['histories','schedules'],'all runs over the same input, all map iteration orders',
 'A test sees one or a few iteration orders, most of which give the expected result.',
 ['keys.go','processor.go','flattener.go','writer.go','csv_writer.go','pg_dump_writer.go','sqlite_writer.go'],[('sorting of keys that come from a map','Processor, KeyHierarchy, PGDumpWriter'),('first seen key of a canonical group is kept','Processor.initKey, flKeysInit')])
prop('P16','Compression follows the file name and is finalized',
 "An input named .gz or .zst is decompressed with that format and any other is read as is; a CSV, RAW or PostgreSQL dump output (main or transposed) named .gz or .zst is compressed with that format and any other is written as is. On close, buffered rows are flushed into the compressor before it is closed, and the compressor is closed before the file under it.",
 ['inputs','configurations'],'all file names and sizes of output',
 'Tests never read or write compressed files.',
 ['reader.go','writer.go','pg_dump_writer.go','csv_writer.go','raw_writer.go','flags.go'],[('suffix switch','Reader.session, newFileWriter, NewPGDumpWriter'),('close order','compressedFile.Close, writers Close')])
prop('P17','No input or option crashes the process',
 "Neither content of a line nor a configured regular expression, key or limit crashes the process: invalid options are reported as errors when processor is created, and a panic while a line is processed is turned into an error of the run, with the process staying alive. Outside of line processing there is no panic or process exit that data or options can trigger.",
 ['inputs','configurations'],'all lines and all option values',
 'Tests use valid options and well-formed lines.',
 ['reader.go','processor.go','keys.go','regex.go','writer.go','flattener.go'],[('recover in worker','Reader.doLine'),('compilation of user regexps with error','regex, NewProcessor')])
prop('P18','Opened inputs and outputs are released',
 "Every input file opened during a pass is closed by the end of its processing and every created output file or database is closed by the end of the run, also when processing fails midway; progress reporting of a pass is stopped. Nothing is used after it was closed.",
 ['fault_sequences','histories'],'all exits of a pass, success or failure at any step',
 'Leaked descriptors do not fail a short test process.',
 ['reader.go','processor.go','keys.go','writer.go'],[('session close','readSession.Close'),('writer close','Processor.WriteOutput, Writer.Close')])
prop('P19','Coalescing and concatenation of shared columns',
 "When several keys share a column, without concatDelimiter the first non-null value of the line in order of appearance wins and later ones are ignored (null only shows if there is nothing else); with concatDelimiter every next value is appended after the delimiter, nothing is lost, and the result is text. A value of an unshared column is stored unchanged, and a const: column has its constant in every row.",
 ['inputs','configurations'],'all sequences of value kinds that arrive for a column',
 'Tests have one sample for each mode.',
 ['processor.go','keys.go'],[('decision on existing value','writeIterator.setValue'),('constants','writeIterator.complete'),('type of shared column','Processor.prepareKeys')])
prop('P20','Transposed rows are complete and equal in all outputs',
 "For a transposed prefix each line gives one row per distinct element index or property name that has a present value, carrying the sequence number of its line, the index, and every present value under its own trimmed column; a line without such values gives no row. All outputs produce the same set of transposed rows and columns.",
 ['inputs','configurations'],'all lines, all transposed prefixes, all outputs',
 'Tests compare one transposed sample per output.',
 ['writer.go','keys.go','csv_writer.go','raw_writer.go','pg_dump_writer.go','sqlite_writer.go'],[('row per index','baseWriter.receiveRow, receiveTransposedRowValues'),('key split','scanTransposedKey')])
prop('P21','csvequals never reports equality of different files',
 "The csvequals tool reports equality (exit 0) only after both files were read to the end and every pair of lines, headers included, had the same value for each column name; different number of lines, a missing column, a different value or a read failure always ends in failure.",
 ['inputs','fault_sequences'],'all pairs of CSV files with distinct column names',
 'The tool has no tests.',
 ['cmd/csvequals/main.go'],[('line loop','main'),('comparison','mapDiff')])
prop('P22','Line and size limits are exact',
 "With an offset and a maximum of lines, exactly the lines after the offset, up to the maximum, of an input are processed and no other line, in both passes; the separate limit for key scanning only shortens the scan. A field limit cuts longer strings to exactly that many bytes and leaves shorter ones, numbers and other values alone; zero means unlimited.",
 ['inputs','configurations'],'all offsets, limits and line counts',
 'Tests cover no boundary of the limits.',
 ['reader.go','keys.go','processor.go'],[('offset and max guards','Reader.Read'),('limits set up for each pass','scanAvailableKeys, iterateForWriters'),('field limit','writeIterator.setupWalker')])
prop('P23','Time conversion touches only configured strings',
 "Only a string value of a key with a configured time format other than RAW is reformatted, parsed with that format (in the output time zone if set) and printed in the output format (RFC3339 unless configured); a value that does not parse yields a text that reports the failure and has the original value. Every other value passes through unchanged.",
 ['inputs','configurations'],'all values, all time settings',
 'Tests cover one successful conversion.',
 ['processor.go'],[('guarded conversion','writeIterator.setValue'),('format of a key','Processor.iterateForWriters')])
prop('P24','High cardinality collapse loses nothing',
 "When number of children of an element exceeds the limit, and it is not listed in allowCardinality, the element itself becomes a column with kept JSON and only keys below that element cease to be columns; this happens at most once per element, never for the listed ones and never when the limit is zero. Elements at or below the limit keep all of their columns.",
 ['inputs','configurations'],'all documents and limits',
 'Tests have one collapsed element.',
 ['keys.go'],[('cardinality counter','Processor.collectKeyCardinality'),('removal of children','Processor.prepareScannedKeys')])
prop('P25','URL and JSON extraction maps every part',
 "Each extraction format that configuration schema lists has an extractor that reports itself under that same name, and a URL is decoded into its scheme, user, password, host, port, query, path segments and fragment, each under its own name from the corresponding part of the parsed URL. When extraction fails the string value is still kept and no error or panic follows.",
 ['inputs','configurations'],'all strings, all extraction formats',
 'Tests decode two URLs.',
 ['extract.go','url.go','flattener.go'],[('factory','extract.Extractor'),('parts','decodeURL'),('fallback','FastWalker.walkFastJSONString')])
prop('P26','Generated column names do not merge different keys',
 "A name that is generated for a key (snake_case tail of -replace-keys, shortened name of -key-limit) is never a name that another key of the run has: generated before, given by replaceKeys or replaceKeysRegex, or its unchanged name when names are shortened. Columns are merged only when they belong to the main table and have the same name, so values of two keys share a column only if configuration gives both the same name or the keys differ in case only.",
 ['inputs','configurations'],'all sets of keys, all limits and replacement rules',
 'Tests have a few keys whose generated names hardly collide.',
 ['keys.go'],[('name selection','Processor.prepareKey, Processor.limitKey'),('reserved names','Processor.prepareKeys'),('merge of columns','Processor.prepareKeys')])
# not claimed
prop('P30','Memory stays within the soft limit',
 "Heap in use stays near the configured limit and number of undelivered rows is bounded, for any input.",
 ['inputs','schedules'],'all inputs and schedules','Depends on run time quantities of the garbage collector and scheduler.',
 ['processor.go','reader.go'],[('throttling','Processor.watchMemUsage, Reader.Read')])
prop('P31','Outputs read back to the same values',
 "Reading an output back (CSV parser, SQLite, psql COPY) gives the values of the input lines, up to the documented text conversions.",
 ['inputs'],'all values','Depends on encoders of other packages and on values.',
 ['csv_writer.go','sqlite_writer.go','pg_dump_writer.go'],[('encoding','encoding/csv, database/sql')])
prop('P32','A single requested key is found exactly where the full traversal finds it',
 "When only one key is requested, it is looked up in each line without full traversal, and the values it gets are the same as with the traversal: the lookup descends into the array element whose index the next segment of the path spells, into every property (also a repeated one) whose name is exactly the next segment, and into nothing else; each parsed line is looked up or traversed exactly once, with the key's own path and line number, and values of the requested key are never left out. The shortcut is taken only when one key is requested, the table has one column with a single source key, and nothing is extracted from strings.",
 ['inputs','configurations'],'all documents and keys','Tests look up keys of a few documents.',
 ['flattener.go','processor.go','reader.go'],[('lookup','FastWalker.GetKey, FastWalker.getKey'),('condition','Processor.singleKey'),('use','Reader.doLine, writeIterator.setValue')])
import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
