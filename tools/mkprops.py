#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["flatjsonl/"+f if not f.startswith(("cmd/","main.go","README")) else f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Flattening is faithful: every scalar lands in its own cell, unchanged",
  "For every input of JSON object lines, the CSV has one column per distinct path that holds a scalar somewhere (keys joined with dots, array positions as [i]) and one data row per line. Each cell holds exactly that line's scalar - the unescaped text of a string, the literal text of a number, true/false - and is empty for null or missing paths; nothing is dropped, invented or moved. With one worker, columns appear in order of first appearance and repeated runs produce identical bytes.",
  ["inputs"], "all sequences of JSON object lines (nesting, arrays, mixed shapes of one path, any key and string contents, any number literal)",
  "tests compare a handful of golden files; the guarantee is over every document shape, every string/number spelling and every mix of shapes under one path",
  ["flattener.go","keys.go","processor.go","csv_writer.go","writer.go"],
  [("WalkFastJSON","flatjsonl/flattener.go"),("scanKey/initKey/prepareScannedKeys","flatjsonl/keys.go"),("setValue","flatjsonl/processor.go"),("receiveRow","flatjsonl/writer.go")],
  [("flKeys","hash of flat path -> key","flatjsonl/processor.go"),("lineBuf.values","cells of the row under construction","flatjsonl/processor.go")],
  ["CSV output file"])
p("C02", "Rows keep input order and are complete at every concurrency",
  "At every degree of concurrency and under every scheduling of the workers, output rows come in input-line order, one per input line, each made only of its own line's values, and the data equals that of a single-worker run. Only the order of the columns may vary with scheduling. A low memory soft limit may slow processing down but changes nothing in the output.",
  ["schedules","inputs"], "every number of workers, every interleaving of line processing (lines of very different cost, erroneous lines among them), every input",
  "tests run one schedule on small inputs; a lost, duplicated, reordered or cross-contaminated row needs particular completion orders",
  ["reader.go","processor.go"],
  [("Reader.Read worker pool","flatjsonl/reader.go"),("writeIterator lineStarted/lineFinished/checkCompleted/waitPending","flatjsonl/processor.go"),("lineBufPool reuse","flatjsonl/processor.go")],
  [("seqExpected","next line to be written","flatjsonl/processor.go"),("pending/finished","rows in flight","flatjsonl/processor.go")],
  ["CSV output file"])
p("C03", "A bad line costs only itself",
  "Lines that are empty, contain no JSON, or hold JSON that is cut off or malformed (as far as the JSON parser in use can tell) each yield exactly one row of their own with all columns empty (apart from line-prefix captures and the sequence number), and anything after the end of a line's JSON object is ignored. Every other line's row is exactly what it would be without the bad lines, and processing finishes successfully without crashing or hanging. At verbosity 2 each line that is empty, without JSON or malformed is reported as an error by each pass over the input, however many there are, and no other line is.",
  ["inputs"], "every placement of arbitrary garbage, truncated JSON, empty lines, odd number spellings, deep nesting, invalid UTF-8 and trailing text among good lines",
  "tests contain one or two fixed bad lines; robustness is over all byte strings at all positions",
  ["reader.go","flattener.go","processor.go"],
  [("doLine recover / OnError","flatjsonl/reader.go"),("prefixedLine","flatjsonl/reader.go"),("AllowUnexpectedTail parser","flatjsonl/reader.go")],
  (), ["CSV output file","process exit","log"])
p("C04", "Line-prefix captures become columns of the right row",
  "With a line-prefix pattern, the text before the first '{' of a line (or the whole line if it has no '{') is matched, and the i-th capture group of the first match appears in that line's row under ._prefix.[i], next to the row's JSON values. Lines the pattern does not match have empty prefix cells, lines without JSON keep a row with just the captures, and the pattern behaves the same whether given by flag or configuration (the flag wins).",
  ["inputs","configurations"], "all prefix texts, patterns with any number of groups, lines with and without JSON, mixed in any order",
  "tests use a single pattern on a fixed log",
  ["reader.go","processor.go"],
  [("prefixedLine","flatjsonl/reader.go"),("MatchLinePrefix flag/config merge","flatjsonl/processor.go")], (), ["CSV output file"])
p("C05", "Key selection is exactly a projection of the full output",
  "Including or excluding keys (lists, patterns, single-key extraction), removes or keeps whole columns and nothing else: every remaining column has precisely the cells it has in the unrestricted output, row count unchanged, and exclusion wins over inclusion. Explicitly listed keys come first in the given order, listed keys that never occur give empty columns, and a const:<value> entry gives a column holding that value in every row. The result is the same whether or not the key-scanning pass was needed, including for a single selected key.",
  ["inputs","configurations"], "every input and every combination of include/exclude lists, patterns, constants and single-key selection",
  "tests fix a few configurations on one log; agreement between the one-pass, two-pass and single-key shortcut paths is over all inputs and selections",
  ["keys.go","reader.go","processor.go"],
  [("iterateIncludeKeys/flKeysInit/addIncludeKey","flatjsonl/keys.go"),("single key shortcut","flatjsonl/reader.go"),("constVals","flatjsonl/processor.go")],
  (), ["CSV output file"])
p("C06", "Renaming columns never changes data, and distinct keys stay apart",
  "Renaming (explicit map, pattern map, automatic snake_case tails, name length limit) changes only header names: rows, cells and column order are those of the run without renaming, except that keys explicitly mapped to one name share a column. Explicit names are used verbatim and win over patterns, patterns over automatic names; an automatic name is a snake_case tail of its key in which the words of the key stay apart (also those of camel case), starting with a letter or underscore, or the unchanged key. (Names that explicit maps and patterns choose are the user's to keep apart.) Automatic naming and the length limit never give two keys one name, and limited names do not exceed the limit.",
  ["inputs","configurations"], "all key sets (unicode, punctuation, duplicate tails, nesting, numeric segments) and all renaming configurations and limits",
  "tests check a few keys; collisions and crashes depend on combinations of keys",
  ["keys.go"],
  [("prepareKeys/prepareKey","flatjsonl/keys.go"),("toSnakeCase","flatjsonl/keys.go"),("PrepareRegex","flatjsonl/regex.go")], (), ["CSV header"])
p("C07", "Keys mapped to one name coalesce (or concatenate) without loss",
  "When several keys are renamed to the same name there is one column for them, at the position of the first. Without a delimiter its cell is the value of the first of these keys in the line that has a non-null value; with a concatenation delimiter it is all their non-null values in the line, in line order, joined by the delimiter. Columns of other keys are unaffected.",
  ["inputs","configurations"], "all lines (any subset, order, nulls and types of the merged keys) and all groupings of keys into names",
  "the single coalesce test has fixed values; nulls, order and repeated groups vary",
  ["processor.go","keys.go"],
  [("setValue","flatjsonl/processor.go"),("prepareKeys keyMap","flatjsonl/keys.go")], (), ["CSV output file"])
p("C08", "Transposing moves every value to the right row of the child table",
  "Every value under a transposed prefix appears exactly once in the child table, in the row identified by its line's sequence number and its array index or object property name, under the column of the remaining path (or _value), and no other rows or values appear there. The main table keeps exactly the other columns, one row per line; child rows come in line order. This holds for the CSV, RAW, SQLite and PostgreSQL outputs alike.",
  ["inputs","configurations"], "all inputs (arrays, maps, mixed, ragged, odd property names) and all transpose maps over disjoint tables",
  "tests transpose a few fixed files",
  ["keys.go","writer.go","csv_writer.go","raw_writer.go","sqlite_writer.go","pg_dump_writer.go"],
  [("scanTransposedKey","flatjsonl/keys.go"),("receiveRow/receiveTransposedRowValues","flatjsonl/writer.go")], (), ["child table files/tables"])
p("C09", "The SQLite database holds exactly the CSV data",
  "The SQLite output opens cleanly and its table (split over _part tables joined by _seq_id when there are many columns) holds the same rows, columns and values as the CSV output, for arbitrary string contents and names, with _seq_id equal to the line's sequence number. Null and missing values are stored as NULL, an empty string as an empty string; numbers in numeric columns keep their value. Row count does not matter: all rows are there, including those after the last full transaction batch.",
  ["inputs","configurations"], "all inputs, column counts around the table-width limit, row counts around the transaction batch size, arbitrary text",
  "tests compare few rows with fixed content and never approach batch or width boundaries",
  ["sqlite_writer.go","writer.go"],
  [("insert/createTable partitioning","flatjsonl/sqlite_writer.go"),("execTx/commitTx batching, Close","flatjsonl/sqlite_writer.go")], (), ["SQLite file"])
p("C10", "The PostgreSQL dump is well formed and holds exactly the CSV data",
  "The dump creates each table once before copying into it, every COPY block names exactly columns that its table has, every data row has as many fields as the block's column list, and the rows of all blocks together equal the CSV output (split over _part tables by _seq_id when there are many columns). Every value of a scanned line is acceptable for its column's declared type, and a column of one key whose values are all converted times (parseTime) is a TIMESTAMP. This holds for any number of columns and of rows, including the periodic flush.",
  ["inputs","configurations"], "all inputs, column counts around the table-width limit, row counts around the flush size, all scalar type mixes, transposed tables",
  "one golden file is compared; width and flush boundaries and type mixes are not reached",
  ["pg_dump_writer.go","type.go","keys.go"],
  [("createTable/insert/flush","flatjsonl/pg_dump_writer.go"),("column type merge","flatjsonl/type.go")], (), ["dump file"])
p("C11", "RAW output is the CSV data joined by the delimiter",
  "The RAW output has, for every CSV data row, one record made of the same cell values verbatim, joined by the configured delimiter and ended by a newline, with no header; child tables of transposed data likewise.",
  ["inputs","configurations"], "all inputs and delimiters, with selection, transposition and compression",
  "one golden file",
  ["raw_writer.go","writer.go"],
  [("writeRow","flatjsonl/raw_writer.go")], (), ["RAW file"])
p("C12", "Compression of inputs and outputs is transparent",
  "Processing a gzip or zstandard compressed input gives the same output as processing the plain input, and an output whose name ends in .gz or .zst is a complete, valid compressed stream whose decompressed content equals the plain output; this holds for every output kind and for child tables.",
  ["inputs","configurations"], "all inputs (sizes around block boundaries, several compressed members, mixed compressed and plain inputs) and all output kinds",
  "tests read one .zst and write one .gz",
  ["reader.go","writer.go","pg_dump_writer.go","csv_writer.go","raw_writer.go"],
  [("session","flatjsonl/reader.go"),("newFileWriter and Close of compressors","flatjsonl/writer.go")], (), ["output files"])
p("C13", "Line windows select exactly the requested lines",
  "With an offset of k and a maximum of m, the output equals processing just lines k+1 to k+m of the input (through the end if no maximum is set), whatever the other options, including explicitly selected keys. A key-scan limit restricts only which columns exist: rows are unaffected, and columns are those of the lines scanned.",
  ["inputs","configurations"], "all inputs and all offset / maximum / key-scan limits around the input size",
  "tests use one offset and one maximum",
  ["reader.go","keys.go","processor.go"],
  [("OffsetLines/MaxLines handling","flatjsonl/reader.go")], (), ["CSV output file"])
p("C14", "Values kept as JSON are whole, and cardinality limits touch only their parent",
  "A key listed to stay JSON, or an object/array whose number of distinct child keys exceeds the children limit, becomes a single column whose cell in each line is a JSON document equal to the original value, with none of its descendants as columns. All other columns, including keys that merely share a name prefix, are exactly as without the limit, and parents at or below the limit or explicitly allowed are flattened normally.",
  ["inputs","configurations"], "all inputs (child counts around the limit, nested candidates, names that prefix each other) and limits",
  "one fixed high-cardinality file",
  ["keys.go","flattener.go"],
  [("collectKeyCardinality/prepareScannedKeys","flatjsonl/keys.go"),("KeepJSON","flatjsonl/flattener.go")], (), ["CSV output file"])
p("C15", "Extracted string contents equal direct flattening of those contents",
  "With string extraction on, a string holding a JSON object or array also yields, under .JSON, exactly the columns and cells that flattening that document gives, and a string holding an absolute URL (scheme://...) yields under .URL its scheme, user, password, host, port, path segments, query values and fragment; pattern-selected extraction does the same for matching keys in the chosen format. The original string's own cell is unchanged, and strings that are not extractable yield nothing more.",
  ["inputs","configurations"], "all strings (nested JSON to any depth, URLs, near-misses) and all extraction patterns, with and without explicit key selection",
  "two fixed files",
  ["flattener.go","url.go","extract.go","keys.go"],
  [("walkFastJSONString","flatjsonl/flattener.go"),("decodeURL","flatjsonl/url.go")], (), ["CSV output file"])
p("C16", "Time conversion preserves the instant",
  "For a key with a configured time pattern, every string that parses under it is written in the output format as the same instant, converted to the output time zone when one is set (a value without an offset is read in that zone, or UTC); a string that does not parse yields an explicit failure text, and pattern RAW leaves values untouched. Other keys are unaffected.",
  ["inputs","configurations"], "all instants, time patterns with and without offset, output formats and zones",
  "one pattern is tested",
  ["processor.go"],
  [("setValue time reformat","flatjsonl/processor.go")], (), ["CSV output file"])
p("C17", "Column types are sound and independent of line order and concurrency",
  "When keys are scanned, the type reported for a column (and used in SQL tables) depends only on the set of values in the column: int if all non-null values are integers, float if all are numbers, bool if all are booleans, string for any other mix, null if there are only nulls. It does not depend on the order of the lines or on the number of workers, and a column that replaces several keys has the type of their combined values.",
  ["inputs","schedules"], "all multisets of values of each key, all orders, all worker counts",
  "tests see a few sequences of types in one order",
  ["type.go","keys.go"],
  [("Type.Update","flatjsonl/type.go"),("scanKey/flKeysInit/prepareKeys","flatjsonl/keys.go")], (), ["-show-keys-info output","SQL DDL"])
p("C18", "Key reports describe the data exactly",
  "The flat key list names exactly the scalar paths of the data, each once; the hierarchy is exactly the tree of those paths; the keys report lists each output column with its original key, new name and type and, when inclusion is configured, marks skipped keys. The generated JSON schema validates every line of the input and lists, for the JSON of the lines, every property and type that occurs and no others.",
  ["inputs"], "all inputs, including mixed-shape paths, with and without output, selection and renaming",
  "two fixed inputs are compared with golden text",
  ["processor.go","keys.go","flattener.go"],
  [("maybeShowKeys/showKeysInfo","flatjsonl/processor.go"),("jsonSchema.AddKey, KeyHierarchy","flatjsonl/flattener.go")], (), ["standard output"])
p("C19", "Skipping zero columns drops exactly the all-zero columns",
  "With zero-column skipping, a column is dropped if and only if every value it has in the scanned lines is null, missing, false, 0 or an empty string; all remaining columns are unchanged.",
  ["inputs","schedules"], "all inputs, orders of zero and non-zero values, worker counts",
  "not tested",
  ["keys.go"],
  [("isZero merge","flatjsonl/keys.go")], (), ["CSV output file"])
p("C20", "Field limit truncates text and only text",
  "With a field limit of n, a string cell longer than n bytes becomes a prefix of it of at most n bytes ending on a character boundary (and no shorter than that requires); shorter strings, numbers, booleans and the set of columns are unchanged.",
  ["inputs","configurations"], "all strings and limits, including multi-byte characters around the limit",
  "not tested",
  ["processor.go"],
  [("fieldLimit","flatjsonl/processor.go")], (), ["CSV output file"])
p("C21", "Failures are reported, never a silently incomplete result",
  "If an input cannot be opened, read or decompressed to its end, a line exceeds the buffer, the configuration or a pattern is invalid, or any output (main or child, any format, or a report on standard output) cannot be created or fully written, the tool ends with a non-zero exit status. If it exits with zero, every requested output is complete.",
  ["fault_sequences","inputs","configurations"], "every fault kind (missing, empty, truncated, corrupted inputs; full device or size limit at any byte of any output; bad configuration) at every position",
  "no test injects a fault",
  ["app.go","processor.go","csv_writer.go","raw_writer.go","sqlite_writer.go","pg_dump_writer.go","reader.go"],
  [("Writer.Close and WriteOutput","flatjsonl/processor.go"),("scanner error return","flatjsonl/reader.go"),("log.Fatal in Main","flatjsonl/app.go")], (), ["exit status","output files"])
p("C22", "All configuration spellings mean the same",
  "A configuration given as inline JSON, a JSON file, a JSON5 file or a YAML file with the same content produces the same output for the same input, for every configuration field; an unreadable or undecodable configuration is an error.",
  ["configurations","inputs"], "all configurations, all field values",
  "one YAML file is decoded in tests",
  ["processor.go","config.go"],
  [("loadConfig","flatjsonl/processor.go"),("field tags","flatjsonl/config.go")], (), ["CSV output file"])
p("C23", "Several inputs behave as their concatenation",
  "Processing several inputs in one run gives the same output as processing a single input made of their lines in the given order: same columns, rows and sequence numbers, whether inputs are plain or compressed, files or readers, with or without a final newline.",
  ["inputs","configurations"], "all splits of all inputs into one or more non-empty files",
  "one test with two files",
  ["processor.go","keys.go","reader.go"],
  [("input loops","flatjsonl/processor.go"),("Reader.Sequence","flatjsonl/reader.go")], (), ["CSV output file"])
p("C24", "csvequals decides equality of CSV tables up to column order",
  "csvequals exits with zero if and only if both files are readable CSV with the same set of columns, the same number of rows and, row by row, the same value in every column, regardless of the order of columns. (Blank lines are not rows, CR LF inside a cell is a line feed, and columns with one name are told apart by their order.)",
  ["inputs"], "all pairs of CSV tables with unique column names",
  "the command has no tests",
  ["cmd/csvequals/main.go"],
  [("main/mapDiff","cmd/csvequals/main.go")], (), ["exit status"])
p("C25", "Sequence numbers are exact and identify the input line",
  "The sequence number of the i-th processed line is i, written as a plain decimal integer, wherever it appears: the added sequence column, the row id of SQL tables, the sequence column of child tables; child array indexes likewise. This holds for any number of lines, at any concurrency, across several inputs and for lines without usable JSON.",
  ["inputs","schedules","configurations"], "all line counts (past 10^5 and 10^6 digit boundaries), concurrency levels and output formats",
  "tests have a few lines, where every number format agrees",
  ["reader.go","writer.go","processor.go"],
  [("AddSequence / Format","flatjsonl/reader.go"),("receiveRow sequence","flatjsonl/writer.go")], (), ["all outputs"])
p("C26", "Case-insensitive keys merge, case-sensitive keys stay apart",
  "By default keys differing only in letter case share one column, named as first seen (with one worker), holding each line's value whichever spelling the line uses, with no value lost. With case-sensitive keys every spelling is its own column and nothing is merged. Options that list, exclude, rename or convert keys match them case-insensitively by default, whether keys are scanned or not.",
  ["inputs","configurations"], "all inputs mixing spellings (including non-ASCII letters), all single- and multi-column selections",
  "one test input",
  ["keys.go","processor.go"],
  [("canonicalKeys/ck","flatjsonl/processor.go"),("flKeysInit","flatjsonl/keys.go")], (), ["CSV output file"])
p("C27", "The command line produces what its flags ask for",
  "Inputs given as arguments or with -input are equivalent; -output and format flags write exactly the requested files in the format of each name, defaulting to <input>.csv when nothing else is asked for; every flag has the documented effect and default, and outputs written in one run together equal those written in separate runs. A successful run exits with zero and a failed one (a missing or empty input, a bad option value) with non-zero, and key reports alone write no files.",
  ["configurations","inputs"], "all combinations of input/output/report flags over generated inputs",
  "the command line entry point is not covered by any test",
  ["flags.go","app.go","main.go"],
  [("Register/Parse/PrepareOutput/Inputs","flatjsonl/flags.go"),("Main","flatjsonl/app.go")], (), ["files written","standard output","exit status"])
p("C28", "A run depends on its inputs and options alone, and changes only its outputs",
  "A run gives the same files and reports whatever ran before it or runs at the same time in the same process or directory: existing output files are replaced entirely, a table is added to an existing database without touching the tables in it (a run whose table exists already fails), inputs and other files stay as they are, repeated runs agree, and processors that share a configuration do not influence each other. When a run ends, nothing of it keeps running or stays open.",
  ["histories","schedules","configurations"], "all sequences and overlaps of runs over shared directories, databases, configurations and processes, failing runs among them",
  "every test makes one run with fresh outputs; stale files, shared state and leaks need a history of runs",
  ["processor.go","writer.go","sqlite_writer.go","flattener.go","reader.go"],
  [("NewProcessor","flatjsonl/processor.go"),("newFileWriter","flatjsonl/writer.go"),("NewSQLiteWriter/createTable","flatjsonl/sqlite_writer.go"),("readSession.Close","flatjsonl/reader.go")],
  [("parserPool","JSON parsers shared by all processors","flatjsonl/flattener.go")], ["output files","databases","exit status","goroutines and open files of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
