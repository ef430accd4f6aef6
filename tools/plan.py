"""Case counts (per shard, 8 shards) and what counts as non-trivial, per property."""
NOT_APPLICABLE = {}
PLAN = {
 "C23": dict(quick=3000, thorough=60000, cli=True,
   rule="inputs with good and bad lines cut into 2-12 parts at line boundaries, each plain, gzip or zstd, file or reader, with or without final newline, by the library or the command with some given by -input, all options that depend on the whole input; non-trivial: at least two parts and two columns",
   note="All outputs are compared byte by byte with the run over one input (apart from progress messages in the dump), and with the reference model. No line windows; no empty inputs, which are failures (C21)."),
 "C26": dict(quick=14000, thorough=100000,
   rule="nested lines whose keys change letter case between lines (latin, cyrillic, accented), case-sensitive and not, with exclusions and renames spelled in other cases, transposing, patterns; non-trivial: some path is spelled in more than one way",
   note="Compared with the reference model. Spellings vary between lines, not inside one object. With several workers the column name may be any spelling that has values."),
 "C19": dict(quick=9000, thorough=100000,
   rule="inputs whose values are mostly zeros of all kinds, with few other values at drawn positions, nested, with case variants, windows, prefix captures, extraction, kept documents; non-trivial: some but not all columns are dropped",
   note="Compared with the reference model and with the run without the option. No numbers below the range of doubles."),
 "C20": dict(quick=12000, thorough=100000,
   rule="strings of 0-20 characters of 1-4 bytes, limits of 1-24 bytes, with prefix captures, extraction, transposing, concatenation; non-trivial: some string is longer than the limit",
   note="Compared with the reference model and with the run without limit."),
 "C18": dict(quick=11000, thorough=80000,
   rule="random inputs with nested and mixed shapes, bad lines, windows, sequence, prefix captures, kept documents, extraction, selections, renames, transposing; each report alone and all together; non-trivial: at least two lines, two columns and a nested or mixed-type path",
   note="The schema is judged by a validator in the harness in both directions: every line of the scanned part is valid and described, everything described occurs. Schemas are not combined with sequence, prefix, extraction or kept documents. Keys have no newlines; keys do not start with a bracket."),
 "C17": dict(quick=9000, thorough=100000,
   rule="columns with drawn palettes of value types (pure and mixed, structures and nulls among them), coalesced, concatenated, transposed, prefix and sequence columns; every input is run in order with one worker and permuted with 1-16 workers; non-trivial: some column has values of more than one type and there is more than one line",
   note="Types are computed from the set of values. Compared with the keys report and the types declared in the PostgreSQL dump. Runs that scan keys (no explicit list of keys), and no columns kept as JSON."),
 "C16": dict(quick=12000, thorough=100000,
   rule="texts of generated instants (around daylight saving changes, edges of years) in 19 layouts and 5 zones, odd and failing texts, non-strings, 7 output zones and 8 output formats, nested keys, prefix captures, renamed and selected keys; non-trivial: some cell is converted",
   note="Compared with the reference model, which uses Go's time package as the tool does; where input and output carry offsets, the output is also read back and compared with the instant that was generated. Keys of time patterns are spelled exactly."),
 "C15": dict(quick=8000, thorough=80000,
   rule="strings holding JSON documents (nested, cut off), URLs built of odd components, broken URLs and plain texts, extraction of all strings and by patterns, with selections; non-trivial: at least two extracted columns",
   note="Compared with the reference model, which decomposes URLs with net/url as the tool does, and with the run without extraction. Strings that JSON readers differ about (white space or text around the document) are not generated."),
 "C12": dict(quick=500, thorough=8000,
   rule="inputs compressed at all levels, in one or several members or frames cut anywhere, as files or readers, with names that have compression suffixes elsewhere than at the end, and outputs of all text formats with child tables, up to several MB; non-trivial: something is compressed",
   note="Outputs are decompressed by the standard library (gzip) and klauspost/compress (zstd) and compared byte by byte with the plain run."),
 "C13": dict(quick=12000, thorough=80000,
   rule="offsets, maxima and key limits from 0 past the end of inputs with good and bad lines, with selections, prefixes, sequence, transposing; non-trivial: the window leaves some lines and drops some",
   note="Compared with the reference model and, with one worker, byte by byte with a run of just the selected lines. One input only."),
 "C14": dict(quick=12000, thorough=80000,
   rule="nested inputs with keys that are prefixes of others, listed keys and children limits from 1 to 6, allowed parents, line prefixes; non-trivial: some cell is a kept document and there is another column",
   note="Compared with the reference model; documents are compared as JSON values with number literals. No letter case variants, no field limit."),
 "C09": dict(quick=4000, thorough=40000,
   rule="inputs with odd names and contents, typed and mixed columns, table splits at 2-10 columns, transposed and coalesced columns, plus enumerated row counts around the batch sizes; non-trivial: at least two lines and two columns",
   note="The database is read back with the same driver, after an integrity check. Numbers in numeric columns are compared by value (as double, up to 1e-14), everything else exactly. No NUL in column names; no names that differ only in case."),
 "C10": dict(quick=7000, thorough=60000,
   rule="as C09 with time columns, plus enumerated row counts around the flush size; the dump is parsed by the harness, values are checked against the declared types; non-trivial: at least two lines and two columns",
   note="No PostgreSQL server here: the dump is judged by a parser of the subset of SQL it uses, with data ending at a line with backslash and dot outside of quotes. No NUL characters, no times that fail to parse."),
 "C11": dict(quick=5000, thorough=80000,
   rule="inputs with odd contents, delimiters of any kind, single columns, transposed tables; non-trivial: at least two lines and two columns",
   note="Compared byte by byte with the CSV output of the same run."),
 "C08": dict(quick=8000, thorough=80000,
   rule="inputs with nested arrays and objects, one to three transposed prefixes taken from their structure (nested ones too), child tables read back from all four outputs; non-trivial: at least two child rows",
   note="Child tables of the CSV output are compared with the reference model, those of the RAW, SQLite and PostgreSQL outputs with the CSV of the same run. Distinct tables per prefix; no properties named _sequence, _index or _value. Rows of the parts of a child table are matched by position."),
 "C07": dict(quick=12000, thorough=80000,
   rule="keys mapped to few names by map and pattern, with and without delimiter, nulls and repeated values; non-trivial: some line has more than one value for a shared column",
   note="Compared with the reference model. Constants are not mapped to shared names."),
 "C06": dict(quick=7000, thorough=60000,
   rule="keys with equal tails, camel case, digits, non-latin names; explicit maps, patterns with templates, automatic names and length limits in all combinations; non-trivial: at least two keys and some of them renamed",
   note="Automatic names are judged by a predicate (tail of the key, snake case, distinct), not by an expected name. At most one pattern matches a key. Limits are at least 8 bytes."),
 "C02": dict(quick=250, thorough=4000, cli=True,
   rule="lines of very different cost and number of columns, erroneous lines held back inside their worker for drawn delays, 1-40 workers, 1-8 processors, buffers with little room, and enumerated runs of tens of thousands of lines at full speed; every line carries its number; non-trivial: more than one worker and more lines than workers",
   note="Schedules are sampled, not enumerated: the harness decides how long erroneous lines stay in flight and varies workers and processors; the remaining interleaving is the Go scheduler's. Also runs the command with a memory limit below its footprint."),
 "C04": dict(quick=8000, thorough=60000,
   rule="prefix texts, patterns with 0-11 groups (optional, alternative, repeated matches), lines with and without JSON; non-trivial: at least two lines and a match",
   note="Patterns come from a fixed list of shapes; the expected captures are computed with Go's regexp package, which the tool uses too."),
 "C05": dict(quick=6000, thorough=40000,
   rule="random inputs with random selection: single key, include lists with constants and missing keys, up to three patterns per list, exclusions alone and in combinations, keys drawn from the input; non-trivial: something is selected, something is not, some cell is non-empty",
   note="Compared both with the reference model and with the unrestricted run of the same input. Keys spelled in several cases are C26."),
 "C03": dict(quick=3000, thorough=30000,
   rule="good lines mixed with truncated, damaged, non-JSON, prefixed, tailed, deeply nested, oddly spelled and mutated lines; non-trivial: at least one good and one bad line",
   note="Lines that JSON readers legitimately differ about (odd numbers, bad escapes, invalid UTF-8, mutations) only have to keep one row and leave the other lines alone; certain damage must give an empty row."),
 "C01": dict(quick=4500, thorough=40000,
   rule="random JSON object lines over small and odd key sets, with any nesting, string contents and spellings, number literals and white space, plus enumerated large shapes (arrays and objects of thousands of elements, depth, long names and strings, thousands of lines); non-trivial: at least two lines, two columns and a nested or mixed-type path",
   note="Explores random inputs of up to 10 lines, and fixed large ones; trusts the reference model and the CSV reader of the harness. Objects have distinct keys and no two paths of an input join to the same dotted name."),
}
PLAN["C25"] = dict(quick=2000, thorough=6000, mem_gb=6, budget_hang=400,
   rule="numbered lines of nine shapes (with arrays and objects to transpose, without JSON, empty, cut off), up to 1100 of them drawn and up to a million enumerated, arrays of 100030 elements, several inputs, windows, explicit sequence column, all outputs; non-trivial: more than one line",
   note="The expected number and index of every row are computed from its position; every row also carries the number its line was written with.")
PLAN["C21"] = dict(quick=400, thorough=3000, cli=True, level="exploration",
   rule="runs of the command with one injected fault: output on a full device, files limited to k bytes for drawn and enumerated k, output that is a directory or has none, compressed input cut, flipped at a bit or followed by junk at drawn positions, breaking readers, missing inputs, lines longer than the buffer, invalid configurations, patterns and flags, full device for reports; every case is non-trivial",
   note="Success is only accepted if all outputs equal those of the run without fault. Damaged compressed inputs are judged by the reference decoders (standard gzip, klauspost zstd).")
PLAN["C22"] = dict(quick=2500, thorough=12000,
   rule="configurations of 1-5 random fields with texts that need quoting, written inline (also padded) and to files of odd names as JSON (white space, escapes), JSON5 (line comments, bare names, single quotes, trailing commas) and YAML (block and flow styles, all quotings, comments), and cut off JSON; non-trivial: at least two fields",
   note="All spellings are compared with the run of the configuration built field by field. JSON5: only what the decoder in use supports (no block comments after values, no escapes in single quotes).")
PLAN["C24"] = dict(quick=3000, thorough=10000, cli=True,
   rule="pairs of tables of 1-5 columns and up to 12000 rows, the second with permuted columns, other quoting and line ends and at most two changes (cell, cells swapped in a row or a column, rows swapped, dropped or repeated, columns renamed, swapped, added, dropped), and unreadable files; non-trivial: at least one row and two columns",
   note="The verdict is compared with a direct comparison of the generated tables. No repeated column names; blank lines are not rows and CR LF inside of cells is a line feed, as the CSV reader of the tool has it.")
PLAN["C27"] = dict(quick=500, thorough=10000, cli=True,
   rule="invocations with random input and output names, spellings, orders and combinations of flags, configuration inline or as a file; profiles, inputs repeated for benchmarks, flags after the inputs or no inputs (failures); enumerated defaults of limits; non-trivial: more than two arguments",
   note="Files, standard output and exit status are compared with runs of the library for every output and every report alone, with defaults written out, and the CSV output with the reference model.")
PLAN["C28"] = dict(quick=250, thorough=4000, cli=True,
   rule="histories of 2-6 runs in one directory and one process, one after another or at the same time, with outputs of all formats drawn from few names (overwritten, added to databases, discarded), every option drawn anew per run (time zones, layouts, patterns, limits), repeated runs, failing runs, shared configurations; non-trivial: an output is overwritten, a table is added to a database or runs overlap",
   note="Every run is compared with the same run by a fresh process in a directory of its own; goroutines and open files are counted afterwards. Outputs of failed runs are not judged. One worker, or explicitly listed keys, so that the order of columns is fixed.")
