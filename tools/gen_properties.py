#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"observe_at": observe} if observe else {})}})

S = "src/"; C = "crates/pica-cli/src/"; CC = C + "commands/"

p("R01", "Records decode exactly per the PICA+ grammar, losslessly",
  "A byte string decodes as a record if and only if it is one or more fields (tag, optional `/`-occurrence of two or three digits, a space, zero or more subfields, field separator) followed by one newline, and the decoded tags, occurrences, subfield codes and values are exactly those of the input in order. Writing an unmodified record gives back the input bytes and its SHA-256 is the digest of those bytes; owned, borrowed and UTF-8-checked views of a record agree with each other, and two of them compare equal exactly if their contents are equal.",
  ["inputs"], "all byte strings, in particular mutated near-valid ones",
  "Tests decode a handful of sample records; acceptance and structure must be right for every byte string, including ones one byte away from valid.",
  [S+"primitives/parse.rs", S+"primitives/record.rs", S+"primitives/field.rs", S+"primitives/subfield.rs", S+"primitives/tag.rs", S+"primitives/occurrence.rs", S+"record.rs"],
  [("winnow grammar", S+"primitives/parse.rs"), ("raw data kept for verbatim writing", S+"record.rs ByteRecord::write_to"), ("owned/borrowed conversions", S+"primitives/*.rs")],
  ["ByteRecord::from_bytes / write_to / sha256", "RecordRef, FieldRef, SubfieldRef accessors"])

p("R02", "Reading yields one item per line, in order, past invalid lines",
  "Reading a stream of records yields exactly one item per line in input order: the record if the line is a valid record, otherwise an error that names that line's number (and, for undecodable lines, the source), after which reading continues with the next line. The result does not depend on how the underlying reader chunks the data, nor on whether the file is gzip-compressed (in one or several gzip members). A line that is a valid record but not valid UTF-8 is an error only for string records.",
  ["inputs", "fault_sequences"], "all line sequences (valid, invalid, empty, truncated last line), all read-chunkings incl. interrupted reads and I/O errors, plain/gzip/multi-member gzip",
  "Tests read two well-formed dumps from disk; line numbers, recovery and chunk boundaries depend on the whole history of lines read.",
  [S+"reader.rs", S+"record.rs"],
  [("line buffer + counter", S+"reader.rs next_byte_record/next_string_record"), ("gzip by extension", S+"reader.rs ReaderBuilder::from_path")])

p("R03", "Written files contain exactly the written records, in order",
  "After finishing a writer, the file (plain, gzip by flag, or gzip by `.gz` extension) decodes to exactly the concatenation of the records written, in order; opening without append truncates previous content and with append preserves it and adds the new records behind it. Keeping or discarding fields writes a record that contains exactly the remaining fields unchanged, in order, and a record left without fields writes nothing.",
  ["inputs", "histories"], "all sequences of writer sessions (plain/gzip/extension/append) over the same file, with all records and keep/discard predicate lists",
  "Tests write one fixed file per writer kind; session histories (append after write, truncation, edited records) are unbounded.",
  [S+"writer.rs", S+"record.rs", S+"primitives/record.rs", S+"primitives/field.rs"],
  [("WriterBuilder", S+"writer.rs"), ("re-serialisation after retain", S+"record.rs keep/discard/retain")])

p("M01", "Filter expressions evaluate per the documented semantics",
  "For every record and every well-formed filter expression and matcher option, matching gives the documented answer: comparison, prefix/suffix, similarity, contains, regex (and sets), `in` lists, existence and cardinality on subfields; ANY/ALL quantifiers over repeated subfields and fields; field existence and cardinality; and negation, AND, XOR, OR with precedence `!` > AND > XOR > OR and parentheses overriding it. Case-insensitive evaluation equals case-sensitive evaluation on lower-cased text for comparisons.",
  ["inputs"], "all records x all filter expressions x (case, similarity threshold)",
  "Tests check a few hundred fixed expression/field pairs; operators, quantifiers, options and connectives compose without bound.",
  [S+"matcher/record.rs", S+"matcher/field/mod.rs", S+"matcher/field/parser.rs", S+"matcher/subfield/mod.rs", S+"matcher/subfield/parser.rs", S+"matcher/quantifier.rs", S+"matcher/operator.rs", S+"parser.rs"],
  [("subfield matchers", S+"matcher/subfield/mod.rs"), ("field matchers", S+"matcher/field/mod.rs"), ("expression grammar", S+"matcher/*/parser.rs"), ("options", S+"matcher/options.rs")])

p("M02", "Tag and occurrence patterns select exactly the described fields",
  "A tag pattern (exact tag, `.` wildcards, character lists and ranges) matches exactly the tags it describes. An occurrence pattern matches exactly: no pattern or `/00` only fields without occurrence or with `00`; `/*` all fields; `/N` only occurrence N; `/N-M` only occurrences of the same length within the inclusive range; malformed patterns are rejected.",
  ["inputs"], "all patterns x all tags and occurrences (tags 3*10*10*27, occurrences none + 100 + 1000)",
  "Tests compare a few dozen fixed pairs out of a product space of patterns and values.",
  [S+"matcher/tag.rs", S+"matcher/occurrence.rs", S+"parser.rs", S+"primitives/tag.rs", S+"primitives/occurrence.rs"],
  [("tag pattern", S+"matcher/tag.rs"), ("occurrence pattern", S+"matcher/occurrence.rs"), ("fragment parsers", S+"parser.rs")])

p("M03", "Combining matchers and re-parsing their text preserve meaning",
  "Combining matchers with the AND, OR, XOR and NOT operators, or with the expression builder, gives a matcher whose result on every record is that Boolean combination of its parts. The text form of any matcher, however it was built, parses again to a matcher equal in meaning, and extra whitespace between tokens never changes meaning; string literals (either quote style, escapes) denote the described text.",
  ["inputs", "histories"], "all matchers, all sequences of combination operations, all records",
  "Tests check single operator applications on two-atom expressions; grouping and text round-trip depend on arbitrary combination histories.",
  [S+"matcher/operator.rs", S+"matcher/builder.rs", S+"matcher/record.rs", S+"matcher/field/mod.rs", S+"matcher/field/parser.rs", S+"matcher/subfield/mod.rs", S+"parser.rs"],
  [("operator impls insert groups", S+"matcher/record.rs, "+S+"matcher/field/mod.rs"), ("builder", S+"matcher/builder.rs"), ("string literals", S+"parser.rs")])

p("M04", "Accepting an expression depends only on its text",
  "Whether a filter, path, query or format expression is accepted, and what it means, depends only on its text and never on expressions parsed before it in the same process or on the thread that parses it. Every grouping of moderately nested connectives that the grammar describes is accepted, without a limit on how many groups one expression contains.",
  ["histories", "schedules", "inputs"], "all sequences (length up to hundreds) of parses of valid and invalid expressions, on one and on several threads",
  "Tests parse each expression a few times in a fresh thread; per-thread parser state builds up only over long histories of failing parses.",
  [S+"matcher/subfield/parser.rs", S+"matcher/field/parser.rs", S+"fmt/parser.rs"],
  [("thread-local nesting counters", S+"matcher/*/parser.rs, "+S+"fmt/parser.rs")])

p("P01", "Paths yield exactly the selected subfield values, in order",
  "Evaluating a path on a record yields the values of exactly those subfields whose code is selected, in fields whose tag and occurrence match and that satisfy the path's subfield filter, in record order and with repetitions. The identifier of a record is its first 003@ $0 value, and a path's text form parses to an equivalent path.",
  ["inputs"], "all records x all paths x options",
  "Tests evaluate some twenty paths on one sample record.",
  [S+"path.rs"], [("Path parser and PathExt", S+"path.rs")])

p("Q01", "Queries produce the documented table of rows",
  "Evaluating a query on a record gives, per fragment, one row per combination of the selected values of each matching field (an absent value is an empty cell), constants as constant columns and formats as one column, and combines fragments as a cartesian product in fragment order, so that every row has one cell per requested column. With squash the repeated values of a subfield within a field are joined by the separator instead of multiplied; with merge all values of a column over all rows of a fragment are joined.",
  ["inputs"], "all records x all queries x {squash, merge, neither} x separators",
  "Tests evaluate a few queries on one record; row multiplicity and ordering depend on arbitrary repetition patterns.",
  [S+"query.rs", S+"path.rs"], [("QueryExt::query, cartesian product", S+"query.rs")])

p("F01", "Format expressions render values exactly as described",
  "Evaluating a format expression on a record gives one string per matching field that renders to a non-empty text: fragments contribute their values with prefix, suffix, repetition bound and modifiers applied as documented, concatenation joins the non-empty parts, and chaining with the conditional operator stops at the first part that renders empty. The optional removal of the overread character applies to every rendered value.",
  ["inputs"], "all records x all format expressions x options",
  "Tests render around a dozen formats on a few records; modifiers, bounds and combinators compose freely.",
  [S+"fmt/mod.rs", S+"fmt/parser.rs"], [("Format evaluation", S+"fmt/mod.rs"), ("format grammar", S+"fmt/parser.rs")])

p("N01", "Arbitrary input never crashes the parsers or evaluators",
  "Parsing arbitrary bytes as a record, or arbitrary text as a matcher, path, query, format, tag or occurrence pattern, either succeeds or returns an error without crashing or aborting. Whatever was accepted can then be evaluated on any decodable record (valid UTF-8 or not) without crashing.",
  ["inputs"], "all byte strings and texts (mutated from valid ones), all pairs of accepted expression and record",
  "Tests use quickcheck only for primitive types; the space of malformed inputs is unbounded and crashes hide in rare combinations.",
  [S+"primitives/parse.rs", S+"parser.rs", S+"matcher", S+"path.rs", S+"query.rs", S+"fmt"],
  [("Result-returning parsers", S), ("lossy handling of invalid UTF-8", S+"matcher/subfield/mod.rs")])

COMMON = "Tests run each command on a couple of fixed dump files with a fixed option set; the result depends on every record and on every combination of options."

p("C01", "filter outputs exactly the matching records, unchanged, in order",
  "The `filter` command outputs exactly the records that the expression (combined with its and/or/not expressions) accepts, or with invert-match exactly the ones it rejects, in input order, byte-identical except for fields removed by discard and keep, and stops after the record limit. An expression read from a file behaves as the same expression given as an argument; output to stdout, a file, a tee file, an appended or gzip file carries the same records.",
  ["inputs", "configurations"], "all inputs x expressions x (invert, and/or/not, keep, discard, limit, expression file, case, output form)",
  COMMON, [CC+"filter.rs", C+"utils.rs", S+"matcher/builder.rs", S+"record.rs"],
  [("record loop", CC+"filter.rs"), ("keep/discard predicates", C+"utils.rs parse_predicates")], ["stdout / output files of `pica filter`"])

p("C02", "Common filter options mean the same in every command",
  "In every command that has them, the where/and/or/not expressions, allow and deny lists (with column and source options), case and similarity options, skip-invalid and record limit restrict the processing to exactly the records that `filter` with the same options would output, so running the command with options equals running it on the filtered input. A record passes an allow list iff one of its source values is listed in any of the lists, and is dropped if one of them is in any deny list.",
  ["inputs", "configurations"], "all inputs x commands x combinations of common options, list files in csv/tsv/txt/gzip/arrow",
  COMMON, [C+"cli.rs", C+"utils.rs", CC+"count.rs", CC+"describe.rs", CC+"explode.rs", CC+"frequency.rs", CC+"hash.rs", CC+"partition.rs", CC+"print.rs", CC+"sample.rs", CC+"select.rs", CC+"slice.rs", CC+"split.rs", CC+"check/mod.rs"],
  [("FilterOpts", C+"cli.rs"), ("FilterSet", C+"utils.rs"), ("per-command record loops", CC)])

p("C03", "concat joins inputs in order and removes exactly the duplicates",
  "The `concat` command outputs every record of its inputs in input order, and with unique only the first record of each identifier (or of each record hash, by strategy), where records without identifier are ignored in the identifier strategy. Tee, output and append targets receive the same records.",
  ["inputs", "configurations"], "all input file lists x unique strategies x output options", COMMON,
  [CC+"concat.rs"], [("seen-set", CC+"concat.rs")])

p("C04", "slice outputs exactly the records at the requested positions",
  "The `slice` command outputs exactly the records whose zero-based position among the accepted records and the skipped invalid lines of all inputs lies in the half-open range from start to end (or the at most `length` records from start), in order and unchanged. Invalid lines that are skipped still occupy a position.",
  ["inputs", "configurations"], "all inputs (incl. invalid lines, several files) x start x end/length incl. extreme values", COMMON,
  [CC+"slice.rs"], [("position counter", CC+"slice.rs")])

p("C05", "split distributes all records over consecutive chunks of the size",
  "The `split` command writes the accepted records, unchanged and in order, into consecutively numbered files of exactly the chunk size each (the last one at most), named by the template, plain or gzip, so that concatenating the chunks in order gives the accepted records.",
  ["inputs", "configurations"], "all inputs x chunk sizes x templates x gzip", COMMON,
  [CC+"split.rs"], [("chunk rollover", CC+"split.rs")])

p("C06", "partition puts each record into every file of its values",
  "The `partition` command creates one file per distinct value of the partition path among the accepted records, and each file contains, unchanged and in input order, exactly the accepted records that have this value, each once; records without value appear in no file.",
  ["inputs", "configurations"], "all inputs x paths x templates x gzip", COMMON,
  [CC+"partition.rs"], [("writer per value", CC+"partition.rs")])

p("C07", "sample selects a random subset of the requested size",
  "The `sample` command outputs a sub-multiset of the accepted records, unchanged, whose size is the minimum of the sample size and the number of accepted records. With the same seed and the same input it outputs the same sample, and every accepted record can be selected.",
  ["inputs", "configurations"], "all inputs x sample sizes x seeds", COMMON,
  [CC+"sample.rs"], [("reservoir sampling", CC+"sample.rs")])

p("C08", "explode splits records into their level-wise parts without loss",
  "The `explode` command turns each record into one record per main, local or copy part at the requested level, where each part carries the fields of its superordinate levels plus its own fields in original order, every field of the level occurs in exactly one part, and the filters and field selections apply to the parts.",
  ["inputs", "configurations"], "all records with all interleavings of main/local/copy fields x levels x filter options", COMMON,
  [CC+"explode.rs", S+"primitives/field.rs"], [("level grouping", CC+"explode.rs"), ("field level", S+"primitives/field.rs")])

p("C09", "count and describe report exact numbers",
  "The `count` command reports exactly the number of accepted records, fields and subfields in the requested form. The `describe` command reports, for every tag and subfield code, the exact number of occurrences in the accepted records after field selection, in CSV, TSV or Arrow form.",
  ["inputs", "configurations"], "all inputs x output forms x field selections", COMMON,
  [CC+"count.rs", CC+"describe.rs"], [("counters", CC+"count.rs"), ("frequency table", CC+"describe.rs")])

p("C10", "frequency counts query values exactly and sorts deterministically",
  "The `frequency` command counts, over all accepted records, how often each row of the query occurs, and outputs the rows with counts sorted by count (descending, or ascending with reverse) and ties in lexicographic order. Unique counts each value once per record, the threshold drops rows below it, and the limit outputs the first N of the remaining rows.",
  ["inputs", "configurations"], "all inputs x queries x (squash/merge/separator/unique/reverse/limit/threshold/header/format/translit)", COMMON,
  [CC+"frequency.rs", S+"query.rs"], [("frequency table", CC+"frequency.rs")])

p("C11", "select outputs exactly the query rows of the accepted records",
  "The `select` command outputs, record by record in input order, the rows of its query as well-formed CSV or TSV under the requested quote style, header and append mode, without rows whose cells are all empty. No-empty-columns drops rows with any empty cell, unique drops rows that occurred before (in their original text), and transliteration applies to every cell that is written.",
  ["inputs", "configurations"], "all inputs x queries x output options", COMMON,
  [CC+"select.rs", S+"query.rs"], [("row writer", CC+"select.rs")])

p("C12", "print renders every field and subfield readably and completely",
  "The `print` command renders each accepted record as one line per field with tag, occurrence and all subfields in order followed by a blank line, with the requested transliteration applied to the text, and does not fail on records with invalid UTF-8.",
  ["inputs", "configurations"], "all inputs x transliteration options x limits", COMMON,
  [CC+"print.rs"], [("human-readable writer", CC+"print.rs")])

p("C13", "convert preserves the record content in every output format",
  "The `convert` command writes every input record, in order, in the requested format (PICA+, PICA binary, PICA import, PICA plain, PICA JSON, PICA XML) such that decoding the output according to that format gives back exactly the original tags, occurrences, subfield codes and values (in the text formats JSON and XML, bytes that are not UTF-8 become U+FFFD; values that XML 1.0 cannot represent are out of scope for XML).",
  ["inputs", "configurations"], "all inputs (incl. values with `$`, quotes, XML/JSON metacharacters, control and non-ASCII characters) x formats x output targets", COMMON,
  [CC+"convert/mod.rs", CC+"convert/binary.rs", CC+"convert/import.rs", CC+"convert/plain.rs", CC+"convert/json.rs", CC+"convert/xml.rs"],
  [("format writers", CC+"convert/*.rs")])

p("C14", "hash reports the SHA-256 digest of each record",
  "The `hash` command outputs, for each accepted record, one row with its identifier (an empty cell if it has none) and the hexadecimal SHA-256 digest of the record's bytes including the line feed, in input order, in CSV or TSV form with the requested header.",
  ["inputs", "configurations"], "all inputs x output options", COMMON,
  [CC+"hash.rs", S+"record.rs"], [("ByteRecord::sha256", S+"record.rs")])

p("C15", "invalid outputs exactly the undecodable lines",
  "The `invalid` command outputs exactly those input lines, byte-identical and in order, that cannot be decoded as records. Together with the records that `concat` with skip-invalid outputs they form the complete input.",
  ["inputs", "configurations"], "all inputs, plain and gzip, several files and stdin", COMMON,
  [CC+"invalid.rs", S+"reader.rs"], [("line loop", CC+"invalid.rs")])

p("C16", "check reports exactly the violations of its rules",
  "The `check` command reports, for each accepted record, one row (identifier, rule, level, message) per rule of the rule sets that the record violates, and none for rules it satisfies or whose scope (of the rule or of its set) does not contain the record, for each kind of check (filter, unicode, iso639-2b, isni, jelc, datetime, allow, duplicates, link). Checks over all records (link) report after the last record, one row per identifier. Rule and set selection options restrict which rules run, fast stops a record at its first violated rule, and the output form (CSV, TSV, identifier list) carries the same violations.",
  ["inputs", "configurations"], "all inputs x rule sets (checks, paths, scopes, levels) x selection and output options", COMMON,
  [CC+"check/mod.rs", CC+"check/set.rs", CC+"check/rule.rs", CC+"check/checks/allow.rs", CC+"check/checks/datetime.rs", CC+"check/checks/duplicates.rs", CC+"check/checks/filter.rs", CC+"check/checks/isni.rs", CC+"check/checks/iso639.rs", CC+"check/checks/jelc.rs", CC+"check/checks/link.rs", CC+"check/checks/unicode.rs", CC+"check/writer/mod.rs"],
  [("rule evaluation", CC+"check/rule.rs"), ("rule sets", CC+"check/set.rs"), ("writers", CC+"check/writer/mod.rs")])

p("C17", "Invalid input fails loudly unless skipped; all input forms agree",
  "Every command that reads records processes the same record sequence whether it comes from stdin, one file, several files in order, or gzip-compressed files. An invalid line makes the command fail with a non-zero exit status and an error message naming the line, unless skip-invalid is set (by option or configuration), in which case exactly the invalid lines are ignored; I/O errors such as missing files, and malformed expressions, always fail and never crash the program.",
  ["inputs", "configurations", "fault_sequences"], "all commands x input forms x positions of invalid lines x missing/corrupt files x malformed options", COMMON,
  [S+"reader.rs", C+"main.rs", C+"error.rs", CC],
  [("reader by path", S+"reader.rs"), ("error to exit code", C+"main.rs")])

p("C18", "The configuration file stores and applies settings faithfully",
  "A value set with the `config` command is returned by a later get and applied by every later command using this configuration file; unsetting restores the default, and the other setting is unaffected. A valid configuration file that sets only some of the keys behaves as if the remaining keys had their defaults, `--skip-invalid` on the command line has the same effect as the configured option, and a malformed file makes every command fail with an error instead of a crash, and is not overwritten.",
  ["histories", "configurations"], "all sequences of get/set/unset operations and hand-written configuration files, interleaved with commands",
  "Tests run single set/get commands on fresh files; persistence is about histories of operations.",
  [C+"config.rs", CC+"config.rs", C+"main.rs"], [("TOML load/save", C+"config.rs"), ("get/set/unset", CC+"config.rs")])

p("C19", "Normalization applies to expressions so equal text matches",
  "With a normalization form configured, filter, where, query and rule expressions match records in that normalization form regardless of the normalization form in which the expression was typed: the typed expression behaves as its normalized text does without configuration. Transliteration options convert output text to exactly the requested Unicode normalization form and change nothing else.",
  ["inputs", "configurations"], "all texts with composed/decomposed/compatibility characters x forms x commands", COMMON,
  [C+"translit.rs", CC+"filter.rs", CC+"select.rs", CC+"frequency.rs", CC+"print.rs"],
  [("translit", C+"translit.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
