#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because it is easier to edit than JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 3, (id, statement)
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
PC="pkg/po/compile/"; PP="pkg/po/parse/"; GP="pkg/go/parse/"; PO="pkg/po/"; U="internal/util/"

prop("C01","PO write-read round trip loses nothing",
 "Compiling any list of distinct messages to PO text and parsing that text back yields no error and exactly the same messages, field by field: context, id, plural id, every plural form, translation, flags, translator and extracted comments, references with and without line, previous lines and the obsolete mark. Strings are arbitrary text (quotes, backslashes, control characters, any Unicode, bytes that are not UTF-8) except NUL and EOT; comments are single lines. The order is kept within the active and within the obsolete messages (active ones first), with and without word wrap and with a custom obsolete marker used on both sides.",
 ["inputs","configurations"],"all message lists over the stated strings x word wrap x custom obsolete marker",
 "Tests round-trip a handful of plain ASCII entries; escaping, marker and layout interactions depend on every string and every combination of fields.",
 [PC+"po_compiler_format.go",PC+"po_compiler_util.go",PP+"po_parser.go",U+"po_parse.go"],
 [("string escaping",PC+"po_compiler_util.go"),("lexer and unquoting",U+"po_parse.go"),("comment classification",PP+"po_parser.go")],
 ["compile.PoToString / parse.PoFromString"])

prop("C02","Any legal PO layout is read with its meaning",
 "A PO document written in any legal layout (LF or CRLF, with or without a final newline, strings split over any number of quoted pieces, any standard escape (numeric ones with all their digits), arbitrary blanks and blank lines, several references or flags on one comment line, obsolete messages with previous lines and comments anywhere between the active ones) parses without error to the messages it denotes, field by field. The result does not depend on which of the constructors (bytes, string, reader, file, path) supplied the document.",
 ["inputs"],"all message lists x all legal layouts of each",
 "Tests parse fixed snippets in one layout; the layouts other tools and editors emit are unbounded.",
 [PP+"po_parser.go",PP+"parse.go",U+"po_parse.go"],
 [("PO grammar and lexer",U+"po_parse.go"),("comment, reference and flag parsing",PP+"po_parser.go"),("obsolete entries",PP+"po_parser.go")],
 ["parse.Po*, PoParser.Parse/Error"])

prop("C03","Emitted PO text is valid and means the input to other readers",
 "PO text produced for any list of distinct messages, under any combination of word wrap and location mode, is well-formed PO: an independent reader of the PO format, and GNU gettext where the text is in its domain, read back the same messages with the same strings, flags, comments and obsolete marks. Nothing of one message (a comment with several lines, an obsolete body, a quoted string) leaks into another message or out of its marker.",
 ["inputs","configurations"],"all message lists x output options, judged by independent readers",
 "A self round trip cannot see an error that writer and reader share, and tests compare fixed texts only.",
 [PC+"po_compiler.go",PC+"po_compiler_format.go",PC+"po_compiler_util.go"],
 [("entry building",PC+"po_compiler_format.go"),("escaping",PC+"po_compiler_util.go")],
 ["compile.PoToString/PoToBytes/PoToWriter"])

prop("C04","Compiled MO catalogues answer every lookup correctly",
 "A compiled MO file is well-formed per the GNU format in either byte order and contains the header and exactly the active, non-fuzzy, translated messages, strictly sorted by key, each once, with all its plural forms. A gettext runtime finds every contained message with its translation, and nothing else, by binary search and, when the hash table is enabled, by the standard hash lookup.",
 ["inputs","configurations"],"all message lists x endianness x hash table on/off",
 "Tests compile one small file on one endianness; table offsets, hash collisions and the selection rule depend on the whole message set.",
 [PC+"mo_compile.go",PC+"mo_compiler.go",U+"hash.go",U+"prime.go",U+"bytes.go",PO+"entry.go"],
 [("table layout and hash table",PC+"mo_compile.go"),("hash function",U+"hash.go"),("selection of entries",PC+"mo_compile.go")],
 ["compile.MoToBytes/MoToWriter/MoToFile"])

prop("C05","Well-formed MO catalogues are read completely",
 "Parsing any well-formed MO file (either byte order, any legal placement and order of tables and strings, shared strings, with or without hash table) yields, in table order, one message per entry with its context, id, plural id, translation or all plural forms, and no error. In particular compiling messages to MO and parsing the result returns exactly the compiled messages, and forcing the actual byte order gives the same result as detecting it.",
 ["inputs","configurations"],"all well-formed MO layouts x byte orders",
 "Tests read files laid out by one writer; the format allows many layouts and languages with one plural form.",
 [PP+"mo_parser.go",U+"bytes.go"],
 [("table and string reading",PP+"mo_parser.go"),("byte order detection",PP+"mo_parser.go")],
 ["parse.Mo*, MoParser.Parse/Error"])

prop("C06","No input makes a parser crash, hang or explode",
 "For every byte sequence offered as PO, MO or Go source, parsing (and header interpretation and validation of what was parsed) returns a result or an error: it never panics, never runs forever and uses memory bounded by a constant factor of the input size. A parse never yields both no file and no error.",
 ["inputs"],"all byte sequences: mutated, truncated, spliced and random documents of the three formats",
 "Tests feed well-formed documents; robustness quantifies over hostile bytes.",
 [PP+"po_parser.go",PP+"mo_parser.go",GP+"parser.go",GP+"process.go",U+"po_parse.go",PO+"header.go"],
 [("bounds checks",PP+"mo_parser.go"),("error collection",PP+"po_parser.go"),("argument checks",GP+"process.go")],
 ["parse.*FromBytes/FromReader"])

prop("C07","Damaged MO files are rejected, never misread",
 "A MO file that is truncated, whose magic number or version is unsupported, or whose tables or strings lie outside the file or lack their terminator, is reported as an error, and under the must-be-sorted option so is one whose keys are not in order. Damage never turns into a successful result that differs from what the bytes denote under the format.",
 ["inputs"],"every truncation point and arbitrary corruption of arbitrary MO files",
 "Tests do not damage files; the space of damage points is the whole file.",
 [PP+"mo_parser.go"],
 [("bounds and terminator checks",PP+"mo_parser.go"),("magic and version checks",PP+"mo_parser.go")],
 ["MoParser.Parse/Error"])

prop("C08","Merging a template updates a catalogue without losing work",
 "Merging a translated catalogue with a reference leaves every active reference message active exactly once, with the reference's id, plural id, references and extracted comments, the catalogue's translation if it had the message (kept as it was, or its first form if the message becomes singular or plural, and flagged fuzzy only if the message changed between singular and plural or changed its plural id), and the catalogue's header (the reference's if it has none). A catalogue message that the reference lacks is either marked obsolete with its translation or, with fuzzy matching, passes its translation to a similar new untranslated reference message that is flagged fuzzy; without fuzzy matching it becomes obsolete, or is kept and flagged fuzzy when previous ids are kept. No other message appears and no translation of the catalogue disappears, and requested sorting holds on the result.",
 ["inputs","configurations"],"all catalogue/reference pairs x fuzzy matching x keep-previous x sort modes",
 "Tests compare one pair of files with msgmerge; loss or duplication depends on the relation between the two message sets.",
 [PO+"merge.go",PO+"entries.go",PO+"cmp.go"],
 [("definition update",PO+"merge.go"),("similarity ratio",PO+"cmp.go")],
 ["po.Merge, po.MergeWithConfig"])

prop("C09","Concatenating catalogues conserves every definition",
 "The concatenation of PO files contains every message of every file exactly once, in order of first appearance, filtered exactly by the less-than/more-than definition counts (the header is never filtered). Unless use-first is set, each message carries the union of flags, all comments, previous lines and references of all its definitions, every distinct translation and plural form, equal translations are not altered and conflicting ones are labelled with their file names and flagged fuzzy; it is obsolete only if all definitions are. With use-first each message is exactly its first definition.",
 ["inputs","configurations"],"all lists of files x selection criteria x use-first",
 "Tests concatenate three fixed files; conservation quantifies over all overlaps between files.",
 [PO+"msgcat_merge.go"],
 [("merge of definitions",PO+"msgcat_merge.go"),("selection by count",PO+"msgcat_merge.go")],
 ["po.MsgcatMergeFiles"])

prop("C10","Resolving duplicates and cleaning drop only what they name",
 "Duplicate resolution leaves exactly one entry per (context, id), at the position of its first definition, with the references of all its definitions in order; cleaning duplicates keeps the other fields of the first definition, solving never replaces a translation by an untranslated one, and either result is plural if any definition is; resolving plural forms drops exact repetitions only. A custom resolution function is applied left to right to each later definition and a nil result leaves the entry as it was. Removing fuzzy, obsolete or empty entries or the header removes exactly those and keeps the order of the rest.",
 ["inputs"],"all entry lists with any pattern of duplicates",
 "Tests use two or three entries; the result depends on how duplicates are interleaved and which fields each carries.",
 [PO+"entries.go",PO+"entry.go",PO+"plurals.go"],
 [("grouping by identifier",PO+"entries.go"),("choice between definitions",PO+"entries.go")],
 ["Entries.CleanDuplicates/Solve/SolveFunc/Clean*/CutHeader, PluralEntries.Solve"])

prop("C11","Sorting is a stable permutation and comparators are orders",
 "Every sort (all entry sort modes and functions, locations, plural forms) returns a permutation of its input that is ordered by its comparator and keeps the relative order of elements that compare equal, and the is-sorted queries agree with it. Every comparator is antisymmetric and transitive, compares the criterion it is named after, and the combined one orders active before obsolete, then header first, non-fuzzy before fuzzy, by references, then by id.",
 ["inputs"],"all lists of entries, locations and plural forms x sort modes",
 "Tests sort a few distinct items; stability and order axioms need ties, prefixes and mixed flags.",
 [PO+"cmp.go",PO+"entries.go",PO+"locations.go",PO+"plurals.go","internal/slices/slices_go1.21.go",PO+"merge.go"],
 [("comparators",PO+"cmp.go"),("stable sort","internal/slices")],
 ["Entries.Sort/SortFunc/IsSorted, SortMode.SortMethod, Compare*"])

prop("C12","Equality is exact, reflexive and symmetric",
 "Structural equality of files, entry lists, locations and plural forms holds between deep copies (nil and empty lists are equal), is symmetric, and is false as soon as any single field of any element differs. Entry equality depends exactly on context, id, plural id, translations, flags and the obsolete mark.",
 ["inputs"],"all values and all single-field changes at any position",
 "Tests compare a few values; a comparison that skips a field or position passes them.",
 [U+"equal.go",PO+"entry.go",PO+"file.go",PO+"locations.go",PO+"plurals.go"],
 [("reflective comparison",U+"equal.go"),("entry comparison",PO+"entry.go")],
 ["*.Equal"])

prop("C13","Operations leave their inputs and earlier results untouched",
 "Compiling, parsing, merging, concatenating, solving duplicates, comparing, validating, searching and header interpretation never modify the files, entries, slices (including spare capacity behind them) or byte buffers given to them. Repeating an operation on the same inputs gives the same result, and neither repeating it nor appending to or replacing the elements of one result list alters another result or the visible elements of the inputs (a result may share the lists inside its messages with its inputs).",
 ["inputs","histories"],"all inputs x sequences of repeated calls, with inputs that share and over-allocate backing arrays",
 "Tests use each value once; aliasing shows only when inputs or results are reused.",
 [PC+"po_compiler.go",PC+"mo_compile.go",PO+"merge.go",PO+"msgcat_merge.go",PO+"entries.go",PO+"entry.go",PP+"po_parser.go",PP+"mo_parser.go"],
 [("cloning and clipping of slices","internal/slices")],
 ["all library entry points"])

prop("C14","Concurrent read-only use is race free",
 "Any number of goroutines may concurrently parse documents and compile, merge, concatenate, compare, search, validate and highlight shared files and entries without a data race, and each gets the same result as when it runs alone.",
 ["schedules","inputs"],"all interleavings of library calls that share inputs and package state",
 "Tests are single-threaded and run without the race detector.",
 [U+"po_parse.go",PO+"merge.go",PC+"mo_compile.go",PC+"po_compiler.go",PO+"header.go","internal/color/color.go"],
 [("immutable package state",U+"po_parse.go"),("cloned inputs",PC+"po_compiler.go")],
 ["all library entry points under the race detector"])

prop("C15","Every write failure is reported",
 "If the destination writer fails, at any byte offset, with an error or with a short write, compiling to it (PO or MO) returns an error that carries the one of the writer, and what reached the writer is a prefix of the correct output; a successful return means that the complete output was delivered. The same holds when compiling to a path on a full device or one that cannot be created.",
 ["fault_sequences","inputs"],"every failing byte offset of every output, error and short-write faults",
 "Tests write to memory only; the fault point ranges over every offset.",
 [PC+"po_compiler.go",PC+"mo_compiler.go",PC+"po_compiler_util.go",PC+"mo_compile.go"],
 [("buffer flush and error wrapping",PC+"po_compiler.go"),("buffer flush and error wrapping",PC+"mo_compiler.go")],
 ["PoCompiler.ToWriter/ToFile, MoCompiler.ToWriter/ToFile"])

prop("C16","Compiling to a file never overwrites without being forced",
 "Compiling to a path (PO or MO) that already exists, as a file or link of any kind, without the force option fails with an error that says (to errors.Is) that the file exists, and leaves the existing content untouched. With the force option, or if the path does not exist, the file afterwards contains exactly the bytes the in-memory compilation yields, regardless of its former content.",
 ["inputs","configurations"],"all outputs x prior states of the path x force",
 "Tests write to fresh temporary paths only.",
 [PC+"po_compiler.go",PC+"mo_compiler.go"],
 [("exclusive creation",PC+"po_compiler.go"),("exclusive creation",PC+"mo_compiler.go")],
 ["PoCompiler.ToFile*, MoCompiler.ToFile*"])

prop("C17","Temporary options apply once and are reverted",
 "Calling a compiler or parser with temporary options behaves exactly as a fresh one built with those options and leaves its configuration, including the one saved earlier by an explicit apply, as it was before the call, whatever the options are (even one that replaces the whole configuration) and whether or not the call fails. Explicitly applying options and restoring afterwards returns to the previous configuration, and restoring without a previous apply does nothing.",
 ["configurations","histories"],"all sequences of option sets, calls, applies and restores on the five configurable components",
 "No test calls an operation twice around temporary options.",
 [PC+"po_config.go",PC+"mo_config.go",PP+"po_config.go",PP+"mo_config.go",GP+"config.go",PC+"po_compiler.go",PC+"mo_compiler.go"],
 [("saved configuration",PC+"po_config.go"),("deferred restore",PC+"po_compiler.go")],
 ["*WithOptions, ApplyOptions/RestoreLastCfg"])

prop("C18","Go extraction finds exactly the translatable strings",
 "From any Go source file that imports gotext, under its default or an alias name, extraction yields exactly one entry per call of the eight getter functions on that package whose message argument is a non-empty string literal, with the unquoted id, plural and context taken from the right argument positions and the file name and line of that literal; nothing comes from other calls, comments or files without the import. With extract-all every other non-empty string literal except import paths is also extracted once, with its line.",
 ["inputs","programs"],"all Go programs: any nesting, literal form, alias and argument shape",
 "Tests parse two small sources; extraction depends on syntax context and literal spelling.",
 [GP+"process.go",GP+"file.go",U+"util.go"],
 [("call recognition and argument positions",GP+"process.go"),("import detection",GP+"file.go"),("line computation",U+"util.go")],
 ["goparse.From*, File.Entries"])

prop("C19","Extraction covers exactly the requested source files",
 "Extracting from paths visits every .go file below them exactly once (however often or however spelled it is reached) except the excluded files and directories, in walk order, gives each message once with the references of all its occurrences when duplicates are cleaned, and puts the configured header first unless it is disabled. A path that does not exist, a file that cannot be parsed or a call that cannot be interpreted is reported as an error instead of being dropped, and all constructors (path, paths, files, reader, string, bytes) agree.",
 ["inputs","configurations"],"all directory trees x path lists x exclusion lists x header options",
 "Tests parse in-memory sources only.",
 [GP+"parser.go",GP+"parse.go",U+"skip.go",GP+"config.go"],
 [("walk and de-duplication",GP+"parser.go"),("exclusion",U+"skip.go")],
 ["goparse.FromPath(s)/FromFile(s)/FromReader/FromString/FromBytes, Parser.Errors"])

prop("C20","Header fields survive every representation change",
 "Header fields (any keys without colon or newline, any values without newline and surrounding blanks) converted to an entry and back, directly or through PO text or a MO file, are the same fields in the same order, and setting, loading and registering fields behave like an ordered map. A header configuration converted to a header and back keeps its values, the number of plural forms is read from the plural-forms field (two if absent or malformed), and a template header is flagged fuzzy.",
 ["inputs","histories"],"all header field lists and configurations, all sequences of header operations",
 "Tests use fixed headers.",
 [PO+"header.go",PO+"header_options.go"],
 [("field serialisation and parsing",PO+"header.go")],
 ["Header.ToEntry/Set/Load/Register/ToConfig/Nplurals, EntryToHeader, HeaderConfig.ToHeader"])

prop("C21","Each command line tool produces what the library defines",
 "For all valid inputs and documented options, msgofmt, msgounfmt, msgocat, msgomerge and xgotext, run alone or through the gotext-tools wrapper, write exactly the output that the corresponding library operations define for those inputs and options, to the requested file or, for '-', to standard output and nothing else there, and exit with status 0. Input taken from standard input, from a list of files or from a directory is equivalent to naming the files.",
 ["inputs","configurations"],"all input files x documented options of the five tools and the wrapper",
 "No test runs a command.",
 ["cli/msgofmt/cmd/root.go","cli/msgounfmt/cmd/root.go","cli/msgocat/cmd/run.go","cli/msgocat/cmd/parse.go","cli/msgomerge/cmd/root.go","cli/xgotext/cmd/root.go","cli/xgotext/cmd/input.go","cli/gotext-tools/cmd/root.go"],
 [("flag to configuration mapping","cli/*/cmd/flags.go"),("run functions","cli/*/cmd/root.go")],
 ["process exit status, stdout, output files"])

prop("C22","A failing command reports it and leaves existing files alone",
 "When a tool cannot do its job (missing or malformed input, invalid messages, impossible options, an output that cannot be written), it exits with a non-zero status, says why, and every file that existed before has its former content (one exception: if one of several outputs cannot be written, others may already be). Using one of the inputs as output never destroys data: the result is computed from the original content.",
 ["inputs","fault_sequences","configurations"],"all kinds of bad input and unwritable output for each tool, input = output",
 "No test runs a command, let alone a failing one.",
 ["cli/msgomerge/cmd/root.go","cli/xgotext/cmd/root.go","cli/xgotext/cmd/output.go","cli/msgocat/cmd/run.go","cli/msgofmt/cmd/root.go","cli/msgounfmt/cmd/root.go"],
 [("output opened after the work is done","cli/*/cmd")],
 ["process exit status, file contents"])

prop("C23","Joining extracted messages keeps the existing catalogue",
 "xgotext with join-existing keeps every message of the existing output file with its translations, flags and comments and its header, adds the newly extracted messages with their references to it, and re-activates an obsolete message that is extracted again; messages listed in the exclude file are not added. Joining the same sources again changes nothing.",
 ["inputs","histories"],"all existing catalogues x sources x repeated joins",
 "No test runs the command.",
 ["cli/xgotext/cmd/join.go","cli/xgotext/cmd/root.go","cli/xgotext/cmd/exclude.go"],
 [("join","cli/xgotext/cmd/join.go")],
 ["output file of xgotext -j"])

prop("C24","Updating a catalogue in place equals merging it",
 "msgomerge --update leaves in the catalogue file exactly what merging it writes to an output file, header included, writes nothing else, and updating again with the same template changes nothing more unless references are left out of the output. Compendiums only supply translations for reference messages that the catalogue leaves untranslated: they never add messages nor replace translations.",
 ["inputs","histories"],"all catalogue/template/compendium triples, repeated updates",
 "No test runs the command.",
 ["cli/msgomerge/cmd/root.go","cli/msgomerge/cmd/compendium.go"],
 [("update","cli/msgomerge/cmd/root.go"),("compendium","cli/msgomerge/cmd/compendium.go")],
 ["catalogue file and stdout of msgomerge"])

prop("C25","Highlighting changes colours only",
 "With any highlighting style, PO output with its terminal escape sequences removed is byte for byte the output without highlighting, every sequence is closed before the message it belongs to ends, and highlighting existing text preserves it. A style for keywords, comments, or the strings (of ids, of translations or all, with their quotes or only their text) colours exactly the parts it names, on every line of wrapped strings.",
 ["inputs","configurations"],"all message lists x style sheets x output options",
 "The test prints a sample without checking it.",
 [PC+"po_compiler_format.go",PC+"po_highlight.go","internal/color/color.go"],
 [("style application",PC+"po_compiler_format.go")],
 ["compile.PoToString with Highlight, compile.Highlight*"])

prop("C26","A file behaves as an ordered map of messages",
 "Under any sequence of set, load, index and contains operations a file behaves as an ordered map keyed by (context, id): set replaces in place or appends at the end, load returns the translation of the first match or the empty string, index returns the first position or -1, and the unified-id variants agree with them. A fuzzy search always finds something if the exact message is there, and nothing that is not similar.",
 ["histories","inputs"],"all operation sequences over all keys, including empty and look-alike ones",
 "Tests do not exercise these operations in sequence.",
 [PO+"file.go",PO+"entries.go",PO+"entry.go"],
 [("linear search by id and context",PO+"entries.go")],
 ["File.Set/Load/LoadByUnifiedID, Entries.Index*/Contains*"])

prop("C27","Validation reports exactly the defects present",
 "Validating entries or a file reports one duplicate error, carrying the position of the duplicate and of the first definition, for every entry whose (context, id) appeared before, one error with its position for every entry that is both singular and plural translated, and nothing else; duplicate queries agree with it. Header configurations are rejected exactly for a missing or zero plural rule part, a foreign media type, transfer encoding or charset.",
 ["inputs"],"all entry lists and header configurations",
 "Tests validate little; false and missed reports depend on the whole list.",
 [PO+"entries.go",PO+"entry.go",PO+"file.go",PO+"errors.go",PO+"header.go"],
 [("duplicate detection",PO+"entries.go"),("entry validation",PO+"entry.go")],
 ["Validate, CatchDuplicateEntries, HasDuplicates, HeaderConfig.Validate"])

prop("C28","PO parse options filter exactly what they name",
 "Relative to a plain parse of the same document: ignoring comments removes exactly translator comments, extracted comments and previous lines; ignoring all comments removes exactly everything that is written in comments, including flags, references and obsolete messages; skipping the header removes exactly the header; not parsing obsolete entries removes exactly those; not cleaning duplicates keeps every definition in order. The options combine independently.",
 ["inputs","configurations"],"all documents x all combinations of parse options",
 "Tests use one option at a time on one document.",
 [PP+"po_parser.go",PP+"po_config.go"],
 [("option handling",PP+"po_parser.go")],
 ["PoParser.Parse with options"])

prop("C29","PO output options change exactly what they name",
 "Omitting the header removes exactly the header; the location modes and no-location affect only reference lines (file:line, file alone, none); message prefix and suffix wrap every translation except the header's; commenting fuzzy messages turns exactly their bodies into comments; a managed header is written once, first, with the configured or existing fields and optional title comments. Options combine independently and all output methods (writer, string, bytes, file) give the same text.",
 ["inputs","configurations"],"all message lists x combinations of output options",
 "Tests compile with default options.",
 [PC+"po_compiler.go",PC+"po_compiler_format.go",PC+"po_compiler_util.go",PC+"po_config.go"],
 [("option handling",PC+"po_compiler_format.go"),("managed header",PC+"po_compiler_util.go")],
 ["compile.PoTo*"])

prop("C30","Malformed PO text is reported, not silently misread",
 "A PO document with a syntax error (an unterminated or unquoted string, an invalid escape, a line break inside a string, a missing msgid or msgstr, a plural index that is no number, keywords out of order, stray text), in an active or an obsolete message, anywhere in the document, is reported as an error. Parsing never returns a shortened or altered file without an error.",
 ["inputs"],"all documents x all positions of a syntax error",
 "Tests parse well-formed text only.",
 [PP+"po_parser.go",U+"po_parse.go"],
 [("grammar",U+"po_parse.go"),("error propagation",PP+"po_parser.go")],
 ["PoParser.Error/Errors, parse.Po*"])

prop("C31","Unreadable sources are reported by every constructor",
 "If the source of a PO, MO or Go document cannot be read completely (a reader that fails at any offset with any error, a closed, write-only or directory file, a missing, dangling or unusable path), every constructor that takes it returns an error that carries the cause (for errors.Is) and no result, and re-used Go files keep no errors of the file before. A source that delivers its bytes in any pieces (single bytes, empty reads, the end together with data, pipes) yields exactly what the bytes at once do.",
 ["inputs","crash_points"],"all documents x constructors x failing offsets and kinds of faults x ways to deliver the bytes",
 "Tests read from strings and existing files; reading failures happen at any byte and on each of some thirty constructors.",
 [PP+"parse.go",PP+"po_parser.go",PP+"mo_parser.go",GP+"parse.go",GP+"parser.go",GP+"file.go",PC+"po_highlight.go"],
 [("PO and MO constructors",PP+"parse.go"),("Go constructors",GP+"parser.go"),("Go files",GP+"file.go")],
 ["parse.Po*/Mo*, goparse.From*/NewParser*/NewFile*/File.Reset, compile.HighlightFromReader"])

prop("C32","MO output options change exactly what they name",
 "The byte order changes only the order of the bytes of every number in the tables of a MO file, the hash table option adds or omits exactly the hash table, cleaning removes exactly the obsolete, fuzzy and untranslated messages and repetitions, and sorting only reorders messages by their key. Whatever the options, the file is well-formed with each remaining message once with its strings, an unsorted file keeps the order of the list, and all output methods (bytes, writer, file, temporary options) write the same bytes.",
 ["inputs","configurations"],"all message lists x byte orders x hash table x cleaning x sorting x output methods",
 "Tests compile one list with the default options.",
 [PC+"mo_compile.go",PC+"mo_compiler.go",PC+"mo_config.go",PC+"compile.go"],
 [("MO layout",PC+"mo_compile.go"),("options",PC+"mo_config.go")],
 ["compile.Mo*, MoCompiler.To*"])

prop("C33","The documentation commands describe the commands as they are",
 "For every command, gotext-tools docs writes in markdown and man format a page with the title of the command, its description and every option of its help text with the short form, to standard output or to the named file, replacing what it had. The doc-tree command writes such a page for every command into the given directory, creating it, and touches nothing else. An unknown command or a destination that cannot be written is reported with a non-zero status and leaves all files alone.",
 ["inputs","configurations"],"all commands x formats x destinations and their prior contents",
 "No test runs the documentation commands; their output depends on all the tools and on the state of the destination.",
 ["cli/gotext-tools/cmd/doc.go","cli/gotext-tools/cmd/doc_tree.go","cli/gotext-tools/cmd/root.go"],
 [("pages","cli/gotext-tools/cmd/doc.go"),("tree","cli/gotext-tools/cmd/doc_tree.go")],
 ["gotext-tools docs markdown|man, gotext-tools doc-tree"])

prop("C34","Logging and ignored errors never change what is produced",
 "Whatever logger (none included) and verbosity are configured, parsing PO, MO and Go documents yields the same messages and errors and compiling writes the same bytes and returns the same errors; every returned error is in the log, nothing but skipped duplicate files is logged without an error unless verbose, and nothing is printed elsewhere. With errors ignored a compilation returns no error, writes the same bytes as far as the writer takes them, and still leaves an existing file alone unless forced.",
 ["inputs","configurations","crash_points"],"all documents and message lists x loggers x verbosity x error suppression x failing destinations",
 "Tests never set a logger or ignore errors; a call on a missing logger or a skipped check needs a particular combination.",
 [PC+"po_compiler.go",PC+"mo_compiler.go",PC+"mo_compile.go",PP+"po_parser.go",PP+"mo_parser.go",GP+"parser.go",GP+"file.go"],
 [("PO compiler errors",PC+"po_compiler.go"),("MO compiler errors",PC+"mo_compile.go"),("PO parser errors",PP+"po_parser.go"),("Go parser errors",GP+"parser.go")],
 ["WithLogger/WithVerbose/WithIgnoreErrors options of parsers and compilers"])

prop("C35","Derived message attributes and match ratios agree with the fields",
 "For every message the unified ids, the unified translation, the hashes and the questions whether it is plural, fuzzy, a header, has a context or comments follow from its fields alone: equal keys have equal hashes, forms are joined in the order of their index, any kind of comment counts. Match ratios are between 0 and 100 and symmetric, the average over the id, the context if any and the plural id if both are plural (over the translation and the common forms for translations), 100 for copies and 0 for texts without a common character. The best match in a list is the first message with the highest ratio, and asking for any of this changes no message.",
 ["inputs"],"all messages, all pairs of messages, all lists",
 "Tests compare two or three messages; attributes and ratios are used by merging, sorting and compiling for arbitrary text.",
 [PO+"entry.go",PO+"entries.go",PO+"cmp.go"],
 [("attributes",PO+"entry.go"),("ratios",PO+"cmp.go"),("best match",PO+"entries.go")],
 ["Entry methods, po.EntryIDMatchRatio/EntryStrMatchRatio, Entries.BestIDRatio/BestStrRatio/HasHeader"])

prop("C36","Operations release what they acquire and touch only their output",
 "Every library operation on files, folders, readers and writers, whether it succeeds or fails, closes every file it opened, ends every goroutine it started and leaves the working directory, environment, log settings and all files but its output as they were. A target that is taken is only replaced when forced, and a refused one keeps its content. Files, readers and writers of the caller are used from where they stand and stay open, byte buffers given to an operation and results of earlier ones are never written to again.",
 ["inputs","histories","crash_points"],"all sequences of operations x sound, broken and missing files and trees x targets and their prior state",
 "A leaked descriptor or a reused buffer shows only in a long-lived process or after another call; tests run one operation and let the process end.",
 [PP+"po_parser.go",PP+"mo_parser.go",GP+"file.go",GP+"parser.go",PC+"po_compiler.go",PC+"mo_compiler.go"],
 [("opening by path",PP+"mo_parser.go"),("files of a tree",GP+"file.go"),("output files",PC+"po_compiler.go")],
 ["parse.Po/Mo and the From constructors, goparse.From*/NewParser*, compile.*To*, compile.Highlight*"])

prop("C37","Errors name the document and the place of the defect",
 "Every error that parsing reports about the content of a PO, MO or Go document names the document by the name it was given. For a syntax error in an active or obsolete message of a PO document, a bad reference, a Go syntax error or a Go call that can't be interpreted, the error also names a line between the start of the broken message and the end of the next message of its kind (or just behind the end of the document). A tool that fails because one of several inputs can't be read or parsed names this input in its error output.",
 ["inputs"],"all documents with one defect x position and layout of the defect x document names x surrounding inputs",
 "Tests check that an error is reported, not what it says; a line or name gets lost only for particular kinds and places of a defect.",
 [PP+"po_parser.go",PP+"mo_parser.go",GP+"file.go",GP+"process.go","cli/xgotext/cmd/input.go","cli/msgocat/cmd/run.go"],
 [("PO errors",PP+"po_parser.go"),("obsolete messages",PP+"po_parser.go"),("MO errors",PP+"mo_parser.go"),("Go calls",GP+"process.go")],
 ["parse.Po*/Mo*, goparse.From*/NewParser*, the command line tools"])

prop("C38","Translations survive the whole life of a catalogue",
 "However a project evolves (messages are added, removed, changed, moved between files and brought back, and each round is extracted, merged into the catalogue, saved, translated, concatenated and compiled, by the library or the tools), after every step the catalogue has each message of the current sources exactly once, active, with its references and with the latest translation, comments and fuzzy state the translator gave it, every removed message with its translation as obsolete one (unless fuzzy matching passed it on, which is always fuzzy, or previous ids are kept), and nothing else. Saving, reading in any layout, editing through the file API, sorting, resolving, splitting and concatenating change none of it, and merging again changes nothing. The compiled file answers exactly the confirmed translations of active messages and nothing for all others, and a catalogue restored from it has exactly these.",
 ["inputs","histories","configurations"],"all histories of rounds of source changes, merges (fuzzy matching x previous ids x sort modes), translator edits, passages through files and compilations",
 "Unit tests exercise one step on a fixed file; work gets lost when the output of one step (no forms yet, a fuzzy header, an obsolete message that comes back) is the unusual input of the next.",
 [GP+"parser.go",PO+"merge.go",PO+"entries.go",PO+"file.go",PC+"po_compiler_format.go",PP+"po_parser.go",PC+"mo_compile.go","cli/msgomerge/cmd/root.go"],
 [("extraction",GP+"parser.go"),("merge",PO+"merge.go"),("reading",PP+"po_parser.go"),("compiled file",PC+"mo_compile.go")],
 ["goparse.From*, po.MergeWithConfig, compile.PoTo*/MoTo*, parse.Po*/Mo*, po.File, po.MsgcatMergeFiles, the command line tools"])

prop("C39","The messages of a result are independent values",
 "Whatever produced a list of messages (reading PO, MO or Go documents, merging, concatenating, resolving duplicates, cleaning, sorting, the file API, header conversion, or a chain of these), replacing, sorting or appending to the comments, flags, references, previous ids or plural forms of one of its messages never changes another message of the list nor another field of the same message, as long as the lists given to the operations share nothing among their messages. Default configurations, headers and compilers are fresh values too: options given to one of them and changes of one of them never show in what the library gives out next.",
 ["inputs","histories","configurations"],"all chains of operations x lists of messages x options, and all later in-place changes of one message",
 "Tests compare a result and drop it; sharing shows only when one message of it is edited later, and sharing of spare capacity only when something is appended.",
 [PO+"merge.go",PO+"msgcat_merge.go",PO+"entries.go",PO+"header.go",PP+"po_parser.go",PP+"mo_parser.go",GP+"process.go"],
 [("forms of merged messages",PO+"merge.go"),("comments of concatenated messages",PO+"msgcat_merge.go"),("parsed messages",PP+"po_parser.go"),("default configurations",PO+"header.go")],
 ["po.Merge*, po.MsgcatMergeFiles, Entries.Solve*/Clean*/Sort*, parse.Po*/Mo*, goparse.From*, po.Default*Config"])

prop("C40","Results are reproducible",
 "The result of every library operation and of every tool (status, output, error output and files) depends only on the inputs, options and named files. Another time, process, directory, time zone, locale, environment variable, file-creation mask, user, number of processors or memory setting, another order of operations before it, and another order or time of creation of the input files all give the same result byte for byte. Nothing of the machine gets into a result: no date, host, user or process, and no path that wasn't given; only the colours of highlighted documents follow the settings of the terminal.",
 ["inputs","configurations","schedules"],"all operations and tools x inputs x pairs of surroundings (environment, time, place, processors, order)",
 "Tests run in one process with one environment; a dependence on map order, on which file is ready first, on the clock or on a variable shows only when the same work is done again elsewhere.",
 [GP+"parser.go",PO+"entries.go",PO+"header.go",PC+"po_compiler_format.go",PC+"mo_compile.go","cli/xgotext/cmd/input.go","internal/util/skip.go"],
 [("order of files",GP+"parser.go"),("sorting and duplicates",PO+"entries.go"),("default headers",PO+"header.go"),("input files",  "cli/xgotext/cmd/input.go")],
 ["all exported functions of po, compile, parse and goparse, the command line tools"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
