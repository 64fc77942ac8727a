X = "exploration"
NOTES = {
 "C01": ("online round-trip monitor over generated messages", X, "Every generated list is written and read back and compared field by field; assurance grows with the diversity of the generators, nothing is proved."),
 "C02": ("differential monitor: independent layout writer against the parser", X, "The messages a document denotes are known because an independent writer laid them out."),
 "C03": ("independent strict PO reader (and GNU msgcat) as oracle over emitted text", X, "Trusts the independent reader in harness/refpo.go, cross-checked against GNU gettext 0.21."),
 "C04": ("binary format monitor and lookup oracle (own reader, own hash, GNU msgunfmt)", X, "Trusts the independent MO reader and lookup in harness/refmo.go, cross-checked against GNU gettext 0.21."),
 "C05": ("differential monitor: independent MO writer against the parser", X, "The content of every file is known because an independent writer laid it out."),
 "C07": ("fault injection into MO files with an independent reader as oracle", "fault_enumeration", "Every truncation point and every header field of each generated file is damaged, and single bytes at random."),
 "C08": ("online invariant monitor of merges (conservation of messages and translations)", X, "The invariants are stated over inputs and result, independently of the algorithm; similarity has a tolerance band."),
 "C09": ("online conservation monitor of concatenations", X, "Every definition of every message is accounted for in the result."),
 "C10": ("model comparison over generated lists", X, "Independent model of duplicate resolution and filters."),
 "C11": ("order-axiom and permutation monitor over generated lists", X, "Own comparators; pairs, triples and whole lists are checked."),
 "C12": ("equality oracle under single-field mutations and aliasing", X, "Every kind of single-field change and aliasing is sampled."),
 "C26": ("stateful model comparison over operation sequences", X, "The model is an independent ordered map, compared after each operation."),
 "C27": ("defect-list oracle over generated lists and configurations", X, "Independent list of defects."),
 "C13": ("snapshot monitor with sentinel-guarded spare capacity, repeated calls and result mutation", X, "Inputs are deep-copied and compared (spare capacity included) around every operation; sampled histories."),
 "C14": ("Go race detector over concurrent read-only operations with result comparison", X, "The race detector sees the schedules that occurred; shared inputs, injected yields and fresh processes diversify them."),
 "C15": ("write fault injection at every byte offset with prefix oracle", "fault_enumeration", "Every failing byte offset of each generated output, plus full device and uncreatable paths."),
 "C16": ("file-system state monitor around compilations", X, "Prior state of the path (kinds of file and link) is enumerated, contents are sampled."),
 "C17": ("model comparison over histories of option sets, calls and restores", X, "The model rebuilds a fresh component with the options the history implies."),
 "C20": ("model comparison over header histories and representation changes", X, "Independent ordered-map and field serialisation model."),
 "C25": ("differential monitor: output with and without escape sequences", X, "Own tokenizer for the escape sequences."),
 "C18": ("generated Go source with known translatable strings as oracle", X, "The generator knows every string and line it writes."),
 "C19": ("independent directory walk over generated trees, with injected faults", X, "Independent walk; broken sources and missing paths injected."),
 "C28": ("differential monitor of option combinations against known messages", X, "Expected messages are filtered independently; option combinations are sampled."),
 "C29": ("metamorphic monitor of output options", X, "Each option is compared with the output without it under random other options."),
 "C30": ("syntax fault injection into documents, and an independent token reader over random edits", X, "Kinds of syntax errors are enumerated, positions and surroundings sampled; the token reader is an independent reading of the grammar."),
 "C21": ("differential monitor: tool processes against the library's result", X, "Tools, options, their spelling and their inputs are sampled; every file of the scratch directory is compared around a run."),
 "C22": ("fault injection into tool runs with a file-system monitor", X, "Kinds of faults are enumerated per tool (inputs, options, outputs, size limits in the middle of a write); the surroundings are sampled."),
 "C23": ("conservation monitor of joined catalogues over repeated runs", X, "Every existing and every extracted message is accounted for in the file; histories are sampled."),
 "C24": ("differential monitor: update against merge output, repeated, with a model of compendiums", X, "Merging itself is judged by C08; documents and options are sampled."),
 "C06": ("crash, hang and allocation monitor over hostile documents", X, "Allocation is bounded linearly in the document; only the documents that were generated are judged."),
 "C31": ("read fault injection at every offset of every constructor, with delivery perturbation", "fault_enumeration", "Every failing offset of documents up to 500 bytes, sampled ones of longer documents; kinds of unusable files and paths are enumerated."),
 "C32": ("independent MO reader over all combinations of options", X, "All 24 combinations of options for each sampled list; trusts harness/refmo.go."),
 "C33": ("output monitor of the documentation commands against the help texts", X, "Commands and formats are enumerated, destinations sampled; option lists come from the help texts."),
 "C34": ("differential monitor over loggers, verbosity and error suppression, with log and output capture", X, "Every sampled document or list is run under all logger configurations; destinations fail at sampled offsets."),
 "C35": ("model comparison of attributes and ratios over generated messages", X, "Own definitions of attributes and of the edit distance, with a tolerance of the rounding."),
 "C36": ("process state monitor (descriptors, goroutines, environment, file trees, retained buffers) around every operation", X, "Garbage collection is off, so that no finalizer hides a leak; operations, inputs and their order are sampled."),
 "C37": ("defect injection with known names and line ranges", X, "One defect of a known kind and place per document; the line may be anywhere from the broken message to the end of the next one."),
 "C38": ("model-based monitor over histories of a project (ledger of the translator's work compared after every step)", X, "Histories of 2 to 5 rounds; one plural id per message at a time; with fuzzy matching the ledger adopts any permitted passing-on of a translation."),
 "C39": ("memory-region monitor over the lists of results, with in-place changes of one message while the others are watched", X, "Chains of 1 to 4 operations on sampled lists; the memory comparison covers every pair of lists of every result."),
 "C40": ("differential monitor of processes in different surroundings, with a search of the results for traces of the machine", X, "Pairs of surroundings are sampled from fixed lists of variables and values; the clock itself can't be set, dates are searched for instead."),
}
NA = {}
