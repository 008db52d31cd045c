"""Per property: technique and level note of the check, or why it is not claimed."""
TRUST = ("Trusted: clang's translation to IR, the models of C library calls in sa/libc.py, and the assumptions listed "
         "in DESIGN.md (lengths below 2^31, no concurrent change of the tree).")
AI = "path-partitioned abstract interpretation of the LLVM IR"
CLAIMED = {
    "C01": (AI + " (guard of every mutating call)", "Every call that can change the file system is shown unreachable unless dry_run is known to be 0, in all abstract contexts from main."),
    "C02": (AI + " (must-precede and equality of symbolic names)", "On every abstract path to a rename the destination check on the same symbolic name precedes it in the same file system epoch."),
    "C03": (AI + " (symbolic string contents)", "Old and new name are compared as symbolic concatenations at every rename."),
    "C04": (AI + " (symbolic string contents per iteration path)", "The path of every descent is compared with the outcome of the rename on that abstract path."),
    "C05": (AI + " (finite sets of file kinds)", "The kinds lstat can have shown at every rename and descent are computed as finite sets."),
    "C06": (AI + " (guards and must-reach per iteration path)", "Every descent is guarded by recurse, and every iteration that finds a directory descends or has recurse 0."),
    "C07": (AI + " (loop summary of the list scan)", "The scan of the ignore list is shown to start at the first name, step by one and end at the last before an entry is touched."),
    "C08": (AI + " (comparison facts at the rename)", "The inequality of the names and of . and .. is known at every rename."),
    "C09": (AI + " (effect analysis)", "No mutating call and no output stream other than stdout/stderr is reachable in inline mode."),
    "C10": (AI + " (ordering and guards)", "The option parser and main are covered on every abstract path."),
    "C11": (AI + " (must-precede)", "Every processing event is preceded by the successful start-up steps on all abstract paths."),
    "C12": (AI + " (failure paths)", "Every failure event on every iteration path is followed by a message; exits and loop ends are enumerated."),
    "C15": ("amortised size analysis: transducer extraction by " + AI + ", potential (room per byte read) over all cycles", "The room left in the buffer is followed as a potential over every path and loop of the filter; all other writes are compared with the extent of their object."),
    "C16": (AI + " (position of every read against the terminating null)", "Every read and every advance of the position in the name is compared with the string's length, on every abstract path."),
    "C18": (AI + " (linear offsets against the extent of the buffer)", "Every access to the line buffer is an obligation: its offset, a linear form over loop counts and string lengths, is compared with the buffer's size."),
    "C20": ("transducer extraction by " + AI + ", product comparison with a reference transducer", "Every iteration path of the filter loop is compared, byte class by byte class, with the reference; the table is an uninterpreted function."),
    "C21": ("transducer extraction by " + AI + ", product comparison with a reference transducer", "The decoder's automaton is extracted and walked in product with a reference UTF-8 decoder until no new pair of states appears."),
    "C22": ("transducer extraction by " + AI + ", product comparison with a reference transducer", "All byte classes at all positions of an escape are enumerated in the product."),
    "C23": ("transducer extraction by " + AI + ", product comparison with a reference transducer", "Both settings of remove_trailing are compared with the reference in product."),
    "C24": ("transducer extraction by " + AI + ", product comparison with a reference transducer", "The value of each output byte is computed for each of the 255 input bytes."),
    "C25": (AI + " (linear relations between result length, input length and limit)", "Every abstract return path of the cleaner is compared with the length relation."),
    "C26": (AI + " (summary of the loop over the filters)", "Every abstract path of one turn of the loop is shown to run the one cleaner of the filter's kind on the result before it, and the loop to start at the first filter, step by one and end behind the last."),
    "C27": (AI + " (decision list of the table lookup)", "For every kind and every presence of builtin name and file name, the sequence of attempts on each abstract path is compared with the documented one."),
    "C30": (AI + " (search loop and the outcome of its comparisons)", "Every returned sequence is compared with the name asked for, every passed over one is known to differ, on every abstract path."),
    "C31": (AI + " (decision list of the file search)", "On every abstract path the series of files tried, each outcome and what is merged over what is compared with the documented series."),
    "C17": (AI + " (symbolic rows, summaries of the scans, case split over the hash)", "Every access to a row is bounded by the length; stores and lookups are compared with the documented effect on every abstract path for an arbitrary table."),
    "C33": ("comparison of constant initialisers in the IR with the parsed table files", "Every row, default and count of the four builtin tables is compared; the loader is followed to the table it copies."),
    "C34": (AI + " (decision table of the option loop)", "The effect of every option label on every settings field is extracted and compared with the documented table."),
    "C28": ("product exploration of the LALR automaton (bison's own report) with the documented statements; automata comparison of the lexer's patterns; " + AI + " of the action code of every statement", "Every statement of the documented language is driven through the parser's automaton; the code its reductions run is assembled from the grammar and interpreted from an arbitrary parser state. Every lexer pattern is compared, as a labelled automaton, with the documented tokens."),
    "C29": (AI + " (list surgery read from the abstract heap, induction over the search loop)", "The code run at the end of a sequence is interpreted from an arbitrary list of sequences; every path either replaces the filters of a sequence whose name compared equal or appends after all were compared. parse_config_file and config_file_load are followed on every path."),
    "C32": (AI + " (the built structures read from the abstract heap) against a reading of etc/detoxrc by its documentation", "The heap built by spoof_config_file on its only abstract path is compared, sequence by sequence and filter by filter, with the shipped file."),
    "C35": (AI + " (list walks and provenance of the printed text)", "Every abstract path of one turn of the walks over sequences, filters and ignored names is compared with what must be printed for it."),
    "C36": (AI + " (state machine of the line loop, provenance of every stored text)", "Every abstract path of one turn of the loop over the lines is compared with the documented format, sscanf being split into its outcomes; every access to the buffers is bounded."),
    "C37": (AI + " (inductive invariant of the list)", "From an arbitrary list with 0 <= position <= count <= maximum, every abstract path of every operation is shown to keep the invariant and to have the documented effect."),
    "C38": (AI + " (input split into lines, unfinished lines and bytes read ahead; texts compared symbolically)", "Every abstract path of one turn of the line loop, over every outcome of fgets, fgetc and ungetc, is compared with what must be filtered and written for the bytes that turn consumed."),
    "C39": (AI + " (transducers read off the filters' loops, composed with the constant tables and with themselves; product of once and twice)", "The transducers of the filters are extracted from the source, instantiated with the builtin tables' constants and the built-in sequences, and the product of the sequence with the sequence applied twice is explored completely; a word on which they differ is the violation. Characters outside the table are represented by some of each length."),
    "C42": (AI + " (converse of the rename rules: every path that was given a filtered name and does not rename must have a listed reason)", "Every abstract path of the walk that puts a name through the sequence must rename it or entail one of the listed reasons not to; every examined entry must reach the sequence unless its kind is special."),
    "C43": (AI + " (what is printed against what is renamed, as symbolic texts, path by path)", "Every write to standard output on every path of the walk is compared, as a symbolic text, with the rename events of the same path, and every successful (or dry) rename must have one."),
    "C44": (AI + " (slice of what decides each loop's end; progress of every path round the loop; shape of the linked lists)", "For every loop of every function, every abstract path from the header back to it must consume input or change something in the slice of the loop's branches; a path that changes nothing, only goes round in a circle, or overflows a narrow counter is the violation, as is a loop no path leaves or a list cell linked back to itself. That the changes add up to an end (a bound on a growing counter) is shown only where the variable is compared with a bound."),
    "C45": ("flow of unwritten values through the type-checked program (clang's path-sensitive analyzer with this repository's units joined, and every function once more on its own), nothing executed", "Every function is analysed twice: with the bodies of the callees of all units, and alone with unknown callers. Library calls that write only on success (stat, lstat, fstat, sscanf) are given as models. A use of a value no write of the path reaches is the violation. Loops are followed for 4 turns (8 in the thorough tier); bytes of text buffers are left to C15, C16, C18 and C20-C25."),
    "C13": (AI + " (typestate of every stream and directory, function by function, callees by ownership summaries)", "Every abstract path of every function that opens something is followed to every way out and round every loop; what it opened must be closed there, handed to the caller, and not touched after."),
    "C14": (AI + " (every fallible call forked into success and failure; nullness of every dereferenced pointer)", "Every function is interpreted with each allocation, open, search and lookup failing; a path that dereferences null, or carries on after a failed allocation, is the violation."),
    "C19": (AI + " (ownership of heap objects, induction over loop-carried objects)", "What every path of the per-name and per-line functions allocates is followed to every return and to the next turn of every loop; release state is part of the abstract state."),
}
DECLINED = {
    "C40": "depends on the interleaving with other processes between lstat and rename; the code has no static construct that could establish it (rename(2) without RENAME_NOREPLACE)",
    "C41": "depends on the readdir semantics of the file system while entries are renamed and on the finiteness of the tree, not on the program text",
}
