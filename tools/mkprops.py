#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, symbols=None):
    a = {"files": files}
    a["mechanism"] = [{"name": s, "where": files[0] if len(files) == 1 else ", ".join(files)} for s in symbols or []]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A dry run never changes the file system",
     "When -n/--dry-run is given, no file, directory or link is renamed, created, removed or modified, whatever other options, configuration, sequence or files are given.",
     ["inputs", "configurations", "programs"], "every argument list with -n, every configuration, every directory tree",
     "The unit tests never run the renaming code at all, and the legacy tests do one dry run on one tree.",
     ["src/file.c", "src/detox.c"], ["parse_file", "parse_dir", "main"])
prop("C02", "A rename never replaces another existing file",
     "A file is renamed only when nothing exists at the new name (checked without following links), or when the new name is the very same file (same device and inode) and that file has no further hard links; the check is made on the exact name that is then renamed to, and nothing is renamed between the check and the rename.",
     ["inputs", "histories"], "every pair of old and new name, every state of the directory, every order of traversal",
     "Tests would need every collision shape (file, directory, dangling link, hard link, case-insensitive alias); none of the 55 tests renames anything.",
     ["src/file.c"], ["parse_file"])
prop("C03", "A rename changes only the last path component",
     "Whenever a file is renamed, the new path is the old path with only the part after its last slash replaced by the filtered form of that part; the replacement contains no slash, so a file never moves to another directory.",
     ["inputs", "configurations"], "every path given or found, every sequence and translation table",
     "Depends on what an arbitrary sequence and table produce; tests only look at filter outputs, never at the path that is renamed.",
     ["src/file.c"], ["parse_file"])
prop("C04", "Traversal continues under the name a directory really has",
     "After a directory has been processed, detox descends into the renamed path if and only if the rename succeeded, and into the original path in every other case (unchanged, dry run, destination exists, rename failed).",
     ["inputs", "histories", "fault_sequences"], "every outcome of every rename in a recursive run",
     "Requires failing renames at each point of a recursive run; the tests do not exercise recursion.",
     ["src/file.c", "src/detox.c"], ["parse_file", "parse_dir"])
prop("C05", "Links and special files are left alone unless --special is given",
     "Without --special only directories and regular files are ever renamed, the kind being judged without following symbolic links; a symbolic link is never descended into, with or without --special.",
     ["inputs", "configurations"], "every kind of directory entry or argument, every option combination",
     "Needs trees with links, sockets, fifos and devices in combination with each option.",
     ["src/file.c", "src/detox.c"], ["parse_dir", "main"])
prop("C06", "Only -r descends below the given directories",
     "Without -r/--recursive, detox handles the given files, the given directories and the direct entries of a given directory, and never descends into a directory found inside one; with it, every non-ignored directory found inside is descended into.",
     ["inputs", "configurations"], "every tree depth and option combination",
     "The test suite has no directory tree in it.",
     ["src/file.c", "src/detox.c"], ["parse_dir"])
prop("C07", "Dot entries and ignored names are never touched during traversal",
     "While walking a directory, an entry whose name starts with a period, or equals a name on the ignore list, is neither renamed nor descended into, regardless of how many entries were seen before it and of how many names are on the list; every other directory entry is considered.",
     ["inputs", "histories"], "every sequence of directory entries, across directories, and every ignore list",
     "The ignore list is scanned with state kept between entries: a fault shows only for particular sequences of entries.",
     ["src/file.c", "src/filelist.c"], ["ignore_file", "filelist_get"])
prop("C08", "Only names that change are renamed, and never . or ..",
     "A rename is attempted only if the filtered name differs from the present name; a path whose last component is \".\" or \"..\" is never renamed.",
     ["inputs"], "every path and every sequence",
     "Needs every path shape together with a sequence that would change it.",
     ["src/file.c"], ["parse_file", "is_protected"])
prop("C09", "Inline mode only reads its inputs and writes standard output",
     "In inline mode no file is created, written, renamed or removed: the given files (or standard input) are read, and the result goes to standard output only.",
     ["inputs", "configurations"], "every inline invocation, with any files and options",
     "One unit test calls the routine with an explicit output file, which the program never does.",
     ["src/file.c", "src/detox.c"], ["parse_inline", "main"])
prop("C10", "Informational invocations do no work on files",
     "With -h, -V, an unknown option, or a missing file argument, detox prints its message and exits before reading any configuration or touching any file; with -L it lists the sequences and exits without examining, opening for traversal or renaming any file.",
     ["inputs", "configurations"], "every argument list containing one of those options, in any position",
     "Argument lists are unbounded combinations; the tests run none of them.",
     ["src/parse_options.c", "src/detox.c"], ["parse_options_getopt", "main"])
prop("C11", "Nothing is processed unless start-up succeeded completely",
     "No file is examined for renaming and no inline text is processed before the options are parsed, a configuration is present, a sequence has been selected and every translation table of that sequence has been obtained; if any of these fails, detox reports it on standard error and exits with a failure status having processed nothing.",
     ["configurations", "fault_sequences"], "every way start-up can fail",
     "Needs each start-up step to fail in turn, combined with real work to do.",
     ["src/detox.c", "src/filter.c", "src/sequence.c"], ["main", "sequence_review", "filter_load_table"])
prop("C12", "One bad file does not stop the others, and failures are reported",
     "If a given file cannot be examined, a rename fails, a destination exists, a directory cannot be opened or an inline file cannot be read, detox reports it on standard error and carries on with the remaining files and entries; running out of file descriptors while opening a directory is the only run-time file error after which it stops.",
     ["fault_sequences", "inputs"], "every failing system call at every point of a run",
     "Faults have to be injected at each call; the tests inject only allocation failures.",
     ["src/file.c", "src/detox.c"], ["parse_file", "parse_dir", "parse_inline", "main"])
prop("C13", "Every opened directory and file is closed exactly once",
     "Every directory or file that detox opens is closed exactly once on every path on which the program carries on, and never used after it was closed, so the number of open descriptors does not grow with the number of entries, files or tables processed.",
     ["inputs", "histories", "fault_sequences"], "every path through every routine that opens something",
     "A leak shows only in long runs or on error paths the tests do not reach.",
     ["src/file.c", "src/parse_table.c", "src/config_file_yacc.y"], ["parse_dir", "parse_inline", "parse_table", "parse_config_file"])
prop("C14", "A failed allocation or lookup is never dereferenced",
     "Whenever an allocation, a file or directory open, an environment lookup, a string search or a table lookup may fail, its null result is never dereferenced or passed on where a valid object is required; running out of memory ends the program with a message and a failure status.",
     ["fault_sequences", "inputs"], "every failure of every fallible call",
     "The tests inject failures into two wrappers only, one call at a time.",
     ["src/wrapped.c", "src"], ["wrapped_malloc", "wrapped_strdup"])
prop("C15", "Filter output always fits its buffer",
     "For every input string and every translation table (including empty tables, empty or long replacements, and a long default), a filter never writes beyond the buffer it allocated for its result.",
     ["inputs", "configurations"], "all byte strings and all tables",
     "Overflow depends on the relation between string, table and default; the tests use the shipped tables on short names.",
     ["src/clean_string.c", "src/clean_utf_8.c"], ["clean_safe", "clean_iso8859_1", "clean_utf_8", "clean_uncgi", "clean_wipeup", "clean_lower", "clean_max_length"])
prop("C16", "Filters never read past the end of a name",
     "Every filter stops at the terminating null of its input, also when the input ends in the middle of an escape or of a multi-byte sequence, and always returns a null-terminated string.",
     ["inputs"], "all byte strings, in particular truncated escapes and sequences",
     "Truncation at each offset of each kind of sequence is not enumerated by the tests.",
     ["src/clean_string.c", "src/clean_utf_8.c"], ["clean_uncgi", "clean_utf_8"])
prop("C17", "Translation tables find exactly what was put in",
     "Looking up a non-zero key returns the string most recently stored under that key, and nothing for a key never stored; this holds for any number of rows up to capacity, any collision pattern and with hashing on or off; storing into a full table or under key zero fails and changes nothing, and no access leaves the row array.",
     ["inputs", "histories"], "every sequence of stores and lookups, every table size",
     "Collision patterns are combinatorial; tests try a few keys.",
     ["src/table.c"], ["table_init", "table_put", "table_get", "table_resize"])
prop("C18", "Inline line handling stays inside its buffer",
     "While reading inline input, every access stays within the line buffer, for every line length, for lines with embedded nulls or malformed UTF-8, and for multi-byte sequences that straddle the buffer.",
     ["inputs"], "all byte streams",
     "The tests use a handful of text files.",
     ["src/file.c"], ["parse_inline"])
prop("C19", "Memory is released exactly once and does not accumulate per file",
     "While names are processed, nothing is released twice or used after release, and everything allocated for one directory entry, argument or inline line is released by the time the next one is taken up, on every path.",
     ["inputs", "histories", "fault_sequences"], "every path through the per-file and per-line work",
     "Leaks and double releases on error paths are invisible to the tests.",
     ["src/file.c", "src/sequence.c", "src/detox.c", "src/clean_string.c"], ["parse_file", "parse_dir", "parse_inline", "sequence_run_filters"])
prop("C20", "The safe and ISO 8859-1 filters translate byte by byte through the table",
     "The safe filter replaces each byte by the table's entry for it, and the ISO 8859-1 filter does so for each byte above 0x7F while copying the others; a byte without an entry becomes the table's default if there is one and is copied unchanged otherwise, and nothing else is changed, dropped or added.",
     ["inputs", "configurations"], "all byte strings and all tables",
     "Tests sample a few strings per table.",
     ["src/clean_string.c"], ["clean_safe", "clean_iso8859_1"])
prop("C21", "The UTF-8 filter decodes, replaces and repairs as documented",
     "Each well-formed 1 to 6 byte sequence is replaced by the table's entry for its code point, else a code point of zero by \"_hidden_null_\", else one above U+10FFFF by \"_\", else by the table's default, else copied unchanged; a stray continuation or invalid start byte becomes \"_\", and a truncated sequence becomes one \"_\" with the byte that broke it examined afresh.",
     ["inputs", "configurations"], "all byte strings and all tables",
     "The space of malformed sequences is not enumerated by the tests.",
     ["src/clean_utf_8.c"], ["clean_utf_8", "get_utf_8_width"])
prop("C22", "CGI unescaping decodes exactly %XX and +",
     "The uncgi filter turns a percent sign followed by two hexadecimal digits (either case) into the byte they denote and a plus into a space, consumes each input byte once without rescanning its own output, and copies everything else unchanged.",
     ["inputs"], "all byte strings",
     "Tests sample a few escapes out of 484 and their neighbourhoods.",
     ["src/clean_string.c"], ["clean_uncgi"])
prop("C23", "Wipeup collapses runs and strips leading characters as documented",
     "The wipeup filter removes leading dashes, underscores and hashes, reduces every run of dashes and underscores (and periods, with remove_trailing) to its single highest-precedence character (period, then dash, then underscore), and copies every other byte unchanged.",
     ["inputs"], "all byte strings, both settings",
     "Run compositions are unbounded.",
     ["src/clean_string.c"], ["clean_wipeup"])
prop("C24", "The lower filter changes ASCII capitals only",
     "The lower filter maps A-Z to a-z and leaves every other byte unchanged, whatever the locale.",
     ["inputs", "configurations"], "all byte strings, all locales",
     "Tests run in one locale on a few names.",
     ["src/clean_string.c"], ["clean_lower"])
prop("C25", "Max-length never lengthens, and keeps what fits",
     "A name no longer than the limit (256 when unset) is returned unchanged; a longer one without extension is cut to exactly the limit; a longer one with an extension shorter than the limit keeps the extension and has exactly the limit's length; otherwise it is returned unchanged with a warning.",
     ["inputs", "configurations"], "all names and limits",
     "Boundary combinations of name, extension and limit are sampled only.",
     ["src/clean_string.c"], ["clean_max_length"])
prop("C26", "A sequence is the composition of its filters, in order",
     "Running a sequence applies each of its filters exactly once, in configured order, each to the previous one's result, each with its own table and settings, and each filter kind runs the cleaner it names.",
     ["inputs", "configurations", "programs"], "every sequence",
     "Sequences are user-defined; the tests run filters in isolation.",
     ["src/sequence.c", "src/filter.c"], ["sequence_run_filters", "filter_run"])
prop("C27", "Each filter gets the table its configuration names",
     "A filter with a builtin name gets that builtin table or the program stops; otherwise one with a file name gets that file's table or the program stops; otherwise its standard table file is searched for in the data directory, /usr/share and /usr/local/share in that order, and its own builtin table is the fallback; filters without tables get none.",
     ["configurations", "fault_sequences"], "every filter configuration and every presence or absence of table files",
     "The search path is outside what the tests control.",
     ["src/filter.c"], ["filter_load_table", "filter_find_table", "filter_load_builtin"])
prop("C28", "Configuration text maps to the filters it names",
     "Each filter statement of a configuration file yields exactly one filter of that kind with exactly the given builtin, file name, length or remove_trailing setting and defaults otherwise; each ignore entry adds exactly that name; a syntax error ends the program with a failure status.",
     ["inputs", "configurations", "programs"], "every configuration file",
     "The grammar is unbounded; the tests parse a few files.",
     ["src/config_file_yacc.y", "src/config_file_yacc.c", "src/config_file_lex.l"], ["cf_append_filter", "cf_append_ignore_entry"])
prop("C29", "A later definition of a sequence replaces the earlier, others are kept",
     "When configuration files are read one after another, a sequence defined again replaces the contents of the earlier one of that name in place, a new name is appended, every other sequence and every ignore entry of earlier files is kept, and a file that cannot be opened leaves everything as it was.",
     ["configurations", "histories"], "every series of configuration files",
     "Tests merge at most a couple of files.",
     ["src/config_file_yacc.y", "src/config_file_yacc.c"], ["cf_append_sequence_list", "parse_config_file"])
prop("C30", "The sequence asked for is the one used",
     "The sequence used is the one whose name equals the -s argument, or else DETOX_SEQUENCE, or else \"default\"; only when no name was asked for does the first configured sequence serve as fallback, and a named sequence that does not exist is never replaced by another.",
     ["configurations", "inputs"], "every list of sequences, option and environment",
     "Needs option, environment and list shape together.",
     ["src/sequence.c", "src/parse_options.c", "src/detox.c"], ["sequence_choose_default"])
prop("C31", "Configuration files are looked for in the documented order",
     "With -f only that file is read, and failing to open it ends the program; without it the first of the system-wide candidates that can be opened is read, then the one in HOME, then the one in XDG_CONFIG_HOME, each merged over the former, and the built-in configuration is used only if none could be opened.",
     ["configurations", "fault_sequences"], "every presence or absence of the candidate files and variables",
     "File system and environment combinations are outside what the tests control.",
     ["src/config_file.c"], ["config_file_load"])
prop("C32", "The built-in configuration equals the shipped one",
     "The configuration used when no file is found has the same sequences, in the same order, with the same filters and settings, and the same ignore list as the shipped etc/detoxrc.",
     ["configurations", "programs"], "every sequence and filter of both",
     "The unit test checks part of the built-in one by hand and never the shipped file.",
     ["src/config_file_spoof.c", "etc/detoxrc"], ["spoof_config_file"])
prop("C33", "The builtin tables equal the shipped table files",
     "Each builtin table holds exactly the keys and replacement strings of the table file it is named after, and its recorded length, use count, longest replacement and largest key agree with its rows.",
     ["configurations", "programs"], "every row of every builtin table",
     "Tests look up a few characters.",
     ["src/builtin_table.c", "table"], ["load_builtin_safe_table", "load_builtin_unicode_table", "load_builtin_iso8859_1_table", "load_builtin_cp1252_table"])
prop("C34", "Every option does what its documentation says, in both spellings",
     "Each documented short and long option sets exactly the setting it names and takes an argument exactly when documented, later -s and -f win over earlier ones and over the environment, and the program name inline-detox or --inline selects inline mode.",
     ["inputs"], "every argument list",
     "No test parses options.",
     ["src/parse_options.c"], ["parse_options_getopt"])
prop("C35", "-L lists every sequence, filter and ignored name",
     "The listing names every sequence of the configuration in order and marks the selected one; with -v it shows every filter of each, with its kind and settings, and the ignored names are listed too.",
     ["configurations"], "every configuration",
     "No test runs the listing.",
     ["src/config_file_dump.c"], ["dump_config_file"])
prop("C36", "Table files are read row by row into the table they describe",
     "Reading a table file never overruns its buffers whatever the file contains; a line number and replacement inside start/end becomes exactly one row, lines outside do not, the default line sets the default, and a row that cannot be stored makes the whole read fail.",
     ["inputs"], "every table file",
     "Files are arbitrary text; the tests load none.",
     ["src/parse_table.c"], ["parse_table"])
prop("C37", "File lists return every entry once, in order",
     "A file list returns the names put into it exactly once each, in order, then signals the end and starts over, for any number of names, and no access leaves its array.",
     ["inputs", "histories"], "every series of puts and gets",
     "Growth boundaries and interleavings are sampled only.",
     ["src/filelist.c"], ["filelist_put", "filelist_get"])
prop("C38", "Inline mode filters each line and reproduces the line structure",
     "For every line of input the filtered text is written followed by a newline exactly if the input line had one; a line that is \".\" or \"..\" is written unchanged; no input line is dropped, repeated or merged with another. A line longer than the line buffer is filtered in pieces, which lose nothing and are not cut inside a character that can still be completed.",
     ["inputs"], "all byte streams without null bytes",
     "Lines around the buffer size and in the middle of characters are sampled only.",
     ["src/file.c"], ["parse_inline"])
prop("C39", "Filtering a filtered name again changes nothing",
     "Every built-in sequence that only uses the safe, utf_8, wipeup and lower filters (the default one among them) returns its own output unchanged when it is run on it, so a second run over a tree renames nothing.",
     ["inputs", "configurations"], "all byte strings without null bytes",
     "Stability concerns pairs of filters and tables over all strings; the tests run each filter on a few, once.",
     ["src/clean_string.c", "src/clean_utf_8.c", "src/builtin_table.c", "src/config_file_spoof.c"],
     ["clean_safe", "clean_utf_8", "clean_wipeup", "clean_lower", "spoof_config_file"])
prop("C40", "No file is lost when others change the tree at the same time",
     "Even if another process creates or replaces files while detox runs, no rename overwrites a file created after the check.",
     ["schedules"], "all interleavings with other processes", "Needs a second process at a precise instant.",
     ["src/file.c"])
prop("C41", "Every run terminates and visits each original entry once",
     "A recursive run over a finite tree terminates and processes each original entry exactly once even though entries are renamed while the directory is being read.",
     ["inputs", "histories"], "all trees and directory orders", "Depends on the operating system's directory stream.",
     ["src/file.c"])
prop("C42", "Every name that changes under the filters is renamed",
     "A given file or directory, and every entry of a walked directory that is neither hidden nor ignored and is a directory, a regular file or (with --special) anything else, is put through the selected sequence and renamed if the result differs. It is left alone only in a dry run, or if its name is . or .., a filter gives no name, the result is the same name or contains a slash, the file cannot be examined, the new name exists already as another file, or as the same file with further hard links.",
     ["inputs", "configurations", "fault_sequences"], "every file, directory entry, option combination and failing call",
     "Nothing tests that a combination of options and file kinds is not silently skipped; the tests run a few trees.",
     ["src/file.c", "src/detox.c"], ["parse_file", "parse_dir", "main"])
prop("C43", "What is renamed is reported, and nothing else",
     "With -v every rename that is tried, and with -n every rename that would be tried, is reported once on standard output as old -> new, with the names of exactly that rename; no other rename is reported; and without -v and -n nothing is written to standard output while files and directories are handled.",
     ["inputs", "configurations", "fault_sequences"], "every path on which a file or directory is handled",
     "No test compares the report with what was done when renames fail, collide or are dry.",
     ["src/file.c"], ["parse_file", "parse_dir"])
prop("C44", "No input makes detox loop without end",
     "Whatever the arguments, names, directory entries, inline text, translation tables and configuration are, every loop of detox ends: each turn uses up some of the input, or changes something that decides whether the loop goes on, and does not return to where it was; the end of the input, or a failure to read it, ends the loop; and no list leads back into itself.",
     ["inputs", "configurations", "fault_sequences"], "every turn of every loop",
     "A test that hangs is noticed, but only for the inputs it samples; a turn that makes no progress needs one particular byte, entry or line.",
     ["src"], ["clean_utf_8", "clean_uncgi", "clean_wipeup", "parse_dir", "parse_inline", "parse_table", "sequence_run_filters"])
prop("C45", "Nothing is decided by a value that was never written",
     "Whatever the arguments, files, tables and configuration are, and whichever library call fails, detox never decides a branch by, computes with, stores, returns, passes on, indexes by or dereferences a value that was never written: every local variable, every field of an options, table, filter, sequence, list or configuration object, and every result a library call only fills in when it succeeds, is written before it is used.",
     ["inputs", "configurations", "fault_sequences"], "every use of a variable or field on every path",
     "Memory is mostly zero in a test run, so an object that is not initialised behaves well there; the path that leaves a variable unset needs one particular failure or input.",
     ["src"], ["options_init", "table_init", "filter_init", "sequence_init", "filelist_init", "config_file_init", "parse_table", "parse_file", "parse_dir", "clean_utf_8"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
