HEAP = "`Heap.tla`: a heap of lists and dictionaries with references, registers holding values, one action per operation of the collections (22 on lists, 25 on dictionaries), sharing included. Laws: only the addressed object changes, copies are separate, merge keeps the destination, unique has no duplicates."
FILES = "`FileFlow.tla`: a list of files evaluated one by one, each result written by successive file-system operations (mkdir, rename, open, write, unlink); kills between any two operations and failing operations. Invariants: no source is lost, only the documented paths are touched, final placement depends on the file alone, failures are reported."
ERRORS = "`Errors.tla`: a content is a sequence of lines in nested blocks; attempts stop at the first fault (parsing faults in text order, then execution faults in execution order), report it, replace the line and start again from the initial context; policy by kind of file; undefined values. Invariants: at the end exactly the faulty (executed) lines are reported, once each; the number of attempts is bounded by the number of lines; termination."
D = {
 "C09": dict(spec=HEAP, oracle="every history is replayed on the real lists (generic, JSON, YAML, HCL, mixed) through the Go interfaces and through template functions; after each operation the deep value of *every* live object is compared with the model, so a result sharing storage with an existing list is seen as soon as one is altered",
             bounds="exhaustive for histories of one operation on four initial heaps (and of two operations over selected groups of operations), random histories up to 16 operations beyond; about 30 s quick, several minutes thorough",
             why="aliasing needs a history (derive, alter, read again) over the product of operations; tests check one result at a time"),
 "C10": dict(spec=HEAP, oracle="as C09, over dictionaries: values of all live objects after each operation", bounds="as C09", why="leaks through nested objects appear only when a derived object is altered afterwards"),
 "C11": dict(spec=HEAP, oracle="the same histories on each implementation, and with implementations mixed within one history, give the values of the model; the types of derived objects are compared with the type of the source", bounds="as C09", why="the product of operations, implementations and nesting", limits="XML (a stub)"),
 "C15": dict(spec="`Slices.tla`: slice, extract, first, last, rest, initial, safeIndex, get over sequences, strings and dictionaries.", oracle="every case of the state graph is evaluated by the template functions on several implementations; result and argument afterwards are compared", bounds="exhaustive for sequences up to length 4, all bounds within length+2; dictionaries over 4 keys", why="all the bounds and signs", limits="multi byte strings (slices count bytes)"),
 "C16": dict(spec="`Ranges.tla`: ranges in integers and in scaled decimals with a progression state machine (terminating).", oracle="the numbers printed by until/to/aliases and by min, max, sum, avg style functions on the result", bounds="exhaustive on small integers and tenths; random on larger bounds and thousandths", why="rounding and direction for every start, stop and step", limits="more than 9 decimals"),
 "C17": dict(spec="`Subst.tla`: a text goes through the ordered substitutions, is evaluated, and goes again through them; matching of 14 kinds of expressions is defined on character sequences.", oracle="result of ProcessContent and of the command (-s, GOTEMPLATE_SUBSTITUTES, --remove-empty-lines) compared with the model", bounds="exhaustive for texts of up to 2 (quick) or 3 pieces with one substitution; random up to 14 pieces and 4 substitutions", why="order, both passes, and anchors over whole texts"),
 "C01": dict(spec=FILES, oracle="the real command is run on the generated tree (relative, absolute, --source, recursive forms; with and without the run sub command); the whole tree (contents and modes), the standard output, the exit code and the temporary folder are compared with the final state of the model", bounds="one file: all combinations of kind, extension, content class, mode, existing destination/backup and the 16 option sets (a random part of them run in quick); up to 3 files random", why="the product of options, kinds and pre-existing files", limits="existing results keep their mode (not claimed)"),
 "C02": dict(spec=FILES, oracle="each operation of the real command (numbered by a ptrace tracer, tracer/fstrace.c) is killed before/after, truncated, or fails with ENOSPC/EACCES/EIO; the tree left is read back and judged by TLC against the invariants of the model (FileFlowObs.tla)", bounds="design: all kills and single faults over two files; implementation: every mutating system call of 350 (quick) generated runs of up to 3 files", why="needs a crash or a fault at a given operation", limits="one fault per run; no power failure; a failure to remove a template after its result is written is not reported by the code and not claimed"),
 "C03": dict(spec=FILES, oracle="as C01 with lists of up to 5 files, by the command and by ProcessTemplates (also one call per file on the same template); produced files, errors, context isolation", bounds="two files: all pairs of classes (part of them run in quick); up to 5 files random", why="isolation is over every sequence", limits="templates, aliases and functions defined by a file are shared with the next ones by design"),
 "C19": dict(spec=FILES, oracle="ProcessTemplatesWithHandler with a handler whose decision per file is drawn by the model; calls received, produced files, errors and tree compared", bounds="one file: all combinations with the 5 decisions; up to 4 files random", why="the product of decisions, outcomes and options"),
 "C04": dict(spec=ERRORS, oracle="reported lines, their messages and texts, the result, the context of the caller and (for the command) exit code, tree and temporary folder are compared with the model, for 14 kinds of parsing faults, 13 of execution faults, 6 kinds of files; arbitrary texts are evaluated for termination, determinism and policy only", bounds="up to 3 (quick) or 4 lines exhaustively, up to 16 lines with 3 levels of blocks at random; 2500/20000 arbitrary texts", why="the recovery loop depends on the whole sequence of faults", limits="one fault per line; faults in the line opening a block (they cascade); actions over several lines"),
 "C05": dict(spec=ERRORS, oracle="as C04 with 14 ways of rendering an undefined value, 18 protected forms and 5 literal forms; the text shown with the error is compared too", bounds="as C04", why="every mix of literal markers, undefined and protected values with both options", limits="values of the context containing the markers themselves"),
 "C06": dict(spec="`Literal.tla`: a content is a sequence of lines of pieces (literal texts, e-mails, doubled delimiters, values, comments, white-space eaters, ignored expressions, markers); it is rendered line by line by a state machine of the markers. Laws: a text without active code is unchanged, every line keeps its place.", oracle="ProcessContent and the command (--delimiters, --disable, --ignore-razor, GOTEMPLATE_IGNORE_RAZOR) give the text of the model, with the default and five sets of custom delimiters", bounds="all single pieces and all pairs on two lines (pairs on a line in thorough) with every configuration, sampled for execution in quick; random up to 8 lines and 8 pieces per line", why="the pause markers are a state machine over the whole file and the regular expressions interact between pieces", limits="see the razor limitations below"),
 "C07": dict(spec="`Razor.tla`: a typed language (numbers in quarters, strings, booleans, lists, a dictionary; twelve arithmetic operators, comparisons, lazy logic, unary operators, calls, index, slice, extraction, members) with statements (prints, assignments, if / else if / else, range with index and variables, with, one line blocks). A program is written line by line within static scopes, then executed step by step (program counter, frames, locals, dot, globals). Laws: blocks are balanced, only strict assignments are refused.", oracle="the model prints the same program (method calls, several of them on a line, strings with dollar signs, percent signs, markers and keywords included) in razor (twelve styles: compact, spaced, synonyms, redundant parentheses, `$.x`, `@{x}`, end words...) and in Go template; ProcessContent must give, for each of them, with the default and with five other sets of delimiters, the values printed by the execution and the final values of all the globals", bounds="all expressions of depth 2 over 8 leaves (sampled for execution in quick); random expressions up to depth 4, random programs of 4 to 24 lines", why="the translation is a sequence of regular expressions and a Go expression parser: what is written by one is matched again by the others, and only composed programs show it", limits="type errors, undefined reads, limits out of bounds; see the razor limitations below; a Go map given as context (instead of a dictionary) does not receive the constants `true` and `false`"),
 "C08": dict(spec="`Razor.tla`, family `assign`: `=`, `:=` and `op=` on globals, members of the dot, members of a dictionary (global or held by a local variable) and local variables, in nested blocks, with the three validation modes", oracle="values printed and final values of all the globals and members; the line of the refused assignment in strict mode; the context of the caller is unchanged after the evaluation", bounds="all sequences of 1 and 2 assignments (3 in thorough), in the three modes; random programs up to 18 lines", why="the effect of an assignment depends on the history: existing or missing, shadowed or not, taken branch or not", limits="members of local variables are not validated by the code (nor by the model); reading a missing variable within `op=` in warning mode is an undefined value (not specified)"),
 "C14": dict(spec="`Find.tla`: a tree of folders, files, links to files and links to folders (cycles, links to parents, several links to the same folder) is built, then searched by increasing depth; patterns are sequences of tokens (`*`, `?`, classes, characters) matched by the specification. Laws: exactly the folders reachable within the depth, each at its lowest depth; nothing outside of the folder without links; every search ends (liveness under fairness).", oracle="the list returned by FindFilesMaxDepth, and the files rendered by `gotemplate run` with `--source`, `--patterns`, `-r`/`-R`, `-f`, `--exclude` and explicit files (each file prints its identity)", bounds="all trees of up to 3 folders (4 in thorough) with up to 2 links, every starting folder, depth and link option; random trees of up to 14 folders, 24 files and 8 links with special characters in all names, searched directly or through a link", why="what is found depends on the whole graph of folders and links and on the characters of their names", limits="names with commas are not used (separator of patterns); explicit files through links inside of the source are not given"),
 "C12": dict(spec="`Context.tla`: files (dictionaries, other values, unreadable, missing) and the standard input in a format, options written in any order, loaded one at a time in the documented order. Laws: the run fails exactly when an option stops it, nothing else than what is given is in the context, the last variable wins.", oracle="the context printed by a template (`toJson .`), the exit code and the absence of output after an import error, for the real command", bounds="all command lines of 1 and 2 options (11028, 1200 executed in quick), random ones up to 12 options with random contents (JSON, YAML, HCL), types and ignore options", why="what a key holds depends on the whole sequence of options, the format of the files and their existence", limits="values are taken from a list of 16 texts; an empty standard input is not specified; a single dash must be written `--import=-`"),
 "C13": dict(spec="`Scope.tla`: callable units (templates defined by the content or an extension, files, texts, aliases, local aliases, functions) with bodies of reads (safe, plain, list of the values, ARGS), assignments (of values and inside of a shared dictionary), calls (conditional, repeated, with a dictionary, positional values, the context or nothing) and a main body, executed one statement at a time on a stack of renderings, each with its context in a heap of contexts. Laws: a rendering only changes its own context, the initial one is never altered, two renderings share a context only through the action `template`.", oracle="the same program (definitions in the content, extension, files, texts) evaluated by ProcessContent: the text, the failure for an undefined value, and the context of the caller afterwards", bounds="all programs of one unit with two statements, each kind of unit and form of call; random programs up to 6 units of 6 statements", why="leaks between contexts need a sequence of calls and assignments", limits="an alias with default arguments followed by a dictionary and the value `_` are not specified; aliases are not called by aliases, functions nor extension templates"),
 "C22": dict(spec="`Options.tla`: options are switched on and off from the defaults or from nothing, then the table of functions is built add-on by add-on (catalog of the 590 names in `Catalog.tla`), extended by the definitions of an extension, and built again for the contexts of other folders. Laws: the table is exactly the union of what is on with the last provider winning; only the last switch of an option matters; aliases come with their function.", oracle="for each set of options, every name of the catalog is probed (parsed) in contents of several folders and called when it is deterministic and harmless: the result must be the one of its provider alone (an alias: of its function); lists given by allFunctions, functions, aliases and `gotemplate list` with the flags; razor and extension probes", bounds="sets of options: each add-on alone, all but each, and random sequences of switches", why="2048 sets of options; the existing tests only use the default one", limits="user definitions that take the name of an existing function are not specified"),
 "C18": dict(spec="`Concurrent.tla`: threads that create templates (tables of functions built under a lock, extensions) and evaluate contents (conversion of razor, parsing, execution, nested conversions), one transition per critical section. Laws: the shared tables are only changed by the holder of their lock, every operation ends (liveness under fairness, so no deadlock), and what an operation gives is a function of the template of its thread alone, whatever begins or ends meanwhile.", oracle="begin/end histories of TLC (3 to 8 threads) imposed on goroutines of a race-instrumented driver, and left to run freely with repetitions: result of each of the 22 kinds of contents (value of the context, razor, assignments, nested templates, aliases, extensions, substitutions, custom delimiters, errors, data conversions, descriptions of functions…) as given by the model, messages of errors that only concern their content, no report of the race detector, no crash, no block", bounds="2 threads of 2 operations exhaustively (3 in thorough); 160 random histories (1600 in thorough), each run twice", why="interleavings", limits="the same template used by several goroutines, and the helpers of collections changed while templates are evaluated, are not claimed; the schedule inside of an operation is the one of the Go scheduler"),
 "C20": dict(spec="`Command.tla`: a run as phases (command line, source, imports, creation, search, each content with its temporary script or formatted file, cleanup), with every way to end early. Laws: no temporary file exists at the end; the exit code is given by a declarative condition on the command line and the contents; what is printed and written is exactly, in order and once, what the contents that succeed before a possible exit give.", oracle="the real command run on each random run of TLC in scratch folders (work, TMPDIR with foreign files, HOME): exit code, standard output, tree of the three folders before and after", bounds="120 command lines × up to 2 contents of 5 kinds in 4 ways exhaustively in the model (3 in thorough); 2400 random runs up to 7 contents of 19 kinds on the code (24000 in thorough)", why="combinations of options, failures and early ends", limits="signals, an empty piped standard input, and what --help and list print are not specified"),
 "C21": dict(spec="`Data.tla`: a value is built from scalars, lists and dictionaries, then goes through steps: written by a printer of a format and read by the reader of the format (or the one that guesses it), printed by its implementation, made native, put in or taken out of another value, changed. `Keep` gives what a format keeps: everything for JSON and YAML; HCL replaces a list of only one dictionary by it. Laws: without changes the value is the initial one unwrapped once per HCL step; values without single dictionaries are kept by every format; nothing else (strings, keys) is lost.", oracle="each behaviour as a template on a context (native or of an implementation) for each default implementation: the final value printed by toJson (checked on its own by the behaviours without a step) is the one of the model; for a sample of values, files of 11 names and formats, the standard input and a variable imported by the real command give the value", bounds="47616 behaviours exhaustively (values of three operations on small atoms, one step); 7400 random ones over 100 strings chosen to be ambiguous in a format, 26 numbers at the limits, 32 keys (140000 in thorough)", why="the strings that break a format are not the ones of the tests", limits="nulls (read as empty dictionaries), HCL strings with quotes or escapes inside ${}, HCL keys that differ only by case, JSON read by the HCL library, multi-line YAML keys that start with white space, toBash"),
 "C23": dict(spec="`Math.tla`: a machine with one register (a number counted in quarters, a list of numbers or a text); a step applies one of 30 operations to the register and other operands, on the left or on the right, and the result becomes the register; errors end the behaviour. Laws on the results: operands of commutative operations can be exchanged, division and remainder rebuild the dividend with the right sign, rounding is within one unit on the right side, the parts of modf add up, the identities between and, or, xor and clear, a right shift undoes a left shift and is the floor of the division, the average is between the extremes, an operation on a list is the operation on its elements.", oracle="each behaviour as a template (variables assigned at each step, calls nested in each other, pipes; names and aliases at random; numbers as literals, decimals, texts, values of a context of each implementation; each default implementation): JSON of the result of every step, integers printed as integers, errors exactly where the model has one. Behaviours whose operations commute with a multiplication by a power of two are also run multiplied by up to 2^34, to go beyond 32 bits", bounds="all operations on all pairs of 12 numbers, lists of two and a text; 18000 random behaviours of up to 6 operations on 300 numbers (240000 in thorough)", why="combinations of types, signs, lists and sizes are not sampled by the tests", limits="results that are not exact (transcendental functions, quotients that are not multiples of 1/4), integers beyond 2^53 (computed as floats), lists of one element (handled as their element), `add` of a number and a list in this order, modulo by zero (NaN)"),
 "C24": dict(spec="`Text.tla`: a machine with one register (a text, that is a sequence of characters, or a list of texts) built character by character, then transformed by 33 operations with texts, lists and numbers as arguments, and possibly ended in a content by one of the autoWrap forms or autoIndent. Laws: split and join are inverse, indenting adds its text in front of every line, removing the indentation can be undone, centering and wrapping keep the text and the words, identifiers contain only valid characters or the replacement and are stable, lengths of lists, selected contexts have as many opening as closing brackets, trimming is stable.", oracle="each behaviour as a template over values of the context (names, aliases, pipes, functions and methods of String at random; each implementation as default and as context): JSON of the result of each step, or the whole rendered content", bounds="all texts of 3 characters of 5 with all single operations; 12500 random texts (200000 in thorough) of up to 24 groups of 26 characters with chains of up to 5 operations", why="what is handled by regular expressions and formats depends on the characters of the text", limits="center and wrap (the functions) drop the final new lines and interpret `%`, the methods do not; the methods of String give objects which are converted for the functions; mergeList only takes generic lists; the `<` form of autoWrap needs the default context; a backtick or another expression on the line of autoIndent and autoWrap; wrap puts the indentation on the last line (pinned by a test)"),
 "C25": dict(spec="`Disk.tla`: the state is a tree of folders, files (text, mode) and symbolic links; the resolution of a path gives the real node, a missing node or a wrong path (loop, file used as a folder); queries, searches by patterns, writes and copies are the actions. Laws: every node is in a folder, what is saved is what is read, a copy has the same content, what is found exists, and (action property) saving adds at most a file and its folder, changes at most one file, never removes, replaces or changes the mode of anything.", oracle="each behaviour is a sequence of templates evaluated one after the other in a scratch folder (names and aliases, pipes, paths spelled in several ways by joinPath and print, texts as literals or values of each implementation of context): result or error of each call, then the whole tree on the disk compared with the final state of the model", bounds="all trees of two nodes on two names with all single operations (12000 of them executed in quick); 6000 random behaviours (32000 in thorough) of 12 operations on trees of up to 14 nodes with five names", why="the answer depends on the kind of every node along the path, and the effect on what exists before", limits="lastMod, user functions and lookPath (they depend on the machine); permissions refused by the system (checks run as root); saving an empty list; files larger than a few bytes; names with characters of patterns"),
}
