#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the statements are maintained here)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "A processed file ends in exactly the documented place with the rendered content",
 "Processing a template file (.gt/.template) or a matched ordinary file writes exactly the rendered content at exactly one place: next to the source with '.generated' inserted before the extension for a template, in place with the previous content kept in FILE.original for an ordinary file, in place of the source in overwrite mode (a template source is removed), at the same relative path under the target folder when one is given, or on the standard output only in print mode. A newly created result has the permissions of its source (0755 when the result is a script starting with #!). When rendering does not change the content nothing is created, and no other file is created, changed or removed.",
 ["inputs", "configurations"], "every combination of file kind, name, content, permission, overwrite/print/target option and pre-existing destination file",
 "main_test.go does not run the file pipeline at all and template tests only look at a handful of result names; the cross product of kinds, options and contents is never enumerated.",
 ["template/template_handler.go", "template/template_process.go", "main.go"],
 [("processTemplate", "template/template_handler.go"), ("printResult", "template/template_process.go"), ("overwrite/target defaults", "main.go runGotemplate")],
 ["file tree after running the gotemplate command", "standard output"])

prop("C02", "An interrupted or failed write never loses a source file",
 "If processing is killed at any point, or any file operation fails (no space, permission), the original content of every ordinary file still exists at its path or at FILE.original when not in overwrite mode, and a template source still exists unless its complete result has been written. With a distinct target folder the source tree is never modified, whatever fails. A failure to write a result is reported by a non-zero exit code and the remaining files are still processed.",
 ["crash_points", "fault_sequences", "configurations"], "every point between two file-system operations of a run, and every single failing file-system operation, for every combination of options",
 "No existing test injects a failure or kills the process; the ordering of rename, write and remove is never observed.",
 ["template/template_handler.go"],
 [("rename to .original before writing, remove the template only after writing", "template/template_handler.go processTemplate")],
 ["file-system call sequence of the gotemplate command", "file tree left by a killed run"])

prop("C03", "A batch processes every file once, independently and in order",
 "Processing several files processes each listed file exactly once in the given order, and the outcome of each one (result, destination, error) is what it would be if it were processed alone with the same initial context and options; what one file sets in the context, or options it switches, is not visible to the next (named templates, aliases and functions defined by a file are deliberately shared with the following files of the same folder). A file that fails does not prevent the others from being processed; the list of produced files contains exactly the files written and every failure is part of the returned error.",
 ["histories", "inputs"], "every sequence of files (succeeding, failing, unchanged, context-altering, option-altering, repeated) of any length",
 "Existing tests process a single content at a time; isolation between successive files is a property of every sequence.",
 ["template/template_handler.go", "template/template.go", "main.go"],
 [("context cloned for each evaluation, print option restored", "template/template_handler.go"), ("errors.Array aggregation", "ProcessTemplatesWithHandler")],
 ["returned files and error of ProcessTemplates", "file tree", "exit code"])

prop("C04", "Template errors are all reported, or the file is left untouched",
 "Evaluating any template terminates; when it contains faulty lines (parsing, execution or user raised errors) in a template file (.gt, .gte, .template), in strict mode or with an explicit 'force-gotemplate!' marker, every faulty line is reported with its own line number (unless the report itself says that a misplaced keyword prevents to continue), nothing is reported for correct lines, nothing is written and the exit code is non-zero. In any other file the error is only logged, the file keeps exactly its original content and the exit code stays 0. The recovery starts again from the initial context, so that assignments are not accumulated, and never alters the context of the caller.",
 ["inputs", "programs", "configurations"], "every sequence of correct and faulty lines, every file extension, strictness flag and marker",
 "Tests cover isolated single-error samples; the retry loop behaviour depends on the sequence of errors in the file.",
 ["template/template_error_handler.go", "template/template_handler.go"],
 [("errorHandler.Handler retry loop", "template/template_error_handler.go"), ("strictness policy", "template/template_handler.go processContentInternal")],
 ["error returned by ProcessContent", "exit code, file tree and standard error of the command"])

prop("C05", "Undefined values are never rendered silently",
 "Unless no-value is accepted, a rendering that would output an undefined (<no value>) or nil (<nil>) value fails with an error, whereas the texts '<no value>' and '<nil>' that are literally part of the source are preserved and never reported. When no-value is accepted such values are rendered as they are without error. A value protected by undef/default or tested by isNil/isSet/isEmpty is not reported.",
 ["inputs", "programs", "configurations"], "every mix of undefined, nil, defined, protected values and literal markers",
 "Tests sample a few lines; detection is a property of every combination of markers, literals and options.",
 ["template/template_handler.go", "template/template_error_handler.go"],
 [("no-value substitution and count", "template/template_handler.go processContentInternal"), ("undef regular expressions", "template/template_error_handler.go")],
 ["result and error of ProcessContent"])

prop("C06", "Text that is not template code is preserved verbatim",
 "Every character outside template expressions is rendered unchanged (a razor expression which is not ended by ';' may extend to the end of its line, and razor expressions within a multi-line `raw string` are text): doubled razor delimiters give a single one, e-mail addresses, ignored razor expressions, commented code aside, paused sections (razor-pause!/gotemplate-pause! until the matching resume) and files marked no-razor!/no-gotemplate! keep their delimiters. Outside paused sections the same text is evaluated normally, whatever precedes it. With rendering disabled only the razor conversion is applied. With custom delimiters the default ones are ordinary text.",
 ["inputs"], "every sequence of lines mixing plain text, delimiters, markers and expressions, and every set of delimiters",
 "Tests check individual regular expressions on one sample; pausing is a state machine over all lines of the file.",
 ["template/template_handler.go", "template/razor.go", "template/template.go"],
 [("pause/resume replacement", "template/template_handler.go"), ("literal replacements", "template/razor.go expressions"), ("IsCode/IsRazor", "template/template.go")],
 ["result of ProcessContent"])

prop("C07", "Razor, Go template and custom delimiter forms of a program are equivalent",
 "A program built from expressions (literals, variables, operators with Go precedence and parentheses, function calls, indexing and slicing), assignments, if/else if/else, range with else, with, and nested blocks gives the result defined by its meaning, whether it is written in razor syntax (whatever the spacing, operator synonyms and redundant parentheses), in Go template syntax, or in either one with custom delimiters. The context is a dictionary of values.",
 ["programs"], "every well-formed program of the supported constructs",
 "Tests compare razor text to its translation for fixed samples; they do not evaluate composed programs nor compare the forms.",
 ["template/razor.go", "template/razor_expr.go", "template/razor_repl_expr.go"],
 [("expression parser over go/ast", "template/razor_expr.go"), ("ordered regular expressions", "template/razor.go")],
 ["result of ProcessContent"])

prop("C08", "Assignments follow the declare/assign/combine rules",
 "@v := e sets the global v, @v = e changes it, @v op= e combines the previous value with e; the same holds for the members of the dot and of dictionaries, and @$v or @{v} forms act on local variables within their block; the value read afterwards is always the last one assigned. With strict validation, = or op= on a missing global (or on a missing member of a global or of the dot) is an error given at its line; in warning mode and when validation is off, the same program succeeds with the same values. Assignments made while rendering never alter the context object given by the caller.",
 ["programs", "histories", "configurations"], "every sequence of assignments and reads on any set of variables, in the three validation modes",
 "Tests check the translation text of one assignment at a time, not sequences and their values.",
 ["template/razor_repl_assign.go", "template/template_handler.go"],
 [("assignExpression", "template/razor_repl_assign.go"), ("assertWarning/assert generation", "template/razor_repl_assign.go")],
 ["result and error of ProcessContent", "context object after the call"])

prop("C09", "List operations return the specified list and leave their arguments intact",
 "append, prepend, reverse, unique, union, intersect, without, remove, pop, removeNil, removeEmpty, clone, get, find and contains return the list (or value) defined by sequence semantics, in order, first occurrence kept, for any list; every operation except Set inside the bounds returns a new list and leaves all existing lists and its arguments unchanged, even when the result is later altered. Set inside the bounds alters only the addressed list; beyond the end it returns an extended copy.",
 ["histories", "inputs"], "every sequence of list operations on shared lists",
 "Each existing test applies one operation to fresh data; sharing of storage only shows in sequences of operations over aliased lists.",
 ["collections/implementation/list_helper.go", "collections/implementation/base_helper.go", "template/extra_data.go"],
 [("ListHelper operations", "collections/implementation/list_helper.go")],
 ["value of every live list after each call"])

prop("C10", "Dictionary operations follow map semantics; merge and clone never leak",
 "set, add, get, has, default, delete, flush, pop, pick, omit, keys, values, transpose and merge have their documented map meaning, keys and values being returned in key order. Merging is recursive, the destination (then the first sources) keeps precedence, and sources are never altered; a clone, pick or omit result shares no mutable data with its source, at any depth, so later changes to one are never visible in the other.",
 ["histories", "inputs"], "every sequence of dictionary and list operations on shared nested structures",
 "Tests apply one operation to fresh data and compare the result; aliasing between nested structures needs histories.",
 ["collections/implementation/dict_helper.go", "template/extra_data.go", "utils/reflect.go"],
 [("Clone", "collections/implementation/dict_helper.go"), ("deepMerge", "collections/implementation/dict_helper.go"), ("MergeDictionaries", "utils/reflect.go")],
 ["value of every live object after each call"])

prop("C11", "JSON, YAML, HCL and generic collections behave identically",
 "Any sequence of list and dictionary operations gives the same values whichever implementation (generic, JSON, YAML, HCL) holds the data, mixing implementations in nested structures or arguments included, whether it is performed through the Go interfaces or through template functions. The type of a derived list or dictionary is the type of the object it derives from.",
 ["histories", "configurations"], "every sequence of operations and every implementation",
 "The generated tests check each implementation separately on a few samples.",
 ["collections/implementation/generic.go", "json/generated_impl.go", "yaml/generated_impl.go", "hcl/generated_impl.go"],
 [("generated implementations over shared helpers", "collections/implementation/generic.go")],
 ["value of every live object after each call, per implementation"])

prop("C12", "The context is built with the documented precedence",
 "The context of a run contains exactly the values of the --import-if-exist files, then --import files, then --var values, each later one replacing the top-level keys of earlier ones; --var accepts name=value, name=file (content loaded), a bare file name (named after the file) and structured values, and bare unnamed values are collected in order in ARGS. A value - stands for the standard input. A missing --import file is an error unless missing imports are ignored, a missing --import-if-exist file is ignored, a file that cannot be parsed is always an error, and no template is processed after an import error. The forced type (--type) changes none of the values.",
 ["inputs", "configurations"], "every sequence of existing/missing files of any format, named, unnamed and structured variables",
 "No existing test covers createContext.",
 ["context.go", "main.go", "collections/convert_data.go"],
 [("createContext", "context.go")],
 ["output of a template that dumps the context", "exit code"])

prop("C13", "Included templates, aliases and functions see exactly their own context",
 "A template defined by a content or an extension, a file or a text rendered through include sees the values of its caller at the time of the call, under those of the dictionary it is given (or with its positional arguments in ARGS, or the context itself); an alias sees the values of the content being evaluated with its default arguments followed by the supplied ones; a localAlias and a func see the values of the run in which they are defined, a func under its defaults, under its named arguments. Whatever one assigns, at any depth of the values, is not visible by its caller nor by the dictionaries given as arguments; it is executed exactly once per call, and successive, repeated or nested calls do not influence each other. Only the action template shares the context of its caller. The initial context of the run is never altered by a content, but an extension may enrich it, and what extensions define is available in all contents.",
 ["programs", "histories"], "every nesting and sequence of calls with every argument form",
 "Tests include one template at a time.",
 ["template/extra_runtime.go", "template/template.go", "template/template_handler.go"],
 [("runTemplate", "template/extra_runtime.go"), ("addAlias/func", "template/extra_runtime.go"), ("initExtension", "template/template.go")],
 ["result of ProcessContent", "context object after the call"])

prop("C14", "File discovery returns exactly the matching files, once",
 "Searching a folder (which may itself be a symbolic link) with a maximum depth returns exactly the files of the folder and of its sub folders down to that depth which match at least one pattern, each one once, whatever special characters folder names contain; folders are never returned as files. Links to folders are followed only on request, a folder then counts at the lowest depth at which it can be reached, and link cycles never prevent termination. Excluded patterns, relative to the source folder, remove exactly the matching files and a file that is both matched and given explicitly, by whatever path, is processed once.",
 ["inputs", "configurations"], "every directory tree, pattern set, depth and symbolic link graph",
 "Tests run on a fixed directory; trees with cycles, shared links or special characters are not covered.",
 ["utils/io.go", "utilities.go", "main.go"],
 [("FindFilesMaxDepth", "utils/io.go"), ("exclude", "utilities.go"), ("deduplication of the list", "main.go")],
 ["list returned by FindFilesMaxDepth", "files processed by the command"])

prop("C15", "Slicing and extraction select the specified elements",
 "slice with two bounds returns the elements between them (negative bounds count from the end, reversed bounds give the reversed section, bounds outside of the limits are clamped and never fail), slice or extract with one index returns that element, extract returns the listed elements in the listed order, on lists, strings and dictionaries (between two keys in key order). first, last, rest, initial, safeIndex and get agree with them and none alters its argument.",
 ["inputs"], "every length, bounds (inside, outside, negative, reversed) and container kind",
 "Tests sample about thirty combinations; the boundary cases form a larger product.",
 ["template/slice.go", "template/extra_data.go"],
 [("sliceInternal/sliceList/sliceMap", "template/slice.go")],
 ["value returned by the template functions"])

prop("C16", "Number ranges contain exactly the specified numbers",
 "until, to and their aliases return, for any start, stop and step with the direction inferred from the bounds, the arithmetic progression from start towards stop, excluding (until) or including (to) stop, always terminating. min, max, sum and average style functions over such lists agree with the numbers they contain.",
 ["inputs"], "every start, stop and step",
 "Tests sample a few calls.",
 ["template/math_utilities.go"],
 [("generateNumericArray", "template/math_utilities.go")],
 ["value returned by the template functions"])

prop("C17", "Substitutions are applied in order to source and result",
 "Each configured substitution (environment then command line) is applied in the given order to the whole text, before evaluation and to the result; a /regex/replacement/ expression replaces every match and a 'd' replacement deletes the match, removing the whole line when the expression ends with $. --remove-empty-lines leaves no blank line and changes nothing else; with no substitution the text is unchanged.",
 ["inputs", "configurations"], "every sequence of substitutions and every text",
 "Tests apply single expressions to single samples.",
 ["utils/substitute.go", "template/template_handler.go", "main.go"],
 [("InitReplacers/Substitute", "utils/substitute.go"), ("substitute calls", "template/template_handler.go")],
 ["result of ProcessContent", "output of the command"])

prop("C18", "Independent templates can be evaluated concurrently",
 "Several templates created and evaluated from different goroutines each give the same result as when they are evaluated alone, without data race, deadlock or leak of one template's context, functions, delimiters or text into another.",
 ["schedules", "histories"], "every interleaving of template creations and evaluations",
 "No existing test evaluates two templates concurrently.",
 ["template/razor.go", "template/template.go", "template/add_funcs.go", "template/template_handler.go"],
 [("razorMutex", "template/razor.go"), ("templateMutex", "template/template.go"), ("addFuncMutex", "template/add_funcs.go")],
 ["results of concurrent ProcessContent calls, race detector reports"])

prop("C19", "A custom handler sees and decides the outcome of each file",
 "When several files are processed with a handler, the handler is called exactly once per file that could be read, in order, with its name, its original content, the rendered result, whether it changed and the evaluation error; what the handler returns decides: a replaced result is what is written, an error makes the file fail, no error clears the failure, and reporting a change makes the file written. Files are then written (or not) accordingly.",
 ["histories", "inputs"], "every sequence of files and every handler decision",
 "No existing test uses a custom handler.",
 ["template/template_handler.go"],
 [("handler invocation", "template/template_handler.go processContentInternal")],
 ["arguments of the handler calls", "file tree", "returned files and error"])

prop("C20", "Every run exits with the right code and cleans up after itself",
 "The command exits with 0 exactly when everything succeeded: non-zero when the source folder or an import is missing (unless missing ones are ignored as asked), an import cannot be read, an option or its value is invalid, a file supplied as argument does not exist, or a content fails; a content may end the run with its own code (exit) or with an error (fatal). A failing content does not prevent the others from being processed. Code given as argument or through the standard input is rendered to the standard output exactly once, in order (blank results are not printed, the last line is terminated) and writes nothing; with --print nothing is written; the standard input is only used when it is piped and not disabled, or forced. Temporary files created for a run, including those of executed scripts, no longer exist after it ends, however it ends (normally, with an error, help, invalid command line, exit or fatal), and no other file is touched.",
 ["configurations", "inputs"], "every combination of inputs, options and failures",
 "main_test.go only runs the command with trivial options.",
 ["main.go", "utilities.go", "template/extra_runtime.go", "template/template_process.go", "template/template_handler.go", "utils/exec.go"],
 [("cleanup", "utilities.go"), ("exit codes", "main.go"), ("deferred removal of temporary scripts", "template/extra_runtime.go run")],
 ["exit code", "standard output", "content of TMPDIR", "files of the folders"])

prop("C21", "Structured data survives conversion to text and back",
 "For any nested structure of dictionaries, lists, strings, integers, floats and booleans, reading back what toJson or toYaml (and their pretty and quoted variants) produce gives an equal structure, whatever the number of conversions and the changes made between them; so does HCL (toHcl, toTFVars, toInternalHcl, pretty and quoted), except that a list which contains only one dictionary becomes this dictionary. The printed text of a collection can be read in the format of its implementation. The same data imported by the command from JSON, YAML or HCL files, the standard input or a variable gives the same values. Converting to native Go values and back changes nothing.",
 ["inputs"], "every structure built from the collection operations",
 "Tests convert a few fixed documents.",
 ["json/json.go", "yaml/yaml.go", "hcl/hcl.go", "collections/convert_data.go"],
 [("Marshal/Unmarshal", "json/json.go, yaml/yaml.go, hcl/hcl.go"), ("MarshalGo", "collections/convert_data.go")],
 ["value parsed back"])

prop("C23", "Arithmetic functions compute the exact result",
 "Whatever the numbers (integers, decimal numbers, numbers given as text or read from data) and the chain of calls, the arithmetic functions (add, sub, mul, div, mod, rem, modf, pow, pow10, exp2, ldexp, dim, abs, floor, ceil, trunc, int, sqrt, min, max, avg, their aliases) and the functions on bits (band, bor, bxor, bclear, lshift, rshift, hex, dec) give the mathematical result as long as it is representable, an integer result being an integer whatever its size: div and mod satisfy dividend = divisor * trunc(quotient) + remainder, rem is the smallest remainder, floor <= x < floor + 1, bits are those of two's complement. On a list, functions of one varying number apply to each element, the others (add, mul, min, max, avg) to the whole list; two lists are concatenated by add and multiplied element by element by mul; texts are concatenated by add and repeated by mul. A value that is not a number, a division by zero, bits of a number that is not an integer, a negative shift are errors, never results. The operands are never modified.",
 ["inputs"], "every chain of operations on every number",
 "Tests check a few literal operands of each function.",
 ["template/extra_math.go", "template/math_base.go", "template/math_bits.go", "template/math_stats.go", "template/math_utilities.go"],
 [("process, simplify, compareNumerics", "template/math_utilities.go"), ("add, multiply, divide, modulo", "template/math_base.go"), ("bits", "template/math_bits.go"), ("average", "template/math_stats.go")],
 ["rendered text", "JSON of the results", "error"])

prop("C24", "Functions on texts keep the characters they do not transform",
 "Whatever the characters of the texts (white space, new lines, quotes, percent and dollar signs, accents, characters of regular expressions), each function on texts changes only what it is about: splitLines and Lines cut at new lines only, so that joinLines gives the text back; join and split are inverse of each other; concat is the concatenation; indent, nIndent, sIndent and the Indent methods add their text at the beginning of each line and nothing else; UnIndent removes the indentation of the first line from all of them or changes nothing; center adds only spaces; wrap keeps the words and their order; id keeps letters, digits and underscores and replaces each run of other characters by one copy of the given text, whatever it is; AddLineNumber keeps the lines after their number; repeat, mergeList and formatList give the elements in order, each of them formatted without alteration; the Trim methods remove only what they are asked to, and the methods of string arrays are those of each string; find gives the positions of all the occurrences, contains whether there is one, lenc the number of characters; SelectWord gives the whole word around a position, whatever its letters, and SelectContext the innermost context, with balanced brackets, that contains it. In a content, autoWrap repeats the text around the expression for each element and autoIndent puts the text before it in front of each line, all other lines being unchanged.",
 ["inputs"], "every text and every chain of operations on it",
 "Tests use a few short texts with letters and spaces.",
 ["template/extra_utils.go", "collections/string.go", "collections/string_array.go", "utils/list.go", "template/razor.go"],
 [("formatList, joinLines, mergeList, splitLines, id, center, wrap, indent, nIndent, sIndent, formatList", "template/extra_utils.go"), ("IndentN, UnIndent, WrapString, CenterString, AddLineNumber, Lines", "collections/string.go"), ("autoWrap and autoIndent", "template/razor.go"), ("GetWordAtPosition, GetContextAtPosition, IndexAll", "collections/string.go"), ("apply", "collections/string_array.go")],
 ["rendered text", "JSON of the results", "error"])

prop("C25", "Functions on files describe the files and save only what they are given",
 "Whatever the tree of folders, files and symbolic links (also broken or in a loop) and the sequence of calls, the functions on files reflect what the path leads to at the time of the call: exists is true exactly when there is something, false when there is nothing; isDir, isFile, isReadable, isWriteable, isExecutable, mode, size and stat describe it and are errors when there is nothing; load gives the exact content of the file and is an error for a folder or a missing file; glob gives, for each argument in order, the sorted paths that match it, nothing when a pattern matches nothing and the argument itself when it is not a pattern. save writes exactly its object, so that load gives it back (and the bytes of a file loaded as binary are copied), replaces the whole content of an existing file and keeps its mode, creates the file and its folder if they are missing, is an error when it cannot, and never changes anything else in the tree.",
 ["histories", "inputs"], "every tree and every sequence of calls",
 "Tests call some of these functions on one existing file.",
 ["template/extra_os.go", "utils/io.go"],
 [("fileExists, fileMode, fileSize, isDir, isFile, isReadable, isWriteable, isExecutable, glob, loadFromFile, saveToFile", "template/extra_os.go"), ("GlobFuncTrim", "utils/io.go")],
 ["rendered text", "error", "tree of files after the calls"])

prop("C22", "Add-on options enable exactly their own functions",
 "Whatever the sequence of switches that leads to a set of options (through the API or the flags of the command), the functions available in a content, in any folder, are those of the base language and of the add-ons that are on, and no other; a name provided by several add-ons is the one of the last of them (Sprig, Math, Data, Logging, Runtime, Utils, Net, OS, Git); a function gives the same result whatever the other options are, and an alias is available with its function and gives the same results. Razor expressions are converted exactly when Razor is on; templates, aliases and functions of extension files are available exactly when Extension is on, and behave the same for any other options. The lists of functions (in templates and by the list command) are exactly the available ones.",
 ["configurations"], "every subset of the add-on options",
 "Tests always use the default options.",
 ["template/add_funcs.go", "template/func_table.go", "template/options.go", "template/template.go", "main.go"],
 [("addFuncs", "template/add_funcs.go"), ("AddFunctions aliases", "template/func_table.go"), ("GetNewContext", "template/template.go")],
 ["success or failure of an evaluation using the function", "result of calls", "list command"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
