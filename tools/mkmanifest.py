#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the table of claimed checks (lib/run.py AREAS)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from run import AREAS
TECH = {
    "heap": ("TLA+ heap model (Heap.tla) checked by TLC; TLC behaviours replayed on the real collections and template functions",
             "Histories of operations enumerated exhaustively up to two operations and drawn at random beyond; all live objects compared after each operation. Trusts the driver's interpretation of the atoms."),
    "pure": ("TLA+ models (Slices.tla, Ranges.tla) enumerated by TLC; every case evaluated by the real template functions",
             "Exhaustive within small bounds, random beyond."),
    "files": ("TLA+ model of the processing of a list of files as file-system operations with kills and failing operations (FileFlow.tla), checked by TLC; TLC behaviours run by the real command/API, and the trees left by faulty real runs judged by TLC (FileFlowObs.tla)",
             "Single files enumerated over options, kinds, contents, modes and existing destinations; lists of files random. Faults are injected at every mutating system call of the real command with a ptrace tracer."),
    "errors": ("TLA+ model of the error recovery (attempts, faults in parsing then execution order, policy, undefined values; Errors.tla) checked by TLC; TLC behaviours evaluated by ProcessContent and by the command",
             "Sequences of up to 3 (quick) or 4 (thorough) lines over the classes exhaustively, up to 16 lines at random with nested blocks; arbitrary texts for termination and policy."),
    "razor": ("TLA+ semantics of the template language (Razor.tla): programs written and executed by the model, explored by TLC; each is printed in razor and in Go template syntax and evaluated by ProcessContent with several delimiters",
              "All single expressions of depth 2 and all pairs of assignments; random expressions of depth 4 and random programs up to 24 lines with nested blocks."),
    "C14": ("TLA+ model of the search of files (Find.tla: safety and termination) checked by TLC; TLC trees and searches executed by FindFilesMaxDepth and by the real command",
            "All trees up to 3 (quick) or 4 (thorough) folders with 2 links exhaustively, random ones up to 14 folders. Names have no comma, which the command takes as a separator of patterns."),
    "C13": ("TLA+ model of contents calling templates, files, texts, aliases and functions on a stack of contexts (Scope.tla) checked by TLC; TLC programs evaluated by ProcessContent with extension files",
            "All programs of one unit of two statements called in each way; random programs of up to 6 units calling each other. Units called by aliases and functions do not call aliases (not known there)."),
    "C23": ("TLA+ model of the arithmetic functions as a register machine on exact numbers (Math.tla), algebraic laws checked by TLC; TLC behaviours evaluated by the template functions",
            "All operations on all pairs of a set of numbers and lists (and chains of two in the model in thorough); random chains of up to 6 operations, also multiplied by a power of two up to 2^34. Inexact results (transcendental functions, decimals that are not multiples of 1/4) and integers beyond 2^53 are not specified."),
    "C24": ("TLA+ model of the functions on texts as a register machine on sequences of characters (Text.tla), laws checked by TLC; TLC behaviours evaluated by the template functions and the methods of strings",
            "All texts of 3 characters with each of 33 operations (4 characters, and chains of two operations, in the model in thorough); random texts of up to 24 groups of characters and chains of up to 5 operations with the autoWrap and autoIndent forms. Words, letters and digits are those of a small alphabet with accents and symbols."),
    "C25": ("TLA+ model of a tree of folders, files and links, of the resolution of paths and of the functions on files (Disk.tla), invariants and frame property checked by TLC; TLC behaviours replayed by templates in scratch folders",
            "All trees of 2 nodes (3 in the model in thorough) on two names with each single operation, part of them executed; random trees of up to 14 nodes with sequences of 12 operations. Run as root: permissions are only looked at through the modes."),
    "C22": ("TLA+ model of the switches of the options and of the building of the table of functions from a catalog (Options.tla, Catalog.tla) checked by TLC; for sets of options reached by TLC every name is probed and called in the real templates, and listed by the real command",
            "All sequences of 2 single switches (and all sets of options in thorough) in the model; 100 to 500 sets of options on the code, each with all the 590 names. Functions with effects, random or using the network are probed but not called."),
    "C18": ("TLA+ model of threads creating and evaluating their own templates under the locks of the shared tables (Concurrent.tla), safety and liveness checked by TLC; histories of TLC imposed on goroutines of a race-instrumented driver",
            "2 threads exhaustively in the model; random histories of 3 to 8 threads on the code, with the race detector. Not claimed for a template shared by goroutines."),
    "C20": ("TLA+ model of a run of the command and of its temporary files (Command.tla) checked by TLC; runs drawn by TLC executed by the real command in scratch folders",
            "Exhaustive for command lines of one option family with up to 2 contents in the model; 2400 random runs on the code. Signals are not covered."),
    "C21": ("TLA+ model of values written and read in each format, changed in between (Data.tla) checked by TLC; TLC behaviours evaluated by the template functions, and the values imported by the real command",
            "All values of three building operations with one step exhaustively (two steps in the model in thorough), random values of up to 9 operations with up to 6 steps. Outside the model: nulls, HCL strings with quotes or escapes inside ${}, HCL keys that differ only by the case, JSON read as HCL, multi-line keys that start with white space in YAML."),
    "C12": ("TLA+ model of the loading of the options (Context.tla) checked by TLC; TLC behaviours run by the real command",
            "All command lines of one or two options on a fixed set of files (sampled for execution in quick); random ones up to 12 options with random files and formats."),
    "text": ("TLA+ model of texts (Subst.tla, Literal.tla) explored by TLC; behaviours replayed on ProcessContent and on the command",
             "Exhaustive for short texts, random for longer ones."),
}
def load():
    p = os.path.join(V, "tools", "tech.json")
    if os.path.exists(p):
        TECH.update({k: tuple(v) for k, v in json.load(open(p)).items()})
load()
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in AREAS:
        t = TECH.get(pid) or TECH[AREAS[pid]]
        checks.append(dict(property=pid, quick_cmd="./check.sh %s quick" % pid, thorough_cmd="./check.sh %s thorough" % pid,
                           technique=t[0], level="model_checking", level_note=t[1]))
    else:
        na.append(dict(property=pid, reason="no check has been completed for this property yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="See DESIGN.md. No hooks: the checks drive the command and the public Go API only (an overlay adds the driver at build time).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
