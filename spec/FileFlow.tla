------------------------------- MODULE FileFlow -----------------------------
(***************************************************************************)
(* Processing of a list of files by one run of gotemplate: every file is   *)
(* read and evaluated, then its result is written by successive            *)
(* file-system operations (folder creation, rename to .original, creation  *)
(* or truncation, writing, removal of the template). The process may be    *)
(* killed between any two operations and one operation may fail.           *)
(*                                                                         *)
(* A file system maps paths to [c: content, m: mode]. The contents are     *)
(* tokens: "S<i>" source of file i, "R<i>" its rendering, "P<i>" a part of *)
(* it (possibly empty), "O" something that existed before.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFiles,      \* files in the list
          Exts, Kinds, Classes, Modes, Dirs, Names,
          OptSet,        \* set of option records [o: overwrite, p: print, t: distinct target, s: strict]
          Handlers,      \* decisions of a custom handler ("none": no handler is installed)
          MaxFaults,     \* operations that fail (0 or 1)
          Sim, Emit

VARIABLES files,   \* the files of the list, in order
          opts,
          fs,      \* path -> [c, m]
          init,    \* the initial file system
          pc, i,   \* current file and phase
          todo,    \* remaining operations of the current file
          out,     \* what was printed: sequence of tokens
          done,    \* paths produced, in order
          bad,     \* files that failed (set of indexes)
          calls,   \* calls of the handler
          faults   \* operations that failed: sequence of [i, op]
vars == <<files, opts, fs, init, pc, i, todo, out, done, bad, calls, faults>>

Some(T) == IF Sim THEN {RandomElement(T)} ELSE T
-----------------------------------------------------------------------------
(* Files *)
\* k: kind (.gt template, .template template, plain file), e: extension, cls: class of the content,
\* m: mode, d: folder, n: name, dest: a file exists at the destination, orig: a .original exists,
\* h: decision of the handler
Suffix(f) == CASE f.k = "gt" -> ".gt" [] f.k = "template" -> ".template" [] OTHER -> ""
IsTemplate(f) == f.k # "plain"
Base(f) == f.d \o f.n
Src(f) == Base(f) \o f.e \o Suffix(f)
Orig(f) == Src(f) \o ".original"
InTarget(o) == IF o.t THEN "target/" ELSE ""
\* with a distinct target, overwriting is the default
Over(o) == o.o \/ o.t
Dest(f, o) == InTarget(o) \o (IF IsTemplate(f) /\ ~Over(o) THEN Base(f) \o ".generated" \o f.e ELSE Base(f) \o f.e)

\* Classes of contents
\*   code: rendered to another text       plain: no code, unchanged    empty: rendered to an empty text
\*   blank: rendered to blanks            script: rendered to a script (#!)
\*   shebang: #! gotemplate, printed      error, novalue: faulty       marked: faulty with a gotemplate! marker
\*   set, rset: assign in the context     get: prints "clean" unless another file altered the context
Faulty(cls) == cls \in {"error", "novalue", "marked"}
Changed(cls) == cls # "plain"
Reported(f, o) == IsTemplate(f) \/ o.s \/ f.cls = "marked"

S(j) == "S" \o ToString(j)
R(j) == "R" \o ToString(j)
P(j) == "P" \o ToString(j)
H(j) == "H" \o ToString(j)       \* replacement made by the handler

File == [k : Kinds, e : Exts, cls : Classes, m : Modes, d : Dirs, n : Names, dest : BOOLEAN, orig : BOOLEAN, h : Handlers]
\* combinations that make a difference
Useful(f, o) == /\ f.orig => (f.k = "plain" /\ ~o.o /\ ~o.t)
                /\ f.dest => (Dest(f, o) # Src(f))
                /\ (f.n = "g.h" => f.e # "")         \* (.h would be its extension)
                /\ (f.e = ".tf" => f.cls \in {"code", "plain"})
                /\ (f.m # 420 => f.cls \in {"code", "script", "plain"})
                /\ (f.cls = "shebang" => f.h = "none")

\* the nearest useful file (random lists)
Usable(f, o) ==
  LET g == IF f.n = "g.h" /\ f.e = "" THEN [f EXCEPT !.n = "f1"] ELSE f
      a == IF g.e = ".tf" /\ g.cls \notin {"code", "plain"} THEN [g EXCEPT !.cls = IF "code" \in Classes THEN "code" ELSE "plain"] ELSE g
      b == IF a.cls \notin {"code", "script", "plain"} THEN [a EXCEPT !.m = 420] ELSE a
      c == IF b.cls = "shebang" THEN [b EXCEPT !.h = "none"] ELSE b
      d == IF c.k = "plain" /\ ~o.o /\ ~o.t THEN c ELSE [c EXCEPT !.orig = FALSE]
  IN  IF Dest(d, o) = Src(d) THEN [d EXCEPT !.dest = FALSE] ELSE d

-----------------------------------------------------------------------------
(* File system *)
Has(h, p) == p \in DOMAIN h
Set(h, p, c, m) == (p :> [c |-> c, m |-> m]) @@ h
Del(h, p) == [q \in DOMAIN h \ {p} |-> h[q]]
\* writing keeps the mode of an existing file
Create(h, p, c, m) == Set(h, p, c, IF Has(h, p) THEN h[p].m ELSE m)

Init == /\ files = <<>> /\ opts \in OptSet
        /\ fs = [q \in {"bystander.txt", "bystander.gt.bak"} |-> [c |-> "B", m |-> 420]]
        /\ init = <<>> /\ pc = "list" /\ i = 0 /\ todo = <<>> /\ out = <<>> /\ done = <<>> /\ bad = {} /\ calls = <<>> /\ faults = <<>>

Addable(f) ==
  /\ Useful(f, opts)
  /\ \A j \in 1..Len(files) : Src(files[j]) # Src(f)
  \* a file of the list is not the destination or the backup of another one: their order would matter
  /\ \A j \in 1..Len(files) : /\ Dest(files[j], opts) \notin {Dest(f, opts), Src(f), Orig(f)}
                              /\ Dest(f, opts) \notin {Src(files[j]), Orig(files[j])}
AddFile(f) ==
  /\ files' = Append(files, f)
  /\ LET n == Len(files) + 1
         a == Set(fs, Src(f), S(n), f.m)
         b == IF f.dest THEN Set(a, Dest(f, opts), "O" \o ToString(n), 416) ELSE a
         c == IF f.orig THEN Set(b, Orig(f), "Q" \o ToString(n), 416) ELSE b
     IN  fs' = c

List == /\ pc = "list" /\ Len(files) < MaxFiles
        /\ IF Sim
           THEN \E k \in Some(Kinds), e \in Some(Exts), cls \in Some(Classes), m \in Some(Modes), d \in Some(Dirs),
                   n \in Some(Names), dest, orig \in Some(BOOLEAN), h \in Some(Handlers) :
                   \E ff \in {Usable([k |-> k, e |-> e, cls |-> cls, m |-> m, d |-> d, n |-> n, dest |-> dest, orig |-> orig, h |-> h], opts)} :
                     IF Addable(ff) THEN AddFile(ff) ELSE UNCHANGED <<files, fs>>
           ELSE \E ff \in File : Addable(ff) /\ AddFile(ff)
        /\ UNCHANGED <<opts, init, pc, i, todo, out, done, bad, calls, faults>>
Start == /\ pc = "list" /\ files # <<>> /\ (Sim => RandomElement(1..MaxFiles) = 1 \/ Len(files) = MaxFiles)
         /\ pc' = "file" /\ i' = 1 /\ init' = fs
         /\ UNCHANGED <<files, opts, fs, todo, out, done, bad, calls, faults>>

f == files[i]
NextFile == IF i < Len(files) THEN pc' = "file" /\ i' = i + 1 ELSE pc' = "end" /\ i' = i

\* Evaluation of the current file: status ("ok" or "failed", after the recovery policy), result and whether it changed
Status(g) == IF Faulty(g.cls) THEN (IF Reported(g, opts) THEN "failed" ELSE "ok") ELSE "ok"
Result(j) == LET g == files[j] IN
             IF Faulty(g.cls) THEN S(j) ELSE IF g.cls = "plain" THEN S(j) ELSE R(j)
IsChanged(g) == Changed(g.cls) /\ ~Faulty(g.cls)
\* The handler receives the outcome and decides the final one
HStatus(g, st) == CASE g.h \in {"fail"} -> "failed" [] g.h \in {"clear", "replace"} -> "ok" [] OTHER -> st
HResult(j) == IF files[j].h = "replace" THEN H(j) ELSE IF files[j].h = "clear" /\ Status(files[j]) = "failed" THEN H(j) ELSE Result(j)
HChanged(g) == IF g.h \in {"replace", "clear", "touch"} THEN TRUE ELSE IsChanged(g)

\* The operations that write a result, in order
Ops(g, r) ==
  LET dst == Dest(g, opts) IN
  (IF opts.t THEN <<[op |-> "mkdir", p |-> dst]>> ELSE <<>>)
  \o (IF ~opts.t /\ ~IsTemplate(g) /\ ~opts.o THEN <<[op |-> "rename", p |-> Src(g)]>> ELSE <<>>)
  \o <<[op |-> "open", p |-> dst], [op |-> "write", p |-> dst]>>
  \o (IF IsTemplate(g) /\ opts.o /\ ~opts.t THEN <<[op |-> "unlink", p |-> Src(g)]>> ELSE <<>>)

IsBlank(j, r) == files[j].cls \in {"empty", "blank"} /\ r = R(j)
Evaluate ==
  /\ pc = "file"
  /\ LET st == Status(f)
         fst == IF f.h = "none" THEN st ELSE HStatus(f, st)
         r == IF f.h = "none" THEN Result(i) ELSE HResult(i)
         ch == IF f.h = "none" THEN IsChanged(f) ELSE HChanged(f)
     IN
     /\ calls' = IF f.h = "none" THEN calls ELSE Append(calls, [i |-> i, st |-> st, r |-> (IF st = "failed" THEN "-" ELSE Result(i)), ch |-> IsChanged(f)])
     /\ IF fst = "failed" THEN /\ bad' = bad \cup {i} /\ NextFile /\ UNCHANGED <<todo, out, done>>
        ELSE /\ bad' = bad
             /\ IF IsTemplate(f) /\ f.e = "" /\ IsBlank(i, r) THEN NextFile /\ UNCHANGED <<todo, out, done>>
                ELSE IF opts.p \/ f.cls = "shebang" THEN out' = Append(out, r) /\ NextFile /\ UNCHANGED <<todo, done>>
                ELSE IF ~opts.t /\ ~ch THEN NextFile /\ UNCHANGED <<todo, out, done>>
                ELSE todo' = Ops(f, r) /\ pc' = "ops" /\ UNCHANGED <<i, out, done>>
  /\ UNCHANGED <<files, opts, fs, init, faults>>

CurResult == IF f.h = "none" THEN Result(i) ELSE HResult(i)
ModeFor == IF f.cls = "script" /\ CurResult = R(i) THEN 493 ELSE f.m
Effect(o, h) ==
  CASE o.op = "mkdir" -> h
    [] o.op = "rename" -> Del(Set(h, Orig(f), h[o.p].c, h[o.p].m), o.p)
    [] o.op = "open" -> Create(h, o.p, P(i), ModeFor)
    [] o.op = "write" -> Set(h, o.p, CurResult, h[o.p].m)
    [] o.op = "unlink" -> Del(h, o.p)
Operate == /\ pc = "ops" /\ todo # <<>>
           /\ fs' = Effect(todo[1], fs)
           /\ todo' = Tail(todo)
           /\ IF Tail(todo) = <<>> THEN done' = Append(done, Dest(f, opts)) /\ NextFile ELSE UNCHANGED <<pc, i, done>>
           /\ UNCHANGED <<files, opts, init, out, bad, calls, faults>>
\* an operation fails: the file fails, the next ones are processed
Fault == /\ pc = "ops" /\ todo # <<>> /\ Len(faults) < MaxFaults
         /\ faults' = Append(faults, [i |-> i, op |-> todo[1].op])
         /\ todo' = <<>> /\ NextFile
         /\ bad' = IF todo[1].op = "unlink" THEN bad ELSE bad \cup {i}
         /\ done' = IF todo[1].op = "unlink" THEN Append(done, Dest(f, opts)) ELSE done
         /\ UNCHANGED <<files, opts, fs, init, out, calls>>
\* the process is killed
Kill == /\ pc \in {"file", "ops"} /\ MaxFaults > 0
        /\ pc' = "killed"
        /\ UNCHANGED <<files, opts, fs, init, i, todo, out, done, bad, calls, faults>>
Next == List \/ Start \/ Evaluate \/ Operate \/ Fault \/ Kill
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
Running == pc # "list"
\* the rendering that the whole run is expected to leave for file j
Complete(j, h) == LET g == files[j] IN
  Has(h, Dest(g, opts)) /\ h[Dest(g, opts)].c = (IF g.h = "none" THEN Result(j) ELSE HResult(j))
\* a source is never lost (C02)
Safe(j, h) ==
  LET g == files[j] IN
  IF opts.t THEN Has(h, Src(g)) /\ h[Src(g)] = init[Src(g)]
  ELSE IF IsTemplate(g) THEN (Has(h, Src(g)) /\ h[Src(g)].c = S(j)) \/ Complete(j, h)
  ELSE ~opts.o => (Has(h, Src(g)) /\ h[Src(g)].c = S(j)) \/ (Has(h, Orig(g)) /\ h[Orig(g)].c = S(j))
NoLoss == Running => \A j \in 1..Len(files) : Safe(j, fs)
\* the paths that may be created, altered or removed
Touchable == UNION {{Dest(files[j], opts)} \cup (IF opts.t THEN {} ELSE {Src(files[j])} \cup (IF IsTemplate(files[j]) THEN {} ELSE {Orig(files[j])}))
                    : j \in 1..Len(files)}
OnlyTouchable == Running => /\ \A p \in DOMAIN init \ Touchable : Has(fs, p) /\ fs[p] = init[p]
                            /\ \A p \in DOMAIN fs \ DOMAIN init : p \in Touchable
\* the final placement (C01), stated without the steps; it depends on the file alone (C03)
Written(j) == LET g == files[j]
                  failed == (IF g.h = "none" THEN Status(g) ELSE HStatus(g, Status(g))) = "failed"
                  r == IF g.h = "none" THEN Result(j) ELSE HResult(j)
                  ch == IF g.h = "none" THEN IsChanged(g) ELSE HChanged(g)
              IN  /\ ~failed /\ ~opts.p /\ g.cls # "shebang"
                  /\ ~(IsTemplate(g) /\ g.e = "" /\ IsBlank(j, r))
                  /\ (opts.t \/ ch)
Placement == (pc = "end" /\ faults = <<>>) => \A j \in 1..Len(files) :
  LET g == files[j]
      dst == Dest(g, opts)
  IN  IF Written(j)
      THEN /\ Complete(j, fs)
           /\ (dst \notin DOMAIN init => fs[dst].m = (IF g.cls = "script" /\ fs[dst].c = R(j) THEN 493 ELSE g.m))
           /\ (~opts.t /\ ~IsTemplate(g) /\ ~opts.o => fs[Orig(g)] = init[Src(g)])
           /\ (Src(g) # dst => (Has(fs, Src(g)) <=> ~(IsTemplate(g) /\ opts.o /\ ~opts.t)))
           /\ dst \in {done[x] : x \in 1..Len(done)}
      ELSE /\ fs[Src(g)] = init[Src(g)]
           /\ (Has(fs, dst) <=> Has(init, dst)) /\ (Has(init, dst) => fs[dst] = init[dst])
           /\ dst \notin {done[x] : x \in 1..Len(done)}
Exit == IF bad # {} THEN 1 ELSE 0
FaultReported == pc = "end" => \A x \in 1..Len(faults) : faults[x].op # "unlink" => Exit = 1

-----------------------------------------------------------------------------
RECURSIVE SeqOf(_)
SeqOf(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o SeqOf(T \ {x})
Dump(h) == SeqOf({<<p, h[p].c, h[p].m>> : p \in DOMAIN h})
EmitDone == (Emit /\ pc = "end" /\ faults = <<>>) =>
   PrintT(<<"@@", ToJson([files |-> [j \in 1..Len(files) |-> files[j] @@ [src |-> Src(files[j]), dst |-> Dest(files[j], opts), orig_ |-> Orig(files[j]), tpl |-> IsTemplate(files[j]), written |-> Written(j)]],
                          opts |-> opts, init |-> Dump(init), fs |-> Dump(fs), out |-> out, done |-> done, bad |-> SeqOf(bad),
                          calls |-> calls, exit |-> Exit])>>)
=============================================================================
