-------------------------------- MODULE Errors ------------------------------
(***************************************************************************)
(* Evaluation of a content made of lines, some of which are faulty, with   *)
(* the recovery of errors: an attempt stops at the first fault (parsing    *)
(* faults first, in the order of the text, then the execution ones in the  *)
(* order of execution); the fault is reported, its line is replaced and    *)
(* the whole content is evaluated again, on the initial context. At the    *)
(* end the policy decides whether the report fails the file or not, and    *)
(* the undefined values that were rendered are an error unless accepted.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, MinLen, Plain, ParseFaults, ExecFaults, Undefined, Structures,
          Kinds,      \* "ordinary", "gt", "template", "gte", "strict", "marked"
          Accepts,    \* values of the option that accepts undefined values
          Sim, Emit

VARIABLES lines,      \* classes of the lines
          open,       \* blocks currently open while the lines are added
          kind, accept,
          fixed,      \* lines replaced
          reports,    \* sequence of [l: line, n: number of context updates seen]
          phase, attempt, out
vars == <<lines, open, kind, accept, fixed, reports, phase, attempt, out>>
Some(T) == IF Sim THEN {RandomElement(T)} ELSE T

Openers == {"if1", "if0", "range2", "range0"}
Stops == {"stopend", "stopelse", "stopbreak"}      \* misplaced keywords: the recovery cannot go on
-----------------------------------------------------------------------------
RECURSIVE MatchFrom(_, _), ElseFrom(_, _)
\* line closing the block opened at line l; its else line (or 0)
MatchFrom(l, d) == IF lines[l] = "end" THEN IF d = 0 THEN l ELSE MatchFrom(l + 1, d - 1)
                   ELSE MatchFrom(l + 1, IF lines[l] \in Openers THEN d + 1 ELSE d)
ElseFrom(l, d) == IF lines[l] = "end" THEN IF d = 0 THEN 0 ELSE ElseFrom(l + 1, d - 1)
                  ELSE IF lines[l] = "else" /\ d = 0 THEN l
                  ELSE ElseFrom(l + 1, IF lines[l] \in Openers THEN d + 1 ELSE d)
RECURSIVE Rep(_, _), Run(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
\* lines executed, in order (an opening line for each iteration of its block)
Run(lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lines[lo] \notin Openers THEN <<lo>> \o Run(lo + 1, hi)
  ELSE LET e == MatchFrom(lo + 1, 0)
           el == ElseFrom(lo + 1, 0)
           body == <<lo>> \o Run(lo + 1, (IF el = 0 THEN e ELSE el) - 1)
           other == IF el = 0 THEN <<>> ELSE <<el>> \o Run(el + 1, e - 1)
       IN  (CASE lines[lo] = "if1" -> body [] lines[lo] = "range2" -> body \o body [] OTHER -> other) \o <<e>> \o Run(e + 1, hi)
Trace == Run(1, Len(lines))
\* the executed lines with the number of context updates made before them
Updates(t, k) == Cardinality({j \in 1..k - 1 : lines[t[j]] = "update"})

\* a nested evaluation (include) that gives an undefined value is a fault of the line which calls it, even if the result is not displayed
Fails(l) == lines[l] \in ExecFaults /\ ~(accept /\ lines[l] = "nested")
Faulty == {l \in 1..Len(lines) : lines[l] \in ParseFaults \/ (Fails(l) /\ \E k \in 1..Len(Trace) : Trace[k] = l)}
Blocked == {l \in 1..Len(lines) : lines[l] \in Stops}

Init == /\ lines = <<>> /\ open = <<>> /\ kind \in Kinds /\ accept \in Accepts
        /\ fixed = {} /\ reports = <<>> /\ phase = "text" /\ attempt = 0 /\ out = <<>>

AddLine(c) == /\ lines' = Append(lines, c)
              /\ CASE c \in Openers -> open' = Append(open, c) /\ Len(open) < 3
                   [] c = "end" -> open # <<>> /\ open' = SubSeq(open, 1, Len(open) - 1)
                   [] c = "else" -> open # <<>> /\ open[Len(open)] \in Openers /\ open' = [open EXCEPT ![Len(open)] = "else"]
                   [] c \in Stops -> open = <<>> /\ open' = open
                   [] OTHER -> open' = open
Write == /\ phase = "text" /\ Len(lines) < MaxLen
         /\ IF Sim THEN \E c \in (IF open # <<>> /\ Len(lines) + Len(open) >= MaxLen THEN {"end"}
                                  ELSE {RandomElement(IF open # <<>> /\ RandomElement(1..4) = 1 THEN {"end"} ELSE
                                        CASE RandomElement(1..10) \in {1, 2, 3} -> Plain [] RandomElement(1..3) = 1 -> Structures
                                          [] RandomElement(1..3) = 1 -> Undefined \cup Plain [] OTHER -> ParseFaults \cup ExecFaults \cup Plain)}) : AddLine(c)
            ELSE \E c \in Plain \cup ParseFaults \cup ExecFaults \cup Undefined \cup Structures : AddLine(c)
         /\ UNCHANGED <<kind, accept, fixed, reports, phase, attempt, out>>
Start == /\ phase = "text" /\ open = <<>> /\ Len(lines) >= MinLen
         /\ phase' = "parse" /\ attempt' = 1
         /\ UNCHANGED <<lines, open, kind, accept, fixed, reports, out>>

\* first line having an unfixed parsing fault or a misplaced keyword
ParseFault == {l \in 1..Len(lines) : l \notin fixed /\ lines[l] \in ParseFaults \cup Stops}
First(s) == CHOOSE l \in s : \A m \in s : l <= m
Parse == /\ phase = "parse"
         /\ IF ParseFault = {} THEN phase' = "exec" /\ UNCHANGED <<fixed, reports, attempt>>
            ELSE LET l == First(ParseFault) IN
                 /\ reports' = Append(reports, [l |-> l, n |-> 0])
                 /\ IF lines[l] \in Stops THEN phase' = "blocked" /\ UNCHANGED <<fixed, attempt>>
                    ELSE fixed' = fixed \cup {l} /\ attempt' = attempt + 1 /\ phase' = "parse"
         /\ UNCHANGED <<lines, open, kind, accept, out>>
ExecFault == {k \in 1..Len(Trace) : Fails(Trace[k]) /\ Trace[k] \notin fixed}
Exec == /\ phase = "exec"
        /\ IF ExecFault = {} THEN /\ phase' = "done" /\ UNCHANGED <<fixed, reports, attempt>>
                                  /\ out' = [k \in 1..Len(Trace) |-> [l |-> Trace[k], n |-> Updates(Trace, k)]]
           ELSE LET k == First(ExecFault) IN
                /\ reports' = Append(reports, [l |-> Trace[k], n |-> Updates(Trace, k)])
                /\ fixed' = fixed \cup {Trace[k]} /\ attempt' = attempt + 1 /\ phase' = "parse" /\ out' = out
        /\ UNCHANGED <<lines, open, kind, accept>>
Next == Write \/ Start \/ Parse \/ Exec
Spec == Init /\ [][Next]_vars /\ WF_vars(Parse \/ Exec)
-----------------------------------------------------------------------------
Ended == phase \in {"done", "blocked"}
UndefinedOut == {k \in 1..Len(out) : lines[out[k].l] \in Undefined}
Outcome == IF reports # <<>> \/ (~accept /\ UndefinedOut # {})
           THEN (IF kind = "ordinary" THEN "unchanged" ELSE "failed") ELSE "rendered"
Reported == {reports[k].l : k \in 1..Len(reports)}
AllReported == phase = "done" => Reported = Faulty
NothingElse == \A k \in 1..Len(reports) : reports[k].l \in Faulty \cup Blocked
OnceEach == Cardinality(Reported) = Len(reports)
Bounded == attempt <= Len(lines) + 1
Terminates == phase = "parse" ~> Ended
EmitDone == (Emit /\ Ended) =>
  PrintT(<<"@@", ToJson([lines |-> lines, kind |-> kind, accept |-> accept, reports |-> reports, blocked |-> (phase = "blocked"),
                         out |-> out, outcome |-> Outcome, undefined |-> (UndefinedOut # {} /\ ~accept)])>>)
=============================================================================
