------------------------------- MODULE Command -------------------------------
(***************************************************************************)
(* A run of the command: its command line is parsed, the values are loaded,*)
(* the contents (files found or named, code given as arguments or through  *)
(* the standard input) are processed in order, and the temporary files are *)
(* removed however the run ends.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxItems, Sim, Emit
VARIABLES conf,       \* command line and environment
          items,      \* files of the source folder and arguments
          phase, todo, \* contents to be processed, in order
          stage,      \* of the content being processed
          out,        \* texts printed
          files,      \* files written
          temp,       \* temporary files and folders that exist
          failed,     \* something failed
          code        \* exit code
vars == <<conf, items, phase, todo, stage, out, files, temp, failed, code>>
Pick(T) == IF Sim THEN {RandomElement(T)} ELSE T
Range(s) == {s[i] : i \in 1..Len(s)}
N(x) == ToString(x)
-----------------------------------------------------------------------------
Plain == {"good", "razor", "blank", "lines"}                 \* give a text
Scripts == {"script", "shebang", "exec", "nested", "loop"}   \* give a text through temporary scripts
Failing == {"undefined", "broken", "raise", "panic"}
FailingScripts == {"failscript", "badprogram", "twice", "silent"}
Ending == {"exit", "fatal", "exitscript"}
Contents == Plain \cup Scripts \cup Failing \cup FailingScripts \cup Ending
IsScript(k) == k \in Scripts \cup FailingScripts \cup {"exitscript"}
\* text given by a content that succeeds
Text(k, n) == CASE k = "good" -> "T" \o N(n) \o ".1" [] k = "razor" -> "R" \o N(n + 1) [] k = "blank" -> "  " [] k = "lines" -> "L" \o N(n) \o "\nM\n"
                [] k = "script" -> "s" \o N(n) \o "\n." [] k = "shebang" -> "h" \o N(n) \o "\n." [] k = "exec" -> N(n) \o ",2."
                [] k = "nested" -> "i" \o N(n) \o "\n." [] k = "loop" -> "p1\np2\np" \o N(n) \o "\n." [] k = "undefined" -> "U<no value>" [] OTHER -> ""
Succeeds(k) == k \in Plain \cup Scripts \/ (k = "undefined" /\ conf.novalue)
\* text printed for code: blank texts are not printed, the last line is terminated
Printed(k, n) == IF k = "blank" THEN "" ELSE IF k = "lines" THEN Text(k, n) ELSE Text(k, n) \o "\n"
-----------------------------------------------------------------------------
NoConf == [flags |-> "", stdin |-> "none", content |-> [kind |-> "", n |-> 0], source |-> "", target |-> FALSE, import |-> "", ignore |-> "", print |-> FALSE,
           novalue |-> FALSE, recursive |-> FALSE, pattern |-> FALSE, list |-> FALSE]
NoItem == [via |-> "", kind |-> "", n |-> 0, sub |-> FALSE, tf |-> FALSE]
Init == conf = NoConf /\ items = <<>> /\ phase = "setup" /\ todo = <<>> /\ stage = "" /\ out = <<>> /\ files = {} /\ temp = {} /\ failed = FALSE /\ code = -1
Rare(x, y, n) == IF RandomElement(1..n) = 1 THEN x ELSE y
SimConf(z) == IF RandomElement(1..12) = 1 THEN [NoConf EXCEPT !.list = TRUE, !.flags = Rare(RandomElement({"flag", "help", "version"}), "", 3), !.stdin = RandomElement({"none", "pipe"}), !.content = [kind |-> "good", n |-> 1]] ELSE
  [flags |-> Rare(RandomElement({"flag", "help", "version", "delimiters", "substitute", "regex", "pattern", "exclude", "depth", "value"}), "", 6), stdin |-> RandomElement({"none", "none", "device", "pipe", "forced", "ignored"}),
   content |-> [kind |-> RandomElement(Contents), n |-> RandomElement(1..9)], source |-> Rare(RandomElement({"folder", "missing"}), "", 3), target |-> RandomElement(1..4) = 1,
   import |-> Rare(RandomElement({"found", "missing", "broken"}), "", 3), ignore |-> Rare(RandomElement({"import", "source", "paths"}), "", 3), print |-> RandomElement(1..3) = 1, novalue |-> RandomElement(1..4) = 1,
   recursive |-> RandomElement(BOOLEAN), pattern |-> RandomElement(1..4) = 1, list |-> FALSE]
Confs == {[NoConf EXCEPT !.flags = f, !.source = s, !.import = i, !.ignore = g, !.print = p] : f \in {"", "flag", "delimiters", "exclude"}, s \in {"", "missing"}, i \in {"", "missing"}, g \in {"", "import", "paths"}, p \in BOOLEAN}
         \cup {[NoConf EXCEPT !.stdin = s, !.content = [kind |-> k, n |-> 5], !.novalue = b] : s \in {"pipe", "ignored"}, k \in {"good", "script", "undefined", "exit"}, b \in BOOLEAN}
         \cup {[NoConf EXCEPT !.flags = f] : f \in {"help", "version", "substitute", "regex", "pattern", "depth", "value"}} \cup {[NoConf EXCEPT !.list = TRUE]}
Setup == /\ phase = "setup"
         /\ \E c \in IF Sim THEN {SimConf(1)} ELSE Confs : conf' = c
         /\ phase' = "items" /\ UNCHANGED <<items, todo, stage, out, files, temp, failed, code>>
SimItem(z) == [via |-> RandomElement({"found", "found", "file", "code", "code", "word"}), kind |-> IF RandomElement(1..2) = 1 THEN RandomElement(Plain \cup Scripts) ELSE RandomElement(Contents), n |-> RandomElement(1..9), sub |-> RandomElement(1..3) = 1, tf |-> RandomElement(1..6) = 1]
Add == /\ phase = "items" /\ Len(items) < MaxItems
       /\ \E i \in IF Sim THEN {SimItem(1)} ELSE {[NoItem EXCEPT !.via = v, !.kind = k, !.n = 3] : v \in {"found", "file", "code", "word"}, k \in {"good", "script", "badprogram", "undefined", "exit"}} : items' = Append(items, i)
       /\ UNCHANGED <<conf, phase, todo, stage, out, files, temp, failed, code>>
\* exhaustively: any number of items; simulation: mostly all of them
Go == /\ phase = "items" /\ (~Sim \/ Len(items) = MaxItems \/ RandomElement(1..6) = 1)
      /\ phase' = "parse" /\ temp' = {"run"} /\ UNCHANGED <<conf, items, todo, stage, out, files, failed, code>>
-----------------------------------------------------------------------------
(* The run.                                                                  *)
Ending1(c) == phase' = "cleanup" /\ code' = c
To(p) == phase' = p /\ UNCHANGED code
Parse == /\ phase = "parse"
         /\ IF conf.flags \in {"flag", "depth", "value"} THEN Ending1(1)
            ELSE IF conf.flags \in {"help", "version"} THEN Ending1(0) ELSE To("source")
         /\ UNCHANGED <<conf, items, todo, stage, out, files, temp, failed>>
Source == /\ phase = "source"
          /\ IF conf.source # "missing" THEN To("import") ELSE Ending1(IF conf.ignore \in {"source", "paths"} THEN 0 ELSE 1)
          /\ UNCHANGED <<conf, items, todo, stage, out, files, temp, failed>>
Import == /\ phase = "import"
          /\ IF conf.import = "broken" \/ (conf.import = "missing" /\ conf.ignore \notin {"import", "paths"}) THEN Ending1(1) ELSE To("create")
          /\ UNCHANGED <<conf, items, todo, stage, out, files, temp, failed>>
Create == /\ phase = "create"
          /\ IF conf.flags \in {"delimiters", "substitute", "regex"} THEN Ending1(3) ELSE IF conf.list THEN Ending1(0) ELSE To("find")
          /\ UNCHANGED <<conf, items, todo, stage, out, files, temp, failed>>
Piped == conf.stdin \in {"pipe", "forced"}
Numbered == [i \in 1..Len(items) |-> [id |-> i, it |-> items[i]]]
IsFile(x) == x.it.via \in {"found", "file"}
Searched == conf.pattern \/ (~Piped /\ \A i \in 1..Len(items) : items[i].via = "found")
Found == LET Here(x) == IsFile(x) /\ ~x.it.sub
             Below(x) == IsFile(x) /\ x.it.sub /\ conf.recursive IN
         IF Searched THEN SelectSeq(Numbered, Here) \o SelectSeq(Numbered, Below) ELSE <<>>
Arguments == LET Given(x) == x.it.via # "found" /\ x.id \notin {y.id : y \in Range(Found)} IN SelectSeq(Numbered, Given)
FromStdin == IF Piped THEN <<[id |-> 0, it |-> [NoItem EXCEPT !.via = "code", !.kind = conf.content.kind, !.n = conf.content.n]]>> ELSE <<>>
Find == /\ phase = "find"
        /\ IF conf.flags = "pattern" THEN Ending1(255) /\ UNCHANGED <<todo, failed>>
           ELSE /\ To("process")
                /\ todo' = IF conf.flags = "exclude" THEN FromStdin ELSE Found \o Arguments \o FromStdin
                /\ failed' = (conf.flags = "exclude" /\ Found \o Arguments # <<>>)
        /\ UNCHANGED <<conf, items, stage, out, files, temp>>
Head1 == todo[1].it
Next1 == todo' = Tail(todo) /\ stage' = ""
Missing == /\ phase = "process" /\ stage = "" /\ todo # <<>> /\ Head1.via = "word"
           /\ failed' = TRUE /\ Next1 /\ UNCHANGED <<conf, items, phase, out, files, temp, code>>
Script == /\ phase = "process" /\ stage = "" /\ todo # <<>> /\ Head1.via # "word" /\ IsScript(Head1.kind)
          /\ temp' = temp \cup {"script"} /\ stage' = "script" /\ UNCHANGED <<conf, items, phase, todo, out, files, failed, code>>
ScriptEnds == /\ phase = "process" /\ stage = "script" /\ temp' = temp \ {"script"} /\ stage' = "evaluated" /\ UNCHANGED <<conf, items, phase, todo, out, files, failed, code>>
Evaluate == /\ phase = "process" /\ stage = "" /\ todo # <<>> /\ Head1.via # "word" /\ ~IsScript(Head1.kind)
            /\ stage' = "evaluated" /\ UNCHANGED <<conf, items, phase, todo, out, files, temp, failed, code>>
Done == /\ phase = "process" /\ stage = "evaluated"
        /\ LET h == Head1 id == todo[1].id t == Text(h.kind, h.n) file == h.via # "code" IN
           IF h.kind \in Ending
           THEN Ending1(IF h.kind = "fatal" THEN 1 ELSE h.n % 4) /\ todo' = <<>> /\ stage' = "" /\ UNCHANGED <<out, files, temp, failed>>
           ELSE IF ~Succeeds(h.kind) THEN failed' = TRUE /\ Next1 /\ UNCHANGED <<out, files, temp, phase, code>>
           ELSE IF ~file THEN out' = Append(out, Printed(h.kind, h.n)) /\ Next1 /\ UNCHANGED <<files, temp, failed, phase, code>>
           ELSE IF h.kind = "blank" /\ ~h.tf THEN Next1 /\ UNCHANGED <<out, files, temp, failed, phase, code>>      \* blank: nothing is written
           ELSE IF ~conf.print THEN files' = files \cup {[id |-> id, text |-> t]} /\ Next1 /\ UNCHANGED <<out, temp, failed, phase, code>>
           ELSE IF h.tf THEN temp' = temp \cup {"formatted"} /\ stage' = "formatting" /\ UNCHANGED <<out, files, failed, phase, code, todo>>
           ELSE out' = Append(out, t) /\ Next1 /\ UNCHANGED <<files, temp, failed, phase, code>>
        /\ UNCHANGED <<conf, items>>
Formatted == /\ phase = "process" /\ stage = "formatting" /\ temp' = temp \ {"formatted"} /\ out' = Append(out, Text(Head1.kind, Head1.n)) /\ Next1
             /\ UNCHANGED <<conf, items, phase, files, failed, code>>
Finish == /\ phase = "process" /\ stage = "" /\ todo = <<>> /\ Ending1(IF failed THEN 1 ELSE 0) /\ UNCHANGED <<conf, items, todo, stage, out, files, temp, failed>>
Cleanup == /\ phase = "cleanup" /\ phase' = "ended" /\ temp' = {} /\ UNCHANGED <<conf, items, todo, stage, out, files, failed, code>>
Next == Setup \/ Add \/ Go \/ Parse \/ Source \/ Import \/ Create \/ Find \/ Missing \/ Script \/ ScriptEnds \/ Evaluate \/ Done \/ Formatted \/ Finish \/ Cleanup
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Laws.                                                                     *)
Over == phase = "ended"
Ran == conf.flags \in {"", "exclude"} /\ conf.source # "missing" /\ conf.import # "broken" /\ (conf.import = "missing" => conf.ignore \in {"import", "paths"}) /\ ~conf.list
All == IF conf.flags = "exclude" THEN FromStdin ELSE Found \o Arguments \o FromStdin
Ends == {i \in 1..Len(All) : All[i].it.via # "word" /\ All[i].it.kind \in Ending}
Last == IF Ends = {} THEN Len(All) ELSE (CHOOSE i \in Ends : \A j \in Ends : i <= j) - 1
Clean == Over => temp = {}
\* exit code: 0 only if everything succeeded or was ignored as asked, or if a content asked for it
Fails(x) == x.it.via = "word" \/ (x.it.kind \notin Ending /\ ~Succeeds(x.it.kind))
ExitCode == Over =>
  IF conf.flags \in {"help", "version"} THEN code = 0
  ELSE IF conf.flags \in {"flag", "depth", "value"} THEN code # 0
  ELSE IF conf.source = "missing" THEN (code = 0 <=> conf.ignore \in {"source", "paths"})
  ELSE IF ~Ran THEN (code = 0 <=> conf.list /\ conf.flags \notin {"delimiters", "substitute", "regex"} /\ conf.import # "broken" /\ (conf.import = "missing" => conf.ignore \in {"import", "paths"}))
  ELSE IF Ends # {} THEN code = LET h == All[Last + 1].it IN IF h.kind = "fatal" THEN 1 ELSE h.n % 4
  ELSE code = 0 <=> (\A i \in 1..Len(All) : ~Fails(All[i])) /\ (conf.flags = "exclude" => Found \o Arguments = <<>>)
\* a failure does not prevent the other contents from being processed; every content is rendered once, in order
Rendered == Over =>
  IF ~Ran THEN out = <<>> /\ files = {}
  ELSE LET Ok(x) == x.it.via # "word" /\ Succeeds(x.it.kind)
           Pr(x) == Ok(x) /\ (x.it.via = "code" \/ (conf.print /\ ~(x.it.kind = "blank" /\ ~x.it.tf)))
           Wr(x) == Ok(x) /\ x.it.via # "code" /\ ~conf.print /\ ~(x.it.kind = "blank" /\ ~x.it.tf)
           seen == SubSeq(All, 1, Last)
           printed == SelectSeq(seen, Pr) IN
       /\ Len(out) = Len(printed)
       /\ \A i \in 1..Len(out) : out[i] = IF printed[i].it.via = "code" THEN Printed(printed[i].it.kind, printed[i].it.n) ELSE Text(printed[i].it.kind, printed[i].it.n)
       /\ files = {[id |-> x.id, text |-> Text(x.it.kind, x.it.n)] : x \in Range(SelectSeq(seen, Wr))}
EmitDone == (Emit /\ Over) => PrintT(<<"@@", ToJson([conf |-> conf, items |-> items, out |-> out, files |-> files, code |-> code, exact |-> Ran /\ Ends # {}])>>)
=============================================================================
