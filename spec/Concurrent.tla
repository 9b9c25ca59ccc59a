----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Independent templates used by several threads. Each thread creates its  *)
(* own templates and evaluates contents with them; the only things shared  *)
(* are the tables of functions, the tables of razor expressions (one per   *)
(* set of delimiters) and the parser, each used under its own lock.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, MaxOps, Record, Sim, Emit
VARIABLES left,       \* operations that each thread may still begin
          own,        \* template of each thread: its settings, or NoTemplate
          op,         \* operation of each thread, or NoOp
          stage,      \* what each thread does now
          lock,       \* holder of each lock, or 0
          built,      \* the tables of functions are built
          razor,      \* delimiters for which the razor expressions are built
          events      \* begins and ends, in order (if they are recorded)
vars == <<left, own, op, stage, lock, built, razor, events>>
Pick(T) == IF Sim THEN {RandomElement(T)} ELSE T
Thread == 1..Threads
Locks == {"functions", "razor", "parser"}
NoTemplate == [x |-> 0, delims |-> 0, ext |-> 0, sub |-> 0, novalue |-> FALSE]
NoOp == [kind |-> "", n |-> 0]
Settings == IF Sim THEN [x : 1..99, delims : 0..2, ext : 0..3, sub : 0..3, novalue : BOOLEAN] ELSE [x : 1..2, delims : 0..1, ext : {0}, sub : {0}, novalue : {FALSE}]
Some(p) == IF Sim THEN {[x |-> RandomElement(1..99), delims |-> RandomElement(0..2), ext |-> RandomElement(0..3), sub |-> RandomElement(0..3), novalue |-> RandomElement(BOOLEAN)]}
           ELSE {s \in Settings : s.x = p}
Kinds == IF Sim THEN {"value", "razor", "assign", "fresh", "define", "alias", "broken", "undefined", "subst", "lists", "data", "nested", "file", "exec", "math", "loop", "template", "literals", "describe", "slice", "format", "merge"}
         ELSE {"value", "nested"}
Init == /\ left = [p \in Thread |-> MaxOps] /\ own = [p \in Thread |-> NoTemplate] /\ op = [p \in Thread |-> NoOp] /\ stage = [p \in Thread |-> "idle"]
        /\ lock = [l \in Locks |-> 0] /\ built = FALSE /\ razor = {} /\ events = <<>>
Free(l) == lock[l] = 0
Take(p, l) == lock' = [lock EXCEPT ![l] = p]
Release(l) == lock' = [lock EXCEPT ![l] = 0]
To(p, s) == stage' = [stage EXCEPT ![p] = s]
N(x) == ToString(x)
Note(e) == IF Record THEN Append(events, e) ELSE events
-----------------------------------------------------------------------------
(* Result of an operation: it only depends on the template of the thread.    *)
Out(o, k, n) ==
  CASE k = "value" -> N(o.x) \o "|" \o N(o.x + n)
    [] k = "razor" -> N(o.x) \o "|" \o N(o.x * n)
    [] k = "assign" -> N(n) \o "+" \o N(o.x)
    [] k = "fresh" -> "0+" \o N(o.x)
    [] k = "define" -> "<" \o N(n) \o ":" \o N(o.x) \o "><" \o N(n) \o ":" \o N(o.x) \o ">"
    [] k = "alias" -> IF o.ext = 0 THEN "error" ELSE "K" \o N(o.ext) \o ":" \o N(o.x) \o ":" \o N(n)
    [] k = "template" -> IF o.ext = 0 THEN "error" ELSE "E" \o N(o.ext) \o ":" \o N(o.x)
    [] k = "broken" -> "error"
    [] k = "undefined" -> IF o.novalue THEN "<no value>" \o N(n) ELSE "error"
    [] k = "subst" -> (IF o.sub = 0 THEN "colour" ELSE "C" \o N(o.sub)) \o N(o.x)
    [] k = "lists" -> "[1," \o N(n) \o "," \o N(o.x) \o "]"
    [] k = "data" -> N(n) \o "{" \o "\"b\":" \o N(o.x) \o "}"
    [] k = "nested" -> N(o.x) \o "-" \o N(n)
    [] k = "file" -> "I" \o N(o.x) \o "." \o N(n)
    [] k = "exec" -> "out" \o N(n) \o "-" \o N(o.x)
    [] k = "math" -> N(o.x + n + 3) \o "," \o N(n)
    [] k = "loop" -> N(o.x) \o ":" \o N(o.x + 1) \o ":" \o N(o.x + 2) \o ":"
    [] k = "literals" -> "a long text; and . " \o N(n) \o "|" \o N(o.x)
    [] k = "describe" -> "upperprintf0" \o N(n)
    [] k = "slice" -> "[" \o N(n) \o "," \o N(o.x) \o "]"
    [] k = "format" -> "a: " \o N(o.x) \o N(n)
    [] k = "merge" -> N(n) \o N(o.x) \o "1"
    [] OTHER -> ""
-----------------------------------------------------------------------------
Begin(p) == /\ stage[p] = "idle" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ IF own[p] = NoTemplate \/ (Sim /\ RandomElement(1..6) = 1)
               THEN \E s \in Some(p) : own' = [own EXCEPT ![p] = s] /\ op' = [op EXCEPT ![p] = [kind |-> "new", n |-> 0]] /\ To(p, "functions")
                                       /\ events' = Note([e |-> "begin", p |-> p, kind |-> "new", n |-> 0, own |-> s, out |-> ""])
               ELSE \E k \in Pick(Kinds), n \in Pick(IF Sim THEN 1..9 ELSE {3}) :
                      /\ own' = own /\ op' = [op EXCEPT ![p] = [kind |-> k, n |-> n]] /\ To(p, "context")
                      /\ events' = Note([e |-> "begin", p |-> p, kind |-> k, n |-> n, own |-> own[p], out |-> Out(own[p], k, n)])
            /\ UNCHANGED <<lock, built, razor>>
\* creation of a template (or of the context of a folder): the functions are added under a lock, taking the one of the parser
Functions(p) == /\ stage[p] \in {"functions", "context"} /\ Free("functions") /\ Take(p, "functions")
                /\ To(p, IF stage[p] = "functions" THEN "build" ELSE "build context") /\ UNCHANGED <<left, own, op, built, razor, events>>
Build(p) == /\ stage[p] \in {"build", "build context"} /\ built' = TRUE /\ Free("parser") /\ Take(p, "parser")
            /\ To(p, IF stage[p] = "build" THEN "added" ELSE "added context") /\ UNCHANGED <<left, own, op, razor, events>>
Added(p) == /\ stage[p] \in {"added", "added context"} /\ lock' = [lock EXCEPT !["functions"] = 0, !["parser"] = 0]
            /\ To(p, IF stage[p] = "added" THEN (IF own[p].ext = 0 THEN "ready" ELSE "context") ELSE "convert") /\ UNCHANGED <<left, own, op, built, razor, events>>
\* conversion of the razor expressions of the content (or of the extensions of a new template)
Convert(p) == /\ stage[p] = "convert" /\ Free("razor") /\ Take(p, "razor") /\ To(p, "converting") /\ UNCHANGED <<left, own, op, built, razor, events>>
Converting(p) == /\ stage[p] = "converting" /\ razor' = razor \cup {own[p].delims} /\ Release("razor") /\ To(p, "parse") /\ UNCHANGED <<left, own, op, built, events>>
Parse(p) == /\ stage[p] = "parse" /\ Free("parser") /\ Take(p, "parser") /\ To(p, "parsing") /\ UNCHANGED <<left, own, op, built, razor, events>>
Parsing(p) == /\ stage[p] = "parsing" /\ Release("parser") /\ To(p, "execute") /\ UNCHANGED <<left, own, op, built, razor, events>>
\* the execution may convert and parse other texts
Nested(p) == /\ stage[p] = "execute" /\ op[p].kind \in {"nested", "define", "alias", "file"} /\ To(p, "convert nested") /\ UNCHANGED <<left, own, op, lock, built, razor, events>>
ConvertNested(p) == /\ stage[p] = "convert nested" /\ Free("razor") /\ Take(p, "razor") /\ To(p, "converting nested") /\ UNCHANGED <<left, own, op, built, razor, events>>
ConvertingNested(p) == /\ stage[p] = "converting nested" /\ razor' = razor \cup {own[p].delims} /\ Release("razor") /\ To(p, "ready") /\ UNCHANGED <<left, own, op, built, events>>
Execute(p) == /\ stage[p] = "execute" /\ To(p, "ready") /\ UNCHANGED <<left, own, op, lock, built, razor, events>>
End(p) == /\ stage[p] = "ready" /\ To(p, "idle") /\ op' = [op EXCEPT ![p] = NoOp]
          /\ events' = Note([e |-> "end", p |-> p, kind |-> op[p].kind, n |-> op[p].n, own |-> own[p], out |-> Out(own[p], op[p].kind, op[p].n)])
          /\ UNCHANGED <<left, own, lock, built, razor>>
Internal(p) == Functions(p) \/ Build(p) \/ Added(p) \/ Convert(p) \/ Converting(p) \/ Parse(p) \/ Parsing(p) \/ Nested(p) \/ ConvertNested(p) \/ ConvertingNested(p) \/ Execute(p) \/ End(p)
Over == \A p \in Thread : stage[p] = "idle" /\ left[p] = 0
Next == \E p \in Thread : Begin(p) \/ Internal(p)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A p \in Thread : WF_vars(Internal(p)) /\ SF_vars(Functions(p)) /\ SF_vars(Build(p)) /\ SF_vars(Convert(p)) /\ SF_vars(Parse(p)) /\ SF_vars(ConvertNested(p)) /\ WF_vars(Begin(p))
-----------------------------------------------------------------------------
(* Properties.                                                               *)
\* a table is only changed by the holder of its lock
Exclusive == /\ \A p, q \in Thread : p # q => /\ ~(stage[p] \in {"converting", "converting nested"} /\ stage[q] \in {"converting", "converting nested"})
                                              /\ ~(stage[p] \in {"added", "added context", "parsing"} /\ stage[q] \in {"added", "added context", "parsing"})
             /\ \A l \in Locks : lock[l] # 0 => stage[lock[l]] \notin {"idle", "ready"}
Locked == [][(built' # built => \E p \in Thread : lock["functions"] = p /\ stage[p] \in {"build", "build context"})
             /\ (razor' # razor => \E p \in Thread : lock["razor"] = p /\ stage[p] \in {"converting", "converting nested"})]_vars
\* what an operation gives is what the template of its thread gives alone, whatever happened between its begin and its end
Alone == \A i \in 1..Len(events) : events[i].e = "end" =>
           \E j \in 1..i : /\ events[j].e = "begin" /\ events[j].p = events[i].p /\ events[j].kind = events[i].kind /\ events[j].out = events[i].out
                           /\ \A m \in j + 1..i - 1 : events[m].p # events[i].p
AllEnd == <>[]Over
-----------------------------------------------------------------------------
EmitDone == (Emit /\ Over) => PrintT(<<"@@", ToJson([events |-> events])>>)
=============================================================================
