------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* Add-on options and the functions that they make available. A set of     *)
(* options is written (from the defaults or from nothing, then switched on *)
(* or off by steps), a template is created by adding the functions of each *)
(* add-on in turn, an extension adds its own names, and contexts for other *)
(* folders are derived from the template.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Catalog

CONSTANTS MaxSteps, Width, Sim, Emit
VARIABLES start, steps, on, phase,
          queue,        \* add-ons still to be considered
          table,        \* who provides each name
          depth         \* folders entered
vars == <<start, steps, on, phase, queue, table, depth>>
AddOns == {Groups[i] : i \in 1..Len(Groups)}
Options == AddOns \cup {"Razor", "Extension"}
Names(g) == {p[1] : p \in Provided[g]}
User == {"userAlias", "userArgs", "userLocal", "userFunc", "userOther"}     \* defined by the extension
Pick(T) == IF Sim THEN {RandomElement(T)} ELSE T
Small(i) == IF Sim THEN {RandomElement(SUBSET Options)} ELSE {T \in SUBSET Options : Cardinality(T) <= Width}
Init == /\ start = "" /\ steps = <<>> /\ on = {} /\ phase = "setup" /\ queue = <<>> /\ table = [n \in {} |-> ""] /\ depth = 0
Setup == /\ phase = "setup" /\ phase' = "switch" /\ start' \in Pick({"default", "none"})
         /\ on' = IF start' = "default" THEN Options ELSE {}
         /\ UNCHANGED <<steps, queue, table, depth>>
Switch == /\ phase = "switch" /\ Len(steps) < MaxSteps
          /\ \E T \in Small(steps) : \E set \in Pick(BOOLEAN) :
               /\ T # {}
               /\ steps' = Append(steps, [set |-> set, names |-> T])
               /\ on' = IF set THEN on \cup T ELSE on \ T
          /\ UNCHANGED <<start, phase, queue, table, depth>>
Base == [n \in Always |-> "Base"]
Create == /\ phase = "switch" /\ phase' = "add" /\ queue' = Groups /\ table' = Base
          /\ UNCHANGED <<start, steps, on, depth>>
Over(t, g) == [n \in Names(g) |-> g] @@ t
Add == /\ phase = "add" /\ queue # <<>> /\ queue' = Tail(queue)
       /\ table' = IF Head(queue) \in on THEN Over(table, Head(queue)) ELSE table
       /\ UNCHANGED <<start, steps, on, phase, depth>>
Extend == /\ phase = "add" /\ queue = <<>> /\ phase' = "done"
          /\ table' = IF "Extension" \in on THEN table @@ [n \in User |-> "Extension"] ELSE table
          /\ UNCHANGED <<start, steps, on, queue, depth>>
\* the context of another folder has the same functions: they are copied, then added again
Enter == /\ phase = "done" /\ depth < 2 /\ depth' = depth + 1 /\ phase' = "again" /\ queue' = Groups
         /\ UNCHANGED <<start, steps, on, table>>
AddAgain == /\ phase = "again" /\ queue # <<>> /\ queue' = Tail(queue)
            /\ table' = IF Head(queue) \in on THEN Over(table, Head(queue)) ELSE table
            /\ UNCHANGED <<start, steps, on, phase, depth>>
Entered == phase = "again" /\ queue = <<>> /\ phase' = "done" /\ UNCHANGED <<start, steps, on, queue, table, depth>>
Next == Setup \/ Switch \/ Create \/ Add \/ Extend \/ Enter \/ AddAgain \/ Entered
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Properties.                                                               *)
Index(g) == CHOOSE i \in 1..Len(Groups) : Groups[i] = g
\* a name is available exactly if it is always there, provided by an add-on that is on, or by the extension; the last add-on wins
Exactly == phase = "done" =>
  /\ DOMAIN table = Always \cup UNION {Names(g) : g \in on \cap AddOns} \cup (IF "Extension" \in on THEN User ELSE {})
  /\ \A n \in DOMAIN table \ (Always \cup User) : /\ n \in Names(table[n]) /\ table[n] \in on
       /\ \A g \in on \cap AddOns : n \in Names(g) => Index(g) <= Index(table[n])
\* whether an option is on only depends on its last switch
LastSwitch == \A o \in Options : phase # "setup" =>
  (o \in on <=> LET k == {i \in 1..Len(steps) : o \in steps[i].names} IN
                IF k = {} THEN start = "default" ELSE steps[CHOOSE i \in k : \A j \in k : j <= i].set)
\* an alias is provided with its function: both by the same add-on, unless a later add-on provides the name
WithFunction == phase = "done" => \A g \in on \cap AddOns : \A p \in Provided[g] :
  p[2] # "" => /\ p[2] \in DOMAIN table /\ p[1] \in DOMAIN table
               /\ table[p[1]] = g \/ (table[p[1]] \in AddOns /\ Index(table[p[1]]) > Index(g))
\* in the catalog, an alias is the one of a function of the same add-on which is not an alias
Catalogued == \A g \in AddOns : \A p \in Provided[g] : p[2] # "" => <<p[2], "">> \in Provided[g]
ASSUME Catalogued
-----------------------------------------------------------------------------
EmitDone == (Emit /\ phase = "done" /\ depth = 0) =>
  PrintT(<<"@@", ToJson([start |-> start, steps |-> steps, on |-> on, table |-> table, always |-> Always,
                         catalog |-> [g \in AddOns |-> [n \in Names(g) |-> (CHOOSE p \in Provided[g] : p[1] = n)[2]]]])>>)
=============================================================================
