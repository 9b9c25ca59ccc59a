------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* Generation of number ranges (until, to) as a machine which adds one     *)
(* number at a time. Numbers are integers counted in units of 1/10^scale.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Starts, Stops, Steps, Scales, MaxCount, Sim, Emit

VARIABLES req,    \* the request: [incl, start, stop, step, scale, argc]
          out,    \* numbers generated so far
          done
vars == <<req, out, done>>

RECURSIVE Pow10(_)
Pow10(e) == IF e = 0 THEN 1 ELSE 10 * Pow10(e - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Some(T) == IF Sim THEN {RandomElement(T)} ELSE T

Requests ==
  {[incl |-> i, start |-> a, stop |-> b, step |-> s, scale |-> c, argc |-> 3] : i \in BOOLEAN, a \in Starts, b \in Stops, s \in Steps, c \in Scales}
  \cup {[incl |-> i, start |-> a, stop |-> b, step |-> Pow10(c), scale |-> c, argc |-> 2] : i \in BOOLEAN, a \in Starts, b \in Stops, c \in Scales}
  \cup {[incl |-> i, start |-> IF i THEN Pow10(c) ELSE 0, stop |-> b, step |-> Pow10(c), scale |-> c, argc |-> 1] : i \in BOOLEAN, b \in Stops, c \in Scales}

\* The direction is inferred from the bounds: the sign of the step is ignored
Forward == req.stop > req.start
Next_(x) == IF Forward THEN x + Abs(req.step) ELSE x - Abs(req.step)
Inside(x) == /\ IF Forward THEN x <= req.stop ELSE x >= req.stop
             /\ req.incl \/ x # req.stop
Candidate == IF out = <<>> THEN req.start ELSE Next_(out[Len(out)])

None == [incl |-> FALSE, start |-> 0, stop |-> 0, step |-> 0, scale |-> 0, argc |-> 0]
\* (the initial states of a simulation are computed only once)
Init == /\ IF Sim THEN req = None ELSE req \in Requests
        /\ out = <<>>
        /\ done = FALSE
Draw == /\ req = None
        /\ \E i \in {RandomElement(BOOLEAN)} : \E a \in {RandomElement(Starts)} : \E b \in {RandomElement(Stops)} :
           \E s \in {RandomElement(Steps)} : \E c \in {RandomElement(Scales)} :
             req' = [incl |-> i, start |-> a, stop |-> b, step |-> s, scale |-> c, argc |-> 3]
        /\ UNCHANGED <<out, done>>
Add  == /\ ~done /\ req # None /\ req.step # 0 /\ Inside(Candidate) /\ Len(out) < MaxCount
        /\ out' = Append(out, Candidate)
        /\ UNCHANGED <<req, done>>
Stop == /\ ~done /\ req # None /\ (req.step = 0 \/ ~Inside(Candidate))
        /\ done' = TRUE
        /\ UNCHANGED <<req, out>>
Next == Draw \/ Add \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Size == IF req.step = 0 THEN 0 ELSE
        LET d == Abs(req.stop - req.start)
            k == d \div Abs(req.step)
        IN  IF req.incl \/ d % Abs(req.step) # 0 THEN k + 1 ELSE k
Bounded == Len(out) <= Size
Exact == done => /\ Len(out) = Size
                 /\ \A i \in 1..Len(out) : out[i] = req.start + (i - 1) * (IF Forward THEN 1 ELSE -1) * Abs(req.step)
                 /\ (req.incl /\ req.step # 0 /\ (req.stop - req.start) % Abs(req.step) = 0) => out[Len(out)] = req.stop
                 /\ ~req.incl => \A i \in 1..Len(out) : out[i] # req.stop
Terminates == (Size <= MaxCount) => <>done

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Min(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A j \in 1..Len(s) : x <= s[j]
Max(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A j \in 1..Len(s) : x >= s[j]
Stats == IF out = <<>> THEN <<0>> ELSE <<Sum(out), Min(out), Max(out)>>

EmitDone == (Emit /\ done) => PrintT(<<"@@", ToJson([q |-> req, out |-> out, stats |-> Stats])>>)
=============================================================================
