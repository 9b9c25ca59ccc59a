-------------------------------- MODULE Scope --------------------------------
(***************************************************************************)
(* Contexts of the templates, files, texts, aliases and functions called   *)
(* by a content. Programs are written (callable units, defined in the      *)
(* content, in an extension or in a file, and a main body) and executed    *)
(* one statement at a time on a stack of renderings, each with its own     *)
(* context.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxUnits, MaxBody, MaxMain, Sim, Emit
VARIABLES units, main, init, accept, phase,     \* the program
          heap,                                 \* contexts: functions of their values, sequence of arguments, value of the dictionary d
          stack,                                \* renderings: [unit, pc, ctx, eng, n: remaining repetitions of the call in progress]
          out, status, calls
pvars == <<units, main, init, accept>>
vars == <<units, main, init, accept, phase, heap, stack, out, status, calls>>
Some(T) == IF Sim /\ T # {} THEN {RandomElement(T)} ELSE T
Pick(T) == RandomElement(T)
Names == IF Sim THEN {"x", "y", "z", "v1"} ELSE {"x", "y"}
Vals == 1..9
NoVal == [n \in {} |-> 0]
Partial(N) == UNION {[D -> Vals] : D \in SUBSET N}
SmallPartial(i) == IF Sim THEN [n \in {m \in Names : Pick(1..2) = 1} |-> Pick(Vals)] ELSE NoVal
-----------------------------------------------------------------------------
(* Statements. Expressions are constants or values of variables (with a      *)
(* default).                                                                 *)
St == [k |-> "", v |-> "", n |-> 0, u |-> 0, form |-> "", m |-> <<>>, a |-> <<>>, rep |-> 1]
Const(n) == [c |-> n, v |-> ""]
Var(v) == [c |-> 1, v |-> v]             \* the value of the variable, or 1
Reads(N) == {[St EXCEPT !.k = k, !.v = v] : k \in {"soft"}, v \in N}
Simple == Reads(Names) \cup {[St EXCEPT !.k = "set", !.v = v, !.n = 7] : v \in Names} \cup {[St EXCEPT !.k = "args"], [St EXCEPT !.k = "getd"], [St EXCEPT !.k = "setd", !.n = 8]}
RandExpr(i) == IF Pick(1..2) = 1 THEN Const(Pick(Vals)) ELSE Var(Pick(Names))
The(T) == CHOOSE x \in T : TRUE           \* element of a singleton (its expression is evaluated once)
RandMap(i) == The({[n \in D |-> RandExpr(n)] : D \in {Pick(SUBSET Names)}})
RandSeq(n) == [i \in 1..n |-> RandExpr(i)]
\* forms: a dictionary, positional values, nothing, the context itself; action is the action template with the context itself
Form(u, kinds) == CASE kinds[u] \in {"text", "file"} -> Pick({"none", "dict", "pos", "dot"}) [] kinds[u] = "define" -> Pick({"none", "dict", "pos", "dot", "action"})
                    [] OTHER -> Pick({"none", "dict", "pos"})
RandCall(lo, kinds) ==
  The({[St EXCEPT !.k = IF Pick(1..5) = 1 THEN "guard" ELSE "call", !.u = u, !.form = Form(u, kinds), !.m = RandMap(u), !.a = RandSeq(Pick(0..3)), !.rep = Pick({1, 1, 1, 2, 3}), !.v = Pick(Names)] : u \in {Pick(lo..Len(kinds))}})
RandStatement(lo, kinds) ==
  The({CASE c <= 4 /\ lo <= Len(kinds) -> RandCall(lo, kinds)
    [] c = 5 -> [St EXCEPT !.k = "plain", !.v = Pick(Names)]
    [] c = 6 -> [St EXCEPT !.k = "args"] [] c = 7 -> [St EXCEPT !.k = "getd"] [] c = 8 -> [St EXCEPT !.k = "setd", !.n = Pick(Vals)]
    [] c = 9 -> [St EXCEPT !.k = "keys"]
    [] c \in {10, 11} -> [St EXCEPT !.k = "set", !.v = Pick(Names), !.n = Pick(Vals)]
    [] OTHER -> [St EXCEPT !.k = "soft", !.v = Pick(Names)] : c \in {Pick(1..12)}})
RandBody(lo, kinds, n) == [i \in 1..n |-> RandStatement(lo, kinds)]
\* units only call the following ones; templates defined by the content are only available in the content, so they come first;
\* aliases and functions are only known in contents: those of an extension and what they call (the units from low) do not call them
Named(k) == k \in {"alias", "local", "func"}
Kinds == {"define", "ext", "text", "file", "alias", "local", "func"}
Unit == [kind |-> "", body |-> <<>>, names |-> <<>>, dm |-> NoVal, da |-> <<>>, fn |-> "include"]
RandUnit(i, kinds, low) ==
  The({[Unit EXCEPT !.kind = kinds[i], !.body = RandBody(IF Named(kinds[i]) /\ low > i THEN low ELSE i + 1, kinds, Pick(1..MaxBody)),
     !.names = IF kinds[i] # "func" THEN <<>> ELSE Pick({<<>>, <<"x">>, <<"y", "x">>, <<"z", "x", "y">>, <<"v1", "z">>}),
     !.dm = IF (kinds[i] = "func" /\ Pick(1..2) = 1) \/ (kinds[i] \in {"alias", "local"} /\ with = 1) THEN SmallPartial(i) ELSE NoVal,
     !.da = IF kinds[i] \in {"alias", "local"} /\ with = 2 THEN [j \in 1..Pick(1..2) |-> Pick(Vals)] ELSE <<>>,
     !.fn = IF kinds[i] = "func" /\ Pick(1..8) = 1 THEN "run" ELSE IF kinds[i] \in {"alias", "local", "func"} THEN Pick({"include", "template"}) ELSE "include"] : with \in {Pick(1..4)}})
\* exhaustive programs: one unit of two simple statements called in one way between statements of the main body
Calls1 == {[St EXCEPT !.k = "call", !.u = 1, !.form = f, !.m = m, !.a = a] : f \in {"none", "dot", "action"}, m \in {NoVal}, a \in {<<>>}}
          \cup {[St EXCEPT !.k = "call", !.u = 1, !.form = "dict", !.m = m] : m \in {[n \in {"x"} |-> Const(3)], [n \in {"y"} |-> Var("x")]}}
          \cup {[St EXCEPT !.k = "call", !.u = 1, !.form = "pos", !.a = a] : a \in {<<Const(4)>>, <<Const(4), Var("x")>>}}
Allowed(c, kind) == /\ c.form = "action" => kind \in {"define", "ext"}
                    /\ c.form = "dot" => kind \in {"define", "ext", "text", "file"}
Ctx0 == [v |-> NoVal, d |-> 5, args |-> <<>>]
Init == /\ units = <<>> /\ main = <<>> /\ init = NoVal /\ accept = FALSE /\ phase = "setup"
        /\ heap = <<>> /\ stack = <<>> /\ out = <<>> /\ status = "" /\ calls = 0
Setup == /\ phase = "setup"
         /\ IF Sim
            THEN \E defs \in {Pick(0..2)}, low \in {Pick(1..MaxUnits + 1)}, n \in {Pick(1..MaxUnits)} :
                 \E kinds \in {[i \in 1..n |-> IF i >= low THEN Pick({"ext", "ext", "text", "file"}) ELSE IF i <= defs THEN "define" ELSE Pick(Kinds \ {"define", "ext"})]} :
                 /\ units' = [i \in 1..Len(kinds) |-> RandUnit(i, kinds, low)]
                 /\ main' = RandBody(1, kinds, Pick(2..MaxMain))
                 /\ init' = SmallPartial(kinds) /\ accept' = (Pick(1..3) = 1 /\ ~\E i \in 1..Len(kinds) : kinds[i] \in {"local", "func"})
            ELSE \E kind \in Kinds, b1 \in Simple, b2 \in Simple, c \in Calls1, s0 \in {[St EXCEPT !.k = "set", !.v = "x", !.n = 2], [St EXCEPT !.k = "soft", !.v = "x"]} :
                 /\ Allowed(c, kind)
                 /\ units' = <<[Unit EXCEPT !.kind = kind, !.body = <<b1, b2, [St EXCEPT !.k = "keys"]>>,
                                  !.names = IF kind = "func" THEN <<"y", "x">> ELSE <<>>, !.dm = IF kind = "func" THEN [n \in {"x"} |-> 6] ELSE NoVal]>>
                 /\ main' = <<s0, c, [St EXCEPT !.k = "keys"], [St EXCEPT !.k = "getd"]>>
                 /\ init' = [n \in {"x"} |-> 1] /\ accept' = FALSE
         /\ phase' = "start" /\ UNCHANGED <<heap, stack, out, status, calls>>
\* the content works on a copy of the initial context: 1 is the initial context, 2 the one of the content
Start == /\ phase = "start" /\ phase' = "run"
         /\ heap' = <<[Ctx0 EXCEPT !.v = init], [Ctx0 EXCEPT !.v = init]>>
         /\ stack' = <<[unit |-> 0, pc |-> 1, ctx |-> 2, eng |-> "file", n |-> 0]>>
         /\ UNCHANGED pvars /\ UNCHANGED <<out, status, calls>>
-----------------------------------------------------------------------------
(* Execution.                                                                *)
Top == stack[Len(stack)]
Body(f) == IF f.unit = 0 THEN main ELSE units[f.unit].body
Cur == heap[Top.ctx]
S == Body(Top)[Top.pc]
Step(f) == [stack EXCEPT ![Len(stack)] = f]
Advance == Step([Top EXCEPT !.pc = @ + 1])
Lookup(c, v, default) == IF v \in DOMAIN c.v THEN c.v[v] ELSE default
Value(e) == IF e.v = "" THEN e.c ELSE Lookup(Cur, e.v, e.c)
Say(s) == out' = Append(out, s)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)) \o "," \o Join(Tail(s))
RECURSIVE Order(_)
Order(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x = "v1" \/ (y # "v1" /\ (x = "x" \/ (x = "y" /\ y # "x") \/ (x = "z" /\ y \notin {"x", "y"}))) IN <<m>> \o Order(T \ {m})
RECURSIVE Listing(_)
Listing(s) == IF s = <<>> THEN "" ELSE Head(s) \o "=" \o ToString(Cur.v[Head(s)]) \o "," \o Listing(Tail(s))
Keys == Listing(Order(DOMAIN Cur.v))
Set(f, k, x) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN x ELSE f[n]]
Over(f, g) == f @@ g                     \* the values of f, then those of g
Running == phase = "run" /\ Top.pc <= Len(Body(Top))
Silent == UNCHANGED <<out, status, calls>>
Simple1 ==
  /\ Running /\ S.k \notin {"call", "guard"}
  /\ CASE S.k = "soft" -> Say(IF S.v \in DOMAIN Cur.v THEN ToString(Cur.v[S.v]) ELSE "-") /\ heap' = heap /\ status' = status
       [] S.k = "plain" /\ S.v \in DOMAIN Cur.v -> Say(ToString(Cur.v[S.v])) /\ heap' = heap /\ status' = status
       [] S.k = "plain" /\ S.v \notin DOMAIN Cur.v -> Say("<no value>") /\ heap' = heap /\ status' = (IF accept THEN status ELSE "error")
       [] S.k = "args" -> Say(Join(Cur.args)) /\ heap' = heap /\ status' = status
       [] S.k = "keys" -> Say(Keys) /\ heap' = heap /\ status' = status
       [] S.k = "getd" -> Say(ToString(Cur.d)) /\ heap' = heap /\ status' = status
       [] S.k = "set" -> heap' = [heap EXCEPT ![Top.ctx].v = Set(@, S.v, S.n)] /\ out' = out /\ status' = status
       [] S.k = "setd" -> heap' = [heap EXCEPT ![Top.ctx].d = S.n] /\ out' = out /\ status' = status
  /\ stack' = Advance /\ UNCHANGED calls /\ UNCHANGED pvars /\ UNCHANGED phase
\* context in which an engine is: a rendering called by the content or by a template called from it (file), by an alias (top), by a function or a local alias, which see the values of the run (ext)
RECURSIVE Nearest(_, _)
Nearest(i, e) == IF i = 0 THEN (IF e = "ext" THEN 1 ELSE 2) ELSE IF stack[i].eng = e THEN stack[i].ctx ELSE Nearest(i - 1, e)
Engine(u) == CASE units[u].kind = "alias" -> "top" [] units[u].kind \in {"local", "func"} -> "ext" [] OTHER -> Top.eng
Given(s) == CASE s.form = "dict" -> [n \in DOMAIN s.m |-> Value(s.m[n])] [] OTHER -> NoVal
Positional(s) == [i \in 1..Len(s.a) |-> Value(s.a[i])]
\* context of the rendering of unit u called by statement s on base
Bind(u, s, base) ==
  LET k == units[u]
      pos == IF s.form = "pos" THEN Positional(s) ELSE <<>>
      all == k.da \o pos                                \* positional arguments, the default ones first
      copy == [base EXCEPT !.args = <<>>] IN
  CASE k.kind = "func" ->
         IF s.form = "dict" THEN [base EXCEPT !.v = Over(Given(s), Over(k.dm, base.v))]
         ELSE LET named == [n \in {k.names[i] : i \in {j \in 1..Len(pos) : j <= Len(k.names)}} |-> pos[CHOOSE i \in 1..Len(pos) : i <= Len(k.names) /\ k.names[i] = n]] IN
              [base EXCEPT !.v = Over(named, Over(k.dm, base.v)), !.args = IF Len(pos) > Len(k.names) THEN SubSeq(pos, Len(k.names) + 1, Len(pos)) ELSE base.args]
    [] k.kind \in {"alias", "local"} ->
         IF k.da = <<>> /\ DOMAIN k.dm = {} /\ s.form = "dict" THEN [base EXCEPT !.v = Over(Given(s), base.v)]
         ELSE IF k.da = <<>> /\ DOMAIN k.dm # {} THEN [base EXCEPT !.v = Over(k.dm, base.v)]
         ELSE [base EXCEPT !.args = all]
    [] OTHER -> CASE s.form = "dict" -> [base EXCEPT !.v = Over(Given(s), base.v)] [] s.form = "dot" -> base [] OTHER -> [base EXCEPT !.args = pos]
\* not specified: an alias whose default arguments or dictionary are followed by a dictionary or other arguments
Specified(u, s) == LET k == units[u] IN
  CASE k.kind \in {"alias", "local"} -> (k.da # <<>> => s.form # "dict") /\ (DOMAIN k.dm # {} => s.form = "none" \/ (s.form = "pos" /\ s.a = <<>>)) /\ (k.da = <<>> \/ DOMAIN k.dm = {})
    [] k.kind = "func" -> Len(k.names) = 1 => s.form # "dict"
    [] OTHER -> TRUE
Call ==
  /\ Running /\ S.k \in {"call", "guard"}
  /\ UNCHANGED pvars /\ UNCHANGED <<phase, out>>
  /\ status' = IF Specified(S.u, S) THEN status ELSE "unspecified"
  /\ IF (S.k = "guard" /\ Lookup(Cur, S.v, 0) < 5) \/ Top.n >= S.rep \/ ~Specified(S.u, S)
     THEN stack' = Step([Top EXCEPT !.pc = @ + 1, !.n = 0]) /\ heap' = heap /\ calls' = calls
     ELSE /\ calls' = calls + 1
          /\ IF S.form = "action"
             THEN /\ stack' = Append(Step([Top EXCEPT !.n = @ + 1]), [unit |-> S.u, pc |-> 1, ctx |-> Top.ctx, eng |-> Top.eng, n |-> 0])
                  /\ heap' = heap
             ELSE LET e == Engine(S.u) base == heap[Nearest(Len(stack), e)] IN
                  /\ heap' = Append(heap, Bind(S.u, S, base))
                  /\ stack' = Append(Step([Top EXCEPT !.n = @ + 1]), [unit |-> S.u, pc |-> 1, ctx |-> Len(heap) + 1, eng |-> e, n |-> 0])
Return == /\ phase = "run" /\ Top.pc > Len(Body(Top))
          /\ IF Len(stack) = 1 THEN phase' = "done" /\ stack' = stack ELSE phase' = phase /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED pvars /\ UNCHANGED heap /\ Silent
Next == Setup \/ Start \/ Simple1 \/ Call \/ Return
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Properties.                                                               *)
Types == /\ phase = "run" => \A i \in 1..Len(stack) : stack[i].ctx \in 1..Len(heap)
\* a rendering only changes its own context
OnlyOwn == [][(phase = "run" /\ phase' = "run") => \A i \in 1..Len(heap) : heap'[i] = heap[i] \/ i = Top.ctx]_vars
\* the initial context is never altered, and each rendering (the action template apart) has its own context
Initial == phase \in {"run", "done"} => heap[1] = [Ctx0 EXCEPT !.v = init]
Distinct == phase = "run" => \A i, j \in 1..Len(stack) : i < j /\ stack[i].ctx = stack[j].ctx =>
              \A k \in i..(j - 1) : Body(stack[k])[stack[k].pc].form = "action"
-----------------------------------------------------------------------------
EmitDone == (Emit /\ phase = "done" /\ calls < 60 /\ status # "unspecified") =>
  PrintT(<<"@@", ToJson([units |-> units, main |-> main, init |-> init, accept |-> accept, out |-> out, status |-> status])>>)
=============================================================================
