-------------------------------- MODULE Math --------------------------------
(***************************************************************************)
(* The arithmetic functions as a machine with one register: a step applies *)
(* an operation to the register and other operands, and the result becomes *)
(* the register. Numbers are exact: they are integers counted in quarters. *)
(* A list of numbers is processed element by element by the operations     *)
(* which have a single variable argument, and is the list of the operands  *)
(* of the others. A value which is not a number, a division by zero, bits  *)
(* of a number which is not an integer are errors, which end the behaviour.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Numbers,    \* operands, in quarters
          Plain,      \* random operands are numbers only
          Ops,        \* operations
          MaxSteps, MaxAbs, Sim, Emit

VARIABLES reg, hist, phase
vars == <<reg, hist, phase>>

Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
N(x) == [k |-> "n", x |-> x]
L(s) == [k |-> "l", xs |-> s]
T(s) == [k |-> "t", s |-> s]
Err == [k |-> "e"]
None == [k |-> "none"]                    \* not defined here: the step is not taken
Word(w) == [k |-> "word", w |-> w]        \* texts: hexadecimal number, concatenation, repetition
IsN(v) == v.k = "n"
IsL(v) == v.k = "l"
Abs(x) == IF x < 0 THEN -x ELSE x
Whole(x) == x % 4 = 0
\* the division and its remainder have the sign of the dividend
Quot(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
Mod(a, b) == IF a < 0 THEN -(Abs(a) % Abs(b)) ELSE a % Abs(b)
\* remainder of the nearest quotient (the even one of two)
Rem(a, b) == LET m == Abs(b)  r == a % m  q == a \div m
             IN IF 2 * r < m \/ (2 * r = m /\ q % 2 = 0) THEN r ELSE r - m
RECURSIVE Sum(_), Fold(_, _, _), Power(_, _)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Set(s) == {s[i] : i \in 1..Len(s)}
Min(s) == CHOOSE x \in Set(s) : \A y \in Set(s) : x <= y
Max(s) == CHOOSE x \in Set(s) : \A y \in Set(s) : x >= y

\* two's complement, n bits and the sign
RECURSIVE Bits(_, _, _, _)
Bit(f, a, b) == CASE f = "band" -> a * b
                  [] f = "bor" -> IF a + b > 0 THEN 1 ELSE 0
                  [] f = "bxor" -> (a + b) % 2
                  [] f = "bclear" -> a * (1 - b)
Bits(f, a, b, n) == IF n = 0 THEN -Bit(f, a % 2, b % 2)
                    ELSE Bit(f, a % 2, b % 2) + 2 * Bits(f, a \div 2, b \div 2, n - 1)
Fold(f, acc, s) == IF s = <<>> THEN acc ELSE Fold(f, Bits(f, acc, s[1], 14), Tail(s))

-----------------------------------------------------------------------------
Small(x) == Abs(x) <= MaxAbs
\* Product in quarters, or None
Times(a, b) == IF (a * b) % 4 = 0 /\ Small((a * b) \div 4) THEN N((a * b) \div 4) ELSE None
Root(x) == {r \in 0..200 : r * r = x}
Unary(o, x) == CASE o = "abs" -> N(Abs(x))
                 [] o = "floor" -> N(4 * (x \div 4))
                 [] o = "ceil" -> N(-(4 * ((-x) \div 4)))
                 [] o = "trunc" -> N(4 * Quot(x, 4))
                 [] o = "sqrt" -> IF x >= 0 /\ Root(x) # {} THEN N(2 * CHOOSE r \in Root(x) : TRUE) ELSE None
                 [] o = "hex" -> IF Whole(x) THEN Word([hex |-> x \div 4]) ELSE Err
                 [] o = "dechex" -> IF Whole(x) THEN N(x) ELSE Err
                 [] o = "pow10" -> IF x \in {0, 4, 8, 12} THEN N(4 * Power(10, x \div 4)) ELSE None
                 [] o = "exp2" -> IF Whole(x) /\ x \in -8..36 THEN (IF x >= 0 THEN N(4 * Power(2, x \div 4)) ELSE N(Power(2, 2 + (x \div 4)))) ELSE None
Binary(o, x, y) == CASE o = "add" -> N(x + y)
                     [] o = "sub" -> N(x - y)
                     [] o = "mul" -> Times(x, y)
                     [] o = "div" -> IF y = 0 THEN Err ELSE IF Mod(4 * x, y) = 0 THEN N(Quot(4 * x, y)) ELSE None
                     [] o = "mod" -> IF y = 0 THEN None ELSE N(Mod(x, y))
                     [] o = "rem" -> IF y = 0 THEN None ELSE N(Rem(x, y))
                     [] o = "dim" -> N(IF x > y THEN x - y ELSE 0)
                     [] o = "pow" -> IF ~Whole(y) \/ y < 0 THEN None
                                     ELSE IF y = 0 THEN N(4) ELSE IF y = 4 THEN N(x)
                                     ELSE IF y = 8 /\ Abs(x) < 200 THEN Times(x, x)
                                     ELSE IF y \in {12, 16} /\ Whole(x) /\ Abs(x) <= 28 THEN N(4 * Power(x \div 4, y \div 4)) ELSE None
                     [] o = "ldexp" -> IF ~Whole(y) THEN Err
                                       ELSE IF y \in 0..32 THEN N(x * Power(2, y \div 4))
                                       ELSE IF y \in -12..0 /\ x % Power(2, -(y \div 4)) = 0 THEN N(x \div Power(2, -(y \div 4))) ELSE None
                     [] o = "lshift" -> IF ~Whole(x) \/ ~Whole(y) \/ y < 0 THEN Err
                                        ELSE IF y <= 32 THEN N(x * Power(2, y \div 4)) ELSE None
                     [] o = "rshift" -> IF ~Whole(x) \/ ~Whole(y) \/ y < 0 THEN Err
                                        ELSE IF y <= 48 THEN N(4 * ((x \div 4) \div Power(2, y \div 4))) ELSE None

UnaryOps == {"abs", "floor", "ceil", "trunc", "sqrt", "hex", "dechex", "pow10", "exp2"}
EachOps == {"sub", "div", "mod", "dim", "pow", "lshift", "rshift"}       \* on each element of a list
ScalarOps == {"rem", "ldexp"}
BitOps == {"band", "bor", "bxor", "bclear"}
ManyOps == {"add", "mul", "min", "max", "avg"}
\* List of results of single elements
Gather(s) == IF \E i \in 1..Len(s) : s[i].k = "none" THEN None
             ELSE IF \E i \in 1..Len(s) : s[i].k = "e" THEN Err
             ELSE IF s[1].k = "word" THEN Word([hexs |-> [i \in 1..Len(s) |-> s[i].w.hex]])
             ELSE L([i \in 1..Len(s) |-> s[i].x])
RECURSIVE Product(_, _)
Product(acc, s) == IF s = <<>> \/ acc.k = "none" THEN acc ELSE Product(Times(acc.x, s[1]), Tail(s))
Many(o, s) == CASE o = "add" -> N(Sum(s))
                [] o = "mul" -> Product(N(4), s)
                [] o = "min" -> N(Min(s))
                [] o = "max" -> N(Max(s))
                [] o = "avg" -> IF Mod(Sum(s), Len(s)) = 0 THEN N(Quot(Sum(s), Len(s))) ELSE None

Apply(o, os) ==
  LET a == os[1]
      two == Len(os) = 2
      nums == \A i \in 1..Len(os) : IsN(os[i])
      xs == [i \in 1..Len(os) |-> os[i].x]
  IN CASE o \in UnaryOps -> IF ~(Len(os) = 1) THEN None ELSE IF IsN(a) THEN Unary(o, a.x) ELSE IF IsL(a) THEN Gather([i \in 1..Len(a.xs) |-> Unary(o, a.xs[i])]) ELSE Err
       [] o = "int" -> IF ~(Len(os) = 1) THEN None ELSE IF IsN(a) THEN Unary("floor", a.x) ELSE Err
       [] o = "modf" -> IF ~(Len(os) = 1) \/ IsL(a) THEN None ELSE IF IsN(a) THEN L(<<4 * Quot(a.x, 4), Mod(a.x, 4)>>) ELSE Err
       [] o \in EachOps -> IF ~two THEN None
                           ELSE IF ~IsN(os[2]) THEN Err
                           ELSE IF IsN(a) THEN Binary(o, a.x, os[2].x)
                           ELSE IF IsL(a) THEN Gather([i \in 1..Len(a.xs) |-> Binary(o, a.xs[i], os[2].x)]) ELSE Err
       [] o \in ScalarOps -> IF ~two THEN None ELSE IF nums THEN Binary(o, a.x, os[2].x) ELSE Err
       [] o \in BitOps -> IF Len(os) < 2 THEN None
                          ELSE IF nums /\ \A i \in 1..Len(os) : Whole(xs[i]) THEN N(4 * Fold(o, xs[1] \div 4, [i \in 1..Len(os) - 1 |-> xs[i + 1] \div 4]))
                          ELSE Err
       [] o \in ManyOps -> IF Len(os) = 1 THEN (IF IsL(a) THEN Many(o, a.xs) ELSE IF IsN(a) THEN Many(o, <<a.x>>) ELSE None)
                           ELSE IF nums THEN Many(o, xs)
                           ELSE IF ~two THEN None
                           ELSE IF o \in {"add", "mul"} /\ IsL(a) /\ IsN(os[2]) THEN Gather([i \in 1..Len(a.xs) |-> Binary(o, a.xs[i], os[2].x)])
                           ELSE IF o = "add" /\ IsL(a) /\ IsL(os[2]) THEN L(a.xs \o os[2].xs)
                           ELSE IF o = "add" /\ ~IsL(a) /\ ~IsL(os[2]) THEN Word([cat |-> os])
                           ELSE IF o = "mul" /\ IsL(a) /\ IsL(os[2])
                                THEN LET rows == [i \in 1..Len(os[2].xs) |-> Gather([j \in 1..Len(a.xs) |-> Times(a.xs[j], os[2].xs[i])])]
                                     IN IF \E i \in 1..Len(rows) : rows[i].k = "none" THEN None ELSE Word([rows |-> [i \in 1..Len(rows) |-> rows[i].xs]])
                           ELSE IF o = "mul" /\ a.k = "t" /\ IsN(os[2]) THEN (IF Whole(os[2].x) /\ os[2].x >= 0 THEN Word([text |-> a.s, times |-> os[2].x \div 4]) ELSE Err)
                           ELSE IF o = "mul" /\ IsN(a) /\ os[2].k = "t" THEN Err
                           ELSE IF o = "avg" /\ ~IsL(a) /\ ~IsL(os[2]) THEN Err
                           ELSE None
AllOps == UnaryOps \cup {"int", "modf"} \cup EachOps \cup ScalarOps \cup BitOps \cup ManyOps
Fits(v) == CASE v.k = "n" -> Small(v.x) [] v.k = "l" -> Len(v.xs) <= 6 /\ \A i \in 1..Len(v.xs) : Small(v.xs[i]) [] OTHER -> TRUE

-----------------------------------------------------------------------------
Scalars == {N(x) : x \in Numbers}
Pick(S, dummy) == RandomElement(S)
\* (drawn, as the sets of lists are too large)
Drawn(i) == LET r == IF Plain THEN 1 ELSE Pick(1..12, i) IN
            IF r <= 8 THEN N(Pick(Numbers, i))
            ELSE IF r <= 11 THEN L([j \in 1..Pick(2..4, i) |-> Pick(Numbers, j)])
            ELSE T("ab")
Values == Scalars \cup {L(<<x, y>>) : x \in Numbers, y \in {-3, 0, 8}} \cup {T("ab")}
Operands(dummy) == IF Sim THEN {Drawn(dummy)} ELSE Values
Arity(o) == CASE o \in UnaryOps \cup {"int", "modf"} -> {0} [] o \in EachOps \cup ScalarOps -> {1} [] o \in BitOps -> {1, 2, 3} [] o \in ManyOps -> {0, 1, 2, 3}

Init == reg = None /\ hist = <<>> /\ phase = "start"
Start == /\ phase = "start"
         /\ \E v \in Operands(0) : reg' = v /\ hist' = <<[o |-> "start", args |-> <<>>, last |-> FALSE, r |-> v]>>
         /\ phase' = "run"
Step(o, args, last) ==
  LET os == IF last THEN Append(args, reg) ELSE <<reg>> \o args
      r == Apply(o, os)
  IN IF r.k = "none" \/ ~Fits(r) THEN UNCHANGED vars        \* (the candidate is not kept)
     ELSE /\ reg' = r
          /\ hist' = Append(hist, [o |-> o, args |-> args, last |-> last, r |-> r])
          /\ phase' = IF r.k \in {"e", "word"} \/ Len(hist) = MaxSteps THEN "end" ELSE "run"
Do == /\ phase = "run"
      /\ \E o \in Some(Ops) : \E n \in Some(Arity(o)) : \E last \in (IF n = 0 THEN {FALSE} ELSE Some(BOOLEAN)) :
           IF n = 0 THEN Step(o, <<>>, FALSE)
           ELSE IF Sim THEN \E args \in {[i \in 1..n |-> Drawn(i)]} : Step(o, args, last)
           ELSE IF n = 1 THEN \E v \in Values : Step(o, <<v>>, last)
           ELSE ~last /\ \E v \in Scalars : Step(o, [i \in 1..n |-> IF i = 1 THEN v ELSE N(12)], FALSE)
\* a behaviour may end at any time
End == phase = "run" /\ Len(hist) > 3 /\ Sim /\ RandomElement(1..3) = 1 /\ phase' = "end" /\ UNCHANGED <<reg, hist>>
Next == Start \/ Do \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Before == hist[Len(hist) - 1].r
Last == hist[Len(hist)]
Moved == Len(hist) > 1
Operand(i) == IF Last.last THEN Append(Last.args, Before)[i] ELSE (<<Before>> \o Last.args)[i]
TwoN == Moved /\ Len(Last.args) = 1 /\ IsN(Before) /\ IsN(Last.args[1]) /\ reg.k = "n"
A == Operand(1).x
B == Operand(2).x
Apply2(o, a, b) == Apply(o, <<N(a), N(b)>>).x
\* The order of the operands of these operations does not matter
Commutes == (TwoN /\ Last.o \in {"add", "mul", "min", "max", "avg", "band", "bor", "bxor"}) => Apply(Last.o, <<N(B), N(A)>>) = reg
\* dividend = divisor * quotient + remainder, a remainder smaller than the divisor with the sign of the dividend (or the smallest one)
Division == /\ (TwoN /\ Last.o = "mod") => /\ A = B * Quot(A, B) + reg.x
                                           /\ Abs(reg.x) < Abs(B)
                                           /\ reg.x * A >= 0
            /\ (TwoN /\ Last.o = "rem") => 2 * Abs(reg.x) <= Abs(B) /\ (A - reg.x) % Abs(B) = 0
            /\ (TwoN /\ Last.o = "div") => reg.x * B = 4 * A
            /\ (TwoN /\ Last.o = "sub") => Apply2("add", reg.x, B) = A
            /\ (TwoN /\ Last.o = "dim") => reg.x = Max(<<0, A - B>>)
Rounding == (Moved /\ IsN(Before) /\ reg.k = "n") =>
              LET x == Before.x IN
              /\ Last.o \in {"floor", "int"} => Whole(reg.x) /\ reg.x <= x /\ x < reg.x + 4
              /\ Last.o = "ceil" => Whole(reg.x) /\ reg.x >= x /\ x > reg.x - 4
              /\ Last.o = "trunc" => Whole(reg.x) /\ Abs(reg.x) <= Abs(x) /\ Abs(x) < Abs(reg.x) + 4 /\ reg.x * x >= 0
              /\ Last.o = "sqrt" => reg.x * reg.x = 4 * x
              /\ Last.o = "dechex" => reg.x = x
Parts == (Moved /\ Last.o = "modf" /\ IsL(reg)) => reg.xs[1] + reg.xs[2] = Before.x /\ Whole(reg.xs[1]) /\ Abs(reg.xs[2]) < 4
BitLaws == (TwoN /\ Last.o \in BitOps) =>
             LET f(o) == Apply2(o, A, B) IN
             /\ f("bor") + f("band") = A + B
             /\ f("bxor") = f("bor") - f("band")
             /\ f("bclear") = A - f("band")
             /\ f("bxor") = Apply2("bor", Apply2("bclear", A, B), Apply2("bclear", B, A))
Shifts == /\ (TwoN /\ Last.o = "lshift") => Apply2("rshift", reg.x, B) = A
          /\ (TwoN /\ Last.o = "rshift" /\ B <= 28 /\ Abs(reg.x) <= MaxAbs) => LET p == Power(2, B \div 4) IN reg.x * p <= A /\ A < (reg.x + 4) * p
Between == (Moved /\ Last.o = "avg" /\ reg.k = "n" /\ IsL(Before)) => Min(Before.xs) <= reg.x /\ reg.x <= Max(Before.xs)
\* An operation on a list is the operation on each of its elements
Broadcast == (Moved /\ IsL(Before) /\ IsL(reg) /\ Last.o \in EachOps) =>
               /\ Len(reg.xs) = Len(Before.xs)
               /\ \A i \in 1..Len(reg.xs) : N(reg.xs[i]) = Apply(Last.o, <<N(Before.xs[i]), Last.args[1]>>)

EmitDone == (Emit /\ (phase = "end" \/ (~Sim /\ Len(hist) > 1))) => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
