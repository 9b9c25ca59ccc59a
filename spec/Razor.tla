-------------------------------- MODULE Razor -------------------------------
(***************************************************************************)
(* Programs of the template language: expressions with operators,         *)
(* function calls, indexing, assignments of globals, members and locals,   *)
(* if / else if / else, range, with, nested. A program is written line by  *)
(* line, then executed step by step (program counter, block frames, scopes *)
(* of local variables, globals, dot). The same program is printed in razor *)
(* syntax and in Go template syntax; both must give the output of the      *)
(* execution. Programs which leave the specified domain (type errors,      *)
(* index out of the limits, undefined values...) are "bad" and dropped,    *)
(* except for the assignments refused by the strict validation.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLines, MinLines, Depth,
          Family,      \* "expr": single prints, "assign": assignments, "all"
          Modes,       \* validation of assignments: "strict", "warning", "disabled"
          Sim, Emit

VARIABLES prog,        \* statements
          scopes,      \* static scopes while writing: sequence of [kind, locals, dot]
          mode, phase,
          pc, frames, locals, dot, globals, dct, out, err, steps
wvars == <<prog, scopes, mode>>
xvars == <<pc, frames, locals, dot, globals, dct, out, err, steps>>
vars == <<prog, scopes, mode, phase, pc, frames, locals, dot, globals, dct, out, err, steps>>

Some(T) == IF Sim /\ T # {} THEN {RandomElement(T)} ELSE T
Odds(n) == IF Sim THEN RandomElement(1..n) = 1 ELSE TRUE
-----------------------------------------------------------------------------
(* Values. Numbers are counted in quarters: integers when they are multiples *)
(* of 4, floats otherwise.                                                    *)
Num(n) == [k |-> "num", v |-> n]
Whole(n) == Num(4 * n)
Str(s) == [k |-> "str", v |-> s]
Bool(b) == [k |-> "bool", v |-> b]
List(l) == [k |-> "list", v |-> l]
Dict == [k |-> "dict", v |-> 0]          \* the only dictionary of the context
Nil == [k |-> "nil", v |-> 0]
Bad == [k |-> "bad", v |-> 0]
IsInt(x) == x.k = "num" /\ x.v % 4 = 0
Big == 4000000
Good(n) == IF n > Big \/ n < -Big THEN Bad ELSE Num(n)
Keys == <<"j", "k", "z">>                \* keys of the dictionary, in order
DictKeys == SelectSeq(Keys, LAMBDA key : dct[key].k # "nil")

Truth(x) == CASE x.k = "num" -> x.v # 0 [] x.k = "str" -> x.v # "" [] x.k = "bool" -> x.v [] x.k = "list" -> x.v # <<>>
              [] x.k = "dict" -> DictKeys # <<>> [] OTHER -> FALSE
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Band(_, _, _), Pow(_, _), Times(_, _)
\* bitwise operation on non negative integers; t is the truth table <<00, 01, 10, 11>>
Band(a, b, t) == IF a = 0 /\ b = 0 THEN 0 ELSE t[2 * (a % 2) + (b % 2) + 1] + 2 * Band(a \div 2, b \div 2, t)
Pow(a, n) == IF n = 0 THEN 1 ELSE IF Abs(a) > 1000 THEN Big
             ELSE LET p == Pow(a, n - 1) IN IF Abs(p) > 100000 THEN Big ELSE IF Abs(a * p) > Big THEN Big ELSE a * p
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)
Div(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Mod(a, b) == a - b * Div(a, b)

Arith(o, x, y) ==
  LET i == x.v \div 4
      j == y.v \div 4
      ints == IsInt(x) /\ IsInt(y)
      nat == ints /\ i >= 0 /\ j >= 0
  IN CASE o = "+" -> Good(x.v + y.v)
       [] o = "-" -> Good(x.v - y.v)
       [] o = "*" -> IF Abs(x.v) > 40000 \/ Abs(y.v) > 40000 \/ (x.v * y.v) % 4 # 0 THEN Bad ELSE Good((x.v * y.v) \div 4)
       [] o = "/" -> IF y.v = 0 \/ Abs(x.v) > Big \div 4 \/ (4 * Abs(x.v)) % Abs(y.v) # 0 THEN Bad ELSE Good(Div(4 * x.v, y.v))
       [] o = "%" -> IF ~ints \/ j = 0 THEN Bad ELSE Whole(Mod(i, j))
       [] o = "**" -> IF ~ints \/ j < 0 \/ j > 12 THEN Bad ELSE Good(4 * Pow(i, j))
       [] o = "<<" -> IF ~nat \/ j > 12 \/ i > 200 THEN Bad ELSE Good(4 * i * (2 ^ j))
       [] o = ">>" -> IF ~nat \/ j > 12 THEN Bad ELSE Whole(i \div (2 ^ j))
       [] o = "&" -> IF ~nat THEN Bad ELSE Whole(Band(i, j, <<0, 0, 0, 1>>))
       [] o = "|" -> IF ~nat THEN Bad ELSE Whole(Band(i, j, <<0, 1, 1, 1>>))
       [] o = "^" -> IF ~nat THEN Bad ELSE Whole(Band(i, j, <<0, 1, 1, 0>>))
       [] o = "&^" -> IF ~nat THEN Bad ELSE Whole(Band(i, j, <<0, 0, 1, 0>>))
NumOps == {"+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "&^"}
CmpOps == {"==", "!=", "<", "<=", ">", ">="}
Compare(o, x, y) ==
  IF x.k # y.k THEN Bad
  ELSE IF x.k = "num" THEN IF IsInt(x) # IsInt(y) THEN Bad ELSE
       CASE o = "==" -> Bool(x.v = y.v) [] o = "!=" -> Bool(x.v # y.v) [] o = "<" -> Bool(x.v < y.v)
         [] o = "<=" -> Bool(x.v <= y.v) [] o = ">" -> Bool(x.v > y.v) [] o = ">=" -> Bool(x.v >= y.v)
  ELSE IF x.k \in {"str", "bool"} /\ o \in {"==", "!="} THEN Bool((x.v = y.v) = (o = "=="))
  ELSE Bad
Binary(o, x, y) ==
  IF x.k = "bad" \/ x.k = "nil" THEN Bad
  ELSE IF o = "&&" THEN IF ~Truth(x) THEN x ELSE IF y.k = "nil" THEN Bad ELSE y
  ELSE IF o = "||" THEN IF Truth(x) THEN x ELSE IF y.k = "nil" THEN Bad ELSE y
  ELSE IF y.k \in {"bad", "nil"} THEN Bad
  ELSE IF o \in CmpOps THEN Compare(o, x, y)
  ELSE IF x.k = "num" /\ y.k = "num" THEN Arith(o, x, y)
  ELSE IF o = "+" /\ x.k = "str" /\ y.k = "str" THEN IF Len(x.v) + Len(y.v) > 60 THEN Bad ELSE Str(x.v \o y.v)
  ELSE IF o = "*" /\ x.k = "str" /\ IsInt(y) THEN IF y.v < 0 \/ y.v > 20 \/ Len(x.v) > 12 THEN Bad ELSE Str(Times(x.v, y.v \div 4))
  ELSE IF o = "+" /\ x.k = "list" /\ y.k = "list" THEN IF Len(x.v) + Len(y.v) > 12 THEN Bad ELSE List(x.v \o y.v)
  ELSE Bad

Upper == [c \in {"s", "t", "r", "x", "q", "a", "b", "y", "k", "j", "z", "d", "e", "f", "u", "l"} |-> CASE c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] c = "u" -> "U" [] c = "l" -> "L" [] c = "a" -> "A" [] c = "b" -> "B" [] c = "y" -> "Y" [] c = "k" -> "K" [] c = "j" -> "J" [] c = "z" -> "Z" [] c = "s" -> "S" [] c = "t" -> "T" [] c = "r" -> "R" [] c = "x" -> "X" [] c = "q" -> "Q"]
RECURSIVE UpperOf(_)
UpperOf(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in DOMAIN Upper THEN Upper[c] ELSE c) \o UpperOf(SubSeq(s, 2, Len(s)))
Ints(args) == \A n \in 1..Len(args) : IsInt(args[n])
RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN 0 ELSE Head(l).v + Sum(Tail(l))
Best(l, gt) == CHOOSE x \in {l[n] : n \in 1..Len(l)} : \A n \in 1..Len(l) : IF gt THEN x.v >= l[n].v ELSE x.v <= l[n].v
Call(f, a) ==
  CASE f = "len" -> IF a[1].k \in {"str", "list"} THEN Whole(Len(a[1].v)) ELSE Bad
    [] f = "add" -> IF Ints(a) THEN Good(Sum(a)) ELSE Bad
    [] f = "max" -> IF Ints(a) THEN Best(a, TRUE) ELSE Bad
    [] f = "min" -> IF Ints(a) THEN Best(a, FALSE) ELSE Bad
    [] f = "upper" -> IF a[1].k = "str" THEN Str(UpperOf(a[1].v)) ELSE Bad
    [] f = "list" -> IF \E n \in 1..Len(a) : a[n].k \notin {"num", "str", "bool"} THEN Bad ELSE List(a)
    [] f \in {"iif", "ternary"} -> IF Truth(a[1]) THEN a[2] ELSE a[3]
    [] f = "default" -> IF Truth(a[2]) THEN a[2] ELSE a[1]
    [] f = "not" -> Bool(~Truth(a[1]))
    [] f = "first" -> IF a[1].k = "list" /\ a[1].v # <<>> THEN a[1].v[1] ELSE Bad
    [] f = "last" -> IF a[1].k = "list" /\ a[1].v # <<>> THEN a[1].v[Len(a[1].v)] ELSE Bad
    [] f = "append" -> IF a[1].k = "list" /\ a[2].k = "num" /\ Len(a[1].v) < 12 THEN List(Append(a[1].v, a[2])) ELSE Bad

Local(n) == LET s == {j \in 1..Len(locals) : locals[j].n = n} IN IF s = {} THEN Bad ELSE locals[CHOOSE j \in s : \A m \in s : m <= j].v
At(x, y) == IF x.k \notin {"list", "str"} \/ ~IsInt(y) THEN Bad
            ELSE LET j == y.v \div 4
                     p == IF j < 0 THEN Len(x.v) + j + 1 ELSE j + 1
                 IN IF p < 1 \/ p > Len(x.v) THEN Bad ELSE IF x.k = "str" THEN Str(SubSeq(x.v, p, p)) ELSE x.v[p]
Min2(a, b) == IF a < b THEN a ELSE b
Slice(x, y, z) == IF x.k \notin {"list", "str"} \/ ~IsInt(y) \/ ~IsInt(z) \/ y.v < 0 \/ z.v < y.v THEN Bad
                  ELSE LET a == y.v \div 4
                           b == Min2(z.v \div 4, Len(x.v))
                       IN IF a > Len(x.v) \/ (x.k = "str" /\ a = b) THEN Bad ELSE [k |-> x.k, v |-> SubSeq(x.v, a + 1, b)]
Reversed(l) == [n \in 1..Len(l) |-> l[Len(l) + 1 - n]]
\* methods of the lists and of the dictionary
Method(n, x, a) ==
  IF x.k = "list" THEN
     CASE n = "Append" -> IF (\A j \in 1..Len(a) : a[j].k = "num") /\ Len(x.v) + Len(a) <= 12 THEN List(x.v \o a) ELSE Bad
       [] n = "Reverse" -> List(Reversed(x.v))
       [] n = "Contains" -> IF Ints(a) /\ \A j \in 1..Len(x.v) : x.v[j].k = "num" /\ IsInt(x.v[j]) THEN Bool(\E j \in 1..Len(x.v) : x.v[j] = a[1]) ELSE Bad
       [] n = "First" -> IF x.v # <<>> THEN x.v[1] ELSE Bad
       [] n = "Last" -> IF x.v # <<>> THEN x.v[Len(x.v)] ELSE Bad
       [] n = "Get" -> IF IsInt(a[1]) /\ a[1].v >= 0 THEN At(x, a[1]) ELSE Bad
       [] n = "Len" -> Whole(Len(x.v))
       [] OTHER -> Bad
  ELSE IF x.k = "dict" THEN
     CASE n = "Has" -> Bool(dct[a[1].v].k # "nil")
       [] n = "Get" -> IF dct[a[1].v].k = "nil" THEN Bad ELSE dct[a[1].v]
       [] n = "Default" -> IF dct[a[1].v].k = "nil" THEN a[2] ELSE dct[a[1].v]
       [] n = "Len" -> Whole(Len(DictKeys))
       [] OTHER -> Bad
  ELSE Bad
RECURSIVE EvalIn(_, _)
\* value of an expression when the dot is x0
EvalIn(e, x0) ==
  CASE e.t = "lit" -> e.v
    [] e.t = "g" -> globals[e.n]
    [] e.t = "l" -> Local(e.n)
    [] e.t = "dot" -> x0
    [] e.t = "dotm" -> IF x0.k = "ctx" THEN (IF e.n \in DOMAIN globals THEN globals[e.n] ELSE Bad)
                       ELSE IF x0.k = "dict" /\ e.n \in DOMAIN dct THEN dct[e.n] ELSE Bad
    [] e.t = "mem" -> LET x == EvalIn(e.e, x0) IN IF x.k = "dict" THEN dct[e.n] ELSE Bad
    [] e.t = "dlit" -> EvalIn(e.e, x0)
    [] e.t = "op" -> LET x == EvalIn(e.l, x0) IN
                     IF x.k = "bad" THEN Bad ELSE IF (e.o = "&&" /\ x.k # "bad" /\ ~Truth(x)) \/ (e.o = "||" /\ Truth(x)) THEN Binary(e.o, x, Nil) ELSE Binary(e.o, x, EvalIn(e.r, x0))
    [] e.t = "neg" -> LET x == EvalIn(e.e, x0) IN IF x.k = "num" THEN Num(-x.v) ELSE Bad
    [] e.t = "not" -> LET x == EvalIn(e.e, x0) IN IF x.k \in {"bad", "nil"} THEN Bad ELSE Bool(~Truth(x))
    [] e.t = "call" -> LET a == [n \in 1..Len(e.a) |-> EvalIn(e.a[n], x0)] IN
                       IF \E n \in 1..Len(a) : a[n].k \in {"bad", "dict"} \/ (a[n].k = "nil" /\ ~(e.f = "default" /\ n = 2)) THEN Bad ELSE Call(e.f, a)
    [] e.t = "meth" -> LET x == EvalIn(e.e, x0)
                           a == [n \in 1..Len(e.a) |-> EvalIn(e.a[n], x0)] IN
                       IF \E n \in 1..Len(a) : a[n].k \in {"bad", "nil", "dict"} THEN Bad ELSE Method(e.n, x, a)
    [] e.t = "idx" -> At(EvalIn(e.e, x0), EvalIn(e.i, x0))
    [] e.t = "ext" -> LET x == EvalIn(e.e, x0)
                          a == [n \in 1..Len(e.a) |-> At(x, EvalIn(e.a[n], x0))] IN
                      IF x.k # "list" \/ \E n \in 1..Len(a) : a[n].k = "bad" THEN Bad ELSE List(a)
    [] e.t = "slc" -> LET x == EvalIn(e.e, x0) IN       \* a first limit with a sign counts from the end, in reverse order: not specified
                      IF e.a.t = "neg" /\ e.b.t = "none" THEN Bad ELSE Slice(x, IF e.a.t = "none" THEN Whole(0) ELSE EvalIn(e.a, x0),
                               IF e.b.t # "none" THEN EvalIn(e.b, x0) ELSE IF x.k \in {"list", "str"} THEN Whole(Len(x.v)) ELSE Bad)
Eval(e) == EvalIn(e, dot)
-----------------------------------------------------------------------------
(* Random (or exhaustive) typed expressions, within the static scopes.        *)
None == [t |-> "none"]
Lit(v) == [t |-> "lit", v |-> v]
G(n) == [t |-> "g", n |-> n]
L(n) == [t |-> "l", n |-> n]
Op(o, l, r) == [t |-> "op", o |-> o, l |-> l, r |-> r]
Fn(f, a) == [t |-> "call", f |-> f, a |-> a]
Meth(e, n, a) == [t |-> "meth", e |-> e, n |-> n, a |-> a]
GType == [a |-> "num", b |-> "num", x |-> "num", y |-> "num", z |-> "num", s |-> "str", u |-> "str", e |-> "str", f |-> "bool",
          w |-> "bool", l |-> "list", m |-> "list", d |-> "dict"]
LType == [n |-> "num", i |-> "num", v |-> "num", t |-> "str", k |-> "str", p |-> "list", h |-> "bool", q |-> "dict"]
Top == scopes[Len(scopes)]
Visible == UNION {scopes[j].locals : j \in 1..Len(scopes)}
Globals(ty) == {n \in DOMAIN GType : GType[n] = ty}
\* in a random program, the unset globals are read only when some previous line assigns them
Written(n) == n \notin {"x", "y", "u", "w", "m"} \/ ~Sim \/ \E j \in 1..Len(prog) : prog[j].s \in {"gset", "dset"} /\ prog[j].n = n
Lits(ty) == CASE ty = "num" -> {Lit(Whole(n)) : n \in {0, 1, 2, 3, 5, 7, 10}} \cup (IF Odds(4) THEN {Lit(Num(6)), Lit(Num(10))} ELSE {})
              [] ty = "str" -> {Lit(Str(x)) : x \in {"x", "st", "q", "a*b", "-", "x ( y", "x@y", "$1", "a$$", "50%", "<>", " .x", "...", "default", "${x", "$s"}}
              [] ty = "bool" -> {Lit(Bool(TRUE)), Lit(Bool(FALSE))}
              [] ty = "list" -> {Fn("list", <<Lit(Whole(5)), Lit(Whole(0)), Lit(Whole(8))>>), Fn("list", <<G("a")>>), Fn("list", <<>>)}
              [] OTHER -> {}
Small(ty) == CASE ty = "num" -> {G("a"), G("b"), Lit(Whole(3))} [] ty = "str" -> {G("s"), Lit(Str("a*b"))} [] ty = "bool" -> {G("f"), Lit(Bool(TRUE))}
               [] ty = "list" -> {G("l")} [] OTHER -> {}
Leaves(ty) ==
  IF ~Sim THEN Small(ty)
  ELSE Lits(ty) \cup {G(n) : n \in {g \in Globals(ty) : Written(g)}} \cup {L(n) : n \in {x \in Visible : LType[x] = ty}}
       \cup (IF Top.dot = ty /\ ty # "dict" THEN {[t |-> "dot"]} ELSE {})
       \cup (IF ty = "num" /\ Top.dot = "dict" THEN {[t |-> "dotm", n |-> "k"]} ELSE {})
       \cup (IF Top.dot = "ctx" THEN {[t |-> "dotm", n |-> n] : n \in {g \in Globals(ty) \ {"x", "y", "u", "w", "m", "d"} : TRUE}} ELSE {})
       \cup (IF ty = "num" THEN {[t |-> "mem", e |-> D, n |-> "k"] : D \in {G("d")} \cup {L(x) : x \in Visible \cap {"q"}}} ELSE {})

\* forms of an expression of a type
Shapes(ty) == {"bin", "bin2", "logic", "tern", "iif", "default", "paren"} \cup
  CASE ty = "num" -> {"neg", "idx", "fn1", "fn2", "dkey", "dlit", "arith", "arith2", "prec", "mnum"}
    [] ty = "bool" -> {"not", "notf", "cmp", "cmp2", "cmp3", "mbool"}
    [] ty = "str" -> {"sidx", "slice", "upper", "times"}
    [] ty = "list" -> {"slice", "listof", "append", "slice2", "mlist"}
Ops(ty) == CASE ty = "num" -> NumOps [] ty = "bool" -> {"&&", "||"} [] ty = "str" -> {"+"} [] ty = "list" -> {"+"}
Lower(d) == IF Sim THEN RandomElement(0..d - 1) ELSE 0     \* exhaustive: one deep operand only
Near(f) == IF Sim /\ RandomElement(1..3) > 1 THEN {RandomElement({Lit(Whole(0)), Lit(Whole(1)), Lit(Whole(2)), Lit(Whole(-1)), G("b"), G("z"), Op("-", G("a"), G("b"))})} ELSE f
\* the object of a call of method
Object(S) == LET O == {x \in S : x.t \in {"g", "l", "meth"} \/ (x.t = "call" /\ x.f \in {"list", "append"})} IN IF O = {} THEN {G("l")} ELSE O
Key == IF Sim THEN {Lit(Str(RandomElement({"k", "j", "z"})))} ELSE {Lit(Str("k")), Lit(Str("z"))}
DictObject(d) == IF Sim THEN {G("d")} \cup {L(x) : x \in Visible \cap {"q"}} ELSE {G("d")}
RECURSIVE Exprs(_, _)
Exprs(ty, d) ==
  IF d <= 0 \/ ty = "dict" THEN Some(Leaves(ty))
  ELSE LET form == Some(Shapes(ty))
           E(t) == Exprs(t, d - 1)
           F(t) == Exprs(t, Lower(d))
           Make(sh) ==
     CASE sh \in {"bin", "arith"} -> {Op(o, x, y) : o \in Some(Ops(ty)), x \in E(ty), y \in F(ty)}
       [] sh \in {"bin2", "arith2"} -> {Op(o, x, y) : o \in Some(Ops(ty)), x \in F(ty), y \in E(ty)}
       [] sh = "prec" -> IF Sim THEN {Op(o, Op(p, x, y), z) : o \in Some(NumOps), p \in Some(NumOps), x \in F(ty), y \in F(ty), z \in F(ty)} ELSE {}
       [] sh = "logic" -> {Op(o, x, y) : o \in Some({"&&", "||"}), x \in F(ty), y \in F(ty)}
       [] sh = "tern" -> IF Odds(3) THEN {Fn("ternary", <<c, x, y>>) : x \in F(ty), y \in F(ty), c \in F("bool")} ELSE E(ty)
       [] sh = "iif" -> IF Odds(3) THEN {Fn("iif", <<c, x, y>>) : x \in F(ty), y \in F(ty), c \in F("bool")} ELSE E(ty)
       [] sh = "default" -> IF Odds(2) THEN {Fn("default", <<x, y>>) : x \in F(ty), y \in F(ty) \cup (IF Sim THEN {} ELSE {G("x")})} ELSE E(ty)
       [] sh = "paren" -> E(ty)
       [] sh = "neg" -> {[t |-> "neg", e |-> x] : x \in E(ty)}
       [] sh = "idx" -> {[t |-> "idx", e |-> x, i |-> y] : x \in F("list"), y \in Near(F("num"))}
       [] sh = "fn1" -> {Fn("len", <<x>>) : x \in IF Sim THEN F(RandomElement({"list", "str"})) ELSE F("list") \cup F("str")} \cup (IF Odds(2) THEN {Fn(f, <<x>>) : f \in Some({"first", "last"}), x \in F("list")} ELSE {})
       [] sh = "fn2" -> {Fn(f, <<x, y>>) : f \in Some({"add", "max", "min"}), x \in F(ty), y \in F(ty)}
       [] sh = "dkey" -> {[t |-> "mem", e |-> x, n |-> "k"] : x \in {G("d")}}
       [] sh = "dlit" -> {[t |-> "dlit", e |-> x] : x \in F(ty)}
       [] sh = "not" -> {[t |-> "not", e |-> x] : x \in E(ty)}
       [] sh = "notf" -> {Fn("not", <<x>>) : x \in E(IF Sim THEN RandomElement({"num", "bool", "str"}) ELSE "num")}
       [] sh \in {"cmp", "cmp2"} -> {Op(o, x, y) : o \in Some(CmpOps), x \in E("num"), y \in F("num")}
       [] sh = "cmp3" -> {Op(o, x, y) : o \in Some({"==", "!="}), x \in E("str"), y \in F("str")} \cup
                         {Op(o, x, y) : o \in Some({"==", "!="}), x \in F("bool"), y \in E("bool")}
       [] sh = "sidx" -> {[t |-> "idx", e |-> x, i |-> y] : x \in F("str"), y \in Near(F("num"))}
       [] sh \in {"slice", "slice2"} -> {[t |-> "slc", e |-> x, a |-> y, b |-> z] : x \in F(ty),
              y \in Some({None} \cup Near(F("num"))) , z \in Some({None} \cup Near(F("num")))}
       [] sh = "upper" -> {Fn("upper", <<x>>) : x \in E("str")}
       [] sh = "times" -> {Op("*", x, y) : x \in F("str"), y \in F("num")}
       [] sh = "listof" -> {Fn("list", <<x, y>>) : x \in F("num"), y \in F("num")} \cup (IF Odds(3) THEN {Fn("list", <<x>>) : x \in F("num")} ELSE {})
       [] sh = "append" -> {Fn("append", <<x, y>>) : x \in F("list"), y \in F("num")}
       [] sh = "mnum" -> CASE Sim /\ RandomElement(1..2 * d) % 2 = 1 -> {Meth(x, "Default", <<k, y>>) : x \in Some(DictObject(d)), k \in Key, y \in F(ty)} \cup {Meth(x, "Get", <<k>>) : x \in Some(DictObject(d)), k \in Key}
                           [] OTHER -> {Meth(x, n, <<>>) : x \in Object(F("list")), n \in Some({"First", "Last", "Len"})} \cup {Meth(x, "Get", <<y>>) : x \in Object(F("list")), y \in Some({Lit(Whole(0)), Lit(Whole(1)), Lit(Whole(2))})}
       [] sh = "mbool" -> {Meth(x, "Contains", <<y>>) : x \in Object(F("list")), y \in F("num")} \cup {Meth(x, "Has", <<k>>) : x \in Some(DictObject(d)), k \in Key}
       [] sh = "mlist" -> CASE Sim /\ RandomElement(1..3 * d) % 3 = 1 -> {Meth(x, "Reverse", <<>>) : x \in Object(F("list"))}
                            [] Sim /\ RandomElement(1..3 * d) % 3 = 1 -> {Meth(x, "Append", <<y, z, y, z, y>>) : x \in Object(F("list")), y \in F("num"), z \in F("num")}
                            [] OTHER -> {Meth(x, "Append", <<y>>) : x \in Object(F("list")), y \in F("num")} \cup {Meth(x, "Append", <<y, z>>) : x \in Object(F("list")), y \in F("num"), z \in F("num")}
       IN  UNION {Make(sh) : sh \in form} \cup (IF Sim THEN {} ELSE Leaves(ty))
Expr(ty, d) == Some(Exprs(ty, d))
Types == {"num", "str", "bool", "list"}
-----------------------------------------------------------------------------
(* Statements.                                                               *)
Styles(p) == IF Sim THEN {RandomElement(0..11)} ELSE {0, 1}
OpSyms(ty) == CASE ty = "num" -> {"=", ":=", "+", "-", "*", "/", "&", "|", "^", "<<", ">>", "%", "&^"} [] ty \in {"str", "list"} -> {"=", ":=", "+"} [] OTHER -> {"=", ":="}
Assigned(op, ty) == IF op = "<<" \/ op = ">>" THEN Exprs(ty, 0) ELSE Expr(ty, IF Sim THEN RandomElement(0..Depth) ELSE 0)
Names(ty) == IF Sim THEN Globals(ty) ELSE Globals(ty) \cap {"a", "x", "z", "s", "u", "f"}
\* several elements of a list, in a given order (this form is a statement, not an operand)
Extracts == {[t |-> "ext", e |-> x, a |-> <<y, z>>] : x \in Expr("list", Depth - 1), y \in Near(Expr("num", 0)), z \in Near(Expr("num", 0))}
            \cup {[t |-> "ext", e |-> x, a |-> <<y, z, y>>] : x \in Leaves("list"), y \in Near(Expr("num", 1)), z \in Near(Expr("num", 1))}
Simple == {[s |-> "print", e |-> e] : e \in IF Sim /\ RandomElement(1..15) = 1 THEN Extracts ELSE IF Sim THEN Expr(RandomElement(Types), Depth) ELSE UNION {Exprs(ty, Depth) : ty \in Types}}
\* two expressions on a line
Pairs == {[s |-> "pair", e |-> e, f |-> f] : e \in Expr(RandomElement(Types), Depth), f \in Expr(RandomElement(Types), Depth)}
OneType(p) == CHOOSE ty \in {IF Sim THEN RandomElement(Types) ELSE "num"} : TRUE
Assigns(ty) ==
  CASE Sim /\ RandomElement(1..2) = 1 -> {[s |-> "gset", n |-> n, op |-> op, e |-> e] : n \in Some(Names(ty)), op \in Some(OpSyms(ty)), e \in Assigned("", ty)}
    [] Sim /\ RandomElement(1..2) = 1 -> {[s |-> "lset", n |-> n, op |-> op, e |-> e] : n \in Some({x \in DOMAIN LType : LType[x] = ty}), op \in Some(OpSyms(ty)), e \in Assigned("", ty)}
    [] Sim /\ RandomElement(1..3) = 1 -> {[s |-> "lset", n |-> "q", op |-> ":=", e |-> G("d")]}
    [] Sim /\ RandomElement(1..2) = 1 /\ Top.dot \in {"ctx", "dict"} ->
         {[s |-> "dset", n |-> n, op |-> op, e |-> e] : n \in Some(IF Top.dot = "ctx" THEN {"x", "y", "a"} ELSE {"k", "z"}), op \in Some(OpSyms("num")), e \in Assigned("", "num")}
    [] Sim -> {[s |-> "mset", o |-> o, n |-> n, op |-> op, e |-> e] : o \in Some({G("d")} \cup {L(x) : x \in Visible \cap {"q"}}),
                n \in Some({"k", "j", "z"}), op \in Some(OpSyms("num")), e \in Assigned("", "num")}
    [] OTHER -> {[s |-> "gset", n |-> n, op |-> op, e |-> e] : n \in {"a", "x", "z"}, op \in {"=", ":=", "+"}, e \in {Lit(Whole(3)), G("x")}}
                \cup {[s |-> "lset", n |-> "n", op |-> op, e |-> e] : op \in {"=", ":=", "+"}, e \in {Lit(Whole(5)), G("a")}}
                \cup {[s |-> "mset", o |-> o, n |-> n, op |-> op, e |-> Lit(Whole(3))] : o \in {G("d")} \cup {L(x) : x \in Visible \cap {"q"}}, n \in {"k", "z"}, op \in {"=", ":=", "+"}}
                \cup {[s |-> "lset", n |-> "q", op |-> ":=", e |-> G("d")]}
                \cup {[s |-> "gset", n |-> n, op |-> "=", e |-> e] : n \in {"e", "f"}, e \in {Lit(Whole(0))}}
Blocks == {[s |-> "if", e |-> e] : e \in Expr(CHOOSE ty \in Some({"bool", "num", "list"}) : TRUE, Depth - 1)}
Loops == CASE RandomElement(1..3) = 1 -> {[s |-> "range", i |-> "", v |-> "", e |-> e] : e \in Expr("list", Depth - 1)}
           [] RandomElement(1..2) = 1 -> {[s |-> "range", i |-> i, v |-> "v", e |-> e] : e \in Expr("list", Depth - 1), i \in Some({"", "i"})}
           [] OTHER -> {[s |-> "range", i |-> "k", v |-> "v", e |-> G("d")]}
Withs == CASE RandomElement(1..2) = 1 -> {[s |-> "with", v |-> "", e |-> G("d")]}
           [] RandomElement(1..2) = 1 -> {[s |-> "with", v |-> "q", e |-> G("d")]}
           [] OTHER -> {[s |-> "with", v |-> v, e |-> e] : v \in Some({"", "n"}), e \in Expr("num", Depth - 1)}
\* single line blocks: the action prints a variable or an expression
Lines == {[s |-> "line", c |-> c, x |-> x, e |-> e] :
            c \in Some({[s |-> "if", e |-> y] : y \in Expr("bool", Depth - 1)} \cup {[s |-> "range", i |-> "", v |-> "", e |-> y] : y \in Expr("list", 1)}
                       \cup {[s |-> "with", v |-> "n", e |-> y] : y \in Expr("num", 1)}), x \in Some({0, 1}), e \in Some(Exprs("num", 1) \cup {Op("+", [t |-> "dot"], G("b"))})}
Opener(st) == st.s \in {"if", "range", "with"}
NeedsDeclared(st) == st.s = "lset" /\ st.op # ":="
Candidates ==
  IF Family = "expr" THEN (IF Sim /\ RandomElement(1..4) = 1 THEN Pairs ELSE Simple)
  ELSE IF Family = "assign" /\ ~Sim THEN Assigns("num")
  ELSE IF Len(scopes) > 1 /\ Len(prog) + Len(scopes) > MaxLines THEN {[s |-> "end"]}
  ELSE LET r == RandomElement(1..20) IN
       IF Len(scopes) > 1 /\ r \in 1..5 THEN {[s |-> "end"]}
       ELSE IF Len(scopes) > 1 /\ r = 6 THEN {[s |-> "else"]}
       ELSE IF Len(scopes) > 1 /\ r = 7 THEN {[s |-> "elseif", e |-> e] : e \in Expr("bool", Depth - 1)}
       ELSE IF r \in 8..9 /\ Len(scopes) < 4 THEN (IF RandomElement(1..5) < 3 THEN Blocks ELSE IF RandomElement(1..3) < 3 THEN Loops ELSE Withs)
       ELSE IF r = 10 THEN Lines
       ELSE IF r = 20 THEN Pairs
       ELSE IF r \in 11..16 \/ (Family = "assign" /\ r \in 17..18) THEN Assigns(OneType(prog))
       ELSE Simple
DotIn(st) == IF st.s = "range" THEN "num" ELSE IF st.e.t = "g" /\ st.e.n = "d" THEN "dict" ELSE "num"
Declares(st) == CASE st.s = "range" -> {st.i, st.v} \ {""} [] st.s = "with" -> {st.v} \ {""} [] OTHER -> {}
SetTop(sc) == [scopes EXCEPT ![Len(scopes)] = sc]
Closed == SubSeq(scopes, 1, Len(scopes) - 1)
Scoped(st) ==
  CASE Opener(st) -> Append(scopes, [kind |-> st.s, locals |-> Declares(st), dot |-> IF st.s = "if" THEN Top.dot ELSE DotIn(st), decl |-> Declares(st)])
    [] st.s = "end" -> Closed
    [] st.s = "elseif" -> SetTop([Top EXCEPT !.locals = {}])
    [] st.s = "else" -> SetTop([kind |-> "else", locals |-> IF Top.kind = "with" THEN Top.decl ELSE {}, dot |-> scopes[Len(scopes) - 1].dot, decl |-> {}])
    [] st.s = "lset" /\ st.op = ":=" -> SetTop([Top EXCEPT !.locals = @ \cup {st.n}])
    [] OTHER -> scopes
Allowed(st) == /\ NeedsDeclared(st) => st.n \in Visible
               /\ st.s \in {"else", "elseif"} => Top.kind # "else"
               /\ st.s = "elseif" => Top.kind = "if"
Init == /\ prog = <<>> /\ scopes = <<[kind |-> "top", locals |-> {}, dot |-> "ctx", decl |-> {}]>>
        /\ mode \in Modes /\ phase = "write"
        /\ pc = 1 /\ frames = <<>> /\ locals = <<>> /\ dot = [k |-> "ctx", v |-> 0] /\ out = <<>> /\ err = 0 /\ steps = 0
        /\ globals = [n \in DOMAIN GType |->
             CASE n = "a" -> Whole(4) [] n = "b" -> Whole(2) [] n = "z" -> Whole(0) [] n = "s" -> Str("str") [] n = "e" -> Str("") [] n = "f" -> Bool(FALSE)
               [] n = "l" -> List(<<Whole(1), Whole(2), Whole(3)>>) [] n = "d" -> Dict [] OTHER -> Nil]
        /\ dct = [n \in {"j", "k", "z"} |-> IF n = "k" THEN Whole(7) ELSE Nil]
Write == /\ phase = "write" /\ Len(prog) < MaxLines
         /\ \E st \in Candidates : \E y \in Styles(prog) :
              /\ Allowed(st)
              /\ prog' = Append(prog, st @@ [y |-> y]) /\ scopes' = Scoped(st)
         /\ UNCHANGED <<mode, phase>> /\ UNCHANGED xvars
Start == /\ phase = "write" /\ Len(scopes) = 1 /\ Len(prog) >= MinLines
         /\ phase' = "run" /\ UNCHANGED wvars /\ UNCHANGED xvars
-----------------------------------------------------------------------------
(* Execution.                                                                *)
RECURSIVE Branch(_, _)
\* next line at the same level, from line n, which is an else if, an else or the end of the block
Branch(n, d) == IF d = 0 /\ prog[n].s \in {"else", "elseif", "end"} THEN n
                ELSE Branch(n + 1, IF Opener(prog[n]) THEN d + 1 ELSE IF prog[n].s = "end" THEN d - 1 ELSE d)
RECURSIVE EndOf(_)
EndOf(n) == LET m == Branch(n, 0) IN IF prog[m].s = "end" THEN m ELSE EndOf(m + 1)

Combine(op, old, v) == IF op \in {"=", ":="} THEN v ELSE Binary(op, old, v)
Bound(n, v) == IF n = "" THEN <<>> ELSE <<[n |-> n, v |-> v]>>
\* items of a loop: sequence of <<index, element>>
Items(v) == IF v.k = "list" THEN [j \in 1..Len(v.v) |-> <<Whole(j - 1), v.v[j]>>]
            ELSE [j \in 1..Len(DictKeys) |-> <<Str(DictKeys[j]), dct[DictKeys[j]]>>]
Stmt == prog[pc]
Storable(v) == v.k \in {"num", "str", "bool", "list"}
Fail(kind) == phase' = kind /\ UNCHANGED <<pc, frames, locals, dot, globals, dct, out>>
Refuse == err' = pc /\ Fail("refused")
Go(n) == pc' = n /\ phase' = phase
Exec ==
  /\ phase = "run" /\ pc <= Len(prog) /\ steps' = steps + 1 /\ UNCHANGED wvars
  /\ LET st == Stmt
         v == IF st.s \in {"else", "end"} THEN Nil
              ELSE IF st.s = "elseif" /\ frames[Len(frames)].done THEN Nil ELSE IF st.s = "line" THEN Eval(st.c.e) ELSE Eval(st.e) IN
     IF v.k = "bad" \/ steps > 150 \/ (st.s = "range" /\ v.k \notin {"list", "dict"}) \/ (st.s = "line" /\ st.c.s = "range" /\ v.k # "list") THEN Fail("bad") /\ UNCHANGED err
     ELSE
     CASE st.s = "print" ->
            IF v.k \in {"nil", "dict"} THEN Fail("bad") /\ UNCHANGED err
            ELSE out' = Append(out, v) /\ Go(pc + 1) /\ UNCHANGED <<frames, locals, dot, globals, dct, err>>
       [] st.s = "pair" ->
            LET w == Eval(st.f) IN
            IF v.k \in {"nil", "dict"} \/ w.k \in {"nil", "dict", "bad"} THEN Fail("bad") /\ UNCHANGED err
            ELSE out' = out \o <<v, w>> /\ Go(pc + 1) /\ UNCHANGED <<frames, locals, dot, globals, dct, err>>
       [] st.s = "gset" \/ (st.s = "dset" /\ dot.k = "ctx") ->
            LET old == globals[st.n]
                new == Combine(st.op, old, v) IN
            IF st.op # ":=" /\ mode = "strict" /\ old.k = "nil" THEN Refuse
            ELSE IF ~Storable(new) THEN Fail("bad") /\ UNCHANGED err
            ELSE globals' = [globals EXCEPT ![st.n] = new] /\ Go(pc + 1) /\ UNCHANGED <<frames, locals, dot, dct, out, err>>
       [] st.s \in {"mset", "dset"} ->
            LET obj == IF st.s = "dset" THEN dot ELSE Eval(st.o)
                old == dct[st.n]
                new == Combine(st.op, old, v)
                \* members of local variables are not validated
                checked == st.s = "dset" \/ st.o.t = "g" IN
            IF obj.k # "dict" THEN Fail("bad") /\ UNCHANGED err
            ELSE IF st.op # ":=" /\ mode = "strict" /\ old.k = "nil" /\ checked THEN Refuse
            ELSE IF ~Storable(new) \/ new.k # "num" THEN Fail("bad") /\ UNCHANGED err
            ELSE dct' = [dct EXCEPT ![st.n] = new] /\ Go(pc + 1) /\ UNCHANGED <<frames, locals, dot, globals, out, err>>
       [] st.s = "lset" ->
            LET old == Local(st.n)
                new == Combine(st.op, old, v)
                j == CHOOSE x \in 1..Len(locals) : locals[x].n = st.n /\ \A y \in 1..Len(locals) : locals[y].n = st.n => y <= x IN
            IF (st.op # ":=" /\ old.k = "bad") \/ ~(Storable(new) \/ new.k = "dict") THEN Fail("bad") /\ UNCHANGED err
            ELSE /\ locals' = IF st.op = ":=" THEN Append(locals, [n |-> st.n, v |-> new]) ELSE [locals EXCEPT ![j].v = new]
                 /\ Go(pc + 1) /\ UNCHANGED <<frames, dot, globals, dct, out, err>>
       [] st.s = "if" ->
            /\ frames' = Append(frames, [s |-> "if", open |-> pc, done |-> Truth(v), base |-> Len(locals), dot |-> dot, items |-> <<>>])
            /\ Go(IF Truth(v) THEN pc + 1 ELSE Branch(pc + 1, 0)) /\ UNCHANGED <<locals, dot, globals, dct, out, err>>
       [] st.s = "with" ->
            /\ frames' = Append(frames, [s |-> "with", open |-> pc, done |-> Truth(v), base |-> Len(locals), dot |-> dot, items |-> <<>>])
            /\ locals' = locals \o Bound(st.v, v)
            /\ dot' = IF Truth(v) THEN v ELSE dot
            /\ Go(IF Truth(v) THEN pc + 1 ELSE Branch(pc + 1, 0)) /\ UNCHANGED <<globals, dct, out, err>>
       [] st.s = "range" ->
            LET its == Items(v) IN
            /\ frames' = Append(frames, [s |-> "range", open |-> pc, done |-> its # <<>>, base |-> Len(locals), dot |-> dot,
                                         items |-> IF its = <<>> THEN its ELSE Tail(its)])
            /\ locals' = IF its = <<>> THEN locals ELSE locals \o Bound(st.i, its[1][1]) \o Bound(st.v, its[1][2])
            /\ dot' = IF its = <<>> THEN dot ELSE its[1][2]
            /\ Go(IF its # <<>> THEN pc + 1 ELSE Branch(pc + 1, 0)) /\ UNCHANGED <<globals, dct, out, err>>
       [] st.s = "elseif" /\ ~frames[Len(frames)].done ->
            /\ frames' = [frames EXCEPT ![Len(frames)].done = Truth(v)]
            /\ Go(IF Truth(v) THEN pc + 1 ELSE Branch(pc + 1, 0)) /\ UNCHANGED <<locals, dot, globals, dct, out, err>>
       [] st.s = "else" /\ ~frames[Len(frames)].done ->
            /\ frames' = [frames EXCEPT ![Len(frames)].done = TRUE]
            /\ Go(pc + 1) /\ UNCHANGED <<locals, dot, globals, dct, out, err>>
       [] st.s \in {"else", "elseif", "end"} ->      \* end of a branch: next iteration or end of the block
            LET fr == frames[Len(frames)]
                op == prog[fr.open] IN
            IF fr.s = "range" /\ fr.items # <<>>
            THEN /\ frames' = [frames EXCEPT ![Len(frames)].items = Tail(@)]
                 /\ locals' = SubSeq(locals, 1, fr.base) \o Bound(op.i, fr.items[1][1]) \o Bound(op.v, fr.items[1][2])
                 /\ dot' = fr.items[1][2] /\ Go(fr.open + 1) /\ UNCHANGED <<globals, dct, out, err>>
            ELSE /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
                 /\ locals' = SubSeq(locals, 1, fr.base) /\ dot' = fr.dot
                 /\ Go(EndOf(pc) + 1) /\ UNCHANGED <<globals, dct, out, err>>
       [] st.s = "line" ->
            LET n == IF st.c.s = "range" THEN Len(v.v) ELSE IF Truth(v) THEN 1 ELSE 0
                at(j) == CASE st.c.s = "range" -> v.v[j] [] st.c.s = "with" -> v [] OTHER -> dot       \* dot in the action
                each == [j \in 1..n |-> IF st.x = 0 THEN (IF st.c.s = "if" THEN Whole(1) ELSE at(j)) ELSE EvalIn(st.e, at(j))] IN
            IF \E j \in 1..n : each[j].k # "num" THEN Fail("bad") /\ UNCHANGED err
            ELSE out' = out \o each /\ Go(pc + 1) /\ UNCHANGED <<frames, locals, dot, globals, dct, err>>
Done == /\ phase = "run" /\ pc = Len(prog) + 1
        /\ phase' = "done" /\ UNCHANGED wvars /\ UNCHANGED xvars
Next == Write \/ Start \/ Exec \/ Done
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Properties of the model.                                                  *)
Ended == phase \in {"done", "refused"}
Balanced == phase = "done" => frames = <<>> /\ dot.k = "ctx"
RefusedOnlyStrict == phase = "refused" => mode = "strict" /\ prog[err].op # ":="
ScopesClosed == \A j \in 1..Len(frames) : frames[j].base <= Len(locals)
\* every local read while running is a visible declaration (checked through Eval: it would be bad)
-----------------------------------------------------------------------------
(* Texts. <D> is the razor delimiter, <L> and <R> those of the template code. *)
Prec(e) == CASE e.t = "op" -> (CASE e.o = "||" -> 1 [] e.o = "&&" -> 2 [] e.o \in CmpOps -> 3 [] e.o \in {"+", "-", "|", "^"} -> 4 [] OTHER -> 5)
             [] e.t \in {"neg", "not"} -> 6 [] e.t = "lit" -> IF e.v.k = "num" /\ e.v.v < 0 THEN 6 ELSE 7 [] OTHER -> 7
NumText(n) == LET m == Abs(n) IN (IF n < 0 THEN "-" ELSE "") \o ToString(m \div 4) \o (CASE m % 4 = 0 -> "" [] m % 4 = 1 -> ".25" [] m % 4 = 2 -> ".5" [] OTHER -> ".75")
Q(s) == "\"" \o s \o "\""
RECURSIVE Join(_, _), ShowSeq(_)
Join(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)
Show(v) == CASE v.k = "num" -> NumText(v.v) [] v.k = "str" -> v.v [] v.k = "bool" -> (IF v.v THEN "true" ELSE "false")
             [] v.k = "list" -> "[" \o ShowSeq(v.v) \o "]"
ShowSeq(l) == Join([j \in 1..Len(l) |-> Show(l[j])], " ")
LitText(v) == IF v.k = "str" THEN Q(v.v) ELSE Show(v)
Synonym(o) == CASE o = "!=" -> "≠" [] o = "<=" -> "≦" [] o = ">=" -> "≧" [] o = "/" -> "÷" [] o = "<<" -> "«" [] o = ">>" -> "»" [] OTHER -> o
Synonym2(o) == IF o = "!=" THEN "<>" ELSE o
\* y: style. 0 normal, 1 compact, 2 synonyms, 3 redundant parentheses...
RECURSIVE R(_, _), RP(_, _, _), Brackets(_, _)
Compact(y) == y % 4 = 1
OpText(o, y) == IF y % 4 = 2 THEN Synonym(o) ELSE IF y = 3 THEN Synonym2(o) ELSE o
Minus(s) == SubSeq(s, 1, 1) = "-"
RP(e, p, y) == IF Prec(e) < p \/ (y % 4 = 3 /\ e.t \in {"op", "neg", "not"}) THEN "(" \o R(e, y) \o ")" ELSE R(e, y)
R(e, y) ==
  CASE e.t = "lit" -> LitText(e.v)
    [] e.t = "g" -> IF y \in {6, 7} THEN "$." \o e.n ELSE e.n
    [] e.t = "l" -> "$" \o e.n
    [] e.t = "dot" -> "."
    [] e.t = "dotm" -> "." \o e.n
    [] e.t = "mem" -> R(e.e, y) \o (IF y % 2 = 0 THEN "." \o e.n ELSE "[\"" \o e.n \o "\"]")
    [] e.t = "dlit" -> "dict(\"z\", " \o R(e.e, y) \o ").z"
    [] e.t = "op" -> LET p == Prec(e)
                         a == RP(e.l, p, y)
                         b == RP(e.r, p + 1, y)
                         o == OpText(e.o, y)
                     IN IF Compact(y) /\ ~Minus(b) THEN a \o o \o b ELSE a \o " " \o o \o " " \o b
    [] e.t = "neg" -> LET a == RP(e.e, 6, y) IN "-" \o (IF Minus(a) THEN " " ELSE "") \o a
    [] e.t = "not" -> "!" \o RP(e.e, 6, y)
    [] e.t = "call" -> e.f \o "(" \o Join([j \in 1..Len(e.a) |-> R(e.a[j], y)], IF Compact(y) THEN "," ELSE ", ") \o ")"
    [] e.t = "meth" -> RP(e.e, 7, y) \o "." \o e.n \o "(" \o Join([j \in 1..Len(e.a) |-> R(e.a[j], y)], IF Compact(y) THEN "," ELSE ", ") \o ")"
    [] e.t \in {"idx", "slc"} -> RP(e.e, 7, y) \o Brackets(e, y)
    [] e.t = "ext" -> "extract(" \o Join(<<R(e.e, y)>> \o [j \in 1..Len(e.a) |-> R(e.a[j], y)], ", ") \o ")"
Brackets(e, y) == "[" \o (CASE e.t = "idx" -> R(e.i, y) [] e.t = "slc" -> (IF e.a.t = "none" THEN "" ELSE R(e.a, y)) \o ":" \o (IF e.b.t = "none" THEN "" ELSE R(e.b, y))
                             [] OTHER -> Join([j \in 1..Len(e.a) |-> R(e.a[j], y)], IF Compact(y) THEN "," ELSE ", ")) \o "]"

GoName(o) == CASE o = "+" -> "add" [] o = "-" -> "sub" [] o = "*" -> "mul" [] o = "/" -> "div" [] o = "%" -> "mod" [] o = "**" -> "pow" [] o = "<<" -> "lshift"
               [] o = ">>" -> "rshift" [] o = "&" -> "band" [] o = "|" -> "bor" [] o = "^" -> "bxor" [] o = "&^" -> "bclear" [] o = "==" -> "eq" [] o = "!=" -> "ne"
               [] o = "<" -> "lt" [] o = "<=" -> "le" [] o = ">" -> "gt" [] o = ">=" -> "ge" [] o = "&&" -> "and" [] o = "||" -> "or"
RECURSIVE T(_), TP(_)
TP(e) == IF e.t \in {"lit", "g", "l", "dot", "dotm"} \/ (e.t = "mem" /\ e.e.t \in {"g", "l"}) THEN T(e) ELSE "(" \o T(e) \o ")"
T(e) ==
  CASE e.t = "lit" -> LitText(e.v)
    [] e.t = "g" -> "$." \o e.n
    [] e.t = "l" -> "$" \o e.n
    [] e.t = "dot" -> "."
    [] e.t = "dotm" -> "." \o e.n
    [] e.t = "mem" -> T(e.e) \o "." \o e.n
    [] e.t = "dlit" -> "(dict \"z\" " \o TP(e.e) \o ").z"
    [] e.t = "op" -> GoName(e.o) \o " " \o TP(e.l) \o " " \o TP(e.r)
    [] e.t = "neg" -> "sub 0 " \o TP(e.e)
    [] e.t = "not" -> "not " \o TP(e.e)
    [] e.t = "call" -> Join(<<e.f>> \o [j \in 1..Len(e.a) |-> TP(e.a[j])], " ")
    [] e.t = "meth" -> Join(<<TP(e.e) \o "." \o e.n>> \o [j \in 1..Len(e.a) |-> TP(e.a[j])], " ")
    [] e.t = "idx" -> "slice " \o TP(e.e) \o " " \o TP(e.i)
    [] e.t = "ext" -> Join(<<"extract", TP(e.e)>> \o [j \in 1..Len(e.a) |-> TP(e.a[j])], " ")
    [] e.t = "slc" -> "slice " \o TP(e.e) \o " " \o (IF e.a.t = "none" THEN "0" ELSE TP(e.a)) \o " " \o (IF e.b.t = "none" THEN "-1" ELSE TP(e.b))

\* the statement form @(...)[...] is not available when the index contains itself an index
Operands(e) == CASE e.t = "idx" -> {e.i} [] e.t = "slc" -> {e.a, e.b} [] e.t = "ext" -> {e.a[n] : n \in 1..Len(e.a)}
RECURSIVE Indexed(_)
Indexed(e) == CASE e.t \in {"idx", "slc", "ext", "mem"} -> TRUE [] e.t = "op" -> Indexed(e.l) \/ Indexed(e.r) [] e.t \in {"neg", "not", "dlit"} -> Indexed(e.e)
                [] e.t = "meth" -> Indexed(e.e) \/ \E n \in 1..Len(e.a) : Indexed(e.a[n])
                [] e.t = "call" -> \E n \in 1..Len(e.a) : Indexed(e.a[n]) [] OTHER -> FALSE
RECURSIVE Root(_)
Root(e) == IF e.t = "meth" THEN Root(e.e) ELSE e
\* the printed value is enclosed in quotes
RPrint(e, y) ==
  LET d == IF y % 3 = 2 THEN "<D>-" ELSE "<D>" IN
  (CASE e.t = "g" /\ y \in {0, 4} -> d \o e.n \o ";"
     [] e.t = "g" /\ y \in {8} -> d \o "$." \o e.n \o ";"
     [] e.t = "l" /\ y \in {0, 4, 8} -> d \o "$" \o e.n \o ";"
     [] e.t = "l" /\ y \in {2, 6, 10} -> "<D>{" \o e.n \o "}"
     [] e.t = "dot" /\ y % 2 = 0 -> d \o ".;"
     [] e.t = "dotm" /\ y % 2 = 0 -> d \o "." \o e.n \o ";"
     [] e.t = "mem" /\ e.e.t = "g" /\ y % 4 = 0 -> d \o e.e.n \o "." \o e.n \o ";"
     [] e.t \in {"idx", "slc", "ext"} /\ (y % 2 = 0 \/ e.t = "ext") /\ (e.e.t \in {"g", "l"} \/ \A x \in Operands(e) : ~Indexed(x)) -> d \o (CASE e.e.t = "g" -> (IF y \in {6, 7} THEN "$." ELSE "") \o e.e.n [] e.e.t \in {"l", "call"} -> R(e.e, y) [] OTHER -> "(" \o R(e.e, y) \o ")") \o Brackets(e, y) \o ";"
     [] e.t = "call" /\ y % 2 = 0 -> d \o R(e, y) \o ";"
     [] e.t = "meth" /\ y % 2 = 0 /\ y # 6 /\ Root(e).t # "l" -> d \o R(e, y) \o ";"
     [] OTHER -> d \o "(" \o (IF y = 9 THEN " " ELSE "") \o R(e, y) \o (IF y = 9 THEN " " ELSE "") \o ");")
Bars(s) == "‹" \o s \o "›"
AssignOp(op, y) == CASE op \in {"=", ":="} -> op [] op = "/" -> (IF y % 2 = 0 THEN "/=" ELSE "÷=") [] op = "<<" -> (IF y % 2 = 0 THEN "<<=" ELSE "«=")
                     [] op = ">>" -> (IF y % 2 = 0 THEN ">>=" ELSE "»=") [] OTHER -> op \o "="
\* the names of variables may contain + - * %
Spaced(op, y) == IF y % 4 = 1 /\ op \notin {"+=", "-=", "*=", "%="} THEN op ELSE " " \o op \o " "
RIter(st) == (IF st.i = "" THEN "" ELSE "$" \o st.i \o ", ") \o (IF st.v = "" THEN "" ELSE "$" \o st.v \o " := ")
EndWord(s, y) == CASE y % 4 = 0 -> "end" [] y % 4 = 1 -> "end" \o (IF s = "range" THEN "for" ELSE s) [] y % 4 = 2 -> "end " \o (IF s = "range" THEN "for each" ELSE s) [] OTHER -> "end;"
Open(st, y) == LET sp == IF y % 2 = 0 THEN "" ELSE " " IN
  CASE st.s = "if" -> "<D>if" \o sp \o "(" \o R(st.e, y) \o ")"
    [] st.s = "range" -> "<D>" \o (CASE y % 4 = 0 -> "range" [] y % 4 = 1 -> "for" [] y % 4 = 2 -> "foreach" [] OTHER -> "for each") \o sp \o "(" \o RIter(st) \o R(st.e, y) \o ")"
    [] st.s = "with" -> "<D>with" \o sp \o "(" \o (IF st.v = "" THEN "" ELSE "$" \o st.v \o " := ") \o R(st.e, y) \o ")"
KindAt(n) == LET f[j \in 0..n] == IF j = 0 THEN <<>> ELSE IF Opener(prog[j]) THEN Append(f[j - 1], prog[j].s)
                                  ELSE IF prog[j].s = "end" /\ j < n THEN SubSeq(f[j - 1], 1, Len(f[j - 1]) - 1) ELSE f[j - 1]
             IN f[n][Len(f[n])]
Action(st) == IF st.x = 0 THEN (IF st.c.s = "if" THEN "1" ELSE IF st.c.s = "range" THEN "<D>." ELSE "<D>$n") ELSE "<D>(" \o R(st.e, 0) \o ")"
RLine(n) ==
  LET st == prog[n]
      y == st.y IN
  CASE st.s = "print" -> Bars(RPrint(st.e, y))
    [] st.s = "pair" -> Bars(RPrint(st.e, y)) \o (CASE y % 4 = 0 -> "" [] y % 4 = 1 -> " (" [] y % 4 = 2 -> ", " [] OTHER -> " ") \o Bars(RPrint(st.f, (y + 5) % 12))
                        \o (IF y % 4 = 1 THEN ")" ELSE "")
    [] st.s = "gset" -> (IF y % 3 = 2 THEN "<D>$." ELSE "<D>") \o st.n \o Spaced(AssignOp(st.op, y), y) \o R(st.e, y) \o (IF y % 2 = 0 THEN ";" ELSE "")
    [] st.s = "dset" -> "<D>." \o st.n \o Spaced(AssignOp(st.op, y), y) \o R(st.e, y) \o ";"
    [] st.s = "mset" -> "<D>" \o (IF st.o.t = "l" THEN "$" ELSE "") \o st.o.n \o "." \o st.n \o Spaced(AssignOp(st.op, y), y) \o R(st.e, y) \o ";"
    [] st.s = "lset" -> IF y % 3 = 0 THEN "<D>$" \o st.n \o Spaced(AssignOp(st.op, y), y) \o R(st.e, y) \o ";"
                        ELSE IF y % 3 = 1 THEN "<D>{" \o st.n \o "}" \o Spaced(AssignOp(st.op, y), y) \o R(st.e, y) \o ";"
                        ELSE "<D>{" \o st.n \o Spaced(AssignOp(st.op, y), y) \o R(st.e, y) \o "}"
    [] Opener(st) -> Open(st, y)
    [] st.s = "elseif" -> "<D>else if (" \o R(st.e, y) \o ")"
    [] st.s = "else" -> "<D>else"
    [] st.s = "end" -> "<D>" \o EndWord(KindAt(n), y)
    [] st.s = "line" -> Open(st.c, y) \o " " \o (IF y % 2 = 0 THEN Bars(Action(st)) \o ";" ELSE "{ " \o Bars(Action(st)) \o " }")
C(s) == "<L> " \o s \o " <R>"
TSet(obj, n, op, old, e) == C("set " \o obj \o " \"" \o n \o "\" " \o (IF op \in {"=", ":="} THEN TP(e) ELSE "(" \o T(Op(op, old, e)) \o ")"))
TOpen(st) == CASE st.s = "if" -> C("if " \o T(st.e))
    [] st.s = "range" -> C("range " \o RIter(st) \o T(st.e))
    [] st.s = "with" -> C("with " \o (IF st.v = "" THEN "" ELSE "$" \o st.v \o " := ") \o T(st.e))
TAction(st) == IF st.x = 0 THEN (IF st.c.s = "if" THEN "1" ELSE IF st.c.s = "range" THEN C(".") ELSE C("$n")) ELSE C(T(st.e))
TLine(n) ==
  LET st == prog[n] IN
  CASE st.s = "print" -> Bars(C(T(st.e)))
    [] st.s = "pair" -> Bars(C(T(st.e))) \o " " \o Bars(C(T(st.f)))
    [] st.s = "gset" -> TSet("$", st.n, st.op, G(st.n), st.e)
    [] st.s = "dset" -> TSet(".", st.n, st.op, [t |-> "dotm", n |-> st.n], st.e)
    [] st.s = "mset" -> TSet(T(st.o), st.n, st.op, [t |-> "mem", e |-> st.o, n |-> st.n], st.e)
    [] st.s = "lset" -> C("$" \o st.n \o " " \o (IF st.op = ":=" THEN ":=" ELSE "=") \o " " \o (IF st.op \in {"=", ":="} THEN T(st.e) ELSE T(Op(st.op, L(st.n), st.e))))
    [] Opener(st) -> TOpen(st)
    [] st.s = "elseif" -> C("else if " \o T(st.e))
    [] st.s = "else" -> C("else")
    [] st.s = "end" -> C("end")
    [] st.s = "line" -> TOpen(st.c) \o Bars(TAction(st)) \o C("end")
EmitDone == (Emit /\ Ended) =>
  PrintT(<<"@@", ToJson([razor |-> [n \in 1..Len(prog) |-> RLine(n)], tpl |-> [n \in 1..Len(prog) |-> TLine(n)], out |-> [n \in 1..Len(out) |-> Show(out[n])],
                         final |-> [n \in DOMAIN globals |-> IF globals[n].k \in {"nil", "dict"} THEN globals[n].k ELSE Show(globals[n])],
                         members |-> [n \in DOMAIN dct |-> IF dct[n].k = "nil" THEN "nil" ELSE Show(dct[n])],
                         mode |-> mode, err |-> err, kinds |-> [n \in 1..Len(prog) |-> prog[n].s]])>>)
=============================================================================
