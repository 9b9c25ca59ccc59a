------------------------------- MODULE Slices -------------------------------
(***************************************************************************)
(* Selection of elements of lists, strings and dictionaries.               *)
(* cur is the current value; each step applies one selection to it, the    *)
(* result being the next current value. hist is replayed through the       *)
(* template functions and the razor index syntax of the implementation.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,    \* length of the lists and strings
          Bound,     \* positions are in -Bound..Bound
          MaxSteps, Sim, Emit

VARIABLES cur, hist, n
vars == <<cur, hist, n>>

Chars == <<"a", "b", "c", "d", "e", "f", "g">>
Elems == << <<"a">>, <<"b", "c">>, <<>>, <<"d">>, <<"a">>, <<"e", "f">>, <<"g">> >>   \* elements of lists: short texts
KeySeq == <<"a", "b", "c", "d">>
SearchKeys == {"0", "a", "ab", "b", "c", "d", "e"}      \* present or not; in ascending order "0" < "a" < "ab" < ...
KeyOrder == <<"0", "a", "ab", "b", "c", "d", "e">>
Rank(k) == CHOOSE i \in 1..Len(KeyOrder) : KeyOrder[i] = k

S(s) == [k |-> "S", s |-> s]
L(s) == [k |-> "L", s |-> s]        \* elements are values
D(m) == [k |-> "D", m |-> m]
Nil  == [k |-> "N"]
Err  == [k |-> "E"]
Num(i) == [k |-> "I", i |-> i]

Keys(m) == SelectSeq(KeySeq, LAMBDA k : k \in DOMAIN m)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Clamp(x, len) == Min2(Max2(x, 0), len)

\* Positions of slices: negative ones count from the end, -1 being after the last element
Pos(p, len) == IF p < 0 THEN len + p + 1 ELSE p
Section(s, p, q) ==
  LET b == Pos(p, Len(s))
      e == Pos(q, Len(s))
      sub == SubSeq(s, Clamp(Min2(b, e), Len(s)) + 1, Clamp(Max2(b, e), Len(s)))
  IN  IF e < b THEN Rev(sub) ELSE sub
\* Indexes of elements: -1 is the last element
Idx(i, len) == IF i < 0 THEN len + i ELSE i
Valid(i, len) == Idx(i, len) >= 0 /\ Idx(i, len) < len
Elem(v, i) == IF v.k = "S" THEN S(<<v.s[Idx(i, Len(v.s)) + 1]>>) ELSE v.s[Idx(i, Len(v.s)) + 1]
Seqs(v, s) == IF v.k = "S" THEN S(s) ELSE L(s)
Lookup(m, k) == IF k \in DOMAIN m THEN m[k] ELSE Nil
Between(m, k1, k2) ==
  LET lo == Min2(Rank(k1), Rank(k2))
      hi == Max2(Rank(k1), Rank(k2))
      ks == SelectSeq(Keys(m), LAMBDA k : Rank(k) >= lo /\ Rank(k) <= hi)
      vs == [i \in 1..Len(ks) |-> m[ks[i]]]
  IN  IF Rank(k1) > Rank(k2) THEN Rev(vs) ELSE vs

RECURSIVE Cat(_), Text(_), Texts(_), Entries(_, _)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))
Texts(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN Text(s[1]) ELSE Text(s[1]) \o "," \o Texts(Tail(s))
Entries(m, ks) == IF ks = <<>> THEN "" ELSE "\"" \o ks[1] \o "\":" \o Text(m[ks[1]]) \o (IF Len(ks) = 1 THEN "" ELSE "," \o Entries(m, Tail(ks)))
Text(v) == CASE v.k = "S" -> "\"" \o Cat(v.s) \o "\""
             [] v.k = "L" -> "[" \o Texts(v.s) \o "]"
             [] v.k = "D" -> "{" \o Entries(v.m, Keys(v.m)) \o "}"
             [] v.k = "I" -> ToString(v.i)
             [] v.k = "N" -> "null"
             [] v.k = "E" -> "error"

Some(T) == IF Sim THEN (IF T = {} THEN {} ELSE {RandomElement(T)}) ELSE T
Range == -Bound..Bound

Do(op, args, v) == /\ cur' = v
                   /\ hist' = Append(hist, [o |-> op, a |-> args, r |-> Text(v)])
                   /\ n' = n + 1

IsSeq == cur.k \in {"L", "S"}
Slice2 == IsSeq /\ \E p, q \in Some(Range) : Do("slice", <<ToString(p), ToString(q)>>, Seqs(cur, Section(cur.s, p, q)))
\* one bound omitted (razor syntax only): the start, or the end of the container (only the elements from a
\* negative position to the start are given when the end is omitted after it: documented as [-n:] = [-n:0])
SliceFrom == IsSeq /\ \E p \in Some(0..Bound) : Do("from", <<ToString(p)>>, Seqs(cur, Section(cur.s, p, -1)))
SliceTo   == IsSeq /\ \E p \in Some(Range) : Do("upto", <<ToString(p)>>, Seqs(cur, Section(cur.s, 0, p)))
SliceAll  == IsSeq /\ Do("all", <<>>, cur)
SliceOne == IsSeq /\ \E p \in Some(Range) :
   Do("slice", <<ToString(p)>>, IF Valid(p, Len(cur.s)) THEN Elem(cur, p) ELSE Err)
Extract1 == IsSeq /\ \E p \in Some(Range) :
   Do("extract", <<ToString(p)>>, IF Valid(p, Len(cur.s)) THEN Elem(cur, p) ELSE Err)
Multi(ps) ==
   IF \A i \in 1..Len(ps) : Valid(ps[i], Len(cur.s))
   THEN IF cur.k = "S" THEN S([i \in 1..Len(ps) |-> cur.s[Idx(ps[i], Len(cur.s)) + 1]])
        ELSE L([i \in 1..Len(ps) |-> Elem(cur, ps[i])])
   ELSE Err
Extract2 == IsSeq /\ \E p, q \in Some(Range) : Do("extract", <<ToString(p), ToString(q)>>, Multi(<<p, q>>))
Extract3 == IsSeq /\ \E p, q, r \in Some({-2, -1, 0, 1, 2}) :
   Do("extract", <<ToString(p), ToString(q), ToString(r)>>, Multi(<<p, q, r>>))
SafeIndex == cur.k = "L" /\ \E p \in Some(Range) :
   Do("safeIndex", <<ToString(p)>>, IF p >= 0 /\ p < Len(cur.s) THEN cur.s[p + 1] ELSE S(<<"f", "f">>))
Rest    == IsSeq /\ Do("rest", <<>>, Seqs(cur, IF cur.s = <<>> THEN <<>> ELSE Tail(cur.s)))
Initial == IsSeq /\ Do("initial", <<>>, Seqs(cur, IF cur.s = <<>> THEN <<>> ELSE SubSeq(cur.s, 1, Len(cur.s) - 1)))
First   == cur.k = "L" /\ Do("first", <<>>, IF cur.s = <<>> THEN Nil ELSE cur.s[1])
Last    == cur.k = "L" /\ Do("last", <<>>, IF cur.s = <<>> THEN Nil ELSE cur.s[Len(cur.s)])
Reverse == cur.k = "L" /\ Do("reverse", <<>>, L(Rev(cur.s)))
Length  == IsSeq /\ Do("len", <<>>, Num(Len(cur.s)))

DictSlice1 == cur.k = "D" /\ \E k \in Some(SearchKeys) : Do("slice", <<k>>, Lookup(cur.m, k))
DictGet    == cur.k = "D" /\ \E k \in Some(SearchKeys) : Do("get", <<k>>, Lookup(cur.m, k))
DictSlice2 == cur.k = "D" /\ \E k, j \in Some(SearchKeys) : Do("slice", <<k, j>>, L(Between(cur.m, k, j)))
DictExtract2 == cur.k = "D" /\ \E k, j \in Some(SearchKeys) :
   Do("extract", <<k, j>>, L(<<Lookup(cur.m, k), Lookup(cur.m, j)>>))
DictExtract3 == cur.k = "D" /\ \E k, j \in Some(SearchKeys) :
   Do("extract", <<k, "b", j>>, L(<<Lookup(cur.m, k), Lookup(cur.m, "b"), Lookup(cur.m, j)>>))

Init ==
  /\ cur \in {L([i \in 1..len |-> S(Elems[i])]) : len \in 0..MaxLen}
          \cup {S(SubSeq(Chars, 1, len)) : len \in 0..MaxLen}
          \cup {D([k \in ks |-> IF k = "c" THEN L(<<S(<<"a">>), S(<<"b">>)>>) ELSE S(<<k, "f">>)]) :
                   ks \in {{}, {"a"}, {"a", "b"}, {"b", "d"}, {"a", "b", "c", "d"}}}
  /\ hist = << [o |-> "init", a |-> <<>>, r |-> Text(cur)] >>
  /\ n = 0

Next == n < MaxSteps /\
  (Slice2 \/ SliceFrom \/ SliceTo \/ SliceAll \/ SliceOne \/ Extract1 \/ Extract2 \/ Extract3 \/ SafeIndex \/ Rest \/ Initial
   \/ First \/ Last \/ Reverse \/ Length \/ DictSlice1 \/ DictGet \/ DictSlice2 \/ DictExtract2 \/ DictExtract3)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws that the definitions above have to satisfy *)
Contiguous(sub, s) == \E i \in 0..(Len(s) - Len(sub)) : SubSeq(s, i + 1, i + Len(sub)) = sub
Laws == (n = 0 /\ IsSeq) =>
  LET s == [i \in 1..Len(cur.s) |-> i] IN        \* positions stand for the elements
  /\ Section(s, 0, -1) = s
  /\ Section(s, -1, 0) = Rev(s)
  /\ \A p, q \in Range :
       /\ Contiguous(Section(s, p, q), s) \/ Contiguous(Rev(Section(s, p, q)), s)
       /\ Pos(p, Len(s)) # Pos(q, Len(s)) => Section(s, q, p) = Rev(Section(s, p, q))
       /\ Len(Section(s, p, q)) <= Len(s)
       /\ (0 <= p /\ p <= q) => Section(s, 0, p) \o Section(s, p, q) \o Section(s, q, Max2(q, Len(s))) = s
       /\ (0 <= p /\ p <= Len(s)) => Section(s, 0, p) \o Section(s, p, -1) = s
  /\ Section(s, 1, -1) = IF s = <<>> THEN <<>> ELSE Tail(s)
  /\ Section(s, 0, -2) = IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)
  /\ \A p \in Range : Valid(p, Len(s)) => \/ Section(s, Idx(p, Len(s)), Idx(p, Len(s)) + 1) = <<s[Idx(p, Len(s)) + 1]>>
DictLaws == n = 0 /\ cur.k = "D" => \A k \in SearchKeys : Between(cur.m, k, k) = (IF k \in DOMAIN cur.m THEN <<cur.m[k]>> ELSE <<>>)

Ended == n = MaxSteps \/ cur.k \in {"N", "E", "I"}
EmitDone == (Emit /\ n > 0 /\ Ended) => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
