-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Abstract machine of the list and dictionary collections.                *)
(*                                                                         *)
(* heap : the objects. A list is [t |-> "L", s |-> sequence of values] and *)
(*        a dictionary is [t |-> "D", m |-> function from keys to values]. *)
(* regs : the values that the program currently holds (its variables).     *)
(* A value is an atom (its JSON text) or a reference "r<n>" into the heap. *)
(*                                                                         *)
(* One action per public operation of the collections. An operation        *)
(* appends its result to regs and its name, arguments and the deep value   *)
(* of every register to hist: this is what the conformance driver replays  *)
(* on the real collections (and on the template functions), comparing all  *)
(* the registers after each call, so any leak between objects shows.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSteps,   \* number of operations of a history
          MaxObjs,    \* bound on the heap
          Sim,        \* TRUE: arguments drawn at random (simulation)
          OpSet,      \* operations that may be used
          Emit        \* TRUE: print complete histories

VARIABLES heap, regs, hist, last, n
vars == <<heap, regs, hist, last, n>>
View == <<heap, regs, n>>

Null  == "null"
Atoms == {Null, "1", "2", "\"a\"", "\"b\"", "\"\""}
KeySeq  == <<"1", "2", "a", "b", "c">>           \* in ascending order
SetKeys == {"a", "b", "c"}                       \* keys used by the operations

RefName == [i \in 1..MaxObjs |-> "r" \o ToString(i)]
RefSet  == {RefName[i] : i \in 1..MaxObjs}
Addr    == [r \in RefSet |-> CHOOSE i \in 1..MaxObjs : RefName[i] = r]
RegName == [i \in 1..40 |-> "x" \o ToString(i)]
IsRef(v) == v \in RefSet

IsL(h, v) == IsRef(v) /\ h[Addr[v]].t = "L"
IsD(h, v) == IsRef(v) /\ h[Addr[v]].t = "D"
Seq_(h, v) == h[Addr[v]].s
Map_(h, v) == h[Addr[v]].m
L(s) == [t |-> "L", s |-> s]
D(m) == [t |-> "D", m |-> m]
Range_(s) == {s[i] : i \in 1..Len(s)}

\* the present keys in ascending order
Keys(m) == SelectSeq(KeySeq, LAMBDA k : k \in DOMAIN m)
Str(k)  == "\"" \o k \o "\""
Unstr(v) == IF v = "\"a\"" THEN "a" ELSE IF v = "\"b\"" THEN "b" ELSE v   \* key made from an atom

RECURSIVE FoldLeft(_, _, _)
FoldLeft(F(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldLeft(F, F(acc, s[1]), Tail(s))

RECURSIVE Tree(_, _), JoinTrees(_, _), JoinEntries(_, _, _)
JoinTrees(h, s) ==
  IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN Tree(h, s[1])
  ELSE Tree(h, s[1]) \o "," \o JoinTrees(h, Tail(s))
JoinEntries(h, m, ks) ==
  IF ks = <<>> THEN "" ELSE
  Str(ks[1]) \o ":" \o Tree(h, m[ks[1]]) \o (IF Len(ks) = 1 THEN "" ELSE "," \o JoinEntries(h, m, Tail(ks)))
\* The deep value, as JSON text
Tree(h, v) ==
  IF ~IsRef(v) THEN v
  ELSE IF IsL(h, v) THEN "[" \o JoinTrees(h, Seq_(h, v)) \o "]"
  ELSE "{" \o JoinEntries(h, Map_(h, v), Keys(Map_(h, v))) \o "}"

\* HCL writes an empty dictionary as an empty text: comparing it with an empty string is left unspecified
RECURSIVE Amb(_, _), AmbSeq(_, _), AmbEntries(_, _, _)
AmbSeq(h, s) == IF s = <<>> THEN "" ELSE Amb(h, s[1]) \o "," \o AmbSeq(h, Tail(s))
AmbEntries(h, m, ks) == IF ks = <<>> THEN "" ELSE ks[1] \o ":" \o Amb(h, m[ks[1]]) \o "," \o AmbEntries(h, m, Tail(ks))
Amb(h, v) ==
  IF v = "\"\"" \/ (IsD(h, v) /\ DOMAIN Map_(h, v) = {}) THEN "-"
  ELSE IF ~IsRef(v) THEN v
  ELSE IF IsL(h, v) THEN "[" \o AmbSeq(h, Seq_(h, v)) \o "]"
  ELSE "{" \o AmbEntries(h, Map_(h, v), Keys(Map_(h, v))) \o "}"
Comparable(h, s, vs) == \A i \in 1..Len(s \o vs) : \A j \in 1..i :
   (Amb(h, (s \o vs)[i]) = Amb(h, (s \o vs)[j])) => Tree(h, (s \o vs)[i]) = Tree(h, (s \o vs)[j])

RECURSIVE Reach(_, _)
Reach(h, v) ==
  IF ~IsRef(v) THEN {}
  ELSE {v} \cup (IF IsL(h, v) THEN UNION {Reach(h, e) : e \in Range_(Seq_(h, v))}
                 ELSE UNION {Reach(h, Map_(h, v)[k]) : k \in DOMAIN Map_(h, v)})
ReachSeq(h, s) == UNION {Reach(h, s[i]) : i \in 1..Len(s)}

\* Elements are compared by their textual value
Eq(h, a, b) == Tree(h, a) = Tree(h, b)
In(h, v, s) == \E i \in 1..Len(s) : Eq(h, s[i], v)

RECURSIVE Uniq(_, _, _)
Uniq(h, s, acc) == IF s = <<>> THEN acc
                   ELSE Uniq(h, Tail(s), IF In(h, s[1], acc) THEN acc ELSE Append(acc, s[1]))
Unique(h, s) == Uniq(h, s, <<>>)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
Index(s, i) == LET j == IF i < 0 THEN i + Len(s) ELSE i IN     \* zero based, negative from the end
               IF j < 0 \/ j >= Len(s) THEN Null ELSE s[j + 1]
RemoveAt(s, idx) ==
  LET drop == {IF i < 0 THEN i + Len(s) ELSE i : i \in idx}
      keep == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : (j - 1) \notin drop)
  IN  [j \in 1..Len(keep) |-> s[keep[j]]]
EmptyVal(h, v) == v = Null \/ v = "\"\"" \/ (IsL(h, v) /\ Seq_(h, v) = <<>>) \/ (IsD(h, v) /\ DOMAIN Map_(h, v) = {})

\* Allocation: <<heap, reference>>
Alloc(h, o) == <<Append(h, o), RefName[Len(h) + 1]>>

RECURSIVE Copy(_, _), CopySeq(_, _, _), CopyMap(_, _, _, _)
CopySeq(h, s, acc) ==
  IF s = <<>> THEN <<h, acc>>
  ELSE LET c == Copy(h, s[1]) IN CopySeq(c[1], Tail(s), Append(acc, c[2]))
CopyMap(h, m, ks, acc) ==
  IF ks = <<>> THEN <<h, acc>>
  ELSE LET c == Copy(h, m[ks[1]]) IN CopyMap(c[1], m, Tail(ks), (ks[1] :> c[2]) @@ acc)
\* Deep copy: <<heap, value>>
Copy(h, v) ==
  IF ~IsRef(v) THEN <<h, v>>
  ELSE IF IsL(h, v) THEN LET c == CopySeq(h, Seq_(h, v), <<>>) IN Alloc(c[1], L(c[2]))
  ELSE LET c == CopyMap(h, Map_(h, v), Keys(Map_(h, v)), <<>>) IN Alloc(c[1], D(c[2]))

RECURSIVE Load(_, _), LoadSeq(_, _, _), LoadMap(_, _, _, _)
LoadSeq(h, s, acc) ==
  IF s = <<>> THEN <<h, acc>>
  ELSE LET c == Load(h, s[1]) IN LoadSeq(c[1], Tail(s), Append(acc, c[2]))
LoadMap(h, m, ks, acc) ==
  IF ks = <<>> THEN <<h, acc>>
  ELSE LET c == Load(h, m[ks[1]]) IN LoadMap(c[1], m, Tail(ks), (ks[1] :> c[2]) @@ acc)
\* What is loaded from the encoded form: a deep copy in which a null became an empty dictionary (this is how
\* the decoders are documented by their tests)
Load(h, v) ==
  IF v = Null THEN Alloc(h, D(<<>>))
  ELSE IF ~IsRef(v) THEN <<h, v>>
  ELSE IF IsL(h, v) THEN LET c == LoadSeq(h, Seq_(h, v), <<>>) IN Alloc(c[1], L(c[2]))
  ELSE LET c == LoadMap(h, Map_(h, v), Keys(Map_(h, v)), <<>>) IN Alloc(c[1], D(c[2]))

RECURSIVE DeepMerge(_, _, _, _)
\* Merge the map src into the map dst over the keys ks: <<heap, map>>. The destination has precedence, nested
\* dictionaries are merged in new objects.
DeepMerge(h, dst, src, ks) ==
  IF ks = <<>> THEN <<h, dst>>
  ELSE LET k == ks[1] IN
    IF k \notin DOMAIN dst THEN DeepMerge(h, (k :> src[k]) @@ dst, src, Tail(ks))
    ELSE IF IsD(h, dst[k]) /\ IsD(h, src[k])
      THEN LET inner == DeepMerge(h, Map_(h, dst[k]), Map_(h, src[k]), Keys(Map_(h, src[k])))
               o     == Alloc(inner[1], D(inner[2]))
           IN  DeepMerge(o[1], (k :> o[2]) @@ dst, src, Tail(ks))
      ELSE DeepMerge(h, dst, src, Tail(ks))

Put(h, v, o) == [h EXCEPT ![Addr[v]] = o]

-----------------------------------------------------------------------------
Pick(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S

RegIdx   == 1..Len(regs)
ListRegs == {i \in RegIdx : IsL(heap, regs[i])}
DictRegs == {i \in RegIdx : IsD(heap, regs[i])}
Operands == Atoms \cup {RegName[i] : i \in RegIdx}
RegOf(o) == CHOOSE i \in RegIdx : RegName[i] = o
Val(o)   == IF o \in Atoms THEN o ELSE regs[RegOf(o)]

\* An operation that leaves heap h, returns the values new (kept in registers) and the text res
Done(op, args, tgt, h, new, res) ==
  /\ Len(h) <= MaxObjs
  /\ \A i \in 1..Len(new) : Len(Tree(h, new[i])) <= 90
  /\ heap' = h
  /\ regs' = regs \o new
  /\ last' = [o |-> op, tgt |-> tgt, new |-> new]
  /\ hist' = Append(hist, [o |-> op, a |-> args, r |-> res,
                           v |-> [i \in 1..Len(regs \o new) |-> Tree(h, (regs \o new)[i])]])
  /\ n' = n + 1

NewObj(op, args, o) == LET c == Alloc(heap, o) IN Done(op, args, 0, c[1], <<c[2]>>, "-")
Bool(b) == IF b THEN "true" ELSE "false"
ShowList(ints) == "[" \o (IF ints = <<>> THEN "" ELSE
                   FoldLeft(LAMBDA acc, x : acc \o "," \o ToString(x), ToString(ints[1]), Tail(ints))) \o "]"

-----------------------------------------------------------------------------
(* Lists *)
NewList == \E x, y \in Pick(Operands) : NewObj("list", <<x, y>>, L(<<Val(x), Val(y)>>))
\* Creating a list from a single list copies its elements (shallow)
NewListOf == \E x \in Pick(Atoms \cup {RegName[i] : i \in DictRegs}) : NewObj("list", <<x>>, L(<<Val(x)>>))

ListOp1(op, F(_)) == \E i \in Pick(ListRegs) : NewObj(op, <<RegName[i]>>, L(F(Seq_(heap, regs[i]))))
Reverse     == ListOp1("reverse", Rev)
UniqueOp    == /\ \A i \in ListRegs : Comparable(heap, Seq_(heap, regs[i]), <<>>)
               /\ ListOp1("unique", LAMBDA s : Unique(heap, s))
RemoveNil   == ListOp1("removeNil", LAMBDA s : SelectSeq(s, LAMBDA v : v # Null))
RemoveEmpty == ListOp1("removeEmpty", LAMBDA s : SelectSeq(s, LAMBDA v : ~EmptyVal(heap, v)))

ListOpV(op, F(_, _)) ==
  \E i \in Pick(ListRegs) : \E k \in Pick(0..2) : \E x, y \in Pick(Operands) :
     /\ (Sim \/ ((k < 2 => y = Null) /\ (k < 1 => x = Null)))
     /\ LET as == SubSeq(<<x, y>>, 1, k)
            vs == [j \in 1..k |-> Val(as[j])]
        IN  /\ op \in {"union", "intersect", "without"} => Comparable(heap, Seq_(heap, regs[i]), vs)
            /\ NewObj(op, <<RegName[i]>> \o as, L(F(Seq_(heap, regs[i]), vs)))
AppendOp  == ListOpV("append",  LAMBDA s, vs : s \o vs)
PrependOp == ListOpV("prepend", LAMBDA s, vs : vs \o s)
Union_    == ListOpV("union",   LAMBDA s, vs : Unique(heap, s \o vs))
Intersect == ListOpV("intersect", LAMBDA s, vs : SelectSeq(Unique(heap, s), LAMBDA v : In(heap, v, vs)))
Without   == ListOpV("without", LAMBDA s, vs : SelectSeq(s, LAMBDA v : ~In(heap, v, vs)))

Idx == -3..3
RemoveOp == \E i \in Pick(ListRegs) : \E p, q \in Pick(Idx) :
  NewObj("removeAt", <<RegName[i], ToString(p), ToString(q)>>, L(RemoveAt(Seq_(heap, regs[i]), {p, q})))
\* Pop returns the removed element and a new list
PopOp == \E i \in Pick(ListRegs) : \E p \in Pick(Idx) :
  LET s == Seq_(heap, regs[i])
      c == Alloc(heap, L(RemoveAt(s, {p})))
  IN  Done("pop", <<RegName[i], ToString(p)>>, 0, c[1], <<c[2], Index(s, p)>>, "-")
PopLast == \E i \in Pick(ListRegs) :
  LET s == Seq_(heap, regs[i])
      c == Alloc(heap, L(RemoveAt(s, {Len(s) - 1})))
  IN  Done("pop", <<RegName[i]>>, 0, c[1], <<c[2], Index(s, Len(s) - 1)>>, "-")

\* Set: in place inside the bounds, otherwise on an enlarged copy
SetOp == \E i \in Pick(ListRegs) : \E p \in Pick(-1..4) : \E x \in Pick(Operands) :
  LET s == Seq_(heap, regs[i])
      args == <<RegName[i], ToString(p), x>>
  IN  IF p < 0 THEN Done("setAt", args, 0, heap, <<>>, "error")
      ELSE IF p < Len(s)
      THEN /\ regs[i] \notin Reach(heap, Val(x))
           /\ Done("setAt", args, Addr[regs[i]], Put(heap, regs[i], L([s EXCEPT ![p + 1] = Val(x)])), <<regs[i]>>, "-")
      ELSE LET c == Alloc(heap, L([j \in 1..(p + 1) |-> IF j <= Len(s) THEN s[j] ELSE IF j = p + 1 THEN Val(x) ELSE Null]))
           IN  Done("setAt", args, 0, c[1], <<c[2]>>, "-")

GetOp == \E i \in Pick(ListRegs) : \E p \in Pick(Idx) :
  Done("getAt", <<RegName[i], ToString(p)>>, 0, heap, <<Index(Seq_(heap, regs[i]), p)>>, "-")
GetMany == \E i \in Pick(ListRegs) : \E p, q \in Pick(Idx) :
  LET s == Seq_(heap, regs[i]) IN
  NewObj("getAt", <<RegName[i], ToString(p), ToString(q)>>, L(<<Index(s, p), Index(s, q)>>))
FirstLast == \E i \in Pick(ListRegs) : \E w \in Pick({"first", "last"}) :
  LET s == Seq_(heap, regs[i]) IN
  Done(w, <<RegName[i]>>, 0, heap, <<IF s = <<>> THEN Null ELSE IF w = "first" THEN s[1] ELSE s[Len(s)]>>, "-")
ContainsOp == \E i \in Pick(ListRegs) : \E x, y \in Pick(Operands) :
  LET s == Seq_(heap, regs[i]) IN
  Comparable(heap, s, <<Val(x), Val(y)>>) /\
  Done("contains", <<RegName[i], x, y>>, 0, heap, <<>>, Bool(In(heap, Val(x), s) /\ In(heap, Val(y), s)))
ContainsOne == \E i \in Pick(ListRegs) : \E x \in Pick(Operands) :
  Comparable(heap, Seq_(heap, regs[i]), <<Val(x)>>) /\
  Done("contains", <<RegName[i], x>>, 0, heap, <<>>, Bool(In(heap, Val(x), Seq_(heap, regs[i]))))
FindOp == \E i \in Pick(ListRegs) : \E x \in Pick(Operands) :
  LET s == Seq_(heap, regs[i]) IN
  Comparable(heap, s, <<Val(x)>>) /\
  Done("find", <<RegName[i], x>>, 0, heap, <<>>,
       ShowList(SelectSeq([j \in 1..Len(s) |-> j - 1], LAMBDA j : Eq(heap, s[j + 1], Val(x)))))
\* The strict forms also compare the types (atoms of different types are different atoms here, except that keys have
\* their own type of string and decoded numbers their own types)
PlainTypes == \A j \in 1..Len(hist) : hist[j].o \notin {"keys", "transpose", "roundTrip"}
ContainsStrict == \E i \in Pick(ListRegs) : \E x \in Pick(Operands) :
  PlainTypes /\ Done("containsStrict", <<RegName[i], x>>, 0, heap, <<>>, Bool(In(heap, Val(x), Seq_(heap, regs[i]))))
FindStrict == \E i \in Pick(ListRegs) : \E x \in Pick(Operands) :
  LET s == Seq_(heap, regs[i]) IN
  PlainTypes /\ Done("findStrict", <<RegName[i], x>>, 0, heap, <<>>,
       ShowList(SelectSeq([j \in 1..Len(s) |-> j - 1], LAMBDA j : Eq(heap, s[j + 1], Val(x)))))
LenOp == \E i \in Pick(ListRegs) : Done("len", <<RegName[i]>>, 0, heap, <<>>, ToString(Len(Seq_(heap, regs[i]))))

CloneOp == \E i \in Pick(ListRegs \cup DictRegs) :
  LET c == Copy(heap, regs[i]) IN Done("clone", <<RegName[i]>>, 0, c[1], <<c[2]>>, "-")

-----------------------------------------------------------------------------
(* Dictionaries *)
NewDict == \E k \in Pick(SetKeys) : \E x \in Pick(Operands) : NewObj("dict", <<k, x>>, D(k :> Val(x)))
NewDict2 == \E k, j \in Pick(SetKeys) : \E x, y \in Pick(Operands) :
  k # j /\ NewObj("dict", <<k, x, j, y>>, D((k :> Val(x)) @@ (j :> Val(y))))

SetKey == \E i \in Pick(DictRegs) : \E k \in Pick(SetKeys) : \E x \in Pick(Operands) :
  /\ regs[i] \notin Reach(heap, Val(x))
  /\ Done("set", <<RegName[i], k, x>>, Addr[regs[i]], Put(heap, regs[i], D((k :> Val(x)) @@ Map_(heap, regs[i]))), <<>>, "-")
\* Add accumulates the values of a key in a new list
AddKey == \E i \in Pick(DictRegs) : \E k \in Pick(SetKeys) : \E x \in Pick(Operands) :
  LET m == Map_(heap, regs[i])
      args == <<RegName[i], k, x>>
  IN  /\ regs[i] \notin Reach(heap, Val(x))
      /\ IF k \notin DOMAIN m
         THEN Done("add", args, Addr[regs[i]], Put(heap, regs[i], D((k :> Val(x)) @@ m)), <<>>, "-")
         ELSE /\ m[k] # Null
              /\ LET c == Alloc(heap, L((IF IsL(heap, m[k]) THEN Seq_(heap, m[k]) ELSE <<m[k]>>) \o <<Val(x)>>))
                 IN  Done("add", args, Addr[regs[i]], Put(c[1], regs[i], D((k :> c[2]) @@ m)), <<>>, "-")
Lookup(m, k) == IF k \in DOMAIN m THEN m[k] ELSE Null
GetKey == \E i \in Pick(DictRegs) : \E k \in Pick(SetKeys) :
  Done("get", <<RegName[i], k>>, 0, heap, <<Lookup(Map_(heap, regs[i]), k)>>, "-")
GetKeys2 == \E i \in Pick(DictRegs) : \E k, j \in Pick(SetKeys) :
  LET m == Map_(heap, regs[i]) IN NewObj("get", <<RegName[i], k, j>>, L(<<Lookup(m, k), Lookup(m, j)>>))
HasKey == \E i \in Pick(DictRegs) : \E k \in Pick(SetKeys) :
  Done("has", <<RegName[i], k>>, 0, heap, <<>>, Bool(k \in DOMAIN Map_(heap, regs[i])))
HasKeys == \E i \in Pick(DictRegs) : \E k, j \in Pick(SetKeys) :
  Done("has", <<RegName[i], k, j>>, 0, heap, <<>>, Bool({k, j} \subseteq DOMAIN Map_(heap, regs[i])))
Default == \E i \in Pick(DictRegs) : \E k \in Pick(SetKeys) : \E x \in Pick(Operands) :
  LET m == Map_(heap, regs[i]) IN
  Done("default", <<RegName[i], k, x>>, 0, heap, <<IF k \in DOMAIN m THEN m[k] ELSE Val(x)>>, "-")
Restrict(m, S) == [k \in S |-> m[k]]
DeleteKey == \E i \in Pick(DictRegs) : \E k \in Pick(SetKeys) :
  LET m == Map_(heap, regs[i]) IN
  IF k \in DOMAIN m
  THEN Done("delete", <<RegName[i], k>>, Addr[regs[i]], Put(heap, regs[i], D(Restrict(m, DOMAIN m \ {k}))), <<>>, "-")
  ELSE Done("delete", <<RegName[i], k>>, 0, heap, <<>>, "error")
Flush == \E i \in Pick(DictRegs) : \E ks \in Pick({<<>>, <<"a">>, <<"b">>, <<"b", "c">>, <<"a", "c">>}) :
  LET m == Map_(heap, regs[i]) IN
  Done("flush", <<RegName[i]>> \o ks, Addr[regs[i]],
       Put(heap, regs[i], D(IF ks = <<>> THEN <<>> ELSE Restrict(m, DOMAIN m \ Range_(ks)))), <<>>, "-")
PopKey == \E i \in Pick(DictRegs) : \E k \in Pick(SetKeys) :
  LET m == Map_(heap, regs[i]) IN
  Done("popKey", <<RegName[i], k>>, Addr[regs[i]], Put(heap, regs[i], D(Restrict(m, DOMAIN m \ {k}))), <<Lookup(m, k)>>, "-")
\* pick: deep copy with only the given keys (a missing one is null)
PickKeys == \E i \in Pick(DictRegs) : \E ks \in Pick({<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "c">>}) :
  LET m == Map_(heap, regs[i])
      c == CopyMap(heap, [k \in Range_(ks) |-> Lookup(m, k)], ks, <<>>)
      d == Alloc(c[1], D(c[2]))
  IN  Done("pick", <<RegName[i]>> \o ks, 0, d[1], <<d[2]>>, "-")
Omit == \E i \in Pick(DictRegs) : \E ks \in Pick({<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "c">>}) :
  LET m == Map_(heap, regs[i])
      rest == Restrict(m, DOMAIN m \ Range_(ks))
      c == CopyMap(heap, rest, Keys(rest), <<>>)
      d == Alloc(c[1], D(c[2]))
  IN  Done("omit", <<RegName[i]>> \o ks, 0, d[1], <<d[2]>>, "-")
KeysOp == \E i \in Pick(DictRegs) :
  LET ks == Keys(Map_(heap, regs[i])) IN
  /\ Range_(ks) \subseteq {"a", "b"}
  /\ NewObj("keys", <<RegName[i]>>, L([j \in 1..Len(ks) |-> Str(ks[j])]))
KeysText == \E i \in Pick(DictRegs) :
  LET ks == Keys(Map_(heap, regs[i])) IN
  Done("keysText", <<RegName[i]>>, 0, heap, <<>>,
       "[" \o JoinTrees(heap, [j \in 1..Len(ks) |-> Str(ks[j])]) \o "]")
ValuesOp == \E i \in Pick(DictRegs) :
  LET m == Map_(heap, regs[i])
      ks == Keys(m)
  IN  NewObj("values", <<RegName[i]>>, L([j \in 1..Len(ks) |-> m[ks[j]]]))
\* transpose: the values become keys
FlatVals(h, v) == IF IsL(h, v) THEN Seq_(h, v) ELSE <<v>>
RECURSIVE Transp(_, _, _)
Transp(pairs, h, m) ==     \* pairs: <<new key, old key>>; m: new key -> sequence of old keys
  IF pairs = <<>> THEN m
  ELSE LET p == pairs[1] IN
       Transp(Tail(pairs), h, (p[1] :> (IF p[1] \in DOMAIN m THEN Append(m[p[1]], Str(p[2])) ELSE <<Str(p[2])>>)) @@ m)
RECURSIVE AllocAll(_, _, _, _)
AllocAll(h, m, ks, acc) ==
  IF ks = <<>> THEN <<h, acc>>
  ELSE IF Len(m[ks[1]]) = 1 THEN AllocAll(h, m, Tail(ks), (ks[1] :> m[ks[1]][1]) @@ acc)
  ELSE LET c == Alloc(h, L(m[ks[1]])) IN AllocAll(c[1], m, Tail(ks), (ks[1] :> c[2]) @@ acc)
Transpose == \E i \in Pick(DictRegs) :
  LET m == Map_(heap, regs[i])
      ks == Keys(m)
      pairs == FoldLeft(LAMBDA acc, k : acc \o [j \in 1..Len(FlatVals(heap, m[k])) |-> <<Unstr(FlatVals(heap, m[k])[j]), k>>],
                        <<>>, ks)
      t == Transp(pairs, heap, <<>>)
      c == AllocAll(heap, t, Keys(t), <<>>)
      d == Alloc(c[1], D(c[2]))
  IN  /\ \A k \in DOMAIN m : \A v \in Range_(FlatVals(heap, m[k])) : v \in {"1", "2", "\"a\"", "\"b\""}
      /\ \A k \in DOMAIN m : k \in {"a", "b"}
      /\ Done("transpose", <<RegName[i]>>, 0, d[1], <<d[2]>>, "-")

Merge == \E i \in Pick(DictRegs) : \E j \in Pick(DictRegs) :
  LET dst == regs[i]
      src == regs[j]
  IN  /\ dst \notin Reach(heap, src)
      /\ LET c == DeepMerge(heap, Map_(heap, dst), Map_(heap, src), Keys(Map_(heap, src)))
         IN  Done("merge", <<RegName[i], RegName[j]>>, Addr[dst], Put(c[1], dst, D(c[2])), <<dst>>, "-")
Merge3 == \E i \in Pick(DictRegs) : \E j, k \in Pick(DictRegs) :
  LET dst == regs[i] IN
      /\ dst \notin Reach(heap, regs[j]) \cup Reach(heap, regs[k])
      /\ LET c == DeepMerge(heap, Map_(heap, dst), Map_(heap, regs[j]), Keys(Map_(heap, regs[j])))
             e == DeepMerge(c[1], c[2], Map_(heap, regs[k]), Keys(Map_(heap, regs[k])))
         IN  Done("merge", <<RegName[i], RegName[j], RegName[k]>>, Addr[dst], Put(e[1], dst, D(e[2])), <<dst>>, "-")
\* merging of native maps in a new one (utils.MergeDictionaries): the value only
MergeNew == \E j, k \in Pick(DictRegs) :
  LET c == DeepMerge(heap, Map_(heap, regs[j]), Map_(heap, regs[k]), Keys(Map_(heap, regs[k])))
      d == Alloc(c[1], D(c[2]))
  IN  Done("mergeNew", <<RegName[j], RegName[k]>>, 0, heap, <<>>, Tree(d[1], d[2]))
Pluck == \E i, j \in Pick(DictRegs) : \E k \in Pick(SetKeys) :
  LET m1 == Map_(heap, regs[i])
      m2 == Map_(heap, regs[j])
  IN  NewObj("pluck", <<RegName[i], RegName[j], k>>,
             L((IF k \in DOMAIN m1 THEN <<m1[k]>> ELSE <<>>) \o (IF k \in DOMAIN m2 THEN <<m2[k]>> ELSE <<>>)))
\* conversion to native Go values: the value only
Native == \E i \in Pick(DictRegs) : Done("native", <<RegName[i]>>, 0, heap, <<>>, Tree(heap, regs[i]))
\* encoded then decoded: an equal, distinct structure (except for nulls)
RoundTrip == \E i \in Pick(DictRegs) :
  LET c == Load(heap, regs[i]) IN Done("roundTrip", <<RegName[i]>>, 0, c[1], <<c[2]>>, "-")

-----------------------------------------------------------------------------
Op(o) ==
  CASE o = "NewList" -> NewList [] o = "NewListOf" -> NewListOf [] o = "Reverse" -> Reverse [] o = "Unique" -> UniqueOp
    [] o = "RemoveNil" -> RemoveNil [] o = "RemoveEmpty" -> RemoveEmpty [] o = "Append" -> AppendOp
    [] o = "Prepend" -> PrependOp [] o = "Union" -> Union_ [] o = "Intersect" -> Intersect [] o = "Without" -> Without
    [] o = "Remove" -> RemoveOp [] o = "Pop" -> PopOp [] o = "PopLast" -> PopLast [] o = "Set" -> SetOp [] o = "Get" -> GetOp
    [] o = "GetMany" -> GetMany [] o = "FirstLast" -> FirstLast [] o = "Contains" -> ContainsOp
    [] o = "ContainsOne" -> ContainsOne [] o = "Find" -> FindOp
    [] o = "ContainsStrict" -> ContainsStrict [] o = "FindStrict" -> FindStrict [] o = "Len" -> LenOp [] o = "Clone" -> CloneOp
    [] o = "NewDict" -> NewDict [] o = "NewDict2" -> NewDict2 [] o = "SetKey" -> SetKey [] o = "AddKey" -> AddKey
    [] o = "GetKey" -> GetKey [] o = "GetKeys2" -> GetKeys2 [] o = "HasKey" -> HasKey [] o = "HasKeys" -> HasKeys
    [] o = "Default" -> Default [] o = "Delete" -> DeleteKey [] o = "Flush" -> Flush [] o = "PopKey" -> PopKey
    [] o = "Pick" -> PickKeys [] o = "Omit" -> Omit [] o = "Keys" -> KeysOp [] o = "KeysText" -> KeysText
    [] o = "Values" -> ValuesOp [] o = "Transpose" -> Transpose [] o = "Merge" -> Merge [] o = "Merge3" -> Merge3
    [] o = "MergeNew" -> MergeNew [] o = "Pluck" -> Pluck [] o = "Native" -> Native [] o = "RoundTrip" -> RoundTrip
    [] OTHER -> FALSE

\* Initial structures: some sharing between a list, nested lists and dictionaries
InitHeap(shape) ==
  CASE shape = 1 -> << L(<<"1", "\"a\"">>), D(("a" :> "1") @@ ("b" :> "r1")) >>
    [] shape = 2 -> << L(<<"1", "2", "1">>), D("a" :> "2"), D(("a" :> "r2") @@ ("c" :> "r1")), L(<<"r2", "r1", Null>>) >>
    [] shape = 3 -> << L(<<>>), D(<<>>), D(("a" :> "r2") @@ ("b" :> "r1")), L(<<"r1", "1">>), D("b" :> "r4") >>
    [] shape = 4 -> << L(<<"\"b\"", "\"\"", Null>>), D("c" :> "\"b\""), D(("a" :> "r2") @@ ("b" :> "1")),
                       D(("a" :> "r5") @@ ("c" :> "2")), D(("c" :> "1") @@ ("b" :> "r1")) >>
    [] shape = 5 -> << L(<<"2">>), D(<<>>), D(("a" :> "1") @@ ("b" :> "2")), D(("a" :> "\"a\"") @@ ("b" :> "r5") @@ ("c" :> "1")),
                       D(("c" :> "2") @@ ("a" :> "r1")), D(("b" :> "r7") @@ ("a" :> "2")), D(("c" :> "1") @@ ("b" :> "\"b\"")) >>
InitRegs(shape) ==
  CASE shape = 1 -> <<"r1", "r2">>
    [] shape = 2 -> <<"r1", "r3", "r4", "r2">>
    [] shape = 3 -> <<"r1", "r2", "r3", "r5">>
    [] shape = 4 -> <<"r1", "r3", "r4">>
    [] shape = 5 -> <<"r1", "r2", "r3", "r4", "r6">>

Init == \E shape \in 1..5 :
  /\ heap = InitHeap(shape)
  /\ regs = InitRegs(shape)
  /\ last = [o |-> "init", tgt |-> 0, new |-> <<>>]
  /\ hist = << [o |-> "init", a |-> <<ToString(shape)>>, r |-> "-",
                v |-> [i \in 1..Len(InitRegs(shape)) |-> Tree(InitHeap(shape), InitRegs(shape)[i])]] >>
  /\ n = 0

Next == /\ n < MaxSteps
        /\ IF Sim THEN (\E o \in {RandomElement(OpSet)} : Op(o)) \/ (\E o \in {RandomElement(OpSet)} : Op(o)) \/ LenOp
           ELSE \E o \in OpSet : Op(o)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the model *)
Mutators == {"setAt", "set", "add", "delete", "flush", "popKey", "merge"}
\* an operation alters at most the object it is called on; existing lists and dictionaries are otherwise intact
Persistent == [][\A i \in 1..Len(heap) : i # last'.tgt => heap'[i] = heap[i]]_vars
OnlyMutators == [][last'.tgt # 0 => last'.o \in Mutators]_vars
\* copies share nothing with what existed before
Separate == [][last'.o \in {"clone", "pick", "omit", "roundTrip"} =>
                 Reach(heap', last'.new[1]) \cap ReachSeq(heap, regs) = {}]_vars
\* merge: the destination keeps its precedence, the sources are complete in the result
RECURSIVE Extends(_, _, _, _)
Extends(h2, a, h1, b) ==       \* a in h2 keeps everything of b in h1
  IF IsD(h1, b) THEN IsD(h2, a) /\ \A k \in DOMAIN Map_(h1, b) :
                        k \in DOMAIN Map_(h2, a) /\ Extends(h2, Map_(h2, a)[k], h1, Map_(h1, b)[k])
  ELSE Tree(h2, a) = Tree(h1, b)
MergeKeeps == [][last'.o = "merge" => Extends(heap', last'.new[1], heap, last'.new[1])]_vars
UniqueOk == last.o \in {"unique", "union", "intersect"} =>
  LET s == Seq_(heap, last.new[1]) IN \A i, j \in 1..Len(s) : i # j => ~Eq(heap, s[i], s[j])
TypeOk == /\ \A i \in 1..Len(heap) : heap[i].t \in {"L", "D"}
          /\ \A i \in 1..Len(regs) : regs[i] \in Atoms \cup RefSet

\* Emission of complete histories for the replay
EmitDone == (Emit /\ n = MaxSteps) => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
