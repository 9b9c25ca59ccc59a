-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* The functions on files as a machine whose state is a tree of folders,   *)
(* files and symbolic links. A path is a sequence of names from the root   *)
(* of the tree. Queries look at what the path leads to; save is the only   *)
(* operation that changes the tree: it writes the text it is given to the  *)
(* file the path leads to, and creates at most this file and its folder.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Contents, Modes, MaxNodes, MaxSteps, Sim, Emit

VARIABLES tree,        \* path |-> [k, text, mode, to], k being dir, file or link
          initial, hist, phase
vars == <<tree, initial, hist, phase>>

Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
Paths == {<<n>> : n \in Names} \cup {<<n, m>> : n \in Names, m \in Names}
Deep == Paths \cup {<<n, m, o>> : n \in Names, m \in Names, o \in Names}
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
Dir == [k |-> "dir", text |-> "", mode |-> 493, to |-> <<>>]
File(t, m) == [k |-> "file", text |-> t, mode |-> m, to |-> <<>>]
Link(p) == [k |-> "link", text |-> "", mode |-> 0, to |-> p]
Kind(tr, p) == IF p = <<>> THEN "dir" ELSE IF p \in DOMAIN tr THEN tr[p].k ELSE "none"

\* What a path leads to: ok (and the real path), missing (last: only the last name is missing, at the real path), or wrong
Lead(r, p, last) == [r |-> r, p |-> p, last |-> last]
RECURSIVE Resolve(_, _, _)
Resolve(tr, p, fuel) ==
  IF p = <<>> THEN Lead("ok", <<>>, TRUE)
  ELSE LET f == Resolve(tr, Front(p), fuel)
           q == Append(f.p, Last(p))
       IN IF f.r = "missing" THEN Lead("missing", <<>>, FALSE)
          ELSE IF f.r = "wrong" \/ Kind(tr, f.p) # "dir" THEN Lead("wrong", <<>>, FALSE)
          ELSE CASE Kind(tr, q) = "none" -> Lead("missing", q, TRUE)
                 [] Kind(tr, q) = "link" -> IF fuel = 0 THEN Lead("wrong", <<>>, FALSE) ELSE Resolve(tr, tr[q].to, fuel - 1)
                 [] OTHER -> Lead("ok", q, TRUE)
At(p) == Resolve(tree, p, 8)
NodeOf(p) == IF At(p).p = <<>> THEN Dir ELSE tree[At(p).p]

-----------------------------------------------------------------------------
\* Results: v (value: true, false, a text, a number, paths), error
V(v) == [k |-> "v", v |-> v]
Error == [k |-> "error", v |-> ""]
Unknown == [k |-> "unknown", v |-> ""]             \* not specified: the candidate is not kept
Bit(m, b) == (m \div b) % 2 = 1
Query(o, p) ==
  LET at == At(p) IN
  CASE o = "exists" -> IF at.r = "ok" THEN V(TRUE) ELSE IF at.r = "missing" THEN V(FALSE) ELSE Error
    [] at.r # "ok" -> Error
    [] o = "isDir" -> V(NodeOf(p).k = "dir")
    [] o = "isFile" -> V(NodeOf(p).k = "file")
    [] o = "isReadable" -> V(Bit(NodeOf(p).mode, 256))
    [] o = "isWriteable" -> V(Bit(NodeOf(p).mode, 128))
    [] o = "isExecutable" -> V(NodeOf(p).k = "file" /\ Bit(NodeOf(p).mode, 64))
    [] o = "mode" -> IF at.p = <<>> THEN Unknown ELSE V(<<NodeOf(p).k, NodeOf(p).mode>>)
    [] o = "size" -> IF NodeOf(p).k = "file" THEN V(NodeOf(p).text) ELSE Unknown
    [] o = "load" -> IF NodeOf(p).k = "file" THEN (IF Bit(NodeOf(p).mode, 256) THEN V(NodeOf(p).text) ELSE Unknown) ELSE Error
Queries == {"exists", "isDir", "isFile", "isReadable", "isWriteable", "isExecutable", "mode", "size", "load"}

\* Patterns of names
Order == <<".h", "a", "ab", "b", "é">>
Matching == ("*" :> {".h", "a", "ab", "b", "é"}) @@ ("?" :> {"a", "b", "é"}) @@ ("a*" :> {"a", "ab"}) @@ ("[ab]" :> {"a", "b"})
         @@ ("*b" :> {"ab", "b"}) @@ ("?b" :> {"ab"}) @@ ("[^a]" :> {"b", "é"})
Tokens == DOMAIN Matching \cup Names
IsMeta(p) == \E i \in 1..Len(p) : p[i] \in DOMAIN Matching
Accepts(tk, n) == IF tk \in DOMAIN Matching THEN n \in Matching[tk] ELSE n = tk
RECURSIVE Concat(_), Expand(_)
Concat(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o Concat(Tail(ls))
\* entries of the folder a path leads to, in the order of their names
Entries(d, tk) == IF At(d).r = "ok" /\ Kind(tree, At(d).p) = "dir"
                  THEN LET ok(n) == n \in Names /\ Append(At(d).p, n) \in DOMAIN tree /\ Accepts(tk, n)
                           ns == SelectSeq(Order, ok)
                       IN [i \in 1..Len(ns) |-> Append(d, ns[i])]
                  ELSE <<>>
Expand(p) == IF ~IsMeta(p) THEN <<p>>
             ELSE LET ds == Expand(Front(p)) IN Concat([i \in 1..Len(ds) |-> Entries(ds[i], Last(p))])
Glob(ps) == Concat([i \in 1..Len(ps) |-> Expand(ps[i])])

\* Writing: the folder is created when it is missing (but not the ones above)
Save(p, t) ==
  LET d == At(Front(p))
      tree1 == IF d.r = "missing" /\ d.last /\ Kind(tree, Front(p)) # "link" THEN (d.p :> Dir) @@ tree ELSE tree
      f == Resolve(tree1, p, 8)
  IN CASE d.r = "missing" /\ (~d.last \/ Resolve(tree1, Front(p), 8).r # "ok") -> [ok |-> FALSE, tree |-> tree]
       [] f.r = "ok" /\ Kind(tree1, f.p) = "file" -> [ok |-> TRUE, tree |-> [tree1 EXCEPT ![f.p].text = t]]
       [] f.r = "missing" /\ f.last -> [ok |-> TRUE, tree |-> (f.p :> File(t, 420)) @@ tree1]
       [] OTHER -> [ok |-> FALSE, tree |-> tree1]

-----------------------------------------------------------------------------
Step(o, p, x, ps, ok, v) == [o |-> o, p |-> p, x |-> x, ps |-> ps, ok |-> ok, v |-> v]
AsTree(tr) == LET RECURSIVE Listed(_)
                  Listed(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<[p |-> p, n |-> tr[p]]>> \o Listed(S \ {p})
              IN Listed(DOMAIN tr)
Init == tree = <<>> /\ initial = <<>> /\ hist = <<>> /\ phase = "build"
Nodes == {Dir} \cup {File(t, m) : t \in Contents, m \in Modes} \cup {Link(p) : p \in Paths}
Build == /\ phase = "build" /\ Cardinality(DOMAIN tree) < MaxNodes
         /\ \E p \in Some(Paths) : \E n \in (IF Sim THEN {RandomElement(CASE RandomElement(1..3) = 1 -> {Dir} [] OTHER -> Nodes)} ELSE Nodes) :
              IF p \in DOMAIN tree \/ Kind(tree, Front(p)) # "dir" THEN UNCHANGED tree ELSE tree' = (p :> n) @@ tree
         /\ UNCHANGED <<initial, hist, phase>>
Ready == /\ phase = "build" /\ (~Sim \/ Cardinality(DOMAIN tree) >= MaxNodes \/ RandomElement(1..10) = 1)
         /\ initial' = tree /\ phase' = "run" /\ UNCHANGED <<tree, hist>>
\* (mostly nodes of the tree, so that there are results)
Aim(S) == IF ~Sim THEN S ELSE {RandomElement(LET k == RandomElement(1..8) IN IF k = 1 \/ DOMAIN tree = {} THEN S
                                            ELSE IF k = 2 THEN {Append(p, n) : p \in DOMAIN tree, n \in Names} ELSE DOMAIN tree)}
More == phase = "run" /\ Len(hist) < MaxSteps
Ask == /\ More
       /\ \E o \in Some(Queries) : \E p \in Aim(Deep \cup {<<>>}) : \E r \in {Query(o, p)} :
            IF r.k = "unknown" THEN UNCHANGED hist ELSE hist' = Append(hist, Step(o, p, "", <<>>, r.k = "v", r.v))
       /\ UNCHANGED <<tree, initial, phase>>
Find == /\ More
        /\ \E n \in (IF Sim THEN {RandomElement(1..3)} ELSE {1}) :
             \E ps \in (IF Sim THEN {[i \in 1..n |-> [j \in 1..RandomElement(1..2 + 0 * i) |-> RandomElement(IF j = 5 THEN {} ELSE Tokens)]]}
                        ELSE {<<p>> : p \in {<<t>> : t \in Tokens} \cup {<<t, u>> : t \in Tokens, u \in Tokens}}) :
               hist' = Append(hist, Step("glob", <<>>, "", ps, TRUE, Glob(ps)))
        /\ UNCHANGED <<tree, initial, phase>>
\* (the content of the file at the path x is copied, or a text is written)
Write == /\ More
         /\ \E p \in Aim(Deep) : \E t \in Some(Contents) : \E s \in {Save(p, t)} :
              IF At(p).r = "ok" /\ ~Bit(NodeOf(p).mode, 128) THEN UNCHANGED <<tree, hist>>
              ELSE tree' = s.tree /\ hist' = Append(hist, Step("save", p, t, <<>>, s.ok, 0))
         /\ UNCHANGED <<initial, phase>>
Copy == /\ More
        /\ \E p \in Aim(Paths) : \E q \in Aim(Paths) : \E r \in {Query("load", q)} :
             IF r.k = "unknown" \/ (At(p).r = "ok" /\ ~Bit(NodeOf(p).mode, 128)) THEN UNCHANGED <<tree, hist>>
             ELSE \E s \in {IF r.k = "v" THEN Save(p, r.v) ELSE [ok |-> FALSE, tree |-> tree]} :
                    tree' = s.tree /\ hist' = Append(hist, Step("copy", p, "", <<q>>, s.ok, 0))
        /\ UNCHANGED <<initial, phase>>
End == phase = "run" /\ Len(hist) >= MaxSteps /\ phase' = "end" /\ UNCHANGED <<tree, initial, hist>>
Next == Build \/ Ready \/ Ask \/ Find \/ Write \/ Copy \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
S == hist[Len(hist)]
Is(o) == phase = "run" /\ hist # <<>> /\ S.o = o
\* Every node is in a folder
Tree == \A p \in DOMAIN tree : Kind(tree, Front(p)) = "dir"
\* What has been saved is what is read
Saved == (Is("save") /\ S.ok) => (LET r == Query("load", S.p) IN r.k = "unknown" \/ (r.k = "v" /\ r.v = S.x)) /\ Query("exists", S.p).v /\ Query("isFile", S.p).v
Copied == (Is("copy") /\ S.ok) => Query("size", S.p).v = Query("size", S.ps[1]).v
\* Saving adds at most the file and its folder, changes at most one file, and never removes or replaces anything
Frame == [][(phase = "run" /\ tree' # tree) =>
              /\ DOMAIN tree \subseteq DOMAIN tree' /\ Cardinality(DOMAIN tree') <= Cardinality(DOMAIN tree) + 2
              /\ Cardinality({p \in DOMAIN tree : tree'[p] # tree[p]}) <= 1
              /\ \A p \in DOMAIN tree : tree'[p].k = tree[p].k /\ tree'[p].mode = tree[p].mode]_vars
\* Everything that is found exists, in the tree or as a link, each one once for a pattern
Found == Is("glob") => /\ \A i \in 1..Len(S.v) : (\E j \in 1..Len(S.ps) : S.ps[j] = S.v[i] /\ ~IsMeta(S.ps[j])) \/ At(Front(S.v[i])).r = "ok"
                       /\ (Len(S.ps) = 1) => Cardinality({S.v[i] : i \in 1..Len(S.v)}) = Len(S.v)
EmitDone == (Emit /\ (phase = "end" \/ (~Sim /\ phase = "run" /\ hist # <<>>))) => PrintT(<<"@@", ToJson([initial |-> AsTree(initial), hist |-> hist, final |-> AsTree(tree)])>>)
=============================================================================
