-------------------------------- MODULE Find --------------------------------
(***************************************************************************)
(* Search of the files to process: a tree of folders with files and        *)
(* symbolic links is built, then searched folder by folder from the        *)
(* nearest, down to a maximum depth. The list of a run is made of the      *)
(* files found and those given explicitly, without the excluded ones.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDirs, MaxFiles, MaxLinks, MaxQueries, Runs,    \* Runs: queries made through the command
          Sim, Emit
VARIABLES dirs,       \* folders: sequence of [p: parent, n: name]; the first one is the root
          files,      \* set of [d, n, l]: l when it is a link to a file that is elsewhere
          links,      \* set of [d, n, t]: links to folders
          phase, query, pending, seen, hist
tvars == <<dirs, files, links>>
vars == <<dirs, files, links, phase, query, pending, seen, hist>>
Some(T) == IF Sim /\ T # {} THEN {RandomElement(T)} ELSE T
Pick(T) == RandomElement(T)
-----------------------------------------------------------------------------
(* Patterns and names.                                                       *)
Star == [k |-> "*", s |-> {}]
One == [k |-> "?", s |-> {}]
In(s) == [k |-> "in", s |-> s]
NotIn(s) == [k |-> "not", s |-> s]
RECURSIVE Chars(_), Match(_, _)
Chars(s) == IF s = "" THEN <<>> ELSE <<SubSeq(s, 1, 1)>> \o Chars(SubSeq(s, 2, Len(s)))
Lits(s) == [i \in 1..Len(s) |-> In({SubSeq(s, i, i)})]
Match(pat, cs) ==
  IF pat = <<>> THEN cs = <<>>
  ELSE LET t == Head(pat) IN
       IF t.k = "*" THEN Match(Tail(pat), cs) \/ (cs # <<>> /\ Match(pat, Tail(cs)))
       ELSE /\ cs # <<>>
            /\ CASE t.k = "?" -> TRUE [] t.k = "in" -> Head(cs) \in t.s [] t.k = "not" -> Head(cs) \notin t.s
            /\ Match(Tail(pat), Tail(cs))
P(text, toks) == [text |-> text, toks |-> toks]
Gt == P("*.gt", <<Star>> \o Lits(".gt"))
Patterns == {Gt, P("*.template", <<Star>> \o Lits(".template")), P("a*", Lits("a") \o <<Star>>), P("?.*", <<One>> \o Lits(".") \o <<Star>>), P("[ab].gt", <<In({"a", "b"})>> \o Lits(".gt")),
             P("[^a]*", <<NotIn({"a"}), Star>>), P("b.txt", Lits("b.txt")), P("*", <<Star>>), P("*[x*]*", <<Star, In({"x", "*"}), Star>>), P("*.t?t", <<Star>> \o Lits(".t") \o <<One>> \o Lits("t")),
             P("none*", Lits("none") \o <<Star>>), P("*b*t", <<Star>> \o Lits("b") \o <<Star>> \o Lits("t"))}
Default == {Gt, P("*.template", <<Star>> \o Lits(".template"))}
FileNames == IF Sim THEN {"a.gt", "b.gt", "b.txt", "ab.txt", "[x].gt", ".h.gt", "é b.gt", "c.template", "a*.gt", "noext", "x{y}.txt"} ELSE {"a.gt"}
DirNames == IF Sim THEN {"d", "[x]", "a*b", "q?", "é è", "d.gt", "a..b", "{ab}", ".hid", "b.txt.d", "$x"} ELSE {"d", "[d]"}
LinkNames == IF Sim THEN {"l1", "l2.gt", "0l"} ELSE {"l1", "0l"}
-----------------------------------------------------------------------------
(* The tree.                                                                 *)
NoQuery == [start |-> 1, via |-> FALSE, max |-> 0, follow |-> FALSE, pats |-> {Gt}, given |-> {}, excl |-> {}, run |-> FALSE]
Init == /\ dirs = <<[p |-> 0, n |-> "root"]>> /\ links = {} /\ phase = "tree" /\ hist = <<>>
        /\ files = IF Sim THEN {} ELSE {[d |-> 1, n |-> "a.gt", l |-> FALSE]}
        /\ query = NoQuery /\ pending = {} /\ seen = [x \in {} |-> 0]
Dir == 1..Len(dirs)
AddDir == /\ Len(dirs) < MaxDirs
          /\ \E p \in Some(Dir), n \in Some(DirNames) :
               /\ \A x \in Dir : dirs[x] # [p |-> p, n |-> n]
               /\ dirs' = Append(dirs, [p |-> p, n |-> n])
               /\ files' = IF Sim THEN files ELSE files \cup {[d |-> Len(dirs) + 1, n |-> "a.gt", l |-> FALSE]}
          /\ UNCHANGED links
AddFile == /\ Sim /\ Cardinality(files) < MaxFiles
           /\ \E d \in Some(Dir), n \in Some(FileNames), l \in Some({TRUE, FALSE, FALSE, FALSE}) :
                /\ \A x \in files : x.d # d \/ x.n # n
                /\ files' = files \cup {[d |-> d, n |-> n, l |-> l /\ Pick(1..4) = 1]}
           /\ UNCHANGED <<dirs, links>>
AddLink == /\ Cardinality(links) < MaxLinks
           /\ \E d \in Some(Dir), t \in Some(Dir), n \in Some(LinkNames) :
                /\ \A x \in links : x.d # d \/ x.n # n
                /\ links' = links \cup {[d |-> d, n |-> n, t |-> t]}
           /\ UNCHANGED <<dirs, files>>
Build == /\ phase = "tree"
         /\ IF Sim THEN CASE Pick(1..3) = 1 -> AddDir [] Pick(1..5) = 1 -> AddLink [] OTHER -> AddFile ELSE AddDir \/ AddLink
         /\ UNCHANGED <<phase, query, pending, seen, hist>>
-----------------------------------------------------------------------------
(* Queries.                                                                  *)
\* exclusions: files of the source folder itself, of any folder, under a folder
Exclusions == {[k |-> k, p |-> p, d |-> 0] : k \in {"top", "any"}, p \in Patterns} \cup {[k |-> "under", p |-> Gt, d |-> d] : d \in Dir \ {1}}
              \cup {[k |-> "in", p |-> p, d |-> d] : p \in Patterns, d \in Dir \ {1}}
RECURSIVE Under(_, _)
Under(x, d) == x # 0 /\ (x = d \/ Under(dirs[x].p, d))
Excluded(f, e) == CASE e.k = "top" -> f.d = 1 /\ Match(e.p.toks, Chars(f.n)) [] e.k = "any" -> Match(e.p.toks, Chars(f.n))
                    [] e.k = "under" -> Under(f.d, e.d) [] e.k = "in" -> f.d = e.d /\ Match(e.p.toks, Chars(f.n))
Subset(T, n) == {Pick(T) : i \in 1..n}          \* some elements
Queries ==
  IF ~Sim THEN {[NoQuery EXCEPT !.start = s, !.max = m, !.follow = f] : s \in Dir, m \in 0..MaxDirs, f \in BOOLEAN}
  ELSE {[start |-> IF r THEN 1 ELSE Pick(Dir), via |-> Pick({TRUE, FALSE, FALSE}), max |-> IF m = 5 THEN 65536 ELSE m, follow |-> f, pats |-> Subset(Patterns, Pick(1..2)),
         given |-> IF r /\ files # {} /\ Pick(1..2) = 1 THEN Subset(files, Pick(1..3)) ELSE {},
         excl |-> IF r /\ Pick(1..2) = 1 THEN Subset(Exclusions, Pick(1..2)) ELSE {}, run |-> r]
        : r \in {Runs /\ Pick(1..3) = 1}, m \in {Pick(0..5)}, f \in {Pick(BOOLEAN)}}
Ask == /\ phase \in {"tree", "ask"} /\ Len(hist) < MaxQueries /\ (~Sim \/ Pick(1..8) = 1 \/ (Len(dirs) >= MaxDirs /\ Cardinality(files) >= MaxFiles) \/ phase = "ask")
       /\ query' \in Queries
       /\ phase' = "search" /\ pending' = {<<query'.start, 0>>} /\ seen' = [x \in {query'.start} |-> 0]
       /\ UNCHANGED tvars /\ UNCHANGED hist
Children(d) == {x \in Dir : dirs[x].p = d} \cup (IF query.follow THEN {x.t : x \in {y \in links : y.d = d}} ELSE {})
Nearest == {x \in pending : \A y \in pending : x[2] <= y[2]}
\* the order in which the folders of a level are visited does not matter
Visit == /\ phase = "search" /\ pending # {}
         /\ \E x \in IF Emit THEN {CHOOSE y \in Nearest : TRUE} ELSE Nearest :
              LET new == IF x[2] >= query.max THEN {} ELSE {c \in Children(x[1]) : c \notin DOMAIN seen} IN
              /\ pending' = (pending \ {x}) \cup {<<c, x[2] + 1>> : c \in new}
              /\ seen' = seen @@ [c \in new |-> x[2] + 1]
         /\ UNCHANGED tvars /\ UNCHANGED <<phase, query, hist>>
Pats == IF query.run /\ query.given = {} THEN query.pats \cup Default ELSE query.pats
Found == {f \in files : f.d \in DOMAIN seen /\ \E p \in Pats : Match(p.toks, Chars(f.n))}
Processed == {f \in Found \cup query.given : ~\E e \in query.excl : Excluded(f, e)}
Answer == /\ phase = "search" /\ pending = {} /\ phase' = "ask"
          /\ hist' = Append(hist, [q |-> query, found |-> Processed])
          /\ UNCHANGED tvars /\ UNCHANGED <<query, pending, seen>>
Next == Build \/ Ask \/ Visit \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Visit \/ Answer)
-----------------------------------------------------------------------------
(* Properties.                                                               *)
RECURSIVE Within(_)
Within(k) == IF k = 0 THEN {query.start} ELSE Within(k - 1) \cup UNION {Children(d) : d \in Within(k - 1)}
Limit == IF query.max > Len(dirs) THEN Len(dirs) ELSE query.max
\* exactly the folders that can be reached within the depth, at their lowest depth
Reached == (phase = "search" /\ pending = {}) => DOMAIN seen = Within(Limit) /\ \A d \in DOMAIN seen : seen[d] = 0 \/ d \notin Within(seen[d] - 1)
\* without links followed, nothing outside of the folder
Inside == (phase = "search" /\ ~query.follow) => \A d \in DOMAIN seen : Under(d, query.start)
Terminates == (phase = "search") ~> (phase = "ask")
-----------------------------------------------------------------------------
EmitDone == (Emit /\ phase = "ask" /\ Len(hist) = MaxQueries) =>
  PrintT(<<"@@", ToJson([dirs |-> dirs, files |-> files, links |-> links,
                         hist |-> [n \in 1..Len(hist) |-> [q |-> [hist[n].q EXCEPT !.pats = {p.text : p \in @}, !.excl = {[k |-> e.k, p |-> e.p.text, d |-> e.d] : e \in @}],
                                                           found |-> hist[n].found]]])>>)
=============================================================================
