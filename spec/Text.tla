-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The functions on texts and lists of texts as a machine with one         *)
(* register. A text is a sequence of characters (strings of length one).   *)
(* The register is built character by character, then goes through         *)
(* operations; it ends in a content (Finish): printed, or used by autoWrap *)
(* or autoIndent, which repeat the text around them for each element.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chars,       \* characters of the texts
          MaxBuild, MaxSteps, MaxLen, Sim, Emit

VARIABLES reg,         \* [k |-> "t", s |-> text] or [k |-> "l", ts |-> texts]
          hist, phase
vars == <<reg, hist, phase>>

Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
T(s) == [k |-> "t", s |-> s]
L(ts) == [k |-> "l", ts |-> ts]
None == [k |-> "none"]
NL == "\n"
Blank == {" ", "\t", NL}
IsSpace(c) == c \in Blank
Wide == ("é" :> 2) @@ ("♠" :> 3)                        \* bytes of the characters that have several
RECURSIVE Bytes(_), Flat(_), Join(_, _), Lines(_), Words(_), Spaces(_), Copies(_, _)
Bytes(s) == IF s = <<>> THEN 0 ELSE (IF s[1] \in DOMAIN Wide THEN Wide[s[1]] ELSE 1) + Bytes(Tail(s))
Copies(s, n) == IF n <= 0 THEN <<>> ELSE s \o Copies(s, n - 1)
Pad(n) == Copies(<<" ">>, n)
Flat(ts) == IF ts = <<>> THEN <<>> ELSE ts[1] \o Flat(Tail(ts))
Join(ts, sep) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(Tail(ts), sep)
\* position of the first character which satisfies the condition (1 + length if there is none)
First(s, C(_)) == LET P == {i \in 1..Len(s) : C(s[i])} IN IF P = {} THEN Len(s) + 1 ELSE CHOOSE i \in P : \A j \in P : i <= j
Lines(s) == LET i == First(s, LAMBDA c : c = NL) IN
            IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Lines(SubSeq(s, i + 1, Len(s)))
EndsNL(s) == s # <<>> /\ s[Len(s)] = NL
Cut(s) == IF EndsNL(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
IsBlank(s) == \A i \in 1..Len(s) : IsSpace(s[i])
\* leading white space
Spaces(s) == SubSeq(s, 1, First(s, LAMBDA c : ~IsSpace(c)) - 1)
Words(s) == LET t == SubSeq(s, Len(Spaces(s)) + 1, Len(s))
                i == First(t, IsSpace)
            IN IF t = <<>> THEN <<>> ELSE <<SubSeq(t, 1, i - 1)>> \o Words(SubSeq(t, i, Len(t)))
Prefixes(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EachLine(s, F(_)) == LET ls == Lines(s) IN Join([i \in 1..Len(ls) |-> F(ls[i])], <<NL>>)

Indent(s, p) == EachLine(s, LAMBDA l : p \o l)
\* The white space at the beginning of the first line is removed from all of them, or from none when one does not have it
UnIndent(s) == LET ls == Lines(s)
                   full == {i \in 1..Len(ls) : ~IsBlank(ls[i])}
                   p == Spaces(ls[CHOOSE i \in full : \A j \in full : i <= j])
               IN IF Len(ls) = 1 \/ full = {} \/ \E i \in full : ~Prefixes(p, ls[i]) THEN s
                  ELSE LET first == CHOOSE i \in full : \A j \in full : i <= j
                       IN Join([i \in 1..Len(ls) |-> IF i >= first /\ Prefixes(p, ls[i]) THEN SubSeq(ls[i], Len(p) + 1, Len(ls[i])) ELSE ls[i]], <<NL>>)
Center(s, w) == IF Len(s) > w THEN s ELSE LET l == (w - Len(s)) \div 2 IN Pad(l) \o s \o Pad(w - l - Len(s))

\* A line is broken before the word which does not fit; the indentation stays with the end of the line
RECURSIVE Fill(_, _, _, _)
Fill(ws, line, length, w) ==
  IF ws = <<>> THEN <<line>>
  ELSE LET b == Bytes(ws[1]) IN
       IF length > 0 /\ length + b > w THEN <<line>> \o Fill(Tail(ws), <<ws[1]>>, b, w)
       ELSE Fill(Tail(ws), Append(line, ws[1]), length + b + (IF line # <<>> THEN 1 ELSE 0), w)
WrapLine(s, w) == IF IsBlank(s) THEN <<>>
                  ELSE LET ls == Fill(Words(s), <<>>, Bytes(Spaces(s)), w)
                           texts == [i \in 1..Len(ls) |-> Join(ls[i], <<" ">>)]
                       IN Join([texts EXCEPT ![Len(ls)] = Spaces(s) \o @], <<NL>>)
Wrap(s, w) == EachLine(s, LAMBDA l : WrapLine(l, w))

Letters == {"a", "b", "é", "x", "t", "r", "u", "e", "f", "l", "s"}
DigitChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Valid(c) == c \in Letters \cup {"_"} \cup DigitChars
RECURSIVE Single(_, _), Id(_, _)
\* consecutive copies of a text are replaced by one
Single(s, r) == IF s = <<>> THEN <<>>
                ELSE IF Prefixes(r, s) THEN (IF Prefixes(r \o r, s) THEN Single(SubSeq(s, Len(r) + 1, Len(s)), r)
                                             ELSE r \o Single(SubSeq(s, Len(r) + 1, Len(s)), r))
                ELSE <<s[1]>> \o Single(Tail(s), r)
Id(s, r) == Single(Flat([i \in 1..Len(s) |-> IF Valid(s[i]) THEN <<s[i]>> ELSE r]), r)

Digits == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digit(n) == IF n = 0 THEN "0" ELSE Digits[n]
Decimal(n) == IF n < 10 THEN <<Digit(n)>> ELSE <<Digit(n \div 10), Digit(n % 10)>>
Numbered(s, w) == LET ls == Lines(s)
                      size == IF w > 0 THEN w ELSE IF Len(ls) < 10 THEN 1 ELSE 2
                  IN Join([i \in 1..Len(ls) |-> Pad(size - Len(Decimal(i))) \o Decimal(i) \o <<" ">> \o ls[i]], <<NL>>)
\* (elements with a new line cannot be told from several elements)
RECURSIVE Pieces(_, _)
Pieces(s, c) == LET i == First(s, LAMBDA x : x = c) IN
                IF i > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Pieces(SubSeq(s, i + 1, Len(s)), c)

\* Positions and selections (positions start at 0)
Punctuation == {"_", "-", ".", "*", "?", "(", ")", "%", "\"", "\\", "'", "/", ":", "#", "[", "]"}
Chars2(s) == {s[i] : i \in 1..Len(s)}
Word(s, p, accept) == LET Break(c) == c \in Blank \/ (c \in Punctuation /\ c \notin Chars2(accept)) IN
                      IF p >= Len(s) \/ (p < Len(s) /\ Break(s[p + 1])) THEN <<>>
                      ELSE LET B == {i \in 1..p : Break(s[i])}
                               b == IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : j <= i
                               t == SubSeq(s, b + 1, Len(s))
                           IN SubSeq(t, 1, First(t, Break) - 1)
At(s, i, x) == Len(x) > 0 /\ i + Len(x) <= Len(s) /\ SubSeq(s, i + 1, i + Len(x)) = x
\* positions of the occurrences that do not overlap
RECURSIVE Occurrences(_, _, _), Pairs(_, _, _, _, _)
Occurrences(s, x, i) == IF x = <<>> \/ i + Len(x) > Len(s) THEN <<>>
                        ELSE IF At(s, i, x) THEN <<i>> \o Occurrences(s, x, i + Len(x)) ELSE Occurrences(s, x, i + 1)
\* each closing bracket closes the last one that is still open
Pairs(s, l, r, i, open) == IF i >= Len(s) THEN {}
                           ELSE IF At(s, i, l) THEN Pairs(s, l, r, i + Len(l), Append(open, i))
                           ELSE IF At(s, i, r) THEN IF open = <<>> THEN Pairs(s, l, r, i + Len(r), open)
                                                    ELSE {<<open[Len(open)], i + Len(r)>>} \cup Pairs(s, l, r, i + Len(r), SubSeq(open, 1, Len(open) - 1))
                           ELSE Pairs(s, l, r, i + 1, open)
Highest(S) == CHOOSE i \in S : \A j \in S : j <= i
Lowest(S) == CHOOSE i \in S : \A j \in S : i <= j
\* the innermost context that contains the position
Context(s, p, l, r) ==
  LET lefts == {i \in 0..(p - Len(l)) : At(s, i, l)}
      rights == {i \in p..(Len(s) - Len(r)) : At(s, i, r)}
      pairs == {q \in Pairs(s, l, r, 0, <<>>) : q[1] + Len(l) <= p /\ p <= q[2] - Len(r)}
  IN CASE p >= Len(s) -> <<>>
       [] p < Len(s) /\ l = <<>> /\ r = <<>> -> <<s[p + 1]>>
       [] p < Len(s) /\ l # <<>> /\ r = <<>> -> IF lefts = {} THEN <<>> ELSE SubSeq(s, Highest(lefts) + 1, p + 1)
       [] p < Len(s) /\ l = <<>> /\ r # <<>> -> IF rights = {} THEN <<>> ELSE SubSeq(s, p + 1, Lowest(rights) + Len(r))
       [] p < Len(s) /\ l # <<>> /\ l = r -> IF lefts = {} \/ rights = {} THEN <<>> ELSE SubSeq(s, Highest(lefts) + 1, Lowest(rights) + Len(r))
       [] OTHER -> IF pairs = {} THEN <<>> ELSE LET b == Highest({q[1] : q \in pairs})
                                                    e == CHOOSE e \in 0..Len(s) : <<b, e>> \in pairs
                                                IN SubSeq(s, b + 1, e)
\* a position inside of a bracket of several characters is not used
Inside(s, p, x) == \E i \in 0..(p - 1) : At(s, i, x) /\ i + Len(x) > p

RECURSIVE TrimL(_, _)
TrimL(s, cut) == IF s # <<>> /\ s[1] \in cut THEN TrimL(Tail(s), cut) ELSE s
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
TrimR(s, cut) == Reverse(TrimL(Reverse(s), cut))
Suffixes(x, s) == Len(x) <= Len(s) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Numeral(n) == IF n < 100 THEN Decimal(n) ELSE <<Digit(n \div 100), Digit((n \div 10) % 10), Digit(n % 10)>>
\* operations which apply to each text of a list
Each(o, s, a) == CASE o = "trim" -> TrimL(TrimR(s, Chars2(a.s)), Chars2(a.s))
                   [] o = "trimLeft" -> TrimL(s, Chars2(a.s))
                   [] o = "trimRight" -> TrimR(s, Chars2(a.s))
                   [] o = "trimSpace" -> TrimL(TrimR(s, Blank), Blank)
                   [] o = "trimPrefix" -> IF Prefixes(a.s, s) THEN SubSeq(s, Len(a.s) + 1, Len(s)) ELSE s
                   [] o = "trimSuffix" -> IF Suffixes(a.s, s) THEN SubSeq(s, 1, Len(s) - Len(a.s)) ELSE s
                   [] o = "eachCenter" -> Center(s, a.n)
                   [] o = "eachWrap" -> Wrap(s, a.n)
                   [] o = "eachIndent" -> Indent(s, a.s)
                   [] o = "eachUnIndent" -> UnIndent(s)
Trims == {"trim", "trimLeft", "trimRight", "trimSpace", "trimPrefix", "trimSuffix"}
EachOps == Trims \cup {"eachCenter", "eachWrap", "eachIndent", "eachUnIndent"}

-----------------------------------------------------------------------------
\* a: n (number), s, s2 (texts), l (texts)
IsT(v) == v.k = "t"
IsL(v) == v.k = "l"
Texts(v) == IF IsT(v) THEN <<v.s>> ELSE v.ts
Formats(s) == "%" \in {s[i] : i \in 1..Len(s)}
Apply(o, v, a) ==
  CASE o = "splitLines" -> IF IsT(v) THEN L(Lines(Cut(v.s))) ELSE None
    [] o = "lines" -> IF IsT(v) THEN L(Lines(v.s)) ELSE None
    [] o = "split" -> IF IsT(v) THEN L(Pieces(v.s, a.s[1])) ELSE None
    [] o = "joinLines" -> IF IsL(v) THEN T(Join(v.ts, <<NL>>)) ELSE None
    [] o = "join" -> IF IsL(v) THEN T(Join(v.ts, a.s)) ELSE None
    [] o = "concat" -> IF IsT(v) THEN T(v.s \o a.s \o a.s2) ELSE T(Flat(v.ts))
    [] o = "indent" -> T(Indent(Join(Texts(v), <<NL>>), Pad(a.n)))
    [] o = "nIndent" -> T(<<NL>> \o Indent(Join(Texts(v), <<NL>>), Pad(a.n)))
    [] o = "sIndent" -> T(Indent(Join(Texts(v), <<NL>>), a.s))
    [] o = "unIndent" -> IF IsT(v) THEN T(UnIndent(v.s)) ELSE None
    [] o = "repeat" -> IF IsT(v) THEN L([i \in 1..a.n |-> v.s]) ELSE None
    [] o = "mergeList" -> IF IsL(v) THEN L(v.ts \o a.l \o v.ts) ELSE None
    [] o = "formatList" -> L([i \in 1..Len(Texts(v)) |-> a.s \o Texts(v)[i] \o a.s2])
    [] o = "center" -> IF IsT(v) /\ ~Formats(v.s) THEN T(Center(v.s, a.n)) ELSE None
    [] o = "wrap" -> IF IsT(v) /\ ~Formats(v.s) THEN T(Wrap(v.s, a.n)) ELSE None
    [] o = "id" -> IF IsT(v) THEN T(Id(v.s, IF a.s = <<>> THEN <<"_">> ELSE a.s)) ELSE None
    [] o = "number" -> IF IsT(v) THEN T(Numbered(v.s, a.n)) ELSE None
    [] o = "word" -> IF IsT(v) THEN T(Word(v.s, a.n, a.s)) ELSE None
    [] o = "context" -> IF IsT(v) /\ Len(v.s) <= 40 /\ ~Inside(v.s, a.n, a.s) /\ ~Inside(v.s, a.n, a.s2) /\ ~(a.s2 = <<>> /\ a.n < Len(v.s) /\ v.s[a.n + 1] \in DOMAIN Wide) THEN T(Context(v.s, a.n, a.s, a.s2)) ELSE None
    [] o = "find" -> IF IsT(v) THEN LET P == Occurrences(v.s, a.s, 0) IN L([i \in 1..Len(P) |-> Numeral(Bytes(SubSeq(v.s, 1, P[i])))]) ELSE None
    [] o = "contains" -> IF IsT(v) THEN T(IF a.s = <<>> \/ Occurrences(v.s, a.s, 0) # <<>> THEN <<"t", "r", "u", "e">> ELSE <<"f", "a", "l", "s", "e">>) ELSE None
    [] o = "lenc" -> IF IsT(v) THEN T(Numeral(Len(v.s))) ELSE None
    [] o \in Trims -> IF IsT(v) THEN T(Each(o, v.s, a)) ELSE L([i \in 1..Len(v.ts) |-> Each(o, v.ts[i], a)])
    [] o \in EachOps -> IF IsL(v) THEN L([i \in 1..Len(v.ts) |-> Each(o, v.ts[i], a)]) ELSE None
Ops == EachOps \cup {"word", "context", "find", "contains", "lenc", "splitLines", "lines", "split", "joinLines", "join", "concat", "indent", "nIndent", "sIndent", "unIndent", "repeat", "mergeList", "formatList", "center", "wrap", "id", "number"}
\* Contents: a is the text before, b the one after the expression
Around(v, a, b, sep) == Join([i \in 1..Len(v.ts) |-> a \o v.ts[i] \o b], sep)
Content(o, v, a) ==
  CASE o = "autoWrap" -> <<"q", NL>> \o Around(v, a.s, a.s2, <<>>) \o <<NL, "z">>
    [] o = "autoWrap-" -> <<"q">> \o Around(v, a.s, a.s2, <<>>) \o <<NL, "z">>
    [] o \in {"autoWrap<", "autoWrap<-"} -> <<"q", NL>> \o Around(v, a.s, a.s2, <<NL>>) \o <<NL, "z">>
    [] o = "autoIndent" -> <<"q", NL>> \o Indent(Join(v.ts, <<NL>>), a.s) \o <<NL, "z">>
Contents == {"autoWrap", "autoWrap-", "autoWrap<", "autoWrap<-", "autoIndent"}
Size(v) == Len(Flat(Texts(v)))
Brackets == {<< <<"(">>, <<")">> >>, << <<"<">>, <<">">> >>, << <<"<", "(">>, <<")", ">">> >>, << <<"|">>, <<"|">> >>, << <<"(">>, <<>> >>, << <<>>, <<")">> >>, << <<>>, <<>> >>}
Fits(v) == Size(v) <= MaxLen /\ Len(Texts(v)) <= 12 /\ (IsT(v) => Len(Lines(v.s)) <= 20)

-----------------------------------------------------------------------------
Pick(S, dummy) == RandomElement(S)
Drawn(n, dummy) == [i \in 1..Pick(0..n, dummy) |-> Pick(Chars, i)]
Inline(s) == SelectSeq(s, LAMBDA c : c # NL)
Tame(s) == SelectSeq(s, LAMBDA c : c \notin {NL, "`"})
Replacements == {<<>>, <<"_">>, <<"-">>, <<".">>, <<"+">>, <<"*">>, <<"$">>, <<"|">>, <<"^">>, <<"?">>, <<"\\">>, <<"é">>, <<"-", "+">>, <<"(", ")">>, <<"$", "0">>, <<"[">>, <<" ">>}
Arg(n, s, s2, l) == [n |-> n, s |-> s, s2 |-> s2, l |-> l]
Small == {<<>>, <<"a">>, <<" ">>, <<"%", NL>>}
Args(o) == IF Sim
           THEN CASE o = "id" -> {Arg(0, Pick(Replacements, 0), <<>>, <<>>)}
                  [] o \in {"repeat", "number"} -> {Arg(Pick(0..4, 0), <<>>, <<>>, <<>>)}
                  [] o \in {"indent", "nIndent"} -> {Arg(Pick(0..5, 0), <<>>, <<>>, <<>>)}
                  [] o \in {"center", "wrap"} -> {Arg(Pick(0..24, 0), <<>>, <<>>, <<>>)}
                  [] o = "split" -> {Arg(0, <<Pick(Chars, 0)>>, <<>>, <<>>)}
                  [] o = "word" -> {Arg(Pick(0..Size(reg), 0), Drawn(4, 1), <<>>, <<>>)}
                  [] o = "context" -> {Arg(n, b[1], b[2], <<>>) : n \in {Pick(0..Size(reg), 0)}, b \in {Pick(Brackets, 0)}}
                  [] o \in {"find", "contains"} -> {Arg(0, Drawn(2, 1), <<>>, <<>>)}
                  [] o \in {"eachCenter", "eachWrap"} -> {Arg(Pick(0..24, 0), <<>>, <<>>, <<>>)}
                  [] o = "mergeList" -> {Arg(0, <<>>, <<>>, [i \in 1..Pick(0..2, 0) |-> Drawn(3, i)])}
                  [] o \in {"autoWrap", "autoWrap-", "autoWrap<", "autoWrap<-"} -> {Arg(0, Inline(Drawn(6, 1)), Inline(Drawn(6, 2)), <<>>)}
                  [] o = "autoIndent" -> {Arg(0, Tame(Drawn(5, 1)), <<>>, <<>>)}
                  [] OTHER -> {Arg(0, Drawn(4, 1), Drawn(4, 2), <<>>)}
           ELSE CASE o = "id" -> {Arg(0, r, <<>>, <<>>) : r \in Replacements}
                  [] o \in {"repeat", "number", "indent", "nIndent"} -> {Arg(n, <<>>, <<>>, <<>>) : n \in {0, 2}}
                  [] o \in {"center", "wrap"} -> {Arg(n, <<>>, <<>>, <<>>) : n \in {0, 1, 2, 3, 5, 8}}
                  [] o = "split" -> {Arg(0, <<c>>, <<>>, <<>>) : c \in Chars}
                  [] o = "mergeList" -> {Arg(0, <<>>, <<>>, l) : l \in {<<>>, << <<"a">>, <<>> >>}}
                  [] o = "word" -> {Arg(n, s, <<>>, <<>>) : n \in 0..Size(reg), s \in {<<>>, <<"-", "%">>}}
                  [] o = "context" -> {Arg(n, b[1], b[2], <<>>) : n \in 0..Size(reg), b \in {<< <<"-">>, <<"a">> >>, << <<"-">>, <<"-">> >>, << <<"-">>, <<>> >>}}
                  [] o \in {"find", "contains"} \cup (Trims \ {"trimSpace"}) -> {Arg(0, s, <<>>, <<>>) : s \in {<<>>, <<" ", NL>>, <<"a", "a">>}}
                  [] o \in {"eachCenter", "eachWrap"} -> {Arg(n, <<>>, <<>>, <<>>) : n \in {2, 5}}
                  [] o \in {"splitLines", "lines", "joinLines", "unIndent", "eachUnIndent", "trimSpace", "lenc"} -> {Arg(0, <<>>, <<>>, <<>>)}
                  [] o \in {"sIndent", "join", "autoIndent", "eachIndent"} -> {Arg(0, IF o = "autoIndent" THEN Tame(s) ELSE s, <<>>, <<>>) : s \in Small}
                  [] o \in Contents -> {Arg(0, Inline(s), Inline(s2), <<>>) : s \in Small, s2 \in {<<>>, <<"%", NL>>}}
                  [] OTHER -> {Arg(0, s, s2, <<>>) : s \in Small, s2 \in {<<>>, <<"b", "\"">>}}

Init == reg = T(<<>>) /\ hist = <<>> /\ phase = "build"
\* (words, so that there is something to wrap)
Build == /\ phase = "build" /\ Len(reg.s) < MaxBuild
         /\ \E c \in Some(Chars) : \E n \in (IF Sim THEN {RandomElement({1, 1, 2, 4})} ELSE {1}) : reg' = T(reg.s \o Copies(<<c>>, n))
         /\ UNCHANGED <<hist, phase>>
Ready == /\ phase = "build" /\ (~Sim \/ Len(reg.s) >= MaxBuild \/ RandomElement(1..8) = 1)
         /\ phase' = "run"
         /\ hist' = <<[o |-> "start", a |-> Arg(0, <<>>, <<>>, <<>>), r |-> reg]>>
         /\ UNCHANGED reg
Step(o, a) == LET r == Apply(o, reg, a) IN
              IF r.k = "none" \/ (r.k # "none" /\ ~Fits(r)) THEN UNCHANGED vars          \* (the candidate is not kept)
              ELSE /\ reg' = r
                   /\ hist' = Append(hist, [o |-> o, a |-> a, r |-> r])
                   /\ phase' = "run"
Do == phase = "run" /\ Len(hist) <= MaxSteps /\ \E o \in Some(Ops) : \E a \in Args(o) : Step(o, a)
\* A content made with a list
Finish == /\ phase = "run" /\ IsL(reg) /\ (~Sim \/ RandomElement(1..3) = 1)
          /\ \E o \in (IF Sim THEN {RandomElement(Contents)} ELSE {"autoWrap", "autoWrap<-", "autoIndent"}) : \E a \in Args(o) :
               /\ reg' = T(Content(o, reg, a))
               /\ hist' = Append(hist, [o |-> o, a |-> a, r |-> T(Content(o, reg, a))])
          /\ phase' = "end"
End == phase = "run" /\ Sim /\ Len(hist) > MaxSteps /\ phase' = "end" /\ UNCHANGED <<reg, hist>>
Next == Build \/ Ready \/ Do \/ Finish \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Before == hist[Len(hist) - 1].r
Last == hist[Len(hist)]
Moved == Len(hist) > 1
Is(o) == Moved /\ Last.o = o
A == Last.a
\* Lines split and joined again are the text
SplitJoin == /\ Is("splitLines") => Join(reg.ts, <<NL>>) = Cut(Before.s)
             /\ Is("lines") => Join(reg.ts, <<NL>>) = Before.s /\ \A i \in 1..Len(reg.ts) : NL \notin {reg.ts[i][j] : j \in 1..Len(reg.ts[i])}
             /\ Is("split") => Join(reg.ts, A.s) = Before.s
             /\ (Is("joinLines") /\ Before.ts # <<>>) => Len(Lines(reg.s)) >= Len(Before.ts)
\* Indenting adds its text at the beginning of each line, and nothing else
Indented == (Is("indent") \/ Is("sIndent") \/ Is("nIndent")) =>
              LET p == IF Is("sIndent") THEN A.s ELSE Pad(A.n)
                  src == Join(Texts(Before), <<NL>>)
                  out == IF Is("nIndent") THEN Tail(reg.s) ELSE reg.s
              IN /\ NL \notin {p[i] : i \in 1..Len(p)} => Len(Lines(out)) = Len(Lines(src)) /\ \A i \in 1..Len(Lines(out)) : Lines(out)[i] = p \o Lines(src)[i]
                 /\ Len(out) = Len(src) + Len(Lines(src)) * Len(p)
\* What is removed is the indentation of the first line
UnIndented == /\ (Is("unIndent") /\ reg # Before /\ \A i \in 1..Len(Lines(Before.s)) : ~IsBlank(Lines(Before.s)[i])) => Indent(reg.s, Spaces(Before.s)) = Before.s
              /\ Is("unIndent") => Len(Lines(reg.s)) = Len(Lines(Before.s))
Centered == Is("center") => /\ Len(reg.s) = (IF A.n > Len(Before.s) THEN A.n ELSE Len(Before.s))
                            /\ LET l == (Len(reg.s) - Len(Before.s)) \div 2 IN SubSeq(reg.s, l + 1, l + Len(Before.s)) = Before.s
\* Wrapping moves words to other lines, which are not wider (a space excepted) when they have several words
Wrapped == Is("wrap") => /\ Words(reg.s) = Words(Before.s)
                         /\ \A i \in 1..Len(Lines(reg.s)) : LET l == Lines(reg.s)[i] IN
                              (Len(Words(l)) > 1 /\ Spaces(l) = <<>>) => Bytes(l) <= A.n + 1
Identifier == Is("id") => LET r == IF A.s = <<>> THEN <<"_">> ELSE A.s IN
                 /\ \A i \in 1..Len(reg.s) : Valid(reg.s[i]) \/ reg.s[i] \in {r[j] : j \in 1..Len(r)}
                 /\ \A i \in 1..Len(reg.s) : ~Prefixes(r \o r, SubSeq(reg.s, i, Len(reg.s)))
                 /\ A.s \in {<<>>, <<"_">>} => Id(reg.s, r) = reg.s
Lists == /\ Is("formatList") => Len(reg.ts) = Len(Texts(Before))
         /\ Is("mergeList") => Len(reg.ts) = 2 * Len(Before.ts) + Len(A.l)
         /\ Is("number") => Len(Lines(reg.s)) = Len(Lines(Before.s))
         /\ Is("repeat") => Flat(reg.ts) = Copies(Before.s, A.n)
\* A word has no white space and is found in the text; a context starts and ends with its brackets, as many of each
Selected == /\ (Is("word") /\ reg.s # <<>>) => (\A i \in 1..Len(reg.s) : ~IsSpace(reg.s[i])) /\ Before.s[A.n + 1] \in Chars2(reg.s)
            /\ (Is("word") \/ Is("context")) => reg.s = <<>> \/ Occurrences(Before.s, reg.s, 0) # <<>>
            /\ (Is("context") /\ reg.s # <<>> /\ A.s # <<>> /\ A.s2 # <<>>) =>
                 /\ At(reg.s, 0, A.s) /\ At(reg.s, Len(reg.s) - Len(A.s2), A.s2)
                 /\ Len(Occurrences(reg.s, A.s, 0)) = Len(Occurrences(reg.s, A.s2, 0))
            /\ Is("find") => \A i \in 1..Len(reg.ts) : i > 1 => reg.ts[i] # reg.ts[i - 1]
\* Trimming again changes nothing, except for prefixes and suffixes
Trimmed == (Moved /\ Last.o \in EachOps /\ IsL(reg)) => Len(reg.ts) = Len(Before.ts)
        /\ (Last.o \in {"trim", "trimLeft", "trimRight", "trimSpace"} => \A i \in 1..Len(reg.ts) : Each(Last.o, reg.ts[i], A) = reg.ts[i])

EmitDone == (Emit /\ (phase = "end" \/ (~Sim /\ Moved))) => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
