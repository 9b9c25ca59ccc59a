------------------------------- MODULE Literal ------------------------------
(***************************************************************************)
(* Text around the template code.  A content is a sequence of lines, each  *)
(* line a sequence of pieces joined by separators.  It is rendered line by *)
(* line: the markers met so far decide whether the go template and razor   *)
(* expressions of the line are active, the rest of the text is unchanged.  *)
(* <D>, <L> and <R> stand for the razor, left and right delimiters.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLines, MaxPieces, Sim, Emit, Focus

VARIABLES lines, conf, phase, cur, gp, rp, out, eat
vars == <<lines, conf, phase, cur, gp, rp, out, eat>>

Some(T) == IF Sim THEN {RandomElement(T)} ELSE T
NL == "\n"
Blanks == {" ", "  ", "\t"}
White == Blanks \cup {NL}
(* Commands within renderings:
   ^B removes the blanks before on the same line, ^W all the white space before, ^E all the white space after,
   ^0 is an expression which gives nothing *)
Commands == {"^B", "^W", "^E", "^0"}

Lit(t) == [t |-> t, n |-> <<t>>, x |-> <<t>>, d |-> <<t>>, f |-> {}]
Word(t) == [Lit(t) EXCEPT !.f = {"word"}]
Razor(t, n, d, f) == [t |-> t, n |-> n, x |-> <<t>>, d |-> d, f |-> f \cup {"code"}]
Go(t, n, f) == [t |-> t, n |-> n, x |-> n, d |-> <<t>>, f |-> f \cup {"code"}]
Conv(e) == "<L> " \o e \o " <R>"

Literals ==
  {Lit(t) : t \in {"\"q\"", "'", "`txt`", "```", "${x}", "$ {x}", "50%", "{", "}", "$&", "$1", "\\", "<tag>", "&amp;",
                   "<D>", "<D>;", "<D>)", "<D>\"", "<D>,", "<no value>", "<nil>", "|", ";", "#", "//", "/* x */", "100*2", "a/b", "~"}}
  \cup {[Lit(t) EXCEPT !.f = {"mail"}] : t \in {"me<D>here.com", "(john.doe<D>company.com)", "<al<D>127.0.0.1>", "x<D>y.z", "http://u:p<D>host.com/x"}}
  \cup {[Lit("`l1\n<D>a; <D>(a + 1)\nl2`") EXCEPT !.f = {"alone"}]}
Words == {Word(t) : t \in {"word", "x", "é", "日本", "Hello", "42"}}
RightAlone == {Lit("<R>")}
Doubled == {Razor("<D><D>", <<"<D>">>, <<"<D>">>, {"closed"}), Razor("<D><D>a;", <<"<D>a;">>, <<"<D>a;">>, {"closed"}),
            Razor("a<D><D>b", <<"a<D>b">>, <<"a<D>b">>, {})}
Values ==
  {Razor("<D>a", <<"4">>, <<Conv("$.a")>>, {}), Razor("<D>a;", <<"4">>, <<Conv("$.a")>>, {"closed"}),
   Razor("<D>(a + 1);", <<"5">>, <<Conv("add $.a 1")>>, {"closed"}), Razor("<D>.a", <<"4">>, <<Conv(".a")>>, {}),
   Razor("<D>d.k;", <<"7">>, <<Conv("$.d.k")>>, {"closed", "dot"}), Razor("q=<D>a;", <<"q=4">>, <<"q=" \o Conv("$.a")>>, {"closed"}),
   Razor("\\<D>a;", <<"\\4">>, <<"\\" \o Conv("$.a")>>, {"closed"}), Razor("é<D>a;é", <<"é4é">>, <<"é" \o Conv("$.a") \o "é">>, {}),
   Razor("`<D>a`", <<"`4`">>, <<"`" \o Conv("$.a") \o "`">>, {}), Razor("\"<D>a;\"", <<"\"4\"">>, <<"\"" \o Conv("$.a") \o "\"">>, {}),
   Razor("(<D>a)", <<"(4)">>, <<"(" \o Conv("$.a") \o ")">>, {}), Razor("{ <D>a }", <<"{ 4 }">>, <<"{ " \o Conv("$.a") \o " }">>, {}),
   Razor("<D>a,<D>b", <<"4,2">>, <<Conv("$.a") \o "," \o Conv("$.b")>>, {}), Razor("<D>a<D>b", <<"42">>, <<Conv("$.a") \o Conv("$.b")>>, {}),
   Razor("/* <D>a; */", <<"/* 4 */">>, <<"/* " \o Conv("$.a") \o " */">>, {}), Razor("# <D>a", <<"# 4">>, <<"# " \o Conv("$.a")>>, {}),
   Razor("/*<D>(<D>a)<D>*/", <<"(4)">>, <<"(" \o Conv("$.a") \o ")">>, {}),
   Go("<L> .a <R>", <<"4">>, {"closed"}), Go("<L>add .a 1<R>", <<"5">>, {"closed"}), Go("<L>/* c */<R>", <<"^0">>, {}),
   Go("`<L> .a <R>`", <<"`4`">>, {}), Go("`l1\n<L> .a <R>\nl2`", <<"`l1\n4\nl2`">>, {"alone"}),
   Go("<L>- .a <R>", <<"^W", "4">>, {"closed"}), Go("<L> .a -<R>", <<"4", "^E">>, {"closed"}), Go("<L>- .a -<R>", <<"^W", "4", "^E">>, {"closed"})}
Eaters ==
  {Razor("#! <D>a", <<"^B", "4">>, <<"^B", Conv("$.a")>>, {}), Razor("//! <D>a", <<"^B", "4">>, <<"^B", Conv("$.a")>>, {}),
   Razor("<D>-a", <<"^W", "4">>, <<"<L>- $.a <R>">>, {}), Razor("<D>_-a;", <<"4", "^E">>, <<"<L> $.a -<R>">>, {}),
   Razor("<D>--a;", <<"^W", "4", "^E">>, <<"<L>- $.a -<R>">>, {}), Razor("<D><a", <<"^W", NL, "4">>, <<"<L>- $.NEWLINE <R>" \o Conv("$.a")>>, {}),
   Razor("<D><;", <<"^W", NL>>, <<"<L>- $.NEWLINE <R>">>, {}), Razor("<D>-;", <<"^W", "^0", "^E">>, <<"<L>- \"\" -<R>">>, {})}
Comments ==   \* up to the end of the line
  {Razor("<D>// note", <<"^0">>, <<"<L>/* note */<R>">>, {"eol"}), Razor("<D># note <D>a; me<D>x.y", <<"^0">>, <<"<L>/* note <D>a; me<D>x.y */<R>">>, {"eol", "nodis"}),
   Razor("## <D>a note", <<"^W", "^0">>, <<"^B", "<L>- \"\" <R>">>, {"eol"}), Razor("///<D> note", <<"^W", "^0">>, <<"^B", "<L>- \"\" <R>">>, {"eol"}),
   Razor("<D>-// note", <<"^W", "^0">>, <<"<L>- /* note */<R>">>, {"eol"}),
   Razor("<D>/* note <D>a; */", <<"^0">>, <<"<L>/* note <L> $.a <R> */<R>">>, {}),
   Razor("<D>/* note\n<D>(a) */", <<"^0">>, <<"">>, {"nodis", "alone"})}
Ignorable == \* the ignored expressions
  {[Razor("<D>param", <<"8">>, <<Conv("$.param")>>, {}) EXCEPT !.f = {"code", "ign1"}],
   [Razor("<D>params;", <<"9">>, <<Conv("$.params")>>, {"closed"}) EXCEPT !.f = {"code", "ign2"}],
   [Razor("<D>param + 1", <<"8 + 1">>, <<Conv("$.param") \o " + 1">>, {}) EXCEPT !.f = {"code", "ign1"}],
   Razor("<D>(param + 1);", <<"9">>, <<Conv("add $.param 1")>>, {"closed"})}
Start_ == {Razor("<D><L>", <<"{{">>, <<"">>, {"nodis", "default", "rz"})}
Foreign == {[Lit(t) EXCEPT !.f = {"foreign"}] : t \in {"{{ .a }}", "@a", "@@", "@(a + 1)", "{{", "me@here.com", "## @a", "@// x", "{{- .a -}}"}}
Markers == [ pg |-> "# gotemplate-pause!", rg |-> "gotemplate-resume! x", pr |-> "// razor-pause!", rr |-> "razor-resume!",
             nr |-> "no-razor!", ng |-> "no-gotemplate!" ]
MarkerPieces == {[Lit(Markers[m]) EXCEPT !.f = {"marker", m}] : m \in DOMAIN Markers}
\* the texts with many paused sections
Pausing == {p \in MarkerPieces : p.f \cap {"pg", "rg", "pr", "rr"} # {}} \cup {Lit("<R>"), Lit("<D>;"), Word("x")}
           \cup {p \in Values : p.t \in {"<D>(a + 1);", "<D>a;", "<L> .a <R>", "<L>add .a 1<R>", "`<L> .a <R>`"}}
           \cup {p \in Doubled : p.t = "<D><D>a;"}
Pieces == IF Focus = "pause" THEN Pausing ELSE Literals \cup Words \cup RightAlone \cup Doubled \cup Values \cup Eaters \cup Comments \cup Ignorable \cup Start_ \cup Foreign \cup MarkerPieces

Separators == {" ", "  ", "\t", ", ", " - ", " ("}

Ok(p) == /\ ("foreign" \in p.f => conf.custom)
         /\ ("default" \in p.f => ~conf.custom)
         /\ ("nodis" \in p.f => ~conf.dis)

-----------------------------------------------------------------------------
Init == /\ lines = <<<<>>>>
        /\ conf \in [dis : BOOLEAN, ign : {"none", "exact", "star"}, custom : BOOLEAN]
        /\ phase = "write" /\ cur = 1 /\ gp = FALSE /\ rp = FALSE /\ out = <<>> /\ eat = FALSE

Last(s) == s[Len(s)]
Line == Last(lines)
\* an item of a line: a piece and the separator before it
Adjacent(p, q) == \/ "closed" \in p.f /\ "word" \in q.f
                  \/ "word" \in p.f /\ "closed" \in q.f /\ "dot" \notin q.f /\ "code" \in q.f
                  \/ "closed" \in p.f /\ "closed" \in q.f /\ "dot" \notin q.f
\* an expression that is not ended takes the semicolon which follows it
Open(p) == "code" \in p.f /\ "closed" \notin p.f
Write == /\ phase = "write" /\ Len(Line) < MaxPieces
         /\ Line # <<>> => "eol" \notin Last(Line).p.f
         /\ \E p \in Some(Pieces) :
              /\ Ok(p)
              /\ ("alone" \in p.f => Line = <<>>) /\ (Line # <<>> => "alone" \notin Last(Line).p.f)
              \* a content that starts with #! may be a script
              /\ ~(Len(lines) = 1 /\ Line = <<>> /\ "^B" \in {p.n[i] : i \in 1..Len(p.n)})
              \* a bracket cannot be joined to an expression
              /\ ~(Line # <<>> /\ Last(Line).p.t = "{" /\ p.d # <<>> /\ p.d[1] = "^B")
              /\ \E s \in IF Line = <<>> THEN {""} ELSE Some(Separators \cup (IF Adjacent(Last(Line).p, p) THEN {""} ELSE {})) :
                    /\ ~(Line # <<>> /\ Open(Last(Line).p) /\ p.t = ";" /\ s \in Blanks)
                    /\ lines' = [lines EXCEPT ![Len(lines)] = Append(@, [s |-> s, p |-> p])]
         /\ UNCHANGED <<conf, phase, cur, gp, rp, out, eat>>
Break == /\ phase = "write" /\ Len(lines) < MaxLines
         /\ Sim /\ Len(Line) < MaxPieces => RandomElement(1..4) = 1
         /\ lines' = Append(lines, <<>>)
         /\ UNCHANGED <<conf, phase, cur, gp, rp, out, eat>>
\* the random choices may all be refused
Skip == phase = "write" /\ Sim /\ UNCHANGED vars
Has(f) == \E i \in 1..Len(lines) : \E j \in 1..Len(lines[i]) : f \in lines[i][j].p.f
LineHas(l, f) == \E j \in 1..Len(l) : f \in l[j].p.f
\* the escaped left delimiter is an unclosed action when razor is off and go template is on
StartOk == Has("rz") => ~Has("nr") /\ ~Has("pr")
Start == /\ phase = "write" /\ Len(lines) >= 1 /\ (Len(lines) > 1 \/ Line # <<>>)
         \* the random texts are rather long
         /\ Sim /\ Len(lines) < MaxLines => RandomElement(1..4) = 1
         /\ StartOk
         /\ phase' = "render"
         /\ UNCHANGED <<lines, conf, cur, gp, rp, out, eat>>

Ignored(p) == \/ conf.ign = "exact" /\ "ign1" \in p.f
              \/ conf.ign = "star" /\ ({"ign1", "ign2"} \cap p.f) # {}
\* the mode of a line from the markers
Mode(g, r) == IF Has("ng") \/ g THEN "verbatim"
              ELSE IF r \/ Has("nr") THEN IF conf.dis THEN "verbatim" ELSE "go"
              ELSE IF conf.dis THEN "convert" ELSE "all"
Rendering(p, m) == IF m = "verbatim" \/ Ignored(p) THEN <<p.t>>
                   ELSE CASE m = "go" -> p.x [] m = "convert" -> p.d [] OTHER -> p.n

RECURSIVE TrimEnd(_, _)
TrimEnd(o, S) == IF o # <<>> /\ Last(o) \in S THEN TrimEnd(SubSeq(o, 1, Len(o) - 1), S) ELSE o
\* state [o, e] of the output after the tokens
RECURSIVE Put(_, _)
Put(st, ts) ==
  IF ts = <<>> THEN st
  ELSE LET t == ts[1] IN
       Put(CASE t = "^B" -> [o |-> TrimEnd(st.o, Blanks), e |-> FALSE]
               [] t = "^W" -> [o |-> TrimEnd(st.o, White), e |-> FALSE]
               [] t = "^E" -> [o |-> st.o, e |-> TRUE]
               [] t \in White /\ st.e -> st
               [] OTHER -> [o |-> Append(st.o, t), e |-> FALSE], Tail(ts))
\* the separators as tokens
Sep(s) == CASE s = "" -> <<>> [] s = ", " -> <<",", " ">> [] s = " - " -> <<" ", "-", " ">> [] s = " (" -> <<" ", "(">> [] OTHER -> <<s>>
\* the new line of "@<" is the value of an expression: the next ones do not trim it
Value(ts) == [i \in 1..Len(ts) |-> IF ts[i] = NL THEN "\n" \o "^V" ELSE ts[i]]
RECURSIVE LineTokens(_, _, _)
LineTokens(l, j, m) == IF j > Len(l) THEN <<>> ELSE Sep(l[j].s) \o Value(Rendering(l[j].p, m)) \o LineTokens(l, j + 1, m)

Render == /\ phase = "render" /\ cur <= Len(lines)
          /\ LET l == lines[cur]
                 g == (gp \/ LineHas(l, "pg")) /\ ~LineHas(l, "rg")
                 r == (rp \/ LineHas(l, "pr")) /\ ~LineHas(l, "rr")
                 st == Put([o |-> out, e |-> eat], (IF cur > 1 THEN <<NL>> ELSE <<>>) \o LineTokens(l, 1, Mode(g, r)))
             IN gp' = g /\ rp' = r /\ out' = st.o /\ eat' = st.e
          /\ cur' = cur + 1
          /\ UNCHANGED <<lines, conf, phase>>
Finish == /\ phase = "render" /\ cur > Len(lines) /\ phase' = "done"
          /\ UNCHANGED <<lines, conf, cur, gp, rp, out, eat>>
Next == Write \/ Break \/ Skip \/ Start \/ Render \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE (IF s[1] \in Commands THEN "" ELSE IF s[1] = "\n^V" THEN NL ELSE s[1]) \o Cat(Tail(s))
RECURSIVE LineText(_, _)
LineText(l, j) == IF j > Len(l) THEN "" ELSE l[j].s \o l[j].p.t \o LineText(l, j + 1)
RECURSIVE Text(_)
Text(i) == IF i > Len(lines) THEN "" ELSE (IF i > 1 THEN NL ELSE "") \o LineText(lines[i], 1) \o Text(i + 1)
AllPieces == UNION {{lines[i][j].p : j \in 1..Len(lines[i])} : i \in 1..Len(lines)}
Laws ==
  phase = "done" =>
    /\ (Has("ng") \/ ~Has("code")) => Cat(out) = Text(1)
    /\ (Has("nr") /\ \A p \in AllPieces : p.x = <<p.t>>) => Cat(out) = Text(1)
    \* without an expression that removes white space, each line has its place
    /\ (\A p \in AllPieces : {p.n[i] : i \in 1..Len(p.n)} \cap {"^W", "^B", "^E", NL} = {} /\ "eol" \notin p.f)
          => Cardinality({i \in 1..Len(out) : out[i] = NL}) = Len(lines) - 1
EmitDone == (Emit /\ phase = "done") =>
   PrintT(<<"@@", ToJson([src |-> Text(1), res |-> Cat(out), conf |-> conf, code |-> Has("code"), n |-> Len(lines)])>>)
=============================================================================
