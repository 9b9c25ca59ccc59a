-------------------------------- MODULE Subst -------------------------------
(***************************************************************************)
(* The substitutions: a text (sequence of characters, NL for a new line,   *)
(* OP and CL for the delimiters of an expression that gives its literal    *)
(* content) goes through every configured substitution in order, is        *)
(* evaluated when it contains code, and goes again through every           *)
(* substitution. A text may begin with the marker PA: the occurrences of   *)
(* the razor delimiter that follow are then plain characters, which the    *)
(* substitutions see as such.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxText,   \* length of the source
          MaxSubs,   \* number of substitutions
          Sim, Emit

VARIABLES text, subs, pos, phase, src
vars == <<text, subs, pos, phase, src>>

NL == "\n"
SP == " "
OP == "{"
CL == "}"
PA == "p"
Chars == {"a", "b", "c"}

Some(T) == IF Sim THEN {RandomElement(T)} ELSE T

-----------------------------------------------------------------------------
(* Substitutions: kind k, pattern p (sequence of characters), replacement r *)
Kinds == {"lit", "plus", "alt", "tstart", "lstart", "tins", "lins", "eins", "star", "del", "delEol", "delLine", "swap", "emptyLines"}
Subs_ ==
  {[k |-> "lit", p |-> p, r |-> r] : p \in {<<"a">>, <<"a", "b">>, <<"b">>, <<"c", NL>>}, r \in {<<"b">>, <<"c", "a">>, <<>>, <<"b", NL, "c">>}}
  \cup {[k |-> "plus", p |-> <<x>>, r |-> r] : x \in {"a", "b"}, r \in {<<"c">>, <<"a">>, <<>>}}
  \cup {[k |-> "alt", p |-> <<"a", "b">>, r |-> <<"c">>]}
  \cup {[k |-> kk, p |-> <<x>>, r |-> <<y>>] : kk \in {"tstart", "lstart"}, x \in {"a", "b"}, y \in {"c", "b"}}
  \cup {[k |-> kk, p |-> p, r |-> <<>>] : kk \in {"del", "delEol", "delLine"}, p \in {<<"a">>, <<"b">>, <<"a", "b">>}}
  \cup {[k |-> kk, p |-> <<>>, r |-> <<y>>] : kk \in {"tins", "lins", "eins"}, y \in {"c", "b"}}
  \cup {[k |-> "star", p |-> <<x>>, r |-> r] : x \in {"a", "b"}, r \in {<<"c">>, <<>>}}
  \cup {[k |-> "swap", p |-> <<"a", "b">>, r |-> <<"b", "a">>]}
  \cup {[k |-> "emptyLines", p |-> <<>>, r |-> <<>>]}

At(t, i, p) == i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
LineStart(t, i) == i = 1 \/ t[i - 1] = NL
RECURSIVE RunLen(_, _, _)
RunLen(t, i, c) == IF i > Len(t) \/ t[i] # c THEN 0 ELSE 1 + RunLen(t, i + 1, c)
\* end of the white space starting at i (position after it)
RECURSIVE SkipWhite(_, _)
SkipWhite(t, i) == IF i <= Len(t) /\ t[i] \in {SP, NL} THEN SkipWhite(t, i + 1) ELSE i
\* last new line in i..j-1, or 0
LastNL(t, i, j) == LET S == {x \in i..(j - 1) : t[x] = NL} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

\* Length of the match of substitution s at position i (leftmost match, as long as possible); 0: no match
MatchLen(s, t, i) ==
  CASE s.k \in {"lit", "swap", "del"} -> IF At(t, i, s.p) THEN Len(s.p) ELSE 0
    [] s.k = "plus" -> RunLen(t, i, s.p[1])
    [] s.k = "alt" -> IF t[i] \in {"a", "b"} THEN 1 ELSE 0
    [] s.k = "tstart" -> IF i = 1 /\ At(t, i, s.p) THEN Len(s.p) ELSE 0
    [] s.k = "lstart" -> IF LineStart(t, i) /\ At(t, i, s.p) THEN Len(s.p) ELSE 0
    [] s.k = "delEol" -> IF At(t, i, Append(s.p, NL)) THEN Len(s.p) + 1 ELSE 0
    [] s.k = "delLine" -> IF LineStart(t, i) /\ At(t, i, Append(s.p, NL)) THEN Len(s.p) + 1 ELSE 0
    [] s.k = "emptyLines" -> IF LineStart(t, i) /\ t[i] \in {SP, NL}
                             THEN LET e == LastNL(t, i, SkipWhite(t, i)) IN IF e = 0 THEN 0 ELSE e - i + 1
                             ELSE 0
Out(s, m) == IF s.k \in {"lit", "plus", "alt", "tstart", "lstart", "swap"} THEN s.r ELSE <<>>

RECURSIVE Rewrite(_, _, _, _)
Rewrite(s, t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET m == MatchLen(s, t, i) IN
       IF m = 0 THEN Rewrite(s, t, i + 1, Append(acc, t[i]))
       ELSE Rewrite(s, t, i + m, acc \o Out(s, m))
\* Expressions which match an empty text: the insertions (start of the text, of each line, end of the text)
RECURSIVE InsertLines(_, _, _, _)
InsertLines(r, t, i, acc) == IF i > Len(t) THEN acc
                             ELSE InsertLines(r, t, i + 1, IF t[i] = NL THEN Append(acc, t[i]) \o r ELSE Append(acc, t[i]))
\* x*: the runs of x and the empty texts that do not follow a run (after: the preceding match ends at i)
RECURSIVE Star(_, _, _, _, _)
Star(s, t, i, acc, after) ==
  IF i > Len(t) THEN IF after THEN acc ELSE acc \o s.r
  ELSE LET m == RunLen(t, i, s.p[1]) IN
       IF m > 0 THEN Star(s, t, i + m, acc \o s.r, TRUE)
       ELSE Star(s, t, i + 1, Append(IF after THEN acc ELSE acc \o s.r, t[i]), FALSE)
Apply(s, t) == CASE s.k = "tins" -> s.r \o t
                 [] s.k = "eins" -> t \o s.r
                 [] s.k = "lins" -> InsertLines(s.r, t, 1, s.r)
                 [] s.k = "star" -> Star(s, t, 1, <<>>, FALSE)
                 [] OTHER -> Rewrite(s, t, 1, <<>>)

\* Code: the delimiters are balanced and contain no new line
RECURSIVE CodeOk(_, _, _)
CodeOk(t, i, in) ==
  IF i > Len(t) THEN ~in
  ELSE IF t[i] = OP THEN ~in /\ CodeOk(t, i + 1, TRUE)
  ELSE IF t[i] = CL THEN in /\ CodeOk(t, i + 1, FALSE)
  ELSE IF t[i] = NL THEN ~in /\ CodeOk(t, i + 1, FALSE)
  ELSE CodeOk(t, i + 1, in)
HasCode(t) == \E i \in 1..Len(t) : t[i] = OP
Eval(t) == SelectSeq(t, LAMBDA c : c \notin {OP, CL})

-----------------------------------------------------------------------------
\* The pieces of a source: plain characters, blanks, new lines and expressions
Pieces == {<<"a">>, <<"b">>, <<"c">>, <<SP>>, <<NL>>, <<"a", "b">>, <<NL, NL>>, <<OP, "a", CL>>, <<OP, "b", "a", CL>>, <<OP, CL>>}

Init == /\ text = <<>> /\ subs = <<>> /\ pos = 0 /\ phase = "write" /\ src = <<>>

Mark == /\ phase = "write" /\ text = <<>>
        /\ text' = <<PA>>
        /\ UNCHANGED <<subs, pos, phase, src>>
Write == /\ phase = "write" /\ Len(text) < MaxText
         /\ \E p \in Some(Pieces) : text' = text \o p
         /\ UNCHANGED <<subs, pos, phase, src>>
Config == /\ phase \in {"write", "config"} /\ Len(subs) < MaxSubs
          /\ \E s \in Some(Subs_) : subs' = Append(subs, s)
          /\ phase' = "config"
          /\ UNCHANGED <<text, pos, src>>
Start == /\ phase \in {"write", "config"}
         /\ text # <<>>
         /\ src' = text /\ phase' = "source" /\ pos' = 1
         /\ UNCHANGED <<text, subs>>
Substitute == /\ phase \in {"source", "result"} /\ pos <= Len(subs)
              /\ ~(subs[pos].k = "star" /\ (HasCode(text) \/ src[1] = PA))     \* it would insert text within the delimiters and the marker
              /\ text' = Apply(subs[pos], text)
              /\ pos' = pos + 1
              /\ UNCHANGED <<subs, phase, src>>
Evaluate == /\ phase = "source" /\ pos > Len(subs)
            /\ IF HasCode(text)
               THEN /\ CodeOk(text, 1, FALSE)      \* otherwise: an error, see the Errors module
                    /\ text' = Eval(text) /\ phase' = "result" /\ pos' = 1
               ELSE text' = text /\ phase' = "done" /\ pos' = pos
            /\ UNCHANGED <<subs, src>>
Finish == /\ phase = "result" /\ pos > Len(subs)
          /\ phase' = "done"
          /\ UNCHANGED <<text, subs, pos, src>>
Next == Mark \/ Write \/ Config \/ Start \/ Substitute \/ Evaluate \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a blank line which is terminated
BlankLine(t) == \E i, j \in 1..Len(t) : i <= j /\ LineStart(t, i) /\ t[j] = NL /\ \A x \in i..(j - 1) : t[x] = SP
RECURSIVE NonBlank(_)
NonBlank(t) == SelectSeq(t, LAMBDA c : c \notin {SP, NL})
Laws ==
  /\ (phase = "done" /\ subs = <<>>) => text = Eval(src)
  /\ (src # <<>> /\ src[1] = PA) => \E i \in 1..Len(text) : text[i] = PA
  /\ (phase = "done" /\ subs # <<>> /\ subs[Len(subs)].k = "emptyLines") => ~BlankLine(text)
  /\ (phase = "done" /\ Len(subs) = 1 /\ subs[1].k = "emptyLines") => NonBlank(text) = NonBlank(Eval(src))
  /\ (phase = "done" /\ subs # <<>> /\ subs[Len(subs)].k = "lit" /\ Len(subs[Len(subs)].p) = 1
      /\ subs[Len(subs)].p[1] \notin {subs[Len(subs)].r[i] : i \in 1..Len(subs[Len(subs)].r)})
       => \A i \in 1..Len(text) : text[i] # subs[Len(subs)].p[1]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))
EmitDone == (Emit /\ phase = "done") =>
   PrintT(<<"@@", ToJson([paused |-> src[1] = PA, src |-> Cat(src), res |-> Cat(text), code |-> HasCode(src),
                          subs |-> [i \in 1..Len(subs) |-> [k |-> subs[i].k, p |-> Cat(subs[i].p), r |-> Cat(subs[i].r)]]])>>)
=============================================================================
