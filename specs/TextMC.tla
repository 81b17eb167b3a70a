------------------------------- MODULE TextMC -------------------------------
(***************************************************************************)
(* Source text.  Every line over a few characters (one of them two bytes   *)
(* long), behind each word that reads source text.  The reference works on *)
(* characters, not bytes, and says by search which text is meant.          *)
(***************************************************************************)
EXTENDS Host
CONSTANTS MAXLEN,    \* characters behind a command
          MAXNONE    \* characters of a line without one
VARIABLES CMD,       \* "none" or the word under test
          LCH,       \* the characters of the line behind the command
          TXM
\* characters: a, e (e acute), s blank, t tab, c carriage return, n newline, d the delimiter
Delim == CASE CMD \in {"paren", "dotparen"} -> 41 [] CMD \in {"squote", "dotquote"} -> 34 [] CMD \in {"parse41", "word41"} -> 41
           [] CMD = "parse228" -> 233 [] CMD = "word97" -> 97 [] CMD = "word233" -> 233 [] CMD = "back" -> 10 [] OTHER -> 32
Cmds == {"none", "paren", "dotparen", "back", "squote", "dotquote", "parse41", "parse228", "word41", "word97", "word233",
          "word32", "char", "[char]"}
Enc == [c \in {"a", "e", "s", "t", "c", "n", "d"} |->
  CASE c = "a" -> <<97>> [] c = "e" -> <<195, 169>> [] c = "s" -> <<32>> [] c = "t" -> <<9>> [] c = "c" -> <<13>>
    [] c = "n" -> <<10>> [] OTHER -> Enc256(Delim)]
Alpha == CASE CMD = "none" -> {"a", "e", "s", "t", "c", "n"}
           [] CMD \in {"word97", "word233", "word32", "char", "[char]"} -> {"a", "e", "s", "t"}
           [] CMD = "parse228" -> {"a", "e", "s"}
           [] OTHER -> {"a", "e", "s", "d"}
IsDelim(c) == Enc[c] = Enc256(Delim)
Blank(c) == c \in {"s", "t", "c", "n"} \/ (c = "d" /\ Delim \in {9, 10, 13, 32})
RECURSIVE Bytes_(_, _)
Bytes_(s, i) == IF i > Len(s) THEN <<>> ELSE Enc[s[i]] \o Bytes_(s, i + 1)
B_(s) == Bytes_(s, 1)

\* every string of a and e up to length 2 is a word that prints itself and a bar
Names == {<<"a">>, <<"e">>, <<"a", "a">>, <<"a", "e">>, <<"e", "a">>, <<"e", "e">>}
DefName(n) == S2B(": ") \o B_(n) \o S2B(" .\" ") \o B_(n) \o S2B("|\" ;")
RECURSIVE DefAll(_, _)
DefAll(v, s) == IF s = {} THEN v ELSE LET n == CHOOSE x \in s : TRUE IN DefAll(Feed(v, DefName(n)), s \ {n})
Base == Feed(DefAll(Boot, Names), S2B(": done 122 emit ;"))

\* the maximal runs of non-blank characters of s
Starts(s) == {i \in 1..Len(s) : ~Blank(s[i]) /\ (i = 1 \/ Blank(s[i - 1]))}
EndOf(s, i) == CHOOSE j \in i..Len(s) : (\A k \in i..j : ~Blank(s[k])) /\ (j = Len(s) \/ Blank(s[j + 1]))
RECURSIVE Runs_(_, _)
Runs_(s, i) == IF i > Len(s) THEN <<>> ELSE IF i \in Starts(s) THEN <<SubSeq(s, i, EndOf(s, i))>> \o Runs_(s, EndOf(s, i) + 1)
               ELSE Runs_(s, i + 1)
\* what the tokens print, and the exception, if one is no word
RECURSIVE Say(_, _, _)
Say(ts, i, out) == IF i > Len(ts) THEN <<out, 0>>
                   ELSE IF ts[i] \in Names THEN Say(ts, i + 1, out \o B_(ts[i]) \o <<124>>)
                   ELSE <<out, E_UNDEF>>
SayLine(s) == Say(Runs_(s, 1), 1, <<>>)
\* the text up to the first delimiter from i on, and what is behind it
HasD(s, i) == \E j \in i..Len(s) : IsDelim(s[j])
FirstD(s, i) == CHOOSE j \in i..Len(s) : IsDelim(s[j]) /\ \A k \in i..(j - 1) : ~IsDelim(s[k])
Before(s, i) == IF HasD(s, i) THEN SubSeq(s, i, FirstD(s, i) - 1) ELSE SubSeq(s, i, Len(s))
After(s, i) == IF HasD(s, i) THEN SubSeq(s, FirstD(s, i) + 1, Len(s)) ELSE <<>>
\* the first character that is no delimiter, from i on
RECURSIVE NoD(_, _)
NoD(s, i) == IF i <= Len(s) /\ IsDelim(s[i]) THEN NoD(s, i + 1) ELSE i

\* the lines, and what they print, the exception, and the stack left
Code1(c) == CASE c = "a" -> 97 [] c = "e" -> 233 [] OTHER -> Delim
One_ == CASE CMD = "none" -> B_(LCH)
          [] CMD \in {"paren", "dotparen", "back"} -> S2B((CASE CMD = "paren" -> "(" [] CMD = "dotparen" -> ".(" [] OTHER -> "\\") \o " ") \o B_(LCH)
          [] CMD \in {"squote", "dotquote"} -> S2B(IF CMD = "squote" THEN ": u s\" " ELSE ": u .\" ") \o B_(LCH)
          [] CMD \in {"parse41", "parse228"} -> S2B(ToString(Delim) \o " pt ") \o B_(LCH)
          [] CMD \in {"word41", "word97", "word233", "word32"} -> S2B(ToString(Delim) \o " word ") \o B_(LCH)
          [] CMD = "char" -> S2B("char ") \o B_(LCH)
          [] OTHER -> S2B(": u [char] ") \o B_(LCH)
Two_ == CASE CMD \in {"squote", "dotquote"} -> S2B("done ; u")
          [] CMD \in {"word41", "word97", "word233", "word32"} -> S2B("count type")
          [] CMD = "[char]" -> S2B("done ; u")
          [] OTHER -> S2B("done")
Three_ == IF CMD = "squote" THEN S2B("type") ELSE <<>>
\* the character sequence at which the command starts to read: the blank behind
\* the command's name comes first
R_ == <<"s">> \o LCH
\* expected: outputs of the lines, the exception of the first, the stack after the lines
Expect ==
  LET say(s) == SayLine(s)
      z == <<122>>
  IN CASE CMD = "none" -> LET r == say(LCH) IN [o1 |-> r[1], e |-> r[2], o2 |-> z, ds |-> <<>>]
       [] CMD \in {"paren", "back"} -> LET r == say(After(R_, 1)) IN [o1 |-> r[1], e |-> r[2], o2 |-> z, ds |-> <<>>]
       [] CMD = "dotparen" -> LET r == say(After(R_, 1)) IN [o1 |-> B_(Before(R_, 1)) \o r[1], e |-> r[2], o2 |-> z, ds |-> <<>>]
       [] CMD = "squote" -> \* compiled: the words behind it run, then the text is typed
            LET r == say(After(LCH, 1))
            IN [o1 |-> <<>>, e |-> r[2], o2 |-> r[1] \o z, ds |-> <<>>, o3 |-> B_(Before(LCH, 1))]
       [] CMD = "dotquote" -> LET r == say(After(LCH, 1))
            IN [o1 |-> <<>>, e |-> r[2], o2 |-> B_(Before(LCH, 1)) \o r[1] \o z, ds |-> <<>>]
       [] CMD \in {"parse41", "parse228"} ->
            LET r == say(After(R_, 1))
            IN [o1 |-> B_(Before(R_, 1)) \o <<33>> \o r[1], e |-> r[2], o2 |-> z, ds |-> <<>>]
       [] CMD \in {"word41", "word97", "word233", "word32"} ->
            LET p == NoD(R_, 1)
                r == say(After(R_, p))
            IN [o1 |-> r[1], e |-> r[2], o2 |-> B_(Before(R_, p)), ds |-> <<>>]
       [] OTHER -> \* char, [char]: the first character of the next token
            LET ts == Runs_(LCH, 1)
            IN IF ts = <<>> THEN [o1 |-> <<>>, e |-> E_EOF, o2 |-> <<>>, ds |-> <<>>]
               ELSE LET r == Say(SubSeq(ts, 2, Len(ts)), 1, <<>>)
                    IN IF CMD = "char" THEN [o1 |-> r[1], e |-> r[2], o2 |-> z, ds |-> <<FromInt(Code1(ts[1][1]))>>]
                       ELSE [o1 |-> <<>>, e |-> r[2], o2 |-> r[1] \o z, ds |-> <<FromInt(Code1(ts[1][1]))>>]

Init == CMD = "" /\ LCH = <<>> /\ TXM = Feed(Base, S2B(": pt parse .token 33 emit ;"))
Next == \/ CMD = "" /\ CMD' \in Cmds /\ UNCHANGED <<LCH, TXM>>
        \/ /\ CMD # "" /\ Len(LCH) < (IF CMD = "none" THEN MAXNONE ELSE MAXLEN)
           /\ (\E c \in Alpha : LCH' = Append(LCH, c)) /\ UNCHANGED <<CMD, TXM>>
View == <<CMD, LCH>>
Split ==
  CMD # "" =>
  LET x == Expect
      m1 == Feed(TXM, One_)
      m2 == Feed(m1, Two_)
      m3 == Feed(m2, Three_)
  IN /\ m1.bad = ""
     /\ m1.err = x.e
     /\ m1.out = x.o1
     /\ x.e = 0 => /\ m3.err = 0 /\ m3.bad = ""
                   /\ m2.out = x.o2
                   /\ (CMD = "squote" => m3.out = x.o3)
                   /\ Entries(m3.ds) = x.ds
Emitted == CMD # "" => PrintT(<<"SCRIPT", CMD, One_>>)
=============================================================================
