------------------------------- MODULE Lines -------------------------------
(* Reading of data files by lines: words of a line, which are separated by   *)
(* blanks or by one character, comments, blank lines, line numbers and       *)
(* errors that tell the line.                                                *)
EXTENDS Common
CONSTANTS Weights
VARIABLES rest,    \* lines to be read
          line,    \* the latest line
          good,    \* there was such line
          no,      \* number of lines that were read
          sep, mark,
          words    \* words of the latest line as it was separated when read
vars == <<rest, line, good, no, sep, mark, words>>
View == vars
Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)

Ch(s, i) == SubSeq(s, i, i)
Tail1(s) == SubSeq(s, 2, Len(s))
Blank == {" ", "\t"}
\* words between blanks
RECURSIVE Split(_, _)
Split(s, w) == IF s = "" THEN IF w = "" THEN <<>> ELSE <<w>>
               ELSE IF Ch(s, 1) \in Blank THEN (IF w = "" THEN <<>> ELSE <<w>>) \o Split(Tail1(s), "")
               ELSE Split(Tail1(s), w \o Ch(s, 1))
\* words between separators, some may be empty, but not after the last separator
RECURSIVE Fields(_, _, _)
Fields(s, c, w) == IF s = "" THEN IF w = "" THEN <<>> ELSE <<w>>
                   ELSE IF Ch(s, 1) = c THEN <<w>> \o Fields(Tail1(s), c, "")
                   ELSE Fields(Tail1(s), c, w \o Ch(s, 1))
WordsOf(s, c) == IF c = "" THEN Split(s, "") ELSE Fields(s, c, "")
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
IsComment(ws, m) == m # "" /\ ws # <<>> /\ StartsWith(ws[1], m)

\* the line and its words are not specified after the end
Seen(e) == IF ~good' THEN e @@ [refused |-> FALSE, no |-> no'] ELSE e @@ [refused |-> FALSE, line |-> line', words |-> words', count |-> Len(words'), blank |-> words' = <<>>,
                 comment |-> IsComment(words', mark'), ignored |-> words' = <<>> \/ IsComment(words', mark'), no |-> no']

RECURSIVE RandText(_, _)
RandText(n, C) == IF n = 0 THEN "" ELSE RandomElement(C) \o RandText(n - 1, C)
RandLine(u) == LET k == RandomElement(1..4) IN
    IF k = 1 THEN RandomElement({"", " ", "#", "# a b", "  # a", "a#", ";;a b", ";a", ",", "a,", "a,,b", "\t", "ab  c\t d "})
    ELSE RandText(RandomElement(0..9), {"a", "b", "7", " ", " ", "\t", ",", "#", ";"})
RECURSIVE RandLines(_)
RandLines(n) == IF n = 0 THEN <<>> ELSE <<RandLine(n)>> \o RandLines(n - 1)
\* the end of line is optional at the end of file
DoOpen == \E n \in Pick(0..6), closed \in Pick(BOOLEAN) : \E ls \in {RandLines(n)} :
    /\ rest' = IF ~closed /\ n > 0 /\ ls[n] = "" THEN SubSeq(ls, 1, n - 1) ELSE ls
    /\ UNCHANGED <<line, good, no, sep, mark, words>>
    /\ Log("open", <<ls, closed>>, Seen(EmptyFn))
DoRead ==
    /\ good' = (rest # <<>>)
    /\ line' = IF rest = <<>> THEN "" ELSE Head(rest)
    /\ rest' = IF rest = <<>> THEN <<>> ELSE Tail(rest)
    /\ no' = IF rest = <<>> THEN no ELSE no + 1
    /\ words' = IF rest = <<>> THEN <<>> ELSE WordsOf(Head(rest), sep)
    /\ UNCHANGED <<sep, mark>>
    /\ Log("read", <<>>, Seen([good |-> good']))
DoSep == \E c \in Pick({"", ",", ";", " "}) :
    /\ sep' = c
    /\ UNCHANGED <<rest, line, good, no, mark, words>>
    /\ Log("separator", <<c>>, Seen(EmptyFn))
DoMark == \E m \in Pick({"", "#", ";", ";;", "a", "#a"}) :
    /\ mark' = m
    /\ UNCHANGED <<rest, line, good, no, sep, words>>
    /\ Log("mark", <<m>>, Seen(EmptyFn))
DoError == \E f \in Pick({"x.dat", "/a/y"}), d \in Pick({"", "detail"}) :
    /\ UNCHANGED vars
    /\ Log("error", <<f, d>>, Seen([names |-> <<TRUE, TRUE, TRUE>>]))
ActOf(g) == CASE g = "open" -> DoOpen
              [] g = "read" -> DoRead
              [] g = "separator" -> DoSep
              [] g = "mark" -> DoMark
              [] g = "error" -> DoError
Init == /\ rest = <<>> /\ line = "" /\ good = TRUE /\ no = 0 /\ sep = "" /\ mark = "#" /\ words = <<>>
        /\ hist = <<[op |-> "start", a |-> <<>>, e |-> NoObs]>>
Next == Unfinished /\ \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
\* lines are counted when they are read
Counts == no >= 0 /\ (words # <<>> => no > 0)
=============================================================================
