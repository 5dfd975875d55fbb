------------------------------ MODULE EnoText ------------------------------
(***************************************************************************)
(* Texts of the eno notation as the specification sees them.               *)
(*                                                                         *)
(* A text (a line, a key, a value ...) is a sequence of characters, a      *)
(* character is a string of length one.  Columns are 0-based and ranges    *)
(* half open, <<b, e>> covers the characters b .. e-1; lines are numbered  *)
(* from 1 (line 0 stands for the document itself).  An optional thing is   *)
(* the empty sequence or a sequence with one member.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* characters beyond printable ASCII are written as their code point in braces
Blanks == {" ", "\t", "{b}", "{c}", "{d}", "{1c}", "{1d}", "{1e}", "{1f}", "{85}", "{a0}",
           "{1680}", "{2000}", "{2001}", "{2002}", "{2003}", "{2004}", "{2005}", "{2006}", "{2007}", "{2008}",
           "{2009}", "{200a}", "{2028}", "{2029}", "{202f}", "{205f}", "{3000}"}
IsWs(c) == c \in Blanks

RECURSIVE SkipWs(_, _)
SkipWs(l, c) == IF c < Len(l) /\ IsWs(l[c + 1]) THEN SkipWs(l, c + 1) ELSE c

RECURSIVE BackWs(_, _, _)
BackWs(l, b, e) == IF e > b /\ IsWs(l[e]) THEN BackWs(l, b, e - 1) ELSE e

RECURSIVE SkipChar(_, _, _)
SkipChar(l, c, ch) == IF c < Len(l) /\ l[c + 1] = ch THEN SkipChar(l, c + 1, ch) ELSE c

\* The first column at or after c that holds one of the characters, or Len(l)
RECURSIVE Find(_, _, _)
Find(l, c, chars) == IF c >= Len(l) \/ l[c + 1] \in chars THEN c ELSE Find(l, c + 1, chars)

Cut(l, r) == SubSeq(l, r[1] + 1, r[2])

\* The range of what is left of the columns b .. e-1 without whitespace around
Trim(l, b, e) == LET from == SkipWs(l, b) IN IF from >= e THEN <<e, e>> ELSE <<from, BackWs(l, from, e)>>

IsBlankFrom(l, c) == SkipWs(l, c) = Len(l)

RECURSIVE Concat(_)
Concat(seqs) == IF seqs = <<>> THEN <<>> ELSE Head(seqs) \o Concat(Tail(seqs))

RECURSIVE Str(_)
Str(chars) == IF chars = <<>> THEN "" ELSE Head(chars) \o Str(Tail(chars))

RECURSIVE JoinLines(_)
JoinLines(ls) == IF Len(ls) = 0 THEN <<>>
                 ELSE IF Len(ls) = 1 THEN ls[1]
                 ELSE ls[1] \o <<"\n">> \o JoinLines(Tail(ls))

Spaces(n) == [i \in 1 .. n |-> " "]

\* The members of a sequence that satisfy a predicate given as a set
Among(s, set) == SelectSeq(s, LAMBDA x : x \in set)
UpTo(n) == [i \in 1 .. n |-> i]
Range(s) == {s[i] : i \in DOMAIN s}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Last(s) == s[Len(s)]

\* Digits of a natural number, as a string
Digit(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
RECURSIVE Num(_)
Num(n) == IF n < 10 THEN Digit(n) ELSE Num(n \div 10) \o Digit(n % 10)
=============================================================================
