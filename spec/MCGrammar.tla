------------------------------ MODULE MCGrammar ------------------------------
(***************************************************************************)
(* All lines of up to Length characters, typed character by character:     *)
(* what the grammar promises about every line (property C02).              *)
(***************************************************************************)
EXTENDS EnoGrammar

CONSTANTS Length, Letters
VARIABLE l

Init == l = <<>>
Type(c) == Len(l) < Length /\ l' = Append(l, c)
Next == \E c \in Letters : Type(c)

Ranges(t) == {r \in {t.op, t.kr, t.eb, t.ee, t.vr, t.tr, t.co} : r # <<>>}
Valid(t) == ~(t.k \in {"invalid", "unterminated", "blank"})

\* Ranges are in the line, not empty, do not overlap and are without whitespace around
RangesInv ==
  LET t == Lex(l) IN
  /\ \A r \in Ranges(t) : 0 <= r[1] /\ r[1] < r[2] /\ r[2] <= Len(l) /\ ~IsWs(l[r[1] + 1]) /\ ~IsWs(l[r[2]])
  /\ \A r, s \in Ranges(t) : r = s \/ r[2] <= s[1] \/ s[2] <= r[1]
  /\ Cardinality(Ranges(t)) = Cardinality({i \in 1 .. 7 : <<t.op, t.kr, t.eb, t.ee, t.vr, t.tr, t.co>>[i] # <<>>})
\* Texts are exactly what the ranges say
TextsInv ==
  LET t == Lex(l) IN
  /\ t.key = (IF t.kr = <<>> THEN <<>> ELSE Cut(l, t.kr))
  /\ t.val = (IF t.vr = <<>> THEN <<>> ELSE Cut(l, t.vr))
  /\ t.tm = (IF t.tr = <<>> THEN <<>> ELSE Cut(l, t.tr))
\* Nothing but whitespace is left out
CompleteInv ==
  LET t == Lex(l) IN
  Valid(t) => \A c \in 1 .. Len(l) : IsWs(l[c]) \/ \E r \in Ranges(t) : r[1] < c /\ c <= r[2]
\* A line is blank if and only if there is nothing but whitespace
BlankInv == (Lex(l).k = "blank") = \A c \in 1 .. Len(l) : IsWs(l[c])
\* Whitespace around a line changes nothing but columns
Meaning(t) == <<t.k, t.n, t.key, t.val, t.tm, t.deep>>
Shift(r) == IF r = <<>> THEN <<>> ELSE <<r[1] + 1, r[2] + 1>>
SpacingInv ==
  LET t == Lex(l)
      i == Lex(<<" ">> \o l)
      f == Lex(Append(l, "\t"))
  IN /\ Meaning(i) = Meaning(t) /\ i.kr = Shift(t.kr) /\ i.vr = Shift(t.vr) /\ i.op = Shift(t.op) /\ i.tr = Shift(t.tr)
     \* (of the two ways to be rejected, an unterminated key needs something behind the backticks)
     /\ Valid(t) \/ t.k = "blank" => Meaning(f) = Meaning(t) /\ f.kr = t.kr /\ f.vr = t.vr /\ f.op = t.op
\* The first character that is not whitespace decides about the kind
FirstInv ==
  LET t == Lex(l)
      c == SkipWs(l, 0)
      starts(k) == CASE k = "comment" -> {">"} [] k = "item" -> {"-"} [] k = "ml" -> {"-"} [] k = "section" -> {"#"}
                     [] k = "direct" -> {"|"} [] k = "spaced" -> {"\\"} [] k = "unterminated" -> {"`", "#"}
                     [] OTHER -> Letters \ {">", "#", "|", "\\"}
  IN t.k \in {"blank", "invalid"} \/ l[c + 1] \in starts(t.k)
\* Only dashes and the same key close a multiline field
ClosesInv ==
  LET t == Lex(l) IN
  t.k = "ml" => /\ Closes(l, t) /\ Closes(<<"\t">> \o l, t) /\ Closes(Append(l, " "), t)
                /\ ~Closes(<<"-">> \o l, t) /\ ~Closes(Append(l, "x"), t) /\ ~Closes(<<>>, t)
=============================================================================
