------------------------------- MODULE MCLookup -------------------------------
(***************************************************************************)
(* All documents of up to Length lines from an alphabet of lines: looking  *)
(* up positions is total, innermost and in step with the lines (C19), and  *)
(* reports say the same in all locales but for the words (C20).            *)
(***************************************************************************)
EXTENDS EnoLookup, Alphabets

CONSTANTS Length, LineSet
VARIABLE a

Init == a = EmptyAnalysis
Next == Running(a) /\ Len(a.ln) < Length /\ \E l \in LineSet : a' = Step(a, l)

D == DocumentOf(Finish(a))
Length_ == Offset(D, Len(D.ln)) + Len(D.ln[Len(D.ln)])

\* Every position from the first to the one after the last character, once, in order
TotalInv ==
  Accepted(D) /\ D.ln # <<>> =>
    LET p == Positions(D) IN
    /\ Len(p) = Length_ + 1
    /\ \A i \in DOMAIN p : p[i].i = i - 1
\* Things contain each other or have nothing in common, so that there is an innermost one
NestedInv ==
  Accepted(D) => \A e, f \in Things(D) : e < f /\ f <= Extent(D, e) => Extent(D, f) <= Extent(D, e)
\* What is found is the thing that is written in the line, or something the line lies in
FoundInv ==
  Accepted(D) /\ D.ln # <<>> =>
    \A line \in DOMAIN D.ln :
      LET e == ThingAt(D, line) IN
      /\ line \in Things(D) => e = line
      /\ e # 0 => e <= line /\ \A f \in Things(D) : f <= line /\ line <= Extent(D, f) => f <= e
      /\ e # 0 /\ D.ins[e].k \in {"item", "entry"} => line <= Extent(D, D.ins[e].own)
\* There are parts only in lines that are something, and keys are where they are written
PartInv ==
  Accepted(D) /\ D.ln # <<>> =>
    \A line \in DOMAIN D.ln : \A c \in 0 .. Len(D.ln[line]) :
      LET part == PartOfLine(D, line, c) IN
      /\ D.ins[line].k = "blank" => part = ""
      /\ line \in Things(D) /\ D.ins[line].k # "item" => \E d \in 0 .. Len(D.ln[line]) : PartOfLine(D, line, d) = "key"
\* Locales differ in words only
LocaleInv ==
  LET shown(locale) == {<<x.sel, x.rows>> : x \in ParseReports(D, locale)}
  IN \A locale \in Locales : shown(locale) = shown("en") /\ \A x \in ParseReports(D, locale) : x.text # ""
=============================================================================
