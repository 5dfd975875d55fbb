------------------------------ MODULE EnoLookup ------------------------------
(***************************************************************************)
(* What is at a position of a document (property C19): the innermost thing *)
(* whose lines contain it, and the part of the line.                       *)
(***************************************************************************)
EXTENDS EnoReports

Things(D) == {j \in DOMAIN D.ins : D.ins[j].k \in ElementKinds \cup {"item", "entry"}}

\* The last line that is of thing e; a section reaches to the next heading that is not deeper
Extent(D, e) ==
  IF D.ins[e].k = "section"
  THEN LET next == {j \in DOMAIN D.ins : j > e /\ D.ins[j].k = "section" /\ D.ins[j].n <= D.ins[e].n}
       IN IF next = {} THEN Len(D.ln) ELSE Min(next) - 1
  ELSE LastLineOf(D, e)

ThingAt(D, line) ==
  LET around == {e \in Things(D) : e <= line /\ line <= Extent(D, e)}
  IN IF around = {} THEN 0 ELSE Max(around)

PartOfLine(D, line, column) ==
  IF D.ins[line].k = "blank" THEN ""
  ELSE IF D.ins[line].k = "comment" /\ ~(line \in Unattached(D.ins)) THEN ""
  ELSE PartAt(D.ins[line], column)

\* All positions of the document as <<line, column, thing, part>>, line and column 0-based
PositionsOf(D, line) ==
  LET thing == ThingAt(D, line)
  IN [c \in 1 .. (Len(D.ln[line]) + 1) |->
       [l |-> line - 1, c |-> c - 1, i |-> Offset(D, line) + c - 1, e |-> thing - 1,
        p |-> PartOfLine(D, line, c - 1)]]
Positions(D) == Concat([line \in DOMAIN D.ln |-> PositionsOf(D, line)])
=============================================================================
