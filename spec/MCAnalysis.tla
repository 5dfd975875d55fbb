------------------------------ MODULE MCAnalysis ------------------------------
(***************************************************************************)
(* All documents of up to Length lines from an alphabet of lines: the      *)
(* structure invariants hold in every state of the analyzer (C03 to C07).  *)
(* With the view only the state of the analyzer counts, not the document   *)
(* that led there: the documents printed cover all of its transitions.     *)
(***************************************************************************)
EXTENDS EnoReports, Alphabets, TLC, Json

CONSTANTS Length, LineSet
VARIABLE a

Init == a = EmptyAnalysis

\* One action per kind of line, so that TLC counts how often each was taken
Take(kinds, l) ==
  /\ Running(a) /\ Len(a.ln) < Length
  /\ a.ml = 0 /\ Lex(l).k \in kinds
  /\ a' = Step(a, l)
Blank == \E l \in LineSet : Take({"blank"}, l)
CommentLine == \E l \in LineSet : Take({"comment"}, l)
FieldLine == \E l \in LineSet : Take({"field"}, l)
CopyLine == \E l \in LineSet : Take({"copy"}, l)
ItemLine == \E l \in LineSet : Take({"item"}, l)
EntryLine == \E l \in LineSet : Take({"entry"}, l)
ContinuationLine == \E l \in LineSet : Take({"direct", "spaced"}, l)
SectionLine == \E l \in LineSet : Take({"section"}, l)
MultilineBegin == \E l \in LineSet : Take({"ml"}, l)
InvalidLine == \E l \in LineSet : Take({"invalid", "unterminated"}, l)
InMultiline == \E l \in LineSet : Running(a) /\ Len(a.ln) < Length /\ a.ml # 0 /\ ~Closes(l, a.ins[a.ml]) /\ a' = Step(a, l)
MultilineEnd == \E l \in LineSet : Running(a) /\ Len(a.ln) < Length /\ a.ml # 0 /\ Closes(l, a.ins[a.ml]) /\ a' = Step(a, l)
Next == Blank \/ CommentLine \/ FieldLine \/ CopyLine \/ ItemLine \/ EntryLine \/ ContinuationLine \/ SectionLine
        \/ MultilineBegin \/ InvalidLine \/ InMultiline \/ MultilineEnd

Inv == AnalysisInv(a)

(***************************************************************************)
(* What holds of the document once it has ended.                           *)
(***************************************************************************)
D == DocumentOf(Finish(a))

\* Every line is accounted for: it is in the tree, of something in the tree, a comment, blank or an error
AccountedInv ==
  LET I == a.ins IN
  \A j \in DOMAIN I :
    \/ I[j].k \in {"blank", "comment", "unparsed"} \/ I[j].k \in ElementKinds
    \/ I[j].own # 0 /\ I[j].own < j
\* Without copies everything that is written is in the tree exactly once, in the order of the lines
TreeInv ==
  LET d == D
      things == SelectSeq(UpTo(Len(d.ins)), LAMBDA j : d.ins[j].k \in ElementKinds \cup {"item", "entry"})
  IN Accepted(d) /\ Copies(d.ins) = {} => [i \in 2 .. Len(Tree(d)) |-> Tree(d)[i].src] = [i \in 2 .. (Len(things) + 1) |-> things[i - 1]]
\* Values: no value if and only if there is none on any line; texts of all lines in order, at most one space between
RECURSIVE Plain_(_)
Plain_(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = " " THEN Plain_(Tail(s)) ELSE <<Head(s)>> \o Plain_(Tail(s))
ValueInv ==
  LET d == D IN
  \A e \in DOMAIN d.ins :
    d.ins[e].k \in {"field", "item", "entry"} =>
      LET conts == Continuations(d.ins, e)
          texts == OwnText(d.ins[e]) \o Concat([i \in DOMAIN conts |-> OwnText(d.ins[conts[i]])])
          v == OwnValue(d, e)
      IN /\ (v = <<>>) = (texts = <<>>)
         /\ v # <<>> => Plain_(v[1]) = Plain_(Concat(texts)) /\ ~IsWs(v[1][1]) /\ ~IsWs(Last(v[1]))
                        /\ Len(v[1]) <= Len(Concat(texts)) + Len(texts) - 1
CommentInv ==
  LET d == D IN
  \A e \in DOMAIN d.ins :
    LET c == CommentText(d, d.ins[e].com)
    IN c # <<>> => /\ c[1][1] # "\n" /\ Last(c[1]) # "\n"   \* no empty lines around
                   /\ Plain_(c[1]) # <<>>
\* Reports are sound
ParseReportInv == \A r \in ParseReports(D, "en") : ReportInv(D, r)

(***************************************************************************)
(* The view and the documents that are printed.                            *)
(***************************************************************************)
View ==
  <<a.depth, a.elm # 0, IF a.elm = 0 THEN "" ELSE a.ins[a.elm].ty, IF a.elm = 0 THEN "" ELSE a.ins[a.elm].k,
    IF a.cont = 0 THEN "" ELSE a.ins[a.cont].k, a.cont # 0 /\ a.ins[a.cont].vr # <<>>,
    Min({Len(a.pend), 2}), IF a.ml = 0 THEN 0 ELSE a.ins[a.ml].n, a.ml # 0 /\ Last(a.ins).k = "mlval",
    IF a.ins = <<>> THEN "" ELSE Last(a.ins).k, a.err.kind>>
Emit == PrintT("LINES " \o ToJson(a'.ln))   \* an action constraint: printed for every transition
=============================================================================
