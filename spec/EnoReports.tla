----------------------------- MODULE EnoReports -----------------------------
(***************************************************************************)
(* What errors report: their text, where they are (properties C04, C10,    *)
(* C16) and which lines their snippet shows with which marks (C17, C18).   *)
(*                                                                         *)
(* A report is [text, sel, rows].                                          *)
(*   sel   <<line, column, index, line, column, index>>, 0-based           *)
(*   rows  the lines of the snippet as [m: mark, n: number, c: content],   *)
(*         mark ">" for reported, "*" for indicated, "?" for questioned    *)
(*         lines, " " for context and "..." for an omission                *)
(***************************************************************************)
EXTENDS EnoDocument, EnoMessages

(***************************************************************************)
(* Positions.                                                              *)
(***************************************************************************)
RECURSIVE Offset(_, _)
Offset(D, line) == IF line = 1 THEN 0 ELSE Offset(D, line - 1) + Len(D.ln[line - 1]) + 1
Cursor(D, line, column) == <<line - 1, column, Offset(D, line) + column>>
Selection(D, l1, c1, l2, c2) == Cursor(D, l1, c1) \o Cursor(D, l2, c2)
EndOfLine(D, line) == Len(D.ln[line])
SelectLine(D, l) == Selection(D, l, 0, l, EndOfLine(D, l))
SelectRange(D, l, r) == Selection(D, l, r[1], l, r[2])

RECURSIVE LastLineOf(_, _)
LastLineOf(D, e) ==
  LET I == D.ins
      conts == Continuations(I, e)
      own == CASE I[e].k \in {"item", "entry"} -> conts
               [] D.res.ty[e] = "field" -> conts
               [] D.res.ty[e] = "list" -> Items(I, e)
               [] D.res.ty[e] = "fieldset" -> Entries(I, e)
               [] D.res.ty[e] = "section" -> Elements(I, e)
               [] OTHER -> <<>>
  IN IF I[e].k = "ml" THEN EndOf(I, e)
     ELSE IF own = <<>> THEN e
     ELSE IF I[Last(own)].k \in {"direct", "spaced"} THEN Last(own)
     ELSE LastLineOf(D, Last(own))
SelectElement(D, e) == LET l == LastLineOf(D, e) IN Selection(D, e, 0, l, EndOfLine(D, l))

(***************************************************************************)
(* Marks: a function from the lines of the document, "" for none.          *)
(***************************************************************************)
NoMarks(D) == [i \in 1 .. Len(D.ln) |-> ""]
Mark(marks, lines, m) == [i \in DOMAIN marks |-> IF i \in lines THEN m ELSE marks[i]]

\* The lines of an element below its opening line; those of the elements in a section are always indicated
RECURSIVE MarkInside(_, _, _, _)
RECURSIVE MarkElements(_, _, _, _, _)
\* marks so far, the next line to look at and the elements left
MarkElements(D, marks, scan, es, m) ==
  IF es = <<>> THEN [marks |-> marks, scan |-> scan]
  ELSE LET e == Head(es)
           inside == MarkInside(D, Mark(marks, scan .. e, "*"), e, m)
       IN MarkElements(D, inside.marks, inside.scan, Tail(es), m)
MarkInside(D, marks, e, m) ==
  IF D.ins[e].k = "section" THEN MarkElements(D, marks, e + 1, Elements(D.ins, e), m)
  ELSE LET last == IF D.ins[e].k = "ml" /\ EndOf(D.ins, e) = 0 THEN e ELSE LastLineOf(D, e)
       IN [marks |-> Mark(marks, (e + 1) .. last, m), scan |-> last + 1]

MarkElement(D, marks, e) == MarkInside(D, Mark(marks, {e}, ">"), e, "*").marks
RECURSIVE MarkAll(_, _, _)
MarkAll(D, marks, es) == IF es = <<>> THEN marks ELSE MarkAll(D, MarkElement(D, marks, Head(es)), Tail(es))

\* Something is missing in p: question its lines but leave out its subsections
MarkMissing(D, p) ==
  IF p = 0 THEN NoMarks(D)
  ELSE LET marks == Mark(NoMarks(D), {p}, "*")
           es == Elements(D.ins, p)
           subs == SelectSeq(UpTo(Len(es)), LAMBDA i : D.ins[es[i]].k = "section")
           before == IF subs = <<>> THEN es ELSE SubSeq(es, 1, subs[1] - 1)
           upper == MarkElements(D, marks, p + 1, before, "?")
       IN IF D.ins[p].k # "section" THEN MarkInside(D, marks, p, "?").marks
          ELSE IF subs = <<>> THEN upper.marks
          ELSE Mark(upper.marks, upper.scan .. (es[subs[1]] - 1), "*")

(***************************************************************************)
(* Two lines of context around the marked ones, one ellipsis for each run  *)
(* of lines left out; if nothing is marked the whole document is in        *)
(* question.                                                               *)
(***************************************************************************)
Content(D, l) == IF D.ins[l].k = "blank" THEN "" ELSE Str(D.ln[l])
SnippetRows(D, marks) ==
  LET n == Len(D.ln)
      marked == {l \in 1 .. n : marks[l] # ""}
      shown == {l \in 1 .. n : \E m \in marked : m - 2 <= l /\ l <= m + 2}
      all == IF marked = {} THEN 1 .. n ELSE shown
      row(l) == IF marked = {} THEN [m |-> "?", n |-> l, c |-> Content(D, l)]
                ELSE IF l \in shown THEN [m |-> IF l \in marked THEN marks[l] ELSE " ", n |-> l, c |-> Content(D, l)]
                ELSE [m |-> "...", n |-> 0, c |-> ""]
  IN [i \in DOMAIN SelectSeq(UpTo(n), LAMBDA l : l \in all \/ l = n \/ l + 1 \in all)
      |-> row(SelectSeq(UpTo(n), LAMBDA l : l \in all \/ l = n \/ l + 1 \in all)[i])]

Report(D, text, sel, marks) == [text |-> text, sel |-> sel, rows |-> SnippetRows(D, marks)]

(***************************************************************************)
(* Parse errors.                                                           *)
(***************************************************************************)
AnalysisReport(D, locale, err) ==
  LET l == err.line
      tok == D.ins[l]
      marks == Mark(Mark(NoMarks(D), {l}, ">"), {err.with} \ {0}, "*")
      below == Mark(marks, (l + 1) .. Len(D.ln), "*")
  IN CASE err.kind = "unterminated_multiline_field" ->
            Report(D, Message(locale, err.kind, Str(tok.key), Num(l)), SelectLine(D, l), below)
       [] err.kind = "unterminated_escaped_key" ->
            Report(D, Message(locale, err.kind, "", Num(l)), SelectRange(D, l, <<tok.sc, EndOfLine(D, l)>>), marks)
       [] OTHER ->
            Report(D, Message(locale, err.kind, "", Num(l)), SelectLine(D, l), marks)

CopyReport(D, locale, err) ==
  LET l == err.line
      tok == D.ins[l]
      marks == Mark(Mark(Mark(NoMarks(D), {l}, ">"), err.ind, "*"), err.quest, "?")
  IN Report(D, Message(locale, err.kind, Str(tok.tm), Num(l)),
            IF err.kind = "cyclic_dependency" THEN SelectRange(D, l, tok.tr) ELSE SelectLine(D, l),
            marks)

(***************************************************************************)
(* Validation errors. e is the line of an element, item or entry, 0 the    *)
(* document.                                                               *)
(***************************************************************************)
NamedMessage(locale, name, key) ==
  IF key = <<>> THEN Plain(locale, name) ELSE Message(locale, name \o "_with_key", Str(key[1]), "")

MissingElement(D, locale, name, key, p) ==
  Report(D, NamedMessage(locale, name, key),
         IF p = 0 THEN <<0, 0, 0, 0, 0, 0>> ELSE Selection(D, p, EndOfLine(D, p), p, EndOfLine(D, p)),
         MarkMissing(D, p))

UnexpectedMultiple(D, locale, name, key, es) ==
  Report(D, NamedMessage(locale, name, key), SelectElement(D, es[1]), MarkAll(D, NoMarks(D), es))

UnexpectedType(D, locale, name, key, e) ==
  Report(D, NamedMessage(locale, name, key), SelectElement(D, e), MarkElement(D, NoMarks(D), e))

\* What is about the document itself is located at its beginning
OfDocument(D, text) == Report(D, text, <<0, 0, 0, 0, 0, 0>>, NoMarks(D))

ElementError(D, message, e) ==
  IF e = 0 THEN OfDocument(D, message)
  ELSE Report(D, message, SelectElement(D, e), MarkElement(D, NoMarks(D), e))

UnexpectedElement(D, locale, message, e) ==
  ElementError(D, IF message = <<>> THEN Plain(locale, "unexpected_element") ELSE message[1], e)

KeyError(D, locale, message, e) ==
  LET text == Message(locale, "key_error", message, "")
      l == IF D.ins[e].k = "item" THEN D.ins[e].own ELSE e
  IN IF e = 0 THEN OfDocument(D, text)
     ELSE Report(D, text, SelectRange(D, l, D.ins[l].kr), Mark(NoMarks(D), {l}, ">"))

MissingComment(D, locale, e) ==
  IF e = 0 THEN OfDocument(D, Plain(locale, "missing_comment"))
  ELSE Report(D, Plain(locale, "missing_comment"), Selection(D, e, 0, e, 0), Mark(NoMarks(D), {e}, ">"))

CommentError(D, locale, message, e) ==
  IF e = 0 THEN OfDocument(D, Message(locale, "comment_error", message, "")) ELSE
  LET coms == D.res.com[e]
      sel == CASE coms = <<>> -> Selection(D, e, 0, e, 0)
               [] Len(coms) = 1 -> IF D.ins[coms[1]].vr = <<>> THEN SelectLine(D, coms[1])
                                   ELSE SelectRange(D, coms[1], D.ins[coms[1]].vr)
               [] OTHER -> Selection(D, coms[1], 0, Last(coms), EndOfLine(D, Last(coms)))
  IN Report(D, Message(locale, "comment_error", message, ""), sel,
            Mark(Mark(NoMarks(D), {e}, "*"), Range(coms), ">"))

\* Where the value of an element, item or entry would begin
OperatorEnd(D, e) ==
  LET tok == D.ins[e] IN
  CASE tok.tr # <<>> -> tok.tr[2]
    [] tok.k = "ml" -> EndOfLine(D, e)
    [] OTHER -> tok.op[2]

MissingValue(D, locale, e) ==
  LET tok == D.ins[e]
      name == CASE tok.k = "item" -> "missing_list_item_value"
                [] tok.k = "entry" -> "missing_fieldset_entry_value"
                [] OTHER -> "missing_field_value"
      key == IF tok.k = "item" THEN D.ins[tok.own].key ELSE tok.key
      last == IF D.res.ty[e] = "field" THEN LastLineOf(D, e) ELSE e
  IN Report(D, Message(locale, name, Str(key), ""),
            Selection(D, e, OperatorEnd(D, e), last, EndOfLine(D, last)),
            MarkElement(D, NoMarks(D), e))

ValueError(D, locale, message, e) ==
  LET tok == D.ins[e]
      text == Message(locale, "value_error", message, "")
      body == Body(D.ins, e)
      last == LastLineOf(D, e)
      from == CASE tok.vr # <<>> -> tok.vr[1]
                [] tok.op # <<>> -> tok.op[2]
                [] OTHER -> EndOfLine(D, e)
      to == IF last # e THEN EndOfLine(D, last) ELSE IF tok.vr # <<>> THEN tok.vr[2] ELSE EndOfLine(D, e)
  IN CASE IsMirror(D, e) -> Report(D, text, SelectRange(D, e, tok.kr), Mark(NoMarks(D), {e}, ">"))
       [] tok.k = "ml" /\ body # <<>> ->
            Report(D, text, Selection(D, body[1], 0, Last(body), EndOfLine(D, Last(body))),
                   Mark(NoMarks(D), Range(body), ">"))
       [] tok.k = "ml" -> Report(D, text, Selection(D, e, EndOfLine(D, e), e, EndOfLine(D, e)),
                                 MarkElement(D, NoMarks(D), e))
       [] OTHER -> Report(D, text, Selection(D, e, from, last, to), MarkElement(D, NoMarks(D), e))

(***************************************************************************)
(* What parsing comes to: a document or an error (one of several if copies *)
(* are wrong in several ways).                                             *)
(***************************************************************************)
DocumentOf(a) == [ln |-> a.ln, ins |-> a.ins, err |-> a.err,
                  res |-> IF Running(a) THEN Resolved(a.ins) ELSE Unresolved(a.ins)]
Accepted(D) == D.err.kind = "" /\ D.res.errs = {}
ParseReports(D, locale) ==
  IF D.err.kind # "" THEN {AnalysisReport(D, locale, D.err)}
  ELSE {CopyReport(D, locale, e) : e \in D.res.errs}

(***************************************************************************)
(* Design invariants.                                                      *)
(***************************************************************************)
\* A selection is inside of the document, in order, and its cursors are consistent
CursorInv(D, line, column, index) ==
  /\ line \in 0 .. (Len(D.ln) - 1) /\ column \in 0 .. Len(D.ln[line + 1])
  /\ index = Offset(D, line + 1) + column
ReportInv(D, r) ==
  /\ CursorInv(D, r.sel[1], r.sel[2], r.sel[3])
  /\ CursorInv(D, r.sel[4], r.sel[5], r.sel[6])
  /\ r.sel[3] <= r.sel[6]
  \* lines in order and at most once, some line marked, never two ellipses in a row
  /\ \A i, j \in DOMAIN r.rows : i < j /\ r.rows[i].n > 0 /\ r.rows[j].n > 0 => r.rows[i].n < r.rows[j].n
  /\ \E i \in DOMAIN r.rows : r.rows[i].m \in {">", "*", "?"}
  /\ \A i \in 1 .. (Len(r.rows) - 1) : ~(r.rows[i].n = 0 /\ r.rows[i + 1].n = 0)
  \* neighbouring rows are neighbouring lines unless there is an ellipsis between them
  /\ \A i \in 1 .. (Len(r.rows) - 1) :
       r.rows[i].n > 0 /\ r.rows[i + 1].n > 0 => r.rows[i + 1].n = r.rows[i].n + 1
  /\ Len(r.rows) > 0
  /\ r.rows[1].n \in {0, 1} /\ Last(r.rows).n \in {0, Len(D.ln)}
=============================================================================
