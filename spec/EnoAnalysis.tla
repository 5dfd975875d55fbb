----------------------------- MODULE EnoAnalysis -----------------------------
(***************************************************************************)
(* The analyzer as a state machine that consumes a document line by line   *)
(* (properties C03, C04 and, for the attachment of lines, C05 to C07).     *)
(*                                                                         *)
(* An analysis is a record                                                 *)
(*   ln    the lines consumed so far                                       *)
(*   ins   one instruction (a token of EnoGrammar) for each of them, where *)
(*           par  is the line of the section an element or section is in,  *)
(*           own  the line of the element, item or entry that an item,     *)
(*                entry, continuation or line of a multiline field is of,  *)
(*           ty   the type of an element as far as it is known by now,     *)
(*           com  the lines of the comment of an element, item or entry    *)
(*   sec   the current section (0: the document), depth its depth          *)
(*   elm   the last element since the heading, if items may follow (or 0)  *)
(*   cont  what a continuation line would continue (or 0)                  *)
(*   pend  the comment lines waiting for an element directly below         *)
(*   ml    the multiline field that is open (or 0)                         *)
(*   err   the error that was found, if any                                *)
(* and there is one action per kind of line.                               *)
(***************************************************************************)
EXTENDS EnoGrammar

NoError == [kind |-> "", line |-> 0, with |-> 0]

EmptyAnalysis == [ln |-> <<>>, ins |-> <<>>, sec |-> 0, depth |-> 0, elm |-> 0, cont |-> 0,
                  pend |-> <<>>, ml |-> 0, err |-> NoError]

ElementKinds == {"field", "copy", "ml", "section"}

DepthOf(a, s) == IF s = 0 THEN 0 ELSE a.ins[s].n
RECURSIVE Above(_, _, _)
Above(a, s, d) == IF DepthOf(a, s) < d THEN s ELSE Above(a, a.ins[s].par, d)

Here(a) == Len(a.ln) + 1
Consume(a, l, tok) == [a EXCEPT !.ln = Append(@, l), !.ins = Append(@, tok)]
Fail(a, l, kind, with) ==
  [Consume(a, l, Token("unparsed")) EXCEPT !.err = [kind |-> kind, line |-> Here(a), with |-> with]]

Running(a) == a.err.kind = ""

(***************************************************************************)
(* The actions, each defined where the line is of its kind.                *)
(***************************************************************************)
OnBlank(a, l, tok) == [Consume(a, l, tok) EXCEPT !.pend = <<>>]

OnComment(a, l, tok) == [Consume(a, l, tok) EXCEPT !.pend = Append(@, Here(a))]

OnField(a, l, tok) ==
  [Consume(a, l, [tok EXCEPT !.par = a.sec, !.com = a.pend, !.ty = IF tok.vr = <<>> THEN "empty" ELSE "field"])
   EXCEPT !.pend = <<>>, !.elm = Here(a), !.cont = Here(a)]

OnCopy(a, l, tok) ==
  [Consume(a, l, [tok EXCEPT !.par = a.sec, !.com = a.pend, !.ty = "empty"])
   EXCEPT !.pend = <<>>, !.elm = Here(a), !.cont = 0]

\* Items turn the empty element above into a list, entries turn it into a fieldset
Attach(a, l, tok, type, error) ==
  IF a.elm = 0 \/ ~(a.ins[a.elm].ty \in {"empty", type}) THEN Fail(a, l, error, 0)
  ELSE [Consume([a EXCEPT !.ins[a.elm].ty = type], l, [tok EXCEPT !.own = a.elm, !.com = a.pend])
        EXCEPT !.pend = <<>>, !.cont = Here(a)]
OnItem(a, l, tok) == Attach(a, l, tok, "list", "missing_list_for_list_item")
OnEntry(a, l, tok) == Attach(a, l, tok, "fieldset", "missing_fieldset_for_fieldset_entry")

\* Continuations turn an empty element into a field
OnContinuation(a, l, tok) ==
  IF a.cont = 0 THEN Fail(a, l, "missing_element_for_continuation", 0)
  ELSE [Consume([a EXCEPT !.ins[a.cont].ty = IF @ = "empty" THEN "field" ELSE @], l, [tok EXCEPT !.own = a.cont])
        EXCEPT !.pend = <<>>]

OnSection(a, l, tok) ==
  IF tok.n > a.depth + 1 THEN Fail(a, l, "section_hierarchy_layer_skip", a.sec)
  ELSE [Consume(a, l, [tok EXCEPT !.par = Above(a, a.sec, tok.n), !.com = a.pend, !.ty = "section"])
        EXCEPT !.pend = <<>>, !.sec = Here(a), !.depth = tok.n, !.elm = 0, !.cont = 0]

OnMultilineBegin(a, l, tok) ==
  [Consume(a, l, [tok EXCEPT !.par = a.sec, !.com = a.pend, !.ty = "mlfield"])
   EXCEPT !.pend = <<>>, !.elm = 0, !.cont = 0, !.ml = Here(a)]

OnMultilineValue(a, l) ==
  Consume(a, l, [Token("mlval") EXCEPT !.own = a.ml, !.val = l, !.vr = <<0, Len(l)>>])

OnMultilineEnd(a, l) ==
  [Consume(a, l, [ClosingToken(l) EXCEPT !.own = a.ml]) EXCEPT !.ml = 0]

OnInvalid(a, l, tok) ==
  LET f == Fail(a, l, IF tok.k = "invalid" THEN "invalid_line" ELSE "unterminated_escaped_key", 0)
  IN [f EXCEPT !.ins[Len(f.ins)].sc = tok.sc]

\* Lines below an error are not looked at
OnUnparsed(a, l) == Consume(a, l, Token("unparsed"))

\* A multiline field may not be open at the end; everything below its opening line was never parsed then
Finish(a) ==
  IF Running(a) /\ a.ml # 0
  THEN [a EXCEPT !.err = [kind |-> "unterminated_multiline_field", line |-> a.ml, with |-> 0],
                 !.ins = [i \in DOMAIN a.ins |-> IF i > a.ml THEN Token("unparsed") ELSE a.ins[i]]]
  ELSE a

\* What a line does, given that none of it is an error or in a multiline field
Step(a, l) ==
  IF ~Running(a) THEN OnUnparsed(a, l)
  ELSE IF a.ml # 0 THEN (IF Closes(l, a.ins[a.ml]) THEN OnMultilineEnd(a, l) ELSE OnMultilineValue(a, l))
  ELSE LET tok == Lex(l) IN
  CASE tok.k = "blank" -> OnBlank(a, l, tok)
    [] tok.k = "comment" -> OnComment(a, l, tok)
    [] tok.k = "field" -> OnField(a, l, tok)
    [] tok.k = "copy" -> OnCopy(a, l, tok)
    [] tok.k = "item" -> OnItem(a, l, tok)
    [] tok.k = "entry" -> OnEntry(a, l, tok)
    [] tok.k \in {"direct", "spaced"} -> OnContinuation(a, l, tok)
    [] tok.k = "section" -> OnSection(a, l, tok)
    [] tok.k = "ml" -> OnMultilineBegin(a, l, tok)
    [] OTHER -> OnInvalid(a, l, tok)

RECURSIVE Analyze(_, _)
Analyze(a, lines) == IF lines = <<>> THEN Finish(a) ELSE Analyze(Step(a, Head(lines)), Tail(lines))

(***************************************************************************)
(* What an analysis says about the structure of a document.  I is the      *)
(* sequence of instructions.                                               *)
(***************************************************************************)
Lines(I) == DOMAIN I
Elements(I, s) == SelectSeq(UpTo(Len(I)), LAMBDA j : I[j].k \in ElementKinds /\ I[j].par = s)
OwnedBy(I, e, kinds) == SelectSeq(UpTo(Len(I)), LAMBDA j : I[j].own = e /\ I[j].k \in kinds)
Items(I, e) == OwnedBy(I, e, {"item"})
Entries(I, e) == OwnedBy(I, e, {"entry"})
Continuations(I, e) == OwnedBy(I, e, {"direct", "spaced"})
Body(I, e) == OwnedBy(I, e, {"mlval"})
EndOf(I, e) == LET es == OwnedBy(I, e, {"mlend"}) IN IF es = <<>> THEN 0 ELSE es[1]
Sections(I) == SelectSeq(UpTo(Len(I)), LAMBDA j : I[j].k = "section")
NonSections(I) == SelectSeq(UpTo(Len(I)), LAMBDA j : I[j].k \in {"field", "copy", "ml"})
Unattached(I) ==   \* comment lines that are nobody's comment
  LET attached == UNION {Range(I[j].com) : j \in DOMAIN I}
  IN {j \in DOMAIN I : I[j].k = "comment"} \ attached
RECURSIVE Within(_, _)
Within(I, j) == IF j = 0 THEN {0} ELSE {j} \cup Within(I, I[j].par)   \* the sections that j is in, with j

(***************************************************************************)
(* Design invariants: what users are promised, stated without reference to *)
(* how the actions keep track of it.                                       *)
(***************************************************************************)
NearestBefore(I, j, kinds) == LET c == {i \in 1 .. (j - 1) : I[i].k \in kinds} IN IF c = {} THEN 0 ELSE Max(c)

StructureInv(a) ==
  LET I == a.ins IN
  \A j \in DOMAIN I :
    \* every non-section element is in the nearest section above
    /\ I[j].k \in {"field", "copy", "ml"} => I[j].par = NearestBefore(I, j, {"section"})
    \* a section is in the nearest one above that is less deep
    /\ I[j].k = "section" =>
         LET c == {i \in 1 .. (j - 1) : I[i].k = "section" /\ I[i].n < I[j].n}
         IN I[j].par = (IF c = {} THEN 0 ELSE Max(c)) /\ I[j].n = DepthOf(a, I[j].par) + 1
    \* items and entries are of the nearest element above, with no heading in between
    /\ I[j].k \in {"item", "entry"} => I[j].own = NearestBefore(I, j, ElementKinds) /\ I[I[j].own].k \in {"field", "copy"}
    \* continuations are of the nearest element, item or entry above
    /\ I[j].k \in {"direct", "spaced"} =>
         I[j].own = NearestBefore(I, j, ElementKinds \cup {"item", "entry"}) /\ I[I[j].own].k \in {"field", "item", "entry"}
    \* comments are exactly the comment lines directly above
    /\ I[j].k \in ElementKinds \cup {"item", "entry"} =>
         LET c == NearestBefore(I, j, {k \in {I[i].k : i \in 1 .. (j - 1)} : k # "comment"})
         IN I[j].com = SelectSeq(UpTo(j - 1), LAMBDA i : i > c)

TypeInv(a) ==
  LET I == a.ins IN
  \A j \in DOMAIN I :
    I[j].k \in {"field", "copy"} =>
      I[j].ty = CASE Items(I, j) # <<>> -> "list"
                  [] Entries(I, j) # <<>> -> "fieldset"
                  [] I[j].vr # <<>> \/ Continuations(I, j) # <<>> -> "field"
                  [] OTHER -> "empty"

ExclusiveInv(a) ==
  LET I == a.ins IN
  \A j \in DOMAIN I :
    I[j].k \in {"field", "copy"} =>
      Cardinality({x \in {Items(I, j), Entries(I, j), Continuations(I, j), I[j].vr} : x # <<>>}) <= 1
      \/ (I[j].vr # <<>> /\ Items(I, j) = <<>> /\ Entries(I, j) = <<>>)

TrackingInv(a) ==
  Running(a) =>
    LET I == a.ins IN
    /\ a.sec = NearestBefore(I, Len(I) + 1, {"section"})
    /\ a.depth = DepthOf(a, a.sec)
    /\ a.cont # 0 => I[a.cont].k \in {"field", "item", "entry"} /\ a.cont > a.sec
    /\ a.elm # 0 => a.elm > a.sec
    /\ a.pend # <<>> => Last(a.pend) = Len(I)

AnalysisInv(a) == StructureInv(a) /\ TypeInv(a) /\ ExclusiveInv(a) /\ TrackingInv(a)
=============================================================================
