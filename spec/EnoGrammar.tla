----------------------------- MODULE EnoGrammar -----------------------------
(***************************************************************************)
(* The line grammar: Lex(l) says what kind of line l is and which columns  *)
(* hold its operators, key, value and template (property C02).  Nothing    *)
(* but the line itself is looked at; the attachment of lines to each other *)
(* is the business of EnoAnalysis.                                         *)
(***************************************************************************)
EXTENDS EnoText

(***************************************************************************)
(* A token. Ranges that do not occur are <<>>.                             *)
(*   k    kind                                                             *)
(*   n    depth of a section, number of dashes of a multiline field        *)
(*   op   main operator        key, kr   key and its range                 *)
(*   eb, ee  escape operators  val, vr   value (or comment) and its range  *)
(*   tm, tr  template          co, deep  copy operator, is it a deep one   *)
(*   sc   for an unterminated escaped key: where the key would begin       *)
(* The remaining fields are filled in by EnoAnalysis.                      *)
(***************************************************************************)
Token(kind) ==
  [k |-> kind, n |-> 0, op |-> <<>>, key |-> <<>>, kr |-> <<>>, eb |-> <<>>, ee |-> <<>>,
   val |-> <<>>, vr |-> <<>>, tm |-> <<>>, tr |-> <<>>, co |-> <<>>, deep |-> FALSE, sc |-> 0,
   par |-> 0, own |-> 0, ty |-> "", com |-> <<>>]

\* tok with the rest of the line from column c on as its optional value
WithValue(l, tok, c) ==
  LET r == Trim(l, c, Len(l)) IN
  IF r[1] = r[2] THEN tok ELSE [tok EXCEPT !.vr = r, !.val = Cut(l, r)]

KeyStart == {">", "#", "-", "`", "\\", "|", ":", "=", "<"}   \* no unescaped key begins with these
KeyEnd == {":", "=", "<"}                                    \* an unescaped key ends before these

Ticks(l, c, n) == c + n <= Len(l) /\ \A i \in 1 .. n : l[c + i] = "`"

(***************************************************************************)
(* What may follow the key (from column c on): an operator for elements,   *)
(* nothing or a copy operator for sections; <<>> if it is not wellformed.  *)
(***************************************************************************)
ElementTail(l, c, tok) ==
  LET o == SkipWs(l, c) IN
  IF o >= Len(l) THEN <<>>
  ELSE CASE l[o + 1] = ":" -> <<WithValue(l, [tok EXCEPT !.k = "field", !.op = <<o, o + 1>>], o + 1)>>
         [] l[o + 1] = "=" -> <<WithValue(l, [tok EXCEPT !.k = "entry", !.op = <<o, o + 1>>], o + 1)>>
         [] l[o + 1] = "<" -> LET r == Trim(l, o + 1, Len(l)) IN
                              IF r[1] = r[2] THEN <<>>
                              ELSE <<[tok EXCEPT !.k = "copy", !.co = <<o, o + 1>>, !.tr = r, !.tm = Cut(l, r)]>>
         [] OTHER -> <<>>

SectionTail(l, c, tok) ==
  LET o == SkipWs(l, c)
      deep == o + 1 < Len(l) /\ l[o + 2] = "<"
      e == IF deep THEN o + 2 ELSE o + 1
      r == Trim(l, e, Len(l))
  IN IF o >= Len(l) THEN <<tok>>
     ELSE IF l[o + 1] # "<" \/ r[1] = r[2] THEN <<>>
     ELSE <<[tok EXCEPT !.co = <<o, e>>, !.deep = deep, !.tr = r, !.tm = Cut(l, r)]>>

Tail_(l, c, tok) == IF tok.k = "section" THEN SectionTail(l, c, tok) ELSE ElementTail(l, c, tok)

(***************************************************************************)
(* An escaped key opens with a run of n backticks at column c and ends at  *)
(* the first n backticks after which the line continues wellformed.        *)
(***************************************************************************)
RECURSIVE EscapedFrom(_, _, _, _, _, _)
EscapedFrom(l, c, n, s, e, tok) ==
  IF e > Len(l) THEN <<>>
  ELSE LET p == SkipWs(l, e)
           t == IF Ticks(l, p, n)
                THEN Tail_(l, p + n, [tok EXCEPT !.eb = <<c, c + n>>, !.ee = <<p, p + n>>,
                                                 !.kr = <<s, e>>, !.key = Cut(l, <<s, e>>)])
                ELSE <<>>
       IN IF t # <<>> THEN t ELSE EscapedFrom(l, c, n, s, e + 1, tok)

Escaped(l, c, tok) ==
  LET n == SkipChar(l, c, "`") - c
      s == SkipWs(l, c + n)
  IN EscapedFrom(l, c, n, s, s + 1, tok)

Unescaped(l, c, ends, tok) ==
  LET o == Find(l, c + 1, ends)
      r == Trim(l, c, o)
  IN Tail_(l, o, [tok EXCEPT !.kr = r, !.key = Cut(l, r)])

\* Is an escaped key opened but not closed anywhere in this (invalid) line?
Contains(l, c, n) == \E p \in c .. Len(l) : Ticks(l, p, n)
Invalid(l) ==
  LET c == SkipWs(l, SkipChar(l, SkipWs(l, 0), "#"))
      e == SkipChar(l, c, "`")
  IN IF e > c /\ e < Len(l) /\ ~Contains(l, e, e - c)
     THEN [Token("unterminated") EXCEPT !.sc = e]
     ELSE Token("invalid")

Lex(l) ==
  LET c == SkipWs(l, 0) IN
  IF c = Len(l) THEN Token("blank")
  ELSE LET ch == l[c + 1] IN
  CASE ch = "|" -> WithValue(l, [Token("direct") EXCEPT !.op = <<c, c + 1>>], c + 1)
    [] ch = "\\" -> WithValue(l, [Token("spaced") EXCEPT !.op = <<c, c + 1>>], c + 1)
    [] ch = ">" -> WithValue(l, [Token("comment") EXCEPT !.op = <<c, c + 1>>], c + 1)
    [] ch = "-" -> LET e == SkipChar(l, c, "-")
                       r == Trim(l, e, Len(l))
                   IN IF e = c + 1 THEN WithValue(l, [Token("item") EXCEPT !.op = <<c, e>>], e)
                      ELSE IF r[1] = r[2] THEN Invalid(l)
                      ELSE [Token("ml") EXCEPT !.n = e - c, !.op = <<c, e>>, !.kr = r, !.key = Cut(l, r)]
    [] ch = "#" -> LET e == SkipChar(l, c, "#")
                       s == SkipWs(l, e)
                       tok == [Token("section") EXCEPT !.n = e - c, !.op = <<c, e>>]
                       t == IF s = Len(l) \/ l[s + 1] = "<" THEN <<>>
                            ELSE IF l[s + 1] = "`" THEN Escaped(l, s, tok)
                            ELSE Unescaped(l, s, {"<"}, tok)
                   IN IF t = <<>> THEN Invalid(l) ELSE t[1]
    [] ch = "`" -> LET t == Escaped(l, c, Token("field")) IN IF t = <<>> THEN Invalid(l) ELSE t[1]
    [] ch \in {":", "=", "<"} -> Invalid(l)
    [] OTHER -> LET t == Unescaped(l, c, KeyEnd, Token("field")) IN IF t = <<>> THEN Invalid(l) ELSE t[1]

\* Does line l close the multiline field that was opened by the token?
Closes(l, tok) ==
  LET c == SkipWs(l, 0)
      e == SkipChar(l, c, "-")
      r == Trim(l, e, Len(l))
  IN e - c = tok.n /\ Cut(l, r) = tok.key

ClosingToken(l) ==
  LET c == SkipWs(l, 0)
      e == SkipChar(l, c, "-")
      r == Trim(l, e, Len(l))
  IN [Token("mlend") EXCEPT !.n = e - c, !.op = <<c, e>>, !.kr = r, !.key = Cut(l, r)]

(***************************************************************************)
(* The named parts of a line, as lookup and the reporters know them.       *)
(***************************************************************************)
OpName(k) == CASE k = "direct" -> "direct_line_continuation_operator"
               [] k = "spaced" -> "spaced_line_continuation_operator"
               [] k = "comment" -> "comment_operator"
               [] k = "item" -> "item_operator"
               [] k = "ml" -> "multiline_field_operator"
               [] k = "mlend" -> "multiline_field_operator"
               [] k = "section" -> "section_operator"
               [] k = "field" -> "element_operator"
               [] k = "entry" -> "entry_operator"
               [] OTHER -> "operator"

Part(name, r) == IF r = <<>> THEN {} ELSE {<<name, r[1], r[2]>>}
Parts(tok) ==
  Part(OpName(tok.k), tok.op)
  \cup Part("key", tok.kr)
  \cup Part("escape_begin_operator", tok.eb)
  \cup Part("escape_end_operator", tok.ee)
  \cup Part(IF tok.k = "comment" THEN "comment" ELSE "value", tok.vr)
  \cup Part("template", tok.tr)
  \cup Part(IF tok.deep THEN "deep_copy_operator" ELSE "copy_operator", tok.co)

\* Of several parts that touch column c the rightmost one is meant
PartAt(tok, c) ==
  LET touching == {p \in Parts(tok) : p[2] <= c /\ c <= p[3]} IN
  IF touching = {} THEN ""
  ELSE (CHOOSE p \in touching : \A q \in touching : q[2] <= p[2])[1]
=============================================================================
