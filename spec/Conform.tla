------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Trace validation: the records of what the implementation did with       *)
(* documents (and of the calls that were made on them) are read from a     *)
(* file, every record is replayed with the actions of the specification -  *)
(* line by line, copy by copy, call by call - and judged clause by clause. *)
(*                                                                         *)
(* A record has                                                            *)
(*   id, ln (the lines of the document), loc (the locale), want (the       *)
(*   clauses to judge), out ("document", "parse" or what else happened),   *)
(*   focus (the methods that are judged, all if empty), scope,             *)
(*   err (the report of the parse error), raw and api (the tree as dumped  *)
(*   from both views), look (lookup results), conv (conversions of things  *)
(*   that were looked up) and calls (with their results).                  *)
(*                                                                         *)
(* Every record ends with a verdict that is printed: OK, STRAY (some   *)
(* call that the record is not about did something else than it should)   *)
(* or BAD with the clauses that do not hold and what was expected instead. *)
(***************************************************************************)
EXTENDS EnoLookup, EnoQuery, TLC, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.ENO_RECORDS)

VARIABLES rec,    \* which record
          pc,     \* "read", "resolve", "judge", "query", "done", "stray" or "end"
          a,      \* the analysis so far
          res,    \* the resolution so far
          tree,   \* the tree that is queried
          q,      \* the state of the interface
          step,   \* the next call
          bad     \* clauses that do not hold
vars == <<rec, pc, a, res, tree, q, step, bad>>

R == Records[rec]
NoResolution == Unresolved(<<>>)
NoTree == [T |-> <<>>, kids |-> <<>>, up |-> <<>>]
NoQuery == [yd |-> <<>>, tc |-> <<>>, rq |-> <<>>, hs |-> <<>>]
D == [ln |-> a.ln, ins |-> a.ins, err |-> a.err, res |-> res]
Q == [D |-> D, locale |-> R.loc, T |-> tree.T, kids |-> tree.kids, up |-> tree.up]
Wants(clause) == clause \in Range(R.want)

Init ==
  /\ rec \in 1 .. Len(Records)
  /\ pc = "read" /\ a = EmptyAnalysis /\ res = NoResolution /\ tree = NoTree /\ q = NoQuery /\ step = 1 /\ bad = <<>>

ReadLine ==
  /\ pc = "read" /\ Len(a.ln) < Len(R.ln)
  /\ a' = Step(a, R.ln[Len(a.ln) + 1])
  /\ UNCHANGED <<rec, pc, res, tree, q, step, bad>>

EndOfDocument ==
  /\ pc = "read" /\ Len(a.ln) = Len(R.ln)
  /\ a' = Finish(a)
  /\ res' = IF a'.err.kind = "" /\ Copies(a.ins) # {} THEN Indexed(a'.ins) ELSE Unresolved(a'.ins)
  /\ pc' = IF a'.err.kind = "" THEN "resolve" ELSE "judge"
  /\ UNCHANGED <<rec, tree, q, step, bad>>

ResolveCopy ==
  /\ pc = "resolve" /\ res.todo # {} /\ ~Stuck(a.ins, res)
  /\ res' = ResolveOne(a.ins, res, Min(Ready(a.ins, res.todo)))
  /\ UNCHANGED <<rec, pc, a, tree, q, step, bad>>

GiveUpOnCopies ==
  /\ pc = "resolve" /\ Stuck(a.ins, res)
  /\ res' = GiveUp(a.ins, res)
  /\ UNCHANGED <<rec, pc, a, tree, q, step, bad>>

AllResolved ==
  /\ pc = "resolve" /\ res.todo = {}
  /\ pc' = "judge"
  /\ UNCHANGED <<rec, a, res, tree, q, step, bad>>

(***************************************************************************)
(* Judging. A failing clause is <<name, expected>>.                        *)
(***************************************************************************)
Clause(name, holds, expected) == IF holds THEN <<>> ELSE <<<<name, expected>>>>

\* Of a row of the tree, only what the record wants to be looked at
Seen(row) == <<row.d, row.ty, row.key,
               IF Wants("values") THEN row.val ELSE "", IF Wants("comments") THEN row.com ELSE "">>
SameRows(rows, observed) ==
  Len(rows) = Len(observed) /\ \A i \in DOMAIN rows : Seen(rows[i]) = Seen(observed[i])

\* Reports agree with one of several that are possible: the text (and then the selection) decides which one it is
Preferring(reports, preferred) == IF preferred = {} THEN reports ELSE preferred
SameText(reports, observed) == Preferring(reports, {x \in reports : x.text = observed.text})
SameSel(reports, observed) ==
  LET same == SameText(reports, observed) IN Preferring(same, {x \in same : x.sel = observed.sel})
TextClause(reports, observed) ==
  IF ~Wants("text") THEN <<>>
  ELSE Clause("text", \E x \in reports : x.text = observed.text, {x.text : x \in reports})
SelClause(reports, observed) ==
  IF ~Wants("sel") THEN <<>>
  ELSE LET same == SameText(reports, observed)
       IN Clause("selection", \E x \in same : x.sel = observed.sel, {x.sel : x \in same})
RowsClause(reports, observed) ==
  IF ~Wants("rows") THEN <<>>
  ELSE LET same == SameSel(reports, observed)
       IN Clause("snippet", \E x \in same : x.rows = observed.rows, {x.rows : x \in same})
\* The other reporters and locales show the same (relations between observations)
HeaderClause(observed) ==
  IF ~Wants("header") THEN <<>>
  ELSE LET head == <<Plain(R.loc, "gutter_header"), Plain(R.loc, "content_header")>> IN Clause("header", observed.head = head, head)
ReporterClause(observed) ==
  IF ~Wants("reporters") THEN <<>>
  ELSE Clause("html", observed.html = observed.rows, observed.rows)
       \o Clause("terminal", observed.term = observed.rows, observed.rows)
       \o Clause("html header", observed.htmlhead = observed.head, observed.head)
       \o Clause("reporter independence", \A o \in Range(observed.others) : o = <<observed.text, observed.sel>>,
                 <<observed.text, observed.sel>>)
ReportClauses(reports, observed) ==
  TextClause(reports, observed) \o SelClause(reports, observed) \o RowsClause(reports, observed)
  \o HeaderClause(observed) \o ReporterClause(observed)

OutcomeClauses ==
  Clause("outcome", R.out \in {"document", "parse"}, "document or parse error")
  \o (IF ~Wants("accept") \/ ~(R.out \in {"document", "parse"}) THEN <<>>
      ELSE Clause("acceptance", (R.out = "document") = Accepted(D),
                  IF Accepted(D) THEN {"document"} ELSE {x.text : x \in ParseReports(D, R.loc)}))
ErrorClauses ==
  IF R.out # "parse" \/ Accepted(D) THEN <<>> ELSE ReportClauses(ParseReports(D, R.loc), R.err)

TreeClauses ==
  IF R.out # "document" \/ ~Accepted(D) THEN <<>>
  ELSE LET rows == Rows(D)
       IN (IF Wants("tree") THEN Clause("tree", SameRows(rows, R.raw), [i \in DOMAIN rows |-> Seen(rows[i])]) ELSE <<>>)
          \o (IF Wants("api") THEN Clause("element tree", SameRows(rows, R.api), [i \in DOMAIN rows |-> Seen(rows[i])]) ELSE <<>>)
          \o (IF Wants("views") THEN Clause("views agree", R.raw = R.api, R.raw) ELSE <<>>)
          \o (IF Wants("again") THEN Clause("parsed again", R.raw = R.again, R.raw) ELSE <<>>)

LookupClauses ==
  IF R.out # "document" \/ ~Accepted(D) \/ ~Wants("lookup") THEN <<>>
  ELSE LET places == Positions(D)
           wrong(results) == IF Len(results) # Len(places) THEN {0} ELSE {i \in DOMAIN places : results[i] # places[i]}
           first(name, results) ==
             Clause(name, wrong(results) = {}, IF Len(results) # Len(places) THEN "all positions" ELSE places[Min(wrong(results))])
       IN first("lookup by line and column", R.look) \o first("lookup by index", R.lookindex)
          \o Clause("lookup outside", Range(R.outside) = {"IndexError"}, "IndexError")

\* What the things that are looked up can be converted to, and where they are
IsThing(e) == e \in DOMAIN D.ins /\ (D.ins[e].k \in {"item", "entry"} \/ D.res.ty[e] # "")
NoThing(e) == [e |-> e - 1, to |-> {}, key |-> "", up |-> 0 - 1, val |-> ""]
ConversionOf(e) == IF ~IsThing(e) THEN NoThing(e) ELSE
  LET tok == D.ins[e]
      ty == IF tok.k \in {"item", "entry"} THEN tok.k ELSE D.res.ty[e]
      to == CASE ty = "item" -> {"list_item"} [] ty = "entry" -> {"fieldset_entry"}
              [] OTHER -> {f \in Faces : Fits(f, ty)}
  IN [e |-> e - 1, to |-> to, key |-> Opt(KeyOf(D, e)),
      up |-> IF tok.k \in {"item", "entry"} THEN tok.own - 1 ELSE tok.par - 1,
      val |-> IF HasValue(ty) THEN Opt(Value(D, e)) ELSE ""]
RefusedConversions(c) ==
  Concat([i \in DOMAIN c.errs |->
           ReportClauses({UnexpectedType(D, R.loc, "expected_" \o c.errs[i].face, <<>>, c.e + 1)}, c.errs[i].v)])
ConversionClauses ==
  IF R.out # "document" \/ ~Accepted(D) \/ ~Wants("conversions") THEN <<>>
  ELSE LET wrong == {c \in Range(R.conv) :
                       LET x == ConversionOf(c.e + 1)
                       IN ~(IsThing(c.e + 1) /\ x.to = Range(c.to) /\ x.to = Range(c.yields) /\ x.key = c.key
                            /\ {u \in Range(c.ups) : u # x.up} = {} /\ x.val = c.val)}
       IN Clause("conversions", wrong = {}, {ConversionOf(c.e + 1) : c \in wrong})
          \o (IF wrong # {} THEN <<>> ELSE Concat([i \in DOMAIN R.conv |-> RefusedConversions(R.conv[i])]))

\* What is looked up is read like what is reached from the document
LookedUpClauses ==
  IF R.out # "document" \/ ~Accepted(D) \/ ~Wants("looked up") THEN <<>>
  ELSE LET rowsOf(e) == IF ~IsThing(e) THEN <<>> ELSE LET T == NodesOf(D, e, 0) IN [i \in DOMAIN T |-> Row(D, T[i])]
           wrong(part(_)) == {c \in Range(R.conv) : ~SameRows(rowsOf(c.e + 1), part(c))}
           first(name, part(_)) == Clause(name, wrong(part) = {}, {[i \in DOMAIN rowsOf(c.e + 1) |-> Seen(rowsOf(c.e + 1)[i])] : c \in wrong(part)})
       IN first("looked up raw", LAMBDA c : c.raw) \o first("looked up elements", LAMBDA c : c.api)

\* What is printed of the things that are looked up
PrintedClauses ==
  IF R.out # "document" \/ ~Accepted(D) \/ ~Wants("printed") THEN <<>>
  ELSE LET is(e) == IF e = 0 \/ IsThing(e) THEN PrintedElement(D, e) ELSE "nothing"
           wrong == {p \in Range(R.printed) : p.v # is(p.e + 1)}
       IN Clause("printed", wrong = {}, {[e |-> p.e, v |-> is(p.e + 1)] : p \in wrong})

RelationClauses ==
  IF Wants("relations") THEN Concat([i \in DOMAIN R.relations |-> Clause(R.relations[i].name, R.relations[i].l = R.relations[i].r, R.relations[i].l)])
  ELSE <<>>

Judge ==
  /\ pc = "judge"
  /\ bad' = OutcomeClauses \o ErrorClauses \o RelationClauses
            \o TreeClauses \o LookupClauses \o ConversionClauses \o LookedUpClauses \o PrintedClauses
  /\ pc' = IF bad' = <<>> /\ R.out = "document" /\ Accepted(D) /\ R.calls # <<>> THEN "query" ELSE "done"
  /\ tree' = IF pc' = "query" THEN LET x == QueryOf(D, R.loc) IN [T |-> x.T, kids |-> x.kids, up |-> x.up] ELSE tree
  /\ q' = IF pc' = "query" THEN InitialQuery(tree') ELSE q
  /\ UNCHANGED <<rec, a, res, step>>

(***************************************************************************)
(* Calls.                                                                  *)
(***************************************************************************)
Result(holds, expected) == Clause("result", holds, expected)
ResultClauses(expected, x) ==
  CASE expected.r \in {"validation", "built"} ->
         (IF x.r = expected.r THEN ReportClauses({expected.v}, x.v) ELSE Result(FALSE, expected))
    [] expected.r = "any" ->
         (IF x.r = "validation" THEN ReportClauses(expected.v, x.v)
                                     \o (IF Wants("text") /\ Wants("sel")
                                         THEN Clause("text and selection",
                                                     \E y \in expected.v : y.text = x.v.text /\ y.sel = x.v.sel,
                                                     {<<y.text, y.sel>> : y \in expected.v})
                                         ELSE <<>>)
          ELSE Result(FALSE, expected))
    [] expected.r = "type or validation" ->
         Result(x.r = "validation" \/ (x.r = "type" /\ Range(x.v) = expected.v), expected)
    [] expected.r = "type" -> Result(x.r = "type" /\ (x.r = "type" => Range(x.v) = expected.v), expected)
    [] expected.r = "dump" ->
         (IF x.r = "dump" THEN (IF Wants("results") THEN Clause("raw", SameRows(expected.v, x.v), [i \in DOMAIN expected.v |-> Seen(expected.v[i])]) ELSE <<>>)
          ELSE Result(FALSE, expected))
    [] OTHER -> Result(x.r = expected.r /\ x = expected, expected)
\* Whatever is looked at: these are never right
Broken(x) == x.r \in {"exception", "unreadable", "timeout", "odd"}

\* What a thing that is returned for the first time is: its face and the line it is written in
Introduced(state, h) ==
  LET thing == state.hs[h]
  IN [face |-> thing.face, missing |-> thing.missing, line |-> IF thing.missing THEN 0 ELSE SourceOf(Q, thing.n)]
IntroductionClauses(state, next, news) ==
  LET fresh == [i \in 1 .. (Len(next.hs) - Len(state.hs)) |-> Introduced(next, Len(state.hs) + i)]
  IN Clause("returned thing", news = fresh, fresh)

\* Only calls that the record is about are judged. Where another one does something else than it
\* should, the record is abandoned: nothing is known of the state of the implementation any more
\* (that is for the record of another property to tell).
InFocus(c) ==
  /\ R.focus = <<>> \/ c.m \in Range(R.focus)
  /\ R.scope = "missing" => q.hs[c.h].missing \/ c.m = "ask"
Divergence(clauses) == \E i \in DOMAIN clauses : clauses[i][1] \in {"result", "returned thing"}

MakeCall ==
  /\ pc = "query" /\ step <= Len(R.calls)
  /\ LET c == R.calls[step]
         o == Call(Q, q, c.h, c)
         all == ResultClauses(o.result, c.res)
                \o (IF Wants("heard") THEN Clause("loader calls", o.calls = c.heard, o.calls) ELSE <<>>)
                \o IntroductionClauses(q, o.state, c.news)
         diverged == Divergence(all)
         judged == InFocus(c) /\ (Wants("results") \/ Broken(c.res) \/ ~diverged)
         b == IF judged THEN all ELSE <<>>
     IN /\ q' = o.state
        /\ bad' = [i \in DOMAIN b |-> <<b[i][1], b[i][2], step>>]
        /\ pc' = IF b = <<>> /\ diverged THEN "stray" ELSE IF b # <<>> \/ step = Len(R.calls) THEN "done" ELSE pc
  /\ step' = step + 1
  /\ UNCHANGED <<rec, a, res, tree>>

Verdict ==
  /\ pc \in {"done", "stray"}
  /\ pc' = "end"
  /\ PrintT("VERDICT " \o (IF bad # <<>> THEN "BAD " \o ToString(R.id) \o " " \o ToJson(bad)
                           ELSE IF pc = "stray" THEN "STRAY " \o ToString(R.id)
                           ELSE "OK " \o ToString(R.id)))
  /\ UNCHANGED <<rec, a, res, tree, q, step, bad>>

Next == ReadLine \/ EndOfDocument \/ ResolveCopy \/ GiveUpOnCopies \/ AllResolved \/ Judge \/ MakeCall \/ Verdict
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The design invariants are evaluated along every trace.                  *)
(***************************************************************************)
ReadInv == pc = "read" => AnalysisInv(a)
CallInv == pc = "query" => QueryInv(Q, q)
=============================================================================
