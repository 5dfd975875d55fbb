------------------------------- MODULE MCQuery -------------------------------
(***************************************************************************)
(* All histories of calls on small documents: the invariants of the        *)
(* interface (C11 to C15, C22) hold in every state and along every call.   *)
(* Histories that cover all transitions can be printed, to be replayed on  *)
(* the implementation.                                                     *)
(***************************************************************************)
EXTENDS EnoQuery, Documents, TLC, Json

CONSTANTS Depth, Methods, Which, Focus
VARIABLES doc, q, hist, last
vars == <<doc, q, hist, last>>

QueryDocument(i) == QueryOf(DocumentOf(Analyze(EmptyAnalysis, Documents[i])), "en")
Queried == [i \in Which |-> QueryDocument(i)]
Q == Queried[doc]

Init == /\ doc \in Which
        /\ q = InitialQuery(QueryDocument(doc))
        /\ hist = <<>> /\ last = [r |-> "none"]

Plain_ == [m |-> "", face |-> "", mode |-> "", key |-> <<>>, loader |-> "", say |-> "", flag |-> FALSE, only |-> <<>>, skip |-> <<>>]
KeysUnder(n) == {Q.D.ins[Q.T[m].src].key : m \in Range(Q.kids[n])}
AskKeys(thing) == {<<>>, <<<<"z">>>>} \cup {<<k>> : k \in IF thing.missing THEN {} ELSE KeysUnder(thing.n)}
Modes == {"plain", "optional", "required"}
Loaders == {"", "wrap", "reject", "fussy", "crash", "zero"}
IsNode(thing) == ~thing.missing

Saying(call) ==   \* what its messages say
  [call EXCEPT !.say = CASE call.loader \in {"reject", "fussy"} -> "no " \o call.loader
                         [] call.m = "build" -> "mine" [] call.m = "assert" -> "not expected" [] OTHER -> ""]
CallsOn(thing) ==
  LET f == thing.face
      asks == {[Plain_ EXCEPT !.m = "ask", !.face = x, !.key = k, !.mode = m] : x \in CanAsk(thing), k \in AskKeys(thing), m \in Modes}
      alls == {[Plain_ EXCEPT !.m = "ask_all", !.face = x, !.key = k] : x \in CanAsk(thing) \ {"empty"}, k \in AskKeys(thing)}
      values(m) == {[Plain_ EXCEPT !.m = m, !.mode = o, !.loader = l] : o \in {"optional", "required"}, l \in Loaders}
      just(m) == {[Plain_ EXCEPT !.m = m]}
      flags == {[Plain_ EXCEPT !.m = "require", !.flag = b] : b \in BOOLEAN}
      asserts == {[Plain_ EXCEPT !.m = "assert", !.mode = o, !.only = y, !.skip = n] :
                    o \in {"", "function"}, y \in {<<>>} \cup {k \in AskKeys(thing) : k # <<>>}, n \in {<<>>} \cup {k \in AskKeys(thing) : k # <<>>}}
      node(calls) == IF IsNode(thing) THEN calls ELSE {}
      inner(calls) == IF IsNode(thing) /\ thing.n = 1 THEN {} ELSE calls
      keys == {[Plain_ EXCEPT !.m = "key", !.loader = l] : l \in Loaders}
      comments == values("comment")
      builds(xs) == node(({[Plain_ EXCEPT !.m = "build", !.face = x, !.mode = o] : x \in xs, o \in {"text", "function"}}))
      common == just("raw") \cup just("print") \cup inner(keys) \cup comments \cup builds({"error", "key_error", "comment_error"})
      valued == values("value") \cup builds({"value_error"})
      above == node(just("touch") \cup just("parent"))
  IN CASE f = "section" -> asks \cup alls \cup above \cup node(flags \cup asserts) \cup common
       [] f = "fieldset" -> asks \cup {c \in alls : c.face = "fieldset_entry"} \cup above \cup node(flags \cup asserts) \cup common
       [] f = "list" -> just("items") \cup node(just("length")) \cup values("values") \cup above \cup common
       [] f \in {"field", "item", "entry", "fieldset_entry"} -> valued \cup above \cup common
       [] f = "empty" -> above \cup common
       [] OTHER -> {[Plain_ EXCEPT !.m = m, !.face = x] : m \in {"to", "yields"}, x \in Faces} \cup node(just("touch")) \cup common

Do(h, call) ==
  LET o == Call(Q, q, h, Saying(call))
  IN /\ q' = o.state
     /\ last' = o.result
     /\ hist' = Append(hist, [call EXCEPT !.m = call.m] @@ [h |-> h])
     /\ UNCHANGED doc
Next == /\ Len(hist) < Depth
        /\ \E h \in DOMAIN q.hs : \E call \in {c \in CallsOn(q.hs[h]) : c.m \in Methods} : Do(h, call)
Spec == Init /\ [][Next]_vars

Inv == QueryInv(Q, q)
\* Every report that can come of a call is sound
ResultInv ==
  CASE last.r \in {"validation", "built"} -> ReportInv(Q.D, last.v)
    [] last.r = "any" -> \A x \in last.v : ReportInv(Q.D, x)
    [] OTHER -> TRUE
\* With the switch on there are no placeholders and nothing is absent
RequireInv ==
  LET c == hist[Len(hist)] IN
  hist # <<>> /\ c.m = "ask" /\ IsNode(q.hs[c.h]) /\ q.rq[q.hs[c.h].n] =>
    /\ last.r # "none"
    /\ last.r = "thing" => ~q.hs[last.v].missing
MonotoneProp == [][Monotone(q, q')]_vars
\* Assertions, errors, raw forms, predicates and switches neither touch nor fetch anything
PureProp ==
  [][hist'[Len(hist')].m \in {"assert", "build", "raw", "print", "yields", "require"} => q'.yd = q.yd /\ q'.tc = q.tc /\ q'.hs = q.hs]_vars
\* What is in one element is of no concern to another: only what is below the thing (or itself, or its parent) changes
LocalProp ==
  [][LET h == hist'[Len(hist')].h
         t == q.hs[h]
     IN \A n \in DOMAIN q.tc :
          q'.tc[n] # q.tc[n] \/ q'.yd[n] # q.yd[n] \/ q'.rq[n] # q.rq[n] => n >= t.n /\ n <= Subtree(Q.T, t.n, t.n)]_vars

View == <<doc, q.yd, q.tc, q.rq, Range(q.hs)>>
InvView == <<doc, q.yd, q.tc, q.rq, Range(q.hs), last>>
Few == Cardinality({h \in DOMAIN q.hs : q.hs[h].missing}) <= 1   \* placeholders at a time
\* An action constraint: a history that ends with every transition (by a method that matters)
Emit == hist'[Len(hist')].m \in Focus => PrintT("CALLS " \o ToString(doc) \o " " \o ToJson(hist'))
=============================================================================
