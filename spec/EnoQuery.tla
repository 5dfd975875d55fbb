------------------------------ MODULE EnoQuery ------------------------------
(***************************************************************************)
(* The element interface as a state machine: its state is what reading a   *)
(* document leaves behind in the document (property C11 to C15 and C21 to  *)
(* C23), its transitions are the calls of the interface.                   *)
(*                                                                         *)
(* Q is a record with the document D (of EnoDocument), its tree T, the     *)
(* children kids and the parent up of every node, and the locale.          *)
(* A state is a record, by node of the tree,                               *)
(*   yd  what the element was fetched as ("" before)                       *)
(*   tc  was what it was fetched as (or the item or entry) touched         *)
(*   rq  are missing elements (or entries) errors                          *)
(* and has hs, the things that were returned by now: the identity of a     *)
(* thing is its position in hs.                                            *)
(***************************************************************************)
EXTENDS EnoReports

QueryOf(D, locale) ==
  LET T == Tree(D)
  IN [D |-> D, T |-> T, locale |-> locale,
      kids |-> [n \in DOMAIN T |-> Children(T, n)],
      up |-> [n \in DOMAIN T |-> Parent(T, n)]]

(***************************************************************************)
(* Things: a node under one of its faces ("element" before, "field" etc.   *)
(* after it was fetched), or the placeholder of a missing element; top is  *)
(* the topmost missing element a placeholder is in (<<>> for itself).      *)
(***************************************************************************)
Thing(n, face) == [n |-> n, face |-> face, missing |-> FALSE, key |-> <<>>, top |-> <<>>]
Placeholder(n, face, key, top) == [n |-> n, face |-> face, missing |-> TRUE, key |-> key, top |-> top]
Document == Thing(1, "section")

InitialQuery(Q) ==
  [yd |-> [n \in DOMAIN Q.T |-> IF n = 1 THEN "section" ELSE ""],
   tc |-> [n \in DOMAIN Q.T |-> FALSE],
   rq |-> [n \in DOMAIN Q.T |-> FALSE],
   hs |-> <<Document>>]

Fits(face, ty) ==
  CASE face = "element" -> TRUE
    [] face = "empty" -> ty = "empty"
    [] face = "field" -> ty \in {"field", "mlfield", "empty"}
    [] face = "fieldset" -> ty \in {"fieldset", "empty"}
    [] face = "list" -> ty \in {"list", "empty"}
    [] face = "section" -> ty = "section"
    [] OTHER -> FALSE
Faces == {"empty", "field", "fieldset", "list", "section"}

(***************************************************************************)
(* Results. Every call has one; things are returned by their identity.     *)
(***************************************************************************)
Nothing == [r |-> "none"]
Bool(b) == [r |-> "bool", v |-> b]
Count(n) == [r |-> "count", v |-> n]
Texts(ts) == [r |-> "texts", v |-> ts]            \* "" for nothing, otherwise preceded by "="
One(text) == [r |-> "text", v |-> text]
Things(hs) == [r |-> "things", v |-> hs]
The(h) == [r |-> "thing", v |-> h]
Invalid_(report) == [r |-> "validation", v |-> report]
AnyOf(reports) == [r |-> "any", v |-> reports]    \* a validation error with one of these reports
Refused(was, face) == [r |-> "type", v |-> {was, face}]   \* a type error that names both
RefusedOrInvalid(was, face) == [r |-> "type or validation", v |-> {was, face}]
Crashed == [r |-> "crash"]                        \* the exception of a loader
Built(report) == [r |-> "built", v |-> report]    \* an error that was asked for
Dump(rows) == [r |-> "dump", v |-> rows]
Outcome(state, result) == [state |-> state, result |-> result, calls |-> <<>>]
Heard(outcome, calls) == [outcome EXCEPT !.calls = calls]   \* what a loader was given

\* Position of a thing among those already returned (0: not yet)
Position(hs, thing) == LET at == {h \in DOMAIN hs : hs[h] = thing} IN IF at = {} THEN 0 ELSE Min(at)
Hand(state, thing) ==
  LET at == IF thing.missing THEN 0 ELSE Position(state.hs, thing)
  IN IF at # 0 THEN [state |-> state, h |-> at]
     ELSE [state |-> [state EXCEPT !.hs = Append(@, thing)], h |-> Len(state.hs) + 1]
RECURSIVE HandAll(_, _, _)
HandAll(state, things, hs) ==
  IF things = <<>> THEN [state |-> state, hs |-> hs]
  ELSE LET x == Hand(state, Head(things)) IN HandAll(x.state, Tail(things), Append(hs, x.h))
ReturnThing(state, thing) == LET x == Hand(state, thing) IN Outcome(x.state, The(x.h))
ReturnThings(state, things) == LET x == HandAll(state, things, <<>>) IN Outcome(x.state, Things(x.hs))

Touched(state, n) == [state EXCEPT !.tc[n] = TRUE]
SourceOf(Q, n) == Q.T[n].src

(***************************************************************************)
(* Fetching an element as something.                                       *)
(***************************************************************************)
Fetched(Q, state, n, face) ==
  IF state.yd[n] = face THEN state
  ELSE [state EXCEPT !.yd[n] = face, !.rq[n] = state.rq[Q.up[n]]]

\* to_empty, to_field ... of an element
Convert(Q, state, n, face) ==
  LET report == UnexpectedType(Q.D, Q.locale, "expected_" \o face, <<>>, SourceOf(Q, n))
      fits == Fits(face, Q.T[n].ty)
  IN IF state.yd[n] \notin {"", face}
     THEN Outcome(state, IF fits THEN Refused(state.yd[n], face) ELSE RefusedOrInvalid(state.yd[n], face))
     ELSE IF ~fits THEN Outcome(state, Invalid_(report))
     ELSE ReturnThing(Fetched(Q, state, n, face), Thing(n, face))

Matching(Q, n, key) ==
  SelectSeq(Q.kids[n], LAMBDA m : key = <<>> \/ Q.D.ins[SourceOf(Q, m)].key = key[1])

\* Queries for one element: mode is "plain", "optional" or "required"
Ask(Q, state0, n, face, key, mode) ==
  LET state == Touched(state0, n)
      es == Matching(Q, n, key)
      sources == [i \in DOMAIN es |-> SourceOf(Q, es[i])]
      e == es[1]
  IN IF es = <<>>
     THEN IF mode = "required" \/ state.rq[n]
          THEN Outcome(state, Invalid_(MissingElement(Q.D, Q.locale, "missing_" \o face, key, SourceOf(Q, n))))
          ELSE IF mode = "plain" THEN ReturnThing(state, Placeholder(n, face, key, <<>>))
          ELSE Outcome(state, Nothing)
     ELSE IF Len(es) > 1
     THEN Outcome(state, Invalid_(UnexpectedMultiple(Q.D, Q.locale, "expected_single_" \o face, key, sources)))
     ELSE IF face \in {"element", "fieldset_entry"}
     THEN ReturnThing(state, Thing(e, IF face = "element" THEN "element" ELSE "entry"))
     ELSE IF ~Fits(face, Q.T[e].ty)
     THEN Outcome(state, Invalid_(UnexpectedType(Q.D, Q.locale, "expected_" \o face, key, sources[1])))
     ELSE Convert(Q, state, e, face)

\* Queries for all elements: the first that does not fit is an error, those before have been fetched
RECURSIVE AskEach(_, _, _, _, _, _)
AskEach(Q, state, es, face, key, got) ==
  IF es = <<>> THEN ReturnThings(state, got)
  ELSE LET e == Head(es) IN
       IF ~Fits(face, Q.T[e].ty)
       THEN Outcome(state, Invalid_(UnexpectedType(Q.D, Q.locale, "expected_" \o face \o "s", key, SourceOf(Q, e))))
       ELSE IF state.yd[e] \notin {"", face} THEN Outcome(state, Refused(state.yd[e], face))
       ELSE AskEach(Q, Fetched(Q, state, e, face), Tail(es), face, key, Append(got, Thing(e, face)))
AskAll(Q, state, n, face, key) ==
  LET es == Matching(Q, n, key) IN
  IF face = "element" THEN ReturnThings(Touched(state, n), [i \in DOMAIN es |-> Thing(es[i], "element")])
  ELSE AskEach(Q, Touched(state, n), es, face, key, <<>>)

Entries_(Q, state, n, key) ==
  LET es == Matching(Q, n, key) IN ReturnThings(Touched(state, n), [i \in DOMAIN es |-> Thing(es[i], "entry")])
Items_(Q, state, n) ==
  ReturnThings(Touched(state, n), [i \in DOMAIN Q.kids[n] |-> Thing(Q.kids[n][i], "item")])

(***************************************************************************)
(* Requiring all elements: for everything that was fetched below; what is  *)
(* fetched later gets it from above.                                       *)
(***************************************************************************)
RECURSIVE Require(_, _, _, _)
RECURSIVE RequireAll(_, _, _, _)
Require(Q, state, n, flag) ==
  LET own == [state EXCEPT !.rq[n] = flag]
  IN IF state.yd[n] = "section"
     THEN RequireAll(Q, own, SelectSeq(Q.kids[n], LAMBDA m : state.yd[m] \in {"section", "fieldset"}), flag)
     ELSE own
RequireAll(Q, state, es, flag) ==
  IF es = <<>> THEN state ELSE RequireAll(Q, Require(Q, state, Head(es), flag), Tail(es), flag)

(***************************************************************************)
(* Touching.                                                               *)
(***************************************************************************)
RECURSIVE TouchAll(_, _, _)
RECURSIVE TouchEach(_, _, _)
\* touch() of what n was fetched as; elements that were not fetched yet stay untouched
TouchAll(Q, state, n) ==
  IF Q.T[n].ty \in {"item", "entry"} THEN Touched(state, n)
  ELSE IF state.yd[n] = "" THEN state
  ELSE TouchEach(Q, Touched(state, n), Q.kids[n])
TouchEach(Q, state, es) == IF es = <<>> THEN state ELSE TouchEach(Q, TouchAll(Q, state, Head(es)), Tail(es))

IsUntouched(Q, state, n) ==
  ~state.tc[n] \/ (state.yd[n] = "" /\ ~(Q.T[n].ty \in {"item", "entry"}))
RECURSIVE UntouchedIn(_, _, _)
UntouchedIn(Q, state, n) ==   \* n itself or anything below
  (IF IsUntouched(Q, state, n) THEN {n} ELSE {})
  \cup UNION {UntouchedIn(Q, state, m) : m \in Range(Q.kids[n])}

\* message: how the text is given ("" default, "text" as such, "function" of the element); an empty text is the default
Description(Q, n) ==
  LET ty == Q.T[n].ty IN PrettyType(ty) \o (IF HasKey(ty) THEN "=" \o Str(Q.D.ins[SourceOf(Q, n)].key) ELSE "")
AssertAllTouched(Q, state, n, message, say, only, skip) ==
  LET checked == {m \in Range(Q.kids[n]) :
                    LET key == Q.D.ins[SourceOf(Q, m)].key
                    IN ~(key \in Range(skip)) /\ (only = <<>> \/ key \in Range(only))}
      untouched == UNION {UntouchedIn(Q, state, m) : m \in checked}
      text(m) == CASE message = "" -> <<>>
                   [] message = "text" -> IF say = "" THEN <<>> ELSE <<say>>
                   [] OTHER -> <<say \o ": " \o Description(Q, m)>>
  IN Outcome(state, IF untouched = {} THEN Nothing
                    ELSE AnyOf({UnexpectedElement(Q.D, Q.locale, text(m), SourceOf(Q, m)) : m \in untouched}))

(***************************************************************************)
(* Loaders, by name; say is what their errors say:                                                       *)
(*   ""       none, the string itself         "wrap"  what it was given    *)
(*   "none", "empty", "zero"   something falsy                             *)
(*   "reject" a ValueError    "crash" another exception                    *)
(*   "fussy"  a ValueError if it is given more than one character          *)
(***************************************************************************)
Rejects(loader, text) == loader = "reject" \/ (loader = "fussy" /\ Len(text) > 1)
Loaded(loader, text) ==
  CASE loader \in {"", "wrap", "fussy"} -> "=" \o Str(text)
    [] OTHER -> "!" \o loader
Heard_(loader, text) == IF loader = "" THEN <<>> ELSE <<Str(text)>>

\* A read of something optional with a loader, problem is the report for a message, missing that of its absence
Read(state, text, loader, required, missing, problem) ==
  IF text = <<>> THEN Outcome(state, IF required THEN Invalid_(missing) ELSE Nothing)
  ELSE Heard(Outcome(state, IF loader = "crash" THEN Crashed
                            ELSE IF Rejects(loader, text[1]) THEN Invalid_(problem)
                            ELSE One(Loaded(loader, text[1]))),
             Heard_(loader, text[1]))

ReadValue(Q, state, n, loader, say, required) ==
  LET e == SourceOf(Q, n) IN
  Read(Touched(state, n), Value(Q.D, e), loader, required,
       MissingValue(Q.D, Q.locale, e), ValueError(Q.D, Q.locale, say, e))

\* Reading key or comment of an element that was not fetched as anything is not touching it
TouchedAs(state, thing) == IF thing.face = "element" THEN state ELSE Touched(state, thing.n)
ReadComment(Q, state, thing, loader, say, required) ==
  LET e == SourceOf(Q, thing.n) IN
  Read(TouchedAs(state, thing), Comment(Q.D, e), loader, required,
       MissingComment(Q.D, Q.locale, e), CommentError(Q.D, Q.locale, say, e))
KeyOf(D, e) == IF e = 0 THEN <<>> ELSE IF D.ins[e].k = "item" THEN <<D.ins[D.ins[e].own].key>> ELSE <<D.ins[e].key>>
ReadKey(Q, state, thing, loader, say) ==
  LET e == SourceOf(Q, thing.n) IN
  Read(TouchedAs(state, thing), KeyOf(Q.D, e), loader, FALSE, <<>>,
       KeyError(Q.D, Q.locale, say, e))

\* The values of a list are read one by one until there is an error
RECURSIVE ReadValues(_, _, _, _, _, _, _, _)
ReadValues(Q, state, items, loader, say, required, got, heard) ==
  IF items = <<>> THEN Heard(Outcome(state, Texts(got)), heard)
  ELSE LET o == ReadValue(Q, state, Head(items), loader, say, required)
           h == heard \o o.calls
       IN CASE o.result.r = "text" -> ReadValues(Q, o.state, Tail(items), loader, say, required, Append(got, o.result.v), h)
            [] o.result.r = "none" -> ReadValues(Q, o.state, Tail(items), loader, say, required, Append(got, ""), h)
            [] OTHER -> Heard(Outcome(o.state, o.result), h)

(***************************************************************************)
(* Errors that are asked for; how is "text" or "function" (of the value,   *)
(* key, comment or element).                                               *)
(***************************************************************************)
BuildError(Q, thing, what, how, say) ==
  LET e == SourceOf(Q, thing.n)
      D == Q.D
      worded(of) == IF how = "text" THEN say ELSE say \o ": " \o of
  IN Built(CASE what = "error" -> ElementError(D, worded(Description(Q, thing.n)), e)
             [] what = "key_error" -> KeyError(D, Q.locale, worded(Opt(KeyOf(D, e))), e)
             [] what = "comment_error" -> CommentError(D, Q.locale, worded(Opt(Comment(D, e))), e)
             [] OTHER -> ValueError(D, Q.locale, worded(Opt(Value(D, e))), e))

\* The subtree of a node, relative to it
DumpOf(Q, n) ==
  LET last == Subtree(Q.T, n, n)
  IN [i \in 1 .. (last - n + 1) |->
       LET row == Row(Q.D, Q.T[n + i - 1]) IN [row EXCEPT !.d = @ - Q.T[n].d]]

(***************************************************************************)
(* What is printed of a thing (C24): its class, its key, and its value in  *)
(* short or how many things are in it.                                     *)
(***************************************************************************)
Short(text) == IF text = <<>> \/ text = <<<<>>>> THEN "None"
               ELSE IF Len(text[1]) > 14 THEN Str(SubSeq(text[1], 1, 11)) \o "..."
               ELSE Str(text[1])
ClassOf(face) ==
  CASE face = "element" -> "SectionElement" [] face = "empty" -> "Empty" [] face = "field" -> "Field"
    [] face = "fieldset" -> "Fieldset" [] face = "list" -> "List" [] face = "section" -> "Section"
    [] face = "item" -> "ListItem" [] OTHER -> "FieldsetEntry"
Printed(Q, thing) ==
  LET e == SourceOf(Q, thing.n)
      value == " value=" \o Short(Value(Q.D, e))
      count(of) == " " \o of \o "=" \o Num(Len(Q.kids[thing.n]))
      key == Str(Q.D.ins[e].key)
  IN "<class " \o ClassOf(thing.face)
     \o (CASE thing.face = "item" -> value
           [] thing.face \in {"field", "entry"} -> " key=" \o key \o value
           [] thing.face = "fieldset" -> " key=" \o key \o count("entries")
           [] thing.face = "list" -> " key=" \o key \o count("items")
           [] thing.face = "section" -> (IF e = 0 THEN " document" ELSE " key=\"" \o key \o "\"") \o count("elements")
           [] OTHER -> " key=" \o key)
     \o ">"
PrintedPlaceholder(thing) ==
  "<class Missing" \o ClassOf(thing.face)
  \o (IF thing.key \in {<<>>, <<<<>>>>} THEN "" ELSE " key=" \o Str(thing.key[1])) \o ">"
\* ... and of something that was looked up
PrintedElement(D, e) ==
  "<class Element key=" \o (LET key == KeyOf(D, e) IN IF key = <<>> THEN "None" ELSE Str(key[1])) \o ">"

ParentOf(Q, thing) ==
  LET p == Q.up[thing.n]
  IN Thing(p, CASE thing.face = "item" -> "list" [] thing.face = "entry" -> "fieldset" [] OTHER -> "section")

(***************************************************************************)
(* Placeholders (C12).                                                     *)
(***************************************************************************)
TopOf(thing) == IF thing.top = <<>> THEN [face |-> thing.face, key |-> thing.key] ELSE thing.top[1]
MissingTop(Q, thing) ==
  LET top == TopOf(thing)
  IN Invalid_(MissingElement(Q.D, Q.locale, "missing_" \o top.face, top.key, SourceOf(Q, thing.n)))
Below(thing, face, key) == Placeholder(thing.n, face, key, <<TopOf(thing)>>)
As(thing, face) == [thing EXCEPT !.face = face]

(***************************************************************************)
(* A call is [m: method, face, mode, key, loader, say, flag, only, skip].  *)
(* The methods are grouped as they are specified.                          *)
(***************************************************************************)
PlaceholderCall(Q, state, thing, call) ==
  CASE call.m = "ask" ->
         (CASE call.mode = "plain" -> ReturnThing(state, Below(thing, call.face, call.key))
            [] call.mode = "required" -> Outcome(state, MissingTop(Q, thing))
            [] OTHER -> Outcome(state, Nothing))
    [] call.m \in {"ask_all", "items"} -> Outcome(state, Things(<<>>))
    [] call.m = "to" -> ReturnThing(state, As(thing, call.face))
    [] call.m = "yields" -> Outcome(state, Bool(TRUE))
    [] call.m = "values" -> Outcome(state, Texts(<<>>))
    [] call.m \in {"value", "comment"} -> Outcome(state, IF call.mode = "required" THEN MissingTop(Q, thing) ELSE Nothing)
    [] call.m = "key" -> Outcome(state, MissingTop(Q, thing))
    [] call.m = "raw" -> Outcome(state, Nothing)
    [] call.m = "print" -> Outcome(state, One(PrintedPlaceholder(thing)))

ThingCall(Q, state, thing, call) ==
  LET n == thing.n IN
  CASE call.m = "ask" -> Ask(Q, state, n, call.face, call.key, call.mode)
    [] call.m = "ask_all" -> (IF call.face = "fieldset_entry" THEN Entries_(Q, state, n, call.key)
                              ELSE AskAll(Q, state, n, call.face, call.key))
    [] call.m = "items" -> Items_(Q, state, n)
    [] call.m = "length" -> Outcome(Touched(state, n), Count(Len(Q.kids[n])))
    [] call.m = "to" -> Convert(Q, state, n, call.face)
    [] call.m = "yields" -> Outcome(state, Bool(Fits(call.face, Q.T[n].ty)))
    [] call.m = "value" -> ReadValue(Q, state, n, call.loader, call.say, call.mode = "required")
    [] call.m = "values" -> ReadValues(Q, Touched(state, n), Q.kids[n], call.loader, call.say, call.mode = "required", <<>>, <<>>)
    [] call.m = "comment" -> ReadComment(Q, state, thing, call.loader, call.say, call.mode = "required")
    [] call.m = "key" -> ReadKey(Q, state, thing, call.loader, call.say)
    [] call.m = "parent" -> (IF n = 1 THEN Outcome(state, Nothing) ELSE ReturnThing(state, ParentOf(Q, thing)))
    [] call.m = "touch" -> Outcome(IF thing.face = "element" THEN TouchAll(Q, state, n)
                                   ELSE IF thing.face \in {"item", "entry"} THEN Touched(state, n)
                                   ELSE TouchAll(Q, state, n), Nothing)
    [] call.m = "require" -> Outcome(Require(Q, state, n, call.flag), Nothing)
    [] call.m = "assert" -> AssertAllTouched(Q, state, n, call.mode, call.say, call.only, call.skip)
    [] call.m = "build" -> Outcome(state, BuildError(Q, thing, call.face, call.mode, call.say))
    [] call.m = "raw" -> Outcome(state, Dump(DumpOf(Q, n)))
    [] call.m = "print" -> Outcome(state, One(Printed(Q, thing)))

Call(Q, state, h, call) ==
  LET thing == state.hs[h]
  IN IF thing.missing THEN PlaceholderCall(Q, state, thing, call) ELSE ThingCall(Q, state, thing, call)

(***************************************************************************)
(* What may be asked of a thing.                                           *)
(***************************************************************************)
CanAsk(thing) == CASE thing.face = "section" -> {"element"} \cup Faces
                   [] thing.face = "fieldset" -> {"fieldset_entry"}
                   [] OTHER -> {}

(***************************************************************************)
(* Design invariants and action properties.                                *)
(***************************************************************************)
QueryInv(Q, state) ==
  /\ \A n \in DOMAIN Q.T :
       \* what an element was fetched as fits its type
       /\ state.yd[n] # "" /\ n # 1 => Fits(state.yd[n], Q.T[n].ty)
       \* nothing is reached, fetched or touched before what it is in was queried
       /\ state.yd[n] # "" /\ n # 1 => state.tc[Q.up[n]]
       /\ state.tc[n] /\ n # 1 /\ state.yd[n] = "" => Q.T[n].ty \in {"item", "entry"}
       \* switches are only on for what can be queried
       /\ state.rq[n] => state.yd[n] # ""
  /\ \A h, g \in DOMAIN state.hs : h # g /\ ~state.hs[h].missing => state.hs[h] # state.hs[g]
  /\ \A h \in DOMAIN state.hs :
       ~state.hs[h].missing /\ state.hs[h].face \in Faces => state.yd[state.hs[h].n] = state.hs[h].face
\* Types are committed to once, touch marks stay
Monotone(state, next) ==
  /\ \A n \in DOMAIN state.yd : state.yd[n] # "" => next.yd[n] = state.yd[n]
  /\ \A n \in DOMAIN state.tc : state.tc[n] => next.tc[n]
  /\ SubSeq(next.hs, 1, Len(state.hs)) = state.hs
=============================================================================
