---------------------------- MODULE EnoResolution ----------------------------
(***************************************************************************)
(* The resolver: how copies find their templates, in which order they may  *)
(* be resolved and what they get from their templates (properties C08 to   *)
(* C10).                                                                   *)
(*                                                                         *)
(* A resolution is a record over the instructions I of an analysis         *)
(*   ty, com   the types of elements and the lines of their comments, by   *)
(*             line, initially those of the instructions                   *)
(*   ref       by line, <<"mirror", t>> (a copy without own content), or   *)
(*             <<"extend", t>> (its content comes before the own), or <<>> *)
(*   todo      the copies not resolved yet                                 *)
(*   merged    pairs <<s, t>> of sections that were consolidated           *)
(*   errs      the errors found                                            *)
(* Any copy that does not wait for another one may be resolved next; the   *)
(* implementation picks one particular order.  TLC checks that the order   *)
(* does not matter (ResolutionMC).                                         *)
(***************************************************************************)
EXTENDS EnoAnalysis

IsCopy(I, j) == I[j].tr # <<>>
Copies(I) == {j \in DOMAIN I : IsCopy(I, j)}
IsSection(I, j) == I[j].k = "section"

\* An element that copies from its own key can't be meant by that key
Candidates(I, j) ==
  {c \in DOMAIN I : /\ I[c].k \in ElementKinds
                    /\ IsSection(I, c) = IsSection(I, j)
                    /\ I[c].key = I[j].tm
                    /\ ~(IsCopy(I, c) /\ I[c].key = I[c].tm)}
Template(I, j) == CHOOSE c \in Candidates(I, j) : TRUE

\* The order in which the implementation indexes elements: sections after their content
RECURSIVE PostOrder(_, _)
PostOrder(I, s) ==
  LET es == Elements(I, s)
  IN Concat([i \in DOMAIN es |-> IF IsSection(I, es[i]) THEN PostOrder(I, es[i]) \o <<es[i]>> ELSE <<es[i]>>])

(***************************************************************************)
(* Copy errors. line is reported, ind are lines to indicate, quest lines   *)
(* to question.                                                            *)
(***************************************************************************)
CopyError(kind, line, ind, quest) == [kind |-> kind, line |-> line, ind |-> ind, quest |-> quest]

\* The first copy that asks for the same template as j
FirstTarget(I, j) == Min({c \in Copies(I) : IsSection(I, c) = IsSection(I, j) /\ I[c].tm = I[j].tm})

AmbiguousErrors(I) ==
  LET order == PostOrder(I, 0)
      twoOf(j) == SubSeq(SelectSeq(order, LAMBDA c : c \in Candidates(I, j)), 1, 2)
  IN {CopyError("two_or_more_templates_found", FirstTarget(I, j), {}, Range(twoOf(j)))
      : j \in {c \in Copies(I) : Cardinality(Candidates(I, c)) > 1}}

NotFoundErrors(I) ==
  {CopyError(IF IsSection(I, j) THEN "section_not_found" ELSE "non_section_element_not_found", FirstTarget(I, j), {}, {})
   : j \in {c \in Copies(I) : Candidates(I, c) = {}}}

(***************************************************************************)
(* Who waits for whom.                                                     *)
(***************************************************************************)
Subsections(I, s) == SelectSeq(Elements(I, s), LAMBDA e : IsSection(I, e))
UnresolvedIn(I, todo, s) == \E j \in todo : IsSection(I, j) /\ s \in Within(I, j)   \* s itself or below
WaitsFor(I, todo, j) ==
  IF IsSection(I, j)
  THEN {c \in Range(Subsections(I, j)) : UnresolvedIn(I, todo, c)}
       \cup (IF j \in todo THEN {t \in Candidates(I, j) : UnresolvedIn(I, todo, t)} ELSE {})
  ELSE IF j \in todo THEN Candidates(I, j) \cap todo ELSE {}
Ready(I, todo) == {j \in todo : WaitsFor(I, todo, j) = {}}

\* All simple cycles in the graph of who waits for whom, each as the set of its members
RECURSIVE CyclesVia(_, _, _)
CyclesVia(I, todo, path) ==
  UNION {IF n = path[1] THEN {Range(path)}
         ELSE IF n \in Range(path) \/ n < path[1] THEN {}
         ELSE CyclesVia(I, todo, Append(path, n)) : n \in WaitsFor(I, todo, Last(path))}
Cycles(I, todo) == UNION {CyclesVia(I, todo, <<j>>) : j \in {e \in DOMAIN I : I[e].k \in ElementKinds}}

CyclicErrors(I, todo) ==
  {CopyError("cyclic_dependency", cj[2], cj[1] \ {cj[2]}, {})
   : cj \in UNION {{<<c, j>> : j \in {m \in c : IsCopy(I, m)}} : c \in Cycles(I, todo)}}

(***************************************************************************)
(* Consolidation of an element with its (resolved) template.               *)
(***************************************************************************)
Unresolved(I) == [ty |-> [j \in DOMAIN I |-> I[j].ty], com |-> [j \in DOMAIN I |-> I[j].com],
                  ref |-> [j \in DOMAIN I |-> <<>>], todo |-> Copies(I), merged |-> <<>>, errs |-> {}]

Inherit(r, e, t) == IF r.com[e] = <<>> THEN [r EXCEPT !.com[e] = r.com[t]] ELSE r
Mirror(r, t) == IF r.ref[t] # <<>> /\ r.ref[t][1] = "mirror" THEN r.ref[t] ELSE <<"mirror", t>>

ConsolidateElement(I, r0, e, t) ==
  LET r == [Inherit(r0, e, t) EXCEPT !.todo = @ \ {e}]
      type == IF r.ty[t] = "mlfield" THEN "field" ELSE r.ty[t]
      mismatch(kind, first) == [r EXCEPT !.errs = @ \cup {CopyError(kind, first, {}, {})}]
  IN CASE type = "empty" -> r
       [] r.ty[e] = "empty" -> [r EXCEPT !.ty[e] = type, !.ref[e] = Mirror(r, t)]
       [] r.ty[e] = type -> [r EXCEPT !.ref[e] = <<"extend", t>>]
       [] r.ty[e] = "fieldset" -> mismatch("missing_fieldset_for_fieldset_entry", Entries(I, e)[1])
       [] OTHER -> mismatch("missing_list_for_list_item", Items(I, e)[1])

WithKey(I, es, key) == SelectSeq(es, LAMBDA e : I[e].key = key)
\* Deep copies merge the subsections that are the only element with their key on both sides
MergePairs(I, s, t) ==
  LET own == SelectSeq(Elements(I, s),
        LAMBDA e : /\ IsSection(I, e)
                   /\ Len(WithKey(I, Elements(I, s), I[e].key)) = 1
                   /\ LET c == WithKey(I, Elements(I, t), I[e].key) IN Len(c) = 1 /\ IsSection(I, c[1]))
  IN [i \in DOMAIN own |-> <<own[i], WithKey(I, Elements(I, t), I[own[i]].key)[1]>>]

\* How one gets from section o to section d by copies and containment (<<>>: not at all)
RECURSIVE Route(_, _, _, _)
Route(I, r, o, d) ==
  IF o = d THEN <<d>>
  ELSE LET next == (IF r.ref[o] = <<>> THEN <<>> ELSE <<r.ref[o][2]>>) \o Subsections(I, o)
           routes == SelectSeq([i \in DOMAIN next |-> Route(I, r, next[i], d)], LAMBDA p : p # <<>>)
       IN IF routes = <<>> THEN <<>> ELSE <<o>> \o routes[1]

RECURSIVE ConsolidateSection(_, _, _, _, _)
RECURSIVE ConsolidatePairs(_, _, _)
ConsolidatePairs(I, r, pairs) ==
  IF pairs = <<>> THEN r
  ELSE ConsolidatePairs(I, ConsolidateSection(I, r, Head(pairs)[1], Head(pairs)[2], TRUE), Tail(pairs))
ConsolidateSection(I, r0, s, t, deep) ==
  LET route == Route(I, r0, t, s)
      chain == <<s>> \o SubSeq(route, 1, Len(route) - 1)
      copies == SelectSeq(chain, LAMBDA c : IsCopy(I, c))
      copy == IF IsCopy(I, Last(chain)) THEN Last(chain) ELSE copies[1]
      r == [Inherit(r0, s, t) EXCEPT !.merged = Append(@, <<s, t>>)]
  IN IF route # <<>>
     THEN [r0 EXCEPT !.errs = @ \cup {CopyError("cyclic_dependency", copy, Range(chain) \ {copy}, {})}]
     ELSE IF Elements(I, s) = <<>> THEN [r EXCEPT !.ref[s] = Mirror(r, t)]
     ELSE LET e == [r EXCEPT !.ref[s] = <<"extend", t>>]
          IN IF deep THEN ConsolidatePairs(I, e, MergePairs(I, s, t)) ELSE e

(***************************************************************************)
(* The actions.                                                            *)
(***************************************************************************)
\* Ambiguous and missing templates are found before anything is resolved
Indexed(I) ==
  LET r == Unresolved(I)
      a == AmbiguousErrors(I)
      n == NotFoundErrors(I)
  IN IF a # {} THEN [r EXCEPT !.errs = a, !.todo = {}]
     \* what does not depend on a missing template may be found wrong as well
     ELSE [r EXCEPT !.errs = n, !.todo = @ \ {j \in Copies(I) : Candidates(I, j) = {}}]

ResolveElement(I, r, j) == ConsolidateElement(I, r, j, Template(I, j))
ResolveSection(I, r, j) == [ConsolidateSection(I, r, j, Template(I, j), I[j].deep) EXCEPT !.todo = @ \ {j}]
ResolveOne(I, r, j) == IF IsSection(I, j) THEN ResolveSection(I, r, j) ELSE ResolveElement(I, r, j)

\* Nothing can be resolved any more although something should be
Stuck(I, r) == r.todo # {} /\ Ready(I, r.todo) = {}
GiveUp(I, r) == [r EXCEPT !.errs = @ \cup CyclicErrors(I, r.todo), !.todo = {}]

RECURSIVE ResolveAll(_, _)
ResolveAll(I, r) ==
  IF r.todo = {} THEN r
  ELSE IF Stuck(I, r) THEN GiveUp(I, r)
  ELSE ResolveAll(I, ResolveOne(I, r, Min(Ready(I, r.todo))))

Resolved(I) == IF Copies(I) = {} THEN Unresolved(I) ELSE ResolveAll(I, Indexed(I))

(***************************************************************************)
(* A known deviation of the implementation (see DESIGN.md, finding P1): a  *)
(* section that gets a second template, by being merged implicitly in      *)
(* addition to its own copy, loses the content of the first one: ref has   *)
(* room for one template only. This is what the implementation does, and   *)
(* what traces are judged by; the properties are not claimed for it.       *)
(***************************************************************************)
TwoTemplates(r) == \E i, j \in DOMAIN r.merged : i < j /\ r.merged[i][1] = r.merged[j][1]
=============================================================================
