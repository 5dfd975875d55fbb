----------------------------- MODULE EnoDocument -----------------------------
(***************************************************************************)
(* What a parsed document contains: values (C05, C06), comments (C07) and  *)
(* the elements of each section with everything that was copied (C08, C09).*)
(*                                                                         *)
(* D is a record with the lines ln, the instructions ins and the           *)
(* resolution res of a document.                                           *)
(***************************************************************************)
EXTENDS EnoResolution

(***************************************************************************)
(* Values. They are optional: <<>> or <<text>>.                            *)
(***************************************************************************)
OwnText(tok) == IF tok.vr = <<>> THEN <<>> ELSE <<tok.val>>

\* value so far, is there a space to be put before what follows
RECURSIVE Continue(_, _, _, _)
Continue(I, conts, v, space) ==
  IF conts = <<>> THEN v
  ELSE LET c == I[Head(conts)]
           spaced == c.k = "spaced"
       IN IF v = <<>> THEN Continue(I, Tail(conts), OwnText(c), FALSE)
          ELSE IF c.vr = <<>> THEN Continue(I, Tail(conts), v, space \/ spaced)
          ELSE Continue(I, Tail(conts), <<v[1] \o (IF spaced \/ space THEN <<" ">> ELSE <<>>) \o c.val>>, FALSE)
OwnValue(D, e) ==
  IF D.ins[e].k = "ml"
  THEN LET b == Body(D.ins, e) IN IF b = <<>> THEN <<>> ELSE <<JoinLines([i \in DOMAIN b |-> D.ln[b[i]]])>>
  ELSE Continue(D.ins, Continuations(D.ins, e), OwnText(D.ins[e]), FALSE)

IsMirror(D, e) == D.res.ref[e] # <<>> /\ D.res.ref[e][1] = "mirror"
IsExtension(D, e) == D.res.ref[e] # <<>> /\ D.res.ref[e][1] = "extend"
Source(D, e) == D.res.ref[e][2]

RECURSIVE Value(_, _)
Value(D, e) == IF IsMirror(D, e) THEN Value(D, Source(D, e)) ELSE OwnValue(D, e)

(***************************************************************************)
(* Comments, optional as well.                                             *)
(***************************************************************************)
CommentText(D, coms) ==
  LET I == D.ins
      used == SelectSeq(UpTo(Len(coms)), LAMBDA i : I[coms[i]].vr # <<>>)
      indent == Min({I[coms[used[i]]].vr[1] : i \in DOMAIN used})
      line(c) == IF I[c].vr = <<>> THEN <<>> ELSE Spaces(I[c].vr[1] - indent) \o I[c].val
  IN IF used = <<>> THEN <<>>
     ELSE LET kept == SubSeq(coms, used[1], Last(used)) IN <<JoinLines([i \in DOMAIN kept |-> line(kept[i])])>>
Comment(D, e) == IF e = 0 THEN <<>> ELSE CommentText(D, D.res.com[e])

(***************************************************************************)
(* Content including what is copied.                                       *)
(***************************************************************************)
KeysOf(D, es) == {D.ins[es[i]].key : i \in DOMAIN es}
Override(D, copied, own) == SelectSeq(copied, LAMBDA e : ~(D.ins[e].key \in KeysOf(D, own))) \o own

RECURSIVE AllItems(_, _)
AllItems(D, e) ==
  IF IsMirror(D, e) THEN AllItems(D, Source(D, e))
  ELSE (IF IsExtension(D, e) THEN AllItems(D, Source(D, e)) ELSE <<>>) \o Items(D.ins, e)
RECURSIVE AllEntries(_, _)
AllEntries(D, e) ==
  IF IsMirror(D, e) THEN AllEntries(D, Source(D, e))
  ELSE Override(D, IF IsExtension(D, e) THEN AllEntries(D, Source(D, e)) ELSE <<>>, Entries(D.ins, e))
RECURSIVE AllElements(_, _)
AllElements(D, s) ==
  IF s = 0 THEN Elements(D.ins, 0)
  ELSE IF IsMirror(D, s) THEN AllElements(D, Source(D, s))
  ELSE Override(D, IF IsExtension(D, s) THEN AllElements(D, Source(D, s)) ELSE <<>>, Elements(D.ins, s))

(***************************************************************************)
(* The whole tree, depth first, as a sequence of nodes                     *)
(*   [d: depth, ty: type, src: line it is written in]                      *)
(* The first node is the document.  An element that is copied to several   *)
(* places has as many nodes.                                               *)
(***************************************************************************)
TypeOf(D, e) ==
  IF D.ins[e].k = "item" THEN "item"
  ELSE IF D.ins[e].k = "entry" THEN "entry"
  ELSE D.res.ty[e]
PartsOf(D, e) ==
  CASE TypeOf(D, e) = "section" -> AllElements(D, e)
    [] TypeOf(D, e) = "list" -> AllItems(D, e)
    [] TypeOf(D, e) = "fieldset" -> AllEntries(D, e)
    [] OTHER -> <<>>

RECURSIVE NodesOf(_, _, _)
\* the nodes for the members of es at depth d
RECURSIVE NodesFor(_, _, _)
NodesOf(D, e, d) ==
  <<[d |-> d, ty |-> TypeOf(D, e), src |-> e]>> \o NodesFor(D, PartsOf(D, e), d + 1)
NodesFor(D, es, d) == Concat([i \in DOMAIN es |-> NodesOf(D, es[i], d)])
Tree(D) == <<[d |-> 0, ty |-> "document", src |-> 0]>> \o NodesFor(D, AllElements(D, 0), 1)

Parent(T, n) == IF n = 1 THEN 0 ELSE Max({m \in 1 .. (n - 1) : T[m].d = T[n].d - 1})
RECURSIVE Subtree(_, _, _)   \* the last node below n
Subtree(T, n, m) == IF m < Len(T) /\ T[m + 1].d > T[n].d THEN Subtree(T, n, m + 1) ELSE m
Children(T, n) ==
  LET last == Subtree(T, n, n)
  IN SelectSeq([i \in 1 .. (last - n) |-> n + i], LAMBDA m : T[m].d = T[n].d + 1)

(***************************************************************************)
(* The tree as the implementation is asked for it.  "" is an absent thing, *)
(* present ones are preceded by "=".                                       *)
(***************************************************************************)
PrettyType(ty) == CASE ty = "empty" -> "empty_element"
                    [] ty = "mlfield" -> "field"
                    [] ty = "item" -> "list_item"
                    [] ty = "entry" -> "fieldset_entry"
                    [] OTHER -> ty
Opt(o) == IF o = <<>> THEN "" ELSE "=" \o Str(o[1])
HasKey(ty) == ~(ty \in {"document", "item"})
HasValue(ty) == ty \in {"field", "mlfield", "item", "entry"}
Row(D, n) ==
  [d |-> n.d, ty |-> PrettyType(n.ty),
   key |-> IF HasKey(n.ty) THEN "=" \o Str(D.ins[n.src].key) ELSE "",
   val |-> IF HasValue(n.ty) THEN Opt(Value(D, n.src)) ELSE "",
   com |-> Opt(Comment(D, n.src))]
Rows(D) == LET T == Tree(D) IN [i \in DOMAIN T |-> Row(D, T[i])]
=============================================================================
