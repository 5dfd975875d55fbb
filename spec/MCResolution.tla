----------------------------- MODULE MCResolution -----------------------------
(***************************************************************************)
(* All documents of up to Length lines from an alphabet of lines with      *)
(* copies, resolved in every possible order (properties C08 to C10).       *)
(***************************************************************************)
EXTENDS EnoReports, Alphabets, TLC, Json

CONSTANTS Length, LineSet
VARIABLES a,      \* the analysis
          pc,     \* "write", "resolve" or "done"
          r       \* the resolution
vars == <<a, pc, r>>

I == a.ins
Nothing == Unresolved(<<>>)
Init == a = EmptyAnalysis /\ pc = "write" /\ r = Nothing

Write(l) == /\ pc = "write" /\ Running(a) /\ Len(a.ln) < Length
            /\ a' = Step(a, l) /\ UNCHANGED <<pc, r>>
Begin == /\ pc = "write" /\ Finish(a).err.kind = "" /\ Copies(I) # {}
         /\ pc' = "resolve" /\ r' = Indexed(I) /\ UNCHANGED a
ResolveAnElement(j) == /\ pc = "resolve" /\ ~IsSection(I, j) /\ r' = ResolveElement(I, r, j) /\ UNCHANGED <<a, pc>>
ResolveASection(j) == /\ pc = "resolve" /\ IsSection(I, j) /\ r' = ResolveSection(I, r, j) /\ UNCHANGED <<a, pc>>
StopStuck == /\ pc = "resolve" /\ Stuck(I, r) /\ r' = GiveUp(I, r) /\ UNCHANGED <<a, pc>>
End == pc = "resolve" /\ r.todo = {} /\ pc' = "done" /\ UNCHANGED <<a, r>>
Next == \/ \E l \in LineSet : Write(l)
        \/ Begin \/ StopStuck \/ End
        \/ pc = "resolve" /\ \E j \in Ready(I, r.todo) : ResolveAnElement(j) \/ ResolveASection(j)
\* Only documents that are to be resolved, printed to be read by the implementation
GenNext == (\E l \in LineSet : Write(l)) \/ Begin
EmitCopies == pc' = "resolve" => PrintT("LINES " \o ToJson(a.ln))
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ StopStuck \/ End \/ (pc = "resolve" /\ \E j \in Ready(I, r.todo) : ResolveAnElement(j) \/ ResolveASection(j)))

D == [ln |-> a.ln, ins |-> a.ins, err |-> a.err, res |-> r]
Good == pc = "done" /\ r.errs = {} /\ ~TwoTemplates(r)

\* The order does not matter
ConfluenceInv ==
  pc = "done" =>
    LET x == ResolveAll(I, Indexed(I)) IN
    /\ (x.errs = {}) = (r.errs = {})
    /\ Good => ~TwoTemplates(x) /\ Rows(D) = Rows([D EXCEPT !.res = x])
\* When nothing can be resolved any more there is a cycle that can be shown
StuckInv == pc = "resolve" /\ Stuck(I, r) => CyclicErrors(I, r.todo) # {}
\* Without errors everything is resolved
ResolvedInv ==
  Good => \A j \in Copies(I) : r.ref[j] # <<>> \/ (r.ty[j] = "empty" /\ r.ty[Template(I, j)] = "empty")
                                \/ (~IsSection(I, j) /\ r.ty[Template(I, j)] = "empty")
\* The content of copies, stated once more by what it looks like
IsSubsequence(s, t) ==
  \E f \in [DOMAIN s -> DOMAIN t] : (\A i \in DOMAIN s : t[f[i]] = s[i]) /\ (\A i, j \in DOMAIN s : i < j => f[i] < f[j])
SameValue(e, t) == Value(D, e) = Value(D, t)
NonSectionCopyInv ==
  Good => \A e \in Copies(I) : ~IsSection(I, e) =>
    LET t == Template(I, e)
        ty == IF r.ty[t] = "mlfield" THEN "field" ELSE r.ty[t]
        own == Items(I, e) = <<>> /\ Entries(I, e) = <<>>
    IN /\ own => r.ty[e] = ty
       /\ r.ty[e] = "field" => SameValue(e, t)
       /\ r.ty[e] = "list" => AllItems(D, e) = (IF r.ty[t] = "list" THEN AllItems(D, t) ELSE <<>>) \o Items(I, e)
       /\ r.ty[e] = "fieldset" =>
            LET from == IF r.ty[t] = "fieldset" THEN AllEntries(D, t) ELSE <<>>
                all == AllEntries(D, e)
            IN /\ Range(all) = Range(Entries(I, e)) \cup {x \in Range(from) : ~\E y \in Range(Entries(I, e)) : I[y].key = I[x].key}
               /\ IsSubsequence(Entries(I, e), all)
               /\ \A x \in Range(from) \cap Range(all) : \A y \in Range(Entries(I, e)) :
                    Min({i \in DOMAIN all : all[i] = x}) < Min({i \in DOMAIN all : all[i] = y})
       /\ I[e].com = <<>> => Comment(D, e) = Comment(D, t)
       /\ I[e].com # <<>> => r.com[e] = I[e].com
SectionCopyInv ==
  Good => \A k \in DOMAIN r.merged :
    LET s == r.merged[k][1]
        t == r.merged[k][2]
        all == AllElements(D, s)
        from == AllElements(D, t)
    IN /\ KeysOf(D, all) = KeysOf(D, from) \cup KeysOf(D, Elements(I, s))
       /\ \A key \in KeysOf(D, all) :
            WithKey(I, all, key) = (IF key \in KeysOf(D, Elements(I, s)) THEN WithKey(I, Elements(I, s), key)
                                    ELSE WithKey(I, from, key))
       /\ all = SubSeq(all, 1, Len(all) - Len(Elements(I, s))) \o Elements(I, s)
\* Deep copies merge pairs of subsections, shallow ones do not
DeepInv ==
  Good => \A s \in Copies(I) : IsSection(I, s) =>
    LET t == Template(I, s)
        pairs == {<<p[1], p[2]>> : p \in Range(MergePairs(I, s, t))}
    IN I[s].deep => pairs \subseteq Range(r.merged)
\* Templates that are not copies themselves stay as they are written
TemplateInv ==
  Good => \A t \in DOMAIN I :
    I[t].k \in ElementKinds /\ ~IsCopy(I, t) /\ ~(\E k \in DOMAIN r.merged : r.merged[k][1] = t) =>
      /\ r.ty[t] = I[t].ty /\ r.com[t] = I[t].com /\ r.ref[t] = <<>>
\* Errors are about what they say
ErrorInv ==
  pc = "done" => \A e \in r.errs :
    LET j == e.line IN
    CASE e.kind = "two_or_more_templates_found" -> IsCopy(I, j) /\ Cardinality(Candidates(I, j)) > 1 /\ Cardinality(e.quest) = 2
      [] e.kind \in {"section_not_found", "non_section_element_not_found"} -> IsCopy(I, j) /\ Candidates(I, j) = {}
      [] e.kind = "cyclic_dependency" -> IsCopy(I, j) /\ ~(j \in e.ind)
      [] e.kind = "missing_list_for_list_item" -> I[j].k = "item" /\ I[I[j].own].k = "copy"
      [] e.kind = "missing_fieldset_for_fieldset_entry" -> I[j].k = "entry" /\ I[I[j].own].k = "copy"
CopyReportInv == pc = "done" => \A x \in ParseReports(D, "en") : ReportInv(D, x)
\* Every resolution comes to an end
Terminates == (pc = "resolve") ~> (pc = "done")
=============================================================================
