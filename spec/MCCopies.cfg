SPECIFICATION Spec
CONSTANT Length = 4
CONSTANT LineSet <- CopyLines
INVARIANT ConfluenceInv
INVARIANT StuckInv
INVARIANT ResolvedInv
INVARIANT NonSectionCopyInv
INVARIANT SectionCopyInv
INVARIANT DeepInv
INVARIANT TemplateInv
INVARIANT ErrorInv
INVARIANT CopyReportInv
CHECK_DEADLOCK FALSE
