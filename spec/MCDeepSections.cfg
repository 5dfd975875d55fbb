SPECIFICATION Spec
CONSTANT Length = 5
CONSTANT LineSet <- DeepLines
INVARIANT ConfluenceInv
INVARIANT StuckInv
INVARIANT ResolvedInv
INVARIANT NonSectionCopyInv
INVARIANT SectionCopyInv
INVARIANT DeepInv
INVARIANT TemplateInv
INVARIANT ErrorInv
INVARIANT CopyReportInv
CHECK_DEADLOCK FALSE
