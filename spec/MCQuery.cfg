SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Which = {1, 2, 3, 4, 5}
CONSTANT Methods = {"ask", "ask_all", "items", "length", "to", "yields", "value", "values", "comment", "key", "parent", "touch", "require", "assert", "build", "raw"}
CONSTANT Focus = {}
VIEW InvView
CONSTRAINT Few
INVARIANT Inv
INVARIANT ResultInv
INVARIANT RequireInv
PROPERTY MonotoneProp
PROPERTY PureProp
PROPERTY LocalProp
CHECK_DEADLOCK FALSE
