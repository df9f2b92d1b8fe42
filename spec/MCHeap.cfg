SPECIFICATION HSpec
VIEW HeapView
CONSTANT Full = FALSE
INVARIANT HTypeOK
PROPERTIES Frame Carry KeepsRank
CHECK_DEADLOCK FALSE
