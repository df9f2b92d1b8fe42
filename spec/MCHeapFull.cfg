SPECIFICATION HSpec
VIEW HeapView
CONSTANT Full = TRUE
INVARIANT HTypeOK
PROPERTIES Frame Carry KeepsRank
CHECK_DEADLOCK FALSE
