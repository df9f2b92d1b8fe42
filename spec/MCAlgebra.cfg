SPECIFICATION ASpec
CONSTANT Steps = 1
CONSTANT Shapes <- QuickShapes
INVARIANTS RingLaws RectLaws EchelonLaws PleLaws PleTight PermLaws TrsmLaws InverseLaws WindowLaws
CHECK_DEADLOCK FALSE
