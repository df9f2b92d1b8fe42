SPECIFICATION Spec
CONSTANT MaxDeg = 5
INVARIANTS Closed Commutes Associates Distributes Unit NoZeroDivisors Inverses Frobenius Division Count Factors
CHECK_DEADLOCK FALSE
