SPECIFICATION Spec
INVARIANTS InItsShell GoesRound Speed DAlembert Apsides SameWay Laplace Derivative KeplersThird Hyperion Orthonormal OneRockEach
CHECK_DEADLOCK FALSE
