SPECIFICATION Spec
INVARIANTS Inside Best Sorted FourBest Ends
PROPERTIES Narrower Ends1
