INIT Init
NEXT Next
INVARIANTS PacksTo Columns UnpacksTo NotOther
