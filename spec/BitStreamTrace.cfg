SPECIFICATION TSpec
INVARIANT Inv
