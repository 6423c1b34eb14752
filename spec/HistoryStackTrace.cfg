SPECIFICATION TSpec
INVARIANT Bounded
