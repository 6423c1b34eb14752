SPECIFICATION ISpec
INVARIANT Reported
PROPERTY Ends
