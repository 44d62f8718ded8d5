SPECIFICATION TSpec
INVARIANTS TypeOK
