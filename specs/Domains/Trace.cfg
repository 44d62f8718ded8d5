SPECIFICATION TSpec
INVARIANTS SplitOK NumberedOK
