SPECIFICATION Spec
INVARIANTS Report Counted
PROPERTIES Ends
