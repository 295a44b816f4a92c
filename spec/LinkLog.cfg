SPECIFICATION Spec
INVARIANTS Report Exact
PROPERTIES Ends
