SPECIFICATION Spec
INVARIANTS Report Chained Within
PROPERTIES Ends
