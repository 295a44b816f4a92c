SPECIFICATION Spec
INVARIANTS Report Preferred Chained Within
PROPERTIES Ends
