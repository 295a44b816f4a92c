SPECIFICATION Spec
INVARIANTS Report Ordered Agreed Complete
PROPERTIES Ends
