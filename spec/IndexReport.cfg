SPECIFICATION Spec
INVARIANTS Report Attributed
PROPERTIES Ends Grows
