SPECIFICATION Spec
INVARIANTS Report Calendar Back
PROPERTIES Ends
