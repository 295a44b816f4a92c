SPECIFICATION Spec
INVARIANTS Report EachOnce NotReused
PROPERTIES Ends
