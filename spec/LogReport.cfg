SPECIFICATION Spec
INVARIANTS Report EachOnce Valid Known
PROPERTIES Ends
