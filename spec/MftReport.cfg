SPECIFICATION Spec
INVARIANTS Report EachRecord Grouped
PROPERTIES Ends
