SPECIFICATION Spec
INVARIANTS Report Count Grounded Kept
PROPERTIES Ends
