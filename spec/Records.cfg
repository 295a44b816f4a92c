SPECIFICATION Spec
INVARIANTS Report Each Whole Local
PROPERTIES Ends
