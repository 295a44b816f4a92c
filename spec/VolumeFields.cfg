SPECIFICATION Spec
INVARIANTS Report Each Silent Own Whole
PROPERTIES Ends
