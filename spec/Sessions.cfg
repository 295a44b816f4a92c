SPECIFICATION Spec
INVARIANTS Report Intact OnlyRead SameAnswer
PROPERTIES Ends
