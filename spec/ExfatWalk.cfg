SPECIFICATION Spec
INVARIANTS Report Depth Honest Complete
PROPERTIES Ends
