SPECIFICATION Spec
INVARIANTS Report Trusted Primary Once Each
PROPERTIES Ends
