SPECIFICATION Spec
INVARIANTS Report TypeOK Serves Complete
PROPERTIES Ends
