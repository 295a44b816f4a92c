SPECIFICATION Spec
INVARIANTS Report Correct Unused
