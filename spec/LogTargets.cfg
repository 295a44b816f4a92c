SPECIFICATION Spec
INVARIANTS Report Grounded Latest SameCheckpoint
