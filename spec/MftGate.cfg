SPECIFICATION Spec
INVARIANTS Gate Report
