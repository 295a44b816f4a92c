SPECIFICATION Spec
INVARIANTS Inside Report
