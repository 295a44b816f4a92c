SPECIFICATION Spec
INVARIANTS Report Coherent Count Grounded
