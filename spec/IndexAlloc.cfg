SPECIFICATION Spec
INVARIANTS Intact InOrder Report
