SPECIFICATION Spec
INVARIANTS Covers NoGap Report
