SPECIFICATION Spec
INVARIANTS Prefix Whole Report
