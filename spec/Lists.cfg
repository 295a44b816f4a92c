SPECIFICATION Spec
INVARIANTS Bounded Report
PROPERTY Progress
