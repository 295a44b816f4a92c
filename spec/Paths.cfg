SPECIFICATION Spec
INVARIANTS Bounded OnePerName Anchored Report
