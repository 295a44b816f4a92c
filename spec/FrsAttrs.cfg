SPECIFICATION Spec
INVARIANTS InBounds Advances Report
