SPECIFICATION Spec
INVARIANTS NoOverlap Aligned Report
PROPERTY Advances
