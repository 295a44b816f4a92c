SPECIFICATION Spec
INVARIANTS OnlyAllocated Weaker Report
