SPECIFICATION Spec
INVARIANTS Report Past
PROPERTIES Frozen
