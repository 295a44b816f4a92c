SPECIFICATION Spec
INVARIANTS Report Count Deep Honest OneLabel
PROPERTIES Ends
