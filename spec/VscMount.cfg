SPECIFICATION Spec
INVARIANTS Report AsThen Refused Within
PROPERTY Fixed
