SPECIFICATION Spec
INVARIANT Report SaneNames PartOnlyWhenAsked
PROPERTY Forward
