SPECIFICATION Spec
INVARIANTS Report Sound Durable LastDurable NotReused
