SPECIFICATION Spec
INVARIANTS NoTornData Restored IntactAccepted Report
