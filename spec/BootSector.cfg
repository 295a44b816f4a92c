SPECIFICATION Spec
INVARIANTS SectorSize NonZero Report
