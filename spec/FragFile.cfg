SPECIFICATION Spec
INVARIANTS NonNegative InsideFile NeverLonger PositionsAddUp Report
