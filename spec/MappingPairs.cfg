SPECIFICATION Spec
INVARIANTS Positive OnlyFirst0 Bounded Terminated Tiled HoleNeutral Report
