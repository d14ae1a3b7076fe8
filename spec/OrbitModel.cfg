SPECIFICATION Spec
INVARIANTS EnergyKept MomentumKept ShapeKept Symmetric Smooth Frame
