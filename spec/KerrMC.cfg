SPECIFICATION MCSpec
INVARIANTS InverseMetric Volume Divergence Signs EnergyDensity GradientSquare KnownSolutions
