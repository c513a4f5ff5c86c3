CONSTANT Fine = 600
SPECIFICATION Spec
INVARIANTS NonNegative Support Normalised Gauss2DPeak
