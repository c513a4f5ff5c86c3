CONSTANT Fine = 60
SPECIFICATION Spec
INVARIANTS NonNegative Support Normalised Gauss2DPeak
