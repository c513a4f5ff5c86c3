CONSTANTS Depth = 2
SPECIFICATION Spec
INVARIANTS Unmodified OnlyExtra WritesWhatItGets
