CONSTANTS Depth = 3
SPECIFICATION Spec
INVARIANTS Unmodified OnlyExtra WritesWhatItGets
