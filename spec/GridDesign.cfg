CONSTANTS MaxDim = 3
 Lens = {2, 3}
SPECIFICATION DSpec
INVARIANTS Volume Multilinear Fubini
