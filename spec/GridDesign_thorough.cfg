CONSTANTS MaxDim = 3
 Lens = {2, 3, 4}
SPECIFICATION DSpec
INVARIANTS Volume Multilinear Fubini
