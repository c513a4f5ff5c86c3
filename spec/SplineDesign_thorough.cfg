CONSTANTS Counts <- TCounts
 Ranges <- TRanges
 Shapes <- QShapes
SPECIFICATION DSpec
INVARIANTS Passes System Exact Smooth Density
