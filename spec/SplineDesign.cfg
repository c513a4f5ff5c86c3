CONSTANTS Counts <- QCounts
 Ranges <- QRanges
 Shapes <- QShapes
SPECIFICATION DSpec
INVARIANTS Passes System Exact Smooth Density
