CONSTANTS Masses <- QMasses
 Slopes <- QSlopes
 Lams <- QLams
 Peaks <- QPeaks
 Fine = 60
SPECIFICATION DSpec
INVARIANTS Normalised RatioNormalised Continuous Vanishes Limits IdenticalSymmetric
