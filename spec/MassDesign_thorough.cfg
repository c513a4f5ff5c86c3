CONSTANTS Masses <- TMasses
 Slopes <- TSlopes
 Lams <- TLams
 Peaks <- TPeaks
 Fine = 150
SPECIFICATION DSpec
INVARIANTS Normalised RatioNormalised Continuous Vanishes Limits IdenticalSymmetric
