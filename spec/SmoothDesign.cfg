CONSTANTS Cfgs <- QCfgs
 Deltas <- QDeltas
 Betas <- QBetas
 Slopes <- QSlopes
SPECIFICATION DSpec
INVARIANTS WindowShape Unsmoothed NormalisedQ ZeroBelow
