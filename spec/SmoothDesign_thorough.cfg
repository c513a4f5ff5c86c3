CONSTANTS Cfgs <- TCfgs
 Deltas <- TDeltas
 Betas <- TBetas
 Slopes <- TSlopes
SPECIFICATION DSpec
INVARIANTS WindowShape Unsmoothed NormalisedQ ZeroBelow
