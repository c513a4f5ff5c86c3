CONSTANTS Masses <- AllMasses
 Spins <- AllSpins
 Reds <- AllReds
 Depth = 4
SPECIFICATION DSpec
INVARIANTS GivenEither Units Frames Exchange SelfConsistent Threshold
