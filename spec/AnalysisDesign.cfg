CONSTANTS Masses <- QMasses
 Spins <- QSpins
 Reds <- QReds
 Depth = 3
SPECIFICATION DSpec
INVARIANTS GivenEither Units Frames Exchange SelfConsistent Threshold
