CONSTANTS KeySets <- TKeySets
SPECIFICATION DSpec
INVARIANTS OrderIndependent NothingLost
