CONSTANTS KeySets <- QKeySets
SPECIFICATION DSpec
INVARIANTS OrderIndependent NothingLost
