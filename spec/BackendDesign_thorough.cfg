CONSTANTS Depth = 4
 Sets <- AllSets
SPECIFICATION DSpec
INVARIANTS TypeOK Coherent Retryable
PROPERTIES OnlyOnSuccess
