CONSTANTS Depth = 4
 Sets <- QuickSets
SPECIFICATION DSpec
INVARIANTS TypeOK Coherent Retryable
PROPERTIES OnlyOnSuccess
