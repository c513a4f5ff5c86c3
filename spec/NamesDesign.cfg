CONSTANTS Depth = 3
SPECIFICATION Spec
INVARIANTS Function NonEmpty Distinct Regular FixedOut
