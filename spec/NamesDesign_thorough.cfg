CONSTANTS Depth = 4
SPECIFICATION Spec
INVARIANTS Function NonEmpty Distinct Regular FixedOut
