CONSTANTS Vals = {"0", "0.5", "1", "3", "1000"}
 MaxLen = 7
 Totals = {"default", "4", "8", "40", "1000000"}
 Events = {"inf", "0.3", "1", "2", "7"}
SPECIFICATION DSpec
INVARIANTS Scaling VarianceOk MissedAreZero Monotone NeverForUnknown
