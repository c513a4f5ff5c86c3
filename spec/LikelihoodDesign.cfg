CONSTANTS Vals = {"0", "0.5", "2", "nan", "inf"}
 Sels = {"0.3", "1", "0", "inf", "nan"}
 Vars = {"0", "0.01"}
 Cuts = {"inf", "0", "0.5", "0.8", "1"}
SPECIFICATION DSpec
INVARIANTS AlwaysFinite NoCutNoChange EventOrder SampleOrder Profile CutMonotone VarNonNegative NoSpread GammaOk
