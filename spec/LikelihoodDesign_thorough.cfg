CONSTANTS Vals = {"0", "0.5", "2", "nan", "inf"}
 Sels = {"0.3", "1", "2.5", "1e-9", "0", "inf", "nan"}
 Vars = {"0", "0.01", "0.2"}
 Cuts = {"inf", "0", "0.2", "0.5", "0.8", "1", "3"}
SPECIFICATION DSpec
INVARIANTS AlwaysFinite NoCutNoChange EventOrder SampleOrder Profile CutMonotone VarNonNegative NoSpread GammaOk
