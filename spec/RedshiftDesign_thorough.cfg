CONSTANTS Cosmos <- TCosmos
 ZMax <- TZ
 PowerLaws <- TPL
 Madaus <- TMD
SPECIFICATION DSpec
INVARIANTS PsiNormalised Converged VolumeElement LuminosityDerivative FixedIsSampled
