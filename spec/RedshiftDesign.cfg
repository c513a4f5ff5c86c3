CONSTANTS Cosmos <- QCosmos
 ZMax <- QZ
 PowerLaws <- QPL
 Madaus <- QMD
SPECIFICATION DSpec
INVARIANTS PsiNormalised Converged VolumeElement LuminosityDerivative FixedIsSampled
