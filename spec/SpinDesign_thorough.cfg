CONSTANTS Betas <- TBetas
 Xis <- TXis
 Gauss <- TGauss
 Rhos <- TRhos
 Fine = 120
SPECIFICATION DSpec
INVARIANTS Normalised Factorises IidIsIndependent Isotropic
