CONSTANTS Betas <- QBetas
 Xis <- QXis
 Gauss <- QGauss
 Rhos <- QRhos
 Fine = 60
SPECIFICATION DSpec
INVARIANTS Normalised Factorises IidIsIndependent Isotropic
