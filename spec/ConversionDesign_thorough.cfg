CONSTANTS Shape <- TShape
 Moments <- QMoments
 CommonShape <- TShape
 CommonMoments <- QCMoments
SPECIFICATION DSpec
INVARIANTS Conserves Idempotent CommonLast RoundTrip
