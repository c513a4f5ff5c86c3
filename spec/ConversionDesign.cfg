CONSTANTS Shape <- QShape
 Moments <- QMoments
 CommonShape <- QCShape
 CommonMoments <- QCMoments
SPECIFICATION DSpec
INVARIANTS Conserves Idempotent CommonLast RoundTrip
