CONSTANTS MaxEvents = 3
 Lens = {1, 2, 4}
 Maxima = {0, 1, 2, 3, 10}
 Labels = {"range", "shuffled", "repeated", "names"}
SPECIFICATION Spec
INVARIANTS Announced Equal Distinct Bounded Complete
