CONSTANTS MaxEvents = 4
 Lens = {1, 2, 3, 5}
 Maxima = {0, 1, 2, 3, 10}
 Labels = {"range", "shuffled", "repeated"}
SPECIFICATION Spec
INVARIANTS Announced Equal Distinct Bounded Complete
