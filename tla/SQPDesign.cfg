CONSTANTS
  Bits = 0
  NPick = 3
  Steps = 1
  Gmax = 2
SPECIFICATION Spec
INVARIANTS IsKkt Minimises ResidualMeansKkt Sym Definite Secant DampedSecant
CHECK_DEADLOCK FALSE
