CONSTANTS
  Bits = 0
  NPick = 9
  Steps = 2
  Gmax = 2
SPECIFICATION Spec
INVARIANTS IsKkt Minimises ResidualMeansKkt Sym Definite Secant DampedSecant
CHECK_DEADLOCK FALSE
