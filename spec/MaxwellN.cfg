SPECIFICATION Spec
CONSTANTS
  Nx <- N414
  Stencils <- S4n
  Nodal = TRUE
  Steps = 2
INVARIANTS DivBKept GaussKept
PROPERTY UniformKept
