SPECIFICATION Spec
CONSTANTS
  Nx <- N523
  Stencils <- S4
  Nodal = FALSE
  Steps = 1
INVARIANTS DivBKept GaussKept
PROPERTY UniformKept
