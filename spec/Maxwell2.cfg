SPECIFICATION Spec
CONSTANTS
  Nx <- N333
  Stencils <- S2
  Nodal = FALSE
  Steps = 2
INVARIANTS DivBKept GaussKept
PROPERTY UniformKept
