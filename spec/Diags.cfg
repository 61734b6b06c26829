SPECIFICATION Spec
CONSTANTS
  NMax = 8
  M = 3
  Steps = 6
INVARIANTS OnceUpper OnceLower Balance OnPlane
CHECK_DEADLOCK FALSE
