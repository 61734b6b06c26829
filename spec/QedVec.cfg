SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  MaxLen = 2
  Steps = 4
VIEW Shape
INVARIANTS SoundInv Independent Deep Steal
CHECK_DEADLOCK FALSE
