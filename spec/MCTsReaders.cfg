SPECIFICATION Spec
CONSTANTS
  MaxPk = 2
  Sizes = {0, 1, 5}
INVARIANTS Conforms Sound
