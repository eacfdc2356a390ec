SPECIFICATION Spec
CONSTANTS
  MaxPk = 3
  Sizes = {0, 1, 2, 5}
INVARIANTS Conforms Sound
