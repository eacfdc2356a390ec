SPECIFICATION Spec
CONSTANTS
  MaxU = 2
  Sizes = {0, 1, 4}
INVARIANTS Conforms Sound
