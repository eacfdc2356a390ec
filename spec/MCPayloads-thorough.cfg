SPECIFICATION Spec
CONSTANTS
  MaxU = 3
  Sizes = {0, 1, 4}
INVARIANTS Conforms Sound
