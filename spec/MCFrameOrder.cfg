SPECIFICATION Spec
CONSTANTS
  M = 8
  MaxB = 2
  MaxAnchors = 0
  Ids = 8
INVARIANTS Agree Prompt
