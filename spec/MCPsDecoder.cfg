SPECIFICATION Spec
CONSTANTS
  MaxU = 5
INVARIANTS InOrder Outcome
PROPERTIES Finishes
