SPECIFICATION Spec
CONSTANTS
  MaxU = 7
INVARIANTS InOrder Outcome
PROPERTIES Finishes
