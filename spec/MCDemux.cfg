SPECIFICATION Spec
CONSTANTS
  MaxPk = 3
  NChan = 2
INVARIANTS OnlyWanted Complete ClosedFirst
PROPERTIES Finishes
