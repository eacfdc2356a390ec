SPECIFICATION Spec
CONSTANTS
  MaxPk = 5
  NChan = 2
INVARIANTS OnlyWanted Complete ClosedFirst
PROPERTIES Finishes
