SPECIFICATION Spec
CONSTANT FCodes = {1, 2}
INVARIANTS InRange Congruent
