SPECIFICATION Spec
CONSTANT FCodes = {1, 2, 3}
INVARIANTS InRange Congruent Reaches
