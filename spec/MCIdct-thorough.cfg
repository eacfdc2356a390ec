SPECIFICATION Spec
CONSTANT Values <- Wide
INVARIANT Near
