SPECIFICATION Spec
CONSTANT Values <- Quick
INVARIANT Near
