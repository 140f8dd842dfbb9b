SPECIFICATION Spec
CONSTANTS Fine = 4 Wrong = FALSE
INVARIANTS Unit
