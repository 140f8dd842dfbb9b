SPECIFICATION Spec
CONSTANTS Fine = 4 Wrong = TRUE
INVARIANTS Unit
