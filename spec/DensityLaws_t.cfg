SPECIFICATION Spec
CONSTANTS Fine = 10 Wrong = FALSE
INVARIANTS Unit
