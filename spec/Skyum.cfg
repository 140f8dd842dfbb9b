SPECIFICATION Spec
CONSTANTS GX = 3 GY = 2 NMax = 5 TieBreak = TRUE Emitting = TRUE
INVARIANTS Minimal NeverEmpty
