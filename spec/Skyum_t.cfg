SPECIFICATION Spec
CONSTANTS GX = 3 GY = 3 NMax = 6 TieBreak = TRUE Emitting = TRUE
INVARIANTS Minimal NeverEmpty
