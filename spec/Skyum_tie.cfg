SPECIFICATION Spec
CONSTANTS GX = 2 GY = 2 NMax = 5 TieBreak = FALSE Emitting = FALSE
INVARIANTS NeverEmpty Minimal
