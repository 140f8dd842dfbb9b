SPECIFICATION Spec
CONSTANTS GX = 2 GY = 2 NMax = 5 TieBreak = TRUE Emitting = FALSE
INVARIANTS Minimal NeverEmpty HullIsExtreme RectLaw
PROPERTY Terminates
