SPECIFICATION Spec
CONSTANTS NMax = 4 G = 1 Removal = "mask" Emitting = TRUE
INVARIANT Correct
