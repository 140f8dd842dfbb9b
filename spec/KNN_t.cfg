SPECIFICATION Spec
CONSTANTS NMax = 4 G = 2 Removal = "mask" Emitting = TRUE
INVARIANT Correct
