SPECIFICATION Spec
CONSTANTS NMax = 4 G = 1 Removal = "first" Emitting = FALSE
INVARIANT Correct
