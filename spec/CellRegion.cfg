SPECIFICATION Spec
CONSTANTS W = 3 H = 3 Holes = "sub" Emitting = TRUE
INVARIANTS Area Member Box Centre
