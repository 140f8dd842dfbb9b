SPECIFICATION Spec
CONSTANTS W = 3 H = 3 Holes = "all" Emitting = FALSE
INVARIANTS Area
