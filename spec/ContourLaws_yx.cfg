SPECIFICATION Spec
CONSTANTS N = 3 Mesh = "yx" Emitting = FALSE
INVARIANTS Complete Joined Parity
