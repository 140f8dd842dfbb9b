SPECIFICATION Spec
CONSTANTS N = 3 Mesh = "short" Emitting = FALSE
INVARIANTS Complete Joined Parity
