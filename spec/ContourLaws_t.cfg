SPECIFICATION Spec
CONSTANTS N = 4 Mesh = "xy" Emitting = TRUE
INVARIANTS Complete Joined Parity
