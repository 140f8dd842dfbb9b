SPECIFICATION Spec
CONSTANTS N = 3 Mesh = "xy" Emitting = TRUE
INVARIANTS Complete Joined Parity
