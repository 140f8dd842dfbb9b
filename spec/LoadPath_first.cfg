SPECIFICATION Spec
CONSTANTS Len0 = 4 Cut = "first" Emitting = FALSE
INVARIANTS Companion
