SPECIFICATION Spec
CONSTANTS Len0 = 5 Cut = "last" Emitting = TRUE
INVARIANTS Companion
