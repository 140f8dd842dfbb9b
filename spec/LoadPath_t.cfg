SPECIFICATION Spec
CONSTANTS Len0 = 7 Cut = "last" Emitting = TRUE
INVARIANTS Companion
