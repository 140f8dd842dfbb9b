SPECIFICATION Spec
CONSTANTS Len0 = 4 Cut = "stem" Emitting = FALSE
INVARIANTS Companion
