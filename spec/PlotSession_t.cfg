SPECIFICATION Spec
CONSTANTS Steps = 5 Close = "own" Draw = "new" Emitting = TRUE
INVARIANT Faithful
